//! A family of serializable types, with an independent description of what each value of each
//! looks like as JSON.

use crate::ctx::{Ctx, R};
use crate::form::{DynDe, DynSer, FormDe, FormSer};
use crate::io::*;
use crate::node::*;
use crate::src::Src;
use crate::wops::{gen_f32, gen_f64, gen_i128};
use serdere::{
    deserialize::DeserializeStruct, serialize::SerializeStruct, Deserialize, Deserializer,
    Serialize, Serializer, Struct,
    Utf8Reader, Utf8Writer, Value,
};
use serdere_json::{TextDeserializer, TextSerializer};
use std::cell::Cell;
use std::fmt::Debug;
use std::num::*;

// ---------------------------------------------------------------------------------------------
// The description

/// What a value looks like.
#[derive(Clone, Debug)]
pub enum M {
    Null,
    Bool(bool),
    /// With its range, and whether zero is allowed.
    Int(i128, i128, i128, bool),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    /// A list of any length.
    Seq(Vec<M>),
    /// A tuple, with the name of its type.
    Fixed(Vec<M>, Option<&'static str>),
    /// A list, which its type reads and writes item by item, knowing how many there are.
    Counted(Vec<M>),
    /// With the name of the type.
    Struct(Vec<F>, Option<&'static str>),
    /// By name or by index, with the largest index and an index not in use, if there is one below.
    Tag(String, usize, usize, Option<usize>),
}

#[derive(Clone, Debug)]
pub struct F {
    pub name: String,
    pub m: M,
    /// May be left out, or be null, and still be what it is.
    pub optional: bool,
    /// Must not be left out.
    pub required: bool,
}

thread_local! {
    /// Is the format without null?
    pub static NO_NULL: Cell<bool> = const { Cell::new(false) };
}

/// The name under which a type describes itself.
fn type_name(ident: &'static str) -> &'static str {
    match ident {
        // Renamed
        "Tagged" => "TT",
        "Split" => " Split ",
        _ => ident,
    }
}

pub trait Sample: Sized + Clone + Debug {
    /// May its value be null?
    const NUL: bool = false;
    fn gen(s: &mut Src, size: &mut usize) -> Self;
    fn model(&self) -> M;
    fn same(&self, other: &Self) -> bool;
}

/// A sample that is written as a struct.
pub trait Fields: Sample {
    fn fields(&self, out: &mut Vec<F>);
}

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Sample for $t {
            fn gen(s: &mut Src, _: &mut usize) -> Self {
                gen_i128(s, <$t>::MIN as i128, <$t>::MAX as i128) as $t
            }
            fn model(&self) -> M {
                M::Int(*self as i128, <$t>::MIN as i128, <$t>::MAX as i128, true)
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    )*};
}
ints!(i8, i16, i32, i64, u8, u16, u32, u64);

macro_rules! nonzero {
    ($($t:ident $p:ty),*) => {$(
        impl Sample for $t {
            fn gen(s: &mut Src, z: &mut usize) -> Self {
                $t::new(<$p>::gen(s, z)).unwrap_or($t::new(1).unwrap())
            }
            fn model(&self) -> M {
                M::Int(self.get() as i128, <$p>::MIN as i128, <$p>::MAX as i128, false)
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
        }
    )*};
}
nonzero!(
    NonZeroI8 i8, NonZeroI16 i16, NonZeroI32 i32, NonZeroI64 i64,
    NonZeroU8 u8, NonZeroU16 u16, NonZeroU32 u32, NonZeroU64 u64
);

macro_rules! simple {
    ($($t:ty, $s:ident => $gen:expr, $v:ident => $model:expr, $same:expr;)*) => {$(
        impl Sample for $t {
            fn gen($s: &mut Src, _: &mut usize) -> Self { $gen }
            fn model(&self) -> M { let $v = self; $model }
            fn same(&self, o: &Self) -> bool {
                let f: fn(&Self, &Self) -> bool = $same;
                f(self, o)
            }
        }
    )*};
}
simple! {
    bool, s => s.chance(1, 2), v => M::Bool(*v), |a, b| a == b;
    f32, s => gen_f32(s), v => M::F32(*v), |a, b| a.to_bits() == b.to_bits();
    f64, s => gen_f64(s), v => M::F64(*v), |a, b| a.to_bits() == b.to_bits();
    char, s => gen_char(s), v => M::Char(*v), |a, b| a == b;
    String, s => gen_string(s), v => M::Str(v.clone()), |a, b| a == b;
    (), _s => (), _v => M::Struct(vec![], None), |_, _| true;
}

impl Fields for () {
    fn fields(&self, _: &mut Vec<F>) {}
}

impl<T: Sample> Sample for Option<T> {
    const NUL: bool = true;
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        s.chance(3, 5).then(|| T::gen(s, z))
    }
    fn model(&self) -> M {
        if !T::NUL && !NO_NULL.get() {
            return self.as_ref().map_or(M::Null, T::model);
        }
        let mut fs = vec![F {
            name: "has_value".into(),
            m: M::Bool(self.is_some()),
            optional: false,
            required: true,
        }];
        if let Some(v) = self {
            let m = v.model();
            fs.push(F {
                name: "value".into(),
                optional: matches!(m, M::Null),
                required: false,
                m,
            });
        }
        M::Struct(fs, Some("Option"))
    }
    fn same(&self, o: &Self) -> bool {
        match (self, o) {
            (Some(a), Some(b)) => a.same(b),
            (a, b) => a.is_none() && b.is_none(),
        }
    }
}

impl<T: Sample> Sample for Vec<T> {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        let n = s.size((*z).min(40));
        *z -= n.min(*z);
        let mut v: Self = (0..n).map(|_| T::gen(s, z)).collect();
        // Now and then so many that a count kept in fewer bits would wrap
        if n > 20 && !std::mem::needs_drop::<T>() && s.chance(1, 20) {
            let n = match s.below(3) {
                0 => s.range(120, 130),
                1 => s.range(250, 260),
                _ => s.range(65_530, 65_540),
            };
            v = v.iter().cycle().take(n).cloned().collect();
        }
        v
    }
    fn model(&self) -> M {
        M::Seq(self.iter().map(T::model).collect())
    }
    fn same(&self, o: &Self) -> bool {
        self.len() == o.len() && self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}

impl<T: Sample, const N: usize> Sample for [T; N] {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        std::array::from_fn(|_| T::gen(s, z))
    }
    fn model(&self) -> M {
        M::Fixed(self.iter().map(T::model).collect(), None)
    }
    fn same(&self, o: &Self) -> bool {
        self.iter().zip(o).all(|(a, b)| a.same(b))
    }
}

impl<A: Sample, B: Sample> Sample for (A, B) {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        (A::gen(s, z), B::gen(s, z))
    }
    fn model(&self) -> M {
        M::Fixed(vec![self.0.model(), self.1.model()], None)
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1)
    }
}

impl<A: Sample, B: Sample, C: Sample> Sample for (A, B, C) {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        (A::gen(s, z), B::gen(s, z), C::gen(s, z))
    }
    fn model(&self) -> M {
        M::Fixed(vec![self.0.model(), self.1.model(), self.2.model()], None)
    }
    fn same(&self, o: &Self) -> bool {
        self.0.same(&o.0) && self.1.same(&o.1) && self.2.same(&o.2)
    }
}

fn field<T: Sample>(out: &mut Vec<F>, name: &str, v: &T, default: Option<&T>) {
    let m = v.model();
    out.push(F {
        name: name.to_string(),
        optional: matches!(m, M::Null) || default.is_some_and(|d| d.same(v)),
        required: default.is_none() && !T::NUL,
        m,
    });
}

/// A struct's fields: `field: Type = "name"`, `~` if flattened, `?` if defaulted.
macro_rules! sample_struct {
    (@put $out:ident, $self:ident, $f:ident, $t:ty, ~) => { $self.$f.fields($out); };
    (@put $out:ident, $self:ident, $f:ident, $t:ty, $n:literal) => { field($out, $n, &$self.$f, None); };
    (@put $out:ident, $self:ident, $f:ident, $t:ty, ? $n:literal) => {
        field($out, $n, &$self.$f, Some(&<$t as Default>::default()));
    };
    ($ty:ty { $($f:ident : $t:ty = ($($how:tt)+)),* $(,)? }) => {
        impl Sample for $ty {
            fn gen(s: &mut Src, z: &mut usize) -> Self {
                let _ = (&s, &z);
                Self { $($f: { <$t as Sample>::gen(s, z) }),* }
            }
            fn model(&self) -> M {
                let mut out = Vec::new();
                self.fields(&mut out);
                M::Struct(out, Some(type_name(stringify!($ty))))
            }
            fn same(&self, o: &Self) -> bool {
                let _ = o;
                true $(&& self.$f.same(&o.$f))*
            }
        }
        impl Fields for $ty {
            fn fields(&self, out: &mut Vec<F>) {
                let _ = &out;
                $(sample_struct!(@put out, self, $f, $t, $($how)+);)*
            }
        }
    };
}

// ---------------------------------------------------------------------------------------------
// The types

#[derive(Serialize, Deserialize, Clone, Debug, Default)]
pub struct Flat {
    pub a: u8,
    #[serde(rename = "k\"q")]
    pub q: String,
}
sample_struct!(Flat { a: u8 = ("a"), q: String = ("k\"q") });

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Nums {
    pub i8: i8,
    pub i16: i16,
    pub i32: i32,
    pub i64: i64,
    pub u8: u8,
    pub u16: u16,
    pub u32: u32,
    pub u64: u64,
    pub f32: f32,
    pub f64: f64,
}
sample_struct!(Nums {
    i8: i8 = ("i8"), i16: i16 = ("i16"), i32: i32 = ("i32"), i64: i64 = ("i64"),
    u8: u8 = ("u8"), u16: u16 = ("u16"), u32: u32 = ("u32"), u64: u64 = ("u64"),
    f32: f32 = ("f32"), f64: f64 = ("f64"),
});

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct NonZeros {
    #[serde(rename = "")]
    pub a: NonZeroI8,
    pub b: NonZeroI16,
    pub c: NonZeroI32,
    pub d: NonZeroI64,
    pub e: NonZeroU8,
    pub f: NonZeroU16,
    pub g: NonZeroU32,
    pub h: Option<NonZeroU64>,
}
sample_struct!(NonZeros {
    a: NonZeroI8 = (""), b: NonZeroI16 = ("b"), c: NonZeroI32 = ("c"), d: NonZeroI64 = ("d"),
    e: NonZeroU8 = ("e"), f: NonZeroU16 = ("f"), g: NonZeroU32 = ("g"), h: Option<NonZeroU64> = ("h"),
});

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Unit;
sample_struct!(Unit {});

/// Like `sample_struct`, for enums. Indices are given, as is the largest.
macro_rules! sample_enum {
    (@put $out:ident, $f:ident, $t:ty, ~) => { $f.fields($out); };
    (@put $out:ident, $f:ident, $t:ty, $n:literal) => { field($out, $n, $f, None); };
    (@put $out:ident, $f:ident, $t:ty, ? $n:literal) => {
        field($out, $n, $f, Some(&<$t as Default>::default()));
    };
    ($ty:ty, $tag:expr, $max:expr, $gap:expr, {
        $($v:ident = ($name:literal, $index:literal) { $($f:ident : $t:ty = ($($how:tt)+)),* }),*
    }) => {
        impl Sample for $ty {
            fn gen(s: &mut Src, z: &mut usize) -> Self {
                let _ = &z;
                let all: &[usize] = &[$($index),*];
                match s.pick_copy(all) {
                    $($index => Self::$v { $($f: { <$t as Sample>::gen(s, z) }),* },)*
                    _ => unreachable!(),
                }
            }
            fn model(&self) -> M {
                let tag: Option<&str> = $tag;
                if tag.is_none() {
                    return self.tag_model();
                }
                let mut out = Vec::new();
                self.fields(&mut out);
                M::Struct(out, Some(type_name(stringify!($ty))))
            }
            fn same(&self, o: &Self) -> bool {
                let (mut a, mut b) = (Vec::new(), Vec::new());
                self.fields(&mut a);
                o.fields(&mut b);
                same_fields(&a, &b)
            }
        }
        impl Fields for $ty {
            fn fields(&self, out: &mut Vec<F>) {
                let tag: Option<&str> = $tag;
                out.push(F { name: tag.unwrap_or("").to_string(), m: self.tag_model(), optional: false, required: true });
                match self {
                    $(Self::$v { $($f),* } => { $(sample_enum!(@put out, $f, $t, $($how)+);)* })*
                }
            }
        }
        impl $ty {
            fn tag_model(&self) -> M {
                match self {
                    $(Self::$v { .. } => M::Tag($name.to_string(), $index, $max, $gap),)*
                }
            }
        }
    };
}

fn same_fields(a: &[F], b: &[F]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.name == y.name && same_model(&x.m, &y.m))
}

pub fn same_model(a: &M, b: &M) -> bool {
    match (a, b) {
        (M::Null, M::Null) => true,
        (M::Bool(x), M::Bool(y)) => x == y,
        (M::Int(x, ..), M::Int(y, ..)) => x == y,
        (M::F32(x), M::F32(y)) => x.to_bits() == y.to_bits(),
        (M::F64(x), M::F64(y)) => x.to_bits() == y.to_bits(),
        (M::Char(x), M::Char(y)) => x == y,
        (M::Str(x), M::Str(y)) => x == y,
        (M::Seq(x), M::Seq(y)) | (M::Fixed(x, _), M::Fixed(y, _)) | (M::Counted(x), M::Counted(y)) => {
            x.len() == y.len() && x.iter().zip(y).all(|(x, y)| same_model(x, y))
        }
        (M::Struct(x, _), M::Struct(y, _)) => same_fields(x, y),
        (M::Tag(x, i, ..), M::Tag(y, j, ..)) => x == y && i == j,
        _ => false,
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Plain {
    A,
    #[serde(rename = "bee")]
    B,
    #[serde(rename = "b")]
    C = 7,
    D,
    #[serde(reindex = 2, rename = "\u{e9}t\u{1f600}")]
    E,
    #[serde(rename = "beech")]
    G,
}
sample_enum!(Plain, None, 10, Some(3), {
    A = ("A", 0) {}, B = ("bee", 1) {}, C = ("b", 7) {}, D = ("D", 8) {},
    E = ("\u{e9}t\u{1f600}", 2) {}, G = ("beech", 10) {}
});

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Data {
    Nothing,
    Named {
        a: i64,
        #[serde(rename = "x y")]
        b: Option<String>,
        #[serde(default)]
        c: Vec<bool>,
    },
    #[serde(transparent)]
    Tr(Flat),
    #[serde(transparent, rename = "key1", reindex = 9)]
    TrNamed { inner: Nested },
    #[serde(rename = "flat")]
    Flattened {
        z: char,
        #[serde(flatten)]
        flat: Flat,
        last: u16,
    },
}
impl Sample for Data {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        match s.below(5) {
            0 => Data::Nothing,
            1 => Data::Named {
                a: Sample::gen(s, z),
                b: Sample::gen(s, z),
                c: Sample::gen(s, z),
            },
            2 => Data::Tr(Sample::gen(s, z)),
            3 => Data::TrNamed {
                inner: Sample::gen(s, z),
            },
            _ => Data::Flattened {
                z: Sample::gen(s, z),
                flat: Sample::gen(s, z),
                last: Sample::gen(s, z),
            },
        }
    }
    fn model(&self) -> M {
        let mut out = Vec::new();
        self.fields(&mut out);
        M::Struct(out, Some("Data"))
    }
    fn same(&self, o: &Self) -> bool {
        same_model(&self.model(), &o.model())
    }
}
impl Fields for Data {
    fn fields(&self, out: &mut Vec<F>) {
        let tag = |n: &str, i: usize| F {
            name: "type".into(),
            m: M::Tag(n.into(), i, 9, Some(5)),
            optional: false,
            required: true,
        };
        match self {
            Data::Nothing => out.push(tag("Nothing", 0)),
            Data::Named { a, b, c } => {
                out.push(tag("Named", 1));
                field(out, "a", a, None);
                field(out, "x y", b, None);
                field(out, "c", c, Some(&Vec::new()));
            }
            Data::Tr(v) => {
                out.push(tag("Tr", 2));
                v.fields(out);
            }
            Data::TrNamed { inner } => {
                out.push(tag("key1", 9));
                inner.fields(out);
            }
            Data::Flattened { z, flat, last } => {
                out.push(tag("flat", 4));
                field(out, "z", z, None);
                flat.fields(out);
                field(out, "last", last, None);
            }
        }
    }
}

/// A type with a tag field of its own, and no data in most variants.
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "kind\n", rename = "TT")]
#[repr(u8)]
pub enum Tagged {
    A,
    B = 3,
    #[serde(rename = "with")]
    With { v: f64, w: (u8, i8) },
}
sample_enum!(Tagged, Some("kind\n"), 4, Some(1), {
    A = ("A", 0) {}, B = ("B", 3) {}, With = ("with", 4) { v: f64 = ("v"), w: (u8, i8) = ("w") }
});

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Nested {
    pub o: Option<Flat>,
    pub oo: Option<Option<bool>>,
    pub ooo: Option<Option<Option<u8>>>,
    #[serde(rename = "naïve")]
    pub t: (u8, String, char),
    pub arr: [Option<u16>; 3],
    pub unit: (),
}
sample_struct!(Nested {
    o: Option<Flat> = ("o"), oo: Option<Option<bool>> = ("oo"),
    ooo: Option<Option<Option<u8>>> = ("ooo"),
    t: (u8, String, char) = ("naïve"), arr: [Option<u16>; 3] = ("arr"), unit: () = ("unit"),
});

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Defaults {
    #[serde(default)]
    pub n: i32,
    #[serde(default, rename = "s\t")]
    pub s: String,
    #[serde(default)]
    pub v: Vec<Flat>,
    #[serde(default)]
    pub f: Flat,
    #[serde(default)]
    pub o: Option<u8>,
    #[serde(default)]
    pub b: bool,
    pub req: i8,
    #[serde(default)]
    pub fl: f32,
}
sample_struct!(Defaults {
    n: i32 = (? "n"), s: String = (? "s\t"), v: Vec<Flat> = (? "v"), f: Flat = (? "f"),
    o: Option<u8> = (? "o"), b: bool = (? "b"), req: i8 = ("req"), fl: f32 = (? "fl"),
});

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Mixed {
    pub name: String,
    #[serde(flatten)]
    pub e: Data2,
    pub p: Plain,
    #[serde(flatten)]
    pub flat: Flat,
    pub list: Vec<Option<Plain>>,
    #[serde(flatten)]
    pub nothing: (),
    pub data: Vec<Data>,
}
sample_struct!(Mixed {
    name: String = ("name"), e: Data2 = (~), p: Plain = ("p"), flat: Flat = (~),
    list: Vec<Option<Plain>> = ("list"), nothing: () = (~), data: Vec<Data> = ("data"),
});

/// An enum made to be flattened into something else.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Data2 {
    #[serde(rename = "")]
    Zero,
    One { one: u8 },
    Two { one: i32, two: Vec<u8> },
}
sample_enum!(Data2, Some("type"), 2, None, {
    Zero = ("", 0) {}, One = ("One", 1) { one: u8 = ("one") },
    Two = ("Two", 2) { one: i32 = ("one"), two: Vec<u8> = ("two") }
});

/// Many variants, whose indices go down, and come in no order.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Downward {
    #[serde(reindex = 300)]
    Top = 60,
    Z = 40,
    Y = 30,
    #[serde(rename = "Zz")]
    X = 20,
    W = 10,
    V,
    #[serde(rename = "")]
    U = 5,
    T = 0,
    S,
    #[serde(rename = "To", reindex = 41)]
    R,
}
sample_enum!(Downward, None, 300, Some(21), {
    Top = ("Top", 300) {}, Z = ("Z", 40) {}, Y = ("Y", 30) {}, X = ("Zz", 20) {}, W = ("W", 10) {},
    V = ("V", 11) {}, U = ("", 5) {}, T = ("T", 0) {}, S = ("S", 1) {}, R = ("To", 41) {}
});

/// As above, with data.
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "t")]
#[repr(u32)]
pub enum DownData {
    Big { a: u8 } = 70000,
    #[serde(rename = "big")]
    Mid { a: u16, t2: Option<bool> } = 255,
    Low = 254,
    #[serde(rename = "Bigger")]
    One { #[serde(default)] a: String } = 1,
    Two,
    Three { a: (), b: [u8; 2] },
    #[serde(rename = "Lo")]
    Four,
}
sample_enum!(DownData, Some("t"), 70000, Some(253), {
    Big = ("Big", 70000) { a: u8 = ("a") },
    Mid = ("big", 255) { a: u16 = ("a"), t2: Option<bool> = ("t2") },
    Low = ("Low", 254) {}, One = ("Bigger", 1) { a: String = (? "a") }, Two = ("Two", 2) {},
    Three = ("Three", 3) { a: () = ("a"), b: [u8; 2] = ("b") }, Four = ("Lo", 4) {}
});

/// Nothing but a tag, in a struct.
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "is")]
pub enum Units {
    A,
    B,
}
sample_enum!(Units, Some("is"), 1, None, { A = ("A", 0) {}, B = ("B", 1) {} });

/// An enum with type parameters.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Either<A, B> {
    #[serde(rename = "l")]
    Left { v: A },
    Right { v: B, more: Option<A> },
    #[serde(transparent, reindex = 7)]
    Both(B),
}
impl<A: Sample, B: Fields> Sample for Either<A, B> {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        match s.below(3) {
            0 => Either::Left { v: A::gen(s, z) },
            1 => Either::Right { v: B::gen(s, z), more: Sample::gen(s, z) },
            _ => Either::Both(B::gen(s, z)),
        }
    }
    fn model(&self) -> M {
        let mut out = Vec::new();
        self.fields(&mut out);
        M::Struct(out, Some("Either"))
    }
    fn same(&self, o: &Self) -> bool {
        same_model(&self.model(), &o.model())
    }
}
impl<A: Sample, B: Fields> Fields for Either<A, B> {
    fn fields(&self, out: &mut Vec<F>) {
        let tag = |n: &str, i: usize| F {
            name: "type".into(),
            m: M::Tag(n.into(), i, 7, Some(2)),
            optional: false,
            required: true,
        };
        match self {
            Either::Left { v } => {
                out.push(tag("l", 0));
                field(out, "v", v, None);
            }
            Either::Right { v, more } => {
                out.push(tag("Right", 1));
                field(out, "v", v, None);
                field(out, "more", more, None);
            }
            Either::Both(v) => {
                out.push(tag("Both", 7));
                v.fields(out);
            }
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Gen<T, const N: usize> {
    pub v: T,
    pub more: Vec<T>,
    pub arr: [T; N],
}
impl<T: Sample, const N: usize> Sample for Gen<T, N> {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        Gen {
            v: T::gen(s, z),
            more: Sample::gen(s, z),
            arr: Sample::gen(s, z),
        }
    }
    fn model(&self) -> M {
        let mut out = Vec::new();
        self.fields(&mut out);
        M::Struct(out, Some("Gen"))
    }
    fn same(&self, o: &Self) -> bool {
        self.v.same(&o.v) && self.more.same(&o.more) && self.arr.same(&o.arr)
    }
}
impl<T: Sample, const N: usize> Fields for Gen<T, N> {
    fn fields(&self, out: &mut Vec<F>) {
        field(out, "v", &self.v, None);
        field(out, "more", &self.more, None);
        field(out, "arr", &self.arr, None);
    }
}

/// A struct with a type parameter that is flattened.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Wrap<T> {
    pub before: u8,
    #[serde(flatten)]
    pub inner: T,
    pub after: Option<String>,
}
impl<T: Fields> Sample for Wrap<T> {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        Wrap {
            before: Sample::gen(s, z),
            inner: T::gen(s, z),
            after: Sample::gen(s, z),
        }
    }
    fn model(&self) -> M {
        let mut out = Vec::new();
        self.fields(&mut out);
        M::Struct(out, Some("Wrap"))
    }
    fn same(&self, o: &Self) -> bool {
        self.before == o.before && self.inner.same(&o.inner) && self.after == o.after
    }
}
impl<T: Fields> Fields for Wrap<T> {
    fn fields(&self, out: &mut Vec<F>) {
        field(out, "before", &self.before, None);
        self.inner.fields(out);
        field(out, "after", &self.after, None);
    }
}

/// A struct with many fields, whose names share beginnings.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Wide {
    pub a: u8,
    pub aa: u8,
    pub aaa: Option<u8>,
    pub ab: String,
    pub abc: Vec<u8>,
    pub abcd: bool,
    pub b: i8,
    pub key0: Flat,
    pub key1: Option<Flat>,
    pub key10: u32,
    pub key11: (i8, i8),
    pub key100: f64,
}
sample_struct!(Wide {
    a: u8 = ("a"), aa: u8 = ("aa"), aaa: Option<u8> = ("aaa"), ab: String = ("ab"),
    abc: Vec<u8> = ("abc"), abcd: bool = ("abcd"), b: i8 = ("b"), key0: Flat = ("key0"),
    key1: Option<Flat> = ("key1"), key10: u32 = ("key10"), key11: (i8, i8) = ("key11"),
    key100: f64 = ("key100"),
});

/// What is read as one type and kept as another.
#[derive(Clone, Debug)]
pub struct Doubled(pub u32);
// Not what the default of the proxy becomes
impl Default for Doubled {
    fn default() -> Self {
        Doubled(14)
    }
}
impl From<u16> for Doubled {
    fn from(v: u16) -> Self {
        Doubled(u32::from(v) * 2)
    }
}
#[derive(Clone, Debug)]
pub struct Joined(pub u8, pub String);
impl From<Flat> for Joined {
    fn from(v: Flat) -> Self {
        Joined(v.a, v.q)
    }
}

#[derive(Deserialize, Clone, Debug)]
pub struct Proxied {
    #[serde(proxy = u16)]
    pub x: Doubled,
    #[serde(default, proxy = u16, rename = "why")]
    pub y: Doubled,
    #[serde(flatten, proxy = Flat)]
    pub j: Joined,
}
impl Sample for Proxied {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        Proxied {
            x: u16::gen(s, z).into(),
            y: if s.chance(1, 2) { Doubled::default() } else { u16::gen(s, z).into() },
            j: Flat::gen(s, z).into(),
        }
    }
    fn model(&self) -> M {
        let mut out = Vec::new();
        field(&mut out, "x", &((self.x.0 / 2) as u16), None);
        field(&mut out, "why", &((self.y.0 / 2) as u16), Some(&7));
        field(&mut out, "a", &self.j.0, None);
        field(&mut out, "k\"q", &self.j.1, None);
        M::Struct(out, Some("Proxied"))
    }
    fn same(&self, o: &Self) -> bool {
        self.x.0 == o.x.0 && self.y.0 == o.y.0 && self.j.0 == o.j.0 && self.j.1 == o.j.1
    }
}
// Serialization cannot use proxies, so this one is written by hand
impl<S: Serializer + ?Sized, C: ?Sized> Serialize<S, C> for Proxied {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, _: &mut C) -> Result<(), S::Error> {
        let mut st = value.into_struct(Some("Proxied"))?;
        st.field("x")?.put_u16((self.x.0 / 2) as u16)?;
        st.field("why")?.put_u16((self.y.0 / 2) as u16)?;
        st.field("a")?.put_u8(self.j.0)?;
        st.field("k\"q")?.put_str(&self.j.1)?;
        st.close()
    }
}

// A list that is written with `into_list_sized` and read with `push` and `next`.
#[derive(Clone, Debug)]
pub struct Hand {
    pub items: Vec<u8>,
}
impl Sample for Hand {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        Hand {
            items: Sample::gen(s, z),
        }
    }
    fn model(&self) -> M {
        // Length first, so that the items can be read without asking for the end
        let mut v = vec![M::Int(self.items.len() as i128, 0, u32::MAX as i128, true)];
        v.extend(self.items.iter().map(|i| i.model()));
        M::Counted(v)
    }
    fn same(&self, o: &Self) -> bool {
        self.items == o.items
    }
}
impl<S: Serializer + ?Sized, C: ?Sized> Serialize<S, C> for Hand {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, _: &mut C) -> Result<(), S::Error> {
        let mut list = value.into_list_sized(self.items.len() + 1)?;
        list.push()?.put_u32(self.items.len() as u32)?;
        for (i, item) in self.items.iter().enumerate() {
            assert_eq!(list.rem_len(), Some(self.items.len() - i));
            list.push()?.put_u8(*item)?;
        }
        list.close()
    }
}
impl<D: Deserializer + ?Sized, C: ?Sized> Deserialize<D, C> for Hand {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut C) -> Result<Self, D::Error> {
        let mut list = value.into_list()?;
        let n = list.push()?.get_u32()?;
        let mut items = Vec::new();
        for _ in 0..n {
            items.push(list.push()?.get_u8()?);
        }
        list.close()?;
        Ok(Hand { items })
    }
}

/// A tuple with a name, written and read by hand, with a list that is read to its end.
#[derive(Clone, Debug)]
pub struct Duo {
    pub a: Option<String>,
    pub list: Vec<Flat>,
    pub c: Plain,
}
impl Sample for Duo {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        Duo {
            a: Sample::gen(s, z),
            list: Sample::gen(s, z),
            c: Sample::gen(s, z),
        }
    }
    fn model(&self) -> M {
        M::Fixed(vec![self.a.model(), self.list.model(), self.c.model()], Some("Duo, by hand"))
    }
    fn same(&self, o: &Self) -> bool {
        self.a.same(&o.a) && self.list.same(&o.list) && self.c.same(&o.c)
    }
}
impl<S: Serializer + ?Sized, C: ?Sized> Serialize<S, C> for Duo {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, c: &mut C) -> Result<(), S::Error> {
        let mut t = value.into_tuple(Some("Duo, by hand"))?;
        t.element()?.put_using(&self.a, c)?;
        t.element()?.put_using(&self.list, c)?;
        self.c.serialize(t.element()?, c)?;
        t.close()
    }
}
impl<D: Deserializer + ?Sized, C: ?Sized> Deserialize<D, C> for Duo {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, c: &mut C) -> Result<Self, D::Error> {
        let mut t = value.into_tuple(Some("Duo, by hand"))?;
        let a = t.element()?.get_using(c)?;
        let mut l = t.element()?.into_list()?;
        let len = l.rem_len();
        let mut list = Vec::new();
        while let Some(item) = l.next()? {
            list.push(item.get_using(c)?);
            assert_eq!(l.rem_len(), len.map(|n| n - list.len()));
        }
        let c = Plain::deserialize(t.element()?, c)?;
        t.close()?;
        Ok(Duo { a, list, c })
    }
}

/// Every kind of value, perhaps.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Perhaps {
    pub b: Option<bool>,
    pub i8: Option<i8>,
    pub i16: Option<i16>,
    pub i32: Option<i32>,
    pub i64: Option<i64>,
    pub u8: Option<u8>,
    pub u16: Option<u16>,
    pub u32: Option<u32>,
    pub u64: Option<u64>,
    pub f32: Option<f32>,
    pub f64: Option<f64>,
    pub c: Option<char>,
    pub s: Option<String>,
    pub unit: Option<()>,
    pub derived: Option<Unit>,
    pub t2: Option<(u8, Option<bool>)>,
    pub t3: Option<(bool, i8, char)>,
}
sample_struct!(Perhaps {
    b: Option<bool> = ("b"), i8: Option<i8> = ("i8"), i16: Option<i16> = ("i16"),
    i32: Option<i32> = ("i32"), i64: Option<i64> = ("i64"), u8: Option<u8> = ("u8"),
    u16: Option<u16> = ("u16"), u32: Option<u32> = ("u32"), u64: Option<u64> = ("u64"),
    f32: Option<f32> = ("f32"), f64: Option<f64> = ("f64"), c: Option<char> = ("c"),
    s: Option<String> = ("s"), unit: Option<()> = ("unit"), derived: Option<Unit> = ("derived"),
    t2: Option<(u8, Option<bool>)> = ("t2"), t3: Option<(bool, i8, char)> = ("t3"),
});

/// More of them.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Perhaps2 {
    pub a: Option<NonZeroI8>,
    pub b: Option<NonZeroI16>,
    pub c: Option<NonZeroI32>,
    pub d: Option<NonZeroI64>,
    pub e: Option<NonZeroU8>,
    pub f: Option<NonZeroU16>,
    pub g: Option<NonZeroU32>,
    pub h: Option<NonZeroU64>,
    pub arr: Option<[u8; 2]>,
    pub none: Option<[u8; 0]>,
    pub v: Option<Vec<u8>>,
    pub tag: Option<Plain>,
    pub en: Option<Data2>,
    pub units: Option<Units>,
    pub gen: Option<Gen<u8, 1>>,
    pub hand: Option<Hand>,
}
sample_struct!(Perhaps2 {
    a: Option<NonZeroI8> = ("a"), b: Option<NonZeroI16> = ("b"), c: Option<NonZeroI32> = ("c"),
    d: Option<NonZeroI64> = ("d"), e: Option<NonZeroU8> = ("e"), f: Option<NonZeroU16> = ("f"),
    g: Option<NonZeroU32> = ("g"), h: Option<NonZeroU64> = ("h"), arr: Option<[u8; 2]> = ("arr"),
    none: Option<[u8; 0]> = ("none"), v: Option<Vec<u8>> = ("v"), tag: Option<Plain> = ("tag"),
    en: Option<Data2> = ("en"), units: Option<Units> = ("units"), gen: Option<Gen<u8, 1>> = ("gen"),
    hand: Option<Hand> = ("hand"),
});

// ---------------------------------------------------------------------------------------------
// Everything that goes over a wire

pub trait Wire:
    Sample
    + Send
    + 'static
    + for<'a> Deserialize<TextDeserializer<&'a str>>
    + for<'a> Deserialize<TextDeserializer<Counting<&'a str>>>
    + Deserialize<TextDeserializer<Utf8Reader<SimRead>>>
    + Deserialize<TextDeserializer<Counting<Utf8Reader<SimRead>>>>
    + Deserialize<TextDeserializer<Utf8Reader<std::io::BufReader<SimRead>>>>
    + Deserialize<TextDeserializer<SimText>>
    + for<'a> Serialize<TextSerializer<&'a mut String>>
    + Serialize<TextSerializer<Utf8Writer<SimWrite>>>
    + Serialize<TextSerializer<FailText>>
    + Serialize<FormSer<true>>
    + Serialize<FormSer<false>>
    + Serialize<DynSer>
    + Deserialize<FormDe<true>>
    + Deserialize<FormDe<false>>
    + Deserialize<DynDe>
    + Deserialize<crate::mem::MemDe>
{
}

impl<T> Wire for T where
    T: Sample
        + Send
        + 'static
        + for<'a> Deserialize<TextDeserializer<&'a str>>
        + for<'a> Deserialize<TextDeserializer<Counting<&'a str>>>
        + Deserialize<TextDeserializer<Utf8Reader<SimRead>>>
        + Deserialize<TextDeserializer<Counting<Utf8Reader<SimRead>>>>
        + Deserialize<TextDeserializer<Utf8Reader<std::io::BufReader<SimRead>>>>
        + Deserialize<TextDeserializer<SimText>>
        + for<'a> Serialize<TextSerializer<&'a mut String>>
        + Serialize<TextSerializer<Utf8Writer<SimWrite>>>
        + Serialize<TextSerializer<FailText>>
        + Serialize<FormSer<true>>
        + Serialize<FormSer<false>>
        + Serialize<DynSer>
        + Deserialize<FormDe<true>>
        + Deserialize<FormDe<false>>
        + Deserialize<DynDe>
    + Deserialize<crate::mem::MemDe>
{
}

/// An index past the largest one: close to it, or one that would fit if its upper bits were cut off.
pub fn too_large(s: &mut Src, index: usize, max: usize) -> usize {
    let wrapped = index + (1 << s.pick_copy(&[8, 16, 32]));
    if wrapped > max && s.chance(1, 2) {
        wrapped
    } else {
        max + 1 + s.below(300)
    }
}

/// Something to do with a value of any of the types.
pub trait Job {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R;
}

/// Draws a type and a value of it.
macro_rules! table {
    ($ctx:ident, $job:ident, $($w:literal $t:ty),* $(,)?) => {{
        let weights = [$($w),*];
        let k = $ctx.src.weighted(&weights);
        let mut i = 0;
        let mut z = if $ctx.src.chance(1, 10) { 60 } else { $ctx.src.range(0, 8) };
        $(
            if i == k {
                $ctx.log(|| format!("type: {}", stringify!($t)));
                $ctx.note(stringify!($t).as_bytes());
                let v = <$t as Sample>::gen(&mut $ctx.src, &mut z);
                $ctx.log(|| format!("value: {v:?}"));
                return $job.go::<$t>($ctx, v);
            }
            i += 1;
        )*
        let _ = i;
        unreachable!()
    }};
}

pub fn with_sample<J: Job>(ctx: &mut Ctx, job: J) -> R {
    table! {
        ctx, job,
        2 Flat,
        1 u64,
        1 i32,
        1 bool,
        1 f64,
        1 f32,
        1 String,
        1 char,
        1 (),
        1 Unit,
        1 Option<u8>,
        1 Option<Option<String>>,
        2 Vec<String>,
        1 Vec<Option<Vec<i8>>>,
        1 [u16; 4],
        1 [(); 2],
        1 [String; 0],
        1 (bool, Flat),
        1 (Option<char>, Vec<f64>, Plain),
        2 Nums,
        2 Perhaps,
        2 Perhaps2,
        2 NonZeros,
        2 Plain,
        4 Data,
        2 Tagged,
        4 Nested,
        4 Defaults,
        5 Mixed,
        2 Gen<Option<Flat>, 2>,
        2 Gen<Data2, 1>,
        2 Wrap<Data>,
        2 Wrap<Wrap2>,
        4 Wide,
        3 Proxied,
        2 Hand,
        2 Duo,
        2 Vec<Wide>,
        2 Vec<Data>,
        1 NonZeroU16,
        2 Downward,
        3 DownData,
        1 Units,
        3 Either<Option<u8>, Flat>,
        1 Vec<Downward>,
        1 Vec<(Units, u8)>,
        1 Weld,
        2 Welded,
        1 Raw,
        1 RawData,
        1 Many,
        2 Sparse,
        2 SparseData,
        1 Broad,
        1 Preset,
        3 Split,
        2 SplitTag,
        3 Halves,
        1 [u8; 40],
        1 [Option<bool>; 258],
    }
}

/// Names which are keywords: `r#` is how they are spelled in Rust, not part of the name.
#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum RawTag {
    r#if,
    r#else,
    r,
    #[serde(rename = "r#if")]
    Fourth,
}
sample_enum!(RawTag, None, 3, None, {
    r#if = ("if", 0) {}, r#else = ("else", 1) {}, r = ("r", 2) {}, Fourth = ("r#if", 3) {}
});

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Raw {
    pub r#type: RawTag,
    pub r#fn: Option<u8>,
    #[serde(default)]
    pub r#match: Vec<RawTag>,
    #[serde(rename = "r#type")]
    pub r#loop: bool,
    pub r: i8,
}
sample_struct!(Raw {
    r#type: RawTag = ("type"), r#fn: Option<u8> = ("fn"), r#match: Vec<RawTag> = (? "match"),
    r#loop: bool = ("r#type"), r: i8 = ("r"),
});

#[allow(non_camel_case_types)]
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "r#type")]
pub enum RawData {
    r#in { r#type: u8, #[serde(default)] r#as: String },
    r#struct,
    Flat { #[serde(flatten)] r#dyn: Flat },
}
sample_enum!(RawData, Some("r#type"), 2, None, {
    r#in = ("in", 0) { r#type: u8 = ("type"), r#as: String = (? "as") },
    r#struct = ("struct", 1) {},
    Flat = ("Flat", 2) { r#dyn: Flat = (~) }
});

/// More variants than fit a byte.
#[rustfmt::skip]
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Many {
    V0, V1, V2, V3, V4, V5, V6, V7, V8, V9, V10, V11,
    V12, V13, V14, V15, V16, V17, V18, V19, V20, V21, V22, V23,
    V24, V25, V26, V27, V28, V29, V30, V31, V32, V33, V34, V35,
    V36, V37, V38, V39, V40, V41, V42, V43, V44, V45, V46, V47,
    V48, V49, V50, V51, V52, V53, V54, V55, V56, V57, V58, V59,
    V60, V61, V62, V63, V64, V65, V66, V67, V68, V69, V70, V71,
    V72, V73, V74, V75, V76, V77, V78, V79, V80, V81, V82, V83,
    V84, V85, V86, V87, V88, V89, V90, V91, V92, V93, V94, V95,
    V96, V97, V98, V99, V100, V101, V102, V103, V104, V105, V106, V107,
    V108, V109, V110, V111, V112, V113, V114, V115, V116, V117, V118, V119,
    V120, V121, V122, V123, V124, V125, V126, V127, V128, V129, V130, V131,
    V132, V133, V134, V135, V136, V137, V138, V139, V140, V141, V142, V143,
    V144, V145, V146, V147, V148, V149, V150, V151, V152, V153, V154, V155,
    V156, V157, V158, V159, V160, V161, V162, V163, V164, V165, V166, V167,
    V168, V169, V170, V171, V172, V173, V174, V175, V176, V177, V178, V179,
    V180, V181, V182, V183, V184, V185, V186, V187, V188, V189, V190, V191,
    V192, V193, V194, V195, V196, V197, V198, V199, V200, V201, V202, V203,
    V204, V205, V206, V207, V208, V209, V210, V211, V212, V213, V214, V215,
    V216, V217, V218, V219, V220, V221, V222, V223, V224, V225, V226, V227,
    V228, V229, V230, V231, V232, V233, V234, V235, V236, V237, V238, V239,
    V240, V241, V242, V243, V244, V245, V246, V247, V248, V249, V250, V251,
    V252, V253, V254, V255, V256, V257, V258, V259, V260, V261, V262, V263,
    V264, V265, V266, V267, V268, V269, V270, V271, V272, V273, V274, V275,
    V276, V277, V278, V279, V280, V281, V282, V283, V284, V285, V286, V287,
    V288, V289, V290, V291, V292, V293, V294, V295, V296, V297, V298, V299,
}
#[rustfmt::skip]
sample_enum!(Many, None, 299, None, {
    V0 = ("V0", 0) {}, V1 = ("V1", 1) {}, V2 = ("V2", 2) {}, V3 = ("V3", 3) {},
    V4 = ("V4", 4) {}, V5 = ("V5", 5) {}, V6 = ("V6", 6) {}, V7 = ("V7", 7) {},
    V8 = ("V8", 8) {}, V9 = ("V9", 9) {}, V10 = ("V10", 10) {}, V11 = ("V11", 11) {},
    V12 = ("V12", 12) {}, V13 = ("V13", 13) {}, V14 = ("V14", 14) {}, V15 = ("V15", 15) {},
    V16 = ("V16", 16) {}, V17 = ("V17", 17) {}, V18 = ("V18", 18) {}, V19 = ("V19", 19) {},
    V20 = ("V20", 20) {}, V21 = ("V21", 21) {}, V22 = ("V22", 22) {}, V23 = ("V23", 23) {},
    V24 = ("V24", 24) {}, V25 = ("V25", 25) {}, V26 = ("V26", 26) {}, V27 = ("V27", 27) {},
    V28 = ("V28", 28) {}, V29 = ("V29", 29) {}, V30 = ("V30", 30) {}, V31 = ("V31", 31) {},
    V32 = ("V32", 32) {}, V33 = ("V33", 33) {}, V34 = ("V34", 34) {}, V35 = ("V35", 35) {},
    V36 = ("V36", 36) {}, V37 = ("V37", 37) {}, V38 = ("V38", 38) {}, V39 = ("V39", 39) {},
    V40 = ("V40", 40) {}, V41 = ("V41", 41) {}, V42 = ("V42", 42) {}, V43 = ("V43", 43) {},
    V44 = ("V44", 44) {}, V45 = ("V45", 45) {}, V46 = ("V46", 46) {}, V47 = ("V47", 47) {},
    V48 = ("V48", 48) {}, V49 = ("V49", 49) {}, V50 = ("V50", 50) {}, V51 = ("V51", 51) {},
    V52 = ("V52", 52) {}, V53 = ("V53", 53) {}, V54 = ("V54", 54) {}, V55 = ("V55", 55) {},
    V56 = ("V56", 56) {}, V57 = ("V57", 57) {}, V58 = ("V58", 58) {}, V59 = ("V59", 59) {},
    V60 = ("V60", 60) {}, V61 = ("V61", 61) {}, V62 = ("V62", 62) {}, V63 = ("V63", 63) {},
    V64 = ("V64", 64) {}, V65 = ("V65", 65) {}, V66 = ("V66", 66) {}, V67 = ("V67", 67) {},
    V68 = ("V68", 68) {}, V69 = ("V69", 69) {}, V70 = ("V70", 70) {}, V71 = ("V71", 71) {},
    V72 = ("V72", 72) {}, V73 = ("V73", 73) {}, V74 = ("V74", 74) {}, V75 = ("V75", 75) {},
    V76 = ("V76", 76) {}, V77 = ("V77", 77) {}, V78 = ("V78", 78) {}, V79 = ("V79", 79) {},
    V80 = ("V80", 80) {}, V81 = ("V81", 81) {}, V82 = ("V82", 82) {}, V83 = ("V83", 83) {},
    V84 = ("V84", 84) {}, V85 = ("V85", 85) {}, V86 = ("V86", 86) {}, V87 = ("V87", 87) {},
    V88 = ("V88", 88) {}, V89 = ("V89", 89) {}, V90 = ("V90", 90) {}, V91 = ("V91", 91) {},
    V92 = ("V92", 92) {}, V93 = ("V93", 93) {}, V94 = ("V94", 94) {}, V95 = ("V95", 95) {},
    V96 = ("V96", 96) {}, V97 = ("V97", 97) {}, V98 = ("V98", 98) {}, V99 = ("V99", 99) {},
    V100 = ("V100", 100) {}, V101 = ("V101", 101) {}, V102 = ("V102", 102) {}, V103 = ("V103", 103) {},
    V104 = ("V104", 104) {}, V105 = ("V105", 105) {}, V106 = ("V106", 106) {}, V107 = ("V107", 107) {},
    V108 = ("V108", 108) {}, V109 = ("V109", 109) {}, V110 = ("V110", 110) {}, V111 = ("V111", 111) {},
    V112 = ("V112", 112) {}, V113 = ("V113", 113) {}, V114 = ("V114", 114) {}, V115 = ("V115", 115) {},
    V116 = ("V116", 116) {}, V117 = ("V117", 117) {}, V118 = ("V118", 118) {}, V119 = ("V119", 119) {},
    V120 = ("V120", 120) {}, V121 = ("V121", 121) {}, V122 = ("V122", 122) {}, V123 = ("V123", 123) {},
    V124 = ("V124", 124) {}, V125 = ("V125", 125) {}, V126 = ("V126", 126) {}, V127 = ("V127", 127) {},
    V128 = ("V128", 128) {}, V129 = ("V129", 129) {}, V130 = ("V130", 130) {}, V131 = ("V131", 131) {},
    V132 = ("V132", 132) {}, V133 = ("V133", 133) {}, V134 = ("V134", 134) {}, V135 = ("V135", 135) {},
    V136 = ("V136", 136) {}, V137 = ("V137", 137) {}, V138 = ("V138", 138) {}, V139 = ("V139", 139) {},
    V140 = ("V140", 140) {}, V141 = ("V141", 141) {}, V142 = ("V142", 142) {}, V143 = ("V143", 143) {},
    V144 = ("V144", 144) {}, V145 = ("V145", 145) {}, V146 = ("V146", 146) {}, V147 = ("V147", 147) {},
    V148 = ("V148", 148) {}, V149 = ("V149", 149) {}, V150 = ("V150", 150) {}, V151 = ("V151", 151) {},
    V152 = ("V152", 152) {}, V153 = ("V153", 153) {}, V154 = ("V154", 154) {}, V155 = ("V155", 155) {},
    V156 = ("V156", 156) {}, V157 = ("V157", 157) {}, V158 = ("V158", 158) {}, V159 = ("V159", 159) {},
    V160 = ("V160", 160) {}, V161 = ("V161", 161) {}, V162 = ("V162", 162) {}, V163 = ("V163", 163) {},
    V164 = ("V164", 164) {}, V165 = ("V165", 165) {}, V166 = ("V166", 166) {}, V167 = ("V167", 167) {},
    V168 = ("V168", 168) {}, V169 = ("V169", 169) {}, V170 = ("V170", 170) {}, V171 = ("V171", 171) {},
    V172 = ("V172", 172) {}, V173 = ("V173", 173) {}, V174 = ("V174", 174) {}, V175 = ("V175", 175) {},
    V176 = ("V176", 176) {}, V177 = ("V177", 177) {}, V178 = ("V178", 178) {}, V179 = ("V179", 179) {},
    V180 = ("V180", 180) {}, V181 = ("V181", 181) {}, V182 = ("V182", 182) {}, V183 = ("V183", 183) {},
    V184 = ("V184", 184) {}, V185 = ("V185", 185) {}, V186 = ("V186", 186) {}, V187 = ("V187", 187) {},
    V188 = ("V188", 188) {}, V189 = ("V189", 189) {}, V190 = ("V190", 190) {}, V191 = ("V191", 191) {},
    V192 = ("V192", 192) {}, V193 = ("V193", 193) {}, V194 = ("V194", 194) {}, V195 = ("V195", 195) {},
    V196 = ("V196", 196) {}, V197 = ("V197", 197) {}, V198 = ("V198", 198) {}, V199 = ("V199", 199) {},
    V200 = ("V200", 200) {}, V201 = ("V201", 201) {}, V202 = ("V202", 202) {}, V203 = ("V203", 203) {},
    V204 = ("V204", 204) {}, V205 = ("V205", 205) {}, V206 = ("V206", 206) {}, V207 = ("V207", 207) {},
    V208 = ("V208", 208) {}, V209 = ("V209", 209) {}, V210 = ("V210", 210) {}, V211 = ("V211", 211) {},
    V212 = ("V212", 212) {}, V213 = ("V213", 213) {}, V214 = ("V214", 214) {}, V215 = ("V215", 215) {},
    V216 = ("V216", 216) {}, V217 = ("V217", 217) {}, V218 = ("V218", 218) {}, V219 = ("V219", 219) {},
    V220 = ("V220", 220) {}, V221 = ("V221", 221) {}, V222 = ("V222", 222) {}, V223 = ("V223", 223) {},
    V224 = ("V224", 224) {}, V225 = ("V225", 225) {}, V226 = ("V226", 226) {}, V227 = ("V227", 227) {},
    V228 = ("V228", 228) {}, V229 = ("V229", 229) {}, V230 = ("V230", 230) {}, V231 = ("V231", 231) {},
    V232 = ("V232", 232) {}, V233 = ("V233", 233) {}, V234 = ("V234", 234) {}, V235 = ("V235", 235) {},
    V236 = ("V236", 236) {}, V237 = ("V237", 237) {}, V238 = ("V238", 238) {}, V239 = ("V239", 239) {},
    V240 = ("V240", 240) {}, V241 = ("V241", 241) {}, V242 = ("V242", 242) {}, V243 = ("V243", 243) {},
    V244 = ("V244", 244) {}, V245 = ("V245", 245) {}, V246 = ("V246", 246) {}, V247 = ("V247", 247) {},
    V248 = ("V248", 248) {}, V249 = ("V249", 249) {}, V250 = ("V250", 250) {}, V251 = ("V251", 251) {},
    V252 = ("V252", 252) {}, V253 = ("V253", 253) {}, V254 = ("V254", 254) {}, V255 = ("V255", 255) {},
    V256 = ("V256", 256) {}, V257 = ("V257", 257) {}, V258 = ("V258", 258) {}, V259 = ("V259", 259) {},
    V260 = ("V260", 260) {}, V261 = ("V261", 261) {}, V262 = ("V262", 262) {}, V263 = ("V263", 263) {},
    V264 = ("V264", 264) {}, V265 = ("V265", 265) {}, V266 = ("V266", 266) {}, V267 = ("V267", 267) {},
    V268 = ("V268", 268) {}, V269 = ("V269", 269) {}, V270 = ("V270", 270) {}, V271 = ("V271", 271) {},
    V272 = ("V272", 272) {}, V273 = ("V273", 273) {}, V274 = ("V274", 274) {}, V275 = ("V275", 275) {},
    V276 = ("V276", 276) {}, V277 = ("V277", 277) {}, V278 = ("V278", 278) {}, V279 = ("V279", 279) {},
    V280 = ("V280", 280) {}, V281 = ("V281", 281) {}, V282 = ("V282", 282) {}, V283 = ("V283", 283) {},
    V284 = ("V284", 284) {}, V285 = ("V285", 285) {}, V286 = ("V286", 286) {}, V287 = ("V287", 287) {},
    V288 = ("V288", 288) {}, V289 = ("V289", 289) {}, V290 = ("V290", 290) {}, V291 = ("V291", 291) {},
    V292 = ("V292", 292) {}, V293 = ("V293", 293) {}, V294 = ("V294", 294) {}, V295 = ("V295", 295) {},
    V296 = ("V296", 296) {}, V297 = ("V297", 297) {}, V298 = ("V298", 298) {}, V299 = ("V299", 299) {}
});

/// Indices around the limits of integer types.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Sparse {
    A,
    B = 127,
    C,
    D = 255,
    E,
    F = 32_767,
    G,
    H = 65_535,
    I,
    J = 2_147_483_648,
    K = 4_294_967_295,
    L,
}
sample_enum!(Sparse, None, 4_294_967_296usize, Some(257), {
    A = ("A", 0) {}, B = ("B", 127) {}, C = ("C", 128) {}, D = ("D", 255) {}, E = ("E", 256) {},
    F = ("F", 32_767) {}, G = ("G", 32_768) {}, H = ("H", 65_535) {}, I = ("I", 65_536) {},
    J = ("J", 2_147_483_648) {}, K = ("K", 4_294_967_295) {}, L = ("L", 4_294_967_296) {}
});

/// The same, with data.
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = "at")]
pub enum SparseData {
    A { x: u8 },
    #[serde(reindex = 256)]
    B,
    #[serde(reindex = 65536)]
    C { x: Option<u8> },
    #[serde(reindex = 4294967296)]
    D,
    #[serde(reindex = 255)]
    E,
}
sample_enum!(SparseData, Some("at"), 4_294_967_296usize, Some(257), {
    A = ("A", 0) { x: u8 = ("x") }, B = ("B", 256) {}, C = ("C", 65_536) { x: Option<u8> = ("x") },
    D = ("D", 4_294_967_296) {}, E = ("E", 255) {}
});

/// More fields than a machine word has bits.
#[rustfmt::skip]
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Broad {
    pub f0: u8,
    pub f1: Option<u16>,
    pub f2: String,
    pub f3: bool,
    pub f4: Vec<bool>,
    pub f5: Option<char>,
    pub f6: i64,
    pub f7: u8,
    pub f8: Option<u16>,
    #[serde(default)]
    pub f9: String,
    pub f10: bool,
    pub f11: Vec<bool>,
    pub f12: Option<char>,
    pub f13: i64,
    pub f14: u8,
    pub f15: Option<u16>,
    pub f16: String,
    pub f17: bool,
    #[serde(default)]
    pub f18: Vec<bool>,
    pub f19: Option<char>,
    pub f20: i64,
    pub f21: u8,
    pub f22: Option<u16>,
    pub f23: String,
    pub f24: bool,
    pub f25: Vec<bool>,
    pub f26: Option<char>,
    pub f27: i64,
    pub f28: u8,
    pub f29: Option<u16>,
    #[serde(default)]
    pub f30: String,
    pub f31: bool,
    pub f32: Vec<bool>,
    pub f33: Option<char>,
    pub f34: i64,
    pub f35: u8,
    pub f36: Option<u16>,
    pub f37: String,
    pub f38: bool,
    #[serde(default)]
    pub f39: Vec<bool>,
    pub f40: Option<char>,
    pub f41: i64,
    pub f42: u8,
    pub f43: Option<u16>,
    pub f44: String,
    pub f45: bool,
    pub f46: Vec<bool>,
    pub f47: Option<char>,
    pub f48: i64,
    pub f49: u8,
    pub f50: Option<u16>,
    #[serde(default)]
    pub f51: String,
    pub f52: bool,
    pub f53: Vec<bool>,
    pub f54: Option<char>,
    pub f55: i64,
    pub f56: u8,
    pub f57: Option<u16>,
    pub f58: String,
    pub f59: bool,
    #[serde(default)]
    pub f60: Vec<bool>,
    pub f61: Option<char>,
    pub f62: i64,
    pub f63: u8,
    pub f64: Option<u16>,
    pub f65: String,
    pub f66: bool,
    pub f67: Vec<bool>,
    pub f68: Option<char>,
    pub f69: i64,
    pub f70: u8,
    pub f71: Option<u16>,
    #[serde(default)]
    pub f72: String,
    pub f73: bool,
    pub f74: Vec<bool>,
    pub f75: Option<char>,
    pub f76: i64,
    pub f77: u8,
    pub f78: Option<u16>,
    pub f79: String,
}
#[rustfmt::skip]
sample_struct!(Broad {
    f0: u8 = ("f0"), f1: Option<u16> = ("f1"), f2: String = ("f2"),
    f3: bool = ("f3"), f4: Vec<bool> = ("f4"), f5: Option<char> = ("f5"),
    f6: i64 = ("f6"), f7: u8 = ("f7"), f8: Option<u16> = ("f8"),
    f9: String = (? "f9"), f10: bool = ("f10"), f11: Vec<bool> = ("f11"),
    f12: Option<char> = ("f12"), f13: i64 = ("f13"), f14: u8 = ("f14"),
    f15: Option<u16> = ("f15"), f16: String = ("f16"), f17: bool = ("f17"),
    f18: Vec<bool> = (? "f18"), f19: Option<char> = ("f19"), f20: i64 = ("f20"),
    f21: u8 = ("f21"), f22: Option<u16> = ("f22"), f23: String = ("f23"),
    f24: bool = ("f24"), f25: Vec<bool> = ("f25"), f26: Option<char> = ("f26"),
    f27: i64 = ("f27"), f28: u8 = ("f28"), f29: Option<u16> = ("f29"),
    f30: String = (? "f30"), f31: bool = ("f31"), f32: Vec<bool> = ("f32"),
    f33: Option<char> = ("f33"), f34: i64 = ("f34"), f35: u8 = ("f35"),
    f36: Option<u16> = ("f36"), f37: String = ("f37"), f38: bool = ("f38"),
    f39: Vec<bool> = (? "f39"), f40: Option<char> = ("f40"), f41: i64 = ("f41"),
    f42: u8 = ("f42"), f43: Option<u16> = ("f43"), f44: String = ("f44"),
    f45: bool = ("f45"), f46: Vec<bool> = ("f46"), f47: Option<char> = ("f47"),
    f48: i64 = ("f48"), f49: u8 = ("f49"), f50: Option<u16> = ("f50"),
    f51: String = (? "f51"), f52: bool = ("f52"), f53: Vec<bool> = ("f53"),
    f54: Option<char> = ("f54"), f55: i64 = ("f55"), f56: u8 = ("f56"),
    f57: Option<u16> = ("f57"), f58: String = ("f58"), f59: bool = ("f59"),
    f60: Vec<bool> = (? "f60"), f61: Option<char> = ("f61"), f62: i64 = ("f62"),
    f63: u8 = ("f63"), f64: Option<u16> = ("f64"), f65: String = ("f65"),
    f66: bool = ("f66"), f67: Vec<bool> = ("f67"), f68: Option<char> = ("f68"),
    f69: i64 = ("f69"), f70: u8 = ("f70"), f71: Option<u16> = ("f71"),
    f72: String = (? "f72"), f73: bool = ("f73"), f74: Vec<bool> = ("f74"),
    f75: Option<char> = ("f75"), f76: i64 = ("f76"), f77: u8 = ("f77"),
    f78: Option<u16> = ("f78"), f79: String = ("f79"),
});

/// A flattened struct in a flattened struct.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Wrap2 {
    #[serde(flatten)]
    pub d: Defaults,
    pub x: u8,
}
sample_struct!(Wrap2 { d: Defaults = (~), x: u8 = ("x") });

/// A struct written and read by hand, with another one flattened into it, and a borrowed string.
#[derive(Clone, Debug)]
pub struct Weld {
    pub name: String,
    pub d: Wrap2,
    pub tail: u8,
}
sample_struct!(Weld { name: String = ("name"), d: Wrap2 = (~), tail: u8 = ("tail") });
impl<S: Serializer + ?Sized, C: ?Sized> Serialize<S, C> for Weld {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, c: &mut C) -> Result<(), S::Error> {
        serdere::serialize::serialize_struct(value, self, c, Some("Weld"))
    }
}
impl<S: Serializer + ?Sized, C: ?Sized> SerializeStruct<S, C> for Weld {
    fn serialize_content(&self, st: &mut Struct<S>, _: &mut C) -> Result<(), S::Error> {
        Serialize::<S>::serialize(self.name.as_str(), st.field("name")?, &mut ())?;
        st.inline_put(&self.d)?;
        st.field("tail")?.put(&self.tail)
    }
}
impl<D: Deserializer + ?Sized, C: ?Sized> Deserialize<D, C> for Weld {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, c: &mut C) -> Result<Self, D::Error> {
        serdere::deserialize::deserialize_struct(value, c, Some("Weld"))
    }
}
impl<D: Deserializer + ?Sized, C: ?Sized> DeserializeStruct<D, C> for Weld {
    fn deserialize_content(st: &mut Struct<D>, _: &mut C) -> Result<Self, D::Error> {
        Ok(Weld {
            name: st.field("name")?.get()?,
            d: st.inline_get()?,
            tail: st.field("tail")?.get()?,
        })
    }
}

/// It is flattened in turn.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Welded {
    pub first: bool,
    #[serde(flatten)]
    pub w: Weld,
    pub last: Option<Weld>,
}
sample_struct!(Welded { first: bool = ("first"), w: Weld = (~), last: Option<Weld> = ("last") });

/// Does the text say what the model does, in the order it does?
pub fn m_says(n: &SNode, m: &M) -> bool {
    match (&n.kind, m) {
        (SKind::Null, M::Null) => true,
        (SKind::Bool(a), M::Bool(b)) => a == b,
        (SKind::Num(t), M::Int(v, ..)) => num_int(t) == Some(*v),
        (SKind::Num(t), M::F32(v)) => num_f32(t).to_bits() == v.to_bits(),
        (SKind::Num(t), M::F64(v)) => num_f64(t).to_bits() == v.to_bits(),
        (SKind::Str(a), M::Str(b)) => a == b,
        (SKind::Str(a), M::Char(b)) => *a == b.to_string(),
        (SKind::Str(a), M::Tag(b, ..)) => a == b,
        (SKind::Arr(a), M::Seq(b) | M::Fixed(b, _) | M::Counted(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| m_says(x, y))
        }
        (SKind::Obj(a), M::Struct(b, _)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.key == y.name && m_says(&x.val, &y.m))
        }
        _ => false,
    }
}

// ---------------------------------------------------------------------------------------------
// Careless types

/// How a `Drip` is careless.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Careless {
    /// Not at all.
    No,
    /// It drops its value.
    Drops,
    /// It does something with its value that fails, or leaves it half-way, and ignores that.
    Spoils,
    /// It ignores errors.
    Ignores,
}

thread_local! {
    /// How, and after how many others, a `Drip` is careless.
    pub static DRIP: Cell<(Careless, usize)> = const { Cell::new((Careless::No, 0)) };
    /// The I/O events so far when one was.
    pub static DRIPPED: Cell<Option<u64>> = const { Cell::new(None) };
}

fn dripped() {
    if DRIPPED.get().is_none() {
        DRIPPED.set(Some(events()));
    }
}

/// Says how to be careless, if it is time to.
fn drip() -> Careless {
    match DRIP.get() {
        (how @ (Careless::Drops | Careless::Spoils), 0) => {
            DRIP.set((Careless::No, 0));
            how
        }
        (how @ (Careless::Drops | Careless::Spoils), n) => {
            DRIP.set((how, n - 1));
            Careless::No
        }
        (how, _) => how,
    }
}

/// A number that may be careless about being read or written.
#[derive(Clone, Debug, Default)]
pub struct Drip(pub u8);
impl Sample for Drip {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        Drip(u8::gen(s, z))
    }
    fn model(&self) -> M {
        self.0.model()
    }
    fn same(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl<S: Serializer + ?Sized, C: ?Sized> Serialize<S, C> for Drip {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, _: &mut C) -> Result<(), S::Error> {
        match drip() {
            Careless::No => return value.put_u8(self.0),
            Careless::Drops => dripped(),
            Careless::Spoils => {
                let _ = value.into_list_sized(1).map(drop);
                dripped();
            }
            Careless::Ignores => {
                if value.put_u8(self.0).is_err() {
                    dripped();
                }
            }
        }
        Ok(())
    }
}
impl<D: Deserializer + ?Sized, C: ?Sized> Deserialize<D, C> for Drip {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, _: &mut C) -> Result<Self, D::Error> {
        match drip() {
            Careless::No => return value.get_u8().map(Drip),
            Careless::Drops => dripped(),
            Careless::Spoils => {
                let _ = value.get_bool();
                dripped();
            }
            Careless::Ignores => match value.get_u8() {
                Ok(v) => return Ok(Drip(v)),
                Err(_) => dripped(),
            },
        }
        Ok(Drip(0))
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DripIn {
    pub x: Drip,
    #[serde(default)]
    pub y: Drip,
}
sample_struct!(DripIn { x: Drip = ("x"), y: Drip = (? "y") });

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum DripEn {
    A,
    B {
        p: Drip,
        q: Option<Drip>,
    },
    #[serde(rename = "D")]
    D {
        #[serde(flatten)]
        i: DripIn,
        last: Drip,
    },
}
sample_enum!(DripEn, Some("type"), 2, None, {
    A = ("A", 0) {}, B = ("B", 1) { p: Drip = ("p"), q: Option<Drip> = ("q") },
    D = ("D", 2) { i: DripIn = (~), last: Drip = ("last") }
});

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct DripSt {
    pub a: Drip,
    pub b: Vec<Drip>,
    pub c: Option<Drip>,
    #[serde(flatten)]
    pub d: DripIn,
    pub e: [Drip; 2],
    pub g: DripEn,
    pub h: (Drip, Option<DripIn>),
    pub o: Option<Option<Drip>>,
}
sample_struct!(DripSt {
    a: Drip = ("a"), b: Vec<Drip> = ("b"), c: Option<Drip> = ("c"), d: DripIn = (~),
    e: [Drip; 2] = ("e"), g: DripEn = ("g"), h: (Drip, Option<DripIn>) = ("h"),
    o: Option<Option<Drip>> = ("o"),
});

/// Draws a type with careless parts and a value of it.
pub fn with_drip<J: Job>(ctx: &mut Ctx, job: J) -> R {
    table! {
        ctx, job,
        1 Drip,
        2 Vec<Drip>,
        2 [Drip; 3],
        2 (Drip, Drip),
        2 (Drip, Drip, Drip),
        1 Option<Drip>,
        1 Option<Option<Drip>>,
        3 DripIn,
        4 DripEn,
        6 DripSt,
        2 Vec<DripEn>,
    }
}

/// Its default is not what the defaults of its parts make up.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Preset {
    pub level: u8,
    #[serde(default)]
    pub name: String,
}
impl Default for Preset {
    fn default() -> Self {
        Preset { level: 7, name: "std".into() }
    }
}
impl Sample for Preset {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        if s.chance(1, 2) {
            return Self::default();
        }
        Preset { level: u8::gen(s, z), name: String::gen(s, z) }
    }
    fn model(&self) -> M {
        let mut out = Vec::new();
        self.fields(&mut out);
        M::Struct(out, Some("Preset"))
    }
    fn same(&self, o: &Self) -> bool {
        self.level == o.level && self.name == o.name
    }
}
impl Fields for Preset {
    fn fields(&self, out: &mut Vec<F>) {
        field(out, "level", &self.level, None);
        field(out, "name", &self.name, Some(&String::new()));
    }
}

/// What is asked for in several attributes, in any order.
#[derive(Serialize, Deserialize, Clone, Debug)]
#[serde(tag = " kind ")]
#[allow(dead_code)]
/// And with comments.
#[serde(rename = " Split ")]
pub enum Split {
    #[serde(reindex = 0x10)]
    /// Between them.
    #[serde(rename = " first ")]
    First {
        #[serde(rename = " x ")]
        #[serde(default)]
        x: u8,
        #[serde(default)]
        /// Between them.
        #[serde(rename = "y\n")]
        y: Preset,
    },
    #[serde(rename = "\tsecond")]
    #[serde(reindex = 4)]
    Second,
    #[serde(rename = "third ")]
    Third {
        #[serde(flatten)]
        #[allow(unused)]
        p: Preset,
    },
    #[serde(transparent)]
    #[serde(rename = "FOURTH")]
    Fourth { p: Preset },
    #[serde(reindex = 1)]
    #[serde(transparent)]
    Fifth { q: Flat },
}
impl Sample for Split {
    fn gen(s: &mut Src, z: &mut usize) -> Self {
        match s.below(5) {
            0 => Split::First { x: Sample::gen(s, z), y: Sample::gen(s, z) },
            1 => Split::Second,
            2 => Split::Third { p: Sample::gen(s, z) },
            3 => Split::Fourth { p: Sample::gen(s, z) },
            _ => Split::Fifth { q: Sample::gen(s, z) },
        }
    }
    fn model(&self) -> M {
        let mut out = Vec::new();
        self.fields(&mut out);
        M::Struct(out, Some(type_name("Split")))
    }
    fn same(&self, o: &Self) -> bool {
        let (mut a, mut b) = (Vec::new(), Vec::new());
        self.fields(&mut a);
        o.fields(&mut b);
        same_fields(&a, &b)
    }
}
impl Fields for Split {
    fn fields(&self, out: &mut Vec<F>) {
        let tag = |n: &str, i: usize| F {
            name: " kind ".into(),
            m: M::Tag(n.into(), i, 16, Some(5)),
            optional: false,
            required: true,
        };
        match self {
            Split::First { x, y } => {
                out.push(tag(" first ", 16));
                field(out, " x ", x, Some(&0));
                field(out, "y\n", y, Some(&Preset::default()));
            }
            Split::Second => out.push(tag("\tsecond", 4)),
            Split::Third { p } => {
                out.push(tag("third ", 2));
                p.fields(out);
            }
            Split::Fourth { p } => {
                out.push(tag("FOURTH", 3));
                p.fields(out);
            }
            Split::Fifth { q } => {
                out.push(tag("Fifth", 1));
                q.fields(out);
            }
        }
    }
}

/// Indices in every spelling.
#[derive(Serialize, Deserialize, Clone, Debug)]
#[repr(u64)]
pub enum SplitTag {
    #[serde(rename = " ")]
    Hex = 0x1F,
    Next,
    #[serde(rename = "oct ")]
    #[serde(reindex = 8)]
    Oct = 0o17,
    AfterOct,
    Bin = 0b11,
    Big = 1_000,
    Suffix = 9u64,
    Last,
}
sample_enum!(SplitTag, None, 1_000, Some(33), {
    Hex = (" ", 31) {}, Next = ("Next", 32) {}, Oct = ("oct ", 8) {}, AfterOct = ("AfterOct", 16) {},
    Bin = ("Bin", 3) {}, Big = ("Big", 1000) {}, Suffix = ("Suffix", 9) {}, Last = ("Last", 10) {}
});

/// The same for fields.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Halves {
    #[serde(default)]
    #[serde(rename = "left half")]
    pub left: Preset,
    #[serde(rename = "right half ")]
    #[allow(unused)]
    #[serde(default)]
    pub right: Option<Preset>,
    #[serde(flatten)]
    pub inner: Split,
    /// Nothing is asked for here.
    pub plain: SplitTag,
}
sample_struct!(Halves {
    left: Preset = (? "left half"), right: Option<Preset> = (? "right half "), inner: Split = (~),
    plain: SplitTag = ("plain"),
});
