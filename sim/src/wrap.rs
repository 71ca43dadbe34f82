//! Programs over the wrappers (`Value`, `Struct`, `Tuple`, `List`, `Object`, `Entry`,
//! `Collection`): legal ones, checked against the document (C05) or against what was meant to be
//! written (C11), and ones in which some part is abandoned or fails at a drawn step, after which
//! everything that encloses it must refuse to be used (C12).

use crate::ctx::{fail, Ctx, Violation, R};
use crate::driver::{last_panic_at, panic_text};
use crate::ensure;
use crate::io::*;
use crate::node::*;
use crate::rops::gen_doc;
use crate::src::Src;
use crate::wops::{check_text, gen_f32, gen_f64, gen_i128, Shared, Want, INDENTS};
use serdere::deserialize::DeserializeStruct;
use serdere::serialize::SerializeStruct;
use serdere::{
    Deserialize, List, Serialize, Struct, TextReader, TextWriter, Tuple, Utf8Reader, Utf8Writer,
    Value,
};
use serdere_json::{
    Collection, Entry, JsonDeserializer, JsonSerializer, Object, TextDeserializer,
    TextDeserializerConfig, TextSerializer, TextSerializerConfig, ValueDeserializerExt, ValueExt,
    ValueSerialierExt, ValueType,
};
use std::any::Any as StdAny;
use std::fmt::Debug;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// Why a part was not dealt with to its end.
enum Stop<E> {
    Viol(Violation),
    /// An operation failed.
    Lib(E),
    /// It was abandoned.
    Gone,
}

impl<E> From<Violation> for Stop<E> {
    fn from(v: Violation) -> Self {
        Stop::Viol(v)
    }
}

type P<E, T = ()> = Result<T, Stop<E>>;

/// The class of what other properties are about; it ends the run without a verdict.
const QUIET: &str = "quiet";

fn viol<E, T>(class: &str, msg: String) -> P<E, T> {
    Err(Stop::Viol(Violation {
        class: class.into(),
        msg,
    }))
}

#[derive(Debug)]
struct Invalid;

impl std::fmt::Display for Invalid {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "invalid")
    }
}

impl std::error::Error for Invalid {}

/// What is common to reading and writing.
struct Base {
    s: Src,
    /// No part is abandoned and nothing fails.
    clean: bool,
    /// Steps until something is abandoned.
    fuse: Option<usize>,
    log: Vec<String>,
    ops: usize,
    /// Uses that were refused.
    refused: usize,
    viol: Option<Violation>,
    /// The I/O events so far when a part was silently abandoned inside the library's own code.
    gone: Option<u64>,
}

impl Base {
    fn new(s: Src, clean: bool, fuse: Option<usize>) -> Self {
        Self {
            s,
            clean,
            fuse,
            log: Vec::new(),
            ops: 0,
            refused: 0,
            viol: None,
            gone: None,
        }
    }

    fn note(&mut self, what: impl Into<String>) {
        self.ops += 1;
        self.log.push(what.into());
    }

    fn due(&mut self) -> bool {
        match &mut self.fuse {
            Some(0) => {
                self.fuse = None;
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    }

    /// Carries out an operation which must be refused.
    fn refuse<T>(&mut self, what: &str, f: impl FnOnce() -> T) -> R {
        let before = events();
        let res = catch_unwind(AssertUnwindSafe(|| {
            f();
        }));
        let after = events();
        match res {
            Ok(()) => {
                self.note(format!("{what}: NOT REFUSED"));
                return fail("usable", format!("{what} did not panic"));
            }
            Err(e) => {
                let text = panic_text(&*e);
                self.note(format!("{what}: refused ({text})"));
            }
        }
        ensure!(
            before == after,
            "late",
            "{what} panicked only after {} calls into the source or sink",
            after - before
        );
        self.refused += 1;
        Ok(())
    }

    fn lib<E: Debug>(&mut self, op: &str, e: E) -> Stop<E> {
        self.note(format!("{op}: ERROR {e:?}"));
        if self.clean {
            Stop::Viol(Violation {
                class: "rejected".into(),
                msg: format!("{op}: {e:?}"),
            })
        } else {
            Stop::Lib(e)
        }
    }

    /// Judges what became of a call into library code which may have met an abandoned part.
    /// `Ok(Some)` if all is well.
    fn judge<T, E: Debug>(
        &mut self,
        op: &str,
        res: Result<Result<T, E>, Box<dyn StdAny + Send>>,
        passes: bool,
    ) -> P<E, T> {
        if let Some(v) = self.viol.take() {
            return Err(Stop::Viol(v));
        }
        let gone = self.gone.take();
        match (res, gone) {
            (Err(_), Some(ev)) => {
                let n = events() - ev;
                self.note(format!("{op}: refused"));
                if n > 0 {
                    return viol(
                        "late",
                        format!("{op} panicked only after {n} calls into the source or sink"),
                    );
                }
                self.refused += 1;
                Err(Stop::Gone)
            }
            (Err(e), None) => {
                // Not ours
                let text = panic_text(&*e);
                if text == BUDGET {
                    resume_unwind(e);
                }
                let class = if self.clean { "panic" } else { QUIET };
                viol(class, format!("{op}: panic: {text} ({})", last_panic_at()))
            }
            (Ok(Ok(_)), Some(_)) if passes => Err(Stop::Gone),
            (Ok(_), Some(_)) => viol("usable", format!("{op}: an abandoned part went unnoticed")),
            (Ok(Ok(v)), None) => Ok(v),
            (Ok(Err(e)), None) => Err(self.lib(op, e)),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Reading

/// An object and what was read of it.
struct Obj<'a> {
    es: &'a [SEntry],
    read: Vec<bool>,
}

impl<'a> Obj<'a> {
    fn new(es: &'a [SEntry]) -> Self {
        Self {
            es,
            read: vec![false; es.len()],
        }
    }

    fn first(&self) -> Option<usize> {
        self.read.iter().position(|r| !r)
    }

    fn find(&self, key: &str) -> Option<usize> {
        (0..self.es.len()).find(|i| !self.read[*i] && self.es[*i].key == key)
    }
}

struct Rd<'a> {
    b: Base,
    doc: &'a Doc,
    /// What the `Any`s being read are about, and how many were read.
    anys: Vec<(&'a [SNode], usize)>,
    /// The object being read by an `Inl`.
    inl: Option<Obj<'a>>,
    out_of_order: usize,
}

/// Whatever comes next, read by the program.
#[derive(Debug)]
struct Any;

impl<'a, D: JsonDeserializer + ?Sized> Deserialize<D, Rd<'a>> for Any
where
    D::Error: Debug,
{
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, cx: &mut Rd<'a>) -> Result<Self, D::Error> {
        let top = cx.anys.last_mut().expect("any");
        let Some(n) = top.0.get(top.1) else {
            cx.b.viol = Some(Violation {
                class: if cx.b.clean { "value" } else { QUIET }.into(),
                msg: "more items than the document has".into(),
            });
            return Ok(Any);
        };
        top.1 += 1;
        match cx.value(value, n) {
            Ok(()) => return Ok(Any),
            Err(Stop::Viol(v)) => cx.b.viol = Some(v),
            Err(Stop::Lib(e)) => {
                if cx.b.s.chance(1, 2) {
                    return Err(e);
                }
                cx.b.note("(the error is ignored)");
                cx.b.gone = Some(events());
            }
            Err(Stop::Gone) => cx.b.gone = Some(events()),
        }
        Ok(Any)
    }
}

/// A part of an object, read by the program.
struct Inl;

impl<'a, D: JsonDeserializer + ?Sized> Deserialize<D, Rd<'a>> for Inl
where
    D::Error: Debug,
{
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, cx: &mut Rd<'a>) -> Result<Self, D::Error> {
        serdere::deserialize::deserialize_struct(value, cx, None)
    }
}

impl<'a, D: JsonDeserializer + ?Sized> DeserializeStruct<D, Rd<'a>> for Inl
where
    D::Error: Debug,
{
    fn deserialize_content(st: &mut Struct<D>, cx: &mut Rd<'a>) -> Result<Self, D::Error> {
        let n = cx.b.s.range(0, 3);
        for _ in 0..n {
            let r = if cx.b.s.chance(1, 5) {
                cx.inline_struct(st)
            } else {
                cx.field(st)
            };
            let stop = match r {
                Ok(()) => continue,
                Err(stop) => stop,
            };
            match cx.blocked_struct(st, stop) {
                Stop::Viol(v) => cx.b.viol = Some(v),
                Stop::Lib(e) => {
                    if cx.b.s.chance(1, 2) {
                        return Err(e);
                    }
                    cx.b.note("(the error is ignored)");
                    cx.b.gone = Some(events());
                }
                Stop::Gone => cx.b.gone = Some(events()),
            }
            break;
        }
        Ok(Inl)
    }
}

impl<'a> Rd<'a> {
    fn wrong<E>(&mut self, op: &str, got: impl Debug, want: impl Debug) -> P<E> {
        let class = if self.b.clean { "value" } else { QUIET };
        viol(class, format!("{op}: got {got:?}, the document says {want:?}"))
    }

    fn value<D: JsonDeserializer + ?Sized>(&mut self, mut v: Value<D>, n: &'a SNode) -> P<D::Error>
    where
        D::Error: Debug,
    {
        if self.b.due() {
            return self.abandon(v, n);
        }
        if self.b.s.chance(1, 6) {
            let ty = v.ty();
            let want = match n.kind {
                SKind::Null => ValueType::Null,
                SKind::Bool(_) => ValueType::Bool,
                SKind::Num(_) => ValueType::Number,
                SKind::Str(_) => ValueType::String,
                SKind::Arr(_) => ValueType::Array,
                SKind::Obj(_) => ValueType::Object,
            };
            self.b.note(format!("ty: {ty:?}"));
            if ty != want {
                return self.wrong("ty", ty, want);
            }
        }
        let is_coll = matches!(n.kind, SKind::Arr(_) | SKind::Obj(_));
        match self.b.s.weighted(&[12, 1, 1, 1, if is_coll { 4 } else { 0 }, 1]) {
            0 => (),
            1 => {
                return match v.skip() {
                    Ok(()) => {
                        self.b.note("skip");
                        Ok(())
                    }
                    Err(e) => Err(self.b.lib("skip", e)),
                }
            }
            2 => match v.check_null() {
                Ok(r) => {
                    self.b.note(format!("check_null: {r}"));
                    let want = matches!(n.kind, SKind::Null);
                    if r != want {
                        return self.wrong("check_null", r, want);
                    }
                    if r {
                        return Ok(());
                    }
                }
                Err(e) => return Err(self.b.lib("check_null", e)),
            },
            3 => {
                self.anys.push((std::slice::from_ref(n), 0));
                let r = catch_unwind(AssertUnwindSafe(|| v.get_using::<Option<Any>, _>(self)));
                self.anys.pop();
                let got = self.b.judge("Option<Any>", r, true)?;
                let want = matches!(n.kind, SKind::Null);
                if got.is_none() != want {
                    return self.wrong("Option<Any>", got, want);
                }
                return Ok(());
            }
            4 => {
                return match v.into_collection() {
                    Ok(c) => {
                        self.b.note("into_collection");
                        self.collection(c, n)
                    }
                    Err(e) => Err(self.b.lib("into_collection", e)),
                }
            }
            _ => {
                // Through a validation
                let r = catch_unwind(AssertUnwindSafe(|| {
                    v.validate_with(|v| match self.value(v, n) {
                        Ok(()) => Ok(Ok::<(), Invalid>(())),
                        Err(Stop::Lib(e)) => Err(e),
                        Err(Stop::Viol(x)) => {
                            self.b.viol = Some(x);
                            Ok(Ok(()))
                        }
                        Err(Stop::Gone) => {
                            self.b.gone = Some(events());
                            Ok(if self.b.s.chance(1, 2) { Err(Invalid) } else { Ok(()) })
                        }
                    })
                }));
                return self.b.judge("validate_with", r, false);
            }
        }
        macro_rules! get {
            ($get:ident, $want:expr, $same:expr) => {
                match v.$get() {
                    Ok(got) => {
                        self.b.note(format!("{}: {got:?}", stringify!($get)));
                        let want = $want;
                        let same: bool = $same(&got, &want);
                        if !same {
                            return self.wrong(stringify!($get), got, want);
                        }
                        Ok(())
                    }
                    Err(e) => Err(self.b.lib(stringify!($get), e)),
                }
            };
        }
        match &n.kind {
            SKind::Null => match v.into_null() {
                Ok(()) => {
                    self.b.note("into_null");
                    Ok(())
                }
                Err(e) => Err(self.b.lib("into_null", e)),
            },
            SKind::Bool(b) => get!(get_bool, *b, |a: &bool, b: &bool| a == b),
            SKind::Num(t) => {
                let int = if is_plain_int(t) && t != "-0" { num_int(t) } else { None };
                let mut ways = vec![0, 1];
                if let Some(i) = int {
                    let fits = [
                        i8::try_from(i).is_ok(),
                        i16::try_from(i).is_ok(),
                        i32::try_from(i).is_ok(),
                        i64::try_from(i).is_ok(),
                        u8::try_from(i).is_ok(),
                        u16::try_from(i).is_ok(),
                        u32::try_from(i).is_ok(),
                        u64::try_from(i).is_ok(),
                    ];
                    ways.extend((0..8).filter(|k| fits[*k]).map(|k| k + 2));
                }
                let i = int.unwrap_or(0);
                match self.b.s.pick_copy(&ways) {
                    0 => get!(get_f64, num_f64(t), |a: &f64, b: &f64| a.to_bits() == b.to_bits()),
                    1 => get!(get_f32, num_f32(t), |a: &f32, b: &f32| a.to_bits() == b.to_bits()),
                    2 => get!(get_i8, i, |a: &i8, b: &i128| i128::from(*a) == *b),
                    3 => get!(get_i16, i, |a: &i16, b: &i128| i128::from(*a) == *b),
                    4 => get!(get_i32, i, |a: &i32, b: &i128| i128::from(*a) == *b),
                    5 => get!(get_i64, i, |a: &i64, b: &i128| i128::from(*a) == *b),
                    6 => get!(get_u8, i, |a: &u8, b: &i128| i128::from(*a) == *b),
                    7 => get!(get_u16, i, |a: &u16, b: &i128| i128::from(*a) == *b),
                    8 => get!(get_u32, i, |a: &u32, b: &i128| i128::from(*a) == *b),
                    _ => get!(get_u64, i, |a: &u64, b: &i128| i128::from(*a) == *b),
                }
            }
            SKind::Str(text) => {
                let tag = crate::dom::TAGS.get(text).copied();
                let one = text.chars().count() == 1;
                match self.b.s.weighted(&[
                    4,
                    2,
                    if one { 3 } else { 0 },
                    if tag.is_some() { 3 } else { 0 },
                ]) {
                    0 => get!(get_str, text, |a: &str, b: &String| a == b.as_str()),
                    1 => get!(get, text, |a: &String, b: &String| a == b),
                    2 => get!(get_char, text, |a: &char, b: &String| b.starts_with(*a)),
                    _ => match v.get_tag(crate::dom::MAX_TAG, crate::dom::TAGS) {
                        Ok(got) => {
                            self.b.note(format!("get_tag: {got}"));
                            if Some(got) != tag {
                                return self.wrong("get_tag", got, tag);
                            }
                            Ok(())
                        }
                        Err(e) => Err(self.b.lib("get_tag", e)),
                    },
                }
            }
            SKind::Arr(items) => self.array(v, items),
            SKind::Obj(es) => {
                if self.b.s.chance(1, 4) {
                    return match v.into_struct(None) {
                        Ok(st) => {
                            self.b.note("into_struct");
                            self.structure(st, es)
                        }
                        Err(e) => Err(self.b.lib("into_struct", e)),
                    };
                }
                match v.into_object() {
                    Ok(o) => {
                        self.b.note("into_object");
                        self.object(o, Obj::new(es))
                    }
                    Err(e) => Err(self.b.lib("into_object", e)),
                }
            }
        }
    }

    /// Abandons a value, or fails on it, in a drawn way.
    fn abandon<D: JsonDeserializer + ?Sized>(
        &mut self,
        mut v: Value<D>,
        n: &'a SNode,
    ) -> P<D::Error>
    where
        D::Error: Debug,
    {
        macro_rules! wrong_op {
            ($name:literal, $e:expr) => {
                match $e {
                    // It should have failed: not for this property to judge
                    Ok(_) => {
                        self.b.note(concat!($name, ": unexpectedly fine, and dropped"));
                        Err(Stop::Gone)
                    }
                    Err(e) => Err(self.b.lib($name, e)),
                }
            };
        }
        match self.b.s.weighted(&[4, 4, 2, 2, 1]) {
            0 => {
                self.b.note("(value dropped)");
                drop(v);
                Err(Stop::Gone)
            }
            1 => {
                let is_num = matches!(n.kind, SKind::Num(_));
                let is_str = matches!(n.kind, SKind::Str(_));
                let is_arr = matches!(n.kind, SKind::Arr(_));
                match self.b.s.below(6) {
                    0 if !matches!(n.kind, SKind::Bool(_)) => wrong_op!("wrong get_bool", v.get_bool()),
                    1 if !is_num => wrong_op!("wrong get_i64", v.get_i64()),
                    2 if !is_str => wrong_op!("wrong get_str", v.get_str().map(|_| ())),
                    3 if !is_arr => wrong_op!("wrong into_list", v.into_list().map(|_| ())),
                    4 if !is_arr && !matches!(n.kind, SKind::Obj(_)) => {
                        wrong_op!("wrong into_collection", v.into_collection().map(|_| ()))
                    }
                    5 if !matches!(n.kind, SKind::Obj(_)) => {
                        wrong_op!("wrong into_object", v.into_object().map(|_| ()))
                    }
                    _ if !is_num => wrong_op!("wrong get_f64", v.get_f64()),
                    _ => wrong_op!("wrong into_null", v.into_null()),
                }
            }
            2 => {
                let (name, r) = match n.kind {
                    SKind::Arr(_) => match self.b.s.below(3) {
                        0 => ("into_list", v.into_list().map(drop)),
                        1 => ("into_tuple", v.into_tuple(None).map(drop)),
                        _ => ("into_collection", v.into_collection().map(drop)),
                    },
                    SKind::Obj(_) => match self.b.s.below(3) {
                        0 => ("into_object", v.into_object().map(drop)),
                        1 => ("into_struct", v.into_struct(None).map(drop)),
                        _ => ("into_collection", v.into_collection().map(drop)),
                    },
                    SKind::Str(_) => {
                        // Only begun
                        let (d, _) = v.into_raw();
                        ("open_str", d.open_str())
                    }
                    _ => {
                        drop(v);
                        ("value", Ok(()))
                    }
                };
                match r {
                    Ok(()) => {
                        self.b.note(format!("({name} dropped)"));
                        Err(Stop::Gone)
                    }
                    Err(e) => Err(self.b.lib(name, e)),
                }
            }
            3 => {
                let invalid = self.b.s.chance(1, 2);
                let mut ev = 0;
                let res = catch_unwind(AssertUnwindSafe(|| {
                    v.validate_with(|v| {
                        drop(v);
                        ev = events();
                        Ok(if invalid { Err(Invalid) } else { Ok(()) })
                    })
                }));
                self.b.gone = Some(ev);
                self.b.judge("validate_with (dropped)", res, false)
            }
            _ => match v.check_null() {
                Ok(true) => {
                    self.b.note("check_null: true");
                    Ok(())
                }
                Ok(false) => {
                    self.b.note("(check_null: false, and dropped)");
                    Err(Stop::Gone)
                }
                Err(e) => Err(self.b.lib("check_null", e)),
            },
        }
    }

    fn array<D: JsonDeserializer + ?Sized>(&mut self, v: Value<D>, items: &'a [SNode]) -> P<D::Error>
    where
        D::Error: Debug,
    {
        macro_rules! all {
            ($t:ty) => {{
                self.anys.push((items, 0));
                let r = catch_unwind(AssertUnwindSafe(|| v.get_using::<$t, _>(self)));
                let read = self.anys.pop().expect("any").1;
                self.b.judge(stringify!($t), r, false)?;
                if read != items.len() {
                    return self.wrong(stringify!($t), read, items.len());
                }
                return Ok(());
            }};
        }
        match self.b.s.weighted(&[4, 2, 2, 3, 2]) {
            0 => match v.into_list() {
                Ok(l) => {
                    self.b.note("into_list");
                    self.list(l, items, false)
                }
                Err(e) => Err(self.b.lib("into_list", e)),
            },
            1 => match v.into_tuple(None) {
                Ok(t) => {
                    self.b.note("into_tuple");
                    self.tuple(t, items)
                }
                Err(e) => Err(self.b.lib("into_tuple", e)),
            },
            2 => {
                // A list of declared length
                let (d, done) = v.into_raw();
                match d.open_list() {
                    Ok(_) => {
                        self.b.note(format!("open_list ({} items)", items.len()));
                        self.list(List::new(d, done, Some(items.len())), items, true)
                    }
                    Err(e) => Err(self.b.lib("open_list", e)),
                }
            }
            3 => match (items.len(), self.b.s.below(3)) {
                (0, 1) => all!([Any; 0]),
                (1, 1) => all!([Any; 1]),
                (2, 1) => all!([Any; 2]),
                (2, 2) => all!((Any, Any)),
                (3, 1) => all!([Any; 3]),
                (3, 2) => all!((Any, Any, Any)),
                _ => all!(Vec<Any>),
            },
            _ => match v.into_struct(Some("S")) {
                Ok(mut st) => {
                    self.b.note("into_struct");
                    for n in items {
                        if self.b.due() {
                            let stop = match self.b.s.below(2) {
                                0 => Stop::Gone,
                                _ => match st.close() {
                                    Ok(()) => Stop::Gone,
                                    Err(e) => self.b.lib("close (items left)", e),
                                },
                            };
                            return Err(stop);
                        }
                        let r = match st.field("x") {
                            Ok(v) => self.value(v, n),
                            Err(e) => Err(self.b.lib("field", e)),
                        };
                        if let Err(stop) = r {
                            let stop = self.blocked_struct(&mut st, stop);
                            return Err(self.blocked_close(stop, "close struct", || st.close()));
                        }
                    }
                    match st.close() {
                        Ok(()) => Ok(()),
                        Err(e) => Err(self.b.lib("close", e)),
                    }
                }
                Err(e) => Err(self.b.lib("into_struct", e)),
            },
        }
    }

    /// Tries to close what must not be closed anymore, perhaps.
    fn blocked_close<E, T>(&mut self, stop: Stop<E>, what: &str, f: impl FnOnce() -> T) -> Stop<E> {
        if matches!(stop, Stop::Viol(_)) || self.b.s.chance(1, 2) {
            return stop;
        }
        match self.b.refuse(what, f) {
            Ok(()) => stop,
            Err(v) => Stop::Viol(v),
        }
    }

    fn list<D: JsonDeserializer + ?Sized>(
        &mut self,
        mut l: List<D>,
        items: &'a [SNode],
        declared: bool,
    ) -> P<D::Error>
    where
        D::Error: Debug,
    {
        let mut i = 0;
        loop {
            if declared {
                let want = Some(items.len() - i);
                let got = l.rem_len();
                if got != want {
                    return self.wrong("rem_len", got, want);
                }
            }
            if self.b.due() {
                match self.b.s.below(3) {
                    0 => {
                        self.b.note("(list dropped)");
                        return Err(Stop::Gone);
                    }
                    1 if i < items.len() => {
                        if declared {
                            self.b.refuse("close (items left)", || l.close())?;
                            return Err(Stop::Gone);
                        }
                        return match l.close() {
                            Ok(()) => Err(Stop::Gone),
                            Err(e) => Err(self.b.lib("close (items left)", e)),
                        };
                    }
                    _ if i == items.len() && !declared => {
                        let r = match l.push() {
                            Ok(_) => Stop::Gone,
                            Err(e) => self.b.lib("push (no item left)", e),
                        };
                        let stop = self.blocked_list(&mut l, r);
                        return Err(self.blocked_close(stop, "close list", || l.close()));
                    }
                    _ => (),
                }
            }
            if declared && i == items.len() && self.b.s.chance(1, 2) {
                // One too many
                self.b.refuse("push (declared length reached)", || l.push().map(drop))?;
            }
            let end = i == items.len();
            let next = if declared { end && false } else { self.b.s.chance(1, 2) };
            let r = if next {
                match l.next() {
                    Ok(Some(v)) => {
                        self.b.note("next");
                        let Some(n) = items.get(i) else {
                            return self.wrong("next", true, false);
                        };
                        i += 1;
                        self.value(v, n)
                    }
                    Ok(None) => {
                        self.b.note("next: none");
                        if !end {
                            return self.wrong("next", false, true);
                        }
                        return Ok(());
                    }
                    Err(e) => Err(self.b.lib("next", e)),
                }
            } else if end {
                return match l.close() {
                    Ok(()) => {
                        self.b.note("close");
                        Ok(())
                    }
                    Err(e) => Err(self.b.lib("close", e)),
                };
            } else {
                match l.push() {
                    Ok(v) => {
                        self.b.note("push");
                        let n = &items[i];
                        i += 1;
                        self.value(v, n)
                    }
                    Err(e) => Err(self.b.lib("push", e)),
                }
            };
            if let Err(stop) = r {
                let stop = self.blocked_list(&mut l, stop);
                return Err(self.blocked_close(stop, "close list", || l.close()));
            }
        }
    }

    fn blocked_list<D: JsonDeserializer + ?Sized>(
        &mut self,
        l: &mut List<D>,
        stop: Stop<D::Error>,
    ) -> Stop<D::Error> {
        if matches!(stop, Stop::Viol(_)) {
            return stop;
        }
        for _ in 0..self.b.s.range(0, 2) {
            let r = match self.b.s.below(2) {
                0 => self.b.refuse("next (blocked)", || l.next().map(|v| v.is_some())),
                _ => self.b.refuse("push (blocked)", || l.push().map(drop)),
            };
            if let Err(v) = r {
                return Stop::Viol(v);
            }
        }
        stop
    }

    fn tuple<D: JsonDeserializer + ?Sized>(
        &mut self,
        mut t: Tuple<D>,
        items: &'a [SNode],
    ) -> P<D::Error>
    where
        D::Error: Debug,
    {
        for i in 0..=items.len() {
            if self.b.due() {
                match self.b.s.below(3) {
                    0 => {
                        self.b.note("(tuple dropped)");
                        return Err(Stop::Gone);
                    }
                    1 if i < items.len() => {
                        return match t.close() {
                            Ok(()) => Err(Stop::Gone),
                            Err(e) => Err(self.b.lib("close (elements left)", e)),
                        };
                    }
                    _ if i == items.len() => {
                        let stop = match t.element() {
                            Ok(_) => Stop::Gone,
                            Err(e) => self.b.lib("element (none left)", e),
                        };
                        let stop = self.blocked_tuple(&mut t, stop);
                        return Err(self.blocked_close(stop, "close tuple", || t.close()));
                    }
                    _ => (),
                }
            }
            if i == items.len() {
                break;
            }
            let r = match t.element() {
                Ok(v) => {
                    self.b.note("element");
                    self.value(v, &items[i])
                }
                Err(e) => Err(self.b.lib("element", e)),
            };
            if let Err(stop) = r {
                let stop = self.blocked_tuple(&mut t, stop);
                return Err(self.blocked_close(stop, "close tuple", || t.close()));
            }
        }
        match t.close() {
            Ok(()) => {
                self.b.note("close");
                Ok(())
            }
            Err(e) => Err(self.b.lib("close", e)),
        }
    }

    fn blocked_tuple<D: JsonDeserializer + ?Sized>(
        &mut self,
        t: &mut Tuple<D>,
        stop: Stop<D::Error>,
    ) -> Stop<D::Error> {
        if matches!(stop, Stop::Viol(_)) {
            return stop;
        }
        for _ in 0..self.b.s.range(0, 2) {
            if let Err(v) = self.b.refuse("element (blocked)", || t.element().map(drop)) {
                return Stop::Viol(v);
            }
        }
        stop
    }

    fn collection<D: JsonDeserializer + ?Sized>(
        &mut self,
        mut c: Collection<D>,
        n: &'a SNode,
    ) -> P<D::Error>
    where
        D::Error: Debug,
    {
        let kids: Vec<&'a SNode> = match &n.kind {
            SKind::Arr(items) => items.iter().collect(),
            SKind::Obj(es) => es.iter().map(|e| &e.val).collect(),
            _ => unreachable!(),
        };
        let is_obj = matches!(n.kind, SKind::Obj(_));
        if is_obj != matches!(c, Collection::Object(_)) {
            return self.wrong("into_collection is object", !is_obj, is_obj);
        }
        let mut i = 0;
        loop {
            if self.b.due() && self.b.s.chance(1, 2) {
                self.b.note("(collection dropped)");
                return Err(Stop::Gone);
            }
            let r = match c.next() {
                Ok(Some(v)) => {
                    self.b.note("next");
                    let Some(n) = kids.get(i) else {
                        return self.wrong("next", true, false);
                    };
                    i += 1;
                    self.value(v, n)
                }
                Ok(None) => {
                    self.b.note("next: none");
                    if i < kids.len() {
                        return self.wrong("next", false, true);
                    }
                    return Ok(());
                }
                Err(e) => Err(self.b.lib("next", e)),
            };
            if let Err(stop) = r {
                if matches!(stop, Stop::Viol(_)) {
                    return Err(stop);
                }
                for _ in 0..self.b.s.range(0, 2) {
                    self.b
                        .refuse("next (blocked)", || c.next().map(|v| v.is_some()))?;
                }
                let stop = match c {
                    Collection::Object(o) => {
                        self.blocked_close(stop, "close object", || o.close())
                    }
                    Collection::List(l) => self.blocked_close(stop, "close list", || l.close()),
                };
                return Err(stop);
            }
        }
    }

    fn structure<D: JsonDeserializer + ?Sized>(
        &mut self,
        mut st: Struct<D>,
        es: &'a [SEntry],
    ) -> P<D::Error>
    where
        D::Error: Debug,
    {
        let outer = self.inl.replace(Obj::new(es));
        let n = self.b.s.range(0, 4);
        let mut res = Ok(());
        for _ in 0..n {
            if self.b.due() && self.b.s.chance(1, 2) {
                self.b.note("(struct dropped)");
                self.inl = outer;
                return Err(Stop::Gone);
            }
            res = if self.b.s.chance(1, 4) {
                self.inline_struct(&mut st)
            } else {
                self.field(&mut st)
            };
            if res.is_err() {
                break;
            }
            if !st.is_ready() {
                res = self.wrong("is_ready", false, true);
                break;
            }
        }
        self.inl = outer;
        match res {
            Ok(()) => match st.close() {
                Ok(()) => {
                    self.b.note("close");
                    Ok(())
                }
                Err(e) => Err(self.b.lib("close struct", e)),
            },
            Err(stop) => {
                let stop = self.blocked_struct(&mut st, stop);
                Err(self.blocked_close(stop, "close struct", || st.close()))
            }
        }
    }

    /// Reads one field of the object at hand.
    fn field<D: JsonDeserializer + ?Sized>(&mut self, st: &mut Struct<D>) -> P<D::Error>
    where
        D::Error: Debug,
    {
        let inl = self.inl.as_mut().expect("inl");
        let present: Vec<&'static str> = KEYS
            .iter()
            .copied()
            .filter(|k| inl.find(k).is_some())
            .collect();
        let name = if !present.is_empty() && self.b.s.chance(4, 5) {
            present[self.b.s.below(present.len())]
        } else {
            KEYS[self.b.s.below(KEYS.len())]
        };
        let hit = inl.find(name);
        if let Some(i) = hit {
            if inl.first() != Some(i) {
                self.out_of_order += 1;
            }
            inl.read[i] = true;
        }
        let node = hit.map(|i| &inl.es[i].val);
        let r = match st.field(name) {
            Ok(v) => {
                self.b.note(format!("field {name:?}"));
                // What is inside is not about this object
                let saved = self.inl.take();
                let r = match node {
                    Some(n) => self.value(v, n),
                    None => self.absent(v),
                };
                self.inl = saved;
                r
            }
            Err(e) => Err(self.b.lib(&format!("field {name:?}"), e)),
        };
        r
    }

    fn inline_struct<D: JsonDeserializer + ?Sized>(&mut self, st: &mut Struct<D>) -> P<D::Error>
    where
        D::Error: Debug,
    {
        self.b.note("inline_get");
        let r = catch_unwind(AssertUnwindSafe(|| st.inline_get_using::<Inl, _>(self)));
        // What was abandoned inside blocks this struct itself, there is nothing else to notice it
        self.b.judge("inline_get", r, true).map(|_| ())
    }

    fn blocked_struct<D: JsonDeserializer + ?Sized>(
        &mut self,
        st: &mut Struct<D>,
        stop: Stop<D::Error>,
    ) -> Stop<D::Error>
    where
        D::Error: Debug,
    {
        if matches!(stop, Stop::Viol(_)) {
            return stop;
        }
        if st.is_ready() {
            return Stop::Viol(Violation {
                class: "usable".into(),
                msg: "the struct says that it is ready".into(),
            });
        }
        for _ in 0..self.b.s.range(0, 2) {
            let name = KEYS[self.b.s.below(KEYS.len())];
            if let Err(v) = self.b.refuse("field (blocked)", || st.field(name).map(drop)) {
                return Stop::Viol(v);
            }
        }
        stop
    }

    /// Reads a field that the document does not have.
    fn absent<D: JsonDeserializer + ?Sized>(&mut self, mut v: Value<D>) -> P<D::Error>
    where
        D::Error: Debug,
    {
        if self.b.due() {
            return match self.b.s.below(3) {
                0 => {
                    self.b.note("(absent field dropped)");
                    Err(Stop::Gone)
                }
                1 => match v.get_i8() {
                    Ok(_) => Err(Stop::Gone),
                    Err(e) => Err(self.b.lib("get_i8 (absent)", e)),
                },
                _ => match v.into_object() {
                    Ok(_) => Err(Stop::Gone),
                    Err(e) => Err(self.b.lib("into_object (absent)", e)),
                },
            };
        }
        let r = match self.b.s.below(4) {
            0 => match v.check_null() {
                Ok(true) => Ok(()),
                Ok(false) => return self.wrong("check_null (absent)", false, true),
                Err(e) => Err(e),
            },
            1 => v.into_null(),
            2 => v.skip(),
            _ => match v.get::<Option<u8>>() {
                Ok(None) => Ok(()),
                Ok(o) => return self.wrong("Option (absent)", o, None::<u8>),
                Err(e) => Err(e),
            },
        };
        match r {
            Ok(()) => {
                self.b.note("absent");
                Ok(())
            }
            Err(e) => Err(self.b.lib("absent", e)),
        }
    }

    fn key(&mut self, st: &Obj<'a>) -> String {
        let unread: Vec<usize> = (0..st.es.len()).filter(|i| !st.read[*i]).collect();
        match self.b.s.weighted(&[6, 1, 2]) {
            0 if !unread.is_empty() => st.es[unread[self.b.s.below(unread.len())]].key.clone(),
            1 if !st.es.is_empty() => st.es[self.b.s.below(st.es.len())].key.clone(),
            _ => KEYS[self.b.s.below(KEYS.len())].to_string(),
        }
    }

    fn object<D: JsonDeserializer + ?Sized>(
        &mut self,
        mut o: Object<D>,
        mut st: Obj<'a>,
    ) -> P<D::Error>
    where
        D::Error: Debug,
    {
        let keyed = self.b.s.pick_copy(&[3, 1, 8, 0]);
        let iterate = self.b.s.pick_copy(&[3, 1, 8]);
        let inline = self.b.s.pick_copy(&[0, 1, 4]);
        loop {
            let first = st.first();
            if self.b.due() {
                match self.b.s.below(4) {
                    0 => {
                        self.b.note("(object dropped)");
                        return Err(Stop::Gone);
                    }
                    1 if first.is_some() => {
                        return match o.close() {
                            Ok(()) => Err(Stop::Gone),
                            Err(e) => Err(self.b.lib("close (entries left)", e)),
                        };
                    }
                    2 => {
                        let stop = match o.entry("no such key") {
                            Ok(_) => Stop::Gone,
                            Err(e) => self.b.lib("entry (absent)", e),
                        };
                        let stop = self.blocked_object(&mut o, stop);
                        return Err(self.blocked_close(stop, "close object", || o.close()));
                    }
                    _ => (),
                }
            }
            let w = [
                1 + iterate,
                keyed * 2,
                if first.is_some() { keyed } else { 0 },
                inline,
                if first.is_none() { 3 } else { 0 },
            ];
            let r = match self.b.s.weighted(&w) {
                0 => match o.next_entry() {
                    Ok(Some(e)) => {
                        self.b.note("next_entry");
                        let Some(i) = first else {
                            return self.wrong("next_entry", true, false);
                        };
                        st.read[i] = true;
                        let se = &st.es[i];
                        self.entry(e, se)
                    }
                    Ok(None) => {
                        self.b.note("next_entry: none");
                        if first.is_some() {
                            return self.wrong("next_entry", false, true);
                        }
                        return Ok(());
                    }
                    Err(e) => Err(self.b.lib("next_entry", e)),
                },
                1 => {
                    let key = self.key(&st);
                    let hit = st.find(&key);
                    match o.try_entry(&key) {
                        Ok(v) => {
                            let got = v.is_some();
                            self.b.note(format!("try_entry {key:?}: {got}"));
                            match (v, hit) {
                                (Some(v), Some(i)) => {
                                    st.read[i] = true;
                                    if first != Some(i) {
                                        self.out_of_order += 1;
                                    }
                                    let n = &st.es[i].val;
                                    self.value(v, n)
                                }
                                (None, None) => Ok(()),
                                _ => return self.wrong(&format!("try_entry {key:?}"), got, !got),
                            }
                        }
                        Err(e) => Err(self.b.lib(&format!("try_entry {key:?}"), e)),
                    }
                }
                2 => {
                    let unread: Vec<usize> = (0..st.es.len()).filter(|i| !st.read[*i]).collect();
                    let i = unread[self.b.s.below(unread.len())];
                    let key = &st.es[i].key;
                    st.read[i] = true;
                    if first != Some(i) {
                        self.out_of_order += 1;
                    }
                    match o.entry(key) {
                        Ok(v) => {
                            self.b.note(format!("entry {key:?}"));
                            let n = &st.es[i].val;
                            self.value(v, n)
                        }
                        Err(e) => Err(self.b.lib(&format!("entry {key:?}"), e)),
                    }
                }
                3 => {
                    self.b.note("inline");
                    let outer = self.inl.replace(st);
                    let r =
                        catch_unwind(AssertUnwindSafe(|| o.inline_using::<Inl, _>(&mut *self)));
                    st = std::mem::replace(&mut self.inl, outer).expect("inl");
                    self.b.judge("inline", r, false).map(|_| ())
                }
                _ => {
                    return match o.close() {
                        Ok(()) => {
                            self.b.note("close");
                            Ok(())
                        }
                        Err(e) => Err(self.b.lib("close", e)),
                    }
                }
            };
            if let Err(stop) = r {
                let stop = self.blocked_object(&mut o, stop);
                return Err(self.blocked_close(stop, "close object", || o.close()));
            }
        }
    }

    fn blocked_object<D: JsonDeserializer + ?Sized>(
        &mut self,
        o: &mut Object<D>,
        stop: Stop<D::Error>,
    ) -> Stop<D::Error>
    where
        D::Error: Debug,
    {
        if matches!(stop, Stop::Viol(_)) {
            return stop;
        }
        for _ in 0..self.b.s.range(0, 2) {
            let key = KEYS[self.b.s.below(KEYS.len())];
            let r = match self.b.s.below(4) {
                0 => self.b.refuse("entry (blocked)", || o.entry(key).map(drop)),
                1 => self
                    .b
                    .refuse("try_entry (blocked)", || o.try_entry(key).map(|v| v.is_some())),
                2 => self
                    .b
                    .refuse("next_entry (blocked)", || o.next_entry().map(|v| v.is_some())),
                _ => self.b.refuse("inline (blocked)", || o.inline::<()>()),
            };
            if let Err(v) = r {
                return Stop::Viol(v);
            }
        }
        stop
    }

    fn entry<D: JsonDeserializer + ?Sized>(
        &mut self,
        mut e: Entry<D>,
        se: &'a SEntry,
    ) -> P<D::Error>
    where
        D::Error: Debug,
    {
        let mut due = self.b.due();
        if due && self.b.s.chance(1, 3) {
            self.b.note("(entry dropped)");
            return Err(Stop::Gone);
        }
        if self.b.s.chance(2, 3) {
            match e.key() {
                Ok(k) => {
                    let k = k.into_owned();
                    self.b.note(format!("key: {k:?}"));
                    if k != se.key {
                        return self.wrong("key", k, &se.key);
                    }
                }
                Err(x) => {
                    let x = self.b.lib("key", x);
                    if !matches!(x, Stop::Viol(_)) {
                        self.b.refuse("key (failed before)", || e.key().map(drop))?;
                    }
                    return Err(x);
                }
            }
            if self.b.s.chance(1, 4) {
                self.b.refuse("key (read before)", || e.key().map(drop))?;
            }
            if due && self.b.s.chance(1, 2) {
                self.b.note("(entry dropped, its key being read)");
                return Err(Stop::Gone);
            }
            due = false;
        }
        match e.value() {
            Ok(v) => {
                if due {
                    return self.abandon(v, &se.val);
                }
                self.value(v, &se.val)
            }
            Err(e) => Err(self.b.lib("value", e)),
        }
    }

    fn root<T: TextReader>(&mut self, reader: T) -> R
    where
        T::Position: ToLoc,
    {
        let config = if self.doc.comments {
            TextDeserializerConfig::permissive()
        } else {
            TextDeserializerConfig::strict()
        };
        let mut d = match TextDeserializer::new(config, reader) {
            Ok(d) => d,
            Err(e) if self.b.clean => return fail("rejected", format!("new: {e:?}")),
            Err(_) => return Ok(()),
        };
        let doc = self.doc;
        let r = catch_unwind(AssertUnwindSafe(|| {
            Value::with(&mut d, |v| {
                match self.value(v, &doc.root) {
                    Ok(()) => (),
                    Err(Stop::Viol(v)) => self.b.viol = Some(v),
                    Err(Stop::Lib(e)) => {
                        if self.b.s.chance(1, 2) {
                            return Err(e);
                        }
                        self.b.note("(the error is ignored)");
                        self.b.gone = Some(events());
                    }
                    Err(Stop::Gone) => self.b.gone = Some(events()),
                }
                Ok(())
            })
        }));
        match self.b.judge("Value::with", r, false) {
            Ok(()) => match d.close() {
                Ok(()) => {
                    self.b.note("close document");
                    Ok(())
                }
                Err(e) if self.b.clean => fail("rejected", format!("close: {e:?}")),
                Err(_) => Ok(()),
            },
            Err(Stop::Viol(v)) => Err(v),
            Err(_) => Ok(()),
        }
    }
}

fn count_nodes(n: &SNode) -> usize {
    1 + match &n.kind {
        SKind::Arr(items) => items.iter().map(count_nodes).sum(),
        SKind::Obj(es) => es.iter().map(|e| 1 + count_nodes(&e.val)).sum::<usize>(),
        _ => 0,
    }
}

/// Reads a document through the wrappers.
fn read(ctx: &mut Ctx, clean: bool) -> R<(usize, usize)> {
    let doc = gen_doc(ctx);
    let len = doc.t.text.len();
    let mut plan = if ctx.src.chance(1, 4) {
        ReadPlan::gen_delivery(&mut ctx.src, len)
    } else {
        ReadPlan::default()
    };
    let kind = ctx.src.weighted(&[4, 3, 2]);
    let mut fuse = None;
    let mut faulty = None;
    if !clean {
        if kind != 1 && ctx.src.chance(1, 5) {
            let fault = Fault::gen_read(&mut ctx.src);
            if kind == 0 {
                plan.fault = Some((ctx.src.below(len + 1), fault));
                plan.sticky = ctx.src.chance(1, 2);
            } else {
                faulty = Some((ctx.src.below(doc.t.len() + 1), fault));
            }
            ctx.count(&format!("fault.kind.{}", fault.name()), 1);
        } else {
            fuse = Some(ctx.src.below(count_nodes(&doc.root) * 2));
        }
    }
    ctx.log(|| {
        let kind = ["byte stream", "in-memory text", "character reader"][kind];
        format!(
            "text: {:?} (comments: {}) from a {kind}, {plan:?}, {faulty:?}, abandon at {fuse:?}",
            doc.t.text, doc.comments
        )
    });
    ctx.note(doc.t.text.as_bytes());
    ctx.note(format!("{kind} {plan:?}").as_bytes());
    let src = std::mem::replace(&mut ctx.src, Src::replay(vec![]));
    let mut rd = Rd {
        b: Base::new(src, clean, fuse),
        doc: &doc,
        anys: Vec::new(),
        inl: None,
        out_of_order: 0,
    };
    let res = match kind {
        0 => {
            let source = SimRead::new(doc.t.text.as_bytes(), plan);
            let st = source.state.clone();
            let r = match Utf8Reader::new(source) {
                Ok(r) => rd.root(Counting::new(r)),
                Err(e) if clean => fail("construct", e.to_string()),
                Err(_) => Ok(()),
            };
            st.count(ctx);
            r
        }
        1 => rd.root(Counting::new(doc.t.text.as_str())),
        _ => {
            let mut r = SimText::new(&doc.t.chars);
            if let Some((at, fault)) = faulty {
                r = r.with_fault(at, fault);
            }
            rd.root(r)
        }
    };
    let n = (rd.b.refused, rd.out_of_order);
    done(ctx, rd.b);
    match res {
        Err(v) if v.class == QUIET => Ok((0, 0)),
        res => res.map(|()| n),
    }
}

fn done(ctx: &mut Ctx, b: Base) {
    ctx.src = b.s;
    ctx.stats.ticks += b.ops as u64;
    ctx.count("io.operations", b.ops as u64);
    for l in b.log {
        ctx.note(l.as_bytes());
        ctx.log(|| format!("   {l}"));
    }
}

/// C05: entry by entry through the wrappers.
pub fn c05(ctx: &mut Ctx) -> R {
    let (_, out_of_order) = read(ctx, true)?;
    if out_of_order > 0 {
        ctx.nontrivial = true;
    }
    ctx.count("probe.entries_out_of_order", out_of_order as u64);
    Ok(())
}

pub fn c12_read(ctx: &mut Ctx) -> R {
    let (refused, _) = read(ctx, false)?;
    if refused > 0 {
        ctx.nontrivial = true;
    }
    ctx.count("probe.uses_refused", refused as u64);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Writing

struct Wr {
    b: Base,
    depth: usize,
    budget: usize,
    max_depth: usize,
    /// What the `AnyW`s wrote.
    wants: Vec<Vec<Want>>,
    fields: Vec<Vec<(String, Want)>>,
}

/// Whatever the program writes.
struct AnyW;

impl<S: JsonSerializer + ?Sized> Serialize<S, Wr> for AnyW
where
    S::Error: Debug,
{
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, cx: &mut Wr) -> Result<(), S::Error> {
        match cx.value(value) {
            Ok(w) => cx.wants.last_mut().expect("wants").push(w),
            Err(Stop::Viol(v)) => cx.b.viol = Some(v),
            Err(Stop::Lib(e)) => {
                if cx.b.s.chance(1, 2) {
                    return Err(e);
                }
                cx.b.note("(the error is ignored)");
                cx.b.gone = Some(events());
            }
            Err(Stop::Gone) => cx.b.gone = Some(events()),
        }
        Ok(())
    }
}

/// Some fields which the program writes.
struct InlW;

impl<S: JsonSerializer + ?Sized> Serialize<S, Wr> for InlW
where
    S::Error: Debug,
{
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, cx: &mut Wr) -> Result<(), S::Error> {
        serdere::serialize::serialize_struct(value, self, cx, None)
    }
}

impl<S: JsonSerializer + ?Sized> SerializeStruct<S, Wr> for InlW
where
    S::Error: Debug,
{
    fn serialize_content(&self, st: &mut Struct<S>, cx: &mut Wr) -> Result<(), S::Error> {
        let n = cx.b.s.range(0, 3);
        for _ in 0..n {
            let r = if cx.b.s.chance(1, 5) {
                cx.inline(st)
            } else {
                cx.field(st)
            };
            let stop = match r {
                Ok(()) => continue,
                Err(stop) => stop,
            };
            match cx.blocked_struct(st, stop) {
                Stop::Viol(v) => cx.b.viol = Some(v),
                Stop::Lib(e) => {
                    if cx.b.s.chance(1, 2) {
                        return Err(e);
                    }
                    cx.b.note("(the error is ignored)");
                    cx.b.gone = Some(events());
                }
                Stop::Gone => cx.b.gone = Some(events()),
            }
            break;
        }
        Ok(())
    }
}

impl Wr {
    fn value<S: JsonSerializer + ?Sized>(&mut self, v: Value<S>) -> P<S::Error, Want>
    where
        S::Error: Debug,
    {
        self.depth += 1;
        let r = self.value_inner(v);
        self.depth -= 1;
        r
    }

    fn value_inner<S: JsonSerializer + ?Sized>(&mut self, v: Value<S>) -> P<S::Error, Want>
    where
        S::Error: Debug,
    {
        self.budget = self.budget.saturating_sub(1);
        if self.b.due() {
            return match self.b.s.below(6) {
                0 => self.open_drop("into_struct", v.into_struct(Some("S")).map(drop)),
                1 => self.open_drop("into_tuple", v.into_tuple(None).map(drop)),
                2 => self.open_drop("into_list_sized", v.into_list_sized(2).map(drop)),
                3 => self.open_drop("into_list_streaming", v.into_list_streaming().map(drop)),
                4 => self.open_drop("into_object", v.into_object().map(drop)),
                _ => {
                    self.b.note("(value dropped)");
                    Err(Stop::Gone)
                }
            };
        }
        macro_rules! put {
            ($put:ident, $v:expr, $want:expr) => {{
                let x = $v;
                match v.$put(x) {
                    Ok(()) => {
                        self.b.note(format!("{} {:?}", stringify!($put), $want));
                        Ok($want)
                    }
                    Err(e) => Err(self.b.lib(stringify!($put), e)),
                }
            }};
            (int $put:ident $t:ty) => {{
                let i = gen_i128(&mut self.b.s, <$t>::MIN as i128, <$t>::MAX as i128);
                put!($put, i as $t, Want::Int(i))
            }};
        }
        let leaf = self.depth > self.max_depth || self.budget == 0;
        let k = if leaf {
            self.b.s.weighted(&[1, 2, 4, 4, 1, 1])
        } else {
            self.b.s.weighted(&[1, 1, 2, 2, 1, 1, 3, 2, 3, 3, 2])
        };
        match k {
            0 => match v.into_null() {
                Ok(()) => {
                    self.b.note("into_null");
                    Ok(Want::Null)
                }
                Err(e) => Err(self.b.lib("into_null", e)),
            },
            1 => {
                let b = self.b.s.chance(1, 2);
                put!(put_bool, b, Want::Bool(b))
            }
            2 => match self.b.s.below(10) {
                0 => put!(int put_i8 i8),
                1 => put!(int put_i16 i16),
                2 => put!(int put_i32 i32),
                3 => put!(int put_i64 i64),
                4 => put!(int put_u8 u8),
                5 => put!(int put_u16 u16),
                6 => put!(int put_u32 u32),
                7 => put!(int put_u64 u64),
                8 => {
                    let x = gen_f32(&mut self.b.s);
                    put!(put_f32, x, Want::F32(x))
                }
                _ => {
                    let x = gen_f64(&mut self.b.s);
                    put!(put_f64, x, Want::F64(x))
                }
            },
            3 => {
                let t = gen_string(&mut self.b.s);
                if self.b.s.chance(1, 2) {
                    put!(put_str, &t, Want::Str(t.clone()))
                } else {
                    match v.put(&t) {
                        Ok(()) => Ok(Want::Str(t)),
                        Err(e) => Err(self.b.lib("put String", e)),
                    }
                }
            }
            4 => {
                let c = gen_char(&mut self.b.s);
                put!(put_char, c, Want::Str(c.to_string()))
            }
            5 => {
                let i = self.b.s.below(12);
                let name = if self.b.s.chance(2, 3) {
                    Some(self.b.s.pick_copy(KEYS))
                } else {
                    None
                };
                match v.put_tag(12, i, name) {
                    Ok(()) => {
                        self.b.note(format!("put_tag {i} {name:?}"));
                        Ok(match name {
                            Some(n) => Want::Str(n.to_string()),
                            None => Want::Int(i as i128),
                        })
                    }
                    Err(e) => Err(self.b.lib("put_tag", e)),
                }
            }
            6 => self.list(v),
            7 => match v.into_tuple(self.b.s.pick_copy(&[None, Some("T")])) {
                Ok(t) => {
                    self.b.note("into_tuple");
                    self.tuple(t)
                }
                Err(e) => Err(self.b.lib("into_tuple", e)),
            },
            8 => match v.into_struct(self.b.s.pick_copy(&[None, Some("S")])) {
                Ok(st) => {
                    self.b.note("into_struct");
                    self.structure(st)
                }
                Err(e) => Err(self.b.lib("into_struct", e)),
            },
            9 => match v.into_object() {
                Ok(o) => {
                    self.b.note("into_object");
                    self.object(o)
                }
                Err(e) => Err(self.b.lib("into_object", e)),
            },
            _ => {
                // Through the library's own types
                self.wants.push(Vec::new());
                let n = self.b.s.range(0, 3);
                let (name, passes, r) = match self.b.s.below(5) {
                    0 => {
                        let list: Vec<AnyW> = (0..n).map(|_| AnyW).collect();
                        let r = catch_unwind(AssertUnwindSafe(|| v.put_using(&list, self)));
                        ("Vec", false, r)
                    }
                    1 => {
                        let r =
                            catch_unwind(AssertUnwindSafe(|| v.put_using(&[AnyW, AnyW, AnyW], self)));
                        ("array", false, r)
                    }
                    2 => {
                        let r = catch_unwind(AssertUnwindSafe(|| v.put_using(&(AnyW, AnyW), self)));
                        ("tuple", false, r)
                    }
                    3 => {
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            v.put_using(&(AnyW, AnyW, AnyW), self)
                        }));
                        ("tuple", false, r)
                    }
                    _ => {
                        let r = catch_unwind(AssertUnwindSafe(|| v.put_using(&Some(AnyW), self)));
                        ("Some", true, r)
                    }
                };
                self.b.note(format!("put {name}"));
                let mut wants = self.wants.pop().expect("wants");
                self.b.judge(name, r, passes)?;
                if passes {
                    let Some(w) = wants.pop() else {
                        return viol("value", "Some: its content was not written".into());
                    };
                    return Ok(w);
                }
                Ok(Want::Arr(wants))
            }
        }
    }

    fn open_drop<E: Debug>(&mut self, what: &str, r: Result<(), E>) -> P<E, Want> {
        match r {
            Ok(()) => {
                self.b.note(format!("({what} dropped)"));
                Err(Stop::Gone)
            }
            Err(e) => Err(self.b.lib(what, e)),
        }
    }

    fn blocked_close<E, T>(&mut self, stop: Stop<E>, what: &str, f: impl FnOnce() -> T) -> Stop<E> {
        if matches!(stop, Stop::Viol(_)) || self.b.s.chance(1, 2) {
            return stop;
        }
        match self.b.refuse(what, f) {
            Ok(()) => stop,
            Err(v) => Stop::Viol(v),
        }
    }

    fn len(&mut self) -> usize {
        let n = self.b.s.size(10);
        n.min(self.budget)
    }

    fn list<S: JsonSerializer + ?Sized>(&mut self, v: Value<S>) -> P<S::Error, Want>
    where
        S::Error: Debug,
    {
        let n = self.len();
        let declared = self.b.s.chance(1, 2);
        // How many too many are declared: as many as would not show if the upper bits were cut off
        let more = if declared && self.b.fuse.is_some() && self.b.s.chance(1, 6) {
            1 << self.b.s.pick_copy(&[0, 8, 16, 31, 32, 63])
        } else {
            0
        };
        let r = if declared {
            v.into_list_sized(n + more)
        } else {
            v.into_list_streaming()
        };
        let mut l = match r {
            Ok(l) => l,
            Err(e) => return Err(self.b.lib("into_list", e)),
        };
        self.b.note(format!("into_list ({n} items, declared: {declared}, too many declared: {more})"));
        let mut wants = Vec::new();
        for i in 0..n {
            let left = declared.then_some(n + more - i);
            if l.rem_len() != left {
                return viol("value", format!("rem_len: {:?} instead of {left:?}", l.rem_len()));
            }
            if self.b.due() {
                if declared && self.b.s.chance(1, 2) {
                    self.b.refuse("close (items missing)", || l.close())?;
                }
                return Err(Stop::Gone);
            }
            let r = match l.push() {
                Ok(v) => {
                    self.b.note("push");
                    self.value(v)
                }
                Err(e) => Err(self.b.lib("push", e)),
            };
            match r {
                Ok(w) => wants.push(w),
                Err(stop) => {
                    if !matches!(stop, Stop::Viol(_)) && self.b.s.chance(1, 2) {
                        self.b.refuse("push (blocked)", || l.push().map(drop))?;
                    }
                    return Err(self.blocked_close(stop, "close list", || l.close()));
                }
            }
        }
        if more > 0 {
            self.b.fuse = None;
            self.b.refuse("close (items missing)", || l.close())?;
            return Err(Stop::Gone);
        }
        if declared {
            if l.rem_len() != Some(0) {
                return viol("value", format!("rem_len: {:?} at the end", l.rem_len()));
            }
            if self.b.s.chance(1, 3) {
                self.b.refuse("push (declared length reached)", || l.push().map(drop))?;
            }
        }
        match l.close() {
            Ok(()) => {
                self.b.note("close");
                Ok(Want::Arr(wants))
            }
            Err(e) => Err(self.b.lib("close", e)),
        }
    }

    fn tuple<S: JsonSerializer + ?Sized>(&mut self, mut t: Tuple<S>) -> P<S::Error, Want>
    where
        S::Error: Debug,
    {
        let n = self.len();
        let mut wants = Vec::new();
        for _ in 0..n {
            if self.b.due() {
                self.b.note("(tuple dropped)");
                return Err(Stop::Gone);
            }
            let r = match t.element() {
                Ok(v) => {
                    self.b.note("element");
                    self.value(v)
                }
                Err(e) => Err(self.b.lib("element", e)),
            };
            match r {
                Ok(w) => wants.push(w),
                Err(stop) => {
                    if !matches!(stop, Stop::Viol(_)) && self.b.s.chance(1, 2) {
                        self.b.refuse("element (blocked)", || t.element().map(drop))?;
                    }
                    return Err(self.blocked_close(stop, "close tuple", || t.close()));
                }
            }
        }
        match t.close() {
            Ok(()) => {
                self.b.note("close");
                Ok(Want::Arr(wants))
            }
            Err(e) => Err(self.b.lib("close", e)),
        }
    }

    fn structure<S: JsonSerializer + ?Sized>(&mut self, mut st: Struct<S>) -> P<S::Error, Want>
    where
        S::Error: Debug,
    {
        self.fields.push(Vec::new());
        let n = self.len();
        let mut res = Ok(());
        for _ in 0..n {
            if self.b.due() {
                self.b.note("(struct dropped)");
                self.fields.pop();
                return Err(Stop::Gone);
            }
            res = if self.b.s.chance(1, 4) {
                self.inline(&mut st)
            } else {
                self.field(&mut st)
            };
            if res.is_err() {
                break;
            }
            if !st.is_ready() {
                res = viol("value", "the struct says it is not ready".into());
                break;
            }
        }
        let fields = self.fields.pop().expect("fields");
        match res {
            Ok(()) => match st.close() {
                Ok(()) => {
                    self.b.note("close");
                    Ok(Want::Obj(fields))
                }
                Err(e) => Err(self.b.lib("close", e)),
            },
            Err(stop) => {
                let stop = self.blocked_struct(&mut st, stop);
                Err(self.blocked_close(stop, "close struct", || st.close()))
            }
        }
    }

    fn field<S: JsonSerializer + ?Sized>(&mut self, st: &mut Struct<S>) -> P<S::Error>
    where
        S::Error: Debug,
    {
        let name = self.b.s.pick_copy(KEYS);
        match st.field(name) {
            Ok(v) => {
                self.b.note(format!("field {name:?}"));
                let w = self.value(v)?;
                self.fields.last_mut().expect("fields").push((name.to_string(), w));
                Ok(())
            }
            Err(e) => Err(self.b.lib("field", e)),
        }
    }

    fn inline<S: JsonSerializer + ?Sized>(&mut self, st: &mut Struct<S>) -> P<S::Error>
    where
        S::Error: Debug,
    {
        self.b.note("inline_put");
        let r = catch_unwind(AssertUnwindSafe(|| st.inline_put_using(&InlW, self)));
        self.b.judge("inline_put", r, true)
    }

    fn blocked_struct<S: JsonSerializer + ?Sized>(
        &mut self,
        st: &mut Struct<S>,
        stop: Stop<S::Error>,
    ) -> Stop<S::Error> {
        if matches!(stop, Stop::Viol(_)) {
            return stop;
        }
        if st.is_ready() {
            return Stop::Viol(Violation {
                class: "usable".into(),
                msg: "the struct says that it is ready".into(),
            });
        }
        for _ in 0..self.b.s.range(0, 2) {
            let name = KEYS[self.b.s.below(KEYS.len())];
            if let Err(v) = self.b.refuse("field (blocked)", || st.field(name).map(drop)) {
                return Stop::Viol(v);
            }
        }
        stop
    }

    fn object<S: JsonSerializer + ?Sized>(&mut self, mut o: Object<S>) -> P<S::Error, Want>
    where
        S::Error: Debug,
    {
        let n = self.len();
        let mut wants = Vec::new();
        for _ in 0..n {
            if self.b.due() {
                self.b.note("(object dropped)");
                return Err(Stop::Gone);
            }
            let key = gen_key(&mut self.b.s);
            let r = match o.entry(&key) {
                Ok(v) => {
                    self.b.note(format!("entry {key:?}"));
                    self.value(v)
                }
                Err(e) => Err(self.b.lib("entry", e)),
            };
            match r {
                Ok(w) => wants.push((key, w)),
                Err(stop) => {
                    if !matches!(stop, Stop::Viol(_)) && self.b.s.chance(1, 2) {
                        self.b.refuse("entry (blocked)", || o.entry(&key).map(drop))?;
                    }
                    return Err(self.blocked_close(stop, "close object", || o.close()));
                }
            }
        }
        match o.close() {
            Ok(()) => {
                self.b.note("close");
                Ok(Want::Obj(wants))
            }
            Err(e) => Err(self.b.lib("close", e)),
        }
    }

    /// Writes a document, which is as described if it was completed.
    fn root<W: TextWriter>(&mut self, sink: W, indent: Option<&'static str>) -> R<Option<Want>>
    where
        W::Error: Debug,
    {
        let mut s = TextSerializer::new(TextSerializerConfig { indent }, sink);
        let mut want = None;
        let r = catch_unwind(AssertUnwindSafe(|| {
            Value::with(&mut s, |v| {
                match self.value(v) {
                    Ok(w) => want = Some(w),
                    Err(Stop::Viol(v)) => self.b.viol = Some(v),
                    Err(Stop::Lib(e)) => {
                        if self.b.s.chance(1, 2) {
                            return Err(e);
                        }
                        self.b.note("(the error is ignored)");
                        self.b.gone = Some(events());
                    }
                    Err(Stop::Gone) => self.b.gone = Some(events()),
                }
                Ok(())
            })
        }));
        match self.b.judge("Value::with", r, false) {
            Ok(()) => Ok(want),
            Err(Stop::Viol(v)) => Err(v),
            Err(_) => Ok(None),
        }
    }
}

/// Writes through the wrappers; returns how many uses were refused.
fn write(ctx: &mut Ctx, clean: bool) -> R<usize> {
    let indent = if ctx.src.chance(1, 2) {
        ctx.src.pick_copy(INDENTS)
    } else {
        None
    };
    let kind = ctx.src.below(3);
    let mut plan = WritePlan::default();
    let mut limit = usize::MAX;
    let mut fuse = None;
    if !clean {
        if kind != 0 && ctx.src.chance(1, 3) {
            let at = ctx.src.size(200);
            let fault = Fault::gen_write(&mut ctx.src);
            plan.fault = Some((at, fault));
            plan.sticky = ctx.src.chance(1, 2);
            limit = at;
        } else {
            fuse = Some(ctx.src.size(60));
        }
    }
    let budget = ctx.src.range(1, 40);
    let max_depth = ctx.src.range(1, 6);
    ctx.log(|| {
        let kind = ["in-memory text", "text sink", "byte sink"][kind];
        format!("indent: {indent:?}, to a {kind}, fault: {:?}, abandon at {fuse:?}", plan.fault)
    });
    ctx.note(format!("{indent:?} {kind} {:?}", plan.fault).as_bytes());
    let src = std::mem::replace(&mut ctx.src, Src::replay(vec![]));
    let mut wr = Wr {
        b: Base::new(src, clean, fuse),
        depth: 0,
        budget,
        max_depth,
        wants: Vec::new(),
        fields: Vec::new(),
    };
    let (res, text) = match kind {
        0 => {
            let sink = Shared::default();
            let r = wr.root(sink.clone(), indent);
            let text = sink.0.borrow().clone();
            (r, text)
        }
        1 => {
            let sink = FailText::new(limit, 7);
            let st = sink.state.clone();
            let r = wr.root(sink, indent);
            ctx.count("fault.text_sink_error", st.faults.get());
            let text = st.text.borrow().clone();
            (r, text)
        }
        _ => {
            let sink = SimWrite::new(plan);
            let st = sink.state.clone();
            let r = wr.root(Utf8Writer::new(sink), indent);
            st.count(ctx);
            let text = String::from_utf8_lossy(&st.bytes.borrow()).into_owned();
            (r, text)
        }
    };
    let refused = wr.b.refused;
    done(ctx, wr.b);
    ctx.log(|| format!("written: {text:?}"));
    let want = match res {
        Err(v) if v.class == QUIET => None,
        res => res?,
    };
    if let (Some(want), true) = (want, clean) {
        check_text(&text, &want, indent)?;
    }
    Ok(refused)
}

pub fn c12_write(ctx: &mut Ctx) -> R {
    let refused = write(ctx, false)?;
    if refused > 0 {
        ctx.nontrivial = true;
    }
    ctx.count("probe.uses_refused", refused as u64);
    Ok(())
}

/// C11: what is written through the wrappers.
pub fn c11(ctx: &mut Ctx) -> R {
    write(ctx, true)?;
    ctx.nontrivial = true;
    Ok(())
}
