//! Typed reading and writing: values of the family of types in `zoo`, rendered by an independent
//! renderer, sent over simulated links. Used for C01 to C03, C06, C08 to C11 and C13.

use crate::ctx::{fail, Ctx, R};
use crate::ensure;
use crate::io::*;
use crate::node::*;
use crate::src::Src;
use crate::stream::{complete, corrupt_utf8, cut_or_extend};
use crate::wops::{check_failed, check_layout, gen_faulty, INDENTS};
use crate::zoo::*;
use serdere::{Deserialize, TextReader, Utf8Reader, Utf8Writer, Value};
use serdere_json::{
    from_reader, to_str, to_writer, DeserializeError, TextDeserializer, TextDeserializerConfig,
    TextSerializer, TextSerializerConfig, ValueType,
};
use std::io::BufReader;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------------------------------------
// Rendering

/// How values are rendered.
#[derive(Clone, Copy, Debug)]
pub struct Freedom {
    /// Out of 10: entries out of order.
    pub shuffle: usize,
    /// Out of 10: unknown entries.
    pub unknown: usize,
    /// Out of 10: what is optional is left out, or null.
    pub leave: usize,
    /// Out of 10: structs as arrays.
    pub arrays: usize,
    /// Out of 10: tags by index.
    pub index: usize,
    /// Strange but legal numbers.
    pub numbers: bool,
}

impl Freedom {
    pub fn swarm(s: &mut Src) -> Self {
        Self {
            shuffle: s.pick_copy(&[5, 0, 10]),
            unknown: s.pick_copy(&[3, 0, 8]),
            leave: s.pick_copy(&[5, 0, 9]),
            arrays: s.pick_copy(&[1, 0, 5]),
            index: s.pick_copy(&[3, 0, 10]),
            numbers: s.chance(1, 2),
        }
    }
}

/// What is broken in a rendering, and the place an error about it belongs to.
#[derive(Debug, Clone)]
pub struct Broken {
    pub what: String,
    pub path: Vec<usize>,
    pub wrong: Wrong,
}

/// What kind of thing is wrong, and so what the error about it must say.
#[derive(Debug, Clone, PartialEq)]
pub enum Wrong {
    MissingItem,
    ExtraItem,
    MissingKey(String),
    /// Of another type than one of these.
    Type(&'static [ValueType], ValueType),
    /// Of the right type, but not a value that is allowed.
    Value,
}

impl Broken {
    /// Is this what an error that says the former should say?
    pub fn is(&self, says: &Says) -> bool {
        match (&self.wrong, says) {
            (Wrong::MissingItem, Says::MissingItems) | (Wrong::ExtraItem, Says::ExtraItems) => true,
            (Wrong::MissingKey(a), Says::MissingKey(b)) => a == b,
            (Wrong::Type(wanted, found), Says::Expected(t)) => {
                // For a tag, either of its two forms can be named
                let tag = **wanted == [ValueType::String, ValueType::Number];
                t.iter().all(|t| wanted.contains(t))
                    && (tag || wanted.iter().all(|w| t.contains(w)))
                    && !t.is_empty()
                    && !t.contains(found)
            }
            (Wrong::Value, Says::Custom(_) | Says::Overflow | Says::Other) => true,
            _ => false,
        }
    }
}

pub struct Renderer<'a> {
    pub s: &'a mut Src,
    pub f: Freedom,
    /// Counts down to the place to break.
    pub until: Option<usize>,
    /// Places seen.
    pub places: usize,
    /// Only break what this allows: values, or missing and surplus entries.
    pub only_missing: bool,
}

type Made = (Node, Option<Broken>);

impl Renderer<'_> {
    fn due(&mut self) -> bool {
        self.places += 1;
        match &mut self.until {
            Some(0) => {
                self.until = None;
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    }

    fn broken(what: &str, wrong: Wrong) -> Option<Broken> {
        Some(Broken {
            what: what.to_string(),
            path: Vec::new(),
            wrong,
        })
    }

    fn number(&mut self, short: String) -> String {
        short
    }

    pub fn node(&mut self, m: &M) -> Made {
        let can_break_value = !self.only_missing && !matches!(m, M::Null);
        if can_break_value && self.due() {
            if let Some(made) = self.break_value(m) {
                return made;
            }
        }
        match m {
            M::Null => (Node::Null, None),
            M::Bool(b) => (Node::Bool(*b), None),
            M::Int(v, ..) => (Node::Num(self.number(v.to_string())), None),
            M::F32(v) => (Node::Num(self.float(f64::from(*v), v.to_string(), format!("{v:e}"))), None),
            M::F64(v) => (Node::Num(self.float(*v, v.to_string(), format!("{v:e}"))), None),
            M::Char(c) => (Node::Str(c.to_string()), None),
            M::Str(t) => (Node::Str(t.clone()), None),
            M::Tag(name, index, ..) => {
                if self.s.chance(self.f.index, 10) {
                    (Node::Num(index.to_string()), None)
                } else {
                    (Node::Str(name.clone()), None)
                }
            }
            M::Seq(items) => {
                let (v, b) = self.items(items.iter());
                (Node::Arr(v), b)
            }
            M::Fixed(items, _) | M::Counted(items) => {
                let (mut v, mut b) = self.items(items.iter());
                if !items.is_empty() && self.due() {
                    v.pop();
                    b = Self::broken("an item is missing", Wrong::MissingItem);
                }
                if self.due() {
                    v.push(self.any(0));
                    b = Self::broken("an item is surplus", Wrong::ExtraItem);
                }
                (Node::Arr(v), b)
            }
            M::Struct(fs, _) => self.fields(fs),
        }
    }

    fn float(&mut self, v: f64, plain: String, exp: String) -> String {
        if v == 0.0 {
            return plain;
        }
        let t = if self.f.numbers && self.s.chance(1, 2) { exp } else { plain };
        if self.f.numbers && self.s.chance(1, 4) {
            if let Some(i) = t.find('e') {
                if t.contains('.') {
                    return format!("{}0E{}", &t[..i], &t[i + 1..]);
                }
                return t.replace('e', "E");
            }
        }
        t
    }

    fn items<'m>(&mut self, items: impl Iterator<Item = &'m M>) -> (Vec<Node>, Option<Broken>) {
        let mut v = Vec::new();
        let mut b = None;
        for (i, m) in items.enumerate() {
            let (n, mut c) = self.node(m);
            v.push(n);
            if let Some(c) = &mut c {
                c.path.insert(0, i);
            }
            b = b.or(c);
        }
        (v, b)
    }

    fn fields(&mut self, fs: &[F]) -> Made {
        if self.s.chance(self.f.arrays, 10) {
            let (mut v, mut b) = (Vec::new(), None);
            for (i, f) in fs.iter().enumerate() {
                let as_null = f.optional && self.s.chance(self.f.leave, 10);
                let (n, mut c) = if as_null { (Node::Null, None) } else { self.node(&f.m) };
                v.push(n);
                if let Some(c) = &mut c {
                    c.path.insert(0, i);
                }
                b = b.or(c);
            }
            if !fs.is_empty() && self.due() {
                v.pop();
                b = Self::broken("the last field of a struct given as an array is missing", Wrong::MissingItem);
            }
            if self.due() {
                v.push(self.any(0));
                b = Self::broken("a struct given as an array has a surplus item", Wrong::ExtraItem);
            }
            return (Node::Arr(v), b);
        }
        // (key, value, whether what is broken is in it)
        let mut es: Vec<(String, Node, Option<Broken>)> = Vec::new();
        let mut gone = None;
        for f in fs {
            if f.required && self.due() {
                let what = format!("the required entry {:?} is missing", f.name);
                gone = Self::broken(&what, Wrong::MissingKey(f.name.clone()));
                continue;
            }
            if f.optional && self.s.chance(self.f.leave, 10) {
                if self.s.chance(1, 2) {
                    es.push((f.name.clone(), Node::Null, None));
                }
                continue;
            }
            let (n, b) = self.node(&f.m);
            es.push((f.name.clone(), n, b));
        }
        while self.s.chance(self.f.unknown, 10) && es.len() < fs.len() + 6 {
            // Close to names that are known, or not
            let mut key = match self.s.below(3) {
                0 if !fs.is_empty() => {
                    let k = &fs[self.s.below(fs.len())].name;
                    match self.s.below(3) {
                        0 => format!("{k}{}", gen_char(self.s)),
                        1 => k.chars().skip(1).collect(),
                        _ => k.to_uppercase(),
                    }
                }
                1 => self.s.pick(KEYS).to_string(),
                _ => gen_key(self.s),
            };
            while fs.iter().any(|f| f.name == key) || es.iter().any(|e| e.0 == key) {
                key.push('~');
            }
            let v = self.any(0);
            es.push((key, v, None));
        }
        if self.s.chance(self.f.shuffle, 10) {
            for i in (1..es.len()).rev() {
                let j = self.s.below(i + 1);
                es.swap(i, j);
            }
        }
        let mut out = Vec::new();
        let mut b = None;
        for (i, (k, n, c)) in es.into_iter().enumerate() {
            out.push((k, n));
            if let Some(mut c) = c {
                c.path.insert(0, i);
                b = Some(c);
            }
        }
        (Node::Obj(out), gone.or(b))
    }

    /// Anything at all.
    fn any(&mut self, depth: usize) -> Node {
        let mut o = GenOpts {
            depth: 3,
            budget: 12,
            max_width: 5,
            dup_keys: false,
            spine: 0,
        };
        let deeper = usize::from(self.s.chance(1, 2));
        gen_node(self.s, &mut o, depth + deeper)
    }

    /// Makes something else of a value.
    fn break_value(&mut self, m: &M) -> Option<Made> {
        let s = &mut *self.s;
        let (n, what): (Node, &str) = match m {
            M::Null => return None,
            M::Bool(_) => (
                s.pick_copy(&[0, 1, 2]).try_into().map_or(Node::Null, |i: usize| match i {
                    0 => Node::Num("1".into()),
                    1 => Node::Str("true".into()),
                    _ => Node::Arr(vec![]),
                }),
                "a boolean is something else",
            ),
            M::Int(v, lo, hi, zero) => match s.below(8) {
                5 => {
                    // What would be the value itself, or almost, if bits were cut off
                    let bits = 8 * (1 + s.below(15)) as u32;
                    let times = 1 + s.below(3) as i128;
                    let w = if s.chance(1, 2) { 1 << bits } else { *hi - *lo + 1 };
                    let n = [v.wrapping_add(w.wrapping_mul(times)), v.wrapping_sub(w.wrapping_mul(times))];
                    let n = s.pick_copy(&n);
                    if n >= *lo && n <= *hi {
                        return None;
                    }
                    (Node::Num(n.to_string()), "a number is out of range by a power of two")
                }
                6 => {
                    let digits: String = (0..s.range(1, 30)).map(|_| char::from(b'0' + s.below(10) as u8)).collect();
                    let sign = if s.chance(1, 2) { "-" } else { "" };
                    (Node::Num(format!("{sign}9{}{digits}", hi.max(&-*lo))), "a number is far too large")
                }
                7 => {
                    let frac = s.pick_copy(&["1", "5", "01", "000000000000000000000001"]);
                    let sign = if *v == 0 && *lo < 0 && s.chance(1, 2) { "-" } else { "" };
                    (Node::Num(format!("{sign}{v}.{frac}")), "a whole number has a fraction")
                }
                0 => (Node::Str("1".into()), "a number is a string"),
                1 => (Node::Bool(true), "a number is a boolean"),
                2 if !zero => (Node::Num("0".into()), "a number is zero"),
                3 => (Node::Num((lo - 1 - s.below(3) as i128).to_string()), "a number is too small"),
                _ => (Node::Num((hi + 1 + s.below(3) as i128).to_string()), "a number is too large"),
            },
            M::F32(_) | M::F64(_) => match s.below(3) {
                0 => (Node::Str("1.5".into()), "a number is a string"),
                1 => (Node::Bool(false), "a number is a boolean"),
                _ => (Node::Obj(vec![]), "a number is an object"),
            },
            M::Char(c) => match s.below(3) {
                0 => (Node::Str(String::new()), "a character is no character"),
                1 => (Node::Str(format!("{c}{}", gen_char(s))), "a character is two"),
                _ => (Node::Num("7".into()), "a character is a number"),
            },
            M::Str(_) => match s.below(3) {
                0 => (Node::Num("7".into()), "a string is a number"),
                1 => (Node::Arr(vec![Node::Str("a".into())]), "a string is an array"),
                _ => (Node::Bool(false), "a string is a boolean"),
            },
            M::Tag(name, index, max, gap) => match s.below(5) {
                0 => (Node::Bool(false), "a tag is a boolean"),
                1 => (Node::Num(too_large(s, *index, *max).to_string()), "a tag's index is too large"),
                2 => match gap {
                    Some(i) => (Node::Num(i.to_string()), "a tag's index is not in use"),
                    None => return None,
                },
                3 => (Node::Str(format!("{name}\u{1}")), "a tag's name is unknown"),
                _ => (Node::Num("-1".into()), "a tag's index is negative"),
            },
            M::Seq(_) | M::Fixed(..) | M::Counted(_) => match s.below(3) {
                0 => (Node::Obj(vec![("0".into(), Node::Num("1".into()))]), "a list is an object"),
                1 => (Node::Str("[]".into()), "a list is a string"),
                _ => (Node::Num("0".into()), "a list is a number"),
            },
            M::Struct(..) => match s.below(3) {
                0 => (Node::Str("{}".into()), "a struct is a string"),
                1 => (Node::Bool(true), "a struct is a boolean"),
                _ => (Node::Num("-1".into()), "a struct is a number"),
            },
        };
        let wanted: &[ValueType] = match m {
            M::Null => &[ValueType::Null],
            M::Bool(_) => &[ValueType::Bool],
            M::Int(..) | M::F32(_) | M::F64(_) => &[ValueType::Number],
            M::Char(_) | M::Str(_) => &[ValueType::String],
            M::Tag(..) => &[ValueType::String, ValueType::Number],
            M::Seq(_) | M::Fixed(..) | M::Counted(_) => &[ValueType::Array],
            M::Struct(..) => &[ValueType::Object, ValueType::Array],
        };
        let found = match n {
            Node::Null => ValueType::Null,
            Node::Bool(_) => ValueType::Bool,
            Node::Num(_) => ValueType::Number,
            Node::Str(_) => ValueType::String,
            Node::Arr(_) => ValueType::Array,
            Node::Obj(_) => ValueType::Object,
        };
        let wrong = if wanted.contains(&found) {
            Wrong::Value
        } else {
            Wrong::Type(wanted, found)
        };
        Some((n, Self::broken(what, wrong)))
    }
}

pub fn render_sample(s: &mut Src, m: &M, f: Freedom) -> Node {
    let mut r = Renderer {
        s,
        f,
        until: None,
        places: 0,
        only_missing: false,
    };
    r.node(m).0
}

/// Renders a value with something broken about it, if there is anything to break.
pub fn render_broken(s: &mut Src, m: &M, f: Freedom, only_missing: bool) -> Option<(Node, Broken)> {
    // The number of places depends on choices made on the way, so this may take a few attempts
    let mut bound = 40;
    for _ in 0..6 {
        let until = s.below(bound);
        let mut r = Renderer {
            s,
            f,
            until: Some(until),
            places: 0,
            only_missing,
        };
        let (n, b) = r.node(m);
        let places = r.places;
        if let Some(b) = b {
            return Some((n, b));
        }
        if places == 0 {
            return None;
        }
        bound = places.clamp(1, 40);
    }
    None
}

pub fn at_path<'n>(root: &'n SNode, path: &[usize]) -> &'n SNode {
    let mut n = root;
    for i in path {
        n = match &n.kind {
            SKind::Arr(items) => &items[*i],
            SKind::Obj(es) => &es[*i].val,
            _ => unreachable!("path in document"),
        };
    }
    n
}

// ---------------------------------------------------------------------------------------------
// Reading

/// Kinds of reader.
pub const VIAS: usize = 6;

pub struct Got<T> {
    pub res: Result<T, ErrInfo>,
    /// The source's error is in what was returned.
    pub carried: bool,
}

fn pack<T, P: ToLoc + std::fmt::Debug + std::fmt::Display + 'static>(
    r: Result<T, DeserializeError<P>>,
    text: &Text,
    fault: Option<Fault>,
) -> Got<T> {
    match r {
        Ok(v) => Got {
            res: Ok(v),
            carried: false,
        },
        Err(e) => Got {
            carried: fault.is_some_and(|f| f.carried_by(&e)),
            res: Err(err_info(&e, text)),
        },
    }
}

/// Reads a whole document, with or without the one-call entry point.
fn whole<T: Deserialize<TextDeserializer<R>>, R: TextReader>(
    reader: R,
    comments: bool,
) -> Result<T, DeserializeError<R::Position>> {
    if !comments {
        return from_reader(reader);
    }
    let mut d = TextDeserializer::new(TextDeserializerConfig::permissive(), reader)?;
    let v = Value::with(&mut d, |v| v.get::<T>())?;
    d.close()?;
    Ok(v)
}

/// Reads a text as the given type, from a drawn kind of reader.
pub fn read_via<T: Wire>(
    ctx: &mut Ctx,
    text: &Text,
    bytes: &[u8],
    comments: bool,
    via: usize,
    plan: &ReadPlan,
) -> R<Got<T>> {
    let fault = plan.fault.map(|f| f.1);
    let source = SimRead::new(bytes, plan.clone());
    let st = source.state.clone();
    let constructed = |e: std::io::Error| -> Got<T> {
        Got {
            carried: fault.is_some_and(|f| f.is(&e)),
            res: Err(ErrInfo {
                loc: Loc::Lc(0, 0),
                kind: "construct".into(),
                says: Says::Other,
                unsaid: None,
            }),
        }
    };
    let got = match via {
        0 => match Utf8Reader::new(source) {
            Ok(r) => pack(whole::<T, _>(r, comments), text, fault),
            Err(e) => constructed(e),
        },
        1 => match Utf8Reader::new(source) {
            Ok(r) => pack(whole::<T, _>(Counting::new(r), comments), text, fault),
            Err(e) => constructed(e),
        },
        2 => match Utf8Reader::new(BufReader::with_capacity(1 + bytes.len() % 9, source)) {
            Ok(r) => pack(whole::<T, _>(r, comments), text, fault),
            Err(e) => constructed(e),
        },
        3 => {
            let t: &str = &text.text;
            let res = match comments {
                false => serdere_json::from_str::<T>(t),
                true => whole::<T, _>(t, comments),
            };
            match res {
                Ok(v) => Got {
                    res: Ok(v),
                    carried: false,
                },
                Err(e) => Got {
                    res: Err(err_info(&e, text)),
                    carried: false,
                },
            }
        }
        4 => {
            let t: &str = &text.text;
            match whole::<T, _>(Counting::new(t), comments) {
                Ok(v) => Got {
                    res: Ok(v),
                    carried: false,
                },
                Err(e) => Got {
                    res: Err(err_info(&e, text)),
                    carried: false,
                },
            }
        }
        _ => {
            let mut r = SimText::new(&text.chars);
            if let Some((at, fault)) = plan.fault {
                r = r.with_fault(at, fault);
            }
            pack(whole::<T, _>(r, comments), text, fault)
        }
    };
    st.count(ctx);
    Ok(got)
}

fn via_name(via: usize) -> &'static str {
    [
        "byte stream",
        "counted byte stream",
        "buffered byte stream",
        "in-memory text",
        "counted in-memory text",
        "character reader",
    ][via]
}

fn show<T: std::fmt::Debug>(ctx: &mut Ctx, what: &str, got: &Got<T>) {
    ctx.log(|| match &got.res {
        Ok(v) => format!("{what}: {v:?}"),
        Err(e) => format!("{what}: ERROR {} {:?}", e.kind, e.loc),
    });
}

fn freedom_of(ctx: &mut Ctx) -> (Freedom, bool) {
    let f = Freedom::swarm(&mut ctx.src);
    let comments = ctx.src.chance(1, 5);
    (f, comments)
}

// ---------------------------------------------------------------------------------------------
// C01

struct C01;
impl Job for C01 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let (f, comments) = freedom_of(ctx);
        let m = value.model();
        let node = match ctx.src.weighted(&[3, 1]) {
            0 => render_sample(&mut ctx.src, &m, f),
            _ => match render_broken(&mut ctx.src, &m, f, false) {
                Some((n, _)) => n,
                None => render_sample(&mut ctx.src, &m, f),
            },
        };
        let mut text = {
            let st = Style::swarm(&mut ctx.src, comments);
            Text::new(render(&mut ctx.src, &st, &node))
        };
        if ctx.src.chance(1, 6) {
            text = cut_or_extend(ctx, &text, comments);
        }
        let bytes = text.text.clone().into_bytes();
        ctx.note(&bytes);
        ctx.log(|| format!("text: {:?} (comments: {comments})", text.text));
        let base: Got<T> = read_via(ctx, &text, &bytes, comments, 0, &ReadPlan::default())?;
        show(ctx, "delivered at once", &base);
        let plan = ReadPlan::gen_delivery(&mut ctx.src, bytes.len());
        let via = ctx.src.weighted(&[5, 2, 2, 2, 1, 2]);
        ctx.note(format!("{via} {plan:?}").as_bytes());
        ctx.log(|| format!("delivery: {plan:?} to a {}", via_name(via)));
        let other: Got<T> = read_via(ctx, &text, &bytes, comments, via, &plan)?;
        show(ctx, "delivered so", &other);
        if via < 3 && !(plan.cuts.is_empty() && plan.max == 0 && plan.interrupts.is_empty()) {
            ctx.nontrivial = true;
        }
        match (&base.res, &other.res) {
            (Ok(a), Ok(b)) => {
                ensure!(a.same(b), "differs", "{a:?} versus {b:?} ({})", via_name(via))
            }
            (Err(a), Err(b)) => {
                // The kind and place are those of the text, unless the text has no characters
                let same = a.kind == b.kind
                    && if via < 3 { a.loc == b.loc } else { a.loc.agrees(&b.loc, &text) };
                ensure!(same, "differs", "{a:?} versus {b:?} ({})", via_name(via));
            }
            (a, b) => {
                let show = |r: &Result<T, ErrInfo>| match r {
                    Ok(v) => format!("{v:?}"),
                    Err(e) => format!("{e:?}"),
                };
                return fail(
                    "differs",
                    format!("{} versus {} ({})", show(a), show(b), via_name(via)),
                );
            }
        }
        Ok(())
    }
}

pub fn c01_typed(ctx: &mut Ctx) -> R {
    with_sample(ctx, C01)
}

// ---------------------------------------------------------------------------------------------
// C02

struct C02;
impl Job for C02 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let (f, comments) = freedom_of(ctx);
        let m = value.model();
        let node = render_sample(&mut ctx.src, &m, f);
        let style = Style::swarm(&mut ctx.src, comments);
        let text = Text::new(render(&mut ctx.src, &style, &node));
        let mut bytes = text.text.clone().into_bytes();
        let mut plan = if ctx.src.chance(1, 2) {
            ReadPlan::gen_delivery(&mut ctx.src, bytes.len())
        } else {
            ReadPlan::default()
        };
        let via = ctx.src.pick_copy(&[0, 1, 2, 5]);
        let decode = via != 5 && ctx.src.chance(1, 3);
        if decode {
            corrupt_utf8(&mut ctx.src, &mut bytes);
            ctx.count("fault.undecodable", 1);
        } else {
            let n = if via == 5 { text.len() } else { bytes.len() };
            let at = ctx.src.below(n + 1);
            let fault = Fault::gen_read(&mut ctx.src);
            plan.fault = Some((at, fault));
            plan.sticky = ctx.src.chance(1, 2);
            ctx.count(&format!("fault.kind.{}", fault.name()), 1);
        }
        ctx.note(&bytes);
        ctx.note(format!("{via} {plan:?}").as_bytes());
        ctx.log(|| format!("bytes: {:?} (comments: {comments})", String::from_utf8_lossy(&bytes)));
        ctx.log(|| format!("delivery: {plan:?} to a {}", via_name(via)));
        let got: Got<T> = read_via(ctx, &text, &bytes, comments, via, &plan)?;
        show(ctx, "read", &got);
        ctx.nontrivial = true;
        ensure!(
            got.res.is_err(),
            "trusted",
            "the source failed, but the document was read: {:?}",
            got.res
        );
        // The entry points report the source's error; a consumer of the permissive configuration
        // gets whatever the operation that noticed reports
        if !decode && !comments {
            ensure!(
                got.carried,
                "identity",
                "the source failed with {:?}, but the error is {:?}",
                plan.fault,
                got.res
            );
        }
        Ok(())
    }
}

pub fn c02_typed(ctx: &mut Ctx) -> R {
    with_sample(ctx, C02)
}

// ---------------------------------------------------------------------------------------------
// C03

struct C03;
impl Job for C03 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let (f, comments) = freedom_of(ctx);
        let m = value.model();
        let node = render_sample(&mut ctx.src, &m, f);
        let style = Style::swarm(&mut ctx.src, comments);
        let whole = Text::new(render(&mut ctx.src, &style, &node));
        let text = cut_or_extend(ctx, &whole, comments);
        let bytes = text.text.clone().into_bytes();
        let plan = if ctx.src.chance(1, 3) {
            ReadPlan::gen_delivery(&mut ctx.src, bytes.len())
        } else {
            ReadPlan::default()
        };
        let via = ctx.src.below(VIAS);
        let expect = complete(&text, comments);
        ctx.note(&bytes);
        ctx.note_n(via);
        ctx.log(|| format!("text: {:?} (comments: {comments}, complete: {expect:?})", text.text));
        let got: Got<T> = read_via(ctx, &text, &bytes, comments, via, &plan)?;
        show(ctx, via_name(via), &got);
        match expect {
            Some(false) => {
                ctx.nontrivial = true;
                ensure!(
                    got.res.is_err(),
                    "accepted",
                    "an incomplete or overlong document was read: {:?}",
                    got.res
                );
            }
            Some(true) if !matches!(node, Node::Num(_)) => match &got.res {
                // Only whitespace was added or lost
                Ok(v) => ensure!(v.same(&value), "value", "read {v:?}"),
                Err(e) => return fail("rejected", format!("a complete document: {e:?}")),
            },
            _ => ctx.probe("probe.left_open"),
        }
        Ok(())
    }
}

pub fn c03_typed(ctx: &mut Ctx) -> R {
    with_sample(ctx, C03)
}

// ---------------------------------------------------------------------------------------------
// C06

struct C06;
impl Job for C06 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let (f, comments) = freedom_of(ctx);
        let m = value.model();
        let broken = ctx.src.chance(1, 4);
        let structure = ctx.src.chance(1, 2);
        let (node, broken) = if broken {
            match render_broken(&mut ctx.src, &m, f, structure) {
                Some((n, b)) => (n, Some(b)),
                None => (render_sample(&mut ctx.src, &m, f), None),
            }
        } else {
            (render_sample(&mut ctx.src, &m, f), None)
        };
        let style = Style::swarm(&mut ctx.src, comments);
        let text = Text::new(render(&mut ctx.src, &style, &node));
        let bytes = text.text.clone().into_bytes();
        let plan = if ctx.src.chance(1, 3) {
            ReadPlan::gen_delivery(&mut ctx.src, bytes.len())
        } else {
            ReadPlan::default()
        };
        let via = ctx.src.below(VIAS);
        ctx.note(&bytes);
        ctx.note_n(via);
        ctx.log(|| format!("text: {:?} (comments: {comments})", text.text));
        if let Some(b) = &broken {
            ctx.log(|| format!("broken: {b:?}"));
        }
        let got: Got<T> = read_via(ctx, &text, &bytes, comments, via, &plan)?;
        show(ctx, via_name(via), &got);
        match (&broken, &got.res) {
            (None, Ok(v)) => {
                ensure!(v.same(&value), "value", "read {v:?} instead of {value:?}");
                if !matches!(m, M::Null | M::Bool(_) | M::Int(..)) {
                    ctx.nontrivial = true;
                }
            }
            (None, Err(e)) => return fail("rejected", format!("{value:?} was not read back: {e:?}")),
            (Some(b), Ok(v)) => {
                return fail("accepted", format!("although {}, this was read: {v:?}", b.what))
            }
            (Some(_), Err(_)) => {
                ctx.probe(if structure { "probe.missing_or_surplus" } else { "probe.wrong_value_refused" });
                ctx.nontrivial = true;
            }
        }
        Ok(())
    }
}

pub fn c06(ctx: &mut Ctx) -> R {
    with_sample(ctx, C06)
}

// ---------------------------------------------------------------------------------------------
// C13

struct C13;
impl Job for C13 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let (f, comments) = freedom_of(ctx);
        let m = value.model();
        let Some((node, broken)) = render_broken(&mut ctx.src, &m, f, false) else {
            return Ok(());
        };
        let doc = Doc::of(&mut ctx.src, &node, comments);
        let at = at_path(&doc.root, &broken.path).start;
        let bytes = doc.t.text.clone().into_bytes();
        let plan = if ctx.src.chance(1, 3) {
            ReadPlan::gen_delivery(&mut ctx.src, bytes.len())
        } else {
            ReadPlan::default()
        };
        let via = ctx.src.below(VIAS);
        ctx.note(&bytes);
        ctx.note_n(via);
        ctx.log(|| format!("text: {:?} (comments: {comments})", doc.t.text));
        ctx.log(|| format!("broken: {broken:?}, at character {at}"));
        let got: Got<T> = read_via(ctx, &doc.t, &bytes, comments, via, &plan)?;
        show(ctx, via_name(via), &got);
        ctx.nontrivial = true;
        ctx.probe("probe.errors_provoked");
        match got.res {
            Ok(v) => fail("accepted", format!("although {}, this was read: {v:?}", broken.what)),
            Err(e) => {
                ensure!(
                    e.loc.is_at(&doc.t, at),
                    "position",
                    "{}: reported as {} at {:?}, but that is at character {at} ({:?})",
                    broken.what,
                    e.kind,
                    e.loc,
                    doc.t.lc(at)
                );
                ensure!(broken.is(&e.says), "kind", "{}: the error is {}", broken.what, e.kind);
                if let Some(part) = e.unsaid {
                    return fail("text", format!("the text of error {} does not contain {part:?}", e.kind));
                }
                Ok(())
            }
        }
    }
}

pub fn c13_typed(ctx: &mut Ctx) -> R {
    with_sample(ctx, C13)
}

// ---------------------------------------------------------------------------------------------
// Writing

/// Writes a value with the one-call entry point, or with an indentation.
fn put<T: serdere::Serialize<TextSerializer<W>>, W: serdere::TextWriter>(
    w: W,
    value: &T,
    indent: Option<&'static str>,
) -> Result<(), W::Error> {
    if indent.is_none() {
        return to_writer(w, value);
    }
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, w);
    Value::with(&mut s, |v| v.put(value))
}

fn in_memory<T: Wire>(value: &T, indent: Option<&'static str>) -> String {
    if indent.is_none() {
        return to_str(value);
    }
    let mut text = String::new();
    match put(&mut text, value, indent) {
        Ok(()) => text,
        Err(e) => match e {},
    }
}

fn gen_indent(ctx: &mut Ctx) -> Option<&'static str> {
    if ctx.src.chance(1, 2) {
        ctx.src.pick_copy(INDENTS)
    } else {
        None
    }
}

struct C08;
impl Job for C08 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let indent = gen_indent(ctx);
        let text = in_memory(&value, indent);
        let plan = WritePlan::gen_delivery(&mut ctx.src, text.len());
        ctx.log(|| format!("text: {text:?}, sink: {plan:?}"));
        ctx.note(text.as_bytes());
        ctx.note(format!("{plan:?}").as_bytes());
        let sink = SimWrite::new(plan);
        let st = sink.state.clone();
        if let Err(e) = put(Utf8Writer::new(sink), &value, indent) {
            return fail("failed", format!("writing failed: {e:?}"));
        }
        st.count(ctx);
        ensure!(
            *st.bytes.borrow() == text.as_bytes(),
            "bytes",
            "the sink holds {:?}, but the text is {text:?}",
            String::from_utf8_lossy(&st.bytes.borrow())
        );
        if st.splits.get() + st.interrupts.get() > 0 {
            ctx.nontrivial = true;
        }
        Ok(())
    }
}

pub fn c08_typed(ctx: &mut Ctx) -> R {
    with_sample(ctx, C08)
}

struct C09;
impl Job for C09 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let indent = gen_indent(ctx);
        let text = in_memory(&value, indent);
        ctx.note(text.as_bytes());
        if ctx.src.chance(1, 4) {
            let limit = ctx.src.below(text.chars().count() + 1);
            let id = ctx.src.draw(1000);
            ctx.log(|| format!("text: {text:?}, text sink fails at character {limit} with {id}"));
            ctx.note_n(limit);
            let at = text.char_indices().nth(limit).map_or(text.len(), |(i, _)| i);
            let sink = FailText::new(limit, id);
            let st = sink.state.clone();
            let r = put(sink, &value, indent);
            ensure!(
                r == if at < text.len() { Err(TextFault(id)) } else { Ok(()) },
                "unreported",
                "the sink failed at {at} of {} with {id}, and writing returned {r:?}",
                text.len()
            );
            ensure!(
                *st.text.borrow() == text[..at] && st.after_fault.get() == 0,
                "prefix",
                "the sink failed at {at} and holds {:?} ({} writes came later)",
                st.text.borrow(),
                st.after_fault.get()
            );
            ctx.count("fault.text_sink_error", st.faults.get());
            ctx.nontrivial = st.faults.get() > 0;
            return Ok(());
        }
        let (plan, at, fault) = gen_faulty(ctx, text.len());
        ctx.log(|| format!("text: {text:?}, sink: {plan:?}"));
        ctx.note(format!("{plan:?}").as_bytes());
        let sink = SimWrite::new(plan);
        let st = sink.state.clone();
        let r = put(Utf8Writer::new(sink), &value, indent);
        st.count(ctx);
        match r {
            Ok(()) => {
                ensure!(
                    at >= text.len(),
                    "unreported",
                    "writing reported success, but the sink failed at byte {at} of {}",
                    text.len()
                );
                ensure!(*st.bytes.borrow() == text.as_bytes(), "bytes", "other bytes were written");
            }
            Err(e) => {
                ctx.nontrivial = true;
                ensure!(at < text.len(), "early", "writing failed before the sink did: {e:?}");
                ensure!(fault.is(&e), "identity", "writing returned {e:?} instead of {fault:?}");
                check_failed(ctx, &st, &text, at)?;
            }
        }
        Ok(())
    }
}

pub fn c09_typed(ctx: &mut Ctx) -> R {
    with_sample(ctx, C09)
}

struct C11;
impl Job for C11 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let indent = gen_indent(ctx);
        let text = in_memory(&value, indent);
        ctx.note(text.as_bytes());
        ctx.log(|| format!("indent: {indent:?}, text: {text}"));
        let m = value.model();
        if !matches!(m, M::Null | M::Bool(_) | M::Int(..)) {
            ctx.nontrivial = true;
        }
        let root = check_layout(&text, indent)?;
        ensure!(
            m_says(&root, &m),
            "meaning",
            "written: {text:?}, which does not say {m:?}"
        );
        Ok(())
    }
}

pub fn c11_typed(ctx: &mut Ctx) -> R {
    with_sample(ctx, C11)
}

// ---------------------------------------------------------------------------------------------
// C10

struct C10;
impl Job for C10 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let indent = gen_indent(ctx);
        let text = in_memory(&value, indent);
        // The sender
        let faulty = ctx.src.chance(1, 4);
        let wplan = if faulty {
            gen_faulty(ctx, text.len()).0
        } else if ctx.src.chance(2, 3) {
            WritePlan::gen_delivery(&mut ctx.src, text.len())
        } else {
            WritePlan::default()
        };
        ctx.log(|| format!("in memory: {text:?}, sender's sink: {wplan:?}"));
        ctx.note(text.as_bytes());
        ctx.note(format!("{wplan:?}").as_bytes());
        let sink = SimWrite::new(wplan);
        let st = sink.state.clone();
        let sent = put(Utf8Writer::new(sink), &value, indent);
        st.count(ctx);
        let mut bytes = st.bytes.borrow().clone();
        ctx.log(|| format!("sent: {sent:?}, {} bytes", bytes.len()));
        // The link
        let mut lost = bytes.len() < text.len();
        if ctx.src.chance(1, 3) {
            let at = ctx.src.below(bytes.len() + 1);
            lost |= at < bytes.len();
            bytes.truncate(at);
            ctx.count("fault.cut", 1);
        }
        // The receiver
        let mut rplan = ReadPlan::gen_delivery(&mut ctx.src, bytes.len());
        let mut failed = false;
        if ctx.src.chance(1, 4) {
            let at = ctx.src.below(bytes.len() + 1);
            let fault = Fault::gen_read(&mut ctx.src);
            rplan.fault = Some((at, fault));
            rplan.sticky = ctx.src.chance(1, 2);
            failed = true;
            ctx.count(&format!("fault.kind.{}", fault.name()), 1);
        }
        let via = ctx.src.below(3);
        let seen = String::from_utf8_lossy(&bytes).into_owned();
        ctx.log(|| format!("link delivers: {seen:?}, {rplan:?} to a {}", via_name(via)));
        ctx.note(&bytes);
        ctx.note(format!("{rplan:?}").as_bytes());
        let got: Got<T> = read_via(ctx, &Text::new(seen), &bytes, false, via, &rplan)?;
        show(ctx, "received", &got);
        ctx.nontrivial = lost
            || failed
            || st.splits.get() + st.interrupts.get() > 0
            || !rplan.interrupts.is_empty();
        let number = matches!(value.model(), M::Int(..) | M::F32(_) | M::F64(_));
        match &got.res {
            Ok(v) => {
                let cut_number = number && lost;
                ensure!(
                    cut_number || v.same(&value),
                    "differs",
                    "{value:?} was sent, {v:?} was received"
                );
                ensure!(
                    cut_number || !(lost && sent.is_ok()) && !failed,
                    "unnoticed",
                    "something was lost, but neither party noticed"
                );
            }
            Err(e) => ensure!(
                lost || failed || sent.is_err(),
                "refused",
                "nothing was lost, but the receiver got {e:?}"
            ),
        }
        if !lost {
            ensure!(sent.is_ok(), "sender", "the sender failed although everything arrived");
        }
        Ok(())
    }
}

pub fn c10_typed(ctx: &mut Ctx) -> R {
    with_sample(ctx, C10)
}

// ---------------------------------------------------------------------------------------------
// C12

struct C12;
impl Job for C12 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let how = ctx
            .src
            .pick_copy(&[Careless::Drops, Careless::Spoils, Careless::Ignores]);
        let after = ctx.src.size(16);
        let reading = ctx.src.chance(1, 2);
        ctx.log(|| format!("careless: {how:?} after {after} others"));
        ctx.note(format!("{how:?} {after} {reading}").as_bytes());
        let (what, res) = if reading {
            let (f, comments) = freedom_of(ctx);
            let node = render_sample(&mut ctx.src, &value.model(), f);
            let doc = Doc::of(&mut ctx.src, &node, comments);
            let bytes = doc.t.text.clone().into_bytes();
            let via = ctx.src.below(VIAS);
            let mut plan = ReadPlan::default();
            if how == Careless::Ignores {
                let fault = Fault::gen_read(&mut ctx.src);
                plan.fault = Some((ctx.src.below(bytes.len() + 1), fault));
                plan.sticky = ctx.src.chance(1, 2);
                ctx.count(&format!("fault.kind.{}", fault.name()), 1);
            }
            ctx.note(&bytes);
            ctx.log(|| format!("text: {:?} to a {}, {plan:?}", doc.t.text, via_name(via)));
            DRIPPED.set(None);
            DRIP.set((how, after));
            let res = catch_unwind(AssertUnwindSafe(|| {
                match read_via::<T>(ctx, &doc.t, &bytes, comments, via, &plan) {
                    Ok(got) => match got.res {
                        Ok(v) => format!("Ok({v:?})"),
                        Err(e) => format!("Err({e:?})"),
                    },
                    Err(v) => v.msg,
                }
            }));
            ("reading", res)
        } else {
            let indent = gen_indent(ctx);
            let mut plan = WritePlan::default();
            let kind = ctx.src.below(2);
            let mut limit = usize::MAX;
            if how == Careless::Ignores {
                limit = ctx.src.size(120);
                plan.fault = Some((limit, Fault::gen_write(&mut ctx.src)));
                plan.sticky = ctx.src.chance(1, 2);
            }
            ctx.log(|| format!("indent: {indent:?}, {plan:?}"));
            ctx.note(format!("{kind} {plan:?}").as_bytes());
            let sink = SimWrite::new(plan);
            let st = sink.state.clone();
            DRIPPED.set(None);
            DRIP.set((how, after));
            let res = catch_unwind(AssertUnwindSafe(|| {
                if kind == 0 {
                    format!("{:?}", put(Utf8Writer::new(sink), &value, indent))
                } else {
                    format!("{:?}", put(FailText::new(limit, 3), &value, indent))
                }
            }));
            st.count(ctx);
            ("writing", res)
        };
        DRIP.set((Careless::No, 0));
        let Some(at) = DRIPPED.take() else {
            return Ok(());
        };
        ctx.nontrivial = true;
        ctx.probe("probe.careless_types");
        match res {
            Ok(res) => fail(
                "usable",
                format!("{what} went on to {res} although a part was abandoned"),
            ),
            Err(_) => {
                let n = events() - at;
                ctx.log(|| format!("{what}: refused"));
                ensure!(
                    n == 0,
                    "late",
                    "{what} panicked only after {n} calls into the source or sink"
                );
                Ok(())
            }
        }
    }
}

pub fn c12_typed(ctx: &mut Ctx) -> R {
    with_drip(ctx, C12)
}
