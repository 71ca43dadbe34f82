//! An adaptive consumer for arbitrary (also malformed) text: it reads whatever it finds through
//! the raw operations, in a way decided by a script, and logs every operation and its outcome.

use crate::ctx::Ctx;
use crate::io::{err_info, ErrInfo, ToLoc};
use crate::node::{Node, SKind, SNode, Text, KEYS};
use crate::src::Src;
use serdere::{Deserializer, FixedNameMap, NameMap, Outliner, TextReader};
use serdere_json::{
    CollectionType, JsonDeserializer, JsonOutliner, TextDeserializer, TextDeserializerConfig,
    ValueType,
};

/// Choices which are drawn when they are first needed, and are the same in every execution of the
/// same run.
#[derive(Default, Clone)]
pub struct Script {
    rec: Vec<u64>,
    pos: usize,
}

impl Script {
    pub fn rewind(&mut self) {
        self.pos = 0;
    }

    pub fn mark(&self) -> usize {
        self.pos
    }

    /// Goes back to a mark: the same choices are made again.
    pub fn back(&mut self, mark: usize) {
        self.pos = mark;
    }

    pub fn below(&mut self, s: &mut Src, n: usize) -> usize {
        if n <= 1 {
            return 0;
        }
        if self.pos == self.rec.len() {
            self.rec.push(s.draw(n as u64));
        }
        let v = self.rec[self.pos];
        self.pos += 1;
        v as usize % n
    }

    pub fn chance(&mut self, s: &mut Src, num: usize, den: usize) -> bool {
        self.below(s, den) >= den - num
    }

    pub fn weighted(&mut self, s: &mut Src, weights: &[usize]) -> usize {
        let total: usize = weights.iter().sum();
        let mut x = self.below(s, total);
        for (i, w) in weights.iter().enumerate() {
            if x < *w {
                return i;
            }
            x -= w;
        }
        unreachable!()
    }
}

/// One operation and its outcome.
#[derive(Clone, Debug, PartialEq)]
pub struct Ev {
    pub op: String,
    pub out: Result<String, ErrInfo>,
    /// Characters consumed after the operation.
    pub consumed: usize,
    /// Bytes taken from the source after the operation (one more if its end was seen).
    pub taken: usize,
}

impl Ev {
    pub fn same(&self, other: &Ev) -> bool {
        self.op == other.op && self.out == other.out
    }

    /// Is this the same, as far as two different kinds of reader can tell?
    pub fn agrees(&self, other: &Ev, text: &Text) -> bool {
        self.op == other.op
            && match (&self.out, &other.out) {
                (Ok(a), Ok(b)) => a == b,
                (Err(a), Err(b)) => a.kind == b.kind && a.loc.agrees(&b.loc, text),
                _ => false,
            }
    }
}

impl std::fmt::Display for Ev {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        match &self.out {
            Ok(v) => write!(f, "{} -> {}", self.op, v)?,
            Err(e) => write!(f, "{} -> ERROR {} {:?}", self.op, e.kind, e.loc)?,
        }
        write!(f, "   [consumed {}, taken {}]", self.consumed, self.taken)
    }
}

/// A value as it was read.
#[derive(Clone, Debug)]
pub enum Dv {
    /// Not looked at.
    Hole,
    Null,
    Bool(bool),
    F64(f64),
    F32(f32),
    Int(i128),
    Str(String),
    /// Items in order, and whether these are all.
    Arr(Vec<Dv>, bool),
    /// Entries in the order read, and whether these are all.
    Obj(Vec<(Option<String>, Dv)>, bool),
}

/// Is this what a document says?
pub fn matches(dv: &Dv, node: &SNode) -> bool {
    match (dv, &node.kind) {
        (Dv::Hole, _) => true,
        (Dv::Null, SKind::Null) => true,
        (Dv::Bool(a), SKind::Bool(b)) => a == b,
        (Dv::F64(a), SKind::Num(t)) => a.to_bits() == crate::node::num_f64(t).to_bits(),
        (Dv::F32(a), SKind::Num(t)) => a.to_bits() == crate::node::num_f32(t).to_bits(),
        (Dv::Int(a), SKind::Num(t)) => match crate::node::num_int(t) {
            Some(b) => *a == b,
            // Numbers like 1e2 can be read as integers, too
            None => (*a as f64 - crate::node::num_f64(t)).abs() <= (*a as f64).abs() * 1e-9,
        },
        (Dv::Str(a), SKind::Str(b)) => a == b,
        (Dv::Arr(a, all), SKind::Arr(b)) => {
            (if *all { a.len() == b.len() } else { a.len() <= b.len() })
                && a.iter().zip(b).all(|(x, y)| matches(x, y))
        }
        (Dv::Obj(a, all), SKind::Obj(b)) => {
            if *all && a.len() != b.len() {
                return false;
            }
            // Every entry read must be a different one of the document's (bipartite matching, as
            // keys may repeat and values may be partly unknown)
            let fits: Vec<Vec<usize>> = a
                .iter()
                .map(|(k, v)| {
                    (0..b.len())
                        .filter(|j| {
                            k.as_ref().is_none_or(|k| *k == b[*j].key) && matches(v, &b[*j].val)
                        })
                        .collect()
                })
                .collect();
            let mut owner = vec![usize::MAX; b.len()];
            (0..a.len()).all(|i| augment(i, &fits, &mut owner, &mut vec![false; b.len()]))
        }
        _ => false,
    }
}

fn augment(i: usize, fits: &[Vec<usize>], owner: &mut [usize], seen: &mut [bool]) -> bool {
    for &j in &fits[i] {
        if !seen[j] {
            seen[j] = true;
            if owner[j] == usize::MAX || augment(owner[j], fits, owner, seen) {
                owner[j] = i;
                return true;
            }
        }
    }
    false
}

/// The tag names used with documents.
pub const TAGS: &NameMap<usize> = FixedNameMap::new([
    ("a", 0),
    ("ab", 1),
    ("abc", 2),
    ("name", 3),
    ("value", 4),
    ("", 5),
    ("\u{e9}t", 6),
    ("\u{1f600}", 7),
    ("names", 8),
    ("x y", 9),
])
.unfix();
pub const MAX_TAG: usize = 12;

pub struct Stop;
type P<T> = Result<T, Stop>;

/// How far reading has got, as seen from outside: characters consumed, and bytes taken from the
/// source.
pub type Meter = Box<dyn Fn() -> (usize, usize)>;

pub struct Pull<'a> {
    pub script: &'a mut Script,
    pub src: &'a mut Src,
    pub text: &'a Text,
    pub meter: Meter,
    /// Keys to ask for.
    pub keys: &'a [String],
    /// 0: everything is read, 1: mixed, 2: mostly skipped
    pub mode: usize,
    pub log: Vec<Ev>,
    /// Set once an operation was used that may fail on a well-formed document.
    pub risky: bool,
}

impl Pull<'_> {
    fn ok(&mut self, op: &str, out: String) {
        let (consumed, taken) = (self.meter)();
        self.log.push(Ev {
            op: op.to_string(),
            out: Ok(out),
            consumed,
            taken,
        });
    }

    fn rec<T, Pos: ToLoc>(
        &mut self,
        op: &str,
        res: Result<T, serdere_json::DeserializeError<Pos>>,
        show: impl FnOnce(&T) -> String,
    ) -> P<T> {
        let (consumed, taken) = (self.meter)();
        let (out, res) = match res {
            Ok(v) => (Ok(show(&v)), Ok(v)),
            Err(e) => (Err(err_info(&e, self.text)), Err(Stop)),
        };
        self.log.push(Ev {
            op: op.to_string(),
            out,
            consumed,
            taken,
        });
        res
    }

    fn below(&mut self, n: usize) -> usize {
        self.script.below(self.src, n)
    }

    fn weighted(&mut self, w: &[usize]) -> usize {
        self.script.weighted(self.src, w)
    }

    /// Reads a whole document: constructs the reader, reads the value and closes.
    pub fn document<R: TextReader>(&mut self, reader: R, comments: bool) -> P<Dv>
    where
        R::Position: ToLoc,
    {
        let config = if comments {
            TextDeserializerConfig::permissive()
        } else {
            TextDeserializerConfig::strict()
        };
        let d = TextDeserializer::new(config, reader);
        let mut d = self.rec("new", d, |_| String::new())?;
        let v = self.value(&mut d, 0)?;
        self.rec("close", d.close(), |_| String::new())?;
        Ok(v)
    }

    fn str_rest<R: TextReader>(&mut self, d: &mut TextDeserializer<R>, whole: bool) -> P<Dv>
    where
        R::Position: ToLoc,
    {
        // An opened string is on top of the stack
        let w: &[usize] = match self.mode {
            0 => &[3, 1, 1, 0, 0],
            _ => &[3, 1, 1, 1, 0],
        };
        let how = self.weighted(w);
        let mut s = String::new();
        match how {
            0 => {
                let r = d.flush_str().map(|c| c.into_owned());
                let r = self.rec("flush_str", r, |s| format!("{s:?}"))?;
                s.push_str(&r);
            }
            1 => {
                while let Some(ch) = {
                    let r = d.next_char();
                    self.rec("next_char", r, |c| format!("{c:?}"))?
                } {
                    s.push(ch);
                }
            }
            2 => {
                let n = self.below(4);
                for _ in 0..n {
                    let r = d.next_char();
                    match self.rec("next_char", r, |c| format!("{c:?}"))? {
                        Some(ch) => s.push(ch),
                        None => return Ok(Dv::Str(s)),
                    }
                }
                let r = d.flush_str().map(|c| c.into_owned());
                let r = self.rec("flush_str", r, |s| format!("{s:?}"))?;
                s.push_str(&r);
            }
            _ => {
                let n = self.below(3);
                for _ in 0..n {
                    let r = d.next_char();
                    if self.rec("next_char", r, |c| format!("{c:?}"))?.is_none() {
                        return Ok(Dv::Hole);
                    }
                }
                let r = d.skip_str();
                self.rec("skip_str", r, |_| String::new())?;
                return Ok(Dv::Hole);
            }
        }
        let _ = whole;
        Ok(Dv::Str(s))
    }

    pub fn value<R: TextReader>(&mut self, d: &mut TextDeserializer<R>, depth: usize) -> P<Dv>
    where
        R::Position: ToLoc,
    {
        let ty = d.peek_value_type();
        self.ok("peek_value_type", format!("{ty:?}"));
        let w: &[usize] = match self.mode {
            0 => &[40, 0, 2, 0],
            1 => &[40, 4, 4, 1],
            _ => &[6, 8, 1, 0],
        };
        let mut how = self.weighted(w);
        if depth > 40 {
            how = 1;
        }
        match how {
            1 => {
                self.skip(d)?;
                return Ok(Dv::Hole);
            }
            2 => {
                let r = d.check_null();
                if self.rec("check_null", r, |v| v.to_string())? {
                    return Ok(Dv::Null);
                }
            }
            3 => {
                self.risky = true;
                return self.anything(d);
            }
            _ => (),
        }
        let res = match ty {
            ValueType::Null => {
                let r = d.pop_null();
                self.rec("pop_null", r, |_| String::new())?;
                Dv::Null
            }
            ValueType::Bool => {
                let r = d.get_bool();
                Dv::Bool(self.rec("get_bool", r, |v| v.to_string())?)
            }
            ValueType::Number => self.number(d)?,
            ValueType::String => self.string(d)?,
            ValueType::Array => self.array(d, depth)?,
            ValueType::Object => self.object(d, depth)?,
        };
        if self.mode == 1 && self.below(8) == 7 {
            // Where would an error about this value be?
            let e = d.error("probe".into());
            let info = err_info(&e, self.text);
            self.ok("error()", String::new());
            self.log.last_mut().unwrap().out = Err(info);
        }
        Ok(res)
    }

    fn skip<R: TextReader>(&mut self, d: &mut TextDeserializer<R>) -> P<()>
    where
        R::Position: ToLoc,
    {
        let r = d.skip_value();
        self.rec("skip_value", r, |_| String::new())
    }

    fn number<R: TextReader>(&mut self, d: &mut TextDeserializer<R>) -> P<Dv>
    where
        R::Position: ToLoc,
    {
        let w: &[usize] = if self.mode == 1 {
            &[20, 8, 3, 2, 1, 1, 1]
        } else {
            &[4, 1, 0]
        };
        Ok(match self.weighted(w) {
            0 => {
                let r = d.get_f64();
                Dv::F64(self.rec("get_f64", r, |v| format!("{v:?}"))?)
            }
            1 => {
                let r = d.get_f32();
                Dv::F32(self.rec("get_f32", r, |v| format!("{v:?}"))?)
            }
            2 => {
                self.risky = true;
                let r = d.get_i64();
                Dv::Int(self.rec("get_i64", r, |v| v.to_string())?.into())
            }
            3 => {
                self.risky = true;
                let r = d.get_u64();
                Dv::Int(self.rec("get_u64", r, |v| v.to_string())?.into())
            }
            4 => {
                self.risky = true;
                let r = d.get_i32();
                Dv::Int(self.rec("get_i32", r, |v| v.to_string())?.into())
            }
            5 => {
                self.risky = true;
                let r = d.get_u8();
                Dv::Int(self.rec("get_u8", r, |v| v.to_string())?.into())
            }
            _ => {
                self.risky = true;
                let r = d.get_tag(MAX_TAG, TAGS);
                Dv::Int(self.rec("get_tag", r, |v| v.to_string())? as i128)
            }
        })
    }

    fn string<R: TextReader>(&mut self, d: &mut TextDeserializer<R>) -> P<Dv>
    where
        R::Position: ToLoc,
    {
        let w: &[usize] = if self.mode == 1 {
            &[20, 20, 1, 1, 1, 1]
        } else {
            &[3, 3]
        };
        Ok(match self.weighted(w) {
            0 => {
                let r = d.read_str().map(|c| c.into_owned());
                Dv::Str(self.rec("read_str", r, |v| format!("{v:?}"))?)
            }
            1 => {
                let r = d.open_str();
                self.rec("open_str", r, |_| String::new())?;
                self.str_rest(d, true)?
            }
            2 => {
                self.risky = true;
                let r = d.get_char();
                Dv::Str(self.rec("get_char", r, |v| format!("{v:?}"))?.to_string())
            }
            3 => {
                self.risky = true;
                let r = d.open_str();
                self.rec("open_str", r, |_| String::new())?;
                let r = d.close_str();
                self.rec("close_str", r, |_| String::new())?;
                Dv::Str(String::new())
            }
            how => {
                self.risky = true;
                let (op, r) = if how == 4 {
                    ("get_tag", d.get_tag(MAX_TAG, TAGS))
                } else {
                    ("get_name", d.get_name(TAGS))
                };
                let i = self.rec(op, r, |v| v.to_string())?;
                match TAGS.entries().find(|(_, v)| **v == i) {
                    Some((k, _)) => Dv::Str(k.to_string()),
                    None => Dv::Str(format!("no name has index {i}")),
                }
            }
        })
    }

    fn array<R: TextReader>(&mut self, d: &mut TextDeserializer<R>, depth: usize) -> P<Dv>
    where
        R::Position: ToLoc,
    {
        let w: &[usize] = if self.mode == 1 { &[10, 2, 2] } else { &[1] };
        let how = self.weighted(w);
        let (op, r) = match how {
            0 => ("open_list", d.open_list().map(|_| ())),
            1 => ("open_tuple", d.open_tuple(None)),
            _ => ("open_struct", d.open_struct(None)),
        };
        self.rec(op, r, |_| String::new())?;
        let mut items = Vec::new();
        loop {
            let w: &[usize] = if self.mode == 1 { &[60, 2, 1] } else { &[1] };
            match self.weighted(w) {
                0 => {
                    let r = d.next_item();
                    if !self.rec("next_item", r, |v| v.to_string())? {
                        return Ok(Dv::Arr(items, true));
                    }
                }
                1 => {
                    self.risky = true;
                    let (op, r) = match how {
                        0 => ("push_item", d.push_item()),
                        1 => ("push_element", d.push_element()),
                        _ => ("push_field", d.push_field("a")),
                    };
                    self.rec(op, r, |_| String::new())?;
                }
                _ => {
                    self.risky = true;
                    let (op, r) = match how {
                        0 => ("close_list", d.close_list()),
                        1 => ("close_tuple", d.close_tuple()),
                        _ => ("close_struct", d.close_struct()),
                    };
                    self.rec(op, r, |_| String::new())?;
                    return Ok(Dv::Arr(items, true));
                }
            }
            items.push(self.value(d, depth + 1)?);
        }
    }

    fn object<R: TextReader>(&mut self, d: &mut TextDeserializer<R>, depth: usize) -> P<Dv>
    where
        R::Position: ToLoc,
    {
        let mut entries = Vec::new();
        let w: &[usize] = if self.mode == 1 { &[10, 2] } else { &[1] };
        if self.weighted(w) == 1 {
            let r = d.open_struct(Some("S"));
            self.rec("open_struct", r, |_| String::new())?;
            let n = self.below(5);
            for _ in 0..n {
                let name = KEYS[self.below(KEYS.len())];
                let r = d.push_field(name);
                self.rec(&format!("push_field {name:?}"), r, |_| String::new())?;
                let r = d.check_null();
                if !self.rec("check_null", r, |v| v.to_string())? {
                    let v = self.value(d, depth + 1)?;
                    entries.push((Some(name.to_string()), v));
                }
            }
            let r = d.close_struct();
            self.rec("close_struct", r, |_| String::new())?;
            return Ok(Dv::Obj(entries, false));
        }
        let r = d.open_object();
        self.rec("open_object", r, |_| String::new())?;
        loop {
            let w: &[usize] = match self.mode {
                0 => &[6, 2],
                1 => &[30, 15, 1, 1, 1],
                _ => &[6, 2, 0, 2],
            };
            match self.weighted(w) {
                0 => {
                    let r = d.next_entry();
                    if !self.rec("next_entry", r, |v| v.to_string())? {
                        return Ok(Dv::Obj(entries, true));
                    }
                    let ty = d.peek_collection_type();
                    self.ok("peek_collection_type", format!("{ty:?}"));
                    if ty != CollectionType::Object {
                        self.log.last_mut().unwrap().out = Ok("NOT AN OBJECT".into());
                    }
                    let key = match self.str_rest(d, false)? {
                        Dv::Str(s) => Some(s),
                        _ => None,
                    };
                    let v = self.value(d, depth + 1)?;
                    entries.push((key, v));
                }
                1 => {
                    let key = self.key();
                    let r = d.try_push_entry(&key);
                    if self.rec(&format!("try_push_entry {key:?}"), r, |v| v.to_string())? {
                        let v = self.value(d, depth + 1)?;
                        entries.push((Some(key), v));
                    }
                }
                2 => {
                    self.risky = true;
                    let key = self.key();
                    let r = d.push_entry(&key);
                    self.rec(&format!("push_entry {key:?}"), r, |_| String::new())?;
                    let v = self.value(d, depth + 1)?;
                    entries.push((Some(key), v));
                }
                3 => {
                    let r = d.skip_object();
                    self.rec("skip_object", r, |_| String::new())?;
                    return Ok(Dv::Obj(entries, false));
                }
                _ => {
                    self.risky = true;
                    let r = d.close_object();
                    self.rec("close_object", r, |_| String::new())?;
                    return Ok(Dv::Obj(entries, true));
                }
            }
        }
    }

    fn key(&mut self) -> String {
        if !self.keys.is_empty() && self.below(4) != 3 {
            self.keys[self.below(self.keys.len())].clone()
        } else {
            KEYS[self.below(KEYS.len())].to_string()
        }
    }

    /// Reads a value as something chosen without looking.
    fn anything<R: TextReader>(&mut self, d: &mut TextDeserializer<R>) -> P<Dv>
    where
        R::Position: ToLoc,
    {
        Ok(match self.below(9) {
            0 => {
                let r = d.get_bool();
                Dv::Bool(self.rec("get_bool", r, |v| v.to_string())?)
            }
            1 => {
                let r = d.get_i16();
                Dv::Int(self.rec("get_i16", r, |v| v.to_string())?.into())
            }
            2 => {
                let r = d.get_u32();
                Dv::Int(self.rec("get_u32", r, |v| v.to_string())?.into())
            }
            3 => {
                let r = d.get_i8();
                Dv::Int(self.rec("get_i8", r, |v| v.to_string())?.into())
            }
            4 => {
                let r = d.get_char();
                Dv::Str(self.rec("get_char", r, |v| format!("{v:?}"))?.to_string())
            }
            5 => {
                let r = d.read_str().map(|c| c.into_owned());
                Dv::Str(self.rec("read_str", r, |v| format!("{v:?}"))?)
            }
            6 => {
                let r = d.pop_null();
                self.rec("pop_null", r, |_| String::new())?;
                Dv::Null
            }
            7 => {
                let r = d.open_struct(None);
                self.rec("open_struct", r, |_| String::new())?;
                let r = d.close_struct();
                self.rec("close_struct", r, |_| String::new())?;
                Dv::Hole
            }
            _ => {
                let r = d.get_u16();
                Dv::Int(self.rec("get_u16", r, |v| v.to_string())?.into())
            }
        })
    }
}

/// All keys in a document.
pub fn keys_of(n: &Node, out: &mut Vec<String>) {
    match n {
        Node::Arr(items) => items.iter().for_each(|n| keys_of(n, out)),
        Node::Obj(es) => {
            for (k, v) in es {
                if out.len() < 40 {
                    out.push(k.clone());
                }
                keys_of(v, out);
            }
        }
        _ => (),
    }
}

/// Folds a log into the identity of the run.
pub fn note_log(ctx: &mut Ctx, log: &[Ev]) {
    ctx.stats.ticks += log.len() as u64;
    for e in log {
        ctx.note(e.op.as_bytes());
        match &e.out {
            Ok(v) => ctx.note(v.as_bytes()),
            Err(e) => {
                ctx.note(e.kind.as_bytes());
                ctx.note(format!("{:?}", e.loc).as_bytes());
            }
        }
        ctx.note_n(e.consumed);
    }
}

pub fn show_log(ctx: &mut Ctx, title: &str, log: &[Ev]) {
    if ctx.trace.is_some() {
        ctx.log(|| format!("-- {title}"));
        for e in log {
            ctx.log(|| format!("   {e}"));
        }
    }
}
