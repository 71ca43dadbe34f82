//! A user-written format that looks like JSON: a document in memory, read through the standard
//! implementations which serdere-json offers to such formats. For C18.

use crate::ctx::{fail, Ctx, R};
use crate::ensure;
use crate::io::Says;
use crate::node::*;
use crate::typed::{render_broken, render_sample, Freedom};
use crate::zoo::*;
use serdere::{Deserialize, Deserializer, NameMap, Outliner, Value};
use serdere_json::deserialize as std_json;
use serdere_json::{CollectionType, JsonDeserializer, JsonOutliner, ValueType};
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::fmt;

enum K {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<usize>),
    Obj(Vec<(String, usize)>),
}

#[derive(Debug)]
pub enum Why {
    /// It was told to fail.
    Fault,
    Illegal,
    Type(&'static [ValueType]),
    Range,
    Rest,
    MissingItem,
    ExtraItem,
    MissingEntry(String),
    ExtraEntry(String),
    Source(Box<dyn Error + Send + Sync>),
}

#[derive(Debug)]
pub struct MemError {
    id: u64,
    why: Why,
    /// The part of the document it is about.
    at: usize,
}
impl fmt::Display for MemError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.why)
    }
}
impl Error for MemError {}

#[derive(Debug)]
enum Frame {
    Value(usize),
    /// The null in place of an absent entry.
    Absent(usize, Option<&'static str>),
    Str(Vec<char>, usize),
    Arr(usize, usize),
    /// With what was not read yet.
    Obj(usize, Vec<bool>),
}

pub struct MemDe {
    nodes: Vec<(K, Vec<usize>)>,
    stack: Vec<Frame>,
    popped: usize,
    lengths: bool,
    fail_at: Option<u64>,
    calls: u64,
    errors: Cell<u64>,
    illegal: RefCell<Option<String>>,
    log: RefCell<Option<Vec<String>>>,
}

type Res<T = ()> = Result<T, MemError>;

impl MemDe {
    fn new(doc: &Node, lengths: bool, fail_at: Option<u64>, log: bool) -> Self {
        let mut nodes = Vec::new();
        let root = add(doc, &mut Vec::new(), &mut nodes);
        Self {
            nodes,
            stack: vec![Frame::Value(root)],
            popped: root,
            lengths,
            fail_at,
            calls: 0,
            errors: Cell::new(0),
            illegal: RefCell::new(None),
            log: RefCell::new(log.then(Vec::new)),
        }
    }

    fn err(&self, why: Why, at: usize) -> MemError {
        self.errors.set(self.errors.get() + 1);
        if let Some(l) = &mut *self.log.borrow_mut() {
            l.push(format!("   error: {why:?}"));
        }
        MemError {
            id: self.errors.get(),
            why,
            at,
        }
    }

    fn bad(&self, name: &str) -> MemError {
        let mut i = self.illegal.borrow_mut();
        if i.is_none() {
            *i = Some(format!("{name} on {:?}", self.stack.last()));
        }
        drop(i);
        self.err(Why::Illegal, 0)
    }

    fn enter(&mut self, name: &str) -> Res {
        if let Some(l) = &mut *self.log.borrow_mut() {
            l.push(format!("   {name}"));
        }
        if self.errors.get() > 0 {
            let mut i = self.illegal.borrow_mut();
            if i.is_none() {
                *i = Some(format!("{name} was called after the format had reported an error"));
            }
            drop(i);
            return Err(self.err(Why::Illegal, 0));
        }
        let n = self.calls;
        self.calls += 1;
        if self.fail_at == Some(n) {
            return Err(self.err(Why::Fault, 0));
        }
        Ok(())
    }

    /// Pops a value that is there.
    fn value(&mut self, name: &str, expected: &'static [ValueType]) -> Res<usize> {
        self.enter(name)?;
        match self.stack.last() {
            Some(Frame::Value(id)) => {
                let id = *id;
                if !expected.contains(&self.peek_value_type()) {
                    return Err(self.error_expected_type(expected));
                }
                self.stack.pop();
                self.popped = id;
                Ok(id)
            }
            Some(Frame::Absent(..)) => Err(self.error_expected_type(expected)),
            _ => Err(self.bad(name)),
        }
    }

    fn int<T: TryFrom<i128>>(&mut self, name: &str) -> Res<T> {
        let id = self.value(name, &[ValueType::Number])?;
        let K::Num(t) = &self.nodes[id].0 else { unreachable!() };
        match num_int(t).and_then(|v| T::try_from(v).ok()) {
            Some(v) => Ok(v),
            None => Err(self.err(Why::Range, id)),
        }
    }

    fn text(&self, id: usize) -> &str {
        match &self.nodes[id].0 {
            K::Str(t) | K::Num(t) => t,
            _ => unreachable!(),
        }
    }

    fn array_open(&mut self, name: &str) -> Res<usize> {
        let id = self.value(name, &[ValueType::Array])?;
        self.stack.push(Frame::Arr(id, 0));
        match &self.nodes[id].0 {
            K::Arr(v) => Ok(v.len()),
            _ => unreachable!(),
        }
    }

    fn close_string(&mut self, name: &str) -> Res<String> {
        self.enter(name)?;
        match self.stack.last() {
            Some(Frame::Str(t, i)) => {
                let s = t[*i..].iter().collect();
                self.stack.pop();
                Ok(s)
            }
            _ => Err(self.bad(name)),
        }
    }
}

fn add(n: &Node, path: &mut Vec<usize>, out: &mut Vec<(K, Vec<usize>)>) -> usize {
    let id = out.len();
    out.push((K::Null, path.clone()));
    let mut child = |i: usize, n: &Node, out: &mut Vec<_>| {
        path.push(i);
        let id = add(n, path, out);
        path.pop();
        id
    };
    let k = match n {
        Node::Null => K::Null,
        Node::Bool(b) => K::Bool(*b),
        Node::Num(t) => K::Num(t.clone()),
        Node::Str(t) => K::Str(t.clone()),
        Node::Arr(v) => K::Arr(v.iter().enumerate().map(|(i, n)| child(i, n, out)).collect()),
        Node::Obj(v) => K::Obj(
            v.iter()
                .enumerate()
                .map(|(i, (k, n))| (k.clone(), child(i, n, out)))
                .collect(),
        ),
    };
    out[id].0 = k;
    id
}

impl Outliner for MemDe {
    type Error = MemError;

    fn supports_null(&self) -> bool {
        true
    }
    fn pop_null(&mut self) -> Res {
        if let Some(Frame::Absent(..)) = self.stack.last() {
            self.enter("pop_null")?;
            self.stack.pop();
            return Ok(());
        }
        self.value("pop_null", &[ValueType::Null]).map(drop)
    }
    fn open_str(&mut self) -> Res {
        let id = self.value("open_str", &[ValueType::String])?;
        let chars = self.text(id).chars().collect();
        self.stack.push(Frame::Str(chars, 0));
        Ok(())
    }
    fn close_str(&mut self) -> Res {
        if self.close_string("close_str")?.is_empty() {
            Ok(())
        } else {
            Err(self.err(Why::Rest, self.popped))
        }
    }
    fn open_struct(&mut self, type_name: Option<&'static str>) -> Res {
        std_json::open_struct(self, type_name)
    }
    fn push_field(&mut self, name: &'static str) -> Res {
        std_json::push_field(self, name)
    }
    fn close_struct(&mut self) -> Res {
        std_json::close_struct(self)
    }
    fn open_tuple(&mut self, _: Option<&'static str>) -> Res {
        self.array_open("open_tuple").map(drop)
    }
    fn push_element(&mut self) -> Res {
        std_json::push_item(self)
    }
    fn close_tuple(&mut self) -> Res {
        std_json::close_list(self)
    }
    fn push_item(&mut self) -> Res {
        std_json::push_item(self)
    }
    fn close_list(&mut self) -> Res {
        std_json::close_list(self)
    }
}

impl JsonOutliner for MemDe {
    fn open_object(&mut self) -> Res {
        let id = self.value("open_object", &[ValueType::Object])?;
        let K::Obj(es) = &self.nodes[id].0 else { unreachable!() };
        let unread = vec![true; es.len()];
        self.stack.push(Frame::Obj(id, unread));
        Ok(())
    }
    fn push_entry(&mut self, key: &str) -> Res {
        if self.try_push_entry(key)? {
            return Ok(());
        }
        let Some(Frame::Obj(id, _)) = self.stack.last() else { unreachable!() };
        Err(self.err(Why::MissingEntry(key.to_string()), *id))
    }
    fn close_object(&mut self) -> Res {
        self.enter("close_object")?;
        let Some(Frame::Obj(id, unread)) = self.stack.last() else {
            return Err(self.bad("close_object"));
        };
        let K::Obj(es) = &self.nodes[*id].0 else { unreachable!() };
        if let Some(i) = unread.iter().position(|u| *u) {
            return Err(self.err(Why::ExtraEntry(es[i].0.clone()), *id));
        }
        self.popped = *id;
        self.stack.pop();
        Ok(())
    }
}

impl Deserializer for MemDe {
    fn get_bool(&mut self) -> Res<bool> {
        let id = self.value("get_bool", &[ValueType::Bool])?;
        let K::Bool(b) = self.nodes[id].0 else { unreachable!() };
        Ok(b)
    }
    fn get_i8(&mut self) -> Res<i8> {
        self.int("get_i8")
    }
    fn get_i16(&mut self) -> Res<i16> {
        self.int("get_i16")
    }
    fn get_i32(&mut self) -> Res<i32> {
        self.int("get_i32")
    }
    fn get_i64(&mut self) -> Res<i64> {
        self.int("get_i64")
    }
    fn get_u8(&mut self) -> Res<u8> {
        self.int("get_u8")
    }
    fn get_u16(&mut self) -> Res<u16> {
        self.int("get_u16")
    }
    fn get_u32(&mut self) -> Res<u32> {
        self.int("get_u32")
    }
    fn get_u64(&mut self) -> Res<u64> {
        self.int("get_u64")
    }
    fn get_f32(&mut self) -> Res<f32> {
        let id = self.value("get_f32", &[ValueType::Number])?;
        Ok(num_f32(self.text(id)))
    }
    fn get_f64(&mut self) -> Res<f64> {
        let id = self.value("get_f64", &[ValueType::Number])?;
        Ok(num_f64(self.text(id)))
    }
    fn get_char(&mut self) -> Res<char> {
        let id = self.value("get_char", &[ValueType::String])?;
        let mut chars = self.text(id).chars();
        match (chars.next(), chars.next()) {
            (Some(c), None) => Ok(c),
            _ => Err(self.err(Why::Range, id)),
        }
    }
    fn next_char(&mut self) -> Res<Option<char>> {
        self.enter("next_char")?;
        match self.stack.last_mut() {
            Some(Frame::Str(t, i)) => {
                let c = t.get(*i).copied();
                *i += 1;
                if c.is_none() {
                    self.stack.pop();
                }
                Ok(c)
            }
            _ => Err(self.bad("next_char")),
        }
    }
    fn get_tag(&mut self, max_index: usize, names: &'static NameMap<usize>) -> Res<usize> {
        std_json::get_tag(self, max_index, names)
    }
    fn check_null(&mut self) -> Res<bool> {
        self.enter("check_null")?;
        match self.stack.last() {
            Some(Frame::Value(id)) => {
                let id = *id;
                if let K::Null = self.nodes[id].0 {
                    self.stack.pop();
                    self.popped = id;
                    return Ok(true);
                }
                Ok(false)
            }
            Some(Frame::Absent(..)) => {
                self.stack.pop();
                Ok(true)
            }
            _ => Err(self.bad("check_null")),
        }
    }
    fn open_list(&mut self) -> Res<Option<usize>> {
        let n = self.array_open("open_list")?;
        Ok(self.lengths.then_some(n))
    }
    fn next_item(&mut self) -> Res<bool> {
        self.enter("next_item")?;
        let Some(Frame::Arr(id, next)) = self.stack.last_mut() else {
            return Err(self.bad("next_item"));
        };
        let K::Arr(v) = &self.nodes[*id].0 else { unreachable!() };
        match v.get(*next) {
            Some(item) => {
                *next += 1;
                self.stack.push(Frame::Value(*item));
                Ok(true)
            }
            None => {
                self.popped = *id;
                self.stack.pop();
                Ok(false)
            }
        }
    }
    fn error(&self, source: Box<dyn Error + Send + Sync>) -> MemError {
        self.err(Why::Source(source), self.popped)
    }
    fn error_missing_item(&self) -> MemError {
        self.err(Why::MissingItem, self.popped)
    }
    fn error_extra_item(&self) -> MemError {
        match self.stack.last() {
            Some(Frame::Arr(id, _)) => self.err(Why::ExtraItem, *id),
            _ => self.bad("error_extra_item"),
        }
    }
}

impl JsonDeserializer for MemDe {
    fn peek_value_type(&self) -> ValueType {
        match self.stack.last() {
            Some(Frame::Value(id)) => match self.nodes[*id].0 {
                K::Null => ValueType::Null,
                K::Bool(_) => ValueType::Bool,
                K::Num(_) => ValueType::Number,
                K::Str(_) => ValueType::String,
                K::Arr(_) => ValueType::Array,
                K::Obj(_) => ValueType::Object,
            },
            Some(Frame::Absent(..)) => ValueType::Null,
            _ => {
                self.bad("peek_value_type");
                ValueType::Null
            }
        }
    }
    fn peek_collection_type(&self) -> CollectionType {
        match self.stack.last() {
            Some(Frame::Obj(..)) => CollectionType::Object,
            Some(Frame::Arr(..)) => CollectionType::Array,
            _ => {
                self.bad("peek_collection_type");
                CollectionType::Array
            }
        }
    }
    fn push_null(&mut self, key: Option<&'static str>) {
        match self.stack.last() {
            Some(Frame::Obj(id, _) | Frame::Arr(id, _)) => {
                let id = *id;
                self.stack.push(Frame::Absent(id, key));
            }
            _ => drop(self.bad("push_null")),
        }
    }
    fn try_push_entry(&mut self, key: &str) -> Res<bool> {
        self.enter("try_push_entry")?;
        let Some(Frame::Obj(id, unread)) = self.stack.last_mut() else {
            return Err(self.bad("try_push_entry"));
        };
        let K::Obj(es) = &self.nodes[*id].0 else { unreachable!() };
        match (0..es.len()).find(|i| unread[*i] && es[*i].0 == key) {
            Some(i) => {
                unread[i] = false;
                self.stack.push(Frame::Value(es[i].1));
                Ok(true)
            }
            None => Ok(false),
        }
    }
    fn next_entry(&mut self) -> Res<bool> {
        self.enter("next_entry")?;
        let Some(Frame::Obj(id, unread)) = self.stack.last_mut() else {
            return Err(self.bad("next_entry"));
        };
        let K::Obj(es) = &self.nodes[*id].0 else { unreachable!() };
        match unread.iter().position(|u| *u) {
            Some(i) => {
                unread[i] = false;
                self.stack.push(Frame::Value(es[i].1));
                self.stack.push(Frame::Str(es[i].0.chars().collect(), 0));
                Ok(true)
            }
            None => {
                self.popped = *id;
                self.stack.pop();
                Ok(false)
            }
        }
    }
    fn error_expected_type(&self, expected: &'static [ValueType]) -> MemError {
        match self.stack.last() {
            Some(Frame::Value(id)) => self.err(Why::Type(expected), *id),
            Some(Frame::Absent(id, key)) => {
                self.err(Why::MissingEntry(key.unwrap_or("").to_string()), *id)
            }
            _ => self.bad("error_expected_type"),
        }
    }
    fn error_missing_entry(&self, key: String) -> MemError {
        self.err(Why::MissingEntry(key), self.popped)
    }
    fn error_extra_entry(&self, key: String) -> MemError {
        match self.stack.last() {
            Some(Frame::Obj(id, _)) => self.err(Why::ExtraEntry(key), *id),
            _ => self.bad("error_extra_entry"),
        }
    }
}

// ---------------------------------------------------------------------------------------------

struct Ran<T> {
    res: Res<T>,
    de: MemDe,
}

fn read<T: Wire>(ctx: &mut Ctx, doc: &Node, lengths: bool, fail_at: Option<u64>) -> R<Ran<T>> {
    let mut de = MemDe::new(doc, lengths, fail_at, ctx.trace.is_some());
    let res = Value::with(&mut de, |v| <T as Deserialize<MemDe>>::deserialize(v, &mut ()));
    if let Some(l) = de.log.borrow_mut().take() {
        l.into_iter().for_each(|l| ctx.log(|| l));
    }
    ctx.stats.ticks += de.calls;
    ctx.note_n(de.calls as usize);
    ctx.log(|| format!("   returned {:?}", res.as_ref().map(|_| ())));
    if let Some(msg) = de.illegal.borrow_mut().take() {
        return fail("illegal", msg);
    }
    match &res {
        Ok(_) => {
            ensure!(de.errors.get() == 0, "swallowed", "an error was made, but a value returned");
            ensure!(de.stack.is_empty(), "open", "reading left {:?} open", de.stack);
        }
        Err(e) => ensure!(
            e.id == 1 && de.errors.get() == 1,
            "replaced",
            "{} errors were made, and {e:?} was returned",
            de.errors.get()
        ),
    }
    Ok(Ran { res, de })
}

/// Typed values from a document in memory.
pub struct Mem;
impl Job for Mem {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let f = Freedom::swarm(&mut ctx.src);
        let mut lengths = ctx.src.chance(1, 2);
        let m = value.model();
        let broken = if ctx.src.chance(1, 3) {
            let only = ctx.src.chance(1, 2);
            render_broken(&mut ctx.src, &m, f, only)
        } else {
            None
        };
        let (doc, broken) = match broken {
            Some((n, b)) => {
                // Pushing items onto a list whose known length says otherwise is a panic by contract.
                lengths = false;
                (n, Some(b))
            }
            None => (render_sample(&mut ctx.src, &m, f), None),
        };
        ctx.note(format!("{lengths} {doc:?}").as_bytes());
        ctx.log(|| format!("document: {doc:?}, broken: {broken:?}"));
        if !matches!(m, M::Null | M::Bool(_) | M::Int(..)) {
            ctx.nontrivial = true;
        }
        let r = read::<T>(ctx, &doc, lengths, None)?;
        match (&broken, &r.res) {
            (None, Ok(v)) => ensure!(v.same(&value), "value", "read {v:?} instead of {value:?}"),
            (None, Err(e)) => return fail("failed", format!("reading returned {e:?}")),
            (Some(b), Ok(v)) => {
                return fail("accepted", format!("although {}, this was read: {v:?}", b.what))
            }
            (Some(b), Err(e)) => {
                ctx.count("fault.unfit", 1);
                let at = &r.de.nodes[e.at].1;
                ensure!(
                    *at == b.path,
                    "position",
                    "{}: {e:?} is about {at:?} instead of {:?}",
                    b.what,
                    b.path
                );
                let says = match &e.why {
                    Why::Type(t) => Says::Expected(t),
                    Why::MissingItem => Says::MissingItems,
                    Why::ExtraItem => Says::ExtraItems,
                    Why::MissingEntry(k) => Says::MissingKey(k.clone()),
                    Why::Range | Why::Source(_) => Says::Overflow,
                    _ => return fail("kind", format!("{}: the error is {e:?}", b.what)),
                };
                ensure!(b.is(&says), "kind", "{}: the error is {e:?}", b.what);
            }
        }
        if r.de.calls > 0 && broken.is_none() && ctx.src.chance(1, 2) {
            let k = ctx.src.draw(r.de.calls);
            ctx.note_n(k as usize);
            ctx.count("fault.format_read", 1);
            ctx.log(|| format!("the format fails at call {k}"));
            let r = read::<T>(ctx, &doc, lengths, Some(k))?;
            match &r.res {
                Err(e) if matches!(e.why, Why::Fault) => {}
                Err(e) => return fail("replaced", format!("the format failed, but {e:?} was returned")),
                Ok(_) => return fail("swallowed", "the format failed, but a value was returned"),
            }
            ctx.nontrivial = true;
        }
        Ok(())
    }
}
