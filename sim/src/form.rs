//! A format written by a user, for C18: it takes and gives a description of a value through the
//! interfaces `Outliner`, `Serializer` and `Deserializer`, watches that every call is one the
//! interfaces allow at that point, and fails at a drawn call.

use crate::ctx::{fail, Ctx, R};
use crate::driver::{last_panic_at, panic_text};
use crate::ensure;
use crate::node::{gen_char, gen_string};
use crate::src::Src;
use crate::zoo::*;
use serdere::deserialize::{InvalidIndexError, InvalidNameError};
use serdere::{
    Deserialize, Deserializer, FixedNameMap, List, NameMap, Outliner, Serialize, Serializer, Struct,
    Tuple, Value, INVALID_STATE_ERROR, LIST_OVERFLOW_ERROR, LIST_UNDERFLOW_ERROR,
};
use serdere_json::{JsonOutliner, JsonSerializer, ValueExt, ValueSerialierExt};
use std::borrow::Cow;
use std::cell::{Cell, RefCell};
use std::error::Error;
use std::fmt;
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------------------------------------
// Descriptions

/// A piece of the description of a value.
#[derive(Clone, Debug, PartialEq)]
pub enum Tok {
    Null,
    Bool(bool),
    /// With the method it belongs to.
    Int(&'static str, i128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    Tag(usize, usize, Option<String>),
    List(usize),
    /// A list of unknown length.
    Stream,
    Item,
    EndList,
    Struct(Option<&'static str>),
    Field(String),
    EndStruct,
    Tuple(Option<&'static str>),
    Element,
    EndTuple,
    Object,
    Entry(String),
    EndObject,
}

/// The method for whole numbers of a range.
fn int_kind(lo: i128, hi: i128) -> &'static str {
    match (lo < 0, hi) {
        (true, 0x7f) => "i8",
        (true, 0x7fff) => "i16",
        (true, 0x7fff_ffff) => "i32",
        (true, _) => "i64",
        (false, 0xff) => "u8",
        (false, 0xffff) => "u16",
        (false, 0xffff_ffff) => "u32",
        (false, _) => "u64",
    }
}

/// Describes a value.
pub fn describe(m: &M, out: &mut Vec<Tok>) {
    match m {
        M::Null => out.push(Tok::Null),
        M::Bool(b) => out.push(Tok::Bool(*b)),
        M::Int(v, lo, hi, _) => out.push(Tok::Int(int_kind(*lo, *hi), *v)),
        M::F32(v) => out.push(Tok::F32(v.to_bits())),
        M::F64(v) => out.push(Tok::F64(v.to_bits())),
        M::Char(c) => out.push(Tok::Char(*c)),
        M::Str(s) => out.push(Tok::Str(s.clone())),
        M::Tag(name, index, max, _) => out.push(Tok::Tag(*max, *index, Some(name.clone()))),
        M::Seq(items) | M::Counted(items) => {
            out.push(Tok::List(items.len()));
            for i in items {
                out.push(Tok::Item);
                describe(i, out);
            }
            out.push(Tok::EndList);
        }
        M::Fixed(items, name) => {
            out.push(Tok::Tuple(*name));
            for i in items {
                out.push(Tok::Element);
                describe(i, out);
            }
            out.push(Tok::EndTuple);
        }
        M::Struct(fs, name) => {
            out.push(Tok::Struct(*name));
            for f in fs {
                out.push(Tok::Field(f.name.clone()));
                describe(&f.m, out);
            }
            out.push(Tok::EndStruct);
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The format's errors and what is common to both directions

#[derive(Debug)]
pub enum What {
    /// It was told to fail.
    Fault,
    /// What is there is not what was asked for.
    Mismatch(String),
    /// A call the interfaces do not allow.
    Illegal,
    MissingItem,
    ExtraItem,
    /// An error of the type's.
    Source(Box<dyn Error + Send + Sync>),
}

#[derive(Debug)]
pub struct FormError {
    pub id: u64,
    pub what: What,
    /// The token that was popped most recently.
    pub at: usize,
}

impl fmt::Display for FormError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "{:?}", self.what)
    }
}
impl Error for FormError {}

/// What the format can do.
#[derive(Clone, Copy, Debug)]
pub struct Caps {
    pub null: bool,
    /// Tags are kept by name.
    pub names: bool,
    /// Lengths of lists are known when they are read.
    pub lengths: bool,
    /// Tags kept by name are read like strings.
    pub by_char: bool,
}

impl Caps {
    pub fn gen(s: &mut Src) -> Self {
        Self {
            null: !s.chance(1, 2),
            names: !s.chance(1, 2),
            lengths: s.chance(1, 2),
            by_char: s.chance(1, 2),
        }
    }
}

#[derive(Clone, Debug, PartialEq)]
enum On {
    Value,
    Str(Vec<char>, usize),
    Key(Vec<char>, usize),
    Struct,
    Tuple,
    /// How many items remain to be announced.
    List(Option<usize>),
    Object,
}

/// The part of the format which watches calls.
struct Watch {
    stack: RefCell<Vec<On>>,
    calls: Cell<u64>,
    fail_at: Option<u64>,
    /// The errors made so far.
    errors: Cell<u64>,
    /// A call was not allowed.
    illegal: RefCell<Option<String>>,
    popped: Cell<usize>,
    log: RefCell<Option<Vec<String>>>,
}

impl Watch {
    fn new(fail_at: Option<u64>, log: bool) -> Self {
        Self {
            stack: RefCell::new(vec![On::Value]),
            calls: Cell::new(0),
            fail_at,
            errors: Cell::new(0),
            illegal: RefCell::new(None),
            popped: Cell::new(0),
            log: RefCell::new(log.then(Vec::new)),
        }
    }

    fn error(&self, what: What) -> FormError {
        self.errors.set(self.errors.get() + 1);
        if let Some(l) = &mut *self.log.borrow_mut() {
            l.push(format!("   error: {what:?}"));
        }
        FormError {
            id: self.errors.get(),
            what,
            at: self.popped.get(),
        }
    }

    fn bad(&self, msg: String) -> FormError {
        let mut i = self.illegal.borrow_mut();
        if i.is_none() {
            *i = Some(msg);
        }
        drop(i);
        self.error(What::Illegal)
    }

    /// A call is made.
    fn enter(&self, name: &str) -> Result<(), FormError> {
        if let Some(l) = &mut *self.log.borrow_mut() {
            l.push(format!("   {name}"));
        }
        if self.errors.get() > 0 {
            return Err(self.bad(format!("{name} was called after the format had reported an error")));
        }
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.fail_at == Some(n) {
            return Err(self.error(What::Fault));
        }
        Ok(())
    }

    /// A call that pops a value.
    fn value(&self, name: &str) -> Result<(), FormError> {
        self.enter(name)?;
        let mut st = self.stack.borrow_mut();
        if st.last() != Some(&On::Value) {
            let top = st.last().cloned();
            return Err(self.bad(format!("{name} on {top:?}, which is no value")));
        }
        st.pop();
        Ok(())
    }

    /// A call on something that is open.
    fn on(&self, name: &str, what: On) -> Result<(), FormError> {
        self.enter(name)?;
        let st = self.stack.borrow();
        if st.last() != Some(&what) {
            let top = st.last().cloned();
            return Err(self.bad(format!("{name} on {top:?}")));
        }
        Ok(())
    }

    fn push(&self, on: On) {
        self.stack.borrow_mut().push(on);
    }

    fn pop(&self) {
        self.stack.borrow_mut().pop();
    }
}

// ---------------------------------------------------------------------------------------------
// Writing

/// The writing side, with the provided methods of the interface or (`OWN`) its own.
pub struct FormSer<const OWN: bool> {
    caps: Caps,
    w: Watch,
    toks: Vec<Tok>,
}

impl<const OWN: bool> FormSer<OWN> {
    fn new(caps: Caps, fail_at: Option<u64>, log: bool) -> Self {
        Self {
            caps,
            w: Watch::new(fail_at, log),
            toks: Vec::new(),
        }
    }

    fn put(&mut self, name: &str, tok: Tok) -> Result<(), FormError> {
        self.w.value(name)?;
        self.toks.push(tok);
        Ok(())
    }

    fn append(&mut self, name: &str, chars: impl Iterator<Item = char>) -> Result<(), FormError> {
        self.w.enter(name)?;
        let mut st = self.w.stack.borrow_mut();
        match st.last_mut() {
            Some(On::Str(t, _) | On::Key(t, _)) => {
                t.extend(chars);
                Ok(())
            }
            top => {
                let msg = format!("{name} on {top:?}");
                drop(st);
                Err(self.w.bad(msg))
            }
        }
    }

    fn next_in_list(&mut self) -> Result<(), FormError> {
        self.w.enter("push_item")?;
        let mut st = self.w.stack.borrow_mut();
        match st.last_mut() {
            Some(On::List(Some(0))) => Err(self.w.bad("more items are pushed than were declared".into())),
            Some(On::List(n)) => {
                if let Some(n) = n {
                    *n -= 1;
                }
                st.push(On::Value);
                drop(st);
                self.toks.push(Tok::Item);
                Ok(())
            }
            top => {
                let msg = format!("push_item on {top:?}");
                Err(self.w.bad(msg))
            }
        }
    }
}

impl<const OWN: bool> Outliner for FormSer<OWN> {
    type Error = FormError;

    fn supports_null(&self) -> bool {
        self.caps.null
    }
    fn pop_null(&mut self) -> Result<(), FormError> {
        self.put("pop_null", Tok::Null)?;
        if !self.caps.null {
            return Err(self.w.bad("pop_null on a format without null".into()));
        }
        Ok(())
    }
    fn open_str(&mut self) -> Result<(), FormError> {
        self.w.value("open_str")?;
        self.w.push(On::Str(Vec::new(), 0));
        Ok(())
    }
    fn close_str(&mut self) -> Result<(), FormError> {
        self.w.enter("close_str")?;
        let top = self.w.stack.borrow_mut().pop();
        match top {
            Some(On::Str(t, _)) => {
                self.toks.push(Tok::Str(t.into_iter().collect()));
                Ok(())
            }
            Some(On::Key(t, _)) => {
                self.toks.push(Tok::Entry(t.into_iter().collect()));
                Ok(())
            }
            top => Err(self.w.bad(format!("close_str on {top:?}"))),
        }
    }
    fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), FormError> {
        self.put("open_struct", Tok::Struct(type_name))?;
        self.w.push(On::Struct);
        Ok(())
    }
    fn push_field(&mut self, name: &'static str) -> Result<(), FormError> {
        self.w.on("push_field", On::Struct)?;
        self.toks.push(Tok::Field(name.to_string()));
        self.w.push(On::Value);
        Ok(())
    }
    fn close_struct(&mut self) -> Result<(), FormError> {
        self.w.on("close_struct", On::Struct)?;
        self.w.pop();
        self.toks.push(Tok::EndStruct);
        Ok(())
    }
    fn open_tuple(&mut self, type_name: Option<&'static str>) -> Result<(), FormError> {
        self.put("open_tuple", Tok::Tuple(type_name))?;
        self.w.push(On::Tuple);
        Ok(())
    }
    fn push_element(&mut self) -> Result<(), FormError> {
        self.w.on("push_element", On::Tuple)?;
        self.toks.push(Tok::Element);
        self.w.push(On::Value);
        Ok(())
    }
    fn close_tuple(&mut self) -> Result<(), FormError> {
        self.w.on("close_tuple", On::Tuple)?;
        self.w.pop();
        self.toks.push(Tok::EndTuple);
        Ok(())
    }
    fn push_item(&mut self) -> Result<(), FormError> {
        self.next_in_list()
    }
    fn close_list(&mut self) -> Result<(), FormError> {
        self.w.enter("close_list")?;
        let top = self.w.stack.borrow_mut().pop();
        match top {
            Some(On::List(None | Some(0))) => {
                self.toks.push(Tok::EndList);
                Ok(())
            }
            top => Err(self.w.bad(format!("close_list on {top:?}"))),
        }
    }
}

impl<const OWN: bool> JsonOutliner for FormSer<OWN> {
    fn open_object(&mut self) -> Result<(), FormError> {
        self.put("open_object", Tok::Object)?;
        self.w.push(On::Object);
        Ok(())
    }
    fn push_entry(&mut self, key: &str) -> Result<(), FormError> {
        self.w.on("push_entry", On::Object)?;
        self.toks.push(Tok::Entry(key.to_string()));
        self.w.push(On::Value);
        Ok(())
    }
    fn close_object(&mut self) -> Result<(), FormError> {
        self.w.on("close_object", On::Object)?;
        self.w.pop();
        self.toks.push(Tok::EndObject);
        Ok(())
    }
}

macro_rules! ser_common {
    () => {
        fn put_bool(&mut self, v: bool) -> Result<(), FormError> {
            self.put("put_bool", Tok::Bool(v))
        }
        fn put_i8(&mut self, v: i8) -> Result<(), FormError> {
            self.put("put_i8", Tok::Int("i8", v.into()))
        }
        fn put_i16(&mut self, v: i16) -> Result<(), FormError> {
            self.put("put_i16", Tok::Int("i16", v.into()))
        }
        fn put_i32(&mut self, v: i32) -> Result<(), FormError> {
            self.put("put_i32", Tok::Int("i32", v.into()))
        }
        fn put_i64(&mut self, v: i64) -> Result<(), FormError> {
            self.put("put_i64", Tok::Int("i64", v.into()))
        }
        fn put_u8(&mut self, v: u8) -> Result<(), FormError> {
            self.put("put_u8", Tok::Int("u8", v.into()))
        }
        fn put_u16(&mut self, v: u16) -> Result<(), FormError> {
            self.put("put_u16", Tok::Int("u16", v.into()))
        }
        fn put_u32(&mut self, v: u32) -> Result<(), FormError> {
            self.put("put_u32", Tok::Int("u32", v.into()))
        }
        fn put_u64(&mut self, v: u64) -> Result<(), FormError> {
            self.put("put_u64", Tok::Int("u64", v.into()))
        }
        fn put_f32(&mut self, v: f32) -> Result<(), FormError> {
            self.put("put_f32", Tok::F32(v.to_bits()))
        }
        fn put_f64(&mut self, v: f64) -> Result<(), FormError> {
            self.put("put_f64", Tok::F64(v.to_bits()))
        }
        fn put_char(&mut self, v: char) -> Result<(), FormError> {
            self.put("put_char", Tok::Char(v))
        }
        fn append_char(&mut self, v: char) -> Result<(), FormError> {
            self.append("append_char", std::iter::once(v))
        }
        fn put_tag(&mut self, max: usize, index: usize, name: Option<&'static str>) -> Result<(), FormError> {
            self.put("put_tag", Tok::Tag(max, index, name.map(str::to_string)))
        }
        fn open_list_sized(&mut self, len: usize) -> Result<(), FormError> {
            self.put("open_list_sized", Tok::List(len))?;
            self.w.push(On::List(Some(len)));
            Ok(())
        }
    };
}

impl Serializer for FormSer<false> {
    ser_common!();
}

impl Serializer for FormSer<true> {
    ser_common!();

    fn append_str(&mut self, v: &str) -> Result<(), FormError> {
        self.append("append_str", v.chars())
    }
    fn put_str(&mut self, v: &str) -> Result<(), FormError> {
        self.put("put_str", Tok::Str(v.to_string()))
    }
}

impl JsonSerializer for FormSer<true> {
    fn open_list_streaming(&mut self) -> Result<(), FormError> {
        self.put("open_list_streaming", Tok::Stream)?;
        self.w.push(On::List(None));
        Ok(())
    }
    fn add_entry(&mut self) -> Result<(), FormError> {
        self.w.on("add_entry", On::Object)?;
        self.w.push(On::Value);
        self.w.push(On::Key(Vec::new(), 0));
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------
// Reading

/// The reading side, with the provided methods of the interface or (`OWN`) its own.
pub struct FormDe<const OWN: bool> {
    caps: Caps,
    w: Watch,
    toks: Vec<Tok>,
    at: usize,
}

impl<const OWN: bool> FormDe<OWN> {
    fn new(caps: Caps, toks: Vec<Tok>, fail_at: Option<u64>, log: bool) -> Self {
        Self {
            caps,
            w: Watch::new(fail_at, log),
            toks,
            at: 0,
        }
    }

    fn next(&self) -> Option<&Tok> {
        self.toks.get(self.at)
    }

    fn take(&mut self) {
        self.w.popped.set(self.at);
        self.at += 1;
    }

    fn mismatch(&self, name: &str) -> FormError {
        self.w.error(What::Mismatch(format!("{name} at {:?}", self.next())))
    }

    fn int<T: TryFrom<i128>>(&mut self, name: &'static str) -> Result<T, FormError> {
        self.w.value(name)?;
        match self.next() {
            Some(Tok::Int(k, v)) if *k == name => {
                let v = T::try_from(*v).ok();
                match v {
                    Some(v) => {
                        self.take();
                        Ok(v)
                    }
                    None => Err(self.mismatch(name)),
                }
            }
            _ => Err(self.mismatch(name)),
        }
    }

    fn open(&mut self, name: &str, tok: &Tok, on: On) -> Result<(), FormError> {
        self.w.value(name)?;
        if self.next() != Some(tok) {
            return Err(self.mismatch(&format!("{name} ({tok:?})")));
        }
        self.take();
        self.w.push(on);
        Ok(())
    }

    fn step(&mut self, name: &str, tok: &Tok, on: On) -> Result<(), FormError> {
        self.w.on(name, on)?;
        if self.next() != Some(tok) {
            return Err(self.mismatch(&format!("{name} ({tok:?})")));
        }
        self.take();
        self.w.push(On::Value);
        Ok(())
    }

    fn close(&mut self, name: &str, tok: &Tok, on: On) -> Result<(), FormError> {
        self.w.on(name, on)?;
        if self.next() != Some(tok) {
            return Err(self.mismatch(&format!("{name} ({tok:?})")));
        }
        self.take();
        self.w.pop();
        Ok(())
    }

    fn string(&mut self, name: &str) -> Result<String, FormError> {
        self.w.value(name)?;
        match self.next() {
            Some(Tok::Str(s)) => {
                let s = s.clone();
                self.take();
                Ok(s)
            }
            // A tag which is kept by name is a string
            Some(Tok::Tag(_, _, Some(n))) if self.caps.names => {
                let n = n.clone();
                self.take();
                Ok(n)
            }
            _ => Err(self.mismatch(name)),
        }
    }

    /// What remains of the opened string, which is popped.
    fn rest(&mut self, name: &str) -> Result<String, FormError> {
        self.w.enter(name)?;
        let top = self.w.stack.borrow_mut().pop();
        match top {
            Some(On::Str(t, i)) => Ok(t[i..].iter().collect()),
            top => Err(self.w.bad(format!("{name} on {top:?}"))),
        }
    }

    fn list_top(&mut self, name: &str) -> Result<(), FormError> {
        self.w.enter(name)?;
        let st = self.w.stack.borrow();
        match st.last() {
            Some(On::List(_)) => Ok(()),
            top => {
                let msg = format!("{name} on {top:?}");
                Err(self.w.bad(msg))
            }
        }
    }
}

impl<const OWN: bool> Outliner for FormDe<OWN> {
    type Error = FormError;

    fn supports_null(&self) -> bool {
        self.caps.null
    }
    fn pop_null(&mut self) -> Result<(), FormError> {
        self.w.value("pop_null")?;
        if !self.caps.null {
            return Err(self.w.bad("pop_null on a format without null".into()));
        }
        if self.next() != Some(&Tok::Null) {
            return Err(self.mismatch("pop_null"));
        }
        self.take();
        Ok(())
    }
    fn open_str(&mut self) -> Result<(), FormError> {
        let s = self.string("open_str")?;
        self.w.push(On::Str(s.chars().collect(), 0));
        Ok(())
    }
    fn close_str(&mut self) -> Result<(), FormError> {
        let rest = self.rest("close_str")?;
        if rest.is_empty() {
            Ok(())
        } else {
            Err(self.mismatch("close_str"))
        }
    }
    fn open_struct(&mut self, type_name: Option<&'static str>) -> Result<(), FormError> {
        self.open("open_struct", &Tok::Struct(type_name), On::Struct)
    }
    fn push_field(&mut self, name: &'static str) -> Result<(), FormError> {
        self.step("push_field", &Tok::Field(name.to_string()), On::Struct)
    }
    fn close_struct(&mut self) -> Result<(), FormError> {
        self.close("close_struct", &Tok::EndStruct, On::Struct)
    }
    fn open_tuple(&mut self, type_name: Option<&'static str>) -> Result<(), FormError> {
        self.open("open_tuple", &Tok::Tuple(type_name), On::Tuple)
    }
    fn push_element(&mut self) -> Result<(), FormError> {
        self.step("push_element", &Tok::Element, On::Tuple)
    }
    fn close_tuple(&mut self) -> Result<(), FormError> {
        self.close("close_tuple", &Tok::EndTuple, On::Tuple)
    }
    fn push_item(&mut self) -> Result<(), FormError> {
        self.list_top("push_item")?;
        if self.next() == Some(&Tok::EndList) {
            self.take();
            self.w.pop();
            return Err(self.w.error(What::MissingItem));
        }
        self.take();
        self.w.push(On::Value);
        Ok(())
    }
    fn close_list(&mut self) -> Result<(), FormError> {
        self.list_top("close_list")?;
        if self.next() == Some(&Tok::Item) {
            return Err(self.w.error(What::ExtraItem));
        }
        self.take();
        self.w.pop();
        Ok(())
    }
}

macro_rules! de_common {
    ($own:literal) => {
        fn get_bool(&mut self) -> Result<bool, FormError> {
            self.w.value("get_bool")?;
            let Some(Tok::Bool(b)) = self.next() else {
                return Err(self.mismatch("get_bool"));
            };
            let b = *b;
            self.take();
            Ok(b)
        }
        fn get_i8(&mut self) -> Result<i8, FormError> {
            self.int("i8")
        }
        fn get_i16(&mut self) -> Result<i16, FormError> {
            self.int("i16")
        }
        fn get_i32(&mut self) -> Result<i32, FormError> {
            self.int("i32")
        }
        fn get_i64(&mut self) -> Result<i64, FormError> {
            self.int("i64")
        }
        fn get_u8(&mut self) -> Result<u8, FormError> {
            self.int("u8")
        }
        fn get_u16(&mut self) -> Result<u16, FormError> {
            self.int("u16")
        }
        fn get_u32(&mut self) -> Result<u32, FormError> {
            self.int("u32")
        }
        fn get_u64(&mut self) -> Result<u64, FormError> {
            self.int("u64")
        }
        fn get_f32(&mut self) -> Result<f32, FormError> {
            self.w.value("get_f32")?;
            let Some(Tok::F32(b)) = self.next() else {
                return Err(self.mismatch("get_f32"));
            };
            let v = f32::from_bits(*b);
            self.take();
            Ok(v)
        }
        fn get_f64(&mut self) -> Result<f64, FormError> {
            self.w.value("get_f64")?;
            let Some(Tok::F64(b)) = self.next() else {
                return Err(self.mismatch("get_f64"));
            };
            let v = f64::from_bits(*b);
            self.take();
            Ok(v)
        }
        fn get_char(&mut self) -> Result<char, FormError> {
            self.w.value("get_char")?;
            let Some(Tok::Char(c)) = self.next() else {
                return Err(self.mismatch("get_char"));
            };
            let c = *c;
            self.take();
            Ok(c)
        }
        fn next_char(&mut self) -> Result<Option<char>, FormError> {
            self.w.enter("next_char")?;
            let mut st = self.w.stack.borrow_mut();
            match st.last_mut() {
                Some(On::Str(t, i)) => {
                    let c = t.get(*i).copied();
                    *i += 1;
                    if c.is_none() {
                        st.pop();
                    }
                    Ok(c)
                }
                top => {
                    let msg = format!("next_char on {top:?}");
                    Err(self.w.bad(msg))
                }
            }
        }
        fn get_tag(&mut self, max: usize, names: &'static NameMap<usize>) -> Result<usize, FormError> {
            let (m, i, known) = match self.next() {
                Some(Tok::Tag(m, i, n)) => (*m, *i, n.as_ref().and_then(|n| names.get(n).copied())),
                _ => {
                    self.w.value("get_tag")?;
                    return Err(self.mismatch("get_tag"));
                }
            };
            if m != max {
                return Err(self.w.bad(format!("get_tag says the largest index is {max} instead of {m}")));
            }
            if self.caps.names {
                if $own && !self.caps.by_char {
                    self.w.value("get_tag")?;
                    self.take();
                    return known.ok_or_else(|| self.error_invalid_name(names));
                }
                return self.get_name(names);
            }
            self.w.value("get_tag")?;
            self.take();
            if i > max {
                return Err(self.error_invalid_index(i));
            }
            Ok(i)
        }
        fn check_null(&mut self) -> Result<bool, FormError> {
            self.w.on("check_null", On::Value)?;
            if !self.caps.null {
                return Err(self.w.bad("check_null on a format without null".into()));
            }
            let is = self.next() == Some(&Tok::Null);
            if is {
                self.take();
                self.w.pop();
            }
            Ok(is)
        }
        fn open_list(&mut self) -> Result<Option<usize>, FormError> {
            self.w.value("open_list")?;
            let Some(Tok::List(n)) = self.next() else {
                return Err(self.mismatch("open_list"));
            };
            let n = *n;
            self.take();
            self.w.push(On::List(None));
            Ok(self.caps.lengths.then_some(n))
        }
        fn next_item(&mut self) -> Result<bool, FormError> {
            self.list_top("next_item")?;
            let more = self.next() == Some(&Tok::Item);
            self.take();
            if more {
                self.w.push(On::Value);
            } else {
                self.w.pop();
            }
            Ok(more)
        }
        fn error(&self, source: Box<dyn Error + Send + Sync>) -> FormError {
            self.w.error(What::Source(source))
        }
        fn error_missing_item(&self) -> FormError {
            self.w.error(What::MissingItem)
        }
        fn error_extra_item(&self) -> FormError {
            self.w.error(What::ExtraItem)
        }
    };
}

impl Deserializer for FormDe<false> {
    de_common!(false);
}

impl Deserializer for FormDe<true> {
    de_common!(true);

    fn flush_str(&mut self) -> Result<Cow<'_, str>, FormError> {
        self.rest("flush_str").map(Cow::Owned)
    }
    fn skip_str(&mut self) -> Result<(), FormError> {
        self.rest("skip_str").map(drop)
    }
    fn read_str(&mut self) -> Result<Cow<'_, str>, FormError> {
        self.string("read_str")?;
        // Lent
        match &self.toks[self.at - 1] {
            Tok::Str(s) => Ok(Cow::Borrowed(s)),
            Tok::Tag(_, _, Some(s)) => Ok(Cow::Borrowed(s)),
            t => unreachable!("{t:?}"),
        }
    }
    fn flush_name(&mut self, names: &'static NameMap<usize>) -> Result<usize, FormError> {
        let s = self.rest("flush_name")?;
        names.get(&s).copied().ok_or_else(|| self.error_invalid_name(names))
    }
    fn get_name(&mut self, names: &'static NameMap<usize>) -> Result<usize, FormError> {
        let s = self.string("get_name")?;
        names.get(&s).copied().ok_or_else(|| self.error_invalid_name(names))
    }
}

// ---------------------------------------------------------------------------------------------
// Values of any type

pub type DynSer = dyn Serializer<Error = FormError>;
pub type DynDe = dyn Deserializer<Error = FormError>;

/// While it lives, values describe themselves without null.
pub struct NoNull;
impl NoNull {
    pub fn set(caps: &Caps) -> Self {
        NO_NULL.set(!caps.null);
        NoNull
    }
}
impl Drop for NoNull {
    fn drop(&mut self) {
        NO_NULL.set(false);
    }
}

/// Which implementation, and whether as a trait object.
pub fn gen_kind(s: &mut Src) -> (bool, bool) {
    (!s.chance(1, 2), s.chance(1, 4))
}

/// What there is after a run.
pub struct Ran<T> {
    pub res: Result<T, FormError>,
    illegal: Option<String>,
    pub calls: u64,
    errors: u64,
    /// Nothing is open any more.
    pub closed: bool,
    pub toks: Vec<Tok>,
    log: Vec<String>,
}

fn ran<T>(res: Result<T, FormError>, w: Watch, toks: Vec<Tok>) -> Ran<T> {
    Ran {
        res,
        illegal: w.illegal.into_inner(),
        calls: w.calls.get(),
        errors: w.errors.get(),
        closed: w.stack.into_inner().is_empty(),
        toks,
        log: w.log.into_inner().unwrap_or_default(),
    }
}

pub fn show<T>(ctx: &mut Ctx, what: &str, r: &Ran<T>) {
    if let Some(t) = &mut ctx.trace {
        t.push(format!("{what}:"));
        t.extend(r.log.iter().cloned());
        t.push(match &r.res {
            Ok(_) => "   ended well".into(),
            Err(e) => format!("   returned {e:?}"),
        });
    }
    ctx.stats.ticks += r.calls;
    ctx.note_n(r.calls as usize);
}

fn put_to<T: Wire>(v: &T, caps: Caps, kind: (bool, bool), fail_at: Option<u64>, log: bool) -> Ran<()> {
    put_using(v, &mut (), caps, kind, fail_at, log)
}

pub fn put_using<T, C>(
    v: &T,
    c: &mut C,
    caps: Caps,
    (own, dynamic): (bool, bool),
    fail_at: Option<u64>,
    log: bool,
) -> Ran<()>
where
    T: Serialize<FormSer<true>, C> + Serialize<FormSer<false>, C> + Serialize<DynSer, C>,
{
    macro_rules! go {
        ($own:literal) => {{
            let mut f = FormSer::<$own>::new(caps, fail_at, log);
            let res = if dynamic {
                let d: &mut DynSer = &mut f;
                Value::with(d, |t| Serialize::<DynSer, C>::serialize(v, t, c))
            } else {
                Value::with(&mut f, |t| t.put_using(v, c))
            };
            ran(res, f.w, f.toks)
        }};
    }
    if own {
        go!(true)
    } else {
        go!(false)
    }
}

fn get_from<T: Wire>(toks: Vec<Tok>, caps: Caps, kind: (bool, bool), fail_at: Option<u64>, log: bool) -> Ran<T> {
    get_using(toks, &mut (), caps, kind, fail_at, log)
}

pub fn get_using<T, C>(
    toks: Vec<Tok>,
    c: &mut C,
    caps: Caps,
    (own, dynamic): (bool, bool),
    fail_at: Option<u64>,
    log: bool,
) -> Ran<T>
where
    T: Deserialize<FormDe<true>, C> + Deserialize<FormDe<false>, C> + Deserialize<DynDe, C>,
{
    macro_rules! go {
        ($own:literal) => {{
            let mut f = FormDe::<$own>::new(caps, toks, fail_at, log);
            let res = if dynamic {
                let d: &mut DynDe = &mut f;
                Value::with(d, |t| <T as Deserialize<DynDe, C>>::deserialize(t, c))
            } else {
                Value::with(&mut f, |t| t.get_using(c))
            };
            let rest = f.toks[f.at.min(f.toks.len())..].to_vec();
            ran(res, f.w, rest)
        }};
    }
    if own {
        go!(true)
    } else {
        go!(false)
    }
}

pub fn legal<T>(what: &str, r: &Ran<T>) -> R {
    match &r.illegal {
        Some(msg) => fail("illegal", format!("{what}: {msg}")),
        None => Ok(()),
    }
}

/// A run in which the format failed at a call.
pub fn faulted<T>(what: &str, r: &Ran<T>) -> R {
    match &r.res {
        Ok(_) => fail("swallowed", format!("{what}: the format failed, but no error was returned")),
        Err(e) => {
            ensure!(
                matches!(e.what, What::Fault) && e.id == 1 && r.errors == 1,
                "replaced",
                "{what}: the format failed, but the error returned is {e:?} ({} were made)",
                r.errors
            );
            Ok(())
        }
    }
}

struct C18;
impl Job for C18 {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        let caps = Caps::gen(&mut ctx.src);
        let kind = gen_kind(&mut ctx.src);
        let _guard = NoNull::set(&caps);
        let m = value.model();
        let mut expect = Vec::new();
        describe(&m, &mut expect);
        ctx.log(|| format!("format: {caps:?}, own methods: {}, trait object: {}", kind.0, kind.1));
        ctx.note(format!("{caps:?} {kind:?} {expect:?}").as_bytes());
        if expect.len() > 1 {
            ctx.nontrivial = true;
        }
        let log = ctx.trace.is_some();
        if ctx.src.chance(1, 2) {
            let r = put_to(&value, caps, kind, None, log);
            show(ctx, "written", &r);
            legal("writing", &r)?;
            if let Err(e) = &r.res {
                return fail("failed", format!("writing returned {e:?} without any fault"));
            }
            ensure!(r.closed, "open", "writing left something open");
            if r.toks != expect {
                let i = r.toks.iter().zip(&expect).take_while(|(a, b)| a == b).count();
                return fail(
                    "described",
                    format!("{:?} was described instead of {:?} (piece {i})", r.toks.get(i), expect.get(i)),
                );
            }
            if r.calls > 0 {
                let k = ctx.src.draw(r.calls);
                ctx.note_n(k as usize);
                ctx.count("fault.format_write", 1);
                ctx.log(|| format!("the format fails at call {k}"));
                let f = put_to(&value, caps, kind, Some(k), log);
                show(ctx, "written", &f);
                faulted("writing", &f)?;
                legal("writing", &f)?;
                ensure!(
                    expect.starts_with(&f.toks),
                    "described",
                    "before the fault {:?} was described",
                    f.toks
                );
                ctx.nontrivial = true;
            }
            return Ok(());
        }
        let r = get_from::<T>(expect.clone(), caps, kind, None, log);
        show(ctx, "read", &r);
        legal("reading", &r)?;
        match &r.res {
            Ok(v) => ensure!(v.same(&value), "value", "read {v:?} instead of {value:?}"),
            Err(e) => return fail("failed", format!("reading returned {e:?} without any fault")),
        }
        ensure!(r.errors == 0, "errors", "errors were made without a reason");
        ensure!(r.closed && r.toks.is_empty(), "open", "reading left {:?}", r.toks);
        if r.calls > 0 && ctx.src.chance(2, 3) {
            let k = ctx.src.draw(r.calls);
            ctx.note_n(k as usize);
            ctx.count("fault.format_read", 1);
            ctx.log(|| format!("the format fails at call {k}"));
            let f = get_from::<T>(expect, caps, kind, Some(k), log);
            show(ctx, "read", &f);
            faulted("reading", &f)?;
            legal("reading", &f)?;
            ctx.nontrivial = true;
            return Ok(());
        }
        // Something that does not fit
        let mut bad = m.clone();
        let n = unfit(&mut bad, &mut usize::MAX.clone(), ctx, caps);
        if n == 0 {
            return Ok(());
        }
        let mut which = ctx.src.below(n);
        unfit(&mut bad, &mut which, ctx, caps);
        let mut toks = Vec::new();
        describe(&bad, &mut toks);
        let Some(at) = toks.iter().zip(&expect).position(|(a, b)| a != b) else {
            return Ok(());
        };
        ctx.note(format!("{:?}", toks[at]).as_bytes());
        ctx.count("fault.unfit", 1);
        ctx.nontrivial = true;
        ctx.log(|| format!("piece {at} is {:?} instead of {:?}", toks[at], expect[at]));
        let f = get_from::<T>(toks.clone(), caps, kind, None, log);
        show(ctx, "read", &f);
        legal("reading", &f)?;
        let e = match &f.res {
            Ok(v) => return fail("accepted", format!("{:?} was accepted, as {v:?}", toks[at])),
            Err(e) => e,
        };
        ensure!(
            e.id == 1 && f.errors == 1,
            "replaced",
            "{} errors were made and {e:?} was returned",
            f.errors
        );
        ensure!(e.at == at, "position", "the error {e:?} is about piece {} instead of {at}", e.at);
        let What::Source(src) = &e.what else {
            return fail("error", format!("{e:?} is not the type's own error"));
        };
        let text = src.to_string();
        match (&toks[at], &expect[at]) {
            (Tok::Tag(_, _, Some(_)), Tok::Tag(_, index, Some(name))) if caps.names => {
                let Some(n) = src.downcast_ref::<InvalidNameError>() else {
                    return fail("error", format!("{src:?} for an unknown name"));
                };
                ensure!(
                    n.expected.get(name) == Some(index),
                    "error",
                    "the names expected are said to be {:?}",
                    n.expected.entries().collect::<Vec<_>>()
                );
                for (name, _) in n.expected.entries() {
                    ensure!(
                        text.contains(&format!("{name:?}")),
                        "message",
                        "{text:?} does not say that {name:?} is allowed"
                    );
                }
            }
            (Tok::Tag(_, i, _), _) => {
                let Some(n) = src.downcast_ref::<InvalidIndexError>() else {
                    return fail("error", format!("{src:?} for an unknown index"));
                };
                ensure!(n.index == *i, "error", "the index is said to be {} instead of {i}", n.index);
                ensure!(text.contains(&i.to_string()), "message", "{text:?} does not name the index {i}");
            }
            _ => {
                ensure!(
                    src.is::<std::num::TryFromIntError>(),
                    "error",
                    "{src:?} for a zero that is not allowed"
                );
            }
        }
        Ok(())
    }
}

/// Counts the parts that can be made unfit, and makes number `which` of them so.
fn unfit(m: &mut M, which: &mut usize, ctx: &mut Ctx, caps: Caps) -> usize {
    let mut hit = || {
        let due = *which == 0;
        *which = which.wrapping_sub(1);
        due
    };
    match m {
        M::Int(v, _, _, false) => {
            if hit() {
                *v = 0;
            }
            1
        }
        M::Tag(name, index, max, gap) => {
            if caps.names {
                if hit() {
                    match ctx.src.below(3) {
                        0 => name.push(gen_char(&mut ctx.src)),
                        1 if !name.is_empty() => *name = name.chars().skip(1).collect(),
                        _ => name.push('\u{1}'),
                    }
                    // Perhaps another name of the type
                    if name.len() < 6 && !name.ends_with('\u{1}') {
                        name.push('\u{1}');
                    }
                }
                return 1;
            }
            if hit() {
                *index = match gap {
                    Some(g) if ctx.src.chance(1, 2) => *g,
                    _ => too_large(&mut ctx.src, *index, *max),
                };
            }
            1
        }
        M::Seq(v) | M::Fixed(v, _) | M::Counted(v) => v.iter_mut().map(|m| unfit(m, which, ctx, caps)).sum(),
        M::Struct(fs, _) => fs.iter_mut().map(|f| unfit(&mut f.m, which, ctx, caps)).sum(),
        _ => 0,
    }
}

// ---------------------------------------------------------------------------------------------
// Lists

/// Calls on a list that is read, whose length the format knows or not.
fn read_list(ctx: &mut Ctx) -> R {
    let caps = Caps::gen(&mut ctx.src);
    let n = ctx.src.size(6);
    let mut toks = vec![Tok::List(n)];
    for i in 0..n {
        toks.push(Tok::Item);
        toks.push(Tok::Int("u8", i as i128));
    }
    toks.push(Tok::EndList);
    let log = ctx.trace.is_some();
    ctx.log(|| format!("list of {n} items, whose length is {}known", if caps.lengths { "" } else { "un" }));
    ctx.note_n(n + 16 * usize::from(caps.lengths));
    let mut f = FormDe::<true>::new(caps, toks, None, log);
    let mut done = false;
    let mut out: R = Ok(());
    let mut left = n;
    let r = catch_unwind(AssertUnwindSafe(|| {
        let mut list: List<_> = Value::new(&mut f, &mut done).into_list().map_err(|e| format!("{e:?}"))?;
        loop {
            if list.rem_len() != caps.lengths.then_some(left) {
                return Err(format!("{left} items are left, but rem_len says {:?}", list.rem_len()));
            }
            let op = ctx.src.weighted(&[3, 3, 1]);
            ctx.stats.ticks += 1;
            match op {
                0 => {
                    ctx.log(|| "next".into());
                    let item = list.next().map_err(|e| format!("{e:?}"))?;
                    match item {
                        Some(v) => {
                            let v = v.get_u8().map_err(|e| format!("{e:?}"))?;
                            if left == 0 || usize::from(v) != n - left {
                                return Err(format!("item {v} with {left} of {n} left"));
                            }
                            left -= 1;
                        }
                        None => {
                            if left != 0 {
                                return Err(format!("no item with {left} left"));
                            }
                            return Ok("ended");
                        }
                    }
                }
                1 => {
                    ctx.log(|| "push".into());
                    match list.push() {
                        Ok(v) => {
                            let v = v.get_u8().map_err(|e| format!("{e:?}"))?;
                            if left == 0 || usize::from(v) != n - left {
                                return Err(format!("item {v} with {left} of {n} left"));
                            }
                            left -= 1;
                        }
                        Err(e) => {
                            if left > 0 || caps.lengths || !matches!(e.what, What::MissingItem) {
                                return Err(format!("{e:?} with {left} left"));
                            }
                            return Ok("refused");
                        }
                    }
                }
                _ => {
                    ctx.log(|| "close".into());
                    return match list.close() {
                        Ok(()) if left == 0 => Ok("ended"),
                        Err(e) if left > 0 && !caps.lengths && matches!(e.what, What::ExtraItem) => Ok("refused"),
                        r => Err(format!("close returned {r:?} with {left} left")),
                    };
                }
            }
        }
    }));
    ctx.nontrivial = n > 0;
    match r {
        Ok(Err(msg)) => out = fail("list", msg),
        Ok(Ok("ended")) => {
            if !done || !f.w.stack.borrow().is_empty() || f.at != f.toks.len() {
                out = fail("open", "the list was not closed");
            }
        }
        Ok(Ok(_)) => {}
        Err(e) => {
            let text = panic_text(&*e);
            ctx.log(|| format!("panic: {text}"));
            let fine = caps.lengths
                && if left == 0 { text == LIST_OVERFLOW_ERROR } else { text == LIST_UNDERFLOW_ERROR };
            if !fine {
                out = fail("panic", format!("panic with {left} items left: {text} ({})", last_panic_at()));
            } else {
                ctx.probe("probe.list_contract");
            }
        }
    }
    if let Some(msg) = f.w.illegal.into_inner() {
        return fail("illegal", msg);
    }
    out
}

// ---------------------------------------------------------------------------------------------
// Strings in parts

static NAMES: &NameMap<usize> = FixedNameMap::new([("", 0), ("a", 1), ("ab", 2), ("abc", 3), ("\u{e9}", 4), ("b", 5)]).unfix();

fn read_string<const OWN: bool>(ctx: &mut Ctx) -> R
where
    FormDe<OWN>: Deserializer<Error = FormError>,
{
    let caps = Caps::gen(&mut ctx.src);
    let s = match ctx.src.below(3) {
        0 => gen_string(&mut ctx.src),
        1 => ctx.src.pick(&["", "a", "ab", "abc", "\u{e9}", "b"]).to_string(),
        _ => ctx.src.pick(&["c", "bc", "abcd", "\u{c3}", "xab", "xyab"]).to_string(),
    };
    let chars: Vec<char> = s.chars().collect();
    let op = ctx.src.below(7);
    let before = if op < 5 { ctx.src.below(chars.len().min(5) + 1) } else { 0 };
    let rest: String = chars[before..].iter().collect();
    ctx.note(format!("{s:?} {op} {before} {OWN}").as_bytes());
    ctx.log(|| format!("string {s:?}, {before} characters, then operation {op}, own methods: {OWN}"));
    ctx.nontrivial = chars.len() > 1;
    let log = ctx.trace.is_some();
    let mut calls = 0;
    // First without a fault, and then with one
    for round in 0..2 {
        let fail_at = if round == 0 { None } else { Some(ctx.src.draw(calls)) };
        ctx.log(|| format!("the format fails at call {fail_at:?}"));
        let mut f = FormDe::<OWN>::new(caps, vec![Tok::Str(s.clone())], fail_at, log);
        let mut what = String::new();
        let expected: String;
        let res: Result<(), FormError> = (|| {
            if op < 5 {
                f.open_str()?;
                for c in &chars[..before] {
                    let got = f.next_char()?;
                    if got != Some(*c) {
                        what = format!("{got:?} instead of {c:?}");
                        return Ok(());
                    }
                }
            }
            match op {
                0 => what = f.flush_str()?.into_owned(),
                1 => {
                    f.skip_str()?;
                    what = "skipped".into();
                }
                2 => what = format!("{:?}", f.flush_name(NAMES)?),
                3 => {
                    f.close_str()?;
                    what = "closed".into();
                }
                4 => {
                    while let Some(c) = f.next_char()? {
                        what.push(c);
                    }
                }
                5 => what = f.read_str()?.into_owned(),
                _ => what = format!("{:?}", f.get_name(NAMES)?),
            }
            Ok(())
        })();
        let named = |t: &str| NAMES.get(t).map(|i| format!("{i:?}"));
        let want = match op {
            0 | 4 | 5 => Some(rest.clone()),
            1 => Some("skipped".into()),
            2 | 6 => named(&rest),
            _ => rest.is_empty().then(|| "closed".into()),
        };
        let w = f.w;
        if let Some(l) = w.log.borrow_mut().take() {
            l.into_iter().for_each(|l| ctx.log(|| l));
        }
        ctx.log(|| format!("   {what:?} {res:?}"));
        calls = w.calls.get();
        ctx.stats.ticks += calls;
        if let Some(msg) = w.illegal.borrow_mut().take() {
            return fail("illegal", msg);
        }
        if round == 1 {
            ctx.count("fault.format_read", 1);
            match &res {
                Err(e) if matches!(e.what, What::Fault) && w.errors.get() == 1 => {}
                r => return fail("replaced", format!("the format failed, but {r:?} was returned")),
            }
            continue;
        }
        expected = match &want {
            Some(v) => v.clone(),
            None => "an error".into(),
        };
        match (&want, &res) {
            (Some(v), Ok(())) => ensure!(*v == what, "string", "{what:?} instead of {expected:?}"),
            (None, Err(e)) => {
                let good = match &e.what {
                    What::Mismatch(_) => op == 3,
                    What::Source(s) => op != 3 && s.is::<InvalidNameError>(),
                    _ => false,
                };
                ensure!(good && w.errors.get() == 1, "error", "{e:?}");
            }
            (_, r) => return fail("string", format!("{r:?} {what:?} instead of {expected:?}")),
        }
        ensure!(w.stack.borrow().is_empty(), "open", "the string is still open");
    }
    Ok(())
}

fn write_string<const OWN: bool>(ctx: &mut Ctx) -> R
where
    FormSer<OWN>: Serializer<Error = FormError>,
{
    let caps = Caps::gen(&mut ctx.src);
    let n = ctx.src.size(5);
    let whole = n == 0 && ctx.src.chance(1, 2);
    let parts: Vec<String> = (0..n.max(1)).map(|_| gen_string(&mut ctx.src)).collect();
    let single = ctx.src.chance(1, 3);
    ctx.note(format!("{parts:?} {single} {whole} {OWN}").as_bytes());
    ctx.log(|| format!("parts {parts:?}, by character: {single}, at once: {whole}, own methods: {OWN}"));
    ctx.nontrivial = true;
    let log = ctx.trace.is_some();
    let mut calls = 0;
    for round in 0..2 {
        let fail_at = if round == 0 { None } else { Some(ctx.src.draw(calls)) };
        let mut f = FormSer::<OWN>::new(caps, fail_at, log);
        let res: Result<(), FormError> = (|| {
            if whole {
                return f.put_str(&parts[0]);
            }
            f.open_str()?;
            for p in &parts {
                if single {
                    for c in p.chars() {
                        f.append_char(c)?;
                    }
                } else {
                    f.append_str(p)?;
                }
            }
            f.close_str()
        })();
        if let Some(l) = f.w.log.borrow_mut().take() {
            l.into_iter().for_each(|l| ctx.log(|| l));
        }
        calls = f.w.calls.get();
        ctx.stats.ticks += calls;
        if let Some(msg) = f.w.illegal.borrow_mut().take() {
            return fail("illegal", msg);
        }
        if round == 1 {
            ctx.count("fault.format_write", 1);
            match &res {
                Err(e) if matches!(e.what, What::Fault) && f.w.errors.get() == 1 => {}
                r => return fail("replaced", format!("the format failed, but {r:?} was returned")),
            }
        } else {
            ensure!(res.is_ok(), "failed", "{res:?}");
            ensure!(
                f.toks == [Tok::Str(parts.concat())],
                "described",
                "{:?} instead of {:?}",
                f.toks,
                parts.concat()
            );
        }
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// Nulls, and values that are used after they were consumed

fn nulls(ctx: &mut Ctx) -> R {
    let caps = Caps::gen(&mut ctx.src);
    let is = ctx.src.chance(2, 3);
    let op = ctx.src.below(19);
    ctx.note(format!("{caps:?} {is} {op}").as_bytes());
    ctx.log(|| format!("{caps:?}, null: {is}, then operation {op}"));
    ctx.nontrivial = is && caps.null;
    let tok = if is && caps.null { Tok::Null } else { Tok::Int("u8", 7) };
    let mut f = FormDe::<true>::new(caps, vec![tok], None, false);
    let mut done = false;
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut v = Value::new(&mut f, &mut done);
        let n = v.check_null().map_err(|e| format!("{e:?}"))?;
        if n != (is && caps.null) {
            return Err(format!("check_null returned {n}"));
        }
        if !n {
            return match v.get_u8() {
                Ok(7) => Ok(()),
                r => Err(format!("then {r:?} was read")),
            };
        }
        // It is consumed, and every use must be refused
        let r: Result<(), FormError> = match op {
            0 => v.get_bool().map(drop),
            1 => v.get_i8().map(drop),
            2 => v.get_i16().map(drop),
            3 => v.get_i32().map(drop),
            4 => v.get_i64().map(drop),
            5 => v.get_u8().map(drop),
            6 => v.get_u16().map(drop),
            7 => v.get_u32().map(drop),
            8 => v.get_u64().map(drop),
            9 => v.get_f32().map(drop),
            10 => v.get_f64().map(drop),
            11 => v.get_char().map(drop),
            12 => v.get_str().map(drop),
            13 => v.get_tag(5, NAMES).map(drop),
            14 => v.into_list().map(drop),
            15 => v.into_struct(None).map(drop),
            16 => v.into_tuple(None).map(drop),
            17 => v.check_null().map(drop),
            _ => v.validate_with(|v| v.get_u8().map(Ok::<_, fmt::Error>)).map(drop),
        };
        Err(format!("a consumed value was used: {r:?}"))
    }));
    if let Some(msg) = f.w.illegal.borrow_mut().take() {
        return fail("illegal", msg);
    }
    match res {
        Ok(Ok(())) => {
            ensure!(done, "open", "the value is not marked as consumed");
            Ok(())
        }
        Ok(Err(msg)) => fail("null", msg),
        Err(e) => {
            let text = panic_text(&*e);
            ensure!(
                is && caps.null && text == INVALID_STATE_ERROR,
                "panic",
                "panic: {text} ({})",
                last_panic_at()
            );
            ctx.probe("probe.consumed_refused");
            Ok(())
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Temporary wrappers over something that is open

fn temporary(ctx: &mut Ctx) -> R {
    let caps = Caps::gen(&mut ctx.src);
    let st = ctx.src.chance(1, 2);
    let n = ctx.src.range(0, 3);
    let k = ctx.src.below(n + 1);
    ctx.note(format!("{st} {n} {k}").as_bytes());
    ctx.log(|| format!("struct: {st}, {n} parts, {k} of them through a temporary wrapper"));
    ctx.nontrivial = n > 0;
    let mut f = FormSer::<false>::new(caps, None, false);
    let res: Result<(), FormError> = (|| {
        if st {
            f.open_struct(Some("S"))?;
            Struct::with(&mut f, |mut s| {
                for _ in 0..k {
                    s.field("x")?.put_u8(1)?;
                }
                Ok(())
            })?;
            for _ in k..n {
                f.push_field("x")?;
                f.put_u8(1)?;
            }
            f.close_struct()
        } else {
            f.open_tuple(None)?;
            Tuple::with(&mut f, |mut s| {
                for _ in 0..k {
                    s.element()?.put_u8(1)?;
                }
                Ok(())
            })?;
            for _ in k..n {
                f.push_element()?;
                f.put_u8(1)?;
            }
            f.close_tuple()
        }
    })();
    if let Some(msg) = f.w.illegal.borrow_mut().take() {
        return fail("illegal", msg);
    }
    ensure!(res.is_ok(), "failed", "{res:?}");
    let count = f.toks.iter().filter(|t| matches!(t, Tok::Int(..))).count();
    ensure!(count == n, "described", "{:?}", f.toks);
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// What serdere-json offers to other formats that look like JSON

fn json_like(ctx: &mut Ctx) -> R {
    let caps = Caps {
        null: true,
        ..Caps::gen(&mut ctx.src)
    };
    let log = ctx.trace.is_some();
    let max = match ctx.src.below(2) {
        0 => ctx.src.below(5),
        _ => crate::wops::gen_i128(&mut ctx.src, 5, usize::MAX as i128) as usize,
    };
    let index = crate::wops::gen_i128(&mut ctx.src, 0, max as i128) as usize;
    let name = ctx.src.chance(2, 3).then(|| ctx.src.pick(&["", "a", "a\"b"]));
    let op = ctx.src.below(4);
    let n = ctx.src.below(4);
    ctx.note(format!("{max} {index} {name:?} {op} {n}").as_bytes());
    ctx.log(|| format!("largest index {max}, index {index}, name {name:?}, operation {op}, {n} parts"));
    ctx.nontrivial = true;
    let mut expect = Vec::new();
    match op {
        0 => expect.push(match name {
            Some(n) => Tok::Str(n.to_string()),
            None => Tok::Int("u64", index as i128),
        }),
        1 => expect.push(Tok::Null),
        2 => {
            expect.push(Tok::Object);
            for i in 0..n {
                expect.push(Tok::Entry(format!("k{i}")));
                expect.push(Tok::Int("u8", i as i128));
            }
            expect.push(Tok::EndObject);
        }
        _ => {
            expect.push(Tok::Stream);
            for i in 0..n {
                expect.push(Tok::Item);
                expect.push(Tok::Int("u8", i as i128));
            }
            expect.push(Tok::EndList);
        }
    }
    let mut calls = 0;
    for round in 0..2 {
        let fail_at = if round == 0 { None } else { Some(ctx.src.draw(calls)) };
        let mut f = FormSer::<true>::new(caps, fail_at, log);
        let res = match op {
            0 => serdere_json::serialize::put_tag(&mut f, max, index, name),
            1 => Value::with(&mut f, |v| v.into_null()),
            2 => Value::with(&mut f, |v| {
                let mut o = v.into_object()?;
                for i in 0..n {
                    o.entry(&format!("k{i}"))?.put_u8(i as u8)?;
                }
                o.close()
            }),
            _ => Value::with(&mut f, |v| {
                let mut l = v.into_list_streaming()?;
                for i in 0..n {
                    l.push()?.put_u8(i as u8)?;
                }
                l.close()
            }),
        };
        if let Some(l) = f.w.log.borrow_mut().take() {
            l.into_iter().for_each(|l| ctx.log(|| l));
        }
        calls = f.w.calls.get();
        ctx.stats.ticks += calls;
        if let Some(msg) = f.w.illegal.borrow_mut().take() {
            return fail("illegal", msg);
        }
        if round == 1 {
            ctx.count("fault.format_write", 1);
            match &res {
                Err(e) if matches!(e.what, What::Fault) && f.w.errors.get() == 1 => {}
                r => return fail("replaced", format!("the format failed, but {r:?} was returned")),
            }
        } else {
            ensure!(res.is_ok(), "failed", "{res:?}");
            ensure!(f.toks == expect, "described", "{:?} instead of {expect:?}", f.toks);
        }
    }
    Ok(())
}

pub fn c18(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[60, 6, 6, 3, 3, 1, 2, 25, 6]) {
        0 => with_sample(ctx, C18),
        1 => read_list(ctx),
        2 => {
            if ctx.src.chance(1, 2) {
                read_string::<true>(ctx)
            } else {
                read_string::<false>(ctx)
            }
        }
        3 => {
            if ctx.src.chance(1, 2) {
                write_string::<true>(ctx)
            } else {
                write_string::<false>(ctx)
            }
        }
        4 => nulls(ctx),
        5 => temporary(ctx),
        6 => json_like(ctx),
        7 => with_sample(ctx, crate::mem::Mem),
        _ => crate::keyed::keyed_run(ctx),
    }
}
