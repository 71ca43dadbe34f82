//! A reading session on a well-formed document, checked operation by operation against an
//! executable model of what a session must do. Used for C05, C07, C13, C14 and C15.

use crate::ctx::{fail, Ctx, Violation, R};
use crate::dom::{Script, MAX_TAG, TAGS};
use crate::ensure;
use crate::io::*;
use crate::node::*;
use crate::src::Src;
use serdere::{Deserializer, NameMap, Outliner, TextReader, Utf8Reader};
use serdere_json::{
    CollectionType, DeserializeError, JsonDeserializer, JsonOutliner, TextDeserializer,
    TextDeserializerConfig, ValueType,
};
use std::cell::Cell;
use std::rc::Rc;

/// What is checked.
#[derive(Clone, Copy, Default, Debug)]
pub struct Checks {
    pub values: bool,
    pub consumption: bool,
    pub positions: bool,
}

/// How the session leans.
#[derive(Clone, Copy, Debug)]
pub struct Lean {
    /// Weight of keyed requests, of iteration, of skipping what is left, of fields.
    pub keyed: usize,
    pub iterate: usize,
    pub leave: usize,
    pub fields: usize,
    /// Weight of skipping values.
    pub skip: usize,
    /// Weight of tags and names.
    pub tags: usize,
    /// Out of 100: how often to provoke an error.
    pub provoke: usize,
    /// Weight of reading strings in pieces.
    pub pieces: usize,
    /// Out of 100: how often to ask for the name of what has none.
    pub wrong_names: usize,
    /// Out of 100: how often to make a call that does not fit.
    pub misuse: usize,
}

impl Lean {
    pub fn swarm(s: &mut Src) -> Self {
        Self {
            keyed: s.pick_copy(&[3, 1, 8, 0]),
            iterate: s.pick_copy(&[3, 1, 8]),
            leave: s.pick_copy(&[0, 1]),
            fields: s.pick_copy(&[0, 1, 4]),
            skip: s.pick_copy(&[0, 1, 2]),
            tags: s.pick_copy(&[1, 0, 6]),
            provoke: 0,
            pieces: s.pick_copy(&[1, 0, 4]),
            wrong_names: 0,
            misuse: 0,
        }
    }
}

/// The end of each decoded character of the string literal whose opening quote is at `start`.
fn char_ends(c: &[char], start: usize) -> Vec<usize> {
    let mut i = start + 1;
    let mut out = Vec::new();
    while c[i] != '"' {
        if c[i] != '\\' {
            i += 1;
        } else if c[i + 1] != 'u' {
            i += 2;
        } else {
            let unit = |i: usize| -> u32 {
                c[i + 2..i + 6].iter().fold(0, |a, d| a * 16 + d.to_digit(16).unwrap_or(0))
            };
            i += if (0xD800..0xDC00).contains(&unit(i)) { 12 } else { 6 };
        }
        out.push(i);
    }
    out
}

enum Frame<'t> {
    Arr {
        n: &'t SNode,
        items: &'t [SNode],
        next: usize,
        held: bool,
        /// 0: list, 1: tuple, 2: struct
        how: u8,
    },
    Obj {
        n: &'t SNode,
        es: &'t [SEntry],
        read: Vec<bool>,
        /// The first entry not yet read past.
        front: usize,
        held: bool,
        is_struct: bool,
    },
}

enum Top<'t> {
    Value(&'t SNode, bool),
    /// An absent field's virtual null.
    Absent,
    Str {
        start: usize,
        chars: Vec<char>,
        ends: Vec<usize>,
        read: usize,
        held: bool,
        /// Where reading its end stops.
        stop: usize,
        /// The value of the entry, if this is a key.
        val: Option<&'t SNode>,
    },
    Coll,
    Closed,
    /// Nothing can be done anymore.
    Over,
}

pub struct Session<'t, T: TextReader> {
    d: Option<TextDeserializer<T>>,
    doc: &'t Doc,
    frames: Vec<Frame<'t>>,
    top: Top<'t>,
    /// The most recently popped item, if errors about it have a defined place.
    popped: Option<usize>,
    lean: Lean,
    checks: Checks,
    consumed: Rc<Cell<usize>>,
    st: Option<Rc<ReadState>>,
    /// How many bytes the peer has sent.
    gate: Option<Rc<Cell<usize>>>,
    pub log: Vec<String>,
    pub ops: usize,
    /// Entries that were delivered out of document order.
    pub held_reads: usize,
    pub provoked: usize,
    comments: bool,
    names: &'static NameMap<usize>,
    max_tag: usize,
    /// The key of the virtual null on top.
    absent: Option<String>,
    /// The position of the last error that was made, and where it is.
    last_pos: Option<(T::Position, usize)>,
    /// Whether a call was made that does not fit.
    pub misused: bool,
}

type DErr<R> = DeserializeError<<R as TextReader>::Position>;

/// What an operation is allowed to consume.
enum Upto {
    /// Up to this character.
    Idx(usize),
    /// Nothing.
    Same,
}
use Upto::*;

impl<'t, T: TextReader> Session<'t, T>
where
    T::Position: ToLoc,
{
    /// Starts a session. Opens the gate for what the construction needs.
    pub fn new(
        reader: T,
        doc: &'t Doc,
        lean: Lean,
        checks: Checks,
        consumed: Rc<Cell<usize>>,
        st: Option<Rc<ReadState>>,
        gate: Option<Rc<Cell<usize>>>,
    ) -> R<Self> {
        Self::with_names(reader, doc, lean, checks, consumed, st, gate, (TAGS, MAX_TAG))
    }

    /// Starts a session which reads tags and names with the given table.
    #[allow(clippy::too_many_arguments)]
    pub fn with_names(
        reader: T,
        doc: &'t Doc,
        lean: Lean,
        checks: Checks,
        consumed: Rc<Cell<usize>>,
        st: Option<Rc<ReadState>>,
        gate: Option<Rc<Cell<usize>>>,
        (names, max_tag): (&'static NameMap<usize>, usize),
    ) -> R<Self> {
        let mut me = Self {
            d: None,
            doc,
            frames: Vec::new(),
            top: Top::Value(&doc.root, false),
            popped: None,
            lean,
            checks,
            consumed,
            st,
            gate,
            log: Vec::new(),
            ops: 0,
            held_reads: 0,
            provoked: 0,
            comments: doc.comments,
            names,
            max_tag,
            absent: None,
            last_pos: None,
            misused: false,
        };
        let config = if me.comments {
            TextDeserializerConfig::permissive()
        } else {
            TextDeserializerConfig::strict()
        };
        let limit = me.begin(Idx(doc.root.start));
        let r = TextDeserializer::new(config, reader);
        me.d = Some(me.done("new", r.map_err(|e| err_info(&e, &doc.t)), limit)?);
        Ok(me)
    }

    pub fn over(&self) -> bool {
        matches!(self.top, Top::Over)
    }

    /// What the table of names says, looked up in the plainest way.
    fn name(&self, name: &str) -> Option<usize> {
        self.names.entries().find(|(k, _)| *k == name).map(|(_, v)| *v)
    }

    /// The bytes that hold everything up to the given character, and one more.
    fn bytes_for(&self, idx: usize) -> usize {
        let t = &self.doc.t;
        if idx < t.len() {
            t.boff[idx + 1]
        } else {
            usize::MAX
        }
    }

    fn begin(&mut self, upto: Upto) -> usize {
        let limit = match upto {
            Idx(i) => i.max(self.consumed.get()),
            Same => self.consumed.get(),
        };
        if let Some(gate) = &self.gate {
            gate.set(gate.get().max(self.bytes_for(limit)));
        }
        limit
    }

    fn done<V>(&mut self, op: &str, res: Result<V, ErrInfo>, limit: usize) -> R<V> {
        self.ops += 1;
        let consumed = self.consumed.get();
        if self.checks.consumption {
            if let Some(st) = &self.st {
                if st.stalls.get() > 0 {
                    return fail(
                        "stall",
                        format!(
                            "{op}: waits for byte {} while the peer waits for it to complete \
                             (it needs nothing past character {limit})",
                            st.taken.get()
                        ),
                    );
                }
                ensure!(
                    st.reach() <= self.bytes_for(limit),
                    "overread",
                    "{op}: {} bytes were taken from the source (needed: up to character {limit}, \
                     consumed: {consumed})",
                    st.reach()
                );
            }
            ensure!(
                consumed <= limit,
                "overread",
                "{op}: consumed {consumed} characters, but what it needs ends at {limit}"
            );
        }
        match res {
            Ok(v) => Ok(v),
            Err(e) => {
                self.log.push(format!("{op} -> ERROR {} {:?}", e.kind, e.loc));
                fail("rejected", format!("{op}: {} at {:?}", e.kind, e.loc))
            }
        }
    }

    fn note(&mut self, op: &str, out: impl std::fmt::Display) {
        let c = self.consumed.get();
        self.log.push(format!("{op} -> {out} [{c}]"));
    }

    fn wrong<V>(&self, op: &str, got: impl std::fmt::Debug, want: impl std::fmt::Debug) -> R<V> {
        fail("value", format!("{op}: got {got:?}, the document says {want:?}"))
    }

    fn d(&mut self) -> &mut TextDeserializer<T> {
        self.d.as_mut().expect("session is open")
    }

    /// Carries out the operation, with what it may consume.
    fn exec<V>(
        &mut self,
        op: &str,
        upto: Upto,
        f: impl FnOnce(&mut TextDeserializer<T>) -> Result<V, DErr<T>>,
    ) -> R<V> {
        let limit = self.begin(upto);
        let t = &self.doc.t;
        let r = f(self.d.as_mut().expect("session is open")).map_err(|e| err_info(&e, t));
        self.done(op, r, limit)
    }

    /// Carries out an operation which must fail, and checks the place of the error.
    fn exec_err<V: std::fmt::Debug>(
        &mut self,
        op: &str,
        at: usize,
        f: impl FnOnce(&mut TextDeserializer<T>) -> Result<V, DErr<T>>,
    ) -> R {
        if let Some(gate) = &self.gate {
            gate.set(usize::MAX);
        }
        self.ops += 1;
        self.provoked += 1;
        let t = &self.doc.t;
        let r = f(self.d.as_mut().expect("session is open"));
        match r {
            Ok(v) => fail("accepted", format!("{op}: returned {v:?} instead of an error")),
            Err(e) => {
                let e = err_info(&e, t);
                self.note(op, format!("ERROR {} {:?}", e.kind, e.loc));
                self.check_pos(op, &e, at)?;
                self.check_says(op, &e)?;
                self.top = Top::Over;
                self.d = None;
                Ok(())
            }
        }
    }

    fn check_pos(&self, op: &str, e: &ErrInfo, at: usize) -> R {
        if self.checks.positions {
            let t = &self.doc.t;
            let (l, c, _) = t.lc(at);
            ensure!(
                e.loc.is_at(t, at),
                "position",
                "{op}: error {} is reported at {:?}, but it concerns what starts at character {at} (line {l}, column {c})",
                e.kind,
                e.loc
            );
        }
        Ok(())
    }

    /// Does the error say what is wrong?
    fn check_says(&self, op: &str, e: &ErrInfo) -> R {
        if !self.checks.positions {
            return Ok(());
        }
        if let Some(part) = &e.unsaid {
            return fail("text", format!("{op}: the text of error {} does not contain {part:?}", e.kind));
        }
        let (call, why) = op.split_once(" (").expect("says why");
        let right = match why.trim_end_matches(')') {
            "absent field" if self.absent.is_some() => {
                e.says == Says::MissingKey(self.absent.clone().unwrap())
            }
            "absent key" => e.says == Says::MissingKey("absent key".into()),
            "entries left" => {
                let Some(Frame::Obj { es, read, .. }) = self.frames.last() else {
                    unreachable!()
                };
                match &e.says {
                    Says::ExtraKey(k) => es.iter().zip(read).any(|(e, read)| !read && e.key == *k),
                    _ => false,
                }
            }
            "items left" => e.says == Says::ExtraItems,
            "no item left" => e.says == Says::MissingItems,
            "out of range" => e.says == Says::Overflow,
            "unknown name" | "unknown tag" | "index out of range" | "not one character"
            | "characters left" => matches!(e.says, Says::Custom(_) | Says::Overflow),
            on => {
                let found = match on {
                    "on a number" => ValueType::Number,
                    "on a string" => ValueType::String,
                    "on null" => ValueType::Null,
                    "on a boolean" => ValueType::Bool,
                    "on an array" => ValueType::Array,
                    "absent field" => ValueType::Null,
                    _ => ValueType::Object,
                };
                let wanted: &[ValueType] = match call {
                    "get_bool" => &[ValueType::Bool],
                    "read_str" | "open_str" | "get_char" | "get_name" => &[ValueType::String],
                    "open_list" | "open_tuple" => &[ValueType::Array],
                    "open_object" => &[ValueType::Object],
                    "open_struct" => &[ValueType::Object, ValueType::Array],
                    "pop_null" => &[ValueType::Null],
                    "get_tag" => &[ValueType::Number, ValueType::String],
                    _ => &[ValueType::Number],
                };
                match e.says {
                    Says::Expected(t) if call == "get_tag" => {
                        t.contains(&ValueType::Number) && !t.contains(&found)
                    }
                    Says::Expected(t) => {
                        t.len() == wanted.len() && wanted.iter().all(|w| t.contains(w))
                    }
                    _ => false,
                }
            }
        };
        ensure!(right, "kind", "{op}: the error is {}", e.kind);
        Ok(())
    }

    fn up(&self, held: bool, idx: usize) -> Upto {
        if held {
            Same
        } else {
            Idx(idx)
        }
    }

    /// Carries out one operation.
    pub fn step(&mut self, sc: &mut Script, s: &mut Src) -> R {
        if self.lean.misuse > 0 && sc.chance(s, self.lean.misuse, 100) {
            return self.misuse(sc, s);
        }
        match self.top {
            Top::Value(n, held) => self.step_value(n, held, sc, s),
            Top::Absent => self.step_absent(sc, s),
            Top::Str { .. } => self.step_str(sc, s),
            Top::Coll => self.step_coll(sc, s),
            Top::Closed => {
                if self.probe_due(sc, s) {
                    return self.probe(sc, s);
                }
                let limit = self.begin(Idx(self.doc.t.len()));
                let t = &self.doc.t;
                let d = self.d.take().expect("session is open");
                let r = d.close().map_err(|e| err_info(&e, t));
                self.top = Top::Over;
                self.done("close", r, limit)?;
                self.note("close", "");
                Ok(())
            }
            Top::Over => Ok(()),
        }
    }

    /// Makes a call that does not fit what is on top of the stack.
    fn misuse(&mut self, sc: &mut Script, s: &mut Src) -> R {
        const VALUE: &[&str] = &[
            "get_bool", "get_i8", "get_i16", "get_i32", "get_i64", "get_u8", "get_u16", "get_u32",
            "get_u64", "get_f32", "get_f64", "get_char", "read_str", "get_name", "get_tag",
            "check_null", "pop_null", "open_str", "open_list", "open_tuple", "open_struct",
            "open_object", "skip_value",
        ];
        const STR: &[&str] = &["next_char", "skip_str", "flush_str", "flush_name", "close_str"];
        const ARR: &[&str] = &["next_item", "push_item", "push_element", "close_list", "close_tuple"];
        const OBJ: &[&str] =
            &["try_push_entry", "push_entry", "next_entry", "skip_object", "close_object"];
        const COLL: &[&str] = &["push_field", "close_struct"];
        let is_arr = matches!(self.frames.last(), Some(Frame::Arr { .. }));
        let (groups, on): (&[&[&str]], &str) = match self.top {
            Top::Value(_, false) => (&[STR, ARR, OBJ, COLL, &["push_null", "close"]], "a value"),
            Top::Value(_, true) => (&[STR, ARR, OBJ, COLL, &["push_null", "close"]], "a held value"),
            Top::Absent => (&[STR, ARR, OBJ, COLL, &["push_null", "close"]], "an absent value"),
            Top::Str { held, .. } => (
                &[VALUE, ARR, OBJ, COLL, &["push_null", "close"]],
                if held { "a held string" } else { "a string" },
            ),
            Top::Coll if is_arr => (&[VALUE, STR, OBJ, &["close"]], "an array"),
            Top::Coll => (&[VALUE, STR, ARR, &["close"]], "an object"),
            Top::Closed => (&[VALUE, STR, ARR, OBJ, COLL], "nothing"),
            Top::Over => return Ok(()),
        };
        let group = groups[sc.below(s, groups.len())];
        let op = group[sc.below(s, group.len())];
        let key = KEYS[sc.below(s, KEYS.len())];
        let (names, max_tag) = (self.names, self.max_tag);
        let taken = |me: &Self| me.st.as_ref().map(|st| (st.taken.get(), st.reach()));
        let before = (self.consumed.get(), taken(self));
        let mut d = self.d.take().expect("session is open");
        let said = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            let r: Result<String, DErr<T>> = match op {
                "get_bool" => d.get_bool().map(|v| v.to_string()),
                "get_i8" => d.get_i8().map(|v| v.to_string()),
                "get_i16" => d.get_i16().map(|v| v.to_string()),
                "get_i32" => d.get_i32().map(|v| v.to_string()),
                "get_i64" => d.get_i64().map(|v| v.to_string()),
                "get_u8" => d.get_u8().map(|v| v.to_string()),
                "get_u16" => d.get_u16().map(|v| v.to_string()),
                "get_u32" => d.get_u32().map(|v| v.to_string()),
                "get_u64" => d.get_u64().map(|v| v.to_string()),
                "get_f32" => d.get_f32().map(|v| v.to_string()),
                "get_f64" => d.get_f64().map(|v| v.to_string()),
                "get_char" => d.get_char().map(|v| v.to_string()),
                "read_str" => d.read_str().map(|v| v.to_string()),
                "get_name" => d.get_name(names).map(|v| v.to_string()),
                "get_tag" => d.get_tag(max_tag, names).map(|v| v.to_string()),
                "check_null" => d.check_null().map(|v| v.to_string()),
                "pop_null" => d.pop_null().map(|()| String::new()),
                "open_str" => d.open_str().map(|()| String::new()),
                "open_list" => d.open_list().map(|v| format!("{v:?}")),
                "open_tuple" => d.open_tuple(None).map(|()| String::new()),
                "open_struct" => d.open_struct(None).map(|()| String::new()),
                "open_object" => d.open_object().map(|()| String::new()),
                "skip_value" => d.skip_value().map(|()| String::new()),
                "next_char" => d.next_char().map(|v| format!("{v:?}")),
                "skip_str" => d.skip_str().map(|()| String::new()),
                "flush_str" => d.flush_str().map(|v| v.to_string()),
                "flush_name" => d.flush_name(names).map(|v| v.to_string()),
                "close_str" => d.close_str().map(|()| String::new()),
                "next_item" => d.next_item().map(|v| v.to_string()),
                "push_item" => d.push_item().map(|()| String::new()),
                "push_element" => d.push_element().map(|()| String::new()),
                "close_list" => d.close_list().map(|()| String::new()),
                "close_tuple" => d.close_tuple().map(|()| String::new()),
                "try_push_entry" => d.try_push_entry(key).map(|v| v.to_string()),
                "push_entry" => d.push_entry(key).map(|()| String::new()),
                "next_entry" => d.next_entry().map(|v| v.to_string()),
                "skip_object" => d.skip_object().map(|()| String::new()),
                "close_object" => d.close_object().map(|()| String::new()),
                "push_field" => d.push_field(key).map(|()| String::new()),
                "close_struct" => d.close_struct().map(|()| String::new()),
                "push_null" => {
                    d.push_null(Some(key));
                    Ok(String::new())
                }
                _ => d.close().map(|()| String::new()),
            };
            r.map_err(|e| e.to_string())
        }));
        crate::driver::forget_panic();
        self.misused = true;
        self.ops += 1;
        self.top = Top::Over;
        let after = (self.consumed.get(), taken(self));
        let op = format!("{op} on {on}");
        self.note(&op, if said.is_err() { "PANIC" } else { "no panic" });
        if let Ok(said) = said {
            return fail("accepted", format!("{op}: returned {said:?} instead of panicking"));
        }
        ensure!(
            before == after,
            "consumed",
            "{op}: panicked, but not before it had read from the source ({before:?}, then {after:?})"
        );
        Ok(())
    }

    fn probe_due(&mut self, sc: &mut Script, s: &mut Src) -> bool {
        let may = match self.top {
            Top::Closed => self.popped.is_some(),
            _ => true,
        };
        self.lean.provoke > 0 && may && sc.below(s, 100) + self.lean.provoke.min(90) / 2 >= 100
    }

    /// Where would an error which the user makes be, and what would it say?
    fn probe(&mut self, sc: &mut Script, s: &mut Src) -> R {
        let keys = ["absent key", "", "a \"key\"", "\\", "\u{e9}\n"];
        let lists: [&'static [ValueType]; 5] = [
            &[ValueType::Bool],
            &[ValueType::Null, ValueType::Object],
            &[ValueType::String, ValueType::Number, ValueType::Array],
            &[ValueType::Object, ValueType::Bool, ValueType::Null, ValueType::Number],
            &[
                ValueType::Null,
                ValueType::String,
                ValueType::Array,
                ValueType::Bool,
                ValueType::Number,
                ValueType::Object,
            ],
        ];
        let t = &self.doc.t;
        let d = self.d.as_ref().expect("open");
        let about_last = self.popped.is_some() && sc.chance(s, 2, 3);
        let (op, e, at, says) = match (&self.top, self.frames.last()) {
            (Top::Value(n, _), _) => {
                let list = lists[sc.below(s, lists.len())];
                let e = d.error_expected_type(list);
                ("error_expected_type", e, n.start, Says::Expected(list))
            }
            (Top::Absent, Some(Frame::Obj { n, .. } | Frame::Arr { n, .. })) => {
                let list = lists[sc.below(s, lists.len())];
                let e = d.error_expected_type(list);
                let says = match &self.absent {
                    Some(key) => Says::MissingKey(key.clone()),
                    None => Says::Expected(list),
                };
                ("error_expected_type", e, n.start, says)
            }
            (Top::Coll, Some(Frame::Obj { n, .. })) if !about_last => {
                let key = keys[sc.below(s, keys.len())].to_string();
                let e = d.error_extra_entry(key.clone());
                ("error_extra_entry", e, n.start, Says::ExtraKey(key))
            }
            (Top::Coll, Some(Frame::Arr { n, .. })) if !about_last => {
                ("error_extra_item", d.error_extra_item(), n.start, Says::ExtraItems)
            }
            _ => {
                let Some(at) = self.popped.take() else {
                    return Ok(());
                };
                match sc.below(s, 4) {
                    0 => ("error_missing_item", d.error_missing_item(), at, Says::MissingItems),
                    1 => {
                        let key = keys[sc.below(s, keys.len())].to_string();
                        let e = d.error_missing_entry(key.clone());
                        ("error_missing_entry", e, at, Says::MissingKey(key))
                    }
                    _ => ("error", d.error("invalid".into()), at, Says::Custom("invalid".into())),
                }
            }
        };
        let pos = e.position().clone();
        let e = err_info(&e, t);
        self.ops += 1;
        self.provoked += 1;
        self.note(op, format!("{} {:?}", e.kind, e.loc));
        if self.checks.positions {
            // Positions are ordered as the text is
            if let Some((last, last_at)) = &self.last_pos {
                ensure!(
                    last.cmp(&pos) == last_at.cmp(&at)
                        && last.partial_cmp(&pos) == Some(last_at.cmp(&at))
                        && (*last == pos) == (*last_at == at),
                    "order",
                    "{op}: the position {pos} compares with {last} unlike character {at} with {last_at}"
                );
            }
            self.last_pos = Some((pos, at));
        }
        if self.checks.positions {
            ensure!(e.says == says, "kind", "{op}: the error is {}, not {says:?}", e.kind);
            if let Some(part) = &e.unsaid {
                return fail("text", format!("{op}: the text of {} does not contain {part:?}", e.kind));
            }
        }
        self.check_pos(op, &e, at)
    }

    fn popped_value(&mut self, start: usize) {
        self.popped = Some(start);
        self.top = if self.frames.is_empty() {
            Top::Closed
        } else {
            Top::Coll
        };
    }

    fn step_absent(&mut self, sc: &mut Script, s: &mut Src) -> R {
        let (names, max_tag) = (self.names, self.max_tag);
        let Some(Frame::Obj { n, .. } | Frame::Arr { n, .. }) = self.frames.last() else {
            unreachable!()
        };
        let start = n.start;
        if self.probe_due(sc, s) {
            return self.probe(sc, s);
        }
        let ty = self.d().peek_value_type();
        if ty != ValueType::Null && self.checks.values {
            return self.wrong("peek_value_type on an absent field", ty, ValueType::Null);
        }
        if self.lean.provoke > 0 && sc.chance(s, self.lean.provoke.min(50), 100) {
            return match sc.below(s, 9) {
                7 => self.exec_err("get_char (absent field)", start, |d| d.get_char()),
                8 => self.exec_err("read_str (absent field)", start, |d| {
                    d.read_str().map(|s| s.into_owned())
                }),
                0 => self.exec_err("get_bool (absent field)", start, |d| d.get_bool()),
                1 => self.exec_err("get_u8 (absent field)", start, |d| d.get_u8()),
                2 => self.exec_err("open_str (absent field)", start, |d| d.open_str()),
                3 => self.exec_err("open_list (absent field)", start, |d| d.open_list()),
                4 => self.exec_err("open_struct (absent field)", start, |d| d.open_struct(None)),
                5 => self.exec_err("open_object (absent field)", start, |d| d.open_object()),
                _ => self.exec_err("get_tag (absent field)", start, |d| d.get_tag(max_tag, names)),
            };
        }
        self.top = Top::Coll;
        self.popped = None;
        match sc.below(s, 3) {
            0 => {
                let r = self.exec("check_null", Same, |d| d.check_null())?;
                self.note("check_null", r);
                if !r && self.checks.values {
                    return self.wrong("check_null on an absent field", r, true);
                }
            }
            1 => {
                self.exec("pop_null", Same, |d| d.pop_null())?;
                self.note("pop_null", "");
            }
            _ => {
                self.exec("skip_value", Same, |d| d.skip_value())?;
                self.note("skip_value", "");
            }
        }
        Ok(())
    }

    fn step_value(&mut self, n: &'t SNode, held: bool, sc: &mut Script, s: &mut Src) -> R {
        if self.probe_due(sc, s) {
            return self.probe(sc, s);
        }
        if held {
            self.held_reads += 1;
        }
        if self.lean.provoke > 0 && sc.chance(s, self.lean.provoke.min(60), 100) {
            if let Some(res) = self.provoke_value(n, sc, s) {
                return res;
            }
        }
        if self.lean.wrong_names > 0 && sc.chance(s, self.lean.wrong_names, 100) {
            let at = n.start;
            let (names, max_tag) = (self.names, self.max_tag);
            let bad = match &n.kind {
                SKind::Str(v) => self.name(v).is_none(),
                SKind::Num(t) => {
                    is_plain_int(t) && num_int(t).is_some_and(|v| v < 0 || v > max_tag as i128)
                }
                _ => false,
            };
            if bad {
                let is_str = matches!(n.kind, SKind::Str(_));
                return if is_str && sc.chance(s, 1, 2) {
                    self.exec_err("get_name (unknown name)", at, |d| d.get_name(names))
                } else {
                    self.exec_err("get_tag (unknown tag)", at, |d| d.get_tag(max_tag, names))
                };
            }
        }
        let end = self.up(held, n.end);
        // Look first?
        if sc.below(s, 4) == 3 {
            let ty = self.d().peek_value_type();
            let want = match n.kind {
                SKind::Null => ValueType::Null,
                SKind::Bool(_) => ValueType::Bool,
                SKind::Num(_) => ValueType::Number,
                SKind::Str(_) => ValueType::String,
                SKind::Arr(_) => ValueType::Array,
                SKind::Obj(_) => ValueType::Object,
            };
            self.note("peek_value_type", format!("{ty:?}"));
            if ty != want && self.checks.values {
                return self.wrong("peek_value_type", ty, want);
            }
        }
        let w = [12, self.lean.skip, 1];
        match sc.weighted(s, &w) {
            1 => {
                self.exec("skip_value", end, |d| d.skip_value())?;
                self.note("skip_value", "");
                self.popped_value(n.start);
                return Ok(());
            }
            2 => {
                let is_null = matches!(n.kind, SKind::Null);
                let upto = if is_null { self.up(held, n.end) } else { Same };
                let r = self.exec("check_null", upto, |d| d.check_null())?;
                self.note("check_null", r);
                if r != is_null {
                    if self.checks.values {
                        return self.wrong("check_null", r, is_null);
                    }
                    self.top = Top::Over;
                    self.d = None;
                    return Ok(());
                }
                if r {
                    self.popped_value(n.start);
                }
                return Ok(());
            }
            _ => (),
        }
        match &n.kind {
            SKind::Null => {
                self.exec("pop_null", end, |d| d.pop_null())?;
                self.note("pop_null", "");
                self.popped_value(n.start);
            }
            SKind::Bool(b) => {
                let r = self.exec("get_bool", end, |d| d.get_bool())?;
                self.note("get_bool", r);
                if r != *b && self.checks.values {
                    return self.wrong("get_bool", r, b);
                }
                self.popped_value(n.start);
            }
            SKind::Num(t) => self.number(n, t, end, sc, s)?,
            SKind::Str(v) => {
                let (names, max_tag) = (self.names, self.max_tag);
                let tag = self.name(v);
                let single = v.chars().count() == 1;
                let w = [
                    6,
                    6 * (1 + self.lean.pieces),
                    if tag.is_some() { self.lean.tags * 6 } else { 0 },
                    if tag.is_some() { self.lean.tags * 3 } else { 0 },
                    if single { 3 } else { 0 },
                    if v.is_empty() { 2 } else { 0 },
                ];
                match sc.weighted(s, &w) {
                    0 => {
                        let r = self.exec("read_str", end, |d| {
                            d.read_str().map(|c| c.into_owned())
                        })?;
                        self.note("read_str", format!("{r:?}"));
                        if r != *v && self.checks.values {
                            return self.wrong("read_str", r, v);
                        }
                        self.popped_value(n.start);
                    }
                    how @ (1 | 5) => {
                        let upto = self.up(held, n.start + 1);
                        self.exec("open_str", upto, |d| d.open_str())?;
                        self.note("open_str", "");
                        self.popped = None;
                        if how == 5 {
                            self.exec("close_str", end, |d| d.close_str())?;
                            self.note("close_str", "");
                            self.popped_value(n.start);
                            return Ok(());
                        }
                        self.top = Top::Str {
                            start: n.start,
                            chars: v.chars().collect(),
                            ends: char_ends(&self.doc.t.chars, n.start),
                            read: 0,
                            held,
                            stop: n.end,
                            val: None,
                        };
                    }
                    how @ (2 | 3) => {
                        let (op, r) = if how == 2 {
                            let r = self.exec("get_tag", end, |d| d.get_tag(max_tag, names))?;
                            ("get_tag", r)
                        } else {
                            ("get_name", self.exec("get_name", end, |d| d.get_name(names))?)
                        };
                        self.note(op, r);
                        if Some(r) != tag && self.checks.values {
                            return self.wrong(op, r, tag);
                        }
                        self.popped_value(n.start);
                    }
                    _ => {
                        let r = self.exec("get_char", end, |d| d.get_char())?;
                        self.note("get_char", format!("{r:?}"));
                        if !v.starts_with(r) && self.checks.values {
                            return self.wrong("get_char", r, v);
                        }
                        self.popped_value(n.start);
                    }
                }
            }
            SKind::Arr(items) => {
                let upto = self.up(held, n.start + 1);
                let how = sc.below(s, 3) as u8;
                match how {
                    0 => {
                        self.exec("open_list", upto, |d| d.open_list().map(|_| ()))?;
                        self.note("open_list", "");
                    }
                    1 => {
                        self.exec("open_tuple", upto, |d| d.open_tuple(None))?;
                        self.note("open_tuple", "");
                    }
                    _ => {
                        self.exec("open_struct", upto, |d| d.open_struct(Some("S")))?;
                        self.note("open_struct", "");
                    }
                }
                self.frames.push(Frame::Arr {
                    n,
                    items,
                    next: 0,
                    held,
                    how,
                });
                self.popped = None;
                self.top = Top::Coll;
            }
            SKind::Obj(es) => {
                let upto = self.up(held, n.start + 1);
                let is_struct = sc.weighted(s, &[4, self.lean.fields * 2]) == 1;
                if is_struct {
                    self.exec("open_struct", upto, |d| d.open_struct(None))?;
                    self.note("open_struct", "");
                } else {
                    self.exec("open_object", upto, |d| d.open_object())?;
                    self.note("open_object", "");
                }
                self.frames.push(Frame::Obj {
                    n,
                    es,
                    read: vec![false; es.len()],
                    front: 0,
                    held,
                    is_struct,
                });
                self.popped = None;
                self.top = Top::Coll;
            }
        }
        Ok(())
    }

    fn number(&mut self, n: &'t SNode, t: &str, end: Upto, sc: &mut Script, s: &mut Src) -> R {
        let (names, max_tag) = (self.names, self.max_tag);
        let int = if is_plain_int(t) && t != "-0" { num_int(t) } else { None };
        macro_rules! int {
            ($($k:literal $ty:ident $get:ident),*) => {{
                let fits = [$(int.is_some_and(|v| <$ty>::try_from(v).is_ok())),*, true];
                let mut w = [4usize, 2, 1, 1, 1, 1, 1, 1, 1, 1, 0];
                for i in 0..8 {
                    if !fits[i] {
                        w[i + 2] = 0;
                    }
                }
                // As a tag given by index
                w[10] = match int {
                    Some(v) if (0..=self.max_tag as i128).contains(&v) => 2 * self.lean.tags,
                    _ => 0,
                };
                match sc.weighted(s, &w) {
                    0 => {
                        let r = self.exec("get_f64", end, |d| d.get_f64())?;
                        self.note("get_f64", format!("{r:?}"));
                        if r.to_bits() != num_f64(t).to_bits() && self.checks.values {
                            return self.wrong("get_f64", r, t);
                        }
                    }
                    1 => {
                        let r = self.exec("get_f32", end, |d| d.get_f32())?;
                        self.note("get_f32", format!("{r:?}"));
                        if r.to_bits() != num_f32(t).to_bits() && self.checks.values {
                            return self.wrong("get_f32", r, t);
                        }
                    }
                    10 => {
                        let r = self.exec("get_tag", end, |d| d.get_tag(max_tag, names))?;
                        self.note("get_tag", r);
                        if Some(r as i128) != int && self.checks.values {
                            return self.wrong("get_tag", r, t);
                        }
                    }
                    $($k => {
                        let r = self.exec(stringify!($get), end, |d| d.$get())?;
                        self.note(stringify!($get), r);
                        if Some(i128::from(r)) != int && self.checks.values {
                            return self.wrong(stringify!($get), r, t);
                        }
                    })*
                    _ => unreachable!(),
                }
            }};
        }
        int!(2 i8 get_i8, 3 i16 get_i16, 4 i32 get_i32, 5 i64 get_i64,
             6 u8 get_u8, 7 u16 get_u16, 8 u32 get_u32, 9 u64 get_u64);
        self.popped_value(n.start);
        Ok(())
    }

    fn step_str(&mut self, sc: &mut Script, s: &mut Src) -> R {
        if self.lean.provoke > 0 && sc.chance(s, self.lean.provoke.min(20), 100) {
            if let Top::Str { start, read, chars, val: None, .. } = &self.top {
                if *read < chars.len() {
                    let at = *start;
                    return self.exec_err("close_str (characters left)", at, |d| d.close_str());
                }
            }
        }
        let Top::Str { start, chars, ends, read, held, stop, val } =
            std::mem::replace(&mut self.top, Top::Over)
        else {
            unreachable!()
        };
        let up = |held: bool, i: usize| if held { Same } else { Idx(i) };
        let what = if val.is_some() { "key " } else { "" };
        let rest: String = chars[read.min(chars.len())..].iter().collect();
        let tag = self.name(&rest);
        let names = self.names;
        if tag.is_none() && self.lean.wrong_names > 0 && sc.chance(s, self.lean.wrong_names, 200) {
            return self.exec_err("flush_name (unknown name)", start, |d| d.flush_name(names));
        }
        let w = [
            3,
            2 + 4 * self.lean.pieces,
            1,
            if read == chars.len() && val.is_none() { 1 } else { 0 },
            if tag.is_some() { 2 * self.lean.tags } else { 0 },
        ];
        let finished = match sc.weighted(s, &w) {
            0 => {
                let r = self.exec("flush_str", up(held, stop), |d| {
                    d.flush_str().map(|c| c.into_owned())
                })?;
                self.note("flush_str", format!("{what}{r:?}"));
                let want: String = chars[read..].iter().collect();
                if r != want && self.checks.values {
                    return self.wrong(&format!("flush_str {what}"), r, want);
                }
                true
            }
            1 => {
                let upto = match ends.get(read) {
                    Some(e) => up(held, *e),
                    None => up(held, stop),
                };
                let r = self.exec("next_char", upto, |d| d.next_char())?;
                self.note("next_char", format!("{what}{r:?}"));
                let want = chars.get(read).copied();
                if r != want {
                    if self.checks.values {
                        return self.wrong(&format!("next_char {what}"), r, want);
                    }
                    self.d = None;
                    return Ok(());
                }
                r.is_none()
            }
            2 => {
                self.exec("skip_str", up(held, stop), |d| d.skip_str())?;
                self.note("skip_str", what);
                true
            }
            3 => {
                self.exec("close_str", up(held, stop), |d| d.close_str())?;
                self.note("close_str", "");
                true
            }
            _ => {
                let r = self.exec("flush_name", up(held, stop), |d| d.flush_name(names))?;
                self.note("flush_name", format!("{what}{r}"));
                if Some(r) != tag && self.checks.values {
                    return self.wrong(&format!("flush_name {what}{rest:?}"), r, tag);
                }
                true
            }
        };
        if finished {
            match val {
                Some(v) => {
                    self.top = Top::Value(v, held);
                    self.popped = None;
                }
                None => {
                    self.popped_value(start);
                }
            }
        } else {
            self.top = Top::Str {
                start,
                chars,
                ends,
                read: read + 1,
                held,
                stop,
                val,
            };
        }
        Ok(())
    }

    fn step_coll(&mut self, sc: &mut Script, s: &mut Src) -> R {
        if self.probe_due(sc, s) {
            return self.probe(sc, s);
        }
        let is_arr = matches!(self.frames.last(), Some(Frame::Arr { .. }));
        if sc.below(s, 16) == 15 {
            let ty = self.d().peek_collection_type();
            self.note("peek_collection_type", format!("{ty:?}"));
            let want = if is_arr { CollectionType::Array } else { CollectionType::Object };
            if ty != want && self.checks.values {
                return self.wrong("peek_collection_type", ty, want);
            }
        }
        if sc.below(s, 24) == 23 {
            // A null which is in no document
            let key = match sc.below(s, 3) {
                0 => None,
                _ => Some(KEYS[sc.below(s, KEYS.len())]),
            };
            self.d().push_null(key);
            self.note("push_null", format!("{key:?}"));
            self.absent = key.map(Into::into);
            self.top = Top::Absent;
            self.popped = None;
            return Ok(());
        }
        if is_arr {
            self.step_arr(sc, s)
        } else {
            self.step_obj(sc, s)
        }
    }

    fn close_frame(&mut self, start: usize) {
        self.frames.pop();
        self.popped_value(start);
    }

    fn step_arr(&mut self, sc: &mut Script, s: &mut Src) -> R {
        let Some(Frame::Arr { n, items, next, held, how }) = self.frames.last_mut() else {
            unreachable!()
        };
        let (n, items, held, how) = (*n, *items, *held, *how);
        let item = items.get(*next);
        if item.is_some() {
            *next += 1;
        }
        let is_struct = how == 2;
        if self.lean.provoke > 0 && sc.chance(s, self.lean.provoke.min(30), 100) {
            return match (item, how) {
                (Some(_), 0) => self.exec_err("close_list (items left)", n.start, |d| d.close_list()),
                (Some(_), 1) => self.exec_err("close_tuple (items left)", n.start, |d| d.close_tuple()),
                (Some(_), _) => self.exec_err("close_struct (items left)", n.start, |d| d.close_struct()),
                (None, 0) => self.exec_err("push_item (no item left)", n.start, |d| d.push_item()),
                (None, 1) => self.exec_err("push_element (no item left)", n.start, |d| d.push_element()),
                (None, _) => self.exec_err("push_field (no item left)", n.start, |d| d.push_field("a")),
            };
        }
        let upto = match item {
            Some(i) => self.up(held, i.start),
            None => self.up(held, n.end),
        };
        let fixed = sc.below(s, 3) == 2;
        if !fixed {
            let r = self.exec("next_item", upto, |d| d.next_item())?;
            self.note("next_item", r);
            if r != item.is_some() {
                if self.checks.values {
                    return self.wrong("next_item", r, item.is_some());
                }
                self.top = Top::Over;
                self.d = None;
                return Ok(());
            }
        } else {
            match (item, how) {
                (Some(_), 0) => self.exec("push_item", upto, |d| d.push_item())?,
                (Some(_), 1) => self.exec("push_element", upto, |d| d.push_element())?,
                (Some(_), _) => self.exec("push_field", upto, |d| d.push_field("a"))?,
                (None, 0) => self.exec("close_list", upto, |d| d.close_list())?,
                (None, 1) => self.exec("close_tuple", upto, |d| d.close_tuple())?,
                (None, _) => self.exec("close_struct", upto, |d| d.close_struct())?,
            }
            self.note(if item.is_some() { "push_item" } else { "close_list" }, is_struct);
        }
        match item {
            Some(i) => {
                self.top = Top::Value(i, held);
                self.popped = None;
            }
            None => self.close_frame(n.start),
        }
        Ok(())
    }

    fn step_obj(&mut self, sc: &mut Script, s: &mut Src) -> R {
        let Some(Frame::Obj { n, es, read, front, held, is_struct }) = self.frames.last() else {
            unreachable!()
        };
        let (n, es, held, is_struct) = (*n, *es, *held, *is_struct);
        let front = *front;
        let unread: Vec<usize> = (0..es.len()).filter(|i| !read[*i]).collect();
        let none_left = unread.is_empty();
        let l = self.lean;
        if l.provoke > 0 && sc.chance(s, l.provoke.min(30), 100) {
            if !none_left && sc.chance(s, 1, 2) {
                return self.exec_err("close_object (entries left)", n.start, |d| d.close_object());
            }
            return self.exec_err("push_entry (absent key)", n.start, |d| d.push_entry("absent key"));
        }
        let w = [
            1 + l.iterate * 2,
            l.keyed * 3,
            l.leave,
            if is_struct { l.fields * 4 } else { 0 },
            if none_left && !is_struct { 2 } else { 0 },
            if is_struct { 1 } else { 0 },
        ];
        match sc.weighted(s, &w) {
            0 => {
                let next = unread.first().copied();
                let upto = match next {
                    Some(i) if i < front => Same,
                    Some(i) => self.up(held, es[i].kstart + 1),
                    None => self.up(held, n.end),
                };
                let r = self.exec("next_entry", upto, |d| d.next_entry())?;
                self.note("next_entry", r);
                if r != next.is_some() {
                    if self.checks.values {
                        return self.wrong("next_entry", r, next.is_some());
                    }
                    self.top = Top::Over;
                    self.d = None;
                    return Ok(());
                }
                match next {
                    Some(i) => {
                        let e = &es[i];
                        self.take(i);
                        self.popped = None;
                        self.top = Top::Str {
                            start: e.kstart,
                            chars: e.key.chars().collect(),
                            ends: char_ends(&self.doc.t.chars, e.kstart),
                            read: 0,
                            held: held || i < front,
                            stop: e.val.start,
                            val: Some(&e.val),
                        };
                    }
                    None => self.close_frame(n.start),
                }
            }
            how @ (1 | 3) => {
                // Ask for an entry that is there, one that was read, or one that never was there
                let field = how == 3;
                let mut names: Vec<&str> = Vec::new();
                let pool: Vec<usize> = match sc.weighted(s, &[8, 1, 3]) {
                    0 => unread.clone(),
                    1 => (0..es.len()).filter(|i| !unread.contains(i)).collect(),
                    _ => Vec::new(),
                };
                for i in &pool {
                    if !field || KEYS.contains(&es[*i].key.as_str()) {
                        names.push(&es[*i].key);
                    }
                }
                let name: &str = if names.is_empty() {
                    KEYS[sc.below(s, KEYS.len())]
                } else {
                    names[sc.below(s, names.len())]
                };
                let hit = unread.iter().copied().find(|i| es[*i].key == name);
                let upto = match hit {
                    Some(i) if i < front => Same,
                    Some(i) => self.up(held, es[i].val.start),
                    None => self.up(held, n.end),
                };
                if field {
                    let name = *KEYS.iter().find(|k| **k == name).expect("static name");
                    let op = format!("push_field {name:?}");
                    self.exec(&op, upto, |d| d.push_field(name))?;
                    self.note(&op, "");
                } else if hit.is_some() && sc.below(s, 6) == 5 {
                    let op = format!("push_entry {name:?}");
                    self.exec(&op, upto, |d| d.push_entry(name))?;
                    self.note(&op, "");
                } else {
                    let op = format!("try_push_entry {name:?}");
                    let r = self.exec(&op, upto, |d| d.try_push_entry(name))?;
                    self.note(&op, r);
                    if r != hit.is_some() {
                        if self.checks.values {
                            return self.wrong(&op, r, hit.is_some());
                        }
                        self.top = Top::Over;
                        self.d = None;
                        return Ok(());
                    }
                }
                self.popped = None;
                // Of several entries with the key, held back already, any may be delivered: which
                // one it was is told by the value
                let rivals: Vec<usize> =
                    unread
                        .iter()
                        .copied()
                        .filter(|i| (held || *i < front) && es[*i].key == name)
                        .collect();
                if rivals.len() > 1 {
                    let v = self.exec("get_u64 (of a repeated key)", Same, |d| d.get_u64())?;
                    self.note("get_u64 (of a repeated key)", v);
                    let which = rivals.iter().copied().find(|i| match &es[*i].val.kind {
                        SKind::Num(t) => num_int(t) == Some(i128::from(v)),
                        _ => false,
                    });
                    let Some(i) = which else {
                        return self.wrong(
                            &format!("the value of the repeated key {name:?}"),
                            v,
                            "that of an entry with the key not read yet",
                        );
                    };
                    self.held_reads += 1;
                    self.take(i);
                    self.popped_value(es[i].val.start);
                    return Ok(());
                }
                match hit {
                    Some(i) => {
                        let was_held = held || i < front;
                        self.take(i);
                        self.top = Top::Value(&es[i].val, was_held);
                    }
                    None => {
                        if let Some(Frame::Obj { front, .. }) = self.frames.last_mut() {
                            *front = es.len();
                        }
                        if field {
                            self.absent = Some(name.to_string());
                            self.top = Top::Absent;
                        }
                    }
                }
            }
            2 => {
                let upto = self.up(held, n.end);
                self.exec("skip_object", upto, |d| d.skip_object())?;
                self.note("skip_object", "");
                self.close_frame(n.start);
            }
            4 => {
                let upto = self.up(held, n.end);
                self.exec("close_object", upto, |d| d.close_object())?;
                self.note("close_object", "");
                self.close_frame(n.start);
            }
            _ => {
                let upto = self.up(held, n.end);
                self.exec("close_struct", upto, |d| d.close_struct())?;
                self.note("close_struct", "");
                self.close_frame(n.start);
            }
        }
        Ok(())
    }

    fn take(&mut self, i: usize) {
        if let Some(Frame::Obj { read, front, .. }) = self.frames.last_mut() {
            read[i] = true;
            *front = (*front).max(i + 1);
        }
    }

    /// Reads a value as something it is not, or not quite.
    fn provoke_value(&mut self, n: &'t SNode, sc: &mut Script, s: &mut Src) -> Option<R> {
        let (names, max_tag) = (self.names, self.max_tag);
        let at = n.start;
        if sc.chance(s, 1, 2) {
            match &n.kind {
                SKind::Num(t) => {
                    let int = num_int(t)?;
                    macro_rules! int {
                        ($($i:literal $ty:ident $get:ident),*) => {
                            match sc.below(s, 9) {
                                $($i if $ty::try_from(int).is_err() => {
                                    let op = concat!(stringify!($get), " (out of range)");
                                    return Some(self.exec_err(op, at, |d| d.$get()));
                                })*
                                8 if int > self.max_tag as i128 || int < 0 => {
                                    return Some(self.exec_err(
                                        "get_tag (index out of range)",
                                        at,
                                        |d| d.get_tag(max_tag, names),
                                    ));
                                }
                                _ => (),
                            }
                        };
                    }
                    int!(0 u8 get_u8, 1 i8 get_i8, 2 u16 get_u16, 3 i16 get_i16, 4 u32 get_u32,
                         5 i32 get_i32, 6 u64 get_u64, 7 i64 get_i64);
                }
                SKind::Str(v) => {
                    let known = self.name(v).is_some();
                    match sc.below(s, 3) {
                        0 if !known => {
                            return Some(self.exec_err("get_tag (unknown name)", at, |d| {
                                d.get_tag(max_tag, names)
                            }))
                        }
                        1 if !known => {
                            return Some(
                                self.exec_err("get_name (unknown name)", at, |d| d.get_name(names)),
                            )
                        }
                        2 if v.chars().count() != 1 => {
                            return Some(
                                self.exec_err("get_char (not one character)", at, |d| d.get_char()),
                            )
                        }
                        _ => (),
                    }
                }
                _ => (),
            }
        }
        let (is, on) = match n.kind {
            SKind::Null => (ValueType::Null, "on null"),
            SKind::Bool(_) => (ValueType::Bool, "on a boolean"),
            SKind::Num(_) => (ValueType::Number, "on a number"),
            SKind::Str(_) => (ValueType::String, "on a string"),
            SKind::Arr(_) => (ValueType::Array, "on an array"),
            SKind::Obj(_) => (ValueType::Object, "on an object"),
        };
        macro_rules! call {
            ($($i:literal $name:literal $ok:pat, $f:expr;)*) => {
                match sc.below(s, 21) {
                    $($i => match is {
                        $ok => None,
                        _ => Some(self.exec_err(&format!("{} ({on})", $name), at, $f)),
                    })*
                    _ => None,
                }
            };
        }
        use ValueType as V;
        call! {
            0 "get_bool" V::Bool, |d| d.get_bool();
            1 "get_u8" V::Number, |d| d.get_u8();
            2 "get_i8" V::Number, |d| d.get_i8();
            3 "get_u16" V::Number, |d| d.get_u16();
            4 "get_i16" V::Number, |d| d.get_i16();
            5 "get_u32" V::Number, |d| d.get_u32();
            6 "get_i32" V::Number, |d| d.get_i32();
            7 "get_u64" V::Number, |d| d.get_u64();
            8 "get_i64" V::Number, |d| d.get_i64();
            9 "get_f32" V::Number, |d| d.get_f32();
            10 "get_f64" V::Number, |d| d.get_f64();
            11 "get_char" V::String, |d| d.get_char();
            12 "read_str" V::String, |d| d.read_str().map(|c| c.into_owned());
            13 "open_str" V::String, |d| d.open_str();
            14 "get_name" V::String, |d| d.get_name(names);
            15 "get_tag" V::String | V::Number, |d| d.get_tag(max_tag, names);
            16 "pop_null" V::Null, |d| d.pop_null();
            17 "open_list" V::Array, |d| d.open_list();
            18 "open_tuple" V::Array, |d| d.open_tuple(None);
            19 "open_object" V::Object, |d| d.open_object();
            20 "open_struct" V::Object | V::Array, |d| d.open_struct(None);
        }
    }

    /// Runs to the end.
    pub fn run(&mut self, sc: &mut Script, s: &mut Src) -> R {
        while !self.over() {
            if let Err(v) = self.step(sc, s) {
                return Err(Violation {
                    class: v.class,
                    msg: format!("operation {}: {}", self.ops, v.msg),
                });
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------------------------------------

/// A document without repeated keys.
pub fn gen_doc(ctx: &mut Ctx) -> Doc {
    let s = &mut ctx.src;
    let mut o = GenOpts::swarm(s);
    o.dup_keys = false;
    let node = if s.chance(1, 3) {
        gen_tagged(s, &mut o, 0)
    } else {
        gen_node(s, &mut o, 0)
    };
    let comments = s.chance(1, 3);
    Doc::of(s, &node, comments)
}

/// A small document of which some keys, strings and numbers are very long.
fn gen_doc_long(ctx: &mut Ctx) -> Doc {
    fn len(s: &mut Src) -> usize {
        match s.below(4) {
            0 => s.range(125, 130),
            1 => s.range(253, 259),
            2 => s.range(32_764, 32_772),
            _ => s.range(65_532, 65_540),
        }
    }
    fn key(s: &mut Src, i: usize) -> String {
        match s.below(3) {
            0 => format!("{i}{}", "k".repeat(len(s))),
            1 => format!("{}{i}", s.pick(&["\u{e9}", "x"]).repeat(len(s) / 2)),
            _ => format!("k{i}"),
        }
    }
    fn node(s: &mut Src, deep: usize) -> Node {
        match s.weighted(&[2, 3, 2, deep]) {
            0 => Node::Num(s.below(100).to_string()),
            1 => {
                let n = len(s);
                let digit = s.range(1, 9);
                let zeros = "0".repeat(n);
                // Exponents bring the number back to where it can be told from others
                Node::Num(match s.below(4) {
                    0 => format!("0.{zeros}{digit}e{}", n + 1 + s.below(3)),
                    1 => format!("{digit}{zeros}e-{}", n + s.below(3)),
                    2 => format!("{digit}.{zeros}e+{}", s.below(3)),
                    _ => format!("-{digit}{zeros}.{zeros}{digit}E-{}", n + s.below(3)),
                })
            }
            2 => Node::Str(key(s, 0)),
            _ if s.chance(1, 2) => Node::Arr((0..s.below(4)).map(|_| node(s, deep - 1)).collect()),
            _ => object(s, deep - 1),
        }
    }
    fn object(s: &mut Src, deep: usize) -> Node {
        let n = s.range(1, 4);
        Node::Obj((0..n).map(|i| (key(s, i), node(s, deep))).collect())
    }
    let node = object(&mut ctx.src, 2);
    ctx.probe("probe.document_with_long_parts");
    Doc::of(&mut ctx.src, &node, false)
}

/// A document in which keys may repeat. The values of repeated keys are numbers, all different.
fn gen_doc_repeated(ctx: &mut Ctx) -> Doc {
    fn mark(n: &mut Node, next: &mut u64) {
        match n {
            Node::Arr(v) => v.iter_mut().for_each(|n| mark(n, next)),
            Node::Obj(es) => {
                for i in 0..es.len() {
                    let (k, _) = &es[i];
                    if es.iter().filter(|(o, _)| o == k).count() > 1 {
                        *next += 1;
                        es[i].1 = Node::Num(next.to_string());
                    } else {
                        mark(&mut es[i].1, next);
                    }
                }
            }
            _ => (),
        }
    }
    let s = &mut ctx.src;
    let mut o = GenOpts::swarm(s);
    o.dup_keys = true;
    let mut node = gen_node(s, &mut o, 0);
    if let Node::Obj(es) = &mut node {
        // Repeat more of them
        for _ in 0..s.range(0, 6) {
            if !es.is_empty() {
                let k = es[s.below(es.len())].0.clone();
                let at = s.below(es.len() + 1);
                es.insert(at, (k, Node::Null));
            }
        }
    }
    mark(&mut node, &mut 1000);
    let comments = s.chance(1, 3);
    Doc::of(s, &node, comments)
}

/// Like `gen_node`, with an object at the top and many strings that are names of tags.
fn gen_tagged(s: &mut Src, o: &mut GenOpts, depth: usize) -> Node {
    let n = s.range(1, o.max_width.max(2));
    let mut es: Vec<(String, Node)> = Vec::new();
    for i in 0..n {
        if o.budget == 0 {
            break;
        }
        o.budget -= 1;
        let mut key = s.pick(KEYS).to_string();
        if es.iter().any(|(k, _)| *k == key) {
            key = format!("{key}{i}");
        }
        let val = match s.weighted(&[4, 2, 2]) {
            0 => {
                let names: Vec<&str> = TAGS.entries().map(|(k, _)| k).collect();
                let mut t = names[s.below(names.len())].to_string();
                if s.chance(1, 8) {
                    t.push(gen_char(s));
                }
                Node::Str(t)
            }
            1 => Node::Num(s.below(14).to_string()),
            _ if depth < 3 && o.budget > 0 => gen_tagged(s, o, depth + 1),
            _ => Node::Arr(vec![]),
        };
        if !es.iter().any(|(k, _)| *k == key) {
            es.push((key, val));
        }
    }
    Node::Obj(es)
}

/// Runs one session with the given checks over a drawn kind of source.
fn session(ctx: &mut Ctx, doc: &Doc, lean: Lean, checks: Checks) -> R<(usize, usize, usize)> {
    session_with(ctx, doc, lean, checks, (TAGS, MAX_TAG))
}

/// Runs one session which reads tags and names with the given table.
pub fn session_with(
    ctx: &mut Ctx,
    doc: &Doc,
    lean: Lean,
    checks: Checks,
    tags: (&'static NameMap<usize>, usize),
) -> R<(usize, usize, usize)> {
    let plan = if ctx.src.chance(1, 3) {
        ReadPlan::gen_delivery(&mut ctx.src, doc.t.text.len())
    } else {
        ReadPlan::default()
    };
    let kind = ctx.src.weighted(&[5, 3, 2]);
    ctx.log(|| {
        let kind = ["byte stream", "in-memory text", "character reader"][kind];
        format!("text: {:?} (comments: {}) from {kind}", doc.t.text, doc.comments)
    });
    ctx.log(|| format!("delivery: {plan:?}"));
    ctx.note(doc.t.text.as_bytes());
    ctx.note_n(kind);
    let mut sc = Script::default();
    macro_rules! go {
        ($reader:expr, $consumed:expr, $st:expr, $gate:expr) => {{
            let mut src = std::mem::replace(&mut ctx.src, Src::replay(vec![]));
            let mut log = Vec::new();
            let mut n = (0, 0, 0);
            let res = match Session::with_names($reader, doc, lean, checks, $consumed, $st, $gate, tags) {
                Ok(mut sess) => {
                    let res = sess.run(&mut sc, &mut src);
                    log = std::mem::take(&mut sess.log);
                    n = (sess.ops, sess.held_reads, sess.provoked + usize::from(sess.misused));
                    res
                }
                Err(v) => Err(v),
            };
            ctx.src = src;
            for l in &log {
                ctx.note(l.as_bytes());
                ctx.log(|| format!("   {l}"));
            }
            ctx.stats.ticks += n.0 as u64;
            ctx.count("io.operations", n.0 as u64);
            res.map(|()| n)
        }};
    }
    match kind {
        0 => {
            let mut source = SimRead::new(doc.t.text.as_bytes(), plan);
            let st = source.state.clone();
            let gate = checks.consumption.then(|| Rc::new(Cell::new(0)));
            if let Some(gate) = &gate {
                // Constructing the character reader needs one character
                gate.set(doc.t.boff.get(1).copied().unwrap_or(usize::MAX));
                source.gate = Some(gate.clone());
            }
            let r = match Utf8Reader::new(source) {
                Ok(r) => r,
                Err(e) => return fail("construct", e.to_string()),
            };
            let r = Counting::new(r);
            let consumed = r.consumed.clone();
            let res = go!(r, consumed, Some(st.clone()), gate);
            st.count(ctx);
            res
        }
        1 => {
            let r = Counting::new(doc.t.text.as_str());
            let consumed = r.consumed.clone();
            go!(r, consumed, None, None)
        }
        _ => {
            let r = SimText::new(&doc.t.chars);
            let consumed = r.consumed.clone();
            go!(r, consumed, None, None)
        }
    }
}

/// C05: what is requested is what is delivered.
pub fn c05_raw(ctx: &mut Ctx) -> R {
    if ctx.src.chance(1, 500) {
        return crate::vast::c05(ctx);
    }
    let repeated = ctx.src.chance(1, 6);
    let doc = if repeated {
        gen_doc_repeated(ctx)
    } else if ctx.src.chance(1, 500) {
        gen_doc_long(ctx)
    } else {
        gen_doc(ctx)
    };
    if repeated {
        ctx.probe("probe.document_with_repeated_keys");
    }
    let lean = Lean::swarm(&mut ctx.src);
    let checks = Checks {
        values: true,
        ..Default::default()
    };
    let (_, held, _) = session(ctx, &doc, lean, checks)?;
    if held > 0 {
        ctx.nontrivial = true;
    }
    ctx.count("probe.values_delivered_from_hold", held as u64);
    Ok(())
}

/// C20: a call that does not fit is refused.
pub fn c20(ctx: &mut Ctx) -> R {
    let doc = gen_doc(ctx);
    let mut lean = Lean::swarm(&mut ctx.src);
    lean.misuse = ctx.src.pick_copy(&[10, 4, 25]);
    let (ops, held, misused) = session_with(ctx, &doc, lean, Checks::default(), (TAGS, MAX_TAG))?;
    let _ = ops;
    if misused > 0 {
        ctx.nontrivial = true;
    }
    ctx.count("probe.calls_that_do_not_fit", misused as u64);
    ctx.count("probe.values_delivered_from_hold", held as u64);
    Ok(())
}

/// C07: nothing is consumed before it is needed.
pub fn c07(ctx: &mut Ctx) -> R {
    let doc = gen_doc(ctx);
    let lean = Lean::swarm(&mut ctx.src);
    let checks = Checks {
        consumption: true,
        ..Default::default()
    };
    let (ops, held, _) = session(ctx, &doc, lean, checks)?;
    if ops > 4 {
        ctx.nontrivial = true;
    }
    ctx.count("probe.values_delivered_from_hold", held as u64);
    Ok(())
}

/// C13: errors are where they belong.
pub fn c13(ctx: &mut Ctx) -> R {
    let doc = gen_doc(ctx);
    let mut lean = Lean::swarm(&mut ctx.src);
    lean.provoke = ctx.src.pick_copy(&[4, 12, 40]);
    let checks = Checks {
        positions: true,
        ..Default::default()
    };
    let (_, held, provoked) = session(ctx, &doc, lean, checks)?;
    if provoked > 0 {
        ctx.nontrivial = true;
    }
    ctx.count("probe.errors_provoked", provoked as u64);
    ctx.count("probe.values_delivered_from_hold", held as u64);
    Ok(())
}
