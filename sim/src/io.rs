//! The simulated byte sources, byte sinks, character readers and character writers.
//!
//! Every call the library makes into one of these is an event whose outcome (how many bytes, an
//! interruption, an error, the end) is dictated by a plan keyed by byte offset. Two executions
//! with the same plan see exactly the same outcomes as long as the library asks for the same
//! bytes.

use crate::ctx::Ctx;
use crate::node::{Loc, Text};
use crate::src::Src;
use serdere::{LineColumnPosition, StrPosition, TextReader, TextWriter};
use serdere_json::{DeserializeError, DeserializeErrorMessage, ValueType};
use std::cell::{Cell, RefCell};
use std::io;
use std::rc::Rc;

// ---------------------------------------------------------------------------------------------
// Faults

/// The payload of an injected error, by which it is recognised.
#[derive(Debug)]
pub struct SimFault(pub u64);

impl std::fmt::Display for SimFault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "simulated fault {}", self.0)
    }
}

impl std::error::Error for SimFault {}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Fault {
    /// An error with a payload.
    Kind(io::ErrorKind, u64),
    /// An error made from an operating system error code.
    Os(i32),
    /// (Sinks only.) The sink takes no more bytes.
    Zero,
    /// The source or sink panics.
    Panic,
}

pub const IO_PANIC: &str = "the source or sink panics";

pub const READ_KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotConnected,
];

pub const WRITE_KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WriteZero,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::InvalidData,
    io::ErrorKind::OutOfMemory,
];

/// EIO, ENOSPC, ECONNRESET, EDQUOT, EPIPE
pub const OS_CODES: &[i32] = &[5, 28, 104, 122, 32];

impl Fault {
    pub fn gen_read(s: &mut Src) -> Self {
        if s.chance(1, 5) {
            Fault::Os(s.pick_copy(OS_CODES))
        } else {
            Fault::Kind(s.pick_copy(READ_KINDS), 1 + s.draw(1000))
        }
    }

    pub fn gen_write(s: &mut Src) -> Self {
        match s.weighted(&[6, 2, 2]) {
            0 => Fault::Kind(s.pick_copy(WRITE_KINDS), 1 + s.draw(1000)),
            1 => Fault::Os(s.pick_copy(OS_CODES)),
            _ => Fault::Zero,
        }
    }

    pub fn make(&self) -> io::Error {
        match *self {
            Fault::Kind(kind, id) => io::Error::new(kind, SimFault(id)),
            Fault::Os(code) => io::Error::from_raw_os_error(code),
            Fault::Zero => unreachable!(),
            Fault::Panic => panic!("{IO_PANIC}"),
        }
    }

    /// Is the given error the one this fault injected, unchanged?
    pub fn is(&self, err: &io::Error) -> bool {
        match *self {
            Fault::Kind(kind, id) => {
                err.kind() == kind
                    && err
                        .get_ref()
                        .and_then(|e| e.downcast_ref::<SimFault>())
                        .is_some_and(|f| f.0 == id)
            }
            Fault::Os(code) => err.raw_os_error() == Some(code),
            // Not an error of the sink: any error will do
            Fault::Zero | Fault::Panic => true,
        }
    }

    /// Does the given error carry the one this fault injected?
    pub fn carried_by(&self, err: &(dyn std::error::Error + 'static)) -> bool {
        let mut e = Some(err);
        while let Some(cur) = e {
            if let Some(io) = cur.downcast_ref::<io::Error>() {
                if self.is(io) {
                    return true;
                }
                // An `io::Error` may wrap another one
                if let Some(inner) = io.get_ref() {
                    if let Some(inner) = inner.downcast_ref::<io::Error>() {
                        if self.is(inner) {
                            return true;
                        }
                    }
                }
            }
            e = cur.source();
        }
        false
    }

    pub fn name(&self) -> String {
        match self {
            Fault::Kind(k, _) => format!("{k:?}"),
            Fault::Os(c) => format!("os{c}"),
            Fault::Zero => "zero".to_string(),
            Fault::Panic => "panic".to_string(),
        }
    }
}

/// What an exhausted budget of I/O calls panics with.
pub const BUDGET: &str = "simulated I/O call budget exhausted";

thread_local! {
    static EVENTS: Cell<u64> = const { Cell::new(0) };
}

thread_local! {
    /// A scheduler to which every I/O call on this thread is a scheduling point.
    pub static AT_IO: Cell<Option<fn()>> = const { Cell::new(None) };
}

/// Counts calls into any simulated source or sink.
pub fn event() {
    EVENTS.with(|e| e.set(e.get() + 1));
    if let Some(f) = AT_IO.get() {
        f();
    }
}

pub fn set_events(n: u64) {
    EVENTS.with(|e| e.set(n));
}

/// How many calls into simulated sources and sinks there were so far (on this thread).
pub fn events() -> u64 {
    EVENTS.with(|e| e.get())
}

// ---------------------------------------------------------------------------------------------
// Reading

#[derive(Clone, Debug, Default)]
pub struct ReadPlan {
    /// Byte offsets which a single read never crosses, in order. `None` delivers everything asked
    /// for.
    pub cuts: Vec<usize>,
    /// If not zero, a single read delivers at most this many bytes.
    pub max: usize,
    /// Byte offsets at which reads are interrupted, and how often, in order.
    pub interrupts: Vec<(usize, u32)>,
    /// The error which occurs when the byte at this offset is asked for.
    pub fault: Option<(usize, Fault)>,
    /// Whether the error repeats, or occurs once and the stream then goes on.
    pub sticky: bool,
}

impl ReadPlan {
    /// Fragmentation and interruptions only.
    pub fn gen_delivery(s: &mut Src, len: usize) -> Self {
        let mut p = ReadPlan::default();
        match s.weighted(&[2, 3, 3]) {
            0 => (),
            1 => p.max = s.range(1, 5),
            _ => {
                let n = s.range(1, 8.min(len + 1));
                for _ in 0..n {
                    p.cuts.push(s.below(len + 1));
                }
                p.cuts.sort_unstable();
                p.cuts.dedup();
            }
        }
        let n = match s.weighted(&[2, 3, 2]) {
            0 => 0,
            1 => s.range(1, 3),
            _ => s.range(1, 20),
        };
        for _ in 0..n {
            let at = s.below(len + 1);
            let times = match s.weighted(&[40, 1]) {
                0 => s.pick_copy(&[1, 1, 2, 3, 7]),
                // A storm
                _ => s.range(8, 300) as u32,
            };
            p.interrupts.push((at, times));
        }
        p.interrupts.sort_unstable();
        p.interrupts.dedup_by_key(|x| x.0);
        p
    }
}

/// The observable state of a simulated source, shared with the checks.
#[derive(Default)]
pub struct ReadState {
    /// Bytes handed over.
    pub taken: Cell<usize>,
    /// Times the end of the stream was reported.
    pub eofs: Cell<u64>,
    pub calls: Cell<u64>,
    pub interrupts: Cell<u64>,
    pub faults: Cell<u64>,
    pub splits: Cell<u64>,
    /// Calls made after the fault fired.
    pub after_fault: Cell<u64>,
    /// Calls for bytes which the peer only sends later.
    pub stalls: Cell<u64>,
}

impl ReadState {
    /// How far the source has been asked to go: the bytes taken, one more if the end (or the
    /// fault) was seen.
    pub fn reach(&self) -> usize {
        self.taken.get() + usize::from(self.eofs.get() > 0 || self.faults.get() > 0)
    }

    pub fn count(&self, ctx: &mut Ctx) {
        ctx.stats.ticks += self.calls.get();
        ctx.count("io.read_calls", self.calls.get());
        ctx.count("fault.read_interrupted", self.interrupts.get());
        ctx.count("fault.read_short", self.splits.get());
        ctx.count("fault.read_error", self.faults.get());
        ctx.count("io.read_eof", self.eofs.get());
    }
}

pub struct SimRead {
    data: Rc<[u8]>,
    plan: ReadPlan,
    pos: usize,
    next_interrupt: usize,
    interrupts_left: u32,
    fault_fired: bool,
    budget: u64,
    pub state: Rc<ReadState>,
    /// How many bytes the peer has sent so far.
    pub gate: Option<Rc<Cell<usize>>>,
}

impl SimRead {
    pub fn new(data: &[u8], plan: ReadPlan) -> Self {
        let interrupts: u64 = plan.interrupts.iter().map(|x| u64::from(x.1)).sum();
        let interrupts_left = plan.interrupts.first().map_or(0, |x| x.1);
        Self {
            budget: data.len() as u64 * 2 + interrupts + 4096,
            data: data.into(),
            plan,
            pos: 0,
            next_interrupt: 0,
            interrupts_left,
            fault_fired: false,
            state: Rc::default(),
            gate: None,
        }
    }

    pub fn plain(data: &[u8]) -> Self {
        Self::new(data, ReadPlan::default())
    }
}

fn inc(c: &Cell<u64>) {
    c.set(c.get() + 1);
}

impl io::Read for SimRead {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        event();
        let st = self.state.clone();
        inc(&st.calls);
        if st.calls.get() > self.budget {
            panic!("{BUDGET}");
        }
        if self.fault_fired {
            inc(&st.after_fault);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        while self.next_interrupt < self.plan.interrupts.len() {
            let (at, _) = self.plan.interrupts[self.next_interrupt];
            if at < self.pos || (at == self.pos && self.interrupts_left == 0) {
                self.next_interrupt += 1;
                self.interrupts_left = self
                    .plan
                    .interrupts
                    .get(self.next_interrupt)
                    .map_or(0, |x| x.1);
                continue;
            }
            if at == self.pos {
                self.interrupts_left -= 1;
                inc(&st.interrupts);
                return Err(io::ErrorKind::Interrupted.into());
            }
            break;
        }
        let mut end = self.pos + buf.len();
        if let Some(gate) = &self.gate {
            if self.pos >= gate.get() {
                inc(&st.stalls);
                return Err(io::Error::new(io::ErrorKind::WouldBlock, "stalled"));
            }
            end = end.min(gate.get());
        }
        if let Some((at, fault)) = self.plan.fault {
            if self.pos >= at && (self.plan.sticky || !self.fault_fired) {
                self.fault_fired = true;
                inc(&st.faults);
                return Err(fault.make());
            }
            if !self.fault_fired {
                end = end.min(at);
            }
        }
        end = end.min(self.data.len());
        if end <= self.pos {
            inc(&st.eofs);
            return Ok(0);
        }
        if self.plan.max > 0 {
            end = end.min(self.pos + self.plan.max);
        }
        // Never cross a cut, nor an offset where an interruption is planned
        if let Some(cut) = self.plan.cuts.iter().find(|c| **c > self.pos) {
            end = end.min(*cut);
        }
        if let Some((at, _)) = self.plan.interrupts.get(self.next_interrupt) {
            if *at > self.pos {
                end = end.min(*at);
            }
        }
        let n = end - self.pos;
        if n < buf.len() {
            inc(&st.splits);
        }
        buf[..n].copy_from_slice(&self.data[self.pos..end]);
        self.pos = end;
        st.taken.set(end);
        Ok(n)
    }
}

/// A position in a user-written character reader.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub struct CharPos(pub usize);

impl std::fmt::Display for CharPos {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "at character {}", self.0)
    }
}

/// A user-written character reader, which knows nothing but the required methods.
pub struct SimText {
    chars: Rc<[char]>,
    pos: usize,
    calls: u64,
    fault: Option<(usize, Fault)>,
    error: Option<io::Error>,
    pub consumed: Rc<Cell<usize>>,
}

impl SimText {
    pub fn new(chars: &[char]) -> Self {
        Self {
            chars: chars.into(),
            pos: 0,
            calls: 0,
            fault: None,
            error: None,
            consumed: Rc::default(),
        }
    }

    /// The stream fails instead of delivering the character at the given index.
    pub fn with_fault(mut self, at: usize, fault: Fault) -> Self {
        self.fault = Some((at, fault));
        if at == 0 && fault != Fault::Panic {
            self.error = Some(fault.make());
        }
        self
    }

    fn limit(&self) -> usize {
        self.fault.map_or(self.chars.len(), |f| f.0)
    }
}

impl TextReader for SimText {
    fn next(&mut self) -> Option<char> {
        event();
        self.calls += 1;
        if self.calls > self.chars.len() as u64 * 2 + 4096 {
            panic!("{BUDGET}");
        }
        if self.pos >= self.limit() {
            if let Some((_, Fault::Panic)) = self.fault {
                panic!("{IO_PANIC}");
            }
            return None;
        }
        let ch = self.chars[self.pos];
        self.pos += 1;
        self.consumed.set(self.pos);
        if let Some((at, fault)) = self.fault {
            if at == self.pos && fault != Fault::Panic {
                self.error = Some(fault.make());
            }
        }
        Some(ch)
    }

    fn peek(&self) -> Option<char> {
        if self.pos >= self.limit() {
            return None;
        }
        Some(self.chars[self.pos])
    }

    fn take_error(&mut self) -> Option<io::Error> {
        self.error.take()
    }

    type Position = CharPos;
    fn position(&self) -> CharPos {
        CharPos(self.pos)
    }
}

/// Counts the characters consumed from a reader.
pub struct Counting<T> {
    pub inner: T,
    pub consumed: Rc<Cell<usize>>,
}

impl<T> Counting<T> {
    pub fn new(inner: T) -> Self {
        Self {
            inner,
            consumed: Rc::default(),
        }
    }
}

impl<T: TextReader> TextReader for Counting<T> {
    fn next(&mut self) -> Option<char> {
        event();
        let res = self.inner.next();
        if res.is_some() {
            self.consumed.set(self.consumed.get() + 1);
        }
        res
    }

    fn peek(&self) -> Option<char> {
        self.inner.peek()
    }

    fn take_error(&mut self) -> Option<io::Error> {
        self.inner.take_error()
    }

    type Position = T::Position;
    fn position(&self) -> T::Position {
        self.inner.position()
    }
}

/// Converts what a reader reports as its position to a place in the text.
pub trait ToLoc: std::fmt::Display {
    fn to_loc(&self, text: &Text) -> Loc;
}

impl ToLoc for CharPos {
    fn to_loc(&self, _: &Text) -> Loc {
        Loc::Idx(self.0)
    }
}

impl ToLoc for LineColumnPosition {
    fn to_loc(&self, _: &Text) -> Loc {
        Loc::Lc(self.line, self.column)
    }
}

impl ToLoc for StrPosition<'_> {
    fn to_loc(&self, text: &Text) -> Loc {
        // Positions in the same buffer are ordered
        let (mut lo, mut hi) = (0, text.len());
        while lo <= hi {
            let mid = lo + (hi - lo) / 2;
            let at = (&text.text[text.boff[mid]..]).position();
            match at.cmp(self) {
                std::cmp::Ordering::Less => lo = mid + 1,
                std::cmp::Ordering::Equal => return Loc::Idx(mid),
                std::cmp::Ordering::Greater if mid == 0 => break,
                std::cmp::Ordering::Greater => hi = mid - 1,
            }
        }
        Loc::Idx(usize::MAX)
    }
}

/// What an error says is wrong.
#[derive(Clone, Debug, PartialEq)]
pub enum Says {
    Custom(String),
    Expected(&'static [ValueType]),
    Overflow,
    MissingKey(String),
    ExtraKey(String),
    MissingItems,
    ExtraItems,
    Other,
}

fn says(m: &DeserializeErrorMessage) -> Says {
    use DeserializeErrorMessage as E;
    match m {
        E::Custom(e) => Says::Custom(e.to_string()),
        E::Expected(t) => Says::Expected(t),
        E::NumberOverflow => Says::Overflow,
        E::MissingKey(k) => Says::MissingKey(k.clone()),
        E::ExtraKey(k) => Says::ExtraKey(k.clone()),
        E::MissingItems => Says::MissingItems,
        E::ExcessItems => Says::ExtraItems,
        _ => Says::Other,
    }
}

/// What the text of an error should contain, but does not.
fn unsaid(text: &str, says: &Says, loc: &Loc) -> Option<String> {
    let mut parts = Vec::new();
    match says {
        Says::Custom(t) => parts.push(t.clone()),
        Says::Expected(types) => parts.extend(types.iter().map(|t| {
            match t {
                ValueType::String => "string",
                ValueType::Number => "number",
                ValueType::Object => "object",
                ValueType::Array => "array",
                ValueType::Bool => "bool",
                ValueType::Null => "null",
            }
            .to_string()
        })),
        Says::MissingKey(k) | Says::ExtraKey(k) => parts.push(format!("{k:?}")),
        _ => (),
    }
    if let Loc::Lc(l, c) = loc {
        parts.push(format!("line {}, column {}", l + 1, c + 1));
    }
    parts.into_iter().find(|p| !text.contains(p.as_str()))
}

/// An error with its position in common terms.
#[derive(Clone, Debug, PartialEq)]
pub struct ErrInfo {
    pub loc: Loc,
    pub kind: String,
    pub says: Says,
    /// What its text should contain, but does not.
    pub unsaid: Option<String>,
}

pub fn err_kind(m: &DeserializeErrorMessage) -> String {
    match m {
        DeserializeErrorMessage::Custom(e) => format!("Custom({e})"),
        m => format!("{m:?}"),
    }
}

pub fn err_info<P: ToLoc>(err: &DeserializeError<P>, text: &Text) -> ErrInfo {
    let loc = err.position().to_loc(text);
    let says = says(err.message());
    ErrInfo {
        unsaid: unsaid(&err.to_string(), &says, &loc),
        kind: err_kind(err.message()),
        loc,
        says,
    }
}

// ---------------------------------------------------------------------------------------------
// Writing

#[derive(Clone, Debug, Default)]
pub struct WritePlan {
    /// Byte offsets which a single write never crosses, in order.
    pub cuts: Vec<usize>,
    /// If not zero, a single write takes at most this many bytes.
    pub max: usize,
    /// Byte offsets at which writes are interrupted, and how often, in order.
    pub interrupts: Vec<(usize, u32)>,
    /// What happens when the byte at this offset is written.
    pub fault: Option<(usize, Fault)>,
    pub sticky: bool,
}

impl WritePlan {
    pub fn gen_delivery(s: &mut Src, len: usize) -> Self {
        let p = ReadPlan::gen_delivery(s, len);
        WritePlan {
            cuts: p.cuts,
            max: p.max,
            interrupts: p.interrupts,
            fault: None,
            sticky: false,
        }
    }
}

#[derive(Default)]
pub struct WriteState {
    pub bytes: RefCell<Vec<u8>>,
    /// How many bytes were taken.
    pub taken: Cell<usize>,
    pub calls: Cell<u64>,
    pub flushes: Cell<u64>,
    pub interrupts: Cell<u64>,
    pub faults: Cell<u64>,
    pub splits: Cell<u64>,
    pub after_fault: Cell<u64>,
}

impl WriteState {
    pub fn count(&self, ctx: &mut Ctx) {
        ctx.stats.ticks += self.calls.get();
        ctx.count("io.write_calls", self.calls.get());
        ctx.count("fault.write_interrupted", self.interrupts.get());
        ctx.count("fault.write_short", self.splits.get());
        ctx.count("fault.write_error", self.faults.get());
    }
}

pub struct SimWrite {
    plan: WritePlan,
    next_interrupt: usize,
    interrupts_left: u32,
    fault_fired: bool,
    pub budget: u64,
    /// Keep what is written.
    pub keep: bool,
    pub state: Rc<WriteState>,
}

impl SimWrite {
    pub fn new(plan: WritePlan) -> Self {
        let interrupts_left = plan.interrupts.first().map_or(0, |x| x.1);
        Self {
            plan,
            next_interrupt: 0,
            interrupts_left,
            fault_fired: false,
            budget: 4_000_000,
            keep: true,
            state: Rc::default(),
        }
    }
}

impl io::Write for SimWrite {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        event();
        let st = self.state.clone();
        inc(&st.calls);
        if st.calls.get() > self.budget {
            panic!("{BUDGET}");
        }
        if self.fault_fired {
            inc(&st.after_fault);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let pos = st.taken.get();
        while self.next_interrupt < self.plan.interrupts.len() {
            let (at, _) = self.plan.interrupts[self.next_interrupt];
            if at < pos || (at == pos && self.interrupts_left == 0) {
                self.next_interrupt += 1;
                self.interrupts_left = self
                    .plan
                    .interrupts
                    .get(self.next_interrupt)
                    .map_or(0, |x| x.1);
                continue;
            }
            if at == pos {
                self.interrupts_left -= 1;
                inc(&st.interrupts);
                return Err(io::ErrorKind::Interrupted.into());
            }
            break;
        }
        let mut end = pos + buf.len();
        if let Some((at, fault)) = self.plan.fault {
            if pos >= at && (self.plan.sticky || !self.fault_fired) {
                self.fault_fired = true;
                inc(&st.faults);
                return match fault {
                    Fault::Zero => Ok(0),
                    fault => Err(fault.make()),
                };
            }
            if !self.fault_fired {
                end = end.min(at);
            }
        }
        if self.plan.max > 0 {
            end = end.min(pos + self.plan.max);
        }
        if let Some(cut) = self.plan.cuts.iter().find(|c| **c > pos) {
            end = end.min(*cut);
        }
        if let Some((at, _)) = self.plan.interrupts.get(self.next_interrupt) {
            if *at > pos {
                end = end.min(*at);
            }
        }
        let n = end - pos;
        if n < buf.len() {
            inc(&st.splits);
        }
        st.taken.set(end);
        if self.keep {
            st.bytes.borrow_mut().extend_from_slice(&buf[..n]);
        }
        Ok(n)
    }

    fn flush(&mut self) -> io::Result<()> {
        inc(&self.state.flushes);
        Ok(())
    }
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct TextFault(pub u64);

impl std::fmt::Display for TextFault {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "text sink fault {}", self.0)
    }
}

impl std::error::Error for TextFault {}

/// A user-written text sink, which fails when more than a given number of characters are written
/// to it.
pub struct FailText {
    pub limit: usize,
    pub id: u64,
    pub state: Rc<FailTextState>,
}

#[derive(Default)]
pub struct FailTextState {
    pub text: RefCell<String>,
    pub chars: Cell<usize>,
    pub faults: Cell<u64>,
    pub after_fault: Cell<u64>,
}

impl FailText {
    pub fn new(limit: usize, id: u64) -> Self {
        Self {
            limit,
            id,
            state: Rc::default(),
        }
    }
}

impl TextWriter for FailText {
    type Error = TextFault;

    fn write_char(&mut self, ch: char) -> Result<(), TextFault> {
        event();
        let st = &self.state;
        if st.faults.get() > 0 {
            inc(&st.after_fault);
            return Err(TextFault(self.id));
        }
        if st.chars.get() >= self.limit {
            inc(&st.faults);
            return Err(TextFault(self.id));
        }
        st.chars.set(st.chars.get() + 1);
        st.text.borrow_mut().push(ch);
        Ok(())
    }
}
