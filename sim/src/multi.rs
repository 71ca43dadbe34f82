//! C15: sessions in progress at the same time, against the same sessions alone.
//!
//! A run draws a few sessions, performs each of them alone, and then all of them together under a
//! scheduler: it decides which session performs its next operation, on which thread, and, at every
//! I/O call within an operation, whether (and which) other sessions proceed meanwhile. Threads pass
//! a baton, so that exactly one of them runs at any time.

use crate::ctx::{fail, Ctx, Violation, R};
use crate::dom::Script;
use crate::driver::panic_text;
use crate::io::*;
use crate::node::*;
use crate::rops::{gen_doc, Checks, Lean, Session};
use crate::src::Src;
use crate::wops::{exec, gen_history, History, Shared};
use crate::zoo::{DRIP, DRIPPED};
use serdere::{TextReader, Utf8Reader, Utf8Writer};
use serdere_json::TextSerializer;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::ptr;
use std::rc::Rc;
use std::sync::{Condvar, Mutex};

// ---------------------------------------------------------------------------------------------
// Sessions

/// Something in progress.
trait Task {
    /// Goes on by one operation, unless this has ended.
    fn step(&mut self) -> Option<String>;
}

struct ReadTask<'t, T: TextReader> {
    make: Option<Box<dyn FnOnce() -> R<Session<'t, T>> + 't>>,
    sess: Option<Session<'t, T>>,
    st: Option<Rc<ReadState>>,
    script: Script,
    /// Where choices come from (and how they are kept) if the script has none.
    src: Rc<RefCell<Src>>,
    back: Rc<RefCell<Script>>,
    left: usize,
}

fn told(r: &Result<(), Violation>) -> String {
    match r {
        Ok(()) => String::new(),
        Err(v) => format!(" ({}: {})", v.class, v.msg),
    }
}

impl<T: TextReader> Task for ReadTask<'_, T>
where
    T::Position: ToLoc,
{
    fn step(&mut self) -> Option<String> {
        if self.left == 0 {
            // Abandoned
            self.sess = None;
            self.make = None;
            return None;
        }
        self.left -= 1;
        let mut line;
        if let Some(make) = self.make.take() {
            match make() {
                Ok(s) => {
                    self.sess = Some(s);
                    line = "new".to_string();
                }
                Err(v) => line = format!("new{}", told(&Err(v))),
            }
        } else {
            let sess = self.sess.as_mut()?;
            if sess.over() {
                self.sess = None;
                return None;
            }
            let from = sess.log.len();
            let r = {
                // Draws must not be in progress while others proceed
                let mut src = std::mem::replace(&mut *self.src.borrow_mut(), Src::replay(vec![]));
                let r = catch_unwind(AssertUnwindSafe(|| sess.step(&mut self.script, &mut src)));
                *self.src.borrow_mut() = src;
                *self.back.borrow_mut() = self.script.clone();
                match r {
                    Ok(r) => r,
                    Err(e) => {
                        self.sess = None;
                        return Some(format!("panic: {}", panic_text(&*e)));
                    }
                }
            };
            line = sess.log[from..].join("; ") + &told(&r);
            if r.is_err() {
                self.sess = None;
            }
        }
        if let Some(st) = &self.st {
            line += &format!(" <{} bytes>", st.reach());
        }
        Some(line)
    }
}

enum Sink<'t> {
    Bytes(TextSerializer<Utf8Writer<SimWrite>>, Rc<WriteState>),
    Memory(TextSerializer<Shared>, Shared),
    Not(Box<dyn FnOnce() -> Sink<'t> + 't>),
    Over,
}

struct WriteTask<'t> {
    h: &'t History,
    sink: Sink<'t>,
    next: usize,
    left: usize,
}

impl Task for WriteTask<'_> {
    fn step(&mut self) -> Option<String> {
        if self.left == 0 {
            self.sink = Sink::Over;
            return None;
        }
        self.left -= 1;
        let sink = std::mem::replace(&mut self.sink, Sink::Over);
        let op = self.h.ops.get(self.next);
        self.next += 1;
        match sink {
            Sink::Over => None,
            Sink::Not(make) => {
                self.next = 0;
                self.sink = make();
                Some("new".to_string())
            }
            Sink::Bytes(mut s, st) => {
                let r = match op {
                    Some(op) => {
                        let r = exec(&mut s, op);
                        if r.is_ok() {
                            self.sink = Sink::Bytes(s, st.clone());
                        }
                        r
                    }
                    None => {
                        drop(s.close());
                        Ok(())
                    }
                };
                Some(format!(
                    "{op:?} -> {r:?}: {:?}",
                    String::from_utf8_lossy(&st.bytes.borrow())
                ))
            }
            Sink::Memory(mut s, text) => {
                if let Some(op) = op {
                    match exec(&mut s, op) {
                        Ok(()) => (),
                        Err(e) => match e {},
                    }
                    self.sink = Sink::Memory(s, text.clone());
                } else {
                    drop(s.close());
                }
                let line = format!("{op:?}: {:?}", text.0.borrow());
                Some(line)
            }
        }
    }
}

/// A whole simulated case of another property, as one operation.
struct CaseTask {
    f: fn(&mut Ctx) -> R,
    src: Rc<RefCell<Src>>,
    done: bool,
}

impl Task for CaseTask {
    fn step(&mut self) -> Option<String> {
        if self.done {
            return None;
        }
        self.done = true;
        let src = std::mem::replace(&mut *self.src.borrow_mut(), Src::replay(vec![]));
        let mut ctx = Ctx::new(src, false);
        let r = catch_unwind(AssertUnwindSafe(|| (self.f)(&mut ctx)));
        *self.src.borrow_mut() = ctx.src;
        let r = match r {
            Ok(r) => told(&r),
            Err(e) => format!(" panic: {}", panic_text(&*e)),
        };
        Some(format!("identity {:x}, {} I/O calls{r}", ctx.hash, ctx.stats.ticks))
    }
}

/// What a session does, to be started any number of times.
enum Spec {
    Read {
        doc: Doc,
        lean: Lean,
        kind: usize,
        plan: ReadPlan,
        /// The choices made when it ran alone.
        script: Rc<RefCell<Script>>,
        limit: usize,
    },
    Write {
        h: History,
        memory: bool,
        plan: WritePlan,
        limit: usize,
    },
    Case {
        name: &'static str,
        f: fn(&mut Ctx) -> R,
        /// The choices made when it ran alone.
        choices: RefCell<Vec<u64>>,
    },
}

const CASES: &[(&str, fn(&mut Ctx) -> R)] = &[
    ("C01", crate::stream::c01),
    ("C02", crate::stream::c02),
    ("C03", crate::stream::c03),
    ("C05", crate::c05),
    ("C06", crate::typed::c06),
    ("C07", crate::rops::c07),
    ("C08", crate::c08),
    ("C09", crate::c09),
    ("C10", crate::typed::c10_typed),
    ("C11", crate::c11),
    ("C12", crate::c12),
    ("C13", crate::c13),
    ("C14", crate::names::c14),
    ("C18", crate::form::c18),
    ("C20", crate::rops::c20),
];

impl Spec {
    fn gen(ctx: &mut Ctx) -> Self {
        match ctx.src.weighted(&[4, 3, 3]) {
            0 => {
                let doc = gen_doc(ctx);
                let s = &mut ctx.src;
                let lean = Lean::swarm(s);
                let len = doc.t.text.len();
                let mut plan = if s.chance(1, 2) {
                    ReadPlan::gen_delivery(s, len)
                } else {
                    ReadPlan::default()
                };
                let kind = s.weighted(&[5, 2, 2]);
                if s.chance(1, 8) && len > 0 {
                    let fault = if s.chance(1, 3) { Fault::Panic } else { Fault::gen_read(s) };
                    plan.fault = Some((s.below(len), fault));
                    plan.sticky = s.chance(1, 2);
                    ctx.stats.add(&format!("fault.planned_read_{}", fault.name()), 1);
                }
                let limit = if s.chance(1, 6) { s.range(1, 12) } else { usize::MAX };
                Spec::Read { doc, lean, kind, plan, script: Rc::default(), limit }
            }
            1 => {
                let s = &mut ctx.src;
                let h = gen_history(s);
                let (text, _) = crate::wops::in_memory(&h);
                let mut plan = if s.chance(1, 2) {
                    WritePlan::gen_delivery(s, text.len())
                } else {
                    WritePlan::default()
                };
                if s.chance(1, 8) && !text.is_empty() {
                    let fault = if s.chance(1, 3) { Fault::Panic } else { Fault::gen_write(s) };
                    plan.fault = Some((s.below(text.len()), fault));
                    plan.sticky = true;
                    ctx.stats.add(&format!("fault.planned_write_{}", fault.name()), 1);
                }
                let limit = if s.chance(1, 6) { s.range(1, 12) } else { usize::MAX };
                Spec::Write { h, memory: s.chance(1, 3), plan, limit }
            }
            _ => {
                let (name, f) = CASES[ctx.src.below(CASES.len())];
                Spec::Case { name, f, choices: RefCell::default() }
            }
        }
    }

    fn show(&self) -> String {
        match self {
            Spec::Read { doc, kind, plan, limit, .. } => format!(
                "reads {:?} (comments: {}) from {}, {plan:?}{}",
                doc.t.text,
                doc.comments,
                ["a byte stream", "in-memory text", "a character reader"][*kind],
                if *limit < usize::MAX { format!(", abandoned after {limit}") } else { String::new() }
            ),
            Spec::Write { h, memory, plan, limit } => format!(
                "writes (indent {:?}) to {}{}: {:?}",
                h.indent,
                if *memory { "memory".to_string() } else { format!("a byte sink, {plan:?}") },
                if *limit < usize::MAX { format!(", abandoned after {limit}") } else { String::new() },
                h.ops
            ),
            Spec::Case { name, .. } => format!("a case of {name}"),
        }
    }

    /// Starts the session; choices not made yet are taken from `src`.
    fn start<'t>(&'t self, src: &Rc<RefCell<Src>>) -> Box<dyn Task + 't> {
        match self {
            Spec::Read { doc, lean, kind, plan, script, limit } => {
                let mut sc = script.borrow().clone();
                sc.rewind();
                macro_rules! task {
                    ($st:expr, $make:expr) => {
                        Box::new(ReadTask {
                            make: Some(Box::new($make)),
                            sess: None,
                            st: $st,
                            script: sc,
                            src: src.clone(),
                            back: script.clone(),
                            left: *limit,
                        })
                    };
                }
                let lean = *lean;
                let checks = Checks { values: true, ..Default::default() };
                match kind {
                    0 => {
                        let source = SimRead::new(doc.t.text.as_bytes(), plan.clone());
                        let st = source.state.clone();
                        task!(Some(st), move || {
                            let r = Utf8Reader::new(source).map_err(|e| Violation {
                                class: "construct".into(),
                                msg: e.to_string(),
                            })?;
                            let r = Counting::new(r);
                            let n = r.consumed.clone();
                            Session::new(r, doc, lean, checks, n, None, None)
                        })
                    }
                    1 => task!(None, move || {
                        let r = Counting::new(doc.t.text.as_str());
                        let n = r.consumed.clone();
                        Session::new(r, doc, lean, checks, n, None, None)
                    }),
                    _ => {
                        let mut r = SimText::new(&doc.t.chars);
                        if let Some((at, fault)) = plan.fault {
                            r = r.with_fault(at.min(doc.t.len()), fault);
                        }
                        task!(None, move || {
                            let n = r.consumed.clone();
                            Session::new(r, doc, lean, checks, n, None, None)
                        })
                    }
                }
            }
            Spec::Write { h, memory, plan, limit } => Box::new(WriteTask {
                h,
                sink: Sink::Not(Box::new(move || {
                    if *memory {
                        let text = Shared::default();
                        Sink::Memory(TextSerializer::new(h.config(), text.clone()), text)
                    } else {
                        let sink = SimWrite::new(plan.clone());
                        let st = sink.state.clone();
                        Sink::Bytes(TextSerializer::new(h.config(), Utf8Writer::new(sink)), st)
                    }
                })),
                next: 0,
                left: *limit,
            }),
            Spec::Case { f, choices, .. } => {
                let c = choices.borrow().clone();
                let src = if c.is_empty() {
                    src.clone()
                } else {
                    Rc::new(RefCell::new(Src::replay(c)))
                };
                Box::new(CaseTask { f: *f, src, done: false })
            }
        }
    }
}

// ---------------------------------------------------------------------------------------------
// The scheduler

#[derive(Clone, Copy, PartialEq, Eq)]
enum Worker {
    /// Waits for an order.
    Idle,
    Running,
    /// Waits inside an I/O call.
    Suspended,
}

struct Sched<'t> {
    tasks: Vec<RefCell<Box<dyn Task + 't>>>,
    busy: Vec<Cell<bool>>,
    done: Vec<Cell<bool>>,
    logs: Vec<RefCell<Vec<String>>>,
    src: RefCell<Src>,
    /// Out of 64: how often an I/O call is an occasion for others.
    rate: usize,
    /// How many operations may be in progress on one thread.
    deepest: usize,
    workers: Vec<Cell<Worker>>,
    orders: Vec<Cell<Option<usize>>>,
    /// Who has the baton, `usize::MAX` at the end.
    turn: Mutex<usize>,
    turns: Vec<Condvar>,
    nested: Cell<u64>,
    switches: Cell<u64>,
    trace: Option<RefCell<Vec<String>>>,
    hash: Cell<u64>,
}

thread_local! {
    /// The scheduler, which worker this is, and how many operations are in progress on it.
    static SCHED: Cell<(*const Sched<'static>, usize, usize)> = const { Cell::new((ptr::null(), 0, 0)) };
}

fn at_io() {
    let (p, me, depth) = SCHED.get();
    if p.is_null() || depth == 0 || std::thread::panicking() {
        return;
    }
    // The scheduler outlives all sessions, and only the thread with the baton gets here
    let sched: &Sched<'static> = unsafe { &*p };
    sched.occasion(me, depth);
}

impl<'t> Sched<'t> {
    fn note(&self, what: impl FnOnce() -> String, id: u64) {
        self.hash.set((self.hash.get() ^ id).wrapping_mul(0x100000001b3));
        if let Some(t) = &self.trace {
            t.borrow_mut().push(what());
        }
    }

    fn free(&self) -> Vec<usize> {
        (0..self.tasks.len())
            .filter(|i| !self.busy[*i].get() && !self.done[*i].get())
            .collect()
    }

    fn others(&self, me: usize, is: Worker) -> Vec<usize> {
        (0..self.workers.len())
            .filter(|w| *w != me && self.workers[*w].get() == is)
            .collect()
    }

    fn draw(&self, n: usize) -> usize {
        self.src.borrow_mut().below(n)
    }

    /// Performs an operation of a session on this thread.
    fn step(&self, t: usize, me: usize) {
        let (p, _, depth) = SCHED.get();
        SCHED.set((p, me, depth + 1));
        self.busy[t].set(true);
        let mut task = self.tasks[t].borrow_mut();
        self.note(
            || format!("{}thread {me}: session {t} goes on", "  ".repeat(depth)),
            (t * 64 + me * 8 + depth) as u64,
        );
        let r = catch_unwind(AssertUnwindSafe(|| task.step()));
        let line = match r {
            Ok(line) => line,
            Err(e) => {
                self.done[t].set(true);
                Some(format!("panic: {}", panic_text(&*e)))
            }
        };
        match line {
            Some(line) => {
                if self.trace.is_some() {
                    self.note(|| format!("{}  session {t}: {line}", "  ".repeat(depth)), 0);
                }
                self.logs[t].borrow_mut().push(line);
            }
            None => self.done[t].set(true),
        }
        self.busy[t].set(false);
        SCHED.set((p, me, depth));
    }

    /// Something is in the middle of an I/O call. Others may proceed meanwhile.
    fn occasion(&self, me: usize, depth: usize) {
        if self.draw(64) + self.rate < 64 {
            return;
        }
        let (events, drip, dripped) = (events(), DRIP.get(), DRIPPED.get());
        loop {
            let free = self.free();
            let idle = self.others(me, Worker::Idle);
            let asleep = self.others(me, Worker::Suspended);
            let mut acts = Vec::new();
            if !free.is_empty() {
                if depth < self.deepest {
                    acts.extend(free.iter().map(|t| (me, Some(*t))));
                }
                for w in idle {
                    acts.push((w, Some(free[self.draw(free.len())])));
                }
            }
            acts.extend(asleep.iter().map(|w| (*w, None)));
            if acts.is_empty() {
                break;
            }
            let (w, t) = acts[self.draw(acts.len())];
            if w == me {
                self.nested.set(self.nested.get() + 1);
                let t = t.expect("a session");
                self.step(t, me);
            } else {
                self.orders[w].set(t);
                self.hand(me, w, Worker::Suspended);
            }
            if self.draw(3) < 2 {
                break;
            }
        }
        set_events(events);
        DRIP.set(drip);
        DRIPPED.set(dripped);
    }

    /// Passes the baton and waits to get it back.
    fn hand(&self, me: usize, to: usize, waiting: Worker) {
        self.switches.set(self.switches.get() + 1);
        self.note(|| format!("thread {me} waits for thread {to}"), (512 + me * 8 + to) as u64);
        self.workers[me].set(waiting);
        self.pass(to);
        self.wait(me);
    }

    fn pass(&self, to: usize) {
        let mut turn = self.turn.lock().expect("baton");
        *turn = to;
        if to == usize::MAX {
            for c in &self.turns {
                c.notify_all();
            }
        } else {
            self.turns[to].notify_all();
        }
    }

    /// Waits for the baton. Returns `false` at the end.
    fn wait(&self, me: usize) -> bool {
        let mut turn = self.turn.lock().expect("baton");
        while *turn != me && *turn != usize::MAX {
            turn = self.turns[me].wait(turn).expect("baton");
        }
        if *turn == usize::MAX {
            return false;
        }
        drop(turn);
        self.workers[me].set(Worker::Running);
        true
    }

    fn work(&self, me: usize) {
        SCHED.set((ptr::from_ref(self).cast(), me, 0));
        AT_IO.set(Some(at_io));
        if self.wait(me) {
            self.go(me);
        }
        AT_IO.set(None);
        SCHED.set((ptr::null(), 0, 0));
    }

    fn go(&self, me: usize) {
        loop {
            if let Some(t) = self.orders[me].take() {
                self.step(t, me);
            }
            let free = self.free();
            let asleep = self.others(me, Worker::Suspended);
            let idle = self.others(me, Worker::Idle);
            let mut acts: Vec<(usize, Option<usize>)> = asleep.iter().map(|w| (*w, None)).collect();
            if !free.is_empty() {
                acts.extend(free.iter().map(|t| (me, Some(*t))));
                for w in idle {
                    acts.push((w, Some(free[self.draw(free.len())])));
                }
            }
            if acts.is_empty() {
                self.pass(usize::MAX);
                return;
            }
            let (w, t) = acts[self.draw(acts.len())];
            self.orders[w].set(t);
            if w != me {
                self.switches.set(self.switches.get() + 1);
                self.note(|| format!("thread {me} makes way for thread {w}"), (512 + me * 8 + w) as u64);
                self.workers[me].set(Worker::Idle);
                self.pass(w);
                if !self.wait(me) {
                    return;
                }
            }
        }
    }
}

/// A reference which another thread gets along with the baton.
struct Lent<'s, 't>(&'s Sched<'t>);
// SAFETY: exactly one thread, the one with the baton, uses what is inside at any time, and the
// baton's mutex orders their accesses.
unsafe impl Send for Lent<'_, '_> {}

impl Lent<'_, '_> {
    fn work(self, me: usize) {
        self.0.work(me);
    }
}

pub fn c15(ctx: &mut Ctx) -> R {
    let crowd = ctx.src.chance(1, 150);
    let n = if crowd { ctx.src.range(6, 70) } else { ctx.src.range(2, 5) };
    let specs: Vec<Spec> = (0..n).map(|_| Spec::gen(ctx)).collect();
    // Each alone
    let mut alone: Vec<Vec<String>> = Vec::new();
    for (i, spec) in specs.iter().enumerate() {
        ctx.log(|| format!("session {i} {}", spec.show()));
        ctx.note(spec.show().as_bytes());
        let from = ctx.src.log.len();
        let src = std::mem::replace(&mut ctx.src, Src::replay(vec![]));
        let src = Rc::new(RefCell::new(src));
        let mut task = spec.start(&src);
        let mut log = Vec::new();
        let r = catch_unwind(AssertUnwindSafe(|| {
            while let Some(line) = task.step() {
                log.push(line);
            }
        }));
        if let Err(e) = r {
            log.push(format!("panic: {}", panic_text(&*e)));
        }
        drop(task);
        ctx.src = src.replace(Src::replay(vec![]));
        if let Spec::Case { choices, .. } = spec {
            *choices.borrow_mut() = ctx.src.log[from..].to_vec();
            // Never taken for not being there
            choices.borrow_mut().push(0);
        }
        for l in &log {
            ctx.log(|| format!("   alone: {l}"));
            ctx.note(l.as_bytes());
        }
        alone.push(log);
    }
    // All of them
    let workers = match ctx.src.weighted(&[5, 1]) {
        0 => 1,
        _ => ctx.src.range(2, 3),
    };
    let rate = ctx.src.pick_copy(&[4, 0, 1, 16, 48]);
    let deepest = if crowd { ctx.src.range(1, 24) } else { 3 };
    let none = Rc::new(RefCell::new(Src::replay(vec![])));
    let sched = Sched {
        tasks: specs.iter().map(|s| RefCell::new(s.start(&none))).collect(),
        busy: vec![Cell::new(false); n],
        done: vec![Cell::new(false); n],
        logs: (0..n).map(|_| RefCell::default()).collect(),
        src: RefCell::new(std::mem::replace(&mut ctx.src, Src::replay(vec![]))),
        rate,
        deepest,
        workers: vec![Cell::new(Worker::Idle); workers],
        orders: vec![Cell::new(None); workers],
        turn: Mutex::new(0),
        turns: (0..workers).map(|_| Condvar::new()).collect(),
        nested: Cell::new(0),
        switches: Cell::new(0),
        trace: ctx.trace.is_some().then(RefCell::default),
        hash: Cell::new(0xcbf29ce484222325),
    };
    std::thread::scope(|scope| {
        for w in 1..workers {
            let lent = Lent(&sched);
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn_scoped(scope, move || lent.work(w))
                .expect("thread");
        }
        sched.work(0);
    });
    let Sched { tasks, logs, src, nested, switches, trace, hash, .. } = sched;
    drop(tasks);
    ctx.src = src.into_inner();
    for l in trace.map(RefCell::into_inner).unwrap_or_default() {
        ctx.log(|| l);
    }
    ctx.note(&hash.get().to_le_bytes());
    let steps: usize = logs.iter().map(|l| l.borrow().len()).sum();
    ctx.stats.ticks += steps as u64;
    ctx.count("io.operations", steps as u64);
    ctx.count("probe.operations_within_io_of_others", nested.get());
    ctx.count("probe.thread_switches", switches.get());
    ctx.count(&format!("probe.runs_on_{workers}_threads"), 1);
    if crowd {
        ctx.count("probe.crowd", 1);
    }
    if steps > n {
        ctx.nontrivial = true;
    }
    for (i, alone) in alone.iter().enumerate() {
        let log = logs[i].borrow();
        let at = (0..alone.len().max(log.len())).find(|j| alone.get(*j) != log.get(*j));
        if let Some(at) = at {
            let none = "(nothing)".to_string();
            return fail(
                "interference",
                format!(
                    "session {i}, operation {at}: alone {}, among others {}",
                    alone.get(at).unwrap_or(&none),
                    log.get(at).unwrap_or(&none)
                ),
            );
        }
    }
    Ok(())
}
