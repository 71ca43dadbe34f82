//! C19: how much memory a session holds.
//!
//! Every allocation of the process goes through a counting allocator (per thread). What a session
//! holds is measured around the calls into the library only, so that it does not matter what the
//! simulator keeps for itself.

use crate::ctx::{fail, Ctx, R};
use crate::dom::{Script, MAX_TAG, TAGS};
use crate::ensure;
use crate::io::{Fault, ReadPlan, SimRead, SimText, SimWrite, WritePlan};
use crate::node::{
    gen_node, gen_num_text, gen_string, render, GenOpts, Node, Style,
};
use crate::src::Src;
use crate::typed::{render_sample, Freedom};
use crate::wops::{exec, gen_ops};
use crate::zoo::{with_sample, Job, Wire};
use serdere::{Deserialize, Deserializer, Outliner, Serialize, Serializer, TextReader, Utf8Reader, Utf8Writer, Value};
use serdere_json::{Collection, ValueDeserializerExt, ValueExt,
    JsonDeserializer, JsonOutliner, JsonSerializer, TextDeserializer, TextDeserializerConfig,
    TextSerializer, TextSerializerConfig,
};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

// ---------------------------------------------------------------------------------------------
// The allocator

pub struct Counted;

thread_local! {
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

fn grew(by: isize) {
    let live = LIVE.get() + by;
    LIVE.set(live);
    if live > PEAK.get() {
        PEAK.set(live);
    }
}

// SAFETY: Everything is passed on to the system's allocator
unsafe impl GlobalAlloc for Counted {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc(layout);
        if !p.is_null() {
            grew(layout.size() as isize);
        }
        p
    }

    unsafe fn alloc_zeroed(&self, layout: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(layout);
        if !p.is_null() {
            grew(layout.size() as isize);
        }
        p
    }

    unsafe fn realloc(&self, p: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let q = System.realloc(p, layout, new);
        if !q.is_null() {
            grew(new as isize - layout.size() as isize);
        }
        q
    }

    unsafe fn dealloc(&self, p: *mut u8, layout: Layout) {
        System.dealloc(p, layout);
        LIVE.set(LIVE.get() - layout.size() as isize);
    }
}

#[global_allocator]
static ALLOCATOR: Counted = Counted;

/// Bytes this thread has allocated and not released.
pub fn live() -> isize {
    LIVE.get()
}

/// What the library holds, and the most it has held since `rest`.
#[derive(Default, Clone, Copy, Debug)]
struct Meter {
    held: isize,
    peak: isize,
    calls: u64,
}

impl Meter {
    /// Carries out a call into the library (or releases something it returned).
    fn on<T>(&mut self, f: impl FnOnce() -> T) -> T {
        let before = LIVE.get();
        PEAK.set(before);
        let res = f();
        self.peak = self.peak.max(self.held + PEAK.get() - before);
        self.held += LIVE.get() - before;
        self.calls += 1;
        res
    }

    fn rest(&mut self) {
        self.peak = self.held;
    }
}

// ---------------------------------------------------------------------------------------------
// Nothing stays behind

/// The scenario of another property is carried out again, and everything must be released.
fn released(ctx: &mut Ctx) -> R {
    let props = crate::PROPS;
    let k = ctx.src.below(props.len());
    let p = &props[k];
    // C15 has threads of its own, which the counters of this one do not see
    if matches!(p.id, "C15" | "C19") {
        return Ok(());
    }
    ctx.log(|| format!("the scenario of {}", p.id));
    ctx.note_n(k);
    let start = ctx.src.log.len();
    // Carried out once for its choices, and for what is made only once
    {
        let src = std::mem::replace(&mut ctx.src, Src::replay(Vec::new()));
        let mut sub = Ctx::new(src, false);
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut sub)));
        ctx.nontrivial = sub.nontrivial;
        ctx.hash ^= sub.hash.rotate_left(17);
        ctx.stats.ticks += sub.stats.ticks;
        for (name, n) in &sub.stats.counters {
            if name.starts_with("fault.") || name.starts_with("io.") {
                ctx.stats.add(name, *n);
            }
        }
        ctx.src = sub.src;
        if sub.stats.counters.contains_key("probe.deep_nesting") {
            // Likewise
            return Ok(());
        }
    }
    let choices = ctx.src.log[start..].to_vec();
    let mut left = [0; 2];
    for left in &mut left {
        let choices = choices.clone();
        crate::driver::forget_panic();
        let before = live();
        {
            // (The list of choices is the only thing from before)
            let mut sub = Ctx::new(Src::replay(choices), false);
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(&mut sub)));
            crate::driver::forget_panic();
            sub.src = Src::replay(Vec::new());
        }
        *left = live() - before;
    }
    let own = (choices.capacity() * std::mem::size_of::<u64>()) as isize;
    let left = left.map(|l| l + own);
    ctx.log(|| format!("left behind: {left:?} bytes"));
    ensure!(
        left[0] <= 0 || left[1] <= 0,
        "kept",
        "after the scenario of {} was over, {} bytes were still allocated, and {} after it was \
         carried out again",
        p.id,
        left[0],
        left[1]
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// A reader which keeps nothing

/// The session is over.
struct Over;

/// Reads values of known shape, measuring every call.
struct Walk<'a> {
    script: Script,
    src: &'a mut Src,
    m: Meter,
    /// Everything is requested in document order, and nothing that is not there.
    in_order: bool,
    /// Strings are only read piecewise or skipped, and the same is done with every item of a
    /// collection.
    pieces: bool,
    /// Another key that may be requested, and is not there.
    absent: Option<String>,
    /// Operations left until the session is abandoned.
    left: u64,
    /// The most the session may hold after the given number of bytes was taken.
    taken: Box<dyn Fn() -> usize>,
    bound: Option<fn(usize) -> isize>,
    broken: Option<(isize, usize)>,
}

/// What a session may hold in all, however little it has read.
const BASE: isize = 64 << 10;
/// What a session may hold for every byte it has read.
const PER_BYTE: isize = 256;

fn bound(taken: usize) -> isize {
    BASE + PER_BYTE * taken as isize
}

macro_rules! lib {
    ($w:ident, $e:expr) => {{
        $w.step()?;
        let r = $w.m.on(|| $e);
        $w.look();
        match r {
            Ok(v) => v,
            Err(e) => {
                $w.m.on(|| drop(e));
                return Err(Over);
            }
        }
    }};
}

impl Walk<'_> {
    fn step(&mut self) -> Result<(), Over> {
        if self.left == 0 {
            return Err(Over);
        }
        self.left -= 1;
        Ok(())
    }

    fn look(&mut self) {
        if let Some(bound) = self.bound {
            let taken = (self.taken)();
            if self.m.peak > bound(taken) && self.broken.is_none() {
                self.broken = Some((self.m.peak, taken));
            }
        }
    }

    fn below(&mut self, n: usize) -> usize {
        self.script.below(self.src, n)
    }

    fn weighted(&mut self, w: &[usize]) -> usize {
        self.script.weighted(self.src, w)
    }

    fn str_rest<R: TextReader>(&mut self, d: &mut TextDeserializer<R>) -> Result<(), Over> {
        let how = if self.pieces { self.below(2) } else { self.below(4) };
        match how {
            0 => lib!(self, d.skip_str()),
            1 => while lib!(self, d.next_char()).is_some() {},
            2 => {
                lib!(self, d.flush_str().map(|s| s.len()));
            }
            _ => {
                for _ in 0..1 + self.below(3) {
                    if lib!(self, d.next_char()).is_none() {
                        return Ok(());
                    }
                }
                if self.below(2) == 0 {
                    lib!(self, d.skip_str());
                } else {
                    lib!(self, d.flush_str().map(|s| s.len()));
                }
            }
        }
        Ok(())
    }

    fn value<R: TextReader>(
        &mut self,
        d: &mut TextDeserializer<R>,
        node: &Node,
    ) -> Result<(), Over> {
        match self.weighted(&[2, 6, 1]) {
            0 => {
                let inner = matches!(node, Node::Arr(_) | Node::Obj(_));
                let entries = matches!(node, Node::Obj(_));
                match self.below(6) {
                    0 => lib!(self, Value::with(d, |v| v.skip())),
                    1 | 2 if inner => lib!(self, Value::with(d, |v| each(v.into_collection()?))),
                    3 if entries => lib!(self, Value::with(d, |v| {
                        let mut obj = v.into_object()?;
                        while let Some(entry) = obj.next_entry()? {
                            entry.value()?.skip()?;
                        }
                        Ok(())
                    })),
                    3 if inner => lib!(self, Value::with(d, |v| each(v.into_list()?.into()))),
                    _ => lib!(self, d.skip_value()),
                }
                return Ok(());
            }
            2 => {
                if lib!(self, d.check_null()) {
                    return Ok(());
                }
            }
            _ => (),
        }
        match node {
            Node::Null => lib!(self, d.pop_null()),
            Node::Bool(_) => {
                lib!(self, d.get_bool());
            }
            Node::Num(_) => match self.below(8) {
                0 => {
                    lib!(self, d.get_f32());
                }
                1 if !self.in_order => {
                    lib!(self, d.get_u64());
                }
                2 if !self.in_order => {
                    lib!(self, d.get_i8());
                }
                _ => {
                    lib!(self, d.get_f64());
                }
            },
            Node::Str(_) => match self.below(6) {
                0 if !self.pieces => {
                    lib!(self, Value::with(d, |v| v.get_str().map(|s| s.len())));
                }
                1 if !self.in_order || self.pieces => {
                    lib!(self, d.get_tag(MAX_TAG, TAGS));
                }
                2 if !self.in_order => {
                    lib!(self, d.get_char());
                }
                _ => {
                    lib!(self, d.open_str());
                    self.str_rest(d)?;
                }
            },
            Node::Arr(items) => self.array(d, items)?,
            Node::Obj(entries) => self.object(d, entries)?,
        }
        Ok(())
    }

    fn array<R: TextReader>(
        &mut self,
        d: &mut TextDeserializer<R>,
        items: &[Node],
    ) -> Result<(), Over> {
        match self.below(4) {
            0 => {
                lib!(self, d.open_tuple(None));
                let mark = self.script.mark();
                for item in items {
                    lib!(self, d.push_element());
                    if self.pieces {
                        self.script.back(mark);
                    }
                    self.value(d, item)?;
                }
                lib!(self, d.close_tuple());
            }
            1 => {
                lib!(self, d.open_struct(None));
                let mark = self.script.mark();
                for item in items {
                    lib!(self, d.push_field("any"));
                    if self.pieces {
                        self.script.back(mark);
                    }
                    self.value(d, item)?;
                }
                lib!(self, d.close_struct());
            }
            _ => {
                lib!(self, d.open_list());
                let mark = self.script.mark();
                let mut items = items.iter();
                while lib!(self, d.next_item()) {
                    if self.pieces {
                        self.script.back(mark);
                    }
                    match items.next() {
                        Some(item) => self.value(d, item)?,
                        None => lib!(self, d.skip_value()),
                    }
                }
            }
        }
        Ok(())
    }

    fn object<R: TextReader>(
        &mut self,
        d: &mut TextDeserializer<R>,
        entries: &[(String, Node)],
    ) -> Result<(), Over> {
        let fields = !self.in_order || entries.iter().all(|(k, _)| fixed(k).is_some());
        let by_field = fields && self.below(3) == 0;
        if by_field {
            lib!(self, d.open_struct(None));
        } else {
            lib!(self, d.open_object());
        }
        let mut open: Vec<&(String, Node)> = entries.iter().collect();
        // Entries requested by key (a long key may be gathered in order to compare it)
        let asked = match self.below(3) {
            0 => 0,
            _ if self.pieces && entries.iter().any(|(key, _)| key.len() >= 60) => 0,
            1 => open.len(),
            _ if self.pieces => open.len(),
            _ => self.below(open.len() + 1),
        };
        let mark = self.script.mark();
        for i in 0..asked {
            if self.pieces {
                self.script.back(mark);
            }
            if self.in_order {
                let (key, node) = entries_at(entries, i);
                match fixed(key) {
                    Some(name) if by_field => lib!(self, d.push_field(name)),
                    _ if self.below(2) == 0 => lib!(self, d.push_entry(key)),
                    _ => {
                        if !lib!(self, d.try_push_entry(key)) {
                            continue;
                        }
                    }
                }
                open.remove(0);
                self.value(d, node)?;
                continue;
            }
            // Whatever comes to mind
            let absent = open.is_empty() || self.below(4) == 0;
            let other = self.absent.clone().filter(|_| absent && self.below(2) == 0);
            if let Some(key) = &other {
                if self.below(2) == 0 {
                    lib!(self, d.push_entry(key));
                    continue;
                }
            }
            let (key, node) = if absent {
                (other.as_deref().unwrap_or("absent"), &Node::Null)
            } else {
                let k = self.below(open.len());
                let (key, node) = open.remove(k);
                (key.as_str(), node)
            };
            match fixed(key) {
                Some(name) if by_field || self.below(4) == 0 => lib!(self, d.push_field(name)),
                _ => {
                    if !lib!(self, d.try_push_entry(key)) {
                        continue;
                    }
                }
            }
            self.value(d, node)?;
        }
        if asked == entries.len() && by_field && self.in_order {
            lib!(self, d.close_struct());
            return Ok(());
        }
        // (a walk which goes astray between equal keys may have opened an array by `open_struct`)
        match if by_field && !self.in_order { 0 } else { self.below(4) } {
            0 if by_field => lib!(self, d.close_struct()),
            0 => lib!(self, d.skip_object()),
            1 if open.is_empty() => lib!(self, d.close_object()),
            _ => {
                let mark = self.script.mark();
                while lib!(self, d.next_entry()) {
                    if self.pieces {
                        self.script.back(mark);
                    }
                    let next = if self.in_order || self.below(2) == 0 {
                        self.str_rest(d)?;
                        (!open.is_empty()).then_some(0)
                    } else {
                        let key = lib!(self, d.flush_str().map(|s| s.into_owned()));
                        let found = open.iter().position(|(k, _)| *k == key);
                        self.m.on(|| drop(key));
                        found
                    };
                    match next {
                        Some(i) => {
                            let (_, node) = open.remove(i);
                            self.value(d, node)?
                        }
                        None => lib!(self, d.skip_value()),
                    }
                }
            }
        }
        Ok(())
    }
}

fn entries_at(entries: &[(String, Node)], i: usize) -> (&str, &Node) {
    (&entries[i].0, &entries[i].1)
}

const NAMES: &[&str] = &[
    "a", "b", "ab", "abc", "type", "name", "value", "absent", "x y", "k\"q", "\u{e9}",
    "\u{1f600}", "tab\t", "key0", "key1", "",
];

/// The given key as the name of a field.
fn fixed(key: &str) -> Option<&'static str> {
    NAMES.iter().copied().find(|n| *n == key)
}

/// Skips all that is in a collection.
fn each<D: JsonDeserializer>(mut c: Collection<D>) -> Result<(), D::Error> {
    while let Some(v) = c.next()? {
        v.skip()?;
    }
    Ok(())
}

/// Gives an object's keys names that may be those of fields.
fn rename(s: &mut Src, node: &mut Node) {
    match node {
        Node::Arr(items) => items.iter_mut().for_each(|n| rename(s, n)),
        Node::Obj(entries) => {
            let named = s.chance(1, 2);
            let from = s.below(NAMES.len());
            for (i, (key, n)) in entries.iter_mut().enumerate() {
                if named && i < NAMES.len() {
                    *key = NAMES[(from + i) % NAMES.len()].to_string();
                }
                rename(s, n);
            }
        }
        _ => (),
    }
}

/// Something to do with a reader of any kind.
trait Reading {
    fn go<R: TextReader>(&mut self, reader: R, taken: Box<dyn Fn() -> usize>);
}

/// Puts the text behind a drawn kind of reader.
fn with_reader(ctx: &mut Ctx, text: &str, plan: &ReadPlan, via: usize, job: &mut impl Reading) {
    let len = text.len();
    match via {
        0 | 1 => {
            let source = SimRead::new(text.as_bytes(), plan.clone());
            let st = source.state.clone();
            let taken = {
                let st = st.clone();
                Box::new(move || st.taken.get())
            };
            if via == 0 {
                if let Ok(r) = Utf8Reader::new(source) {
                    job.go(r, taken);
                }
            } else {
                let source = std::io::BufReader::with_capacity(16, source);
                if let Ok(r) = Utf8Reader::new(source) {
                    job.go(r, taken);
                }
            }
            st.count(ctx);
        }
        2 => job.go(text, Box::new(move || len)),
        _ => {
            let chars: Vec<char> = text.chars().collect();
            let mut r = SimText::new(&chars);
            if let Some((at, fault)) = plan.fault {
                r = r.with_fault(at.min(chars.len()), fault);
            }
            let n = r.consumed.clone();
            job.go(r, Box::new(move || n.get()));
        }
    }
}

const VIAS: [&str; 4] = [
    "byte stream",
    "buffered byte stream",
    "in-memory text",
    "character reader",
];

fn config(comments: bool) -> TextDeserializerConfig {
    if comments {
        TextDeserializerConfig::permissive()
    } else {
        TextDeserializerConfig::strict()
    }
}

// ---------------------------------------------------------------------------------------------
// Memory is in proportion to what was read

struct Any<'w, 's> {
    walk: &'w mut Walk<'s>,
    node: &'w Node,
    comments: bool,
}

impl Reading for Any<'_, '_> {
    fn go<R: TextReader>(&mut self, reader: R, taken: Box<dyn Fn() -> usize>) {
        let w = &mut *self.walk;
        w.taken = taken;
        let comments = self.comments;
        match w.m.on(|| TextDeserializer::new(config(comments), reader)) {
            Ok(mut d) => {
                w.look();
                if w.value(&mut d, self.node).is_ok() {
                    if let Err(e) = w.m.on(|| d.close()) {
                        w.m.on(|| drop(e));
                    }
                } else {
                    w.m.on(|| drop(d));
                }
            }
            Err(e) => w.m.on(|| drop(e)),
        }
    }
}

fn proportion(ctx: &mut Ctx) -> R {
    let comments = ctx.src.chance(1, 5);
    let mut node = {
        let mut o = GenOpts::swarm(&mut ctx.src);
        gen_node(&mut ctx.src, &mut o, 0)
    };
    rename(&mut ctx.src, &mut node);
    let style = Style::swarm(&mut ctx.src, comments);
    // Something that must be held back in the way of something else
    let mut text = String::new();
    if ctx.src.chance(1, 2) {
        let n = ctx.src.pick_copy(&[10, 100, 1000, 4000, 20000]);
        let bulk = match ctx.src.below(7) {
            0 => Node::Arr(vec![Node::Num("1".into()); n]),
            1 => Node::Str("x".repeat(n)),
            2 => Node::Num("7".repeat(n)),
            3 => Node::Obj((0..n / 8).map(|i| (format!("{i}"), Node::Null)).collect()),
            4 => Node::Arr(vec![Node::Str(String::new()); n]),
            5 => Node::Arr(vec![Node::Obj(Vec::new()); n / 2]),
            _ => {
                let mut deep = Node::Null;
                for i in 0..n.min(2000) {
                    deep = if i % 3 == 0 {
                        Node::Obj(vec![("".into(), deep)])
                    } else {
                        Node::Arr(vec![deep])
                    };
                }
                deep
            }
        };
        let wanted = node;
        node = Node::Obj(vec![("bulk".into(), bulk), ("a".into(), wanted)]);
        ctx.probe("probe.bulk");
    }
    text.push_str(&render(&mut ctx.src, &style, &node));
    let via = ctx.src.weighted(&[5, 2, 2, 2]);
    let mut plan = ReadPlan::gen_delivery(&mut ctx.src, text.len());
    if ctx.src.chance(1, 4) {
        plan.fault = Some((ctx.src.below(text.len() + 1), Fault::gen_read(&mut ctx.src)));
    }
    let left = if ctx.src.chance(1, 4) {
        ctx.src.draw(40)
    } else {
        u64::MAX
    };
    ctx.note(text.as_bytes());
    ctx.note_n(via);
    ctx.log(|| {
        format!(
            "{} bytes from a {} (comments: {comments}, abandoned after {left}): {}",
            text.len(),
            VIAS[via],
            crate::driver::quote(&text)
        )
    });
    let mut src = std::mem::replace(&mut ctx.src, Src::replay(Vec::new()));
    let mut walk = Walk {
        script: Script::default(),
        src: &mut src,
        m: Meter::default(),
        in_order: false,
        pieces: false,
        absent: None,
        left,
        taken: Box::new(|| 0),
        bound: Some(bound),
        broken: None,
    };
    with_reader(
        ctx,
        &text,
        &plan,
        via,
        &mut Any {
            walk: &mut walk,
            node: &node,
            comments,
        },
    );
    let (m, broken) = (walk.m, walk.broken);
    ctx.stats.ticks += m.calls;
    ctx.src = src;
    ctx.note_n(m.calls as usize);
    ctx.nontrivial = m.peak > 0;
    ctx.log(|| format!("{m:?}"));
    ensure!(
        broken.is_none(),
        "amplified",
        "the session held {} bytes after {} bytes were read (at most {} are in proportion)",
        broken.unwrap().0,
        broken.unwrap().1,
        bound(broken.unwrap().1)
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// In document order, nothing accumulates

/// What the session held when it had warmed up, and at the end.
struct Growth {
    early: Meter,
    late: Meter,
    done: bool,
}

/// Items before memory is looked at for the first time.
const WARM: usize = 6;

struct Many<'w, 's> {
    walk: &'w mut Walk<'s>,
    item: &'w Node,
    /// Items have different keys, strings and numbers of the same length.
    varied: bool,
    /// 0: a list, 1: entries, which are iterated over, 2: entries, which are requested
    shape: usize,
    comments: bool,
    out: Growth,
}

impl Many<'_, '_> {
    fn all<R: TextReader>(&mut self, d: &mut TextDeserializer<R>) -> Result<(), Over> {
        let w = &mut *self.walk;
        if self.shape == 0 {
            lib!(w, d.open_list());
        } else {
            lib!(w, d.open_object());
        }
        let mut n = 0;
        let mut key = "k".to_string();
        let mut own;
        loop {
            w.script.rewind();
            w.m.rest();
            if self.varied {
                key = vary(&format!("k{MARK}"), n);
            }
            let more = match self.shape {
                0 => lib!(w, d.next_item()),
                1 => {
                    let more = lib!(w, d.next_entry());
                    if more {
                        w.str_rest(d)?;
                    }
                    more
                }
                _ => lib!(w, d.try_push_entry(&key)),
            };
            if !more {
                break;
            }
            let mut item = self.item;
            if self.varied {
                own = vary_node(item, n);
                item = &own;
            }
            w.value(d, item)?;
            n += 1;
            if n == WARM {
                self.out.early = w.m;
            }
            self.out.late = Meter {
                held: w.m.held,
                peak: self.out.late.peak.max(w.m.peak),
                calls: w.m.calls,
            };
        }
        if self.shape == 2 {
            lib!(w, d.skip_object());
        }
        self.out.done = true;
        Ok(())
    }
}

impl Reading for Many<'_, '_> {
    fn go<R: TextReader>(&mut self, reader: R, taken: Box<dyn Fn() -> usize>) {
        self.walk.taken = taken;
        let comments = self.comments;
        if let Ok(mut d) = self
            .walk
            .m
            .on(|| TextDeserializer::new(config(comments), reader))
        {
            let _ = self.all(&mut d);
        }
    }
}

fn repeated(ctx: &mut Ctx, item: &str, shape: usize, varied: bool) -> (String, usize) {
    let want = ctx.src.pick_copy(&[3000, 1200, 8000]);
    let n = want.min(400_000 / (item.len() + 1)).max(40);
    let mut text = String::with_capacity(n * (item.len() + 8) + 2);
    text.push(if shape == 0 { '[' } else { '{' });
    for i in 0..n {
        if i > 0 {
            text.push(',');
        }
        if varied {
            if shape > 0 {
                text.push_str(&vary(&format!("\"k{MARK}\":"), i));
            }
            text.push_str(&vary(item, i));
            continue;
        }
        if shape > 0 {
            text.push_str("\"k\":");
        }
        text.push_str(item);
    }
    text.push(if shape == 0 { ']' } else { '}' });
    (text, n)
}

/// How much a session may hold at the end more than when it had warmed up.
fn slack(item: usize) -> isize {
    4096 + 2 * item as isize
}

fn steady(what: &str, g: &Growth, item: usize, n: usize) -> R {
    ensure!(
        g.late.held - g.early.held <= slack(item),
        "grows",
        "{what}: {} bytes were held after {WARM} items of {item} bytes, and {} after {n}",
        g.early.held,
        g.late.held
    );
    ensure!(
        g.late.peak - g.early.peak <= slack(item),
        "grows",
        "{what}: at most {} bytes were held during item {WARM} of {item} bytes, and {} during \
         one of the {n}",
        g.early.peak,
        g.late.peak
    );
    Ok(())
}

fn many(ctx: &mut Ctx) -> R {
    let comments = ctx.src.chance(1, 5);
    let mut item = {
        let mut o = GenOpts {
            depth: ctx.src.range(1, 4),
            budget: ctx.src.range(1, 12),
            max_width: ctx.src.range(1, 6),
            dup_keys: false,
            spine: 0,
        };
        gen_node(&mut ctx.src, &mut o, 0)
    };
    rename(&mut ctx.src, &mut item);
    tame(&mut item);
    let varied = ctx.src.chance(1, 3);
    if varied {
        mark(&mut ctx.src, &mut item);
    }
    let mut style = Style::swarm(&mut ctx.src, comments);
    if varied {
        // (what is replaced is written plainly)
        style.esc = 0;
    }
    let item_text = render(&mut ctx.src, &style, &item);
    let shape = ctx.src.below(3);
    let (text, n) = repeated(ctx, &item_text, shape, varied);
    let via = ctx.src.weighted(&[5, 2, 2, 2]);
    let plan = ReadPlan::gen_delivery(&mut ctx.src, text.len());
    ctx.note(item_text.as_bytes());
    ctx.note_n(via * 3 + shape);
    ctx.log(|| {
        format!(
            "{n} times (varied: {varied}), as {} from a {} (comments: {comments}): {item_text:?}",
            ["items", "entries iterated over", "entries requested"][shape],
            VIAS[via]
        )
    });
    let mut src = std::mem::replace(&mut ctx.src, Src::replay(Vec::new()));
    let mut walk = Walk {
        script: Script::default(),
        src: &mut src,
        m: Meter::default(),
        in_order: true,
        pieces: false,
        absent: None,
        left: u64::MAX,
        taken: Box::new(|| 0),
        bound: None,
        broken: None,
    };
    let mut job = Many {
        walk: &mut walk,
        item: &item,
        varied,
        shape,
        comments,
        out: Growth {
            early: Meter::default(),
            late: Meter::default(),
            done: false,
        },
    };
    with_reader(ctx, &text, &plan, via, &mut job);
    let out = job.out;
    ctx.src = src;
    ctx.stats.ticks += out.late.calls;
    ctx.note_n(out.late.calls as usize);
    ctx.log(|| format!("early {:?}, late {:?}, done: {}", out.early, out.late, out.done));
    ctx.probe(if out.done { "probe.many.done" } else { "probe.many.stopped" });
    ctx.nontrivial = out.done;
    if varied && out.done {
        ctx.probe("probe.many.varied");
    }
    if out.done {
        steady("reading", &out, item_text.len(), n)?;
    }
    Ok(())
}

/// Numbers which any type of number can hold.
fn tame(node: &mut Node) {
    match node {
        Node::Num(t) => {
            if t.contains(['e', 'E']) || t.len() > 15 {
                *t = "17".into();
            }
        }
        Node::Arr(items) => items.iter_mut().for_each(tame),
        Node::Obj(entries) => entries.iter_mut().for_each(|(_, n)| tame(n)),
        _ => (),
    }
}

/// Stands for digits in keys and strings.
const MARK: &str = "@@@@@";
/// Stands for a number of as many digits.
const MARK_NUM: &str = "88888";

/// Puts something into a part that can be another each time.
fn mark(s: &mut Src, node: &mut Node) {
    match node {
        Node::Str(t) => t.push_str(MARK),
        Node::Num(t) if s.chance(1, 2) => *t = MARK_NUM.into(),
        Node::Arr(items) => items.iter_mut().for_each(|n| mark(s, n)),
        Node::Obj(entries) => {
            let keys = s.chance(1, 2);
            for (key, n) in entries {
                if keys {
                    key.push_str(MARK);
                }
                mark(s, n);
            }
        }
        _ => (),
    }
}

fn vary(text: &str, i: usize) -> String {
    text.replace(MARK, &format!("{i:05}"))
        .replace(MARK_NUM, &format!("{}", 10_000 + i))
}

fn vary_node(node: &Node, i: usize) -> Node {
    match node {
        Node::Arr(items) => Node::Arr(items.iter().map(|n| vary_node(n, i)).collect()),
        Node::Obj(entries) => Node::Obj(
            entries
                .iter()
                .map(|(key, n)| (vary(key, i), vary_node(n, i)))
                .collect(),
        ),
        node => node.clone(),
    }
}

// ---------------------------------------------------------------------------------------------
// One session after the other

/// Many short sessions, each with other keys, strings and numbers.
fn series(ctx: &mut Ctx) -> R {
    let writing = ctx.src.chance(1, 4);
    let comments = ctx.src.chance(1, 5);
    let mut node = {
        let mut o = GenOpts {
            depth: ctx.src.range(1, 4),
            budget: ctx.src.range(2, 12),
            max_width: ctx.src.range(1, 6),
            dup_keys: false,
            spine: 0,
        };
        gen_node(&mut ctx.src, &mut o, 0)
    };
    rename(&mut ctx.src, &mut node);
    mark(&mut ctx.src, &mut node);
    let style = Style { far: false, esc: 0, ..Style::swarm(&mut ctx.src, comments) };
    let text = render(&mut ctx.src, &style, &node);
    let via = ctx.src.weighted(&[5, 2, 2, 2]);
    let mut plan = ReadPlan::gen_delivery(&mut ctx.src, text.len());
    if ctx.src.chance(1, 4) {
        plan.fault = Some((ctx.src.below(text.len() + 1), Fault::gen_read(&mut ctx.src)));
    }
    let in_order = ctx.src.chance(1, 3);
    let left = if ctx.src.chance(1, 4) { ctx.src.draw(40) } else { u64::MAX };
    let n = ctx.src.pick_copy(&[120, 60, 400]);
    ctx.note(text.as_bytes());
    ctx.note_n(via * 2 + usize::from(writing));
    ctx.log(|| {
        format!(
            "{n} sessions, {} a {} (comments: {comments}, abandoned after {left}): {text:?}",
            if writing { "writing, which read from" } else { "reading from" },
            VIAS[via]
        )
    });
    let mut choices = Vec::new();
    let (mut early, mut late) = (0, 0);
    for i in 0..n {
        let mut src = if i == 0 {
            std::mem::replace(&mut ctx.src, Src::replay(Vec::new()))
        } else {
            Src::replay(choices.clone())
        };
        let from = src.log.len();
        let text = vary(&text, i);
        let node = vary_node(&node, i);
        if writing {
            written(ctx, &node, plan.max);
        }
        let mut walk = Walk {
            script: Script::default(),
            src: &mut src,
            m: Meter::default(),
            in_order,
            pieces: false,
            absent: Some(vary(&format!("no such {MARK}"), i)),
            left,
            taken: Box::new(|| 0),
            bound: None,
            broken: None,
        };
        let mut job = Any { walk: &mut walk, node: &node, comments };
        with_reader(ctx, &text, &plan, via, &mut job);
        let calls = walk.m.calls;
        drop(walk);
        if i == 0 {
            choices = src.log[from..].to_vec();
            ctx.src = src;
            ctx.nontrivial = calls > 2;
        } else {
            drop(src);
        }
        drop((text, node));
        ctx.stats.ticks += calls;
        late = live();
        if i == 20 {
            early = late;
        }
    }
    ctx.probe(if writing { "probe.series.writing" } else { "probe.series.reading" });
    ctx.log(|| format!("held after 20 sessions {early}, in the end {late}"));
    ensure!(
        late - early <= 512,
        "accumulates",
        "{} bytes more were allocated after {n} sessions than after 20, and none in progress",
        late - early
    );
    Ok(())
}

/// Writes the given document.
fn written(ctx: &mut Ctx, node: &Node, max: usize) {
    fn put(s: &mut ByteWriter, node: &Node) -> std::io::Result<()> {
        match node {
            Node::Null => s.pop_null(),
            Node::Bool(b) => s.put_bool(*b),
            Node::Num(t) => s.put_f64(t.parse().unwrap_or(0.5)),
            Node::Str(t) => s.put_str(t),
            Node::Arr(items) => {
                s.open_list_streaming()?;
                for n in items {
                    s.push_item()?;
                    put(s, n)?;
                }
                s.close_list()
            }
            Node::Obj(entries) => {
                s.open_object()?;
                for (key, n) in entries {
                    s.push_entry(key)?;
                    put(s, n)?;
                }
                s.close_object()
            }
        }
    }
    let sink = SimWrite::new(WritePlan { max, ..Default::default() });
    let st = sink.state.clone();
    let indent = (max % 2 == 1).then_some(" ");
    let mut s = TextSerializer::new(TextSerializerConfig { indent }, Utf8Writer::new(sink));
    let _ = put(&mut s, node);
    drop(s.close());
    st.count(ctx);
}

// ---------------------------------------------------------------------------------------------
// Typed items

struct Typed;

impl Job for Typed {
    fn go<T: Wire>(self, ctx: &mut Ctx, value: T) -> R {
        if ctx.src.chance(1, 3) {
            return put_many(ctx, &value);
        }
        let f = Freedom {
            shuffle: 0,
            unknown: 0,
            leave: 0,
            arrays: ctx.src.pick_copy(&[0, 5, 10]),
            index: ctx.src.pick_copy(&[0, 5, 10]),
            numbers: ctx.src.chance(1, 2),
        };
        let comments = ctx.src.chance(1, 5);
        let node = render_sample(&mut ctx.src, &value.model(), f);
        let style = Style::swarm(&mut ctx.src, comments);
        let item = render(&mut ctx.src, &style, &node);
        let (text, n) = repeated(ctx, &item, 0, false);
        let via = ctx.src.weighted(&[5, 2, 2, 2]);
        let plan = ReadPlan::gen_delivery(&mut ctx.src, text.len());
        ctx.note(item.as_bytes());
        ctx.note_n(via);
        ctx.log(|| format!("{n} times from a {}: {item:?}", VIAS[via]));
        let g = match via {
            0 => {
                let source = SimRead::new(text.as_bytes(), plan);
                let st = source.state.clone();
                let g = match Utf8Reader::new(source) {
                    Ok(r) => get_many::<T, _>(r, comments),
                    Err(_) => return fail("harness", "the source failed"),
                };
                st.count(ctx);
                g
            }
            1 => {
                let source = SimRead::new(text.as_bytes(), plan);
                let st = source.state.clone();
                let source = std::io::BufReader::with_capacity(16, source);
                let g = match Utf8Reader::new(source) {
                    Ok(r) => get_many::<T, _>(r, comments),
                    Err(_) => return fail("harness", "the source failed"),
                };
                st.count(ctx);
                g
            }
            2 => get_many::<T, _>(text.as_str(), comments),
            _ => {
                let chars: Vec<char> = text.chars().collect();
                get_many::<T, _>(SimText::new(&chars), comments)
            }
        };
        ctx.log(|| format!("early {:?}, late {:?}, done: {}", g.early, g.late, g.done));
        ctx.probe(if g.done { "probe.typed.done" } else { "probe.typed.stopped" });
        ctx.stats.ticks += g.late.calls;
        ctx.nontrivial = g.done;
        if g.done {
            steady("reading typed items", &g, item.len(), n)?;
        }
        Ok(())
    }
}

fn get_many<T: Deserialize<TextDeserializer<R>>, R: TextReader>(
    reader: R,
    comments: bool,
) -> Growth {
    let mut m = Meter::default();
    let mut g = Growth {
        early: m,
        late: m,
        done: false,
    };
    let Ok(mut d) = m.on(|| TextDeserializer::new(config(comments), reader)) else {
        return g;
    };
    let r = Value::with(&mut d, |v| {
        let mut list = v.into_list()?;
        let mut n = 0;
        loop {
            m.rest();
            let more = m.on(|| match list.next()? {
                Some(item) => item.get::<T>().map(|v| {
                    drop(v);
                    true
                }),
                None => Ok(false),
            });
            match more {
                Ok(true) => (),
                Ok(false) => break,
                Err(e) => return Err(e),
            }
            n += 1;
            if n == WARM {
                g.early = m;
            }
            g.late = Meter {
                held: m.held,
                peak: g.late.peak.max(m.peak),
                calls: m.calls,
            };
        }
        Ok(())
    });
    g.done = r.is_ok() && d.close().is_ok();
    g
}

// ---------------------------------------------------------------------------------------------
// Writing

fn put_many<T: Serialize<TextSerializer<Utf8Writer<SimWrite>>>>(ctx: &mut Ctx, value: &T) -> R {
    write_many(ctx, "writing typed items", |s| Value::with(s, |v| v.put(value)))
}

type ByteWriter = TextSerializer<Utf8Writer<SimWrite>>;

fn write_many(
    ctx: &mut Ctx,
    what: &str,
    mut item: impl FnMut(&mut ByteWriter) -> std::io::Result<()>,
) -> R {
    let indent = ctx.src.pick_copy(&[None, Some(""), Some("  "), Some("\t")]);
    let n = ctx.src.pick_copy(&[1000, 300, 3000]);
    let mut plan = WritePlan::gen_delivery(&mut ctx.src, 2000);
    if ctx.src.chance(1, 8) {
        plan.fault = Some((ctx.src.below(20_000), Fault::gen_write(&mut ctx.src)));
        plan.sticky = true;
    }
    let objects = ctx.src.chance(1, 2);
    ctx.note(format!("{indent:?} {n} {plan:?} {objects}").as_bytes());
    ctx.log(|| format!("{n} times, indent {indent:?}, objects: {objects}, sink: {plan:?}"));
    let mut sink = SimWrite::new(plan);
    sink.keep = false;
    sink.budget = u64::MAX;
    let st = sink.state.clone();
    let mut m = Meter::default();
    let mut g = Growth {
        early: m,
        late: m,
        done: false,
    };
    let mut s = m.on(|| TextSerializer::new(TextSerializerConfig { indent }, Utf8Writer::new(sink)));
    let mut all = || -> std::io::Result<()> {
        m.on(|| if objects { s.open_object() } else { s.open_list_streaming() })?;
        for i in 1..=n {
            m.rest();
            m.on(|| {
                if objects {
                    s.push_entry("k")?;
                } else {
                    s.push_item()?;
                }
                item(&mut s)
            })?;
            if i == WARM {
                g.early = m;
            }
            g.late = Meter {
                held: m.held,
                peak: g.late.peak.max(m.peak),
                calls: m.calls,
            };
        }
        m.on(|| if objects { s.close_object() } else { s.close_list() })
    };
    g.done = all().is_ok();
    st.count(ctx);
    let len = st.taken.get() / n;
    ctx.note_n(st.taken.get());
    ctx.log(|| format!("early {:?}, late {:?}, done: {}", g.early, g.late, g.done));
    ctx.probe(if g.done { "probe.write.done" } else { "probe.write.stopped" });
    ctx.stats.ticks += m.calls;
    ctx.nontrivial = g.late.calls > WARM as u64;
    if ctx.nontrivial {
        steady(what, &g, len, n)?;
    }
    Ok(())
}

fn write(ctx: &mut Ctx) -> R {
    let mut ops = Vec::new();
    let mut o = GenOpts {
        depth: ctx.src.range(1, 4),
        budget: ctx.src.range(1, 12),
        max_width: ctx.src.range(1, 6),
        dup_keys: false,
        spine: 0,
    };
    gen_ops(&mut ctx.src, &mut o, 1, &mut ops);
    ctx.log(|| format!("operations: {ops:?}"));
    ctx.note(format!("{ops:?}").as_bytes());
    write_many(ctx, "writing", |s| ops.iter().try_for_each(|op| exec(s, op)))
}

// ---------------------------------------------------------------------------------------------
// Something big is passed over

/// A document with something of about the given size in it.
fn big(kind: usize, esc: bool, unit: &str, size: usize) -> (Node, String, String) {
    let n = size / unit.len().max(1) + 1;
    let long = || unit.repeat(n);
    let one = || Node::Num("1".into());
    match kind {
        0 => (Node::Str(if esc { "\"\n".repeat(n) } else { long() }), "".into(), "".into()),
        1 => (Node::Arr(vec![one(); size / 2 + 1]), "".into(), "".into()),
        2 => (Node::Obj((0..size / 6 + 1).map(|_| ("a".into(), one())).collect()), "".into(), "".into()),
        3 => (Node::Obj(vec![(long(), one())]), "".into(), "".into()),
        4 => (one(), " \n\t\r".repeat(size / 4 + 1), "".into()),
        5 => (one(), "".into(), format!("/*{}*/", long().replace('*', "+"))),
        6 => (one(), format!("//{}\n", long()), "".into()),
        _ => (Node::Arr(vec![Node::Obj(vec![("a".into(), Node::Str(unit.into()))]); size / (unit.len() + 8) + 1]), "".into(), "".into()),
    }
}

fn passed(ctx: &mut Ctx) -> R {
    let kind = ctx.src.below(8);
    let comments = kind == 5 || kind == 6;
    let esc = ctx.src.chance(1, 2);
    let unit = ctx.src.pick(&["x", "ab", "\u{e9}", "\u{1f600}z"]);
    let size = ctx.src.pick_copy(&[40_000, 10_000, 120_000]);
    let via = ctx.src.weighted(&[5, 2, 2, 2]);
    let in_entry = ctx.src.chance(1, 2);
    let asked = ctx.src.chance(1, 2);
    let max = ctx.src.pick_copy(&[0, 1, 3]);
    ctx.note(format!("{kind} {unit} {size} {via} {in_entry} {asked}").as_bytes());
    ctx.log(|| {
        format!(
            "kind {kind} of unit {unit:?}, size {size} (escapes: {esc}), {} from a {}, in at most \
             {max} bytes",
            if in_entry { "in an entry" } else { "in a list" },
            VIAS[via]
        )
    });
    let mut src = std::mem::replace(&mut ctx.src, Src::replay(Vec::new()));
    let mut script = Script::default();
    let mut res = Vec::new();
    for size in [64, size] {
        let (node, before, after) = big(kind, esc, unit, size);
        let style = Style { ws: 0, comments: false, esc: 0, far: false };
        let mut text = String::new();
        text.push_str(if in_entry { "{\"k\"" } else { "[" });
        text.push_str(&before);
        if in_entry {
            text.push(':');
        }
        text.push_str(&render(&mut Src::replay(Vec::new()), &style, &node));
        text.push_str(&after);
        text.push_str(if in_entry { ",\"z\":1}" } else { ",1]" });
        script.rewind();
        let mut walk = Walk {
            script: std::mem::take(&mut script),
            src: &mut src,
            m: Meter::default(),
            in_order: true,
            pieces: true,
            absent: None,
            left: u64::MAX,
            taken: Box::new(|| 0),
            bound: None,
            broken: None,
        };
        let mut job = One {
            walk: &mut walk,
            node: &node,
            in_entry,
            asked,
            comments,
            done: false,
        };
        let plan = ReadPlan { max, ..Default::default() };
        with_reader(ctx, &text, &plan, via, &mut job);
        let done = job.done;
        res.push((walk.m, done, text.len()));
        script = walk.script;
    }
    ctx.src = src;
    ctx.stats.ticks += res[1].0.calls;
    ctx.note_n(res[1].0.calls as usize);
    ctx.log(|| format!("{res:?}"));
    let done = res[0].1 && res[1].1;
    ctx.probe(if done { "probe.passed.done" } else { "probe.passed.stopped" });
    ctx.nontrivial = true;
    let more = res[1].0.peak - res[0].0.peak;
    ensure!(
        more <= 4096 + (res[1].2 / 16) as isize,
        "held",
        "passing over kind {kind} took at most {} bytes in a text of {}, and {} in one of {}",
        res[0].0.peak,
        res[0].2,
        res[1].0.peak,
        res[1].2
    );
    Ok(())
}

struct One<'w, 's> {
    walk: &'w mut Walk<'s>,
    node: &'w Node,
    in_entry: bool,
    asked: bool,
    comments: bool,
    done: bool,
}

impl One<'_, '_> {
    fn all<R: TextReader>(&mut self, d: &mut TextDeserializer<R>) -> Result<(), Over> {
        let (in_entry, asked) = (self.in_entry, self.asked);
        let w = &mut *self.walk;
        if in_entry {
            lib!(w, d.open_object());
        } else {
            lib!(w, d.open_list());
        }
        for name in ["k", "z"] {
            let more = match (in_entry, asked) {
                (false, _) => lib!(w, d.next_item()),
                (true, true) => lib!(w, d.try_push_entry(name)),
                (true, false) => {
                    let more = lib!(w, d.next_entry());
                    w.str_rest(d)?;
                    more
                }
            };
            if !more {
                return Err(Over);
            }
            if name == "k" {
                w.value(d, self.node)?;
            } else {
                lib!(w, d.skip_value());
            }
        }
        if in_entry {
            lib!(w, d.close_object());
        } else if lib!(w, d.next_item()) {
            return Err(Over);
        }
        self.done = true;
        Ok(())
    }
}

impl Reading for One<'_, '_> {
    fn go<R: TextReader>(&mut self, reader: R, taken: Box<dyn Fn() -> usize>) {
        self.walk.taken = taken;
        let comments = self.comments;
        if let Ok(mut d) = self
            .walk
            .m
            .on(|| TextDeserializer::new(config(comments), reader))
        {
            let _ = self.all(&mut d);
        }
    }
}

/// A big string, or many characters of one, are written.
fn put_big(ctx: &mut Ctx) -> R {
    let text = {
        let mut unit = gen_string(&mut ctx.src);
        unit.push('x');
        unit.repeat(ctx.src.pick_copy(&[2000, 500, 8000]))
    };
    let how = ctx.src.below(3);
    let num = gen_num_text(&mut ctx.src);
    let plan = WritePlan::gen_delivery(&mut ctx.src, 2000);
    ctx.note(&text.as_bytes()[..64.min(text.len())]);
    ctx.note(format!("{how} {num} {plan:?}").as_bytes());
    ctx.log(|| format!("{} bytes, how: {how}, sink: {plan:?}", text.len()));
    let mut sink = SimWrite::new(plan);
    sink.keep = false;
    sink.budget = u64::MAX;
    let st = sink.state.clone();
    let mut m = Meter::default();
    let mut s = m.on(|| {
        TextSerializer::new(TextSerializerConfig { indent: None }, Utf8Writer::new(sink))
    });
    let r = m.on(|| match how {
        0 => s.put_str(&text),
        1 => {
            s.open_str()?;
            text.chars().try_for_each(|ch| s.append_char(ch))?;
            s.close_str()
        }
        _ => {
            s.open_object()?;
            s.push_entry(&text)?;
            s.put_bool(true)?;
            s.close_object()
        }
    });
    st.count(ctx);
    ctx.stats.ticks += m.calls;
    ctx.log(|| format!("{m:?}"));
    ensure!(r.is_ok(), "failed", "writing failed: {r:?}");
    ctx.nontrivial = true;
    ensure!(
        m.peak <= 4096 + (text.len() / 16) as isize,
        "held",
        "writing a string of {} bytes took {} bytes",
        text.len(),
        m.peak
    );
    Ok(())
}

// ---------------------------------------------------------------------------------------------

pub fn c19(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[900, 400, 10, 8, 8, 6, 4, 8]) {
        0 => released(ctx),
        1 => proportion(ctx),
        2 => many(ctx),
        3 => with_sample(ctx, Typed),
        4 => write(ctx),
        5 => passed(ctx),
        7 => series(ctx),
        _ => put_big(ctx),
    }
}
