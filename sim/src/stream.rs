//! C01 to C04: reading arbitrary text from arbitrary sources.

use crate::ctx::{fail, Ctx, R};
use crate::dom::*;
use crate::ensure;
use crate::io::*;
use crate::node::*;
use crate::src::Src;
use crate::typed;
use serdere::{Deserializer, TextReader, Utf8Reader};
use serdere_json::{
    JsonDeserializer, JsonOutliner, TextDeserializer, TextDeserializerConfig, ValueType,
};
use std::io::BufReader;
use std::rc::Rc;

// ---------------------------------------------------------------------------------------------
// Damage

const BITS: &[&str] = &[
    ",", ":", "{", "}", "[", "]", "\"", "\\", "/", "*", "-", "+", ".", "e", "E", "0", "1", "00",
    "01", "-0", "1.", ".5", "1e", "1e+", "0x1", "tru", "true", "fals", "false", "nul", "null",
    "nulll", "NaN", "Infinity", "'", "'a'", "\u{a0}", "\u{b}", "\u{c}", "\u{feff}", "\u{85}",
    "\u{2028}", "\u{0}", "\u{1f}", "\n", "\r", "\t", " ", "/**/", "/* x */", "//\n", "#", "\\u",
    "\\u12", "\\u00e9", "\\ud800", "\\udc00", "\\ud83d\\ude00", "\\x41", "\\'", "\\0", ",,", "{}",
    "[]", "\"\"", "\"a\"", "\"a\":", "\"a\":1", "\"a\":1,", ",\"a\":1", "[1]", "]]", "}}", "[[",
    "{{", "\u{ff11}", "\u{661}", "\u{e9}", "\u{1f600}", "e5", "\u{7f}", "1 2", "--1", "1-1",
    "\\\"", "\\\\", "\\\u{e9}", "\\u+123", "\\uFFFF", "\\uD83D", "\\uD83Dx",
];

/// Damages a document as a whole. The result need not be UTF-8.
fn damage(s: &mut Src, bytes: &mut Vec<u8>) {
    let len = bytes.len();
    let at = s.below(len + 1);
    match s.weighted(&[6, 5, 4, 3, 3, 3, 2, 2]) {
        0 => {
            let b = s.pick(BITS).as_bytes();
            let at = char_start(bytes, at);
            bytes.splice(at..at, b.iter().copied());
        }
        1 if len > 0 => {
            // Lost range
            let end = (at + s.range(1, 6)).min(len);
            bytes.drain(at.min(end)..end);
        }
        2 if len > 0 => {
            // Replaced token
            let a = char_start(bytes, at);
            let end = char_start(bytes, (a + s.range(1, 3)).min(len));
            let b = s.pick(BITS).as_bytes();
            bytes.splice(a..end.max(a), b.iter().copied());
        }
        3 if len > 0 => {
            // Flipped bit
            let at = at.min(len - 1);
            bytes[at] ^= 1 << s.below(8);
        }
        4 if len > 0 => {
            // Repeated range
            let end = (at + s.range(1, 12)).min(len);
            let part = bytes[at.min(end)..end].to_vec();
            let to = s.below(len + 1);
            bytes.splice(to..to, part);
        }
        5 if len > 1 => {
            // Swapped ranges
            let mut c: Vec<usize> = (0..4).map(|_| s.below(len + 1)).collect();
            c.sort_unstable();
            let mut out = bytes[..c[0]].to_vec();
            out.extend_from_slice(&bytes[c[2]..c[3]]);
            out.extend_from_slice(&bytes[c[1]..c[2]]);
            out.extend_from_slice(&bytes[c[0]..c[1]]);
            out.extend_from_slice(&bytes[c[3]..]);
            *bytes = out;
        }
        6 if len > 0 => {
            let at = at.min(len - 1);
            bytes[at] = s.draw(256) as u8;
        }
        _ => {
            bytes.truncate(at);
            if s.chance(1, 2) {
                let b = s.pick(BITS).as_bytes();
                bytes.extend_from_slice(b);
            }
        }
    }
}

fn char_start(bytes: &[u8], mut at: usize) -> usize {
    while at > 0 && at < bytes.len() && (0x80..0xC0).contains(&bytes[at]) {
        at -= 1;
    }
    at
}

/// A document's text, its keys, and whether comments are allowed in it.
struct Input {
    text: Text,
    keys: Vec<String>,
    comments: bool,
}

fn gen_input(ctx: &mut Ctx) -> Input {
    let s = &mut ctx.src;
    let mut o = GenOpts::swarm(s);
    let node = gen_node(s, &mut o, 0);
    let comments = s.chance(1, 3);
    let style = Style::swarm(s, comments);
    let text = Text::new(render(s, &style, &node));
    let mut keys = Vec::new();
    keys_of(&node, &mut keys);
    Input {
        text,
        keys,
        comments,
    }
}

/// Who reads the document.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Via {
    Utf8,
    /// Without the consumption counter around the library's reader.
    Utf8Raw,
    Buffered(usize),
    Str,
    Text,
}

/// Reads a document in the way the script says, and returns the log.
fn run(
    ctx: &mut Ctx,
    script: &mut Script,
    input: &Input,
    bytes: &[u8],
    via: Via,
    plan: &ReadPlan,
    mode: usize,
) -> (Vec<Ev>, Option<Dv>, bool, Option<std::io::Error>, Rc<ReadState>) {
    script.rewind();
    let comments = input.comments;
    let source = SimRead::new(bytes, plan.clone());
    let state = source.state.clone();
    let st = state.clone();
    let mut pull = Pull {
        script,
        src: &mut ctx.src,
        text: &input.text,
        meter: Box::new(|| (0, 0)),
        keys: &input.keys,
        mode,
        log: Vec::new(),
        risky: false,
    };
    let (res, io_err) = match via {
        Via::Utf8 => match Utf8Reader::new(source) {
            Ok(r) => {
                let r = Counting::new(r);
                let consumed = r.consumed.clone();
                pull.meter = Box::new(move || (consumed.get(), st.reach()));
                let res = pull.document(r, comments);
                (res.ok(), None)
            }
            Err(e) => (None, Some(e)),
        },
        Via::Utf8Raw => match Utf8Reader::new(source) {
            Ok(r) => (pull.document(r, comments).ok(), None),
            Err(e) => (None, Some(e)),
        },
        Via::Buffered(n) => match Utf8Reader::new(BufReader::with_capacity(n, source)) {
            Ok(r) => {
                let r = Counting::new(r);
                let consumed = r.consumed.clone();
                pull.meter = Box::new(move || (consumed.get(), st.reach()));
                let res = pull.document(r, comments);
                (res.ok(), None)
            }
            Err(e) => (None, Some(e)),
        },
        Via::Str => {
            let t: &str = &input.text.text;
            (pull.document(t, comments).ok(), None)
        }
        Via::Text => {
            let mut r = SimText::new(&input.text.chars);
            if let Some((at, fault)) = plan.fault {
                r = r.with_fault(at, fault);
            }
            let consumed = r.consumed.clone();
            pull.meter = Box::new(move || (consumed.get(), consumed.get() + 1));
            let res = pull.document(r, comments);
            (res.ok(), None)
        }
    };
    let log = std::mem::take(&mut pull.log);
    let risky = pull.risky;
    state.count(ctx);
    (log, res, risky, io_err, state)
}

fn diff(a: &[Ev], b: &[Ev], same: impl Fn(&Ev, &Ev) -> bool) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if same(x, y) => (),
            (x, y) => {
                let show = |e: Option<&Ev>| e.map_or("(nothing)".to_string(), |e| e.to_string());
                return Some(format!("operation {i}: {}  versus  {}", show(x), show(y)));
            }
        }
    }
    None
}

// ---------------------------------------------------------------------------------------------
// C01

pub fn c01(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[6, 2, 2]) {
        0 => c01_document(ctx),
        1 => c01_chars(ctx),
        _ => typed::c01_typed(ctx),
    }
}

fn c01_document(ctx: &mut Ctx) -> R {
    let mut input = gen_input(ctx);
    let mut bytes = input.text.text.clone().into_bytes();
    if ctx.src.chance(2, 5) {
        for _ in 0..ctx.src.range(1, 2) {
            damage(&mut ctx.src, &mut bytes);
        }
        input.text = Text::new(String::from_utf8_lossy(&bytes).into_owned());
    }
    let valid = input.text.text.as_bytes() == bytes;
    let mode = ctx.src.weighted(&[2, 5, 1]);
    let plan = ReadPlan::gen_delivery(&mut ctx.src, bytes.len());
    let mut script = Script::default();
    ctx.log(|| format!("text: {:?} (comments: {})", input.text.text, input.comments));
    ctx.log(|| format!("bytes: {:?}", String::from_utf8_lossy(&bytes)));
    ctx.log(|| format!("delivery: {plan:?}"));
    ctx.note(&bytes);
    ctx.note(format!("{plan:?}").as_bytes());

    let whole = ReadPlan::default();
    let (base, _, _, base_io, _) = run(ctx, &mut script, &input, &bytes, Via::Utf8, &whole, mode);
    show_log(ctx, "delivered at once", &base);
    note_log(ctx, &base);
    let via = if ctx.src.chance(1, 4) {
        Via::Buffered(ctx.src.pick_copy(&[1, 2, 3, 5, 8, 64, 8192]))
    } else if ctx.src.chance(1, 3) {
        Via::Utf8Raw
    } else {
        Via::Utf8
    };
    let (frag, _, _, frag_io, st) = run(ctx, &mut script, &input, &bytes, via, &plan, mode);
    show_log(ctx, &format!("delivered in pieces ({via:?})"), &frag);
    if st.splits.get() + st.interrupts.get() > 0 {
        ctx.nontrivial = true;
    }
    ensure!(
        base_io.as_ref().map(|e| e.kind()) == frag_io.as_ref().map(|e| e.kind()),
        "delivery",
        "construction: {base_io:?} when delivered at once, {frag_io:?} in pieces"
    );
    if let Some(d) = diff(&base, &frag, Ev::same) {
        return fail("delivery", format!("at once versus in pieces: {d}"));
    }
    if valid {
        for via in [Via::Str, Via::Text] {
            let (other, ..) = run(ctx, &mut script, &input, &bytes, via, &whole, mode);
            show_log(ctx, &format!("{via:?}"), &other);
            if let Some(d) = diff(&base, &other, |a, b| a.agrees(b, &input.text)) {
                return fail("kinds", format!("byte stream versus {via:?}: {d}"));
            }
        }
    } else {
        ctx.probe("probe.invalid_utf8_document");
    }
    if base.last().is_some_and(|e| e.out.is_err()) {
        ctx.probe("probe.document_with_error");
    }
    Ok(())
}

/// One operation on a character reader.
#[derive(Clone, Debug)]
enum COp {
    Next,
    Peek,
    Exact(String),
    Until(u8),
}

fn until(which: u8, ch: char) -> Option<u32> {
    let end = match which {
        0 => ch == '"',
        1 => ch == '\n',
        2 => ch.is_whitespace(),
        3 => ch as u32 > 0x7f,
        _ => ch == 'x' || ch == ',',
    };
    end.then_some(ch as u32)
}

fn c_step<T: TextReader>(r: &mut T, op: &COp, text: &Text) -> (String, Loc, bool)
where
    T::Position: ToLoc,
{
    let mut stop = false;
    let out = match op {
        COp::Next => format!("{:?}", r.next()),
        COp::Peek => format!("{:?}", r.peek()),
        COp::Exact(t) => {
            let ok = r.read_exact(t);
            stop = !ok;
            ok.to_string()
        }
        COp::Until(w) => match r.read_until(|c| until(*w, c)) {
            Some((s, c)) => format!("{s:?} {c}"),
            None => "None".to_string(),
        },
    };
    (out, r.position().to_loc(text), stop)
}

fn c01_chars(ctx: &mut Ctx) -> R {
    let text = if ctx.src.chance(1, 2) {
        gen_input(ctx).text
    } else {
        let n = ctx.src.range(0, 60);
        Text::new((0..n).map(|_| gen_char(&mut ctx.src)).collect())
    };
    let bytes = text.text.as_bytes();
    let plan = ReadPlan::gen_delivery(&mut ctx.src, bytes.len());
    ctx.note(bytes);
    ctx.note(format!("{plan:?}").as_bytes());
    ctx.log(|| format!("text: {:?}", text.text));
    ctx.log(|| format!("delivery: {plan:?}"));
    let cap = ctx.src.pick_copy(&[1, 2, 3, 4, 7, 4096]);
    let frag = SimRead::new(bytes, plan.clone());
    let st = frag.state.clone();
    let buf = SimRead::new(bytes, plan);
    let mut base = io_ok(Utf8Reader::new(SimRead::plain(bytes)))?;
    let mut frag = io_ok(Utf8Reader::new(frag))?;
    let mut buf = io_ok(Utf8Reader::new(BufReader::with_capacity(cap, buf)))?;
    let mut mem: &str = &text.text;
    let mut own = SimText::new(&text.chars);
    let mut idx = 0;
    let n = ctx.src.range(1, 40);
    for _ in 0..n {
        let op = match ctx.src.weighted(&[6, 2, 3, 3]) {
            0 => COp::Next,
            1 => COp::Peek,
            2 => {
                let len = ctx.src.range(0, 5).min(text.len() - idx);
                let mut t: String = text.chars[idx..idx + len].iter().collect();
                if ctx.src.chance(1, 8) {
                    t.push(gen_char(&mut ctx.src));
                }
                COp::Exact(t)
            }
            _ => COp::Until(ctx.src.below(5) as u8),
        };
        ctx.log(|| format!("{op:?}"));
        ctx.stats.ticks += 1;
        let (want, wloc, stop) = c_step(&mut base, &op, &text);
        ctx.note(want.as_bytes());
        ctx.log(|| format!("   -> {want} at {wloc:?}"));
        let mut others = Vec::new();
        others.push(("pieces", c_step(&mut frag, &op, &text)));
        others.push(("buffered pieces", c_step(&mut buf, &op, &text)));
        for (name, (got, loc, _)) in &others {
            ensure!(
                got == &want && loc == &wloc,
                "delivery",
                "{op:?}: at once gives {want} at {wloc:?}, {name} gives {got} at {loc:?}"
            );
        }
        let (got, loc, _) = c_step(&mut own, &op, &text);
        let oloc = loc;
        ensure!(
            got == want && (stop || loc.agrees(&wloc, &text)),
            "kinds",
            "{op:?}: byte stream gives {want} at {wloc:?}, a character reader {got} at {loc:?}"
        );
        let (got, loc, _) = c_step(&mut mem, &op, &text);
        ensure!(
            got == want && (stop || (loc.agrees(&wloc, &text) && loc == oloc)),
            "kinds",
            "{op:?}: byte stream gives {want} at {wloc:?}, in-memory text {got} at {loc:?}"
        );
        if stop {
            break;
        }
        idx = match oloc {
            Loc::Idx(i) => i,
            _ => idx,
        };
    }
    st.count(ctx);
    if st.splits.get() + st.interrupts.get() > 0 {
        ctx.nontrivial = true;
    }
    Ok(())
}

pub fn io_ok<T>(r: std::io::Result<T>) -> R<T> {
    match r {
        Ok(v) => Ok(v),
        Err(e) => fail("construct", format!("fault-free source: {e}")),
    }
}

// ---------------------------------------------------------------------------------------------
// C02

pub fn c02(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[6, 3]) {
        0 => c02_document(ctx),
        _ => typed::c02_typed(ctx),
    }
}

/// Makes the text undecodable, by the byte at which this shows.
pub fn corrupt_utf8(s: &mut Src, bytes: &mut Vec<u8>) {
    const BAD: &[&[u8]] = &[
        b"\x80",
        b"\xbf",
        b"\xc0\x80",
        b"\xc1\xbf",
        b"\xc3\x28",
        b"\xc3",
        b"\xe0\x80\x80",
        b"\xe0\x9f\xbf",
        b"\xe2\x82",
        b"\xe2\x28\xa1",
        b"\xe2\x82\x28",
        b"\xed\xa0\x80",
        b"\xed\xbf\xbf",
        b"\xf0\x80\x80\x80",
        b"\xf0\x8f\xbf\xbf",
        b"\xf0\x9f\x98",
        b"\xf0\x28\x8c\xbc",
        b"\xf0\x9f\x28\xbc",
        b"\xf4\x90\x80\x80",
        b"\xf5\x80\x80\x80",
        b"\xf8\x88\x80\x80\x80",
        b"\xfc",
        b"\xfe",
        b"\xff",
    ];
    let at = char_start(bytes, s.below(bytes.len() + 1));
    let bad = s.pick_copy(BAD);
    match s.below(3) {
        0 => {
            bytes.splice(at..at, bad.iter().copied());
        }
        1 => {
            let end = char_start(bytes, (at + 1).min(bytes.len())).max(at);
            bytes.splice(at..end, bad.iter().copied());
        }
        _ => {
            // Damage or cut a multi-byte character
            let multi: Vec<usize> = (0..bytes.len()).filter(|i| bytes[*i] >= 0x80).collect();
            if let Some(i) = multi.get(s.below(multi.len().max(1))) {
                match s.below(3) {
                    0 => bytes[*i] ^= 0x40,
                    1 => {
                        bytes.remove(*i);
                    }
                    _ => bytes.truncate(i + 1),
                }
            } else {
                bytes.splice(at..at, bad.iter().copied());
            }
        }
    }
    if std::str::from_utf8(bytes).is_ok() {
        bytes.insert(at.min(bytes.len()), 0xFF);
    }
}

/// The place before any whitespace (and comments) that ends at the given one.
fn before_trivia(text: &Text, comments: bool, end: usize) -> usize {
    let c = &text.chars;
    let end = end.min(c.len());
    let mut best = end;
    for p in (0..end).rev() {
        if best == p + 1 && c[p].is_ascii_whitespace() {
            best = p;
        } else if !comments || end - p > 200 {
            break;
        } else if c[p] == '/' && trivia_from(&c[..end], p) {
            best = p;
        }
    }
    best
}

fn trivia_from(c: &[char], mut i: usize) -> bool {
    while i < c.len() {
        if c[i].is_ascii_whitespace() {
            i += 1;
        } else if c[i] == '/' && c.get(i + 1) == Some(&'/') {
            while i < c.len() && c[i] != '\n' {
                i += 1;
            }
        } else if c[i] == '/' && c.get(i + 1) == Some(&'*') {
            i += 2;
            while i < c.len() && !(c[i] == '/' && c[i - 1] == '*') {
                i += 1;
            }
            i += 1;
        } else {
            return false;
        }
    }
    true
}

fn c02_document(ctx: &mut Ctx) -> R {
    let mut input = gen_input(ctx);
    let mut bytes = input.text.text.clone().into_bytes();
    let mode = ctx.src.weighted(&[2, 3, 1]);
    let mut plan = if ctx.src.chance(1, 2) {
        ReadPlan::gen_delivery(&mut ctx.src, bytes.len())
    } else {
        ReadPlan::default()
    };
    let what = ctx.src.weighted(&[5, 3, 2]);
    let fault = Fault::gen_read(&mut ctx.src);
    let mut faulty = plan.clone();
    let at; // The first missing byte (or character, for a character reader)
    let via = match what {
        0 => {
            at = ctx.src.below(bytes.len() + 1);
            faulty.fault = Some((at, fault));
            faulty.sticky = ctx.src.chance(1, 2);
            ctx.count(&format!("fault.kind.{}", fault.name()), 1);
            if ctx.src.chance(1, 5) {
                Via::Buffered(ctx.src.pick_copy(&[1, 2, 3, 8, 64, 8192]))
            } else {
                Via::Utf8
            }
        }
        1 => {
            corrupt_utf8(&mut ctx.src, &mut bytes);
            at = std::str::from_utf8(&bytes).unwrap_err().valid_up_to();
            // What a fault-free run would read has the same beginning
            input.text = Text::new(String::from_utf8_lossy(&bytes).into_owned());
            ctx.count("fault.invalid_utf8", 1);
            Via::Utf8
        }
        _ => {
            at = ctx.src.below(input.text.len() + 1);
            plan = ReadPlan::default();
            faulty = ReadPlan::default();
            faulty.fault = Some((at, fault));
            ctx.count("fault.char_reader_error", 1);
            Via::Text
        }
    };
    let good_bytes = input.text.text.clone().into_bytes();
    let mut script = Script::default();
    ctx.log(|| format!("text: {:?} (comments: {})", input.text.text, input.comments));
    ctx.log(|| format!("source ({via:?}): {faulty:?}"));
    if what == 1 {
        ctx.log(|| format!("bytes: {bytes:?}, undecodable at {at}"));
    }
    ctx.note(&bytes);
    ctx.note(format!("{faulty:?}").as_bytes());
    let (base, _, _, _, _) = run(ctx, &mut script, &input, &good_bytes, via, &plan, mode);
    show_log(ctx, "without the fault", &base);
    let (log, res, _, io_err, st) = run(ctx, &mut script, &input, &bytes, via, &faulty, mode);
    show_log(ctx, "with the fault", &log);
    note_log(ctx, &log);
    if let Some(e) = &io_err {
        ctx.log(|| format!("construction: {e}"));
        if what == 0 {
            ensure!(
                fault.is(e),
                "carried",
                "constructing the reader returned {e:?} instead of the source's {fault:?}"
            );
            // Only the first character is needed
            let first = good_bytes.first().map_or(0, |b| match b {
                0..=0x7f => 1,
                0x80..=0xdf => 2,
                0xe0..=0xef => 3,
                _ => 4,
            });
            ensure!(
                at < first.max(1) || matches!(via, Via::Buffered(_)),
                "early",
                "construction failed on a fault at byte {at}"
            );
        }
        ctx.nontrivial = true;
        return Ok(());
    }
    let fired = match what {
        0 => st.faults.get() > 0,
        _ => true,
    };
    ensure!(
        res.is_none(),
        "accepted",
        "reading succeeded although the source failed at {at}"
    );
    let missing = |ev: &Ev| -> bool {
        // Did the fault-free operation consume anything that is missing (other than the layout
        // before whatever comes next)?
        let end = before_trivia(&input.text, input.comments, ev.consumed);
        match via {
            Via::Text => end > at,
            _ => input.text.boff[end] > at,
        }
    };
    for i in 0..log.len() {
        let ev = &log[i];
        let Some(want) = base.get(i) else {
            return fail("extra", format!("operation {i} only happens with the fault: {ev}"));
        };
        if ev.same(want) {
            ensure!(
                ev.out.is_err() || !missing(want),
                "made-up",
                "operation {i} succeeded without the data it needs: {ev}"
            );
            continue;
        }
        if ev.op == "peek_value_type" && want.op == ev.op {
            // Looking ahead cannot return an error; using what is not there must
            ensure!(
                want.taken > at || matches!(via, Via::Buffered(_)),
                "early",
                "operation {i} needs only data before the fault at {at}: {want} without the fault, {ev} with it"
            );
            ensure!(
                i + 2 == log.len() && log[i + 1].out.is_err(),
                "made-up",
                "after the data ran out at operation {i}, {} followed",
                log[i + 1..].iter().map(|e| e.to_string()).collect::<Vec<_>>().join("; ")
            );
            break;
        }
        ensure!(
            ev.op == want.op && i + 1 == log.len() && ev.out.is_err(),
            "differs",
            "operation {i}: {want} without the fault, {ev} with it"
        );
        ensure!(
            want.taken > at || matches!(via, Via::Buffered(_)),
            "early",
            "operation {i} needs only data before the fault at {at}: {want} without the fault, {ev} with it"
        );
    }
    // Every operation that needs only data before the fault was carried out
    if let Some(ev) = base.get(log.len()) {
        ensure!(
            log.last().is_some_and(|e| e.out.is_err()),
            "stopped",
            "the run with the fault stopped before {ev}"
        );
    }
    if fired && log.len() > 1 {
        ctx.nontrivial = true;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C03

pub fn c03(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[6, 3]) {
        0 => c03_document(ctx),
        _ => typed::c03_typed(ctx),
    }
}

/// Whether the text is complete, or `None` if the property leaves it open.
pub fn complete(text: &Text, comments: bool) -> Option<bool> {
    match parse(&text.chars, comments) {
        Ok(p) if p.huge_exp => None,
        Ok(_) => Some(true),
        Err(f) if f.surrogate => None,
        Err(f) => {
            if comments && f.eof {
                // The text may have ended in a line comment after the document
                let mut more = text.chars.clone();
                more.push('\n');
                if parse(&more, comments).is_ok() {
                    return None;
                }
            }
            Some(false)
        }
    }
}

/// Cuts a text off, or appends something to it.
pub fn cut_or_extend(ctx: &mut Ctx, text: &Text, comments: bool) -> Text {
    let s = &mut ctx.src;
    if text.len() > 0 && s.chance(2, 3) {
        let at = if s.chance(1, 4) {
            text.len() - 1 - s.below(text.len().min(3))
        } else {
            s.below(text.len())
        };
        ctx.count("fault.cut", 1);
        Text::new(text.text[..text.boff[at]].to_string())
    } else {
        let mut t = text.text.clone();
        match s.below(4) {
            0 => {
                let o = &mut GenOpts {
                    depth: 2,
                    budget: 5,
                    max_width: 3,
                    dup_keys: false,
                    spine: 0,
                };
                t.push_str(s.pick(&["", " ", "\n", ",", ", "]));
                let n = gen_node(s, o, 0);
                let st = Style::swarm(s, comments);
                t.push_str(&render(s, &st, &n));
            }
            1 => {
                t.push(gen_char(s));
            }
            _ => t.push_str(s.pick(BITS)),
        }
        ctx.count("fault.overlong", 1);
        Text::new(t)
    }
}

fn c03_document(ctx: &mut Ctx) -> R {
    let mut input = gen_input(ctx);
    input.text = cut_or_extend(ctx, &input.text, input.comments);
    let bytes = input.text.text.clone().into_bytes();
    let expect = complete(&input.text, input.comments);
    let mode = ctx.src.weighted(&[3, 3, 2]);
    let plan = if ctx.src.chance(1, 3) {
        ReadPlan::gen_delivery(&mut ctx.src, bytes.len())
    } else {
        ReadPlan::default()
    };
    let via = match ctx.src.weighted(&[4, 2, 2, 1]) {
        0 => Via::Utf8,
        1 => Via::Str,
        2 => Via::Text,
        _ => Via::Buffered(16),
    };
    ctx.log(|| {
        format!(
            "text: {:?} (comments: {}, complete: {expect:?}) via {via:?}",
            input.text.text, input.comments
        )
    });
    ctx.note(&bytes);
    ctx.note(format!("{via:?}").as_bytes());
    let mut script = Script::default();
    let (log, res, risky, io_err, st) = run(ctx, &mut script, &input, &bytes, via, &plan, mode);
    show_log(ctx, "reading", &log);
    note_log(ctx, &log);
    if let Some(e) = io_err {
        return fail("construct", format!("fault-free source: {e}"));
    }
    if via == Via::Utf8 {
        ensure!(
            st.eofs.get() <= 64 + st.interrupts.get(),
            "bounded",
            "the end of the stream was asked for {} times",
            st.eofs.get()
        );
    }
    match expect {
        Some(false) => {
            ensure!(
                res.is_none(),
                "accepted",
                "an incomplete or overlong document was read to completion"
            );
            if log.len() > 1 {
                ctx.nontrivial = true;
            }
        }
        Some(true) => {
            ctx.probe("probe.still_complete");
            ensure!(
                res.is_some() || risky,
                "rejected",
                "a complete document was rejected: {}",
                log.last().map_or(String::new(), |e| e.to_string())
            );
        }
        None => ctx.probe("probe.left_open"),
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C04

pub fn c04(ctx: &mut Ctx) -> R {
    if ctx.src.chance(1, 150) {
        return c04_deep(ctx);
    }
    let mut input = gen_input(ctx);
    let strict = !input.comments;
    let mut bytes = input.text.text.clone().into_bytes();
    let n = ctx.src.weighted(&[3, 10, 5, 2]);
    for _ in 0..n {
        damage(&mut ctx.src, &mut bytes);
        ctx.count("fault.damage", 1);
    }
    let valid = match std::str::from_utf8(&bytes) {
        Ok(t) => {
            input.text = Text::new(t.to_string());
            true
        }
        Err(_) => {
            input.text = Text::new(String::from_utf8_lossy(&bytes).into_owned());
            false
        }
    };
    let mode = ctx.src.weighted(&[4, 3, 2]);
    let plan = if ctx.src.chance(1, 4) {
        ReadPlan::gen_delivery(&mut ctx.src, bytes.len())
    } else {
        ReadPlan::default()
    };
    let via = match ctx.src.weighted(&[4, 4, 2]) {
        1 if valid => Via::Str,
        2 if valid => Via::Text,
        _ => Via::Utf8,
    };
    let parsed = parse(&input.text.chars, input.comments);
    ctx.log(|| {
        let p = match &parsed {
            Ok(_) => "well-formed".to_string(),
            Err(f) => format!("malformed at {}", f.idx),
        };
        format!(
            "text: {:?} (comments: {}, UTF-8: {valid}, {p}) via {via:?}",
            input.text.text, input.comments
        )
    });
    if !valid {
        ctx.log(|| format!("bytes: {bytes:?}"));
    }
    ctx.note(&bytes);
    ctx.note(format!("{via:?}").as_bytes());
    let mut script = Script::default();
    let (log, res, risky, _, _) = run(ctx, &mut script, &input, &bytes, via, &plan, mode);
    show_log(ctx, "reading", &log);
    note_log(ctx, &log);
    if n > 0 && log.len() > 1 {
        ctx.nontrivial = true;
    }
    if !valid {
        ensure!(res.is_none(), "accepted", "a document that is not UTF-8 was accepted");
        return Ok(());
    }
    match parsed {
        Ok(p) => {
            ctx.probe(if n > 0 {
                "probe.damaged_but_well_formed"
            } else {
                "probe.undamaged"
            });
            match &res {
                Some(dv) => ensure!(
                    matches(dv, &p.root),
                    "misread",
                    "read as {dv:?}, but the text denotes {:?}",
                    p.root.to_node()
                ),
                None => ensure!(
                    risky || p.huge_exp,
                    "rejected",
                    "a well-formed document was rejected: {}",
                    log.last().map_or(String::new(), |e| e.to_string())
                ),
            }
        }
        Err(f) => {
            if strict && !f.surrogate {
                ensure!(
                    res.is_none(),
                    "accepted",
                    "malformed text (at character {}) was accepted",
                    f.idx
                );
            }
            if !strict && !f.surrogate && complete(&input.text, true) == Some(false) {
                ensure!(
                    res.is_none(),
                    "accepted",
                    "malformed text (at character {}) was accepted with comments allowed",
                    f.idx
                );
            }
        }
    }
    Ok(())
}

/// Deeply nested documents, on a thread with little stack.
fn c04_deep(ctx: &mut Ctx) -> R {
    let depth = ctx.src.pick_copy(&[200, 2_000, 20_000, 100_000]);
    let pattern = ctx.src.below(4);
    let damage = ctx.src.weighted(&[3, 1, 1]);
    let how = ctx.src.below(4);
    let at = ctx.src.below(depth);
    let via_str = ctx.src.chance(1, 2);
    ctx.note(format!("deep {depth} {pattern} {damage} {how} {at}").as_bytes());
    ctx.log(|| format!("depth {depth}, pattern {pattern}, damage {damage} at {at}, read by {how}"));
    ctx.nontrivial = true;
    ctx.count("probe.deep_nesting", 1);
    ctx.stats.ticks += depth as u64;
    let is_obj = move |i: usize| match pattern {
        0 => false,
        1 => true,
        2 => i % 2 == 0,
        _ => i % 3 == 0,
    };
    let mut text = String::new();
    if how >= 2 {
        text.push_str("{\"held\": ");
    }
    for i in 0..depth {
        text.push_str(if is_obj(i) { "{\"k\": " } else { "[" });
    }
    text.push_str("true");
    match damage {
        1 => (),
        _ => {
            for i in (0..depth).rev() {
                let obj = is_obj(i) != (damage == 2 && i == at);
                text.push(if obj { '}' } else { ']' });
            }
            if how >= 2 {
                text.push_str(", \"z\": 1}");
            }
        }
    }
    let body = move || -> Result<Result<bool, String>, String> {
        if via_str {
            deep_read(text.as_str(), how)
        } else {
            let r = Utf8Reader::new(SimRead::plain(text.as_bytes())).map_err(|e| e.to_string())?;
            deep_read(r, how)
        }
    };
    let handle = std::thread::Builder::new()
        .stack_size(192 * 1024)
        .spawn(body)
        .map_err(|e| crate::ctx::Violation {
            class: "harness".into(),
            msg: e.to_string(),
        })?;
    let res = match handle.join() {
        Ok(Ok(res)) => res,
        Ok(Err(e)) => return fail("construct", e),
        Err(e) => return fail("panic", crate::driver::panic_text(&*e)),
    };
    ctx.log(|| format!("{res:?}"));
    match (damage, res) {
        (0, Ok(true)) => Ok(()),
        (0, r) => fail("rejected", format!("a deep document was not read: {r:?}")),
        (_, Ok(_)) => fail("accepted", "a malformed deep document was accepted"),
        (_, Err(_)) => Ok(()),
    }
}

fn deep_read<T: TextReader>(r: T, how: usize) -> Result<Result<bool, String>, String> {
    let go = || -> Result<bool, serdere_json::DeserializeError<T::Position>> {
        let mut d = TextDeserializer::new(TextDeserializerConfig::strict(), r)?;
        let mut found = true;
        match how {
            0 => d.skip_value()?,
            1 => descend(&mut d)?,
            2 => {
                d.open_object()?;
                found &= d.try_push_entry("z")?;
                d.get_u8()?;
                found &= d.try_push_entry("held")?;
                descend(&mut d)?;
                d.close_object()?;
            }
            _ => {
                d.open_object()?;
                found &= !d.try_push_entry("nothing")?;
                found &= d.next_entry()?;
                d.skip_str()?;
                d.skip_value()?;
                d.skip_object()?;
            }
        }
        d.close()?;
        Ok(found)
    };
    Ok(go().map_err(|e| err_kind(e.message())))
}

/// Opens every level, and closes them all.
fn descend<T: TextReader>(
    d: &mut TextDeserializer<T>,
) -> Result<(), serdere_json::DeserializeError<T::Position>> {
    let mut kinds = Vec::new();
    loop {
        match d.peek_value_type() {
            ValueType::Object => {
                d.open_object()?;
                d.push_entry("k")?;
                kinds.push(true);
            }
            ValueType::Array => {
                d.open_list()?;
                d.next_item()?;
                kinds.push(false);
            }
            _ => {
                d.get_bool()?;
                break;
            }
        }
    }
    while let Some(obj) = kinds.pop() {
        if obj {
            d.next_entry()?;
        } else {
            d.next_item()?;
        }
    }
    Ok(())
}
