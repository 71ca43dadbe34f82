//! Legal histories of write operations, and what they mean. Used for C08, C09, C11 and C15.

use crate::ctx::{fail, Ctx, R};
use crate::ensure;
use crate::io::*;
use crate::node::*;
use crate::src::Src;
use serdere::{TextWriter, Utf8Writer};
use serdere_json::{JsonSerializer, TextSerializer, TextSerializerConfig};
use std::cell::RefCell;
use std::io;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum W {
    Null,
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    F32(f32),
    F64(f64),
    Char(char),
    Str(String),
    OpenStr,
    AppendChar(char),
    AppendStr(String),
    CloseStr,
    OpenListSized(usize),
    OpenListStreaming,
    OpenTuple(Option<&'static str>),
    PushItem,
    PushElement,
    CloseList,
    CloseTuple,
    OpenObject,
    OpenStruct(Option<&'static str>),
    PushEntry(String),
    AddEntry,
    PushField(&'static str),
    CloseObject,
    CloseStruct,
    Tag(usize, usize, Option<&'static str>),
}

/// What a history of writes says.
#[derive(Clone, Debug)]
pub enum Want {
    Null,
    Bool(bool),
    Int(i128),
    F32(f32),
    F64(f64),
    Str(String),
    Arr(Vec<Want>),
    Obj(Vec<(String, Want)>),
}

pub fn says(n: &SNode, w: &Want) -> bool {
    match (&n.kind, w) {
        (SKind::Null, Want::Null) => true,
        (SKind::Bool(a), Want::Bool(b)) => a == b,
        (SKind::Num(t), Want::Int(v)) => num_int(t) == Some(*v),
        (SKind::Num(t), Want::F32(v)) => num_f32(t).to_bits() == v.to_bits(),
        (SKind::Num(t), Want::F64(v)) => num_f64(t).to_bits() == v.to_bits(),
        (SKind::Str(a), Want::Str(b)) => a == b,
        (SKind::Arr(a), Want::Arr(b)) => {
            a.len() == b.len() && a.iter().zip(b).all(|(x, y)| says(x, y))
        }
        (SKind::Obj(a), Want::Obj(b)) => {
            a.len() == b.len()
                && a.iter().zip(b).all(|(x, y)| x.key == y.0 && says(&x.val, &y.1))
        }
        _ => false,
    }
}

pub fn exec<S: JsonSerializer>(s: &mut S, op: &W) -> Result<(), S::Error> {
    match op {
        W::Null => s.pop_null(),
        W::Bool(v) => s.put_bool(*v),
        W::I8(v) => s.put_i8(*v),
        W::I16(v) => s.put_i16(*v),
        W::I32(v) => s.put_i32(*v),
        W::I64(v) => s.put_i64(*v),
        W::U8(v) => s.put_u8(*v),
        W::U16(v) => s.put_u16(*v),
        W::U32(v) => s.put_u32(*v),
        W::U64(v) => s.put_u64(*v),
        W::F32(v) => s.put_f32(*v),
        W::F64(v) => s.put_f64(*v),
        W::Char(v) => s.put_char(*v),
        W::Str(v) => s.put_str(v),
        W::OpenStr => s.open_str(),
        W::AppendChar(v) => s.append_char(*v),
        W::AppendStr(v) => s.append_str(v),
        W::CloseStr => s.close_str(),
        W::OpenListSized(n) => s.open_list_sized(*n),
        W::OpenListStreaming => s.open_list_streaming(),
        W::OpenTuple(n) => s.open_tuple(*n),
        W::PushItem => s.push_item(),
        W::PushElement => s.push_element(),
        W::CloseList => s.close_list(),
        W::CloseTuple => s.close_tuple(),
        W::OpenObject => s.open_object(),
        W::OpenStruct(n) => s.open_struct(*n),
        W::PushEntry(k) => s.push_entry(k),
        W::AddEntry => s.add_entry(),
        W::PushField(k) => s.push_field(k),
        W::CloseObject => s.close_object(),
        W::CloseStruct => s.close_struct(),
        W::Tag(m, i, n) => s.put_tag(*m, *i, *n),
    }
}

pub fn gen_f64(s: &mut Src) -> f64 {
    let v = match s.weighted(&[4, 2, 2]) {
        0 => s.pick_copy(&[
            0.0, -0.0, 1.0, 0.5, -1.5, 0.1, 1e16, 1e17, 123456789.125, 1e21, 1e-7, 5e-324, 1.7976931348623157e308,
            2.2250738585072014e-308, 9007199254740993.0, 0.3, 1e300, -1e-300, 65504.0, 1e5, 1e15,
        ]),
        1 => s.below(100_000) as f64 / 100.0,
        _ => f64::from_bits(s.bits()),
    };
    if v.is_finite() {
        v
    } else {
        1.25
    }
}

pub fn gen_f32(s: &mut Src) -> f32 {
    let v = match s.weighted(&[4, 2, 2]) {
        0 => s.pick_copy(&[
            0.0, -0.0, 1.0, 0.1, 3.4028235e38, 1.1754944e-38, 1e-45, 16777216.0, 0.3, -2.5, 1e10, 8.5899346e9,
        ]),
        1 => s.below(100_000) as f32 / 100.0,
        _ => f32::from_bits(s.bits() as u32),
    };
    if v.is_finite() {
        v
    } else {
        1.25
    }
}

pub fn gen_i128(s: &mut Src, lo: i128, hi: i128) -> i128 {
    match s.weighted(&[3, 2, 2]) {
        0 => (s.below(100) as i128).clamp(lo, hi),
        1 => s.pick_copy(&[0, 1, -1, 9, 10, 99, 100]).clamp(lo, hi),
        _ => match s.below(3) {
            0 => lo,
            1 => hi,
            _ => {
                let span = (hi - lo) as u128 + 1;
                lo + (u128::from(s.bits()) % span) as i128
            }
        },
    }
}

/// Writes a string in pieces, the string being open.
fn gen_pieces(s: &mut Src, v: &str, ops: &mut Vec<W>) {
    let chars: Vec<char> = v.chars().collect();
    let mut i = 0;
    while i < chars.len() {
        if s.chance(1, 2) {
            ops.push(W::AppendChar(chars[i]));
            i += 1;
        } else {
            let n = s.range(0, chars.len() - i);
            ops.push(W::AppendStr(chars[i..i + n].iter().collect()));
            i += n;
        }
    }
    if s.chance(1, 4) {
        ops.push(W::AppendStr(String::new()));
    }
    ops.push(W::CloseStr);
}

/// Generates a legal history that writes one value.
pub fn gen_ops(s: &mut Src, o: &mut GenOpts, depth: usize, ops: &mut Vec<W>) -> Want {
    o.budget = o.budget.saturating_sub(1);
    let leaf = depth >= o.depth || o.budget == 0;
    let k = if leaf {
        s.weighted(&[1, 2, 4, 4, 1, 1])
    } else if depth == 0 {
        s.weighted(&[1, 1, 2, 2, 1, 1, 8, 10])
    } else if depth < o.spine {
        s.weighted(&[0, 0, 0, 0, 0, 0, 1, 1])
    } else {
        s.weighted(&[2, 2, 4, 4, 1, 2, 5, 6])
    };
    match k {
        0 => {
            ops.push(W::Null);
            Want::Null
        }
        1 => {
            let b = s.chance(1, 2);
            ops.push(W::Bool(b));
            Want::Bool(b)
        }
        2 => {
            macro_rules! int {
                ($V:ident, $ty:ty) => {{
                    let v = gen_i128(s, <$ty>::MIN as i128, <$ty>::MAX as i128);
                    ops.push(W::$V(v as $ty));
                    Want::Int(v)
                }};
            }
            match s.below(10) {
                0 => int!(I8, i8),
                1 => int!(I16, i16),
                2 => int!(I32, i32),
                3 => int!(I64, i64),
                4 => int!(U8, u8),
                5 => int!(U16, u16),
                6 => int!(U32, u32),
                7 => int!(U64, u64),
                8 => {
                    let v = gen_f32(s);
                    ops.push(W::F32(v));
                    Want::F32(v)
                }
                _ => {
                    let v = gen_f64(s);
                    ops.push(W::F64(v));
                    Want::F64(v)
                }
            }
        }
        3 => {
            let v = gen_string(s);
            if s.chance(1, 2) {
                ops.push(W::Str(v.clone()));
            } else {
                ops.push(W::OpenStr);
                gen_pieces(s, &v, ops);
            }
            Want::Str(v)
        }
        4 => {
            let c = gen_char(s);
            ops.push(W::Char(c));
            Want::Str(c.to_string())
        }
        5 => {
            let max = match s.below(3) {
                0 => gen_i128(s, 12, usize::MAX as i128) as usize,
                _ => 12,
            };
            let index = gen_i128(s, 0, max as i128) as usize;
            if s.chance(2, 3) {
                let name = s.pick_copy(KEYS);
                ops.push(W::Tag(max, index, Some(name)));
                Want::Str(name.to_string())
            } else {
                ops.push(W::Tag(max, index, None));
                Want::Int(index as i128)
            }
        }
        6 => {
            let n = s.size(o.max_width).max(usize::from(depth < o.spine));
            let how = s.below(3);
            let head = ops.len();
            ops.push(W::OpenListStreaming);
            let mut items = Vec::new();
            for _ in 0..n {
                if o.budget == 0 {
                    break;
                }
                ops.push(if how == 2 { W::PushElement } else { W::PushItem });
                items.push(gen_ops(s, o, depth + 1, ops));
            }
            match how {
                0 => ops.push(W::CloseList),
                1 => {
                    ops[head] = W::OpenListSized(items.len());
                    ops.push(W::CloseList);
                }
                _ => {
                    ops[head] = W::OpenTuple(s.pick_copy(&[None, Some("T")]));
                    ops.push(W::CloseTuple);
                }
            }
            Want::Arr(items)
        }
        _ => {
            let n = s.size(o.max_width).max(usize::from(depth < o.spine));
            let is_struct = s.chance(1, 3);
            ops.push(if is_struct {
                W::OpenStruct(s.pick_copy(&[None, Some("S")]))
            } else {
                W::OpenObject
            });
            let mut es: Vec<(String, Want)> = Vec::new();
            for _ in 0..n {
                if o.budget == 0 {
                    break;
                }
                let how = if is_struct { s.weighted(&[6, 1, 1]) } else { s.weighted(&[0, 3, 3]) };
                let key = match how {
                    0 => {
                        let k = s.pick_copy(KEYS);
                        ops.push(W::PushField(k));
                        k.to_string()
                    }
                    1 => {
                        let k = gen_key(s);
                        ops.push(W::PushEntry(k.clone()));
                        k
                    }
                    _ => {
                        let k = gen_key(s);
                        ops.push(W::AddEntry);
                        gen_pieces(s, &k, ops);
                        k
                    }
                };
                let v = gen_ops(s, o, depth + 1, ops);
                es.push((key, v));
            }
            ops.push(if is_struct { W::CloseStruct } else { W::CloseObject });
            Want::Obj(es)
        }
    }
}

pub const INDENTS: &[Option<&str>] = &[None, Some("  "), Some("\t"), Some(""), Some("    "), Some(" ")];

pub struct History {
    pub ops: Vec<W>,
    pub want: Want,
    pub indent: Option<&'static str>,
}

pub fn gen_history(s: &mut Src) -> History {
    let mut o = GenOpts::swarm(s);
    let mut ops = Vec::new();
    let want = gen_ops(s, &mut o, 0, &mut ops);
    let indent = if s.chance(1, 2) { s.pick_copy(INDENTS) } else { None };
    History { ops, want, indent }
}

impl History {
    pub fn config(&self) -> TextSerializerConfig {
        TextSerializerConfig {
            indent: self.indent,
        }
    }

    fn show(&self, ctx: &mut Ctx) {
        ctx.log(|| format!("indent: {:?}", self.indent));
        if ctx.trace.is_some() {
            for (i, op) in self.ops.iter().enumerate() {
                ctx.log(|| format!("   {i}: {op:?}"));
            }
        }
        ctx.note(format!("{:?}", self.indent).as_bytes());
        ctx.stats.ticks += self.ops.len() as u64;
        ctx.count("io.operations", self.ops.len() as u64);
    }
}

/// The library's in-memory sink, shared so that it can be looked at in between.
#[derive(Clone, Default)]
pub struct Shared(pub Rc<RefCell<String>>);

impl TextWriter for Shared {
    type Error = <String as TextWriter>::Error;
    fn write_char(&mut self, ch: char) -> Result<(), Self::Error> {
        event();
        self.0.borrow_mut().write_char(ch)
    }
    fn write_str(&mut self, str: &str) -> Result<(), Self::Error> {
        event();
        TextWriter::write_str(&mut *self.0.borrow_mut(), str)
    }
}

/// The text the history writes in memory, and its length after each operation.
pub fn in_memory(h: &History) -> (String, Vec<usize>) {
    let sink = Shared::default();
    let mut s = TextSerializer::new(h.config(), sink.clone());
    let mut lens = Vec::with_capacity(h.ops.len());
    for op in &h.ops {
        match exec(&mut s, op) {
            Ok(()) => (),
            Err(e) => match e {},
        }
        lens.push(sink.0.borrow().len());
    }
    drop(s.close());
    let text = sink.0.borrow().clone();
    (text, lens)
}

// ---------------------------------------------------------------------------------------------
// C08

pub fn c08_raw(ctx: &mut Ctx) -> R {
    let h = gen_history(&mut ctx.src);
    h.show(ctx);
    let (text, lens) = in_memory(&h);
    let plan = WritePlan::gen_delivery(&mut ctx.src, text.len());
    ctx.log(|| format!("text: {text:?}"));
    ctx.log(|| format!("sink: {plan:?}"));
    ctx.note(text.as_bytes());
    ctx.note(format!("{plan:?}").as_bytes());
    let sink = SimWrite::new(plan);
    let st = sink.state.clone();
    let mut s = TextSerializer::new(h.config(), Utf8Writer::new(sink));
    for (i, op) in h.ops.iter().enumerate() {
        let r = exec(&mut s, op);
        if let Err(e) = r {
            return fail("failed", format!("operation {i} ({op:?}) failed: {e:?}"));
        }
        check_prefix(&st, &text, lens[i], i, op)?;
    }
    let w = s.close();
    ensure!(
        *st.bytes.borrow() == text.as_bytes(),
        "bytes",
        "closing the serializer changed what was written"
    );
    drop(w.into_inner());
    st.count(ctx);
    ensure!(
        *st.bytes.borrow() == text.as_bytes(),
        "bytes",
        "taking the sink back changed what was written"
    );
    if st.splits.get() + st.interrupts.get() > 0 {
        ctx.nontrivial = true;
    }
    Ok(())
}

fn check_prefix(st: &WriteState, text: &str, len: usize, i: usize, op: &W) -> R {
    let got = st.bytes.borrow();
    let want = &text.as_bytes()[..len];
    ensure!(
        *got == want,
        "bytes",
        "after operation {i} ({op:?}) the sink holds {:?}, but the text is {:?}",
        String::from_utf8_lossy(&got),
        String::from_utf8_lossy(want)
    );
    Ok(())
}

/// Character-level writes straight to a `Utf8Writer`.
pub fn c08_chars(ctx: &mut Ctx) -> R {
    let n = ctx.src.range(1, 20);
    let mut text = String::new();
    let mut ops: Vec<Result<char, String>> = Vec::new();
    for _ in 0..n {
        if ctx.src.chance(1, 2) {
            let c = gen_char(&mut ctx.src);
            text.push(c);
            ops.push(Ok(c));
        } else {
            let t = gen_string(&mut ctx.src);
            text.push_str(&t);
            ops.push(Err(t));
        }
    }
    let plan = WritePlan::gen_delivery(&mut ctx.src, text.len());
    ctx.note(text.as_bytes());
    ctx.note(format!("{plan:?}").as_bytes());
    ctx.log(|| format!("writes: {ops:?}, sink: {plan:?}"));
    let sink = SimWrite::new(plan);
    let st = sink.state.clone();
    let mut w = Utf8Writer::new(sink);
    let mut done = 0;
    for op in &ops {
        let r = match op {
            Ok(c) => {
                done += c.len_utf8();
                w.write_char(*c)
            }
            Err(t) => {
                done += t.len();
                if ctx.src.chance(1, 2) {
                    // Through a reference
                    TextWriter::write_str(&mut &mut w, t)
                } else {
                    w.write_str(t)
                }
            }
        };
        if let Err(e) = r {
            return fail("failed", format!("{op:?} failed: {e}"));
        }
        ensure!(
            *st.bytes.borrow() == &text.as_bytes()[..done],
            "bytes",
            "after {op:?} the sink holds {:?}",
            String::from_utf8_lossy(&st.bytes.borrow())
        );
    }
    st.count(ctx);
    if st.splits.get() + st.interrupts.get() > 0 {
        ctx.nontrivial = true;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C09

/// A sink's plan with one fault in it.
pub fn gen_faulty(ctx: &mut Ctx, len: usize) -> (WritePlan, usize, Fault) {
    let s = &mut ctx.src;
    let mut plan = if s.chance(1, 2) {
        WritePlan::gen_delivery(s, len)
    } else {
        WritePlan::default()
    };
    let at = s.below(len + 1);
    let fault = Fault::gen_write(s);
    plan.fault = Some((at, fault));
    plan.sticky = s.chance(1, 2);
    ctx.count(&format!("fault.kind.{}", fault.name()), 1);
    (plan, at, fault)
}

/// Checks what is left after a failed write.
pub fn check_failed(ctx: &mut Ctx, st: &WriteState, text: &str, at: usize) -> R {
    let _ = ctx;
    let got = st.bytes.borrow();
    ensure!(
        *got == &text.as_bytes()[..at],
        "prefix",
        "the sink failed at byte {at} and holds {:?}, which is not the beginning of {text:?} up to there",
        String::from_utf8_lossy(&got)
    );
    ensure!(
        st.after_fault.get() == 0,
        "after",
        "{} writes were attempted after the failure at byte {at}",
        st.after_fault.get()
    );
    Ok(())
}

pub fn c09_raw(ctx: &mut Ctx) -> R {
    let h = gen_history(&mut ctx.src);
    h.show(ctx);
    let (text, lens) = in_memory(&h);
    ctx.note(text.as_bytes());
    ctx.log(|| format!("text: {text:?}"));
    if ctx.src.chance(1, 4) {
        return c09_text(ctx, &h, &text, &lens);
    }
    let (plan, at, fault) = gen_faulty(ctx, text.len());
    ctx.log(|| format!("sink: {plan:?}"));
    ctx.note(format!("{plan:?}").as_bytes());
    let sink = SimWrite::new(plan);
    let st = sink.state.clone();
    let mut s = TextSerializer::new(h.config(), Utf8Writer::new(sink));
    let mut failed = false;
    for (i, op) in h.ops.iter().enumerate() {
        match exec(&mut s, op) {
            Ok(()) => {
                ensure!(
                    lens[i] <= at,
                    "unreported",
                    "operation {i} ({op:?}) reported success, but the sink failed at byte {at} of {}",
                    lens[i]
                );
                check_prefix(&st, &text, lens[i], i, op)?;
            }
            Err(e) => {
                ctx.log(|| format!("operation {i} failed: {e:?}"));
                ensure!(
                    lens[i] > at,
                    "early",
                    "operation {i} ({op:?}) failed before the sink did: {e:?}"
                );
                ensure!(
                    fault.is(&e),
                    "identity",
                    "operation {i} ({op:?}) returned {e:?} instead of the sink's {fault:?}"
                );
                failed = true;
                break;
            }
        }
    }
    ensure!(
        failed == (at < text.len()),
        "unreported",
        "the sink failed at byte {at} of {}, but no operation did",
        text.len()
    );
    drop(s.close().into_inner());
    st.count(ctx);
    if failed {
        ctx.nontrivial = true;
        check_failed(ctx, &st, &text, at)?;
    }
    Ok(())
}

/// A user-written text sink that fails.
fn c09_text(ctx: &mut Ctx, h: &History, text: &str, lens: &[usize]) -> R {
    let total = text.chars().count();
    let limit = ctx.src.below(total + 1);
    let id = ctx.src.draw(1000);
    ctx.log(|| format!("text sink fails at character {limit} with {id}"));
    ctx.note_n(limit);
    let sink = FailText::new(limit, id);
    let st = sink.state.clone();
    let mut s = TextSerializer::new(h.config(), sink);
    let at = text
        .char_indices()
        .nth(limit)
        .map_or(text.len(), |(i, _)| i);
    let mut failed = false;
    for (i, op) in h.ops.iter().enumerate() {
        match exec(&mut s, op) {
            Ok(()) => ensure!(
                lens[i] <= at && *st.text.borrow() == text[..lens[i]],
                "unreported",
                "operation {i} ({op:?}) reported success; the sink fails at {at} and holds {:?}",
                st.text.borrow()
            ),
            Err(e) => {
                ensure!(
                    lens[i] > at && e == TextFault(id),
                    "identity",
                    "operation {i} ({op:?}) returned {e:?} (sink error: {id}, at {at})"
                );
                failed = true;
                break;
            }
        }
    }
    ensure!(
        failed == (at < text.len()),
        "unreported",
        "the sink failed at byte {at} of {}, but no operation did",
        text.len()
    );
    drop(s.close());
    ensure!(
        *st.text.borrow() == text[..at],
        "prefix",
        "the sink holds {:?} instead of {:?}",
        st.text.borrow(),
        &text[..at]
    );
    ensure!(
        st.after_fault.get() == 0,
        "after",
        "{} writes were attempted after the failure",
        st.after_fault.get()
    );
    ctx.count("fault.text_sink_error", u64::from(failed));
    if failed {
        ctx.nontrivial = true;
    }
    Ok(())
}

// ---------------------------------------------------------------------------------------------
// C11

pub fn c11_raw(ctx: &mut Ctx) -> R {
    let h = gen_history(&mut ctx.src);
    h.show(ctx);
    let text = match ctx.src.below(3) {
        0 => in_memory(&h).0,
        1 => {
            let mut buf: Vec<u8> = Vec::new();
            let mut s = TextSerializer::new(h.config(), Utf8Writer::new(&mut buf));
            let r: io::Result<()> = h.ops.iter().try_for_each(|op| exec(&mut s, op));
            if let Err(e) = r {
                return fail("failed", e.to_string());
            }
            drop(s);
            match String::from_utf8(buf) {
                Ok(t) => t,
                Err(e) => return fail("text", e.to_string()),
            }
        }
        _ => {
            let sink = FailText::new(usize::MAX, 0);
            let st = sink.state.clone();
            let mut s = TextSerializer::new(h.config(), sink);
            if let Err(e) = h.ops.iter().try_for_each(|op| exec(&mut s, op)) {
                return fail("failed", e.to_string());
            }
            let t = st.text.borrow().clone();
            t
        }
    };
    ctx.note(text.as_bytes());
    ctx.log(|| format!("text: {text}"));
    if h.ops.len() > 3 {
        ctx.nontrivial = true;
    }
    check_text(&text, &h.want, h.indent)
}

/// Checks that a text says what is wanted, laid out as it should be.
pub fn check_text(text: &str, want: &Want, indent: Option<&str>) -> R {
    let root = check_layout(text, indent)?;
    ensure!(
        says(&root, want),
        "meaning",
        "written: {text:?}, which does not say {want:?}"
    );
    Ok(())
}

pub fn check_layout(text: &str, indent: Option<&str>) -> R<SNode> {
    let chars: Vec<char> = text.chars().collect();
    let p = match parse(&chars, false) {
        Ok(p) => p,
        Err(f) => {
            return fail(
                "malformed",
                format!("written: {text:?}, which is not JSON (at character {})", f.idx),
            )
        }
    };
    match indent {
        None => ensure!(
            !text.contains(['\n', '\r']),
            "layout",
            "compact output has a line break: {text:?}"
        ),
        Some(indent) => {
            let unit: Vec<char> = indent.chars().collect();
            let mut lines = 0;
            lay(&chars, &p.root, &unit, 0, &mut lines).or_else(|at| {
                fail("layout", format!("indented by {indent:?}: misplaced at character {at}: {text:?}"))
            })?;
            let breaks = chars.iter().filter(|c| **c == '\n').count();
            ensure!(
                breaks == lines,
                "layout",
                "{breaks} line breaks instead of {lines}: {text:?}"
            );
        }
    }
    Ok(p.root)
}

fn at_line(c: &[char], at: usize, unit: &[char], depth: usize) -> bool {
    let n = unit.len() * depth;
    at > n && c[at - n - 1] == '\n' && (0..n).all(|i| c[at - n + i] == unit[i % unit.len()])
}

fn lay(c: &[char], n: &SNode, unit: &[char], depth: usize, lines: &mut usize) -> Result<(), usize> {
    let kids: Vec<(usize, &SNode)> = match &n.kind {
        SKind::Arr(items) => items.iter().map(|i| (i.start, i)).collect(),
        SKind::Obj(es) => es.iter().map(|e| (e.kstart, &e.val)).collect(),
        _ => return Ok(()),
    };
    for (at, v) in &kids {
        *lines += 1;
        if !at_line(c, *at, unit, depth + 1) {
            return Err(*at);
        }
        lay(c, v, unit, depth + 1, lines)?;
    }
    if !kids.is_empty() {
        *lines += 1;
        if !at_line(c, n.end - 1, unit, depth) {
            return Err(n.end - 1);
        }
    }
    Ok(())
}
