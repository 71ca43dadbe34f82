//! Sessions over documents which are wider or deeper than the generated ones: objects and arrays of
//! hundreds to tens of thousands of entries, and objects within objects hundreds of levels deep, read
//! in a drawn order. Part of C05.

use crate::ctx::{fail, Ctx, R};
use crate::ensure;
use crate::io::*;
use crate::src::Src;
use serdere::{Deserializer, Outliner, TextReader, Utf8Reader};
use serdere_json::{JsonDeserializer, JsonOutliner, TextDeserializer, TextDeserializerConfig};
use std::fmt::Write;

type D<T> = TextDeserializer<T>;

macro_rules! ok {
    ($what:expr, $e:expr) => {
        match $e {
            Ok(v) => v,
            Err(e) => return fail("rejected", format!("{}: {:.200}", $what, e.to_string())),
        }
    };
}

/// What the value numbered `i` is: a number, a string, or an array of a number.
fn write_value(t: &mut String, i: usize, kinds: usize) {
    let _ = match i % kinds {
        0 => write!(t, "{i}"),
        1 => write!(t, "\"v{i}\""),
        _ => write!(t, "[{i}]"),
    };
}

fn read_value<T: TextReader>(d: &mut D<T>, i: usize, kinds: usize, skip: bool) -> R
where
    T::Position: std::fmt::Display,
{
    let what = format!("value {i}");
    if skip {
        ok!(what, d.skip_value());
        return Ok(());
    }
    match i % kinds {
        0 => {
            let v = ok!(what, d.get_u32()) as usize;
            ensure!(
                v == i,
                "value",
                "the document has {i}, but {v} was delivered"
            );
        }
        1 => {
            ok!(what, d.open_str());
            let v = ok!(what, d.flush_str()).into_owned();
            ensure!(
                v == format!("v{i}"),
                "value",
                "the document has \"v{i}\", but {v:?} was delivered"
            );
        }
        _ => {
            ok!(what, d.open_list());
            ensure!(
                ok!(what, d.next_item()),
                "value",
                "the array of {i} has no item"
            );
            let v = ok!(what, d.get_u32()) as usize;
            ensure!(
                v == i,
                "value",
                "the document has [{i}], but [{v}] was delivered"
            );
            ensure!(
                !ok!(what, d.next_item()),
                "value",
                "the array of {i} has a second item"
            );
        }
    }
    Ok(())
}

struct Wide {
    n: usize,
    kinds: usize,
    /// The values are the items of an array
    array: bool,
    /// The collection is itself held back
    inside: bool,
    stem: &'static str,
    order: Vec<usize>,
    absent: usize,
    skip: usize,
}

impl Wide {
    fn gen(s: &mut Src) -> Self {
        let n = match s.weighted(&[4, 4, 3, 1]) {
            0 => s.range(120, 135),
            1 => s.range(250, 262),
            2 => s.range(500, 3000),
            _ => s.range(65_530, 65_545),
        };
        let array = s.chance(1, 4);
        let inside = array || s.chance(1, 2);
        // The last one first, so that all others are held back
        let mut order = if s.chance(2, 3) {
            vec![n - 1 - s.below(3)]
        } else {
            vec![]
        };
        for _ in 0..s.below(30) {
            let i = match s.below(3) {
                0 => s.below(n),
                1 => s.below(n.min(4)),
                // Of one value, those further by powers of two
                _ => {
                    (order.first().copied().unwrap_or(0) + s.pick_copy(&[1, 128, 256, 65_536])) % n
                }
            };
            if !order.contains(&i) {
                order.push(i);
            }
        }
        Self {
            n,
            kinds: s.range(1, 3),
            array,
            inside,
            stem: s.pick(&["", "k", "a rather long key number ", "\u{e9}"]),
            order,
            absent: s.below(3),
            skip: s.pick_copy(&[0, 0, 7, 2]),
        }
    }

    fn text(&self) -> String {
        let mut t = String::new();
        if self.inside {
            t.push_str("{\"o\":");
        }
        t.push(if self.array { '[' } else { '{' });
        for i in 0..self.n {
            if i > 0 {
                t.push(',');
            }
            if !self.array {
                let _ = write!(t, "\"{}{i}\":", self.stem);
            }
            write_value(&mut t, i, self.kinds);
        }
        t.push(if self.array { ']' } else { '}' });
        if self.inside {
            t.push_str(",\"last\":7}");
        }
        t
    }

    fn skips(&self, i: usize) -> bool {
        self.skip > 0 && i % self.skip == 1
    }

    fn read<T: TextReader>(&self, mut d: D<T>) -> R
    where
        T::Position: std::fmt::Display,
    {
        if self.inside {
            ok!("open", d.open_object());
            ensure!(
                ok!("last", d.try_push_entry("last")),
                "value",
                "no entry \"last\""
            );
            ok!("last", d.get_u8());
            ensure!(ok!("o", d.try_push_entry("o")), "value", "no entry \"o\"");
        }
        if self.array {
            ok!("open", d.open_list());
            for i in 0..self.n {
                ensure!(
                    ok!("item", d.next_item()),
                    "value",
                    "there are {i} items of {}",
                    self.n
                );
                read_value(&mut d, i, self.kinds, self.skips(i))?;
            }
            ensure!(
                !ok!("item", d.next_item()),
                "value",
                "there is an item past {}",
                self.n
            );
        } else {
            ok!("open", d.open_object());
            let mut read = vec![false; self.n];
            for (at, &i) in self.order.iter().enumerate() {
                if at == self.absent {
                    let k = format!("{}{}", self.stem, self.n + i);
                    ensure!(
                        !ok!(k, d.try_push_entry(&k)),
                        "value",
                        "there is no entry {k:?}, but it was found"
                    );
                }
                let k = format!("{}{i}", self.stem);
                ensure!(
                    ok!(k, d.try_push_entry(&k)),
                    "value",
                    "entry {k:?} was not found"
                );
                read_value(&mut d, i, self.kinds, self.skips(i))?;
                ensure!(
                    !ok!(k, d.try_push_entry(&k)),
                    "value",
                    "entry {k:?} was found again"
                );
                read[i] = true;
            }
            for i in (0..self.n).filter(|i| !read[*i]) {
                ensure!(
                    ok!("entry", d.next_entry()),
                    "value",
                    "entry {i} is missing"
                );
                let k = ok!("key", d.flush_str()).into_owned();
                let want = format!("{}{i}", self.stem);
                ensure!(
                    k == want,
                    "value",
                    "the next entry is {want:?}, but {k:?} was delivered"
                );
                read_value(&mut d, i, self.kinds, self.skips(i))?;
            }
            ensure!(
                !ok!("entry", d.next_entry()),
                "value",
                "there is an entry past {}",
                self.n
            );
        }
        if self.inside {
            ensure!(
                !ok!("entry", d.next_entry()),
                "value",
                "there is an entry past \"last\""
            );
        }
        ok!("close", d.close());
        Ok(())
    }
}

const NAMES: [&str; 5] = ["a", "b", "c", "key", "n"];
const NEXT: usize = 4;

struct Deep {
    /// For each level, its entries in document order, with the numbers that are their values
    levels: Vec<Vec<(usize, usize)>>,
    /// The levels that are within an array
    listed: Vec<bool>,
    /// The first level is itself held back
    inside: bool,
}

impl Deep {
    fn gen(s: &mut Src) -> Self {
        let n = match s.weighted(&[4, 8, 2, 1]) {
            0 => s.range(120, 140),
            1 => s.range(250, 280),
            2 => s.range(500, 530),
            _ => s.range(65_530, 65_550),
        };
        // Far down, only the first levels and those 65 536 further have entries
        let plain = |at: usize| n > 1000 && at % 65_536 > 12;
        let lists = s.pick_copy(&[0, 0, 1, 4]);
        let sparse = s.pick_copy(&[2, 4, 8]);
        let mut next = 1000;
        let mut levels = Vec::new();
        let mut listed = Vec::new();
        for at in 0..n {
            let mut es = Vec::new();
            for k in (0..NEXT).filter(|_| !plain(at)) {
                if s.chance(2, sparse) {
                    next += 1;
                    es.push((k, next));
                }
            }
            if at + 1 < n {
                es.insert(s.below(es.len() + 1), (NEXT, 0));
            }
            levels.push(es);
            listed.push(at > 0 && !plain(at) && s.chance(lists, 8));
        }
        Self {
            levels,
            listed,
            inside: s.chance(1, 3),
        }
    }

    fn text(&self) -> String {
        let mut head = String::new();
        let mut tail = Vec::new();
        if self.inside {
            head.push_str("{\"o\":");
            tail.push(",\"last\":7}".to_string());
        }
        for (es, listed) in self.levels.iter().zip(&self.listed) {
            let mut end = String::new();
            head.push_str(if *listed { "[{" } else { "{" });
            let mut past = false;
            for (at, (k, v)) in es.iter().enumerate() {
                let out = if past { &mut end } else { &mut head };
                if at > 0 {
                    out.push(',');
                }
                let _ = write!(out, "\"{}\":", NAMES[*k]);
                if *k == NEXT {
                    past = true;
                } else {
                    let _ = write!(out, "{v}");
                }
            }
            end.push_str(if *listed { "}]" } else { "}" });
            tail.push(end);
        }
        while let Some(end) = tail.pop() {
            head.push_str(&end);
        }
        head
    }

    fn read<T: TextReader>(&self, mut d: D<T>, s: &mut Src, log: &mut Vec<String>) -> R
    where
        T::Position: std::fmt::Display,
    {
        if self.inside {
            ok!("open", d.open_object());
            ensure!(
                ok!("last", d.try_push_entry("last")),
                "value",
                "no entry \"last\""
            );
            ok!("last", d.get_u8());
            ensure!(ok!("o", d.try_push_entry("o")), "value", "no entry \"o\"");
        }
        let ask = s.pick_copy(&[1, 3, 8]);
        let mut left = self.levels.clone();
        let mut at = 0;
        let mut down = true;
        let mut arrived = true;
        loop {
            let es = &mut left[at];
            if arrived && down {
                if self.listed[at] {
                    ok!("open", d.open_list());
                    ensure!(ok!("item", d.next_item()), "value", "level {at}: no item");
                }
                ok!("open", d.open_object());
            }
            arrived = false;
            let more = down && at + 1 < self.levels.len();
            // What to ask for: a name, or the next entry
            let k = if self.levels.len() > 1000 && self.levels[at].len() < 2 {
                if more {
                    NEXT
                } else {
                    usize::MAX
                }
            } else {
                match s.weighted(&[ask, 2, if more { 4 } else { 0 }]) {
                    0 => s.below(NEXT),
                    1 => usize::MAX,
                    _ => NEXT,
                }
            };
            let found = if k == usize::MAX {
                let got = ok!("next_entry", d.next_entry());
                ensure!(
                    got != es.is_empty(),
                    "value",
                    "level {at}: {} entries are left, but next_entry says {got}",
                    es.len()
                );
                if got {
                    let key = ok!("key", d.flush_str()).into_owned();
                    let (k, v) = es.remove(0);
                    log.push(format!("level {at}: iterated to {key}"));
                    ensure!(
                        key == NAMES[k],
                        "value",
                        "level {at}: the next entry is {:?}, but {key:?} was delivered",
                        NAMES[k]
                    );
                    Some((k, v))
                } else {
                    // The object is closed
                    if self.levels[at].len() > 1 {
                        log.push(format!("level {at}: closed"));
                    }
                    if self.listed[at] {
                        ensure!(
                            !ok!("item", d.next_item()),
                            "value",
                            "level {at}: a second item"
                        );
                    }
                    down = false;
                    if at == 0 {
                        break;
                    }
                    at -= 1;
                    continue;
                }
            } else {
                let got = ok!("try_push_entry", d.try_push_entry(NAMES[k]));
                if self.levels[at].len() > 1 {
                    log.push(format!("level {at}: {} {got}", NAMES[k]));
                }
                let i = es.iter().position(|(o, _)| *o == k);
                ensure!(
                    got == i.is_some(),
                    "value",
                    "level {at}: asked for {:?}, the session says {got}, the document {}",
                    NAMES[k],
                    i.is_some()
                );
                i.map(|i| es.remove(i))
            };
            match found {
                Some((NEXT, _)) => {
                    at += 1;
                    arrived = true;
                    down = true;
                }
                Some((k, v)) => {
                    let got = ok!("get_u32", d.get_u32()) as usize;
                    ensure!(
                        got == v,
                        "value",
                        "level {at}: the document has {v} under {:?}, but {got} was delivered",
                        NAMES[k]
                    );
                }
                None => (),
            }
        }
        if self.inside {
            ensure!(
                !ok!("entry", d.next_entry()),
                "value",
                "there is an entry past \"last\""
            );
        }
        ok!("close", d.close());
        Ok(())
    }
}

/// Reads the text with `$read`, from memory or from bytes that arrive in pieces.
macro_rules! over {
    ($ctx:expr, $text:expr, $d:ident => $read:expr) => {{
        let strict = TextDeserializerConfig::strict();
        if $ctx.src.chance(1, 2) {
            let $d = ok!("new", TextDeserializer::new(strict, $text.as_str()));
            $read
        } else {
            let plan = ReadPlan::gen_delivery(&mut $ctx.src, $text.len());
            let source = SimRead::new($text.as_bytes(), plan);
            let st = source.state.clone();
            let r = ok!("source", Utf8Reader::new(source));
            let $d = ok!("new", TextDeserializer::new(strict, r));
            let res = $read;
            st.count($ctx);
            res
        }
    }};
}

pub fn c05(ctx: &mut Ctx) -> R {
    ctx.nontrivial = true;
    if ctx.src.chance(1, 2) {
        ctx.probe("probe.wide_document");
        let wide = Wide::gen(&mut ctx.src);
        ctx.log(|| {
            format!(
                "{} with {} parts of {} kinds (held back: {}), keys {:?}N, requested {:?} (and one that is absent before request {}), skipped every {}",
                if wide.array { "array" } else { "object" },
                wide.n,
                wide.kinds,
                wide.inside,
                wide.stem,
                wide.order,
                wide.absent,
                wide.skip
            )
        });
        let text = wide.text();
        ctx.note_n(wide.n);
        for i in &wide.order {
            ctx.note_n(*i);
        }
        ctx.stats.ticks += wide.n as u64;
        return over!(ctx, text, d => wide.read(d));
    }
    ctx.probe("probe.deep_document");
    let deep = Deep::gen(&mut ctx.src);
    let text = deep.text();
    ctx.note(text.as_bytes());
    ctx.log(|| format!("text: {text:?}"));
    let mut log = Vec::new();
    let res = over!(ctx, text, d => deep.read(d, &mut ctx.src, &mut log));
    ctx.stats.ticks += log.len() as u64;
    for l in &log {
        ctx.note(l.as_bytes());
        ctx.log(|| format!("   {l}"));
    }
    res
}
