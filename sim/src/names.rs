//! C14: tables of names, looked up in pieces by any number of lookups at once, and from documents.

use crate::ctx::{fail, Ctx, R};
use crate::ensure;
use crate::node::*;
use crate::rops::{session_with, Checks, Lean};
use crate::src::Src;
use serdere::{FixedNameMap, NameMap};
use std::sync::LazyLock;

/// Characters whose encodings share first bytes, differ in length, or are at the edges.
const LETTERS: &[&str] = &[
    "a", "b", "c", "z", "A", "_", "0", "1", "\u{e9}", "\u{e8}", "\u{ea}", "\u{e4}", "\u{4e2d}",
    "\u{4e2e}", "\u{4e00}", "\u{1f600}", "\u{1f601}", "\u{1f64f}", "\u{7f}", "\u{80}", "\u{7ff}",
    "\u{800}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "\0", "\u{1}", " ", "\"", "\\", "/", "\n",
    "e\u{301}", "fi", "\u{fb01}",
];

/// All names that occur in tables, by theme: in each theme, names share prefixes.
static POOL: LazyLock<Vec<Vec<&'static str>>> = LazyLock::new(|| {
    let mut s = Src::seeded(0xC14, "names", 0);
    let mut out: Vec<Vec<&'static str>> = Vec::new();
    // Few letters, all short names
    for letters in [&["a", "b"][..], &["a", "\u{e9}", "\u{e8}"], &["\u{1f600}", "\u{1f601}", "f"], &["\0", "\u{1}", "\u{7f}"]] {
        let mut names = vec![String::new()];
        let mut from = 0;
        while names.len() < 120 {
            let to = names.len();
            for i in from..to {
                for l in letters {
                    names.push(format!("{}{l}", names[i]));
                }
            }
            from = to;
        }
        out.push(names.into_iter().map(|n| &*n.leak()).collect());
    }
    // A tree of names grown from each other
    for _ in 0..12 {
        let count = 3 + s.below(5);
        let letters: Vec<&str> = (0..count).map(|_| LETTERS[s.below(LETTERS.len())]).collect();
        let mut names: Vec<String> = vec![String::new()];
        while names.len() < 160 {
            let mut n = names[s.below(names.len())].clone();
            for _ in 0..1 + s.below(4) {
                n.push_str(letters[s.below(letters.len())]);
            }
            if s.below(12) == 0 {
                n = n.repeat(2 + s.below(12));
            }
            if n.len() < 600 && !names.contains(&n) {
                names.push(n);
            }
        }
        out.push(names.into_iter().map(|n| &*n.leak()).collect());
    }
    // Usual names
    let mut names: Vec<&'static str> = Vec::new();
    for stem in ["get", "set", "value", "name", "item", "has", "is"] {
        for tail in ["", "s", "_", "_id", "_ids", "_name", "_names", "Id", "0", "1", "10", "11", "_of"] {
            for lead in ["", "un", "re"] {
                names.push(format!("{lead}{stem}{tail}").leak());
            }
        }
    }
    out.push(names);
    // Many names: as common as the others only where tables are large
    let mut names: Vec<&'static str> = Vec::new();
    for i in 0..700 {
        names.push(match i % 4 {
            0 => format!("n{i}"),
            1 => format!("{}", i / 4),
            2 => format!("\u{e9}{}", "a".repeat(i / 4)),
            _ => format!("{:x}", i * 7919),
        }.leak());
    }
    out.push(names);
    // Names around the lengths at which a count kept in fewer bits would wrap
    let mut names: Vec<&'static str> = vec!["", "x", "xx", "a", "xa"];
    for n in [127, 128, 254, 255, 256, 257, 258, 65_534, 65_535, 65_536, 65_537, 65_538] {
        names.push("x".repeat(n).leak());
        names.push(format!("{}a", "x".repeat(n)).leak());
    }
    out.push(names);
    out
});

/// How many themes there are that are not large.
const LARGE: usize = 2;

/// A table of names in use for one run.
struct Table {
    entries: Vec<(&'static str, usize)>,
    map: &'static NameMap<usize>,
    /// What `map` really borrows.
    _owner: Box<dyn std::any::Any>,
}

fn build<const N: usize>(entries: &[(&'static str, usize)]) -> Table {
    let a: [(&'static str, usize); N] = std::array::from_fn(|i| entries[i]);
    let fixed = Box::new(FixedNameMap::new(a));
    // Names are looked up in documents with tables that live forever. This one lives as long as
    // the run, which is longer than anything that refers to it.
    let map: &'static NameMap<usize> = unsafe { &*std::ptr::from_ref(fixed.unfix()) };
    Table {
        entries: entries.to_vec(),
        map,
        _owner: fixed,
    }
}

macro_rules! sizes {
    ($($n:literal)*) => {
        const SIZES: &[usize] = &[$($n),*];
        fn build_any(entries: &[(&'static str, usize)]) -> Table {
            match entries.len() {
                $($n => build::<$n>(entries),)*
                n => unreachable!("{n}"),
            }
        }
    };
}

sizes!(0 1 2 3 4 5 6 7 8 9 10 11 12 13 15 16 17 20 24 31 32 33 40 48 63 64 65 80 100 127 128 129 254 255 256 257 300);
const LARGE_SIZES: usize = 8;

/// A table of many names, or of some very long ones.
fn gen_large_table(s: &mut Src) -> (Table, usize) {
    let many = s.chance(2, 3);
    let theme = POOL.len() - if many { 2 } else { 1 };
    let pool = &POOL[theme];
    let n = if many {
        SIZES[SIZES.len() - 1 - s.below(LARGE_SIZES)]
    } else {
        SIZES[s.range(1, 12)]
    };
    // Every so many of the pool, which has no common divisor with the step
    let (from, step) = (s.below(pool.len()), s.pick_copy(&[1, 11, 13]));
    let entries: Vec<_> = (0..n).map(|i| (pool[(from + i * step) % pool.len()], i + 1)).collect();
    (build_any(&entries), theme)
}

fn gen_table(s: &mut Src) -> (Table, usize) {
    if s.chance(1, 400) {
        return gen_large_table(s);
    }
    let theme = s.below(POOL.len() - LARGE);
    let pool = &POOL[theme];
    let max = match s.weighted(&[5, 3, 1]) {
        0 => 9,
        1 => 18,
        _ => SIZES.len() - LARGE_SIZES,
    };
    let n = SIZES[s.below(max)].min(pool.len());
    let mut names: Vec<&'static str> = Vec::new();
    // Neighbours of each other, or from all over
    let near = s.chance(1, 2);
    let base = s.below(pool.len());
    while names.len() < n {
        let at = if near {
            (base + s.below(2 * n)) % pool.len()
        } else {
            s.below(pool.len())
        };
        // The next one not yet taken
        for i in 0..pool.len() {
            let name = pool[(at + i) % pool.len()];
            if !names.contains(&name) {
                names.push(name);
                break;
            }
        }
    }
    match s.below(3) {
        0 => (),
        1 => names.sort_unstable(),
        _ => {
            names.sort_unstable();
            names.reverse();
        }
    }
    // Values that say which entry they belong to
    let off = s.pick_copy(&[0, 1, 1000]);
    let entries: Vec<_> = names.into_iter().enumerate().map(|(i, n)| (n, i + off)).collect();
    (build_any(&entries), theme)
}

/// A name in the table, or close to one.
fn gen_name(s: &mut Src, t: &Table, theme: usize) -> String {
    let pool = &POOL[theme];
    let base = if t.entries.is_empty() {
        pool[s.below(pool.len())]
    } else {
        t.entries[s.below(t.entries.len())].0
    };
    match s.weighted(&[6, 2, 2, 2, 2, 1]) {
        0 => base.to_string(),
        1 => pool[s.below(pool.len())].to_string(),
        // Cut short
        2 => {
            let mut n = base.to_string();
            let to = s.below(n.chars().count() + 1);
            n = n.chars().take(to).collect();
            n
        }
        // Longer
        3 => {
            let mut n = base.to_string();
            n.push_str(LETTERS[s.below(LETTERS.len())]);
            n
        }
        // One character replaced
        4 => {
            let mut c: Vec<char> = base.chars().collect();
            if !c.is_empty() {
                let i = s.below(c.len());
                let to = LETTERS[s.below(LETTERS.len())].chars().next().unwrap_or('a');
                // Often the neighbouring one
                c[i] = match s.below(3) {
                    0 => to,
                    1 => char::from_u32(c[i] as u32 + 1).unwrap_or(to),
                    _ => char::from_u32((c[i] as u32).saturating_sub(1)).unwrap_or(to),
                };
            }
            c.into_iter().collect()
        }
        _ => gen_string(s),
    }
}

fn want(t: &Table, name: &str) -> Option<usize> {
    t.entries.iter().find(|(k, _)| *k == name).map(|(_, v)| *v)
}

fn tables(ctx: &mut Ctx) -> Vec<(Table, usize)> {
    let n = ctx.src.weighted(&[0, 3, 1]);
    let ts: Vec<_> = (0..n).map(|_| gen_table(&mut ctx.src)).collect();
    for (i, (t, _)) in ts.iter().enumerate() {
        ctx.log(|| format!("table {i}: {:?}", t.entries));
        for (k, v) in &t.entries {
            ctx.note(k.as_bytes());
            ctx.note_n(*v);
        }
    }
    ts
}

struct Active<'a> {
    look: serdere_lookup::Lookup<'a>,
    table: usize,
    name: String,
    written: usize,
    pieces: usize,
}

/// The type of a lookup in progress, which the library does not name.
mod serdere_lookup {
    use serdere::NameMap;

    pub enum Piece<'p> {
        Char(char),
        Str(&'p str),
        Bytes(&'p [u8]),
    }

    type Step<'a> = Box<dyn FnMut(Option<Piece>) -> Option<Option<&'a usize>> + 'a>;

    pub struct Lookup<'a>(Step<'a>);

    impl<'a> Lookup<'a> {
        pub fn new(map: &'a NameMap<usize>) -> Self {
            let mut l = map.lookup();
            Self(Box::new(move |p| {
                match p {
                    Some(Piece::Char(c)) => l.write_char(c),
                    Some(Piece::Str(s)) => l.write_str(s),
                    Some(Piece::Bytes(b)) => l.write_bytes(b),
                    None => return Some(l.result()),
                }
                None
            }))
        }

        pub fn write(&mut self, p: Piece) {
            (self.0)(Some(p));
        }

        pub fn result(&mut self) -> Option<usize> {
            (self.0)(None).expect("a result was asked for").copied()
        }
    }
}

use serdere_lookup::{Lookup, Piece};

/// Any number of lookups, interleaved.
fn lookups(ctx: &mut Ctx) -> R {
    let ts = tables(ctx);
    for (t, _) in &ts {
        ensure!(
            t.map.size() == t.entries.len(),
            "table",
            "size() is {}, but there are {} entries",
            t.map.size(),
            t.entries.len()
        );
        let mut got: Vec<(&str, usize)> = t.map.entries().map(|(k, v)| (k, *v)).collect();
        let mut all = t.entries.clone();
        got.sort_unstable();
        all.sort_unstable();
        ensure!(got == all, "table", "entries() yields {got:?} for {all:?}");
    }
    let total = ctx.src.range(1, 10);
    let width = ctx.src.range(1, 4);
    let mut started = 0;
    let mut active: Vec<Active> = Vec::new();
    let mut overlapping = 0u64;
    loop {
        let s = &mut ctx.src;
        let start = started < total && (active.is_empty() || (active.len() < width && s.chance(1, 3)));
        if start {
            let table = s.below(ts.len());
            let (t, theme) = &ts[table];
            let name = gen_name(s, t, *theme);
            ctx.log(|| format!("lookup {started} in table {table}: {name:?}"));
            ctx.note(name.as_bytes());
            ctx.note_n(table);
            started += 1;
            active.push(Active {
                look: Lookup::new(t.map),
                table,
                name,
                written: 0,
                pieces: 0,
            });
            continue;
        }
        if active.is_empty() {
            break;
        }
        if active.len() > 1 {
            overlapping += 1;
        }
        let s = &mut ctx.src;
        let i = s.below(active.len());
        let a = &mut active[i];
        let t = &ts[a.table].0;
        let rest = &a.name.as_bytes()[a.written..];
        // At the end of a character, anything may be written, or asked
        let whole = a.name.is_char_boundary(a.written);
        let n = match s.weighted(&[4, 2, 2, 1]) {
            0 => rest.len(),
            1 => 1.min(rest.len()),
            2 => s.range(0, rest.len()),
            _ => 0,
        };
        let end = a.written + n;
        let (at, table) = (a.written, a.table);
        let is_str = whole && a.name.is_char_boundary(end);
        let how = if is_str { s.below(3) } else { 2 };
        match how {
            0 => a.look.write(Piece::Str(&a.name[at..end])),
            1 => {
                for c in a.name[at..end].chars() {
                    a.look.write(Piece::Char(c));
                }
            }
            _ => a.look.write(Piece::Bytes(&a.name.as_bytes()[at..end])),
        }
        a.written = end;
        a.pieces += 1;
        ctx.stats.ticks += 1;
        if ctx.trace.is_some() {
            let what = ["write_str", "write_char", "write_bytes"][how];
            let piece = String::from_utf8_lossy(&a.name.as_bytes()[at..end]).into_owned();
            let name = a.name.clone();
            ctx.log(|| format!("   {what} bytes {at}..{end} ({piece:?}) of {name:?}, table {table}"));
        }
        ctx.note_n(i * 4096 + end * 4 + how);
        let done = end == a.name.len();
        if a.name.is_char_boundary(end) && (done || ctx.src.chance(1, 2)) {
            let sofar = &a.name[..end];
            let got = a.look.result();
            let want = want(t, sofar);
            ctx.log(|| format!("      -> {got:?}"));
            if got != want {
                return fail(
                    "lookup",
                    format!(
                        "looking up {sofar:?} in {} pieces yields {got:?}, the table says {want:?}",
                        a.pieces
                    ),
                );
            }
            if want.is_some() {
                ctx.stats.add("probe.found", 1);
            } else {
                ctx.stats.add("probe.not_found", 1);
            }
        }
        if done && ctx.src.chance(7, 8) {
            let a = active.swap_remove(i);
            let t = &ts[a.table].0;
            let got = t.map.get(&a.name).copied();
            let want = want(t, &a.name);
            ensure!(
                got == want,
                "lookup",
                "get({:?}) yields {got:?}, the table says {want:?}",
                a.name
            );
            if a.pieces > 1 {
                ctx.nontrivial = true;
            }
        }
    }
    ctx.count("probe.steps_with_several_lookups", overlapping);
    Ok(())
}

/// A document whose strings and keys are names, or close to them.
fn gen_named(s: &mut Src, t: &Table, theme: usize, o: &mut GenOpts, depth: usize) -> Node {
    o.budget = o.budget.saturating_sub(1);
    let leaf = depth >= o.depth || o.budget == 0;
    let w: &[usize] = if leaf {
        &[6, 2]
    } else if depth == 0 {
        &[1, 1, 2, 8]
    } else {
        &[6, 2, 2, 3]
    };
    match s.weighted(w) {
        0 => Node::Str(gen_name(s, t, theme)),
        1 => Node::Num(match s.below(4) {
            0 => format!("-{}", 1 + s.below(3)),
            1 => gen_num_text(s),
            _ => s.below(t.entries.len() + 3).to_string(),
        }),
        2 => {
            let n = s.size(o.max_width);
            let mut v = Vec::new();
            for _ in 0..n {
                if o.budget > 0 {
                    v.push(gen_named(s, t, theme, o, depth + 1));
                }
            }
            Node::Arr(v)
        }
        _ => {
            let n = s.size(o.max_width);
            let mut v: Vec<(String, Node)> = Vec::new();
            for _ in 0..n {
                let key = if s.chance(1, 2) {
                    gen_name(s, t, theme)
                } else {
                    gen_key(s)
                };
                if o.budget > 0 && !v.iter().any(|(k, _)| *k == key) {
                    v.push((key, gen_named(s, t, theme, o, depth + 1)));
                }
            }
            Node::Obj(v)
        }
    }
}

/// Tags and names read from documents, streaming or held back, in any delivery.
fn documents(ctx: &mut Ctx) -> R {
    let (t, theme) = gen_table(&mut ctx.src);
    ctx.log(|| format!("table: {:?}", t.entries));
    for (k, v) in &t.entries {
        ctx.note(k.as_bytes());
        ctx.note_n(*v);
    }
    let s = &mut ctx.src;
    let mut o = GenOpts::swarm(s);
    let node = gen_named(s, &t, theme, &mut o, 0);
    let comments = s.chance(1, 4);
    let doc = Doc::of(s, &node, comments);
    let mut lean = Lean::swarm(s);
    lean.tags = s.pick_copy(&[8, 30]);
    lean.wrong_names = s.pick_copy(&[0, 2, 10, 40]);
    let checks = Checks {
        values: true,
        ..Default::default()
    };
    let max = t.entries.len() + 1;
    let (ops, held, wrong) = session_with(ctx, &doc, lean, checks, (t.map, max))?;
    if ops > 3 {
        ctx.nontrivial = true;
    }
    ctx.count("probe.values_delivered_from_hold", held as u64);
    ctx.count("probe.unknown_names_refused", wrong as u64);
    Ok(())
}

pub fn c14(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[3, 2]) {
        0 => lookups(ctx),
        _ => documents(ctx),
    }
}
