//! The document model: generation, rendering and an independent reference parser.

use crate::src::Src;

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Null,
    Bool(bool),
    /// The text of the number.
    Num(String),
    Str(String),
    Arr(Vec<Node>),
    Obj(Vec<(String, Node)>),
}

/// A parsed value with the character span it covers.
#[derive(Clone, Debug)]
pub struct SNode {
    pub start: usize,
    pub end: usize,
    pub kind: SKind,
}

#[derive(Clone, Debug)]
pub enum SKind {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<SNode>),
    Obj(Vec<SEntry>),
}

#[derive(Clone, Debug)]
pub struct SEntry {
    pub key: String,
    /// Index of the key's opening quote.
    pub kstart: usize,
    /// Index just past the key's closing quote.
    pub kend: usize,
    pub val: SNode,
}

impl SNode {
    pub fn to_node(&self) -> Node {
        match &self.kind {
            SKind::Null => Node::Null,
            SKind::Bool(b) => Node::Bool(*b),
            SKind::Num(t) => Node::Num(t.clone()),
            SKind::Str(s) => Node::Str(s.clone()),
            SKind::Arr(items) => Node::Arr(items.iter().map(SNode::to_node).collect()),
            SKind::Obj(es) => Node::Obj(
                es.iter()
                    .map(|e| (e.key.clone(), e.val.to_node()))
                    .collect(),
            ),
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Text with positions

/// A text together with what is needed to convert between the ways of naming a place in it.
pub struct Text {
    pub text: String,
    pub chars: Vec<char>,
    /// Byte offset of each character, and of the end.
    pub boff: Vec<usize>,
    /// Line of each character, and of the end, and the least and the greatest column for it: how
    /// wide a tab is (one to eight) and whether a carriage return counts is not specified.
    lc: Vec<(usize, usize, usize)>,
}

impl Text {
    pub fn new(text: String) -> Self {
        let chars: Vec<char> = text.chars().collect();
        let mut boff = Vec::with_capacity(chars.len() + 1);
        let mut lc = Vec::with_capacity(chars.len() + 1);
        let (mut b, mut l, mut min, mut max) = (0, 0, 0, 0);
        for ch in &chars {
            boff.push(b);
            lc.push((l, min, max));
            b += ch.len_utf8();
            match ch {
                '\n' => {
                    l += 1;
                    (min, max) = (0, 0);
                }
                '\t' => (min, max) = (min + 1, max + 8),
                '\r' => max += 1,
                _ => (min, max) = (min + 1, max + 1),
            }
        }
        boff.push(b);
        lc.push((l, min, max));
        Self {
            text,
            chars,
            boff,
            lc,
        }
    }

    pub fn len(&self) -> usize {
        self.chars.len()
    }

    pub fn lc(&self, idx: usize) -> (usize, usize, usize) {
        self.lc[idx]
    }

    /// The character that contains the given byte offset.
    pub fn char_at_byte(&self, b: usize) -> usize {
        match self.boff.binary_search(&b) {
            Ok(i) => i,
            Err(i) => i - 1,
        }
    }
}

/// A place in a text as reported by one of the kinds of reader.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Loc {
    Idx(usize),
    Lc(usize, usize),
}

impl Loc {
    /// Is this the place of the character with the given index?
    pub fn is_at(&self, text: &Text, idx: usize) -> bool {
        match *self {
            Loc::Idx(i) => i == idx,
            Loc::Lc(l, c) => {
                let (el, min, max) = text.lc(idx);
                l == el && (min..=max).contains(&c)
            }
        }
    }

    /// Can the two name the same place?
    pub fn agrees(&self, other: &Loc, text: &Text) -> bool {
        match (*self, *other) {
            (Loc::Idx(a), o) if a <= text.len() => o.is_at(text, a),
            (o, Loc::Idx(a)) if a <= text.len() => o.is_at(text, a),
            (Loc::Lc(a, b), Loc::Lc(c, d)) => a == c && b == d,
            _ => false,
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Generation

const CHARS: &[char] = &[
    'a', 'b', 'c', 'x', 'y', 'z', '0', '9', ' ', '"', '\\', '/', '\n', '\t', '\r', '\u{8}',
    '\u{c}', '\u{0}', '\u{1}', '\u{1f}', '\u{7f}', '\u{80}', '\u{e9}', '\u{7ff}', '\u{800}',
    '\u{2028}', '\u{20ac}', '\u{d7ff}', '\u{e000}', '\u{feff}', '\u{fffd}', '\u{ffff}',
    '\u{10000}', '\u{1f600}', '\u{10ffff}', '{', '}', '[', ']', ':', ',', '*', 'u', 'n', 't',
    'A', 'Z', 'E', '+', '-', '.', '_', '~', '\'', '<', '&', '\u{85}', '\u{a0}', '\u{ad}', '\u{ff}',
    '\u{100}', '\u{3000}', '\u{202e}', '\u{2029}', '\u{fdd0}', '\u{fffe}', '\u{1ffff}',
    '\u{3ffff}', '\u{40000}', '\u{fffff}', '\u{100000}', '\u{b}', '\u{1b}',
];

pub fn gen_char(s: &mut Src) -> char {
    match s.weighted(&[8, 8, 2, 1]) {
        0 => (b'a' + s.below(26) as u8) as char,
        1 => s.pick_copy(CHARS),
        2 => (b' ' + s.below(95) as u8) as char,
        _ => char::from_u32(s.below(0x11_0000) as u32).unwrap_or('\u{e9}'),
    }
}

pub fn gen_string(s: &mut Src) -> String {
    let len = match s.weighted(&[160, 80, 20, 1]) {
        0 => s.range(0, 6),
        1 => s.range(0, 20),
        2 => s.range(0, 150),
        _ => {
            // Longer than any buffer on the way is likely to be
            let piece: String = (0..s.range(1, 12)).map(|_| gen_char(s)).collect();
            let head: String = (0..s.range(0, 4)).map(|_| gen_char(s)).collect();
            return head + &piece.repeat(s.range(1, 400));
        }
    };
    (0..len).map(|_| gen_char(s)).collect()
}

pub const KEYS: &[&str] = &[
    "a", "b", "ab", "abc", "abcd", "", "type", "name", "value", "na", "names", "x y", "k\"q",
    "k\\", "\u{e9}", "\u{e9}t", "\u{1f600}", "\u{1f600}\u{1f601}", "tab\t", "\n", "key0", "key1",
    "key10", "key11", "has_value", "0", "ключ", "\u{7f}", "aa", "aab", "ba", "/", "\u{1}", "A",
];

pub fn gen_key(s: &mut Src) -> String {
    match s.weighted(&[6, 2, 1]) {
        0 => s.pick(KEYS).to_string(),
        1 => format!("k{}", s.below(40)),
        _ => gen_string(s),
    }
}

pub fn gen_int_text(s: &mut Src) -> String {
    const EDGE: &[&str] = &[
        "0", "1", "-1", "-0", "7", "127", "128", "-128", "-129", "255", "256", "32767", "32768",
        "-32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "4294967295",
        "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808",
        "-9223372036854775809", "18446744073709551615", "18446744073709551616", "10", "100",
        "1000000", "123456789012345678901234567890", "-10",
    ];
    match s.weighted(&[3, 3, 2]) {
        0 => s.below(1000).to_string(),
        1 => s.pick(EDGE).to_string(),
        _ => {
            let v = s.bits() >> s.below(64);
            if s.chance(1, 2) {
                format!("-{v}")
            } else {
                v.to_string()
            }
        }
    }
}

pub fn gen_num_text(s: &mut Src) -> String {
    match s.weighted(&[10, 8, 2, 1]) {
        0 => gen_int_text(s),
        3 => gen_halfway(s),
        1 => {
            let mut t = String::new();
            if s.chance(1, 4) {
                t.push('-');
            }
            let int_len = match s.weighted(&[6, 2]) {
                0 => s.range(0, 3),
                _ => s.range(0, 40),
            };
            if int_len == 0 {
                t.push('0');
            } else {
                t.push((b'1' + s.below(9) as u8) as char);
                for _ in 1..int_len {
                    t.push((b'0' + s.below(10) as u8) as char);
                }
            }
            if s.chance(1, 2) {
                t.push('.');
                let n = match s.weighted(&[6, 2]) {
                    0 => s.range(1, 4),
                    _ => s.range(1, 40),
                };
                for _ in 0..n {
                    t.push((b'0' + s.below(10) as u8) as char);
                }
            }
            if s.chance(1, 2) {
                t.push(s.pick_copy(&['e', 'E']));
                t.push_str(s.pick(&["", "+", "-"]));
                let e = match s.weighted(&[6, 3, 1]) {
                    0 => s.range(0, 9),
                    1 => s.range(0, 400),
                    _ => s.range(0, 70000),
                };
                if s.chance(1, 8) {
                    t.push('0');
                }
                t.push_str(&e.to_string());
            }
            t
        }
        _ => {
            let f = f64::from_bits(s.bits());
            if f.is_finite() {
                format!("{f:e}")
            } else {
                "0.5".to_string()
            }
        }
    }
}

/// A number halfway between two adjacent floats, or just beside that, where rounding twice
/// goes wrong.
fn gen_halfway(s: &mut Src) -> String {
    let bits = s.pick_copy(&[24u32, 53]);
    let top = 1u64 << (bits - 1);
    let half = u128::from((top | (s.bits() & (top - 1))) * 2 + 1);
    let (mut n, point) = if s.chance(1, 2) {
        (half << s.below(41), 0)
    } else {
        let places = s.range(1, 20);
        (half * 5u128.pow(places as u32), places)
    };
    let tail = match s.weighted(&[1, 2, 2]) {
        0 => String::new(),
        1 => "0".repeat(s.below(30)) + "1",
        _ => {
            n -= 1;
            "9".repeat(s.range(1, 30))
        }
    };
    let mut t = n.to_string();
    if t.len() <= point {
        t.insert_str(0, &"0".repeat(point + 1 - t.len()));
    }
    if point > 0 || !tail.is_empty() {
        t.insert(t.len() - point, '.');
    }
    t.push_str(&tail);
    if s.chance(1, 2) {
        t.insert(0, '-');
    }
    t
}

pub struct GenOpts {
    pub depth: usize,
    /// An upper bound on the number of nodes, roughly.
    pub budget: usize,
    pub max_width: usize,
    pub dup_keys: bool,
    /// Down to this depth, everything is an array or an object with something in it.
    pub spine: usize,
}

impl GenOpts {
    pub fn swarm(s: &mut Src) -> Self {
        let (big, spine) = match s.weighted(&[92, 5, 3]) {
            0 => (false, 0),
            1 => (true, 0),
            _ if s.chance(1, 30) => (false, s.range(250, 265)),
            _ => (false, s.range(7, 50)),
        };
        Self {
            depth: spine + s.range(1, 6),
            budget: if big { 400 } else { 2 * spine + s.range(1, 40) },
            max_width: if big { 120 } else { s.range(1, 12) },
            dup_keys: s.chance(1, 4),
            spine,
        }
    }
}

pub fn gen_node(s: &mut Src, o: &mut GenOpts, depth: usize) -> Node {
    o.budget = o.budget.saturating_sub(1);
    let leaf = depth >= o.depth || o.budget == 0;
    let k = if leaf {
        s.weighted(&[1, 2, 4, 4])
    } else if depth == 0 {
        s.weighted(&[1, 1, 2, 2, 6, 12])
    } else if depth < o.spine {
        s.weighted(&[0, 0, 0, 0, 1, 1])
    } else {
        s.weighted(&[2, 2, 4, 4, 4, 5])
    };
    match k {
        0 => Node::Null,
        1 => Node::Bool(s.chance(1, 2)),
        2 => Node::Num(gen_num_text(s)),
        3 => Node::Str(gen_string(s)),
        4 => {
            let n = s.size(o.max_width).max(usize::from(depth < o.spine));
            let mut v = Vec::new();
            for _ in 0..n {
                if o.budget == 0 {
                    break;
                }
                v.push(gen_node(s, o, depth + 1));
            }
            Node::Arr(v)
        }
        _ => {
            let n = s.size(o.max_width).max(usize::from(depth < o.spine));
            let mut v: Vec<(String, Node)> = Vec::new();
            for _ in 0..n {
                if o.budget == 0 {
                    break;
                }
                let mut key = gen_key(s);
                let mut dup = v.iter().any(|(k, _)| *k == key);
                if dup && (!o.dup_keys || s.chance(1, 2)) {
                    key = format!("{key}~{}", v.len());
                    dup = false;
                }
                let val = gen_node(s, o, depth + 1);
                if dup && !o.dup_keys {
                    continue;
                }
                v.push((key, val));
            }
            Node::Obj(v)
        }
    }
}

// ---------------------------------------------------------------------------------------------
// Rendering

#[derive(Clone, Copy)]
pub struct Style {
    /// 0: none, 1: single spaces, 2: arbitrary
    pub ws: usize,
    pub comments: bool,
    /// 0: minimal, 1: random escapes
    pub esc: usize,
    /// Parts are far apart: runs of blanks so long that a line or column kept in fewer bits would wrap
    pub far: bool,
}

impl Style {
    pub fn swarm(s: &mut Src, comments: bool) -> Self {
        let ws = s.below(3);
        Self {
            ws,
            comments: comments && s.chance(2, 3),
            esc: s.below(2),
            far: ws == 2 && s.chance(1, 400),
        }
    }
}

fn ws(s: &mut Src, st: &Style, out: &mut String) {
    if st.ws == 0 && !st.comments {
        return;
    }
    if st.ws == 1 && s.chance(2, 3) {
        out.push(' ');
    }
    if st.far && out.len() < 300_000 && s.chance(1, 4) {
        let n = match s.below(3) {
            0 => s.range(120, 130),
            1 => s.range(250, 260),
            _ => s.range(65_530, 65_540),
        };
        let ch = s.pick(&[" ", "\n", "\t", "\n "]);
        out.push_str(&ch.repeat(n / ch.len()));
        return;
    }
    if st.ws == 2 {
        let n = s.pick_copy(&[0, 0, 0, 1, 1, 2, 4]);
        for _ in 0..n {
            out.push(s.pick_copy(&[' ', '\n', '\t', '\r', ' ', '\n']));
        }
    }
    if st.comments && s.chance(1, 5) {
        out.push_str(s.pick(&[
            "/* c */",
            "/**/",
            "// line\n",
            "//\n",
            "/***/",
            "/* * / ** */",
            "// \"a\": 1 }\r\n",
            "/*\u{1f600}\n*/",
            "/* // */",
        ]));
        if st.ws > 0 && s.chance(1, 2) {
            out.push(' ');
        }
    }
}

pub fn render_str(s: &mut Src, st: &Style, v: &str, out: &mut String) {
    out.push('"');
    for ch in v.chars() {
        let forced = ch == '"' || ch == '\\' || ch < ' ';
        if forced || (st.esc == 1 && s.chance(1, 4)) {
            let short = match ch {
                '"' => Some("\\\""),
                '\\' => Some("\\\\"),
                '/' => Some("\\/"),
                '\u{8}' => Some("\\b"),
                '\u{c}' => Some("\\f"),
                '\n' => Some("\\n"),
                '\r' => Some("\\r"),
                '\t' => Some("\\t"),
                _ => None,
            };
            match short {
                Some(e) if st.esc == 0 || s.chance(1, 2) => out.push_str(e),
                _ => {
                    let upper = st.esc == 1 && s.chance(1, 2);
                    let mut buf = [0u16; 2];
                    for unit in ch.encode_utf16(&mut buf) {
                        if upper {
                            out.push_str(&format!("\\u{unit:04X}"));
                        } else {
                            out.push_str(&format!("\\u{unit:04x}"));
                        }
                    }
                }
            }
        } else {
            out.push(ch);
        }
    }
    out.push('"');
}

fn render_into(s: &mut Src, st: &Style, n: &Node, out: &mut String) {
    match n {
        Node::Null => out.push_str("null"),
        Node::Bool(b) => out.push_str(if *b { "true" } else { "false" }),
        Node::Num(t) => out.push_str(t),
        Node::Str(v) => render_str(s, st, v, out),
        Node::Arr(items) => {
            out.push('[');
            ws(s, st, out);
            for (i, item) in items.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    ws(s, st, out);
                }
                render_into(s, st, item, out);
                ws(s, st, out);
            }
            out.push(']');
        }
        Node::Obj(es) => {
            out.push('{');
            ws(s, st, out);
            for (i, (k, v)) in es.iter().enumerate() {
                if i > 0 {
                    out.push(',');
                    ws(s, st, out);
                }
                render_str(s, st, k, out);
                ws(s, st, out);
                out.push(':');
                ws(s, st, out);
                render_into(s, st, v, out);
                ws(s, st, out);
            }
            out.push('}');
        }
    }
}

/// Renders a document, with whitespace (and comments) around it if the style asks for it.
pub fn render(s: &mut Src, st: &Style, n: &Node) -> String {
    let mut out = String::new();
    ws(s, st, &mut out);
    render_into(s, st, n, &mut out);
    ws(s, st, &mut out);
    out
}

// ---------------------------------------------------------------------------------------------
// Reference parser

pub struct Parsed {
    pub root: SNode,
    /// A number with an exponent that does not fit any machine arithmetic is in the document.
    pub huge_exp: bool,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub struct ParseFail {
    pub idx: usize,
    /// The text ended before the document was complete.
    pub eof: bool,
    /// The text is JSON by the grammar, but a string has half a surrogate pair.
    pub surrogate: bool,
}

struct P<'a> {
    c: &'a [char],
    i: usize,
    comments: bool,
    huge_exp: bool,
    surrogate: Option<usize>,
}

type PR<T> = Result<T, ParseFail>;

impl P<'_> {
    fn fail<T>(&self, idx: usize) -> PR<T> {
        Err(ParseFail {
            idx,
            eof: idx >= self.c.len(),
            surrogate: false,
        })
    }

    fn peek(&self) -> Option<char> {
        self.c.get(self.i).copied()
    }

    fn ws(&mut self) -> PR<()> {
        loop {
            match self.peek() {
                Some(' ' | '\t' | '\n' | '\r') => self.i += 1,
                Some('/') if self.comments => match self.c.get(self.i + 1) {
                    Some('/') => {
                        self.i += 2;
                        loop {
                            match self.peek() {
                                Some('\n') => {
                                    self.i += 1;
                                    break;
                                }
                                Some(_) => self.i += 1,
                                None => return self.fail(self.i),
                            }
                        }
                    }
                    Some('*') => {
                        self.i += 2;
                        loop {
                            match (self.peek(), self.c.get(self.i + 1)) {
                                (Some('*'), Some('/')) => {
                                    self.i += 2;
                                    break;
                                }
                                (Some(_), _) => self.i += 1,
                                (None, _) => return self.fail(self.i),
                            }
                        }
                    }
                    _ => return self.fail(self.i + 1),
                },
                _ => return Ok(()),
            }
        }
    }

    fn lit(&mut self, t: &str) -> PR<()> {
        for ch in t.chars() {
            if self.peek() != Some(ch) {
                return self.fail(self.i);
            }
            self.i += 1;
        }
        Ok(())
    }

    fn digits(&mut self) -> PR<String> {
        let start = self.i;
        while matches!(self.peek(), Some('0'..='9')) {
            self.i += 1;
        }
        if self.i == start {
            return self.fail(self.i);
        }
        Ok(self.c[start..self.i].iter().collect())
    }

    fn num(&mut self) -> PR<String> {
        let start = self.i;
        if self.peek() == Some('-') {
            self.i += 1;
        }
        if self.peek() == Some('0') {
            self.i += 1;
        } else {
            self.digits()?;
        }
        let mut frac = 0i64;
        if self.peek() == Some('.') {
            self.i += 1;
            frac = self.digits()?.len() as i64;
        }
        if matches!(self.peek(), Some('e' | 'E')) {
            self.i += 1;
            let mut neg = false;
            if let Some(c @ ('+' | '-')) = self.peek() {
                neg = c == '-';
                self.i += 1;
            }
            let d = self.digits()?;
            let e: i64 = d.parse().unwrap_or(i64::MAX / 4);
            let e = if neg { -e } else { e };
            // The bound is that of a 32-bit exponent, which every sensible reader has
            if e.abs() > i64::from(i32::MAX) || (e - frac).abs() > i64::from(i32::MAX) {
                self.huge_exp = true;
            }
        }
        Ok(self.c[start..self.i].iter().collect())
    }

    fn hex4(&mut self) -> PR<u32> {
        let mut v = 0;
        for _ in 0..4 {
            let Some(d) = self.peek().and_then(|c| {
                if c.is_ascii() {
                    c.to_digit(16)
                } else {
                    None
                }
            }) else {
                return self.fail(self.i);
            };
            v = v * 16 + d;
            self.i += 1;
        }
        Ok(v)
    }

    fn str(&mut self) -> PR<String> {
        self.lit("\"")?;
        let mut units: Vec<u16> = Vec::new();
        let start = self.i;
        loop {
            match self.peek() {
                None => return self.fail(self.i),
                Some('"') => {
                    self.i += 1;
                    break;
                }
                Some('\\') => {
                    self.i += 1;
                    let c = self.peek();
                    let m = match c {
                        Some('"') => '"',
                        Some('\\') => '\\',
                        Some('/') => '/',
                        Some('b') => '\u{8}',
                        Some('f') => '\u{c}',
                        Some('n') => '\n',
                        Some('r') => '\r',
                        Some('t') => '\t',
                        Some('u') => {
                            self.i += 1;
                            units.push(self.hex4()? as u16);
                            continue;
                        }
                        _ => return self.fail(self.i),
                    };
                    self.i += 1;
                    units.push(m as u16);
                }
                Some(c) if (c as u32) < 0x20 => return self.fail(self.i),
                Some(c) => {
                    units.extend_from_slice(c.encode_utf16(&mut [0; 2]));
                    self.i += 1;
                }
            }
        }
        match String::from_utf16(&units) {
            Ok(s) => Ok(s),
            Err(_) => {
                self.surrogate.get_or_insert(start);
                Ok(String::from_utf16_lossy(&units))
            }
        }
    }

    fn value(&mut self) -> PR<SNode> {
        let start = self.i;
        let kind = match self.peek() {
            Some('n') => {
                self.lit("null")?;
                SKind::Null
            }
            Some('t') => {
                self.lit("true")?;
                SKind::Bool(true)
            }
            Some('f') => {
                self.lit("false")?;
                SKind::Bool(false)
            }
            Some('"') => SKind::Str(self.str()?),
            Some('-' | '0'..='9') => SKind::Num(self.num()?),
            Some('[') => {
                self.i += 1;
                self.ws()?;
                let mut items = Vec::new();
                if self.peek() == Some(']') {
                    self.i += 1;
                } else {
                    loop {
                        items.push(self.value()?);
                        self.ws()?;
                        match self.peek() {
                            Some(',') => self.i += 1,
                            Some(']') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.fail(self.i),
                        }
                        self.ws()?;
                    }
                }
                SKind::Arr(items)
            }
            Some('{') => {
                self.i += 1;
                self.ws()?;
                let mut es = Vec::new();
                if self.peek() == Some('}') {
                    self.i += 1;
                } else {
                    loop {
                        let kstart = self.i;
                        let key = self.str()?;
                        let kend = self.i;
                        self.ws()?;
                        self.lit(":")?;
                        self.ws()?;
                        let val = self.value()?;
                        es.push(SEntry {
                            key,
                            kstart,
                            kend,
                            val,
                        });
                        self.ws()?;
                        match self.peek() {
                            Some(',') => self.i += 1,
                            Some('}') => {
                                self.i += 1;
                                break;
                            }
                            _ => return self.fail(self.i),
                        }
                        self.ws()?;
                    }
                }
                SKind::Obj(es)
            }
            _ => return self.fail(self.i),
        };
        Ok(SNode {
            start,
            end: self.i,
            kind,
        })
    }
}

/// Parses a whole text as JSON (RFC 8259), optionally with comments where whitespace may be.
pub fn parse(chars: &[char], comments: bool) -> PR<Parsed> {
    let mut p = P {
        c: chars,
        i: 0,
        comments,
        huge_exp: false,
        surrogate: None,
    };
    p.ws()?;
    let root = p.value()?;
    p.ws()?;
    if p.i < p.c.len() {
        return p.fail(p.i);
    }
    if let Some(idx) = p.surrogate {
        return Err(ParseFail {
            idx,
            eof: false,
            surrogate: true,
        });
    }
    Ok(Parsed {
        root,
        huge_exp: p.huge_exp,
    })
}

/// The value of a number text as the nearest `f64`.
pub fn num_f64(t: &str) -> f64 {
    t.parse().expect("number text")
}

pub fn num_f32(t: &str) -> f32 {
    t.parse().expect("number text")
}

/// The integer an integer literal (no fraction or exponent) denotes, if it fits 128 bits.
pub fn num_int(t: &str) -> Option<i128> {
    if t.contains(['.', 'e', 'E']) {
        None
    } else {
        t.parse().ok()
    }
}

pub fn is_plain_int(t: &str) -> bool {
    !t.contains(['.', 'e', 'E'])
}

/// A rendered document and its reference parse.
pub struct Doc {
    pub t: Text,
    pub root: SNode,
    pub comments: bool,
}

impl Doc {
    pub fn of(s: &mut Src, node: &Node, comments: bool) -> Self {
        let st = Style::swarm(s, comments);
        let text = render(s, &st, node);
        Self::parse(text, comments)
    }

    pub fn parse(text: String, comments: bool) -> Self {
        let t = Text::new(text);
        let p = parse(&t.chars, comments).expect("generated document parses");
        Self {
            t,
            root: p.root,
            comments,
        }
    }
}
