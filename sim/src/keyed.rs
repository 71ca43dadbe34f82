//! Types which are written and read under a context: the context reaches every part once, in the
//! order of declaration, whatever the format. For C18.

use crate::ctx::{fail, Ctx, R};
use crate::ensure;
use crate::form::*;
use crate::io::*;
use crate::node::*;
use crate::src::Src;
use crate::typed::{render_sample, Freedom};
use crate::zoo::*;
use serdere::{Deserialize, Deserializer, Serialize, Serializer, Utf8Reader, Utf8Writer, Value};

/// What the parts are masked with. No two parts get the same, and it all depends on the order.
pub struct Key {
    next: u32,
    taken: u32,
}

impl Key {
    fn new(start: u32) -> Self {
        Self {
            next: start,
            taken: 0,
        }
    }

    fn take(&mut self) -> u32 {
        self.next = self.next.wrapping_mul(1_664_525).wrapping_add(1_013_904_223);
        self.taken += 1;
        self.next
    }
}

#[derive(Clone, Debug, PartialEq, Default)]
pub struct Keyed(u32);

impl<S: Serializer + ?Sized> Serialize<S, Key> for Keyed {
    const NULLABLE: bool = false;
    fn serialize(&self, value: Value<S>, key: &mut Key) -> Result<(), S::Error> {
        value.put_u32(self.0 ^ key.take())
    }
}

impl<D: Deserializer + ?Sized> Deserialize<D, Key> for Keyed {
    const NULLABLE: bool = false;
    fn deserialize(value: Value<D>, key: &mut Key) -> Result<Self, D::Error> {
        Ok(Keyed(value.get_u32()? ^ key.take()))
    }
}

/// Read through a proxy.
#[derive(Clone, Debug, PartialEq, Default)]
pub struct Behind(u32);
impl From<Keyed> for Behind {
    fn from(k: Keyed) -> Self {
        Behind(!k.0)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct KeyIn {
    p: Keyed,
    #[serde(rename = "k2")]
    q: Keyed,
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub enum KeyPick {
    Nothing,
    Pair {
        b: Keyed,
        a: Keyed,
    },
    #[serde(transparent)]
    In(KeyIn),
    Around {
        y: Vec<Keyed>,
        #[serde(flatten)]
        f: KeyIn,
        z: Option<Keyed>,
    },
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct KeyAll {
    z: Keyed,
    pick: KeyPick,
    #[serde(flatten)]
    f: KeyIn,
    o: Option<Keyed>,
    oo: Option<Option<Keyed>>,
    v: Vec<KeyIn>,
    t: (Keyed, Keyed),
    u: (Keyed, u8, Option<KeyIn>),
    r: [Keyed; 3],
    #[serde(default)]
    d: Keyed,
    #[serde(flatten)]
    e: KeyEnd,
    a: Keyed,
}

/// Flattened into the above; its names are not those of its parts.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(tag = "how")]
pub enum KeyEnd {
    #[serde(reindex = 4)]
    Short,
    Long {
        #[serde(rename = "end")]
        p: Keyed,
    },
}

/// Reads what [`KeyAll`] wrote, in part through proxies.
#[derive(Deserialize)]
pub struct KeyProxied {
    #[serde(proxy = Keyed)]
    p: Behind,
    #[serde(default, proxy = Keyed, rename = "k2")]
    q: Behind,
}

fn keyed(s: &mut Src) -> Keyed {
    Keyed(s.pick_copy(&[0, 1, u32::MAX, 77_777]))
}

fn key_in(s: &mut Src) -> KeyIn {
    KeyIn {
        p: keyed(s),
        q: keyed(s),
    }
}

fn key_all(s: &mut Src) -> KeyAll {
    KeyAll {
        z: keyed(s),
        pick: match s.below(4) {
            0 => KeyPick::Nothing,
            1 => KeyPick::Pair {
                b: keyed(s),
                a: keyed(s),
            },
            2 => KeyPick::In(key_in(s)),
            _ => KeyPick::Around {
                y: (0..s.below(3)).map(|_| keyed(s)).collect(),
                f: key_in(s),
                z: s.chance(1, 2).then(|| keyed(s)),
            },
        },
        f: key_in(s),
        o: s.chance(1, 2).then(|| keyed(s)),
        oo: s.chance(2, 3).then(|| s.chance(1, 2).then(|| keyed(s))),
        v: (0..s.below(3)).map(|_| key_in(s)).collect(),
        t: (keyed(s), keyed(s)),
        u: (keyed(s), 7, s.chance(1, 2).then(|| key_in(s))),
        r: std::array::from_fn(|_| keyed(s)),
        d: keyed(s),
        e: if s.chance(1, 2) {
            KeyEnd::Short
        } else {
            KeyEnd::Long { p: keyed(s) }
        },
        a: keyed(s),
    }
}

// ---------------------------------------------------------------------------------------------
// The description, made in the order of declaration

struct Describe {
    key: Key,
    /// A part that has a default, and has it, may be left out.
    leave: bool,
}

impl Describe {
    fn k(&mut self, v: &Keyed) -> M {
        M::Int((v.0 ^ self.key.take()) as i128, 0, u32::MAX as i128, true)
    }
    fn f(name: &str, m: M) -> F {
        F {
            name: name.into(),
            optional: matches!(m, M::Null),
            required: false,
            m,
        }
    }
    fn tag(field: &str, name: &str, index: usize, max: usize, gap: Option<usize>) -> F {
        Self::f(field, M::Tag(name.into(), index, max, gap))
    }
    fn opt(m: Option<M>, nullable: bool) -> M {
        if !nullable && !NO_NULL.get() {
            return m.unwrap_or(M::Null);
        }
        let mut fs = vec![Self::f("has_value", M::Bool(m.is_some()))];
        fs.extend(m.map(|m| Self::f("value", m)));
        M::Struct(fs, Some("Option"))
    }
    fn inner(&mut self, v: &KeyIn, out: &mut Vec<F>) {
        let m = self.k(&v.p);
        out.push(Self::f("p", m));
        let m = self.k(&v.q);
        out.push(Self::f("k2", m));
    }
    fn inner_st(&mut self, v: &KeyIn) -> M {
        let mut fs = Vec::new();
        self.inner(v, &mut fs);
        M::Struct(fs, Some("KeyIn"))
    }
    fn pick(&mut self, v: &KeyPick) -> M {
        let mut fs = Vec::new();
        match v {
            KeyPick::Nothing => fs.push(Self::tag("type", "Nothing", 0, 3, None)),
            KeyPick::Pair { b, a } => {
                fs.push(Self::tag("type", "Pair", 1, 3, None));
                let m = self.k(b);
                fs.push(Self::f("b", m));
                let m = self.k(a);
                fs.push(Self::f("a", m));
            }
            KeyPick::In(i) => {
                fs.push(Self::tag("type", "In", 2, 3, None));
                self.inner(i, &mut fs);
            }
            KeyPick::Around { y, f, z } => {
                fs.push(Self::tag("type", "Around", 3, 3, None));
                let m = M::Seq(y.iter().map(|k| self.k(k)).collect());
                fs.push(Self::f("y", m));
                self.inner(f, &mut fs);
                let m = Self::opt(z.as_ref().map(|k| self.k(k)), false);
                fs.push(Self::f("z", m));
            }
        }
        M::Struct(fs, Some("KeyPick"))
    }
    fn all(&mut self, v: &KeyAll) -> M {
        let mut fs = Vec::new();
        let m = self.k(&v.z);
        fs.push(Self::f("z", m));
        let m = self.pick(&v.pick);
        fs.push(Self::f("pick", m));
        self.inner(&v.f, &mut fs);
        let m = Self::opt(v.o.as_ref().map(|k| self.k(k)), false);
        fs.push(Self::f("o", m));
        let oo = v.oo.as_ref().map(|o| Self::opt(o.as_ref().map(|k| self.k(k)), false));
        fs.push(Self::f("oo", Self::opt(oo, true)));
        let m = M::Seq(v.v.iter().map(|i| self.inner_st(i)).collect());
        fs.push(Self::f("v", m));
        let m = M::Fixed(vec![self.k(&v.t.0), self.k(&v.t.1)], None);
        fs.push(Self::f("t", m));
        let m = M::Fixed(vec![
            self.k(&v.u.0),
            M::Int(v.u.1 as i128, 0, 255, true),
            Self::opt(v.u.2.as_ref().map(|i| self.inner_st(i)), false),
        ], None);
        fs.push(Self::f("u", m));
        let m = M::Fixed(v.r.iter().map(|k| self.k(k)).collect(), None);
        fs.push(Self::f("r", m));
        // The default takes no key when it is not there
        let m = if self.leave && v.d == Keyed::default() {
            M::Null
        } else {
            self.k(&v.d)
        };
        fs.push(Self::f("d", m));
        match &v.e {
            KeyEnd::Short => fs.push(Self::tag("how", "Short", 4, 4, Some(0))),
            KeyEnd::Long { p } => {
                fs.push(Self::tag("how", "Long", 1, 4, Some(0)));
                let m = self.k(p);
                fs.push(Self::f("end", m));
            }
        }
        let m = self.k(&v.a);
        fs.push(Self::f("a", m));
        M::Struct(fs, Some("KeyAll"))
    }
}

fn spent(key: &Key, d: &Describe, what: &str) -> R {
    ensure!(
        key.taken == d.key.taken && key.next == d.key.next,
        "context",
        "{what}: the context was used {} times instead of {}",
        key.taken,
        d.key.taken
    );
    Ok(())
}

pub fn keyed_run(ctx: &mut Ctx) -> R {
    let value = key_all(&mut ctx.src);
    let start = ctx.src.draw(1000) as u32;
    ctx.note(format!("{start} {value:?}").as_bytes());
    ctx.log(|| format!("value: {value:?}, context starts at {start}"));
    ctx.nontrivial = true;
    match ctx.src.below(4) {
        0 => over_form(ctx, &value, start),
        1 => to_json(ctx, &value, start),
        2 => proxied(ctx, &value.f, start),
        _ => from_json(ctx, &value, start),
    }
}

fn over_form(ctx: &mut Ctx, value: &KeyAll, start: u32) -> R {
    let caps = Caps::gen(&mut ctx.src);
    let kind = gen_kind(&mut ctx.src);
    let leave = ctx.src.chance(1, 3) && caps.null;
    ctx.note(format!("{caps:?} {kind:?} {leave}").as_bytes());
    ctx.log(|| format!("format: {caps:?}, own methods: {}, trait object: {}", kind.0, kind.1));
    let _guard = NoNull::set(&caps);
    let log = ctx.trace.is_some();
    let mut d = Describe {
        key: Key::new(start),
        leave: false,
    };
    let mut expect = Vec::new();
    describe(&d.all(value), &mut expect);
    let mut key = Key::new(start);
    let w = put_using(value, &mut key, caps, kind, None, log);
    show(ctx, "written", &w);
    legal("writing", &w)?;
    if let Err(e) = &w.res {
        return fail("failed", format!("writing returned {e:?} without any fault"));
    }
    ensure!(w.toks == expect, "described", "{:?} was described instead of {expect:?}", w.toks);
    spent(&key, &d, "writing")?;

    let mut d = Describe {
        key: Key::new(start),
        leave,
    };
    let mut toks = Vec::new();
    describe(&d.all(value), &mut toks);
    let mut key = Key::new(start);
    let r = get_using::<KeyAll, Key>(toks.clone(), &mut key, caps, kind, None, log);
    show(ctx, "read", &r);
    legal("reading", &r)?;
    match &r.res {
        Ok(v) => ensure!(v == value, "value", "read {v:?} instead of {value:?}"),
        Err(e) => return fail("failed", format!("reading returned {e:?} without any fault")),
    }
    spent(&key, &d, "reading")?;
    if r.calls > 0 && ctx.src.chance(1, 2) {
        let k = ctx.src.draw(r.calls);
        ctx.note_n(k as usize);
        ctx.count("fault.format_read", 1);
        ctx.log(|| format!("the format fails at call {k}"));
        let f = get_using::<KeyAll, Key>(toks, &mut Key::new(start), caps, kind, Some(k), log);
        show(ctx, "read", &f);
        faulted("reading", &f)?;
        legal("reading", &f)?;
    }
    Ok(())
}

fn to_json(ctx: &mut Ctx, value: &KeyAll, start: u32) -> R {
    let mut d = Describe {
        key: Key::new(start),
        leave: false,
    };
    let m = d.all(value);
    let mut key = Key::new(start);
    let text = serdere_json::to_str_using(value, &mut key);
    ctx.log(|| format!("text: {text}"));
    spent(&key, &d, "writing")?;
    let t = Text::new(text.clone());
    let Ok(p) = parse(&t.chars, false) else {
        return fail("malformed", format!("{text:?} is no JSON"));
    };
    ensure!(m_says(&p.root, &m), "content", "{text} does not say {m:?}");
    // And to a sink
    let plan = WritePlan::gen_delivery(&mut ctx.src, text.len());
    let w = SimWrite::new(plan);
    let st = w.state.clone();
    let mut key = Key::new(start);
    if let Err(e) = serdere_json::to_writer_using(Utf8Writer::new(w), value, &mut key) {
        return fail("failed", format!("writing returned {e:?} without any fault"));
    }
    let taken = st.bytes.borrow();
    ensure!(*taken == text.as_bytes(), "content", "the sink took {taken:?}");
    spent(&key, &d, "writing to a sink")
}

fn from_json(ctx: &mut Ctx, value: &KeyAll, start: u32) -> R {
    let f = Freedom::swarm(&mut ctx.src);
    let mut d = Describe {
        key: Key::new(start),
        leave: ctx.src.chance(1, 2),
    };
    let m = d.all(value);
    let node = render_sample(&mut ctx.src, &m, f);
    let style = Style::swarm(&mut ctx.src, false);
    let text = render(&mut ctx.src, &style, &node);
    ctx.note(text.as_bytes());
    ctx.log(|| format!("text: {text}"));
    let mut key = Key::new(start);
    let res: Result<KeyAll, String> = if ctx.src.chance(1, 2) {
        serdere_json::from_str_using(&text, &mut key).map_err(|e| format!("{e:?}"))
    } else {
        let plan = ReadPlan::gen_delivery(&mut ctx.src, text.len());
        let r = match Utf8Reader::new(SimRead::new(text.as_bytes(), plan)) {
            Ok(r) => r,
            Err(e) => return fail("failed", format!("the reader could not be made: {e:?}")),
        };
        serdere_json::from_reader_using(r, &mut key).map_err(|e| format!("{e:?}"))
    };
    match res {
        Ok(v) => ensure!(v == *value, "value", "read {v:?} instead of {value:?}"),
        Err(e) => return fail("failed", format!("reading returned {e}")),
    }
    spent(&key, &d, "reading")
}

fn proxied(ctx: &mut Ctx, value: &KeyIn, start: u32) -> R {
    let mut d = Describe {
        key: Key::new(start),
        leave: false,
    };
    let f = Freedom::swarm(&mut ctx.src);
    let node = render_sample(&mut ctx.src, &d.inner_st(value), f);
    let style = Style::swarm(&mut ctx.src, false);
    let text = render(&mut ctx.src, &style, &node);
    ctx.log(|| format!("text: {text}"));
    let mut key = Key::new(start);
    match serdere_json::from_str_using::<KeyProxied, _>(&text, &mut key) {
        Ok(v) => ensure!(
            v.p.0 == !value.p.0 && v.q.0 == !value.q.0,
            "value",
            "read {:?}, {:?} instead of {value:?}",
            v.p,
            v.q
        ),
        Err(e) => return fail("failed", format!("reading returned {e:?}")),
    }
    spent(&key, &d, "reading")
}
