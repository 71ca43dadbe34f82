//! Deterministic simulation of serdere: seeded runs of the real library between simulated sources
//! and sinks, with fault injection, checked against reference models.

mod ctx;
mod dom;
mod driver;
mod form;
mod io;
mod keyed;
mod live;
mod mem;
mod multi;
mod names;
mod node;
mod rops;
mod shrink;
mod src;
mod stream;
mod typed;
mod vast;
mod wops;
mod wrap;
mod zoo;

use ctx::{Ctx, R};

pub struct Prop {
    pub id: &'static str,
    pub run: fn(&mut Ctx) -> R,
    /// Runs in the quick tier.
    pub quick: u64,
    /// How a case is made and what makes it non-trivial.
    pub rule: &'static str,
    pub stubs: &'static str,
}

const STUB_IO: &str = "real: serdere and serdere-json (all library code, unmodified, no hooks); \
stubs: the byte source (SimRead), the user-written character reader (SimText); \
std::io::BufReader is real";

const STUB_W: &str = "real: serdere and serdere-json (all library code, unmodified, no hooks), \
including Utf8Writer and the in-memory sink; stubs: the byte sink (SimWrite), the user-written text \
sink (FailText)";

const STUB_RW: &str = "real: serdere and serdere-json (all library code, unmodified, no hooks) on \
both ends; stubs: the byte source (SimRead), the byte sink (SimWrite), the user-written character \
reader and text sink (SimText, FailText)";

const STUB_T: &str = "real: serdere and serdere-json (all library code, unmodified, no hooks), on \
real threads of which the scheduler lets one run at a time; stubs: sources, sinks and the scheduler";

const STUB_F: &str = "real: the serdere crate (derived and built-in implementations, wrappers, provided \
methods of the interfaces, name tables), unmodified, no hooks, and the part of serdere-json that is \
offered to other formats; stubs: the format (FormSer, FormDe)";

pub const PROPS: &[Prop] = &[
    Prop {
        id: "C01",
        run: stream::c01,
        quick: 3_750_000,
        rule: "A generated document (2 in 5 damaged) is read by a generated program of raw, typed \
               or character-level operations, delivered at once, in pieces with interruptions, \
               from memory and from a user-written reader; the logs must agree. Non-trivial: at \
               least one read was short or interrupted. Distinct: by document, delivery plan and \
               operation log.",
        stubs: STUB_IO,
    },
    Prop {
        id: "C02",
        run: stream::c02,
        quick: 6_000_000,
        rule: "A generated document is read by a generated program twice: from a good source, and \
               from one that fails at a drawn byte or delivers undecodable bytes (or a character \
               reader that fails); both logs must agree up to the first operation that needs \
               missing data, which must fail. Non-trivial: the fault was reached after at least \
               one operation. Distinct: by document, fault plan and operation log.",
        stubs: STUB_IO,
    },
    Prop {
        id: "C03",
        run: stream::c03,
        quick: 6_000_000,
        rule: "A generated document is cut off at a drawn character or continued with something, \
               and read by a generated program; the reference parser decides whether it may be \
               accepted. Non-trivial: the text is incomplete or overlong and at least one \
               operation was carried out. Distinct: by text, source kind and operation log.",
        stubs: STUB_IO,
    },
    Prop {
        id: "C04",
        run: stream::c04,
        quick: 4_500_000,
        rule: "A generated document is damaged up to three times (inserted, lost, replaced, \
               repeated, swapped ranges, flipped bits), or nested up to 100000 deep, and read by a \
               generated program; the reference parser decides whether it may be accepted, and \
               what it says. Non-trivial: damage was done and at least one operation was carried \
               out. Distinct: by text, source kind and operation log.",
        stubs: STUB_IO,
    },
    Prop {
        id: "C05",
        run: c05,
        quick: 3_750_000,
        rule: "A generated document is read by a session whose operations (keyed requests for present, \
               absent and already read keys, iteration, fields, skips, partial reads) are drawn one \
               by one, through the raw operations or through the object wrappers with values that \
               are read under a context, from a byte stream in pieces, from memory or from a \
               user-written reader; a model of the session says what each operation must deliver \
               (1 in 10 documents repeats keys, with values by which the entries are told apart). \
               Non-trivial: at least one entry was delivered out of document order. Distinct: by \
               document, source and operation log.",
        stubs: STUB_IO,
    },
    Prop {
        id: "C06",
        run: typed::c06,
        quick: 7_500_000,
        rule: "A value of one of 64 types is rendered by an independent renderer: entries reordered, \
               unknown entries added, optional ones left out or null, structs as arrays, tags by \
               index, any layout and escapes; in 1 of 4 renderings something required is missing, \
               an array has a wrong length or a value does not fit its type. It is read from a drawn kind of source in any \
               delivery and must come back equal, or fail. Non-trivial: more than a bare \
               literal was read, or something was broken. Distinct: by type, value and rendering.",
        stubs: STUB_IO,
    },
    Prop {
        id: "C07",
        run: rops::c07,
        quick: 3_750_000,
        rule: "As C05, but the peer sends only what the pending operation may need (up to the end of \
               the value, key or separator it concerns, and one character more) and the source \
               stalls beyond; characters consumed and bytes taken are compared with that bound \
               after every operation. Non-trivial: more than four operations. Distinct: by \
               document, source and operation log.",
        stubs: STUB_IO,
    },
    Prop {
        id: "C08",
        run: c08,
        quick: 15_000_000,
        rule: "A generated legal history of write operations (or a typed value, or bare characters and \
               strings) is written in memory and to a simulated sink which takes any number of \
               bytes at a time and interrupts writes; after every operation the sink must hold \
               what the text in memory holds. Non-trivial: at least one write was short or \
               interrupted. Distinct: by history and sink plan.",
        stubs: STUB_W,
    },
    Prop {
        id: "C09",
        run: c09,
        quick: 15_000_000,
        rule: "As C08, with a sink that fails at a drawn byte (an error of any kind, an operating system \
               error, no more bytes taken; once or for good), or a user-written text sink that \
               fails at a drawn character. Non-trivial: the failure was reached. Distinct: by \
               history, sink plan and outcome.",
        stubs: STUB_W,
    },
    Prop {
        id: "C10",
        run: typed::c10_typed,
        quick: 9_000_000,
        rule: "A value of one of 64 types is written by the sender to a simulated sink, carried by a link \
               (short, interrupted, failing or cut at any byte on either side) and read by the \
               receiver from a drawn kind of source. Non-trivial: the link was not perfect. \
               Distinct: by text, both plans and the outcome.",
        stubs: STUB_RW,
    },
    Prop {
        id: "C11",
        run: c11,
        quick: 15_000_000,
        rule: "A generated legal history of raw write operations, wrapper operations or a typed value is \
               written in a drawn layout; an independent parser and layout checker judge the text. \
               Non-trivial: more than a bare literal was written. Distinct: by history or value \
               and layout.",
        stubs: STUB_W,
    },
    Prop {
        id: "C12",
        run: c12,
        quick: 7_500_000,
        rule: "A generated program over the value, struct, tuple, list, object, entry and collection \
               wrappers abandons a nested value, lets an operation fail (by the document, the source \
               or the sink), or breaks a declared length at a drawn point, and then tries to go on \
               through an enclosing wrapper, which must panic without any I/O; or a typed value \
               whose implementation does so is read or written. Non-trivial: at least one use was \
               refused. Distinct: by document or value, plan and operation log.",
        stubs: STUB_RW,
    },
    Prop {
        id: "C13",
        run: c13,
        quick: 7_500_000,
        rule: "As C05, with errors provoked at drawn points (wrong type, out of range, unknown name, \
               missing or surplus entries and items, custom errors), streaming or held back; and \
               typed values with one thing broken at a known place. The position of the error is \
               compared with the reference parse. Non-trivial: an error was provoked. Distinct: by \
               document, source and operation log.",
        stubs: STUB_IO,
    },
    Prop {
        id: "C14",
        run: names::c14,
        quick: 7_500_000,
        rule: "One or two generated tables (0 to 300 names with shared prefixes and lead bytes) are used \
               by up to four lookups in progress, each written in pieces of any size in an order \
               decided by the scheduler; or tags and names of a generated table are read from a \
               document in any delivery, held back or streaming. Non-trivial: a lookup took more \
               than one piece, or more than three operations were carried out. Distinct: by table, \
               names, pieces and their interleaving, or by document and operation log.",
        stubs: STUB_IO,
    },
    Prop {
        id: "C15",
        run: multi::c15,
        quick: 300_000,
        rule: "Two to five sessions, rarely up to seventy (raw reads, raw writes, whole cases of \
               other properties; some failing, panicking or abandoned) run alone, and then together: the scheduler decides whose \
               operation is next, on which of one to three threads, and at every I/O call whether \
               another session proceeds meanwhile. Each log must equal the one made alone. \
               Non-trivial: more operations than sessions. Distinct: by sessions and schedule.",
        stubs: STUB_T,
    },
    Prop {
        id: "C18",
        run: form::c18,
        quick: 7_500_000,
        rule: "A value of one of 64 types is written to, or read from, a format that is no JSON (with or \
               without null, tags by name or by index, lengths of lists known or not, the provided \
               methods or its own, as a concrete type or a trait object), which watches that every \
               call is allowed; then once more with the format failing at a drawn call, or with a part \
               that does not fit; or lists, strings in parts, nulls and wrappers are used on it; \
               or a JSON-like document in memory is read through the standard implementations, whole, \
               broken, or failing at a drawn call; or a type is written and read under a context. \
               Non-trivial: more than one piece was described, or something failed. Distinct: by \
               type, value, format, and place of the failure.",
        stubs: STUB_F,
    },
    Prop {
        id: "C20",
        run: rops::c20,
        quick: 6_000_000,
        rule: "A session over the raw reading operations proceeds on a drawn document, delivery and kind \
               of reader, and at a drawn point makes a call which does not fit what is on top of the \
               stack (value, held value, absent value, string, array, object, nothing). Non-trivial: \
               such a call was made. Distinct: by document, history, and the call.",
        stubs: STUB_IO,
    },
    Prop {
        id: "C19",
        run: live::c19,
        quick: 1_500_000,
        rule: "A session of another property is run twice with the same choices, under a counting \
               allocator, and must leave nothing behind; or any program reads a document of any shape, \
               also a damaged one and through faults, and what it holds is compared with what was \
               delivered; or hundreds of equal items are read or written in order, raw, by wrappers or \
               as a type, and what is held after six of them is compared with the end; or hundreds of \
               short sessions follow each other, each with other keys, numbers and errors, and what is \
               held after twenty of them is compared with the end; or something very long is \
               passed over, iterated over or read in pieces. Non-trivial: the session \
               got past its first items, or released something. Distinct: by scenario and choices.",
        stubs: STUB_RW,
    },
];

fn c05(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[3, 2]) {
        0 => rops::c05_raw(ctx),
        _ => wrap::c05(ctx),
    }
}

fn c12(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[3, 2, 2]) {
        0 => wrap::c12_read(ctx),
        1 => wrap::c12_write(ctx),
        _ => typed::c12_typed(ctx),
    }
}

fn c08(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[5, 2, 3]) {
        0 => wops::c08_raw(ctx),
        1 => wops::c08_chars(ctx),
        _ => typed::c08_typed(ctx),
    }
}

fn c09(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[5, 3]) {
        0 => wops::c09_raw(ctx),
        _ => typed::c09_typed(ctx),
    }
}

fn c11(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[3, 2, 1]) {
        0 => wops::c11_raw(ctx),
        2 => wrap::c11(ctx),
        _ => typed::c11_typed(ctx),
    }
}

fn c13(ctx: &mut Ctx) -> R {
    match ctx.src.weighted(&[3, 2]) {
        0 => rops::c13(ctx),
        _ => typed::c13_typed(ctx),
    }
}

fn main() {
    driver::main();
}
