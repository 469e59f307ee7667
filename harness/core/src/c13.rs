//! Nested structures: shallow ones are accepted, deep ones are rejected (and do
//! not exhaust the stack), no matter how the levels are mixed.
use crate::fam::*;
use crate::sym::*;
use imap_types::{body::*, command::CommandBody, extensions::thread::Thread, fetch::*, response::*, search::SearchKey};

const ENV: &[u8] = b"(NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL)";
const PART: &[u8] = b"(\"TEXT\" \"X\" NIL NIL NIL \"7BIT\" 1 1)";
const MSG: &[u8] = b"(\"MESSAGE\" \"RFC822\" NIL NIL NIL \"7BIT\" 1 ";
const MSGX: &[u8] = b"(\"MESSAGE\" \"RFC822\" (\"A\" \"B\") NIL NIL \"7BIT\" 1 ";

struct Kind {
    codec: u32,
    head: &'static [u8],
    /// what may be nested in what: (before, after)
    levels: Vec<(Vec<u8>, Vec<u8>)>,
    leaf: &'static [u8],
    tail: &'static [u8],
}

fn l(a: &[&[u8]], b: &[&[u8]]) -> (Vec<u8>, Vec<u8>) {
    (a.concat(), b.concat())
}

fn search_levels() -> Vec<(Vec<u8>, Vec<u8>)> {
    vec![
        l(&[b"NOT "], &[]),
        l(&[b"OR ALL "], &[]),
        l(&[b"OR "], &[b" ALL"]),
        l(&[b"("], &[b")"]),
        l(&[b"(ALL "], &[b")"]),
        l(&[b"("], &[b" ALL)"]),
    ]
}

fn body_levels() -> Vec<(Vec<u8>, Vec<u8>)> {
    vec![
        l(&[b"("], &[b" \"MIXED\")"]),
        l(&[b"(", PART], &[b" \"MIXED\")"]),
        l(&[b"("], &[PART, b" \"MIXED\" NIL)"]),
        l(&[MSG, ENV, b" "], &[b" 1)"]),
        l(&[MSGX, ENV, b" "], &[b" 1 NIL NIL NIL NIL)"]),
    ]
}

fn ext_levels() -> Vec<(Vec<u8>, Vec<u8>)> {
    vec![l(&[b"("], &[b")"]), l(&[b"(1 "], &[b")"]), l(&[b"("], &[b" \"x\")"]), l(&[b"((NIL) "], &[b" (1))"])]
}

fn thread_levels() -> Vec<(Vec<u8>, Vec<u8>)> {
    vec![l(&[b"("], &[b"(1))"]), l(&[b"((1)"], &[b")"]), l(&[b"(1 "], &[b"(2))"]), l(&[b"(1 2 (3)"], &[b"(4))"])]
}

fn kind() -> Kind {
    match case(10) {
        0 => Kind { codec: 1, head: b"a SEARCH ", levels: search_levels(), leaf: b"1:2", tail: b"\r\n" },
        1 => Kind { codec: 1, head: b"a UID SEARCH CHARSET UTF-8 ", levels: search_levels(), leaf: b"SEEN", tail: b"\r\n" },
        2 => Kind { codec: 1, head: b"a SORT (DATE) UTF-8 ", levels: search_levels(), leaf: b"BCC x", tail: b"\r\n" },
        3 => Kind { codec: 1, head: b"a THREAD REFERENCES UTF-8 ALL ", levels: search_levels(), leaf: b"BCC x", tail: b"\r\n" },
        4 => Kind { codec: 3, head: b"* 1 FETCH (BODY ", levels: body_levels(), leaf: PART, tail: b")\r\n" },
        5 => Kind { codec: 3, head: b"* 1 FETCH (BODYSTRUCTURE ", levels: body_levels(), leaf: PART, tail: b")\r\n" },
        6 => Kind {
            codec: 3,
            head: b"* 1 FETCH (BODYSTRUCTURE (\"TEXT\" \"X\" NIL NIL NIL \"7BIT\" 1 1 NIL NIL NIL NIL ",
            levels: ext_levels(),
            leaf: b"1",
            tail: b"))\r\n",
        },
        7 => Kind {
            codec: 3,
            head: b"* 1 FETCH (BODYSTRUCTURE ((\"TEXT\" \"X\" NIL NIL NIL \"7BIT\" 1 1) \"MIXED\" NIL NIL NIL NIL 1 ",
            levels: ext_levels(),
            leaf: b"NIL",
            tail: b"))\r\n",
        },
        8 => Kind { codec: 3, head: b"* THREAD (1)", levels: thread_levels(), leaf: b"(7)", tail: b"\r\n" },
        _ => Kind { codec: 3, head: b"* THREAD ", levels: thread_levels(), leaf: b"(7 8)", tail: b"\r\n" },
    }
}

fn build(k: &Kind, seq: &[usize], leaf: &[u8], closed: bool) -> Vec<u8> {
    let mut v = k.head.to_vec();
    for i in seq {
        v.extend_from_slice(&k.levels[*i].0);
    }
    v.extend_from_slice(leaf);
    if closed {
        for i in seq.iter().rev() {
            v.extend_from_slice(&k.levels[*i].1);
        }
        v.extend_from_slice(k.tail);
    }
    v
}

/// How the levels are mixed: `head` levels of any kinds, then a repeated pair.
fn pattern(k: &Kind, depth: usize) -> Vec<usize> {
    let n = k.levels.len() as u32;
    let (a, b) = (choice(n) as usize, choice(n) as usize);
    (0..depth).map(|i| if i % 2 == 0 { a } else { b }).collect()
}

fn key_depth(k: &SearchKey<'_>) -> usize {
    1 + match k {
        SearchKey::And(v) => v.as_ref().iter().map(key_depth).max().unwrap_or(0),
        SearchKey::Not(k) => key_depth(k),
        SearchKey::Or(a, b) => key_depth(a).max(key_depth(b)),
        _ => 0,
    }
}

fn ext_depth(e: &BodyExtension<'_>) -> usize {
    1 + match e {
        BodyExtension::List(v) => v.as_ref().iter().map(ext_depth).max().unwrap_or(0),
        _ => 0,
    }
}

fn loc_depth(l: &Location<'_>) -> usize {
    l.extensions.iter().map(ext_depth).max().unwrap_or(0)
}

fn body_depth(b: &BodyStructure<'_>) -> (usize, usize) {
    match b {
        BodyStructure::Single { body, extension_data } => {
            let e = extension_data
                .as_ref()
                .and_then(|d| d.tail.as_ref()?.tail.as_ref()?.tail.as_ref())
                .map(loc_depth)
                .unwrap_or(0);
            match &body.specific {
                SpecificFields::Message { body_structure, .. } => {
                    let (a, b) = body_depth(body_structure);
                    (a + 1, b.max(e))
                }
                _ => (1, e),
            }
        }
        BodyStructure::Multi { bodies, extension_data, .. } => {
            let mut d = (0, 0);
            for b in bodies.as_ref() {
                let (x, y) = body_depth(b);
                d = (d.0.max(x), d.1.max(y));
            }
            let e = extension_data
                .as_ref()
                .and_then(|d| d.tail.as_ref()?.tail.as_ref()?.tail.as_ref())
                .map(loc_depth)
                .unwrap_or(0);
            (d.0 + 1, d.1.max(e))
        }
    }
}

fn thread_depth(t: &Thread) -> usize {
    1 + match t {
        Thread::Members { answers, .. } => {
            answers.as_ref().map(|v| v.as_ref().iter().map(thread_depth).max().unwrap_or(0)).unwrap_or(0)
        }
        Thread::Nested { answers } => answers.as_ref().iter().map(thread_depth).max().unwrap_or(0),
    }
}

fn msg_depth(m: &Msg<'_>) -> usize {
    match m {
        Msg::Command(c) => match &c.body {
            CommandBody::Search { criteria: v, .. }
            | CommandBody::Sort { search_criteria: v, .. }
            | CommandBody::Thread { search_criteria: v, .. } => v.as_ref().iter().map(key_depth).max().unwrap_or(0),
            _ => 0,
        },
        Msg::Response(Response::Data(Data::Fetch { items, .. })) => items
            .as_ref()
            .iter()
            .map(|i| match i {
                MessageDataItem::Body(b) | MessageDataItem::BodyStructure(b) => {
                    let (a, b) = body_depth(b);
                    a.max(b)
                }
                _ => 0,
            })
            .max()
            .unwrap_or(0),
        Msg::Response(Response::Data(Data::Thread(v))) => v.iter().map(thread_depth).max().unwrap_or(0),
        _ => 0,
    }
}

/// A deep message with a symbolic window anywhere: what is accepted is not deep.
fn mutated(depth: usize, del: usize, ins: usize) {
    let k = kind();
    let seq = pattern(&k, depth);
    let m = build(&k, &seq, k.leaf, true);
    let i = choice((m.len() + 1 - del) as u32) as usize;
    let mut x = m[..i].to_vec();
    x.extend_from_slice(&bytes(ins));
    x.extend_from_slice(&m[i + del..]);
    note(&x);
    if let Out::Ok(_, m) = decode(k.codec, &x) {
        check(msg_depth(&m) <= 16, 5);
        reach(2);
    }
    reach(1);
}

fn shallow(max: u32) {
    let k = kind();
    let depth = choice(max + 1) as usize;
    let n = k.levels.len() as u32;
    let seq: Vec<usize> = if depth <= 3 { (0..depth).map(|_| choice(n) as usize).collect() } else { pattern(&k, depth) };
    let x = build(&k, &seq, k.leaf, true);
    note(&x);
    match decode(k.codec, &x) {
        Out::Ok(rem, m) => {
            check(rem.is_empty(), 1);
            check(msg_depth(&m) == depth + 1 || msg_depth(&m) == depth + 2, 2);
            reach(1);
        }
        _ => check(false, 3),
    }
}

/// `window` symbolic bytes in place of the innermost element or at its end.
fn deep(depths: &[usize], window: usize) {
    let k = kind();
    let depth = depths[choice(depths.len() as u32) as usize];
    let seq = pattern(&k, depth);
    let mut leaf = if choice(2) == 0 { vec![] } else { k.leaf.to_vec() };
    leaf.extend_from_slice(&bytes(window));
    let closed = choice(2) == 1;
    let x = build(&k, &seq, &leaf, closed);
    note(&x);
    check(decode(k.codec, &x) == Out::Failed, 4);
    reach(1);
}

crate::harnesses! {
    fn h_c13_shallow() { shallow(4) }
    fn h_c13_deep() { deep(&[16, 25], 0) }
    fn h_c13_deep1() { deep(&[16, 25], 1) }
    fn h_c13_deep2() { deep(&[16, 41], 2) }
    fn h_c13_rep() { mutated(17, 1, 1) }
    fn h_c13_ins() { mutated(17, 0, 1) }
    fn h_c13_rep2() { mutated(17, 2, 2) }
    fn h_c13_long() { deep(&[200], 0) }
}
