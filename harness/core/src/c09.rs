//! Literal announcements are reported when, and only when, the data ends with one.
use crate::corpus;
use crate::fam::*;
use crate::gen::G;
use crate::sym::*;
use imap_codec::{encode::*, *};
use imap_types::{core::LiteralMode, response::Response};

/// All prefixes of an encoded message: directly behind an announcement the
/// literal is reported with its tag, length and mode; everywhere else more data
/// is needed.
fn walk(k: u32, enc: Encoded, tag: &[u8], modes: bool, all: bool) {
    let frs: Vec<Fragment> = enc.clone().collect();
    let x = enc.dump();
    note(&x);
    assume(frs.len() > 1);
    // ends of lines in front of literals
    let mut pos = 0;
    let mut ends = vec![];
    for (i, f) in frs.iter().enumerate() {
        match f {
            Fragment::Line { data } => {
                pos += data.len();
                if let Some(Fragment::Literal { data, mode }) = frs.get(i + 1) {
                    ends.push((pos, data.len() as u32, *mode));
                }
            }
            Fragment::Literal { data, .. } => pos += data.len(),
        }
    }
    check(!ends.is_empty(), 1);
    let mut n = ends[0].0 - 2;
    while n < x.len() {
        // (not `all`: only next to the ends of lines)
        if !all && !ends.iter().any(|e| e.0 <= n + 1 && n <= e.0 + 1) && n + 1 != x.len() {
            n += 1;
            continue;
        }
        let want = ends.iter().find(|e| e.0 == n);
        match (decode(k, &x[..n]), want) {
            (Out::Literal(t, l, m), Some(e)) => {
                check(same(&t, tag), 2);
                check(l == e.1, 3);
                check(!modes || m == e.2, 4);
                reach(1);
            }
            (Out::Incomplete, None) => reach(2),
            _ => check(false, 5),
        }
        n += 1;
    }
    // A literal with some, but not all of its data.
    reach(3);
}

fn commands(b: u32, slen: usize) {
    let k = case(G::COMMANDS);
    let m = G::new(b, slen).command(k);
    let tag = m.tag.as_ref().as_bytes().to_vec();
    walk(1, CommandCodec::default().encode(&m), &tag, true, b < 2);
}

fn responses(b: u32, slen: usize) {
    let k = case(G::DATA);
    let m = Response::Data(G::new(b, slen).data(k));
    walk(3, ResponseCodec::default().encode(&m), b"", false, b < 2);
}

/// What is reported is what the data says.
fn sound(k: u32, x: &[u8]) {
    note(x);
    if let Out::Literal(t, l, m) = decode(k, x) {
        match announcement(x) {
            Some((n, mode)) => {
                check(n == l as usize, 10);
                if k == 1 {
                    check(m == mode, 11);
                    check(x.len() > t.len() && !t.is_empty() && same(&x[..t.len()], &t) && x[t.len()] == b' ', 12);
                }
                reach(1);
            }
            None => check(false, 13),
        }
    }
    reach(2);
}

/// A corpus message that ends behind one of its announcements, with a window.
fn cut(del: usize, ins: usize) {
    let (k, m) = corpus::nth(case(corpus::total()));
    let mut ends = vec![];
    for n in 5..m.len() {
        if announcement(&m[..n]).is_some() {
            ends.push(n);
        }
    }
    assume(!ends.is_empty());
    let m = &m[..ends[choice(ends.len() as u32) as usize]];
    let i = choice((m.len() + 1 - del) as u32) as usize;
    let mut x = m[..i].to_vec();
    x.extend_from_slice(&bytes(ins));
    x.extend_from_slice(&m[i + del..]);
    sound(k, &x);
}

fn raw_n(n: usize) {
    let (k, x) = raw(n);
    sound(k, &x);
}

/// Announced lengths: every number up to 4294967295 is reported as it is.
fn lengths(d: usize) {
    const T: &[(u32, &[u8], &[u8], LiteralMode)] = &[
        (1, b"A1 LOGIN x {", b"}\r\n", LiteralMode::Sync),
        (1, b"A1 LOGIN x {", b"+}\r\n", LiteralMode::NonSync),
        (1, b"A1 LOGIN {", b"+}\r\n", LiteralMode::NonSync),
        (1, b"A1 APPEND x ~{", b"}\r\n", LiteralMode::Sync),
        (1, b"A1 APPEND x (\\Seen) {", b"}\r\n", LiteralMode::Sync),
        (1, b"A1 APPEND x {", b"+}\r\n", LiteralMode::NonSync),
        (1, b"A1 SEARCH BODY {", b"}\r\n", LiteralMode::Sync),
        (1, b"A1 LIST \"\" {", b"+}\r\n", LiteralMode::NonSync),
        (1, b"A1 SETMETADATA x (/a ~{", b"}\r\n", LiteralMode::Sync),
        (3, b"* 1 FETCH (BODY[] {", b"}\r\n", LiteralMode::Sync),
        (3, b"* 1 FETCH (BINARY[1] ~{", b"}\r\n", LiteralMode::Sync),
        (3, b"* LIST () \"/\" {", b"}\r\n", LiteralMode::Sync),
    ];
    let (k, a, b, mode) = T[case(T.len() as u32) as usize];
    let p: &[u8] = [&b""[..], b"0", b"42949672", b"99999999", b"429496729", b"0000000000"][choice(6) as usize];
    let d = digits(d);
    let mut n = 0u64;
    for c in p.iter().chain(&d) {
        n = n * 10 + (*c - b'0') as u64;
    }
    let x = [a, p, &d, b].concat();
    note(&x);
    match decode(k, &x) {
        Out::Literal(t, l, m) => {
            check(l as u64 == n, 20);
            if k == 1 {
                check(m == mode, 21);
                check(t == b"A1", 22);
            }
            reach(1);
        }
        Out::Failed => {
            check(n > u32::MAX as u64, 23);
            reach(2);
        }
        _ => check(false, 24),
    }
}

/// Every announcement of the corpus, with other lengths and either mode.
fn lengths_corpus(d: usize) {
    let (k, m) = corpus::nth(case(corpus::total()));
    assume(k == 1 || k == 3);
    let mut ends = vec![];
    for n in 5..m.len() {
        if announcement(&m[..n]).is_some() {
            ends.push(n);
        }
    }
    assume(!ends.is_empty());
    let e = ends[choice(ends.len() as u32) as usize];
    let b = need_some(m[..e].iter().rposition(|b| *b == b'{'));
    let p: &[u8] = [&b""[..], b"10", b"40", b"163", b"655", b"10485", b"21474836", b"42949672"][choice(8) as usize];
    let d = digits(d);
    let plus = choice(2) == 1;
    let mut n = 0u64;
    for c in p.iter().chain(&d) {
        n = n * 10 + (*c - b'0') as u64;
    }
    let x = [&m[..b + 1], p, &d, if plus { b"+}\r\n" } else { b"}\r\n" }].concat();
    note(&x);
    match decode(k, &x) {
        Out::Literal(t, l, m) => {
            check(l as u64 == n, 30);
            if k == 1 {
                check((m == LiteralMode::NonSync) == plus, 31);
                check(x.len() > t.len() && !t.is_empty() && same(&x[..t.len()], &t) && x[t.len()] == b' ', 32);
            }
            reach(1);
        }
        Out::Failed => {
            check(n > u32::MAX as u64, 33);
            reach(2);
        }
        _ => check(false, 34),
    }
}

crate::harnesses! {
    fn h_c09_lenc() { lengths_corpus(2) }
    fn h_c09_cmd() { commands(2, 1) }
    fn h_c09_rsp() { responses(2, 1) }
    fn h_c09_cmd2() { commands(1, 3) }
    fn h_c09_rsp2() { responses(1, 3) }
    fn h_c09_len() { lengths(2) }
    fn h_c09_cut1() { cut(1, 1) }
    fn h_c09_ins1() { cut(0, 1) }
    fn h_c09_cut2() { cut(2, 2) }
    fn h_c09_cut3() { cut(3, 3) }
    fn h_c09_raw8() { raw_n(8) }
    fn h_c09_raw10() { raw_n(10) }
}
