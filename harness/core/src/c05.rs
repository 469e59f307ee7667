//! Streaming: an answer given for a prefix is not revised when more bytes arrive.
use crate::fam::*;
use crate::gen::G;
use crate::sym::*;
use imap_codec::{encode::Encoder, *};
use imap_types::response::Response;

/// Compare the decoder's answer for the whole of `x` with those for its prefixes
/// of at least `from` bytes.
fn stable(k: u32, x: &[u8], from: usize) {
    note(x);
    let full = decode(k, x);
    let mut n = from;
    while n < x.len() {
        match decode(k, &x[..n]) {
            Out::Ok(r, m) => {
                reach(2);
                // the same message, and the additional bytes are left over
                match &full {
                    Out::Ok(rem, msg) => {
                        check(*msg == m, 1);
                        check(rem.len() == r.len() + (x.len() - n), 2);
                    }
                    _ => check(false, 3),
                }
            }
            Out::Failed => {
                reach(3);
                check(full.class() == 4, 4);
            }
            Out::Incomplete => reach(4),
            Out::Literal(..) => reach(5),
        }
        n += 1;
    }
    observe(full.class());
    reach(1);
}

fn win(del: usize, ins: usize) {
    let (k, x, e) = window(del, ins);
    stable(k, &x, e - ins);
}

fn raw_n(n: usize) {
    let (k, x) = raw(n);
    stable(k, &x, 0);
}

/// Every proper prefix of a message is incomplete (or asks for a literal), and
/// whatever follows the message is left alone.
fn prefixes(k: u32, wire: &[u8]) {
    note(wire);
    let mut n = 0;
    while n < wire.len() {
        let c = decode(k, &wire[..n]).class();
        check(c == 2 || c == 3, 1);
        n += 1;
    }
    let mut x = wire.to_vec();
    x.push(byte());
    x.push(byte());
    match decode(k, &x) {
        Out::Ok(rem, m) => {
            check(rem.len() == 2, 2);
            check(m.encode().len() == wire.len(), 3);
        }
        _ => check(false, 4),
    }
    reach(1);
}

fn commands(b: u32, slen: usize) {
    let k = case(G::COMMANDS);
    let m = G::new(b, slen).command(k);
    prefixes(1, &CommandCodec::default().encode(&m).dump());
}

fn responses(b: u32, slen: usize) {
    let k = case(G::DATA + 2);
    let mut g = G::new(b, slen);
    let m = if k < G::DATA {
        Response::Data(g.data(k))
    } else if k == G::DATA {
        g.b += 2;
        Response::Status(g.status())
    } else {
        Response::CommandContinuationRequest(g.continuation())
    };
    prefixes(3, &ResponseCodec::default().encode(&m).dump());
}

fn others(b: u32, slen: usize) {
    let mut g = G::new(b, slen);
    match case(3) {
        0 => {
            g.b += 2;
            prefixes(0, &GreetingCodec::default().encode(&g.greeting()).dump())
        }
        1 => prefixes(2, &AuthenticateDataCodec::default().encode(&g.auth_data()).dump()),
        _ => prefixes(4, b"DONE\r\n"),
    }
}

crate::harnesses! {
    fn h_c05_cmd() { commands(1, 1) }
    fn h_c05_rsp() { responses(1, 1) }
    fn h_c05_oth() { others(1, 1) }
    fn h_c05_cmd2() { commands(1, 2) }
    fn h_c05_rsp2() { responses(1, 2) }
    fn h_c05_oth2() { others(2, 2) }
    fn h_c05_raw6() { raw_n(6) }
    fn h_c05_raw9() { raw_n(9) }
    fn h_c05_rep1() { win(1, 1) }
    fn h_c05_ins1() { win(0, 1) }
    fn h_c05_rep2() { win(2, 2) }
}
