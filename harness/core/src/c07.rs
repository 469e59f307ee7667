//! Framing of encoded messages: fragments, announcements, no stray line breaks.
use crate::fam::announcement;
use crate::gen::G;
use crate::sym::*;
use imap_codec::{encode::*, *};
use imap_types::{core::LiteralMode, response::Response};

fn framing(enc: Encoded, free_text: bool) {
    let dump = enc.clone().dump();
    note(&dump);
    let frs: Vec<Fragment> = enc.collect();
    let mut joined: Vec<u8> = vec![];
    let mut announced: Option<(usize, LiteralMode)> = None;
    let mut expect_literal = false;
    check(!frs.is_empty(), 1);
    let last = frs.len() - 1;
    let mut i = 0;
    for f in &frs {
        match f {
            Fragment::Line { data } => {
                // a line has exactly one line break, at its end
                let n = data.len();
                check(n >= 2, 2);
                let mut bad = data[n - 2] != b'\r' || data[n - 1] != b'\n';
                let mut j = 0;
                while j < n - 2 {
                    bad |= data[j] == b'\r' || data[j] == b'\n';
                    j += 1;
                }
                check(!bad, 3);
                check(!expect_literal, 4);
                announced = announcement(data);
                // the line announces a literal exactly if one follows
                if i < last {
                    check(announced.is_some(), 5);
                    expect_literal = true;
                } else if !free_text {
                    check(announced.is_none(), 6);
                }
                joined.extend_from_slice(data);
            }
            Fragment::Literal { data, mode } => {
                check(i != 0 && i != last, 7);
                check(expect_literal, 8);
                expect_literal = false;
                match announced {
                    Some((n, m)) => {
                        check(n == data.len(), 9);
                        check(m == *mode, 10);
                    }
                    None => check(false, 11),
                }
                joined.extend_from_slice(data);
                reach(2);
            }
        }
        i += 1;
    }
    check(same(&joined, &dump), 12);
    reach(1);
}

fn commands(b: u32, slen: usize) {
    let k = case(G::COMMANDS);
    let m = G::new(b, slen).command(k);
    framing(CommandCodec::default().encode(&m), false);
}

fn responses(b: u32, slen: usize) {
    let k = case(G::DATA + 5);
    let mut g = G::new(b, slen);
    if k < G::DATA {
        let m = Response::Data(g.data(k));
        framing(ResponseCodec::default().encode(&m), false);
    } else if k == G::DATA {
        g.b += 2;
        let m = Response::Status(g.status());
        framing(ResponseCodec::default().encode(&m), true);
    } else if k == G::DATA + 1 {
        let m = Response::CommandContinuationRequest(g.continuation());
        framing(ResponseCodec::default().encode(&m), true);
    } else if k == G::DATA + 2 {
        g.b += 2;
        framing(GreetingCodec::default().encode(&g.greeting()), true);
    } else if k == G::DATA + 3 {
        framing(AuthenticateDataCodec::default().encode(&g.auth_data()), false);
    } else {
        framing(IdleDoneCodec::default().encode(&imap_types::extensions::idle::IdleDone), false);
    }
}

crate::harnesses! {
    fn h_c07_cmd1() { commands(1, 3) }
    fn h_c07_rsp1() { responses(1, 3) }
    fn h_c07_cmd2() { commands(2, 1) }
    fn h_c07_rsp2() { responses(2, 1) }
    fn h_c07_cmd22() { commands(2, 2) }
    fn h_c07_rsp22() { responses(2, 2) }
}
