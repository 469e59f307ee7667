//! Round trip of greetings, status responses, continuation requests,
//! authentication data and IDLE's DONE.
use crate::gen::G;
use crate::sym::*;
use imap_codec::{decode::Decoder, encode::Encoder, *};
use imap_types::{extensions::idle::IdleDone, response::Response};

macro_rules! rt {
    ($codec:ident, $m:expr) => {{
        let m = $m;
        let wire = $codec::default().encode(&m).dump();
        note(&wire);
        match $codec::default().decode(&wire) {
            Ok((rem, back)) => {
                check(rem.is_empty(), 1);
                check(back == m, 2);
                let again = $codec::default().encode(&back).dump();
                check(same(&again, &wire), 3);
                reach(1);
            }
            Err(_) => check(false, 4),
        }
    }};
}

fn all(mut g: G) {
    match case(6) {
        0 => rt!(GreetingCodec, g.greeting()),
        1 => rt!(ResponseCodec, Response::Status(g.status_untagged())),
        2 => rt!(ResponseCodec, Response::Status(g.status_tagged())),
        3 => rt!(ResponseCodec, Response::Status(g.status_bye())),
        4 => rt!(ResponseCodec, Response::CommandContinuationRequest(g.continuation())),
        _ => match choice(2) {
            0 => rt!(AuthenticateDataCodec, g.auth_data()),
            _ => {
                let wire = IdleDoneCodec::default().encode(&IdleDone).dump();
                check(same(&wire, b"DONE\r\n"), 5);
                rt!(IdleDoneCodec, IdleDone)
            }
        },
    }
}

crate::harnesses! {
    fn h_c03_many0() { all(G::many(0, 1000)) }
    fn h_c03_many1() { all(G::many(1, 130)) }
    fn h_c03_long0() { all(G::long(0, 4100)) }
    fn h_c03_long1() { all(G::long(1, 4100)) }
    fn h_c03_huge0() { all(G::long(0, 65540)) }
    fn h_c03_three() { all(G::new(3, 1)) }
    fn h_c03_two() { all(G::new(2, 3)) }
    fn h_c03_four() { all(G::new(4, 1)) }
    fn h_c03_three3() { all(G::new(3, 3)) }
    fn h_c03_rich2() { all(G::rich(2, 2)) }
}
