//! Command round trip.
use crate::gen::G;
use crate::sym::*;
use imap_codec::{decode::Decoder, encode::Encoder, CommandCodec};

fn roundtrip(mut g: G) {
    let k = case(G::COMMANDS);
    let m = g.command(k);
    let wire = CommandCodec::default().encode(&m).dump();
    note(&wire);
    match CommandCodec::default().decode(&wire) {
        Ok((rem, back)) => {
            check(rem.is_empty(), 1);
            check(back == m, 2);
            let again = CommandCodec::default().encode(&back).dump();
            check(same(&again, &wire), 3);
            reach(1);
        }
        Err(_) => check(false, 4),
    }
}

crate::harnesses! {
    fn h_c01_many0() { roundtrip(G::many(0, 1000)) }
    fn h_c01_many1() { roundtrip(G::many(1, 130)) }
    fn h_c01_long0() { roundtrip(G::long(0, 4100)) }
    fn h_c01_long1() { roundtrip(G::long(1, 4100)) }
    fn h_c01_huge0() { roundtrip(G::long(0, 65540)) }
    fn h_c01_two() { roundtrip(G::new(2, 1)) }
    fn h_c01_one() { roundtrip(G::new(1, 3)) }
    fn h_c01_two2() { roundtrip(G::new(2, 2)) }
    fn h_c01_three() { roundtrip(G::new(3, 1)) }
    fn h_c01_one4() { roundtrip(G::new(1, 4)) }
    fn h_c01_rich1() { roundtrip(G::rich(1, 2)) }
    fn h_c01_rich2() { roundtrip(G::rich(2, 1)) }
}
