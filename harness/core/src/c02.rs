//! Response round trip.
use crate::gen::G;
use crate::sym::*;
use imap_codec::{decode::Decoder, encode::Encoder, *};
use imap_types::response::Response;

fn rt_response(m: Response<'static>) {
    let wire = ResponseCodec::default().encode(&m).dump();
    note(&wire);
    match ResponseCodec::default().decode(&wire) {
        Ok((rem, back)) => {
            check(rem.is_empty(), 1);
            check(back == m, 2);
            let again = ResponseCodec::default().encode(&back).dump();
            check(same(&again, &wire), 3);
            reach(1);
        }
        Err(_) => check(false, 4),
    }
}

fn data(mut g: G) {
    let mut k = case(if g.rich || g.b < 2 { G::DATA } else { 35 });
    if k == 34 && !g.rich && g.b > 1 {
        k = 37;
    }
    rt_response(Response::Data(g.data(k)))
}

crate::harnesses! {
    fn h_c02_many0() { data(G::many(0, 1000)) }
    fn h_c02_many1() { data(G::many(1, 130)) }
    fn h_c02_long0() { data(G::long(0, 4100)) }
    fn h_c02_long1() { data(G::long(1, 4100)) }
    fn h_c02_huge0() { data(G::long(0, 65540)) }
    fn h_c02_two() { data(G::new(2, 1)) }
    fn h_c02_one() { data(G::new(1, 3)) }
    fn h_c02_two2() { data(G::new(2, 2)) }
    fn h_c02_three() { data(G::new(3, 1)) }
    fn h_c02_one4() { data(G::new(1, 4)) }
    fn h_c02_rich1() { data(G::rich(1, 2)) }
    fn h_c02_rich2() { data(G::rich(2, 1)) }
}
