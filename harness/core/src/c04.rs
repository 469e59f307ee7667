//! Decoders are total: any bytes give an answer, and the remainder is a suffix.
use crate::fam::*;
use crate::sym::*;

fn total(k: u32, x: &[u8]) {
    note(x);
    let o = decode(k, x);
    if let Out::Ok(rem, _) = &o {
        let end = x.as_ptr() as usize + x.len();
        check(rem.as_ptr() as usize + rem.len() == end, 1);
        check(rem.len() < x.len(), 2);
        reach(1);
    } else {
        reach(2);
    }
    observe(o.class());
}

fn raw_n(n: usize) {
    let (k, x) = raw(n);
    total(k, &x);
}

fn win(del: usize, ins: usize) {
    let (k, x, _) = window(del, ins);
    total(k, &x);
}

crate::harnesses! {
    fn h_c04_date() { let (k, x) = dates(2); total(k, &x); }
    fn h_c04_num() { let (k, x) = numbers(2); total(k, &x); }
    fn h_c04_raw6() { raw_n(6) }
    fn h_c04_raw8() { raw_n(8) }
    fn h_c04_raw10() { raw_n(10) }
    fn h_c04_rep1() { win(1, 1) }
    fn h_c04_ins1() { win(0, 1) }
    fn h_c04_rep2() { win(2, 2) }
    fn h_c04_ins2() { win(0, 2) }
    fn h_c04_raw12() { raw_n(12) }
    fn h_c04_raw14() { raw_n(14) }
    fn h_c04_rep3() { win(3, 3) }
    fn h_c04_ins3() { win(0, 3) }
    fn h_c04_del() { win(1, 0) }
}
