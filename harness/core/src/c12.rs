//! Sequence sets denote the right numbers: parsing, normalization, iteration,
//! conversions.
use crate::fam::digits;
use crate::sym::*;
use imap_codec::{decode::Decoder, CommandCodec};
use imap_types::{command::CommandBody, core::Vec1, sequence::*};
use std::num::NonZeroU32;
use std::ops::Bound;

fn nz(v: u32) -> NonZeroU32 {
    need_some(NonZeroU32::new(v))
}

// --- reference semantics: a sequence is (lo, hi) relative to the largest number ---

fn end(s: SeqOrUid, largest: u32) -> u32 {
    match s {
        SeqOrUid::Value(v) => v.get(),
        SeqOrUid::Asterisk => largest,
    }
}

fn ends(s: &Sequence, largest: u32) -> (u32, u32) {
    match s {
        Sequence::Single(a) => (end(*a, largest), end(*a, largest)),
        Sequence::Range(a, b) => (end(*a, largest), end(*b, largest)),
    }
}

fn member(set: &[Sequence], x: u32, largest: u32) -> bool {
    let mut r = false;
    for s in set {
        let (a, b) = ends(s, largest);
        r |= ((a <= x) & (x <= b)) | ((b <= x) & (x <= a));
    }
    r
}

/// Any number, or (`near`) one of the smallest or largest 128.
fn any_value(near: bool) -> u32 {
    if near {
        let b = byte();
        if choice(2) == 0 { assume(b != 0); b as u32 } else { u32::MAX - b as u32 }
    } else {
        u32_()
    }
}

fn any_id(near: bool) -> SeqOrUid {
    if choice(2) == 1 {
        SeqOrUid::Asterisk
    } else {
        let v = any_value(near);
        assume(v != 0);
        SeqOrUid::Value(nz(v))
    }
}

fn any_seq(near: bool) -> Sequence {
    if choice(2) == 0 {
        Sequence::Single(any_id(near))
    } else {
        Sequence::Range(any_id(near), any_id(near))
    }
}

fn any_set(max: u32, near: bool) -> Vec<Sequence> {
    let n = 1 + case(max);
    (0..n).map(|_| any_seq(near)).collect()
}

fn set(v: &[Sequence]) -> SequenceSet {
    SequenceSet(need(Vec1::try_from(v.to_vec())))
}

/// Normalization keeps the set and produces its normal form.
fn normalize(max: u32, near: bool) {
    let v = any_set(max, near);
    let mut s = set(&v);
    s.normalize();
    let w: Vec<Sequence> = s.0.as_ref().to_vec();
    check(!w.is_empty() && w.len() <= v.len(), 1);
    // Among the numbers that exist (1..=largest), the same ones are selected.
    let largest = any_value(near);
    let x = any_value(near);
    assume((largest != 0) & (x != 0) & (x <= largest));
    check(member(&v, x, largest) == member(&w, x, largest), 2);
    // Every sequence is in order.
    for t in &w {
        if let Sequence::Range(a, b) = t {
            match (a, b) {
                (SeqOrUid::Value(a), SeqOrUid::Value(b)) => check(a < b, 3),
                (SeqOrUid::Value(_), SeqOrUid::Asterisk) => {}
                _ => check(false, 4),
            }
        }
    }
    // The sequences are sorted, disjoint and not adjacent.
    for p in w.windows(2) {
        let hi = match &p[0] {
            Sequence::Single(a) => *a,
            Sequence::Range(_, b) => *b,
        };
        let lo = match &p[1] {
            Sequence::Single(a) => *a,
            Sequence::Range(a, _) => *a,
        };
        match (hi, lo) {
            (SeqOrUid::Value(a), SeqOrUid::Value(b)) => check((a < b) & (b.get() - 1 != a.get()), 5),
            (SeqOrUid::Value(_), SeqOrUid::Asterisk) => {}
            _ => check(false, 6),
        }
    }
    // Normalizing again changes nothing.
    let mut again = s.clone();
    again.normalize();
    check(again == s, 7);
    reach(1);
}

/// A set of numbers next to one of the ends of the number range, and a largest number there.
fn local_set(max: u32, width: u32) -> (u32, u32, Vec<Sequence>) {
    let base = [1, u32::MAX - (width - 1)][case(2) as usize];
    fn offset(width: u32) -> u32 {
        let b = byte();
        assume(b < width as u8);
        b as u32
    }
    let largest = base + offset(width);
    let n = 1 + choice(max);
    let id = || if choice(2) == 0 { SeqOrUid::Asterisk } else { SeqOrUid::Value(nz(base + offset(width))) };
    let v = (0..n).map(|_| if choice(2) == 0 { Sequence::Single(id()) } else { Sequence::Range(id(), id()) }).collect();
    (base, largest, v)
}

/// Iteration yields the members, in order.
fn iter(max: u32, width: u32) {
    let (base, largest, v) = local_set(max, width);
    let s = set(&v);
    let mut want = vec![];
    for i in 0..width {
        if member(&v, base + i, largest) {
            want.push(base + i);
        }
    }
    let mut got = vec![];
    for x in s.iter(nz(largest)) {
        got.push(x.get());
        if got.len() > width as usize {
            break;
        }
    }
    check(got == want, 1);
    let mut want = vec![];
    for t in &v {
        let (a, b) = ends(t, largest);
        if a <= b {
            for x in a..=b {
                want.push(x);
            }
        } else {
            for x in (b..=a).rev() {
                want.push(x);
            }
        }
    }
    let mut got = vec![];
    for x in s.iter_naive(nz(largest)) {
        got.push(x.get());
        if got.len() > want.len() {
            break;
        }
    }
    check(got == want, 2);
    reach(1);
}

// --- conversions ---

/// `r` must denote exactly the numbers from `lo` to `hi` (`None`: without end),
/// or must be an error when the bounds are not numbers that exist or the range is empty.
fn denotes(r: Option<Sequence>, lo: i128, hi: Option<i128>, label: u32) {
    let ok_lo = (lo >= 1) & (lo <= u32::MAX as i128);
    match hi {
        None => match r {
            Some(Sequence::Range(SeqOrUid::Value(a), SeqOrUid::Asterisk)) => check(ok_lo & (a.get() as i128 == lo), label),
            Some(_) => check(false, label),
            None => check(!ok_lo, label),
        },
        Some(hi) => {
            let ok = ok_lo & (hi <= u32::MAX as i128) & (lo <= hi);
            match r {
                Some(Sequence::Range(SeqOrUid::Value(a), SeqOrUid::Value(b))) => {
                    check(ok & (a.get() as i128 == lo) & (b.get() as i128 == hi), label)
                }
                Some(Sequence::Single(SeqOrUid::Value(a))) => {
                    check(ok & (a.get() as i128 == lo) & (a.get() as i128 == hi), label)
                }
                Some(_) => check(false, label),
                None => check(!ok, label),
            }
        }
    }
}

fn one(s: Option<SequenceSet>) -> Option<Sequence> {
    let s = s?;
    let v = s.0.as_ref();
    check(v.len() == 1, 9);
    Some(v[0].clone())
}

macro_rules! num {
    ($t:ty, $f:ident) => {{
        let a = $f as fn() -> _;
        let (a, b) = (a() as $t, a() as $t);
        let (wa, wb) = (a as i128, b as i128);
        let in_range = (wa >= 1) & (wa <= u32::MAX as i128);
        for r in [
            SeqOrUid::try_from(a).ok().map(Sequence::Single),
            Sequence::try_from(a).ok(),
            one(SequenceSet::try_from(a).ok()),
        ] {
            match r {
                Some(Sequence::Single(SeqOrUid::Value(v))) => check(in_range & (v.get() as i128 == wa), 10),
                Some(_) => check(false, 11),
                None => check(!in_range, 12),
            }
        }
        match choice(5) {
            0 => {
                denotes(Sequence::try_from(a..).ok(), wa, None, 20);
                denotes(one(SequenceSet::try_from(a..).ok()), wa, None, 21);
            }
            1 => {
                denotes(Sequence::try_from(..a).ok(), 1, Some(wa - 1), 22);
                denotes(one(SequenceSet::try_from(..a).ok()), 1, Some(wa - 1), 23);
            }
            2 => {
                denotes(Sequence::try_from(..=a).ok(), 1, Some(wa), 24);
                denotes(one(SequenceSet::try_from(..=a).ok()), 1, Some(wa), 25);
            }
            3 => {
                denotes(Sequence::try_from(a..b).ok(), wa, Some(wb - 1), 26);
                denotes(one(SequenceSet::try_from(a..b).ok()), wa, Some(wb - 1), 27);
            }
            _ => {
                // In IMAP the ends of a range may come in any order.
                assume(wa <= wb);
                denotes(Sequence::try_from(a..=b).ok(), wa, Some(wb), 28);
                denotes(one(SequenceSet::try_from(a..=b).ok()), wa, Some(wb), 29);
            }
        }
        match SequenceSet::try_from(&[a, b][..]) {
            Ok(s) => check(
                s.0.as_ref().len() == 2
                    && s.0.as_ref()[0] == Sequence::Single(SeqOrUid::Value(nz(wa as u32)))
                    && s.0.as_ref()[1] == Sequence::Single(SeqOrUid::Value(nz(wb as u32)))
                    && in_range,
                30,
            ),
            Err(_) => check(!(in_range & (wb >= 1) & (wb <= u32::MAX as i128)), 31),
        }
    }};
}

fn from_numbers() {
    match case(11) {
        0 => num!(i8, byte),
        1 => num!(i16, u16_),
        2 => num!(i32, u32_),
        3 => num!(i64, u64_),
        4 => num!(isize, u64_),
        5 => num!(u8, byte),
        6 => num!(u16, u16_),
        7 => num!(u32, u32_),
        8 => num!(u64, u64_),
        9 => num!(usize, u64_),
        _ => {
            let (a, b) = (u32_(), u32_());
            assume((a != 0) & (b != 0));
            let (x, y) = (nz(a), nz(b));
            let (wa, wb) = (a as i128, b as i128);
            let v = Sequence::Single(SeqOrUid::Value(x));
            let w = Sequence::Single(SeqOrUid::Value(y));
            check(SeqOrUid::from(x) == SeqOrUid::Value(x), 40);
            check(Sequence::from(x) == v, 41);
            check(SequenceSet::from(x) == set(&[v.clone()]), 42);
            check(SequenceSet::from(v.clone()) == set(&[v.clone()]), 43);
            check(SequenceSet::from(SeqOrUid::Asterisk) == set(&[Sequence::Single(SeqOrUid::Asterisk)]), 44);
            denotes(Some(Sequence::from(..)), 1, None, 45);
            denotes(one(Some(SequenceSet::from(..))), 1, None, 45);
            denotes(Some(Sequence::from(x..)), wa, None, 46);
            denotes(one(Some(SequenceSet::from(x..))), wa, None, 46);
            denotes(Sequence::try_from(..x).ok(), 1, Some(wa - 1), 47);
            denotes(one(SequenceSet::try_from(..x).ok()), 1, Some(wa - 1), 47);
            denotes(Some(Sequence::from(..=x)), 1, Some(wa), 48);
            denotes(one(Some(SequenceSet::from(..=x))), 1, Some(wa), 48);
            denotes(Sequence::try_from(x..y).ok(), wa, Some(wb - 1), 49);
            denotes(one(SequenceSet::try_from(x..y).ok()), wa, Some(wb - 1), 49);
            match SequenceSet::try_from(vec![x, y]) {
                Ok(s) => check(s == set(&[v.clone(), w.clone()]), 50),
                Err(_) => check(false, 50),
            }
            match SequenceSet::try_from(&[x, y][..]) {
                Ok(s) => check(s == set(&[v.clone(), w.clone()]), 51),
                Err(_) => check(false, 51),
            }
            match SequenceSet::try_from(vec![v.clone(), w.clone()]) {
                Ok(s) => check(s == set(&[v, w]), 52),
                Err(_) => check(false, 52),
            }
            check(SequenceSet::try_from(Vec::<Sequence>::new()).is_err(), 53);
            check(SequenceSet::try_from(Vec::<NonZeroU32>::new()).is_err(), 53);
            if wa <= wb {
                denotes(Some(Sequence::from(x..=y)), wa, Some(wb), 54);
                denotes(one(Some(SequenceSet::from(x..=y))), wa, Some(wb), 54);
            }
        }
    }
    let _ = Bound::<u8>::Unbounded;
    reach(1);
}

// --- text ---

/// seq-number = nz-number / "*"
fn ref_id(x: &[u8]) -> Option<SeqOrUid> {
    if x.len() == 1 && x[0] == b'*' {
        return Some(SeqOrUid::Asterisk);
    }
    if x.is_empty() || x.len() > 10 || x[0] < b'1' || x[0] > b'9' {
        return None;
    }
    let mut n = 0u64;
    for &d in x {
        if d < b'0' || d > b'9' {
            return None;
        }
        n = n * 10 + (d - b'0') as u64;
    }
    if n > u32::MAX as u64 {
        return None;
    }
    Some(SeqOrUid::Value(nz(n as u32)))
}

/// sequence-set = (seq-number / seq-range) *("," ...)
fn ref_set(x: &[u8]) -> Option<Vec<Sequence>> {
    let mut out = vec![];
    let mut i = 0;
    loop {
        let mut j = i;
        while j < x.len() && x[j] != b',' {
            j += 1;
        }
        let part = &x[i..j];
        let mut c = 0;
        while c < part.len() && part[c] != b':' {
            c += 1;
        }
        if c == part.len() {
            out.push(Sequence::Single(ref_id(part)?));
        } else {
            out.push(Sequence::Range(ref_id(&part[..c])?, ref_id(&part[c + 1..])?));
        }
        if j == x.len() {
            return Some(out);
        }
        i = j + 1;
    }
}

fn strip_zeros(x: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let mut start = true;
    for (i, &b) in x.iter().enumerate() {
        let digit_next = i + 1 < x.len() && x[i + 1] >= b'0' && x[i + 1] <= b'9';
        if start && b == b'0' && digit_next {
            continue;
        }
        start = b == b':' || b == b',';
        out.push(b);
    }
    out
}

fn text_of(x: &[u8]) {
    note(x);
    let want = ref_set(x);
    let s = need(std::str::from_utf8(x));
    match SequenceSet::try_from(s) {
        Ok(got) => match &want {
            Some(w) => {
                check(got.0.as_ref() == &w[..], 1);
                reach(1);
            }
            None => check(false, 2),
        },
        Err(_) => {
            check(want.is_none(), 3);
            reach(2);
        }
    }
    // the same on the wire
    let mut m = b"a FETCH ".to_vec();
    m.extend_from_slice(x);
    m.extend_from_slice(b" UID\r\n");
    match CommandCodec::default().decode(&m) {
        Ok((rem, c)) => {
            if let CommandBody::Fetch { sequence_set, .. } = &c.body {
                // The decoder also accepts leading zeros.
                match ref_set(&strip_zeros(x)) {
                    Some(w) => check(rem.is_empty() && sequence_set.0.as_ref() == &w[..], 4),
                    None => check(false, 5),
                }
            } else {
                check(false, 6);
            }
        }
        Err(_) => check(want.is_none(), 7),
    }
}

fn text(n: usize) {
    let x = bytes(n);
    let mut ok = true;
    for b in &x {
        ok &= *b < 0x80;
    }
    assume(ok);
    let mut crlf = false;
    for b in &x {
        crlf |= (*b == b'\n') | (*b == b' ');
    }
    assume(!crlf);
    text_of(&x);
}

fn text_big() {
    let (a, b): (&[u8], &[u8]) =
        [(&b""[..], &b""[..]), (b"1:", b""), (b"", b":*"), (b"*,", b",2:3"), (b"+", b""), (b"0", b"")][case(6) as usize];
    let p: &[u8] = [&b""[..], b"42949672", b"429496729", b"999999999", b"4294967295", b"0", b"1000000000000000000"]
        [choice(7) as usize];
    let d = digits(2);
    text_of(&[a, p, &d, b].concat());
}

/// The order of sequences: a < b iff everything in a is below everything in b.
fn order() {
    use std::cmp::Ordering::*;
    fn pos(i: SeqOrUid) -> u64 {
        match i {
            SeqOrUid::Value(v) => v.get() as u64,
            SeqOrUid::Asterisk => 1 << 40,
        }
    }
    fn lohi(s: &Sequence) -> (u64, u64) {
        let (a, b) = match s {
            Sequence::Single(a) => (pos(*a), pos(*a)),
            Sequence::Range(a, b) => (pos(*a), pos(*b)),
        };
        (a.min(b), a.max(b))
    }
    let _ = case(1);
    let (a, b) = (any_seq(false), any_seq(false));
    let (x, y) = (lohi(&a), lohi(&b));
    let r = a.partial_cmp(&b);
    check((r == Some(Less)) == (x.1 < y.0), 1);
    check((r == Some(Greater)) == (x.0 > y.1), 2);
    if r == Some(Equal) {
        check(x == y, 3);
    }
    reach(1);
}

crate::harnesses! {
    fn h_c12_norm2() { normalize(2, false) }
    fn h_c12_norm2n() { normalize(2, true) }
    fn h_c12_norm3() { normalize(3, false) }
    fn h_c12_norm3n() { normalize(3, true) }
    fn h_c12_norm4n() { normalize(4, true) }
    fn h_c12_iter() { iter(2, 3) }
    fn h_c12_iter3() { iter(3, 3) }
    fn h_c12_num() { from_numbers() }
    fn h_c12_text3() { let _ = case(1); text(3) }
    fn h_c12_text4() { let _ = case(1); text(4) }
    fn h_c12_text5() { let _ = case(1); text(5) }
    fn h_c12_text6() { let _ = case(1); text(6) }
    fn h_c12_big() { text_big() }
    fn h_c12_order() { order() }
}
