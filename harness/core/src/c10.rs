//! Validated types hold exactly what the grammar allows, with the given content.
use crate::abnf::*;
use crate::sym::*;
use imap_types::{
    auth::AuthMechanism,
    core::*,
    datetime::{DateTime, NaiveDate},
    extensions::{
        compress::CompressionAlgorithm, condstore_qresync::AttributeFlag, enable::CapabilityEnable, quota::Resource,
        sort::SortAlgorithm, thread::ThreadingAlgorithm,
    },
    flag::{Flag, FlagNameAttribute},
    mailbox::*,
    response::{Capability, Code, CommandContinuationRequest, CommandContinuationRequestBasic},
};
use std::borrow::Cow;
use std::str::from_utf8;

/// Up to `max` arbitrary bytes, or a long text with one arbitrary byte somewhere.
fn input(max: usize) -> Vec<u8> {
    let n = choice(max as u32 + 2) as usize;
    if n <= max {
        return bytes(n);
    }
    let len = [9, 33, 70][choice(3) as usize];
    let at = [0, 1, len / 2, len - 2, len - 1][choice(5) as usize];
    let mut v = vec![b'a'; len];
    v[at] = byte();
    v
}

fn lower(b: u8) -> u8 {
    if b >= b'A' && b <= b'Z' { b | 0x20 } else { b }
}

fn same_ci(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        ok &= lower(a[i]) == lower(b[i]);
    }
    ok
}

/// A construction succeeds exactly if `valid`, and keeps the content.
macro_rules! conv {
    ($valid:expr, $x:expr, $r:expr, |$v:ident| $get:expr) => {{
        let r = $r;
        check(r.is_ok() == $valid, 1);
        if let Ok($v) = r {
            check(same($get, $x), 2);
            reach(1);
        } else {
            reach(2);
        }
    }};
}

/// The constructors from bytes and text.
macro_rules! conv_all {
    ($t:ty, $valid:expr, $x:expr, |$v:ident| $get:expr) => {{
        let x: &[u8] = $x;
        let valid: bool = $valid;
        match choice(4) {
            0 => conv!(valid, x, <$t>::try_from(x), |$v| $get),
            1 => conv!(valid, x, <$t>::try_from(x.to_vec()), |$v| $get),
            2 => conv!(valid, x, <$t>::try_from(need(from_utf8(x))), |$v| $get),
            _ => conv!(valid, x, <$t>::try_from(need(String::from_utf8(x.to_vec()))), |$v| $get),
        }
    }};
}

fn strings(max: usize) {
    let k = case(14);
    strings_of(k, input(max));
}

/// Long texts with one arbitrary byte.
fn strings_long(lens: &[usize]) {
    let k = case(14 * lens.len() as u32);
    let len = lens[k as usize / 14];
    let at = [0, 1, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, len / 2, len - 2, len - 1];
    let at = at[choice(at.len() as u32) as usize];
    assume(at < len);
    let mut v = vec![b'a'; len];
    v[at] = byte();
    strings_of(k % 14, v);
}

fn strings_of(k: u32, x: Vec<u8>) {
    let x = &x[..];
    match k {
        0 => {
            check(Atom::validate(x).is_ok() == all1(x, atom_char), 3);
            conv_all!(Atom, all1(x, atom_char), x, |v| v.into_inner().as_bytes());
        }
        1 => {
            check(AtomExt::validate(x).is_ok() == all1(x, astring_char), 3);
            conv_all!(AtomExt, all1(x, astring_char), x, |v| v.into_inner().as_bytes());
        }
        2 => {
            check(Tag::validate(x).is_ok() == all1(x, tag_char), 3);
            conv_all!(Tag, all1(x, tag_char), x, |v| v.inner().as_bytes());
        }
        3 => {
            check(Text::validate(x).is_ok() == all1(x, text_char), 3);
            conv_all!(Text, all1(x, text_char), x, |v| v.into_inner().as_bytes());
        }
        4 => {
            check(Quoted::validate(x).is_ok() == all(x, text_char), 3);
            conv_all!(Quoted, all(x, text_char), x, |v| v.into_inner().as_bytes());
        }
        5 => {
            check(Literal::validate(x).is_ok() == all(x, char8), 3);
            conv_all!(Literal, all(x, char8), x, |v| {
                check(v.mode() == LiteralMode::Sync, 4);
                check(same(v.as_ref(), x), 5);
                check(same(v.clone().into_non_sync().data(), x), 6);
                check(v.clone().into_non_sync().mode() == LiteralMode::NonSync, 7);
                check(v.clone().into_non_sync().into_sync() == v, 8);
                &v.into_inner()
            });
        }
        6 => conv_all!(IString, all(x, char8), x, |v| &v.into_inner()),
        7 => conv_all!(NString, all(x, char8), x, |v| &need_some(v.into_option())),
        8 => conv_all!(AString, all(x, char8), x, |v| v.as_ref()),
        9 => conv_all!(Charset, all(x, text_char), x, |v| v.as_ref().as_bytes()),
        10 => conv_all!(MailboxOther, all(x, char8) && !same_ci(x, b"inbox"), x, |v| v.as_ref()),
        11 => {
            let valid = all1(x, list_char);
            check(ListCharString::validate(x).is_ok() == valid, 3);
            let s = need(from_utf8(x));
            match choice(2) {
                0 => conv!(valid, x, ListCharString::try_from(s), |v| v.as_ref()),
                _ => conv!(valid, x, ListCharString::try_from(s.to_string()), |v| v.as_ref()),
            }
        }
        12 => {
            let valid = all(x, char8);
            let s = need(from_utf8(x));
            let r = match choice(2) {
                0 => ListMailbox::try_from(s),
                _ => ListMailbox::try_from(s.to_string()),
            };
            conv!(valid, x, r, |v| match &v {
                ListMailbox::Token(t) => t.as_ref(),
                ListMailbox::String(t) => t.as_ref(),
            })
        }
        _ => {
            // Also the conversions from `Cow`.
            let s = need(from_utf8(x));
            let c: Cow<str> = if choice(2) == 0 { Cow::Borrowed(s) } else { Cow::Owned(s.to_string()) };
            conv!(all1(x, atom_char), x, Atom::try_from(c), |v| v.as_ref().as_bytes());
        }
    }
}

/// As `conv`, up to the case of known names.
macro_rules! name {
    ($valid:expr, $x:expr, $r:expr, |$v:ident| $get:expr) => {{
        let r = $r;
        check(r.is_ok() == $valid, 1);
        if let Ok($v) = r {
            check(same_ci($get, $x), 2);
            reach(1);
        } else {
            reach(2);
        }
    }};
}

macro_rules! names_all {
    ($t:ty, $valid:expr, $x:expr, |$v:ident| $get:expr) => {{
        let x: &[u8] = $x;
        let valid: bool = $valid;
        match choice(4) {
            0 => name!(valid, x, <$t>::try_from(x), |$v| $get),
            1 => name!(valid, x, <$t>::try_from(x.to_vec()), |$v| $get),
            2 => name!(valid, x, <$t>::try_from(need(from_utf8(x))), |$v| $get),
            _ => name!(valid, x, <$t>::try_from(need(String::from_utf8(x.to_vec()))), |$v| $get),
        }
    }};
}

/// Names: an atom (behind the given prefix), shown as it was given.
fn names(max: usize) {
    let k = case(8);
    let x = input(max);
    let x = &x[..];
    let atom = all1(x, atom_char);
    match k {
        0 => names_all!(AuthMechanism, atom, x, |v| v.as_ref().as_bytes()),
        1 => names_all!(Capability, atom, x, |v| v.to_string().as_bytes()),
        2 => names_all!(Resource, atom, x, |v| v.to_string().as_bytes()),
        3 => name!(atom, x, CapabilityEnable::try_from(need(from_utf8(x))), |v| v.to_string().as_bytes()),
        4 => {
            let valid = if x.first() == Some(&b'\\') { all1(&x[1..], atom_char) } else { atom };
            name!(valid, x, Flag::try_from(need(from_utf8(x))), |v| v.to_string().as_bytes())
        }
        5 => {
            let valid = if x.len() >= 2 && x[0] == b'\\' && x[1] == b'\\' { all1(&x[2..], atom_char) } else { atom };
            name!(valid, x, AttributeFlag::try_from(need(from_utf8(x))), |v| v.to_string().as_bytes())
        }
        6 => {
            let a = need(Atom::try_from(x));
            let mut y = vec![b'\\'];
            y.extend_from_slice(x);
            check(same_ci(FlagNameAttribute::from(a.clone()).to_string().as_bytes(), &y), 2);
            check(same_ci(Flag::system(a.clone()).to_string().as_bytes(), &y), 3);
            check(same_ci(Flag::keyword(a.clone()).to_string().as_bytes(), x), 4);
            check(same_ci(SortAlgorithm::from(a.clone()).to_string().as_bytes(), x), 5);
            check(same_ci(ThreadingAlgorithm::from(a).to_string().as_bytes(), x), 6);
            reach(1);
            reach(2);
        }
        _ => {
            // No other compression algorithm.
            check(CompressionAlgorithm::try_from(x).is_err(), 1);
            check(CompressionAlgorithm::try_from(need(from_utf8(x))).is_err(), 2);
            check(CompressionAlgorithm::try_from(need(Atom::try_from(x))).is_err(), 3);
            reach(1);
            reach(2);
        }
    }
}

fn b64(b: u8) -> u8 {
    // The value of a base64 digit, or 255.
    let mut v = 255;
    if b >= b'A' && b <= b'Z' { v = b - b'A' }
    if b >= b'a' && b <= b'z' { v = b - b'a' + 26 }
    if b >= b'0' && b <= b'9' { v = b - b'0' + 52 }
    if b == b'+' { v = 62 }
    if b == b'/' { v = 63 }
    v
}

fn is_base64(x: &[u8]) -> bool {
    if x.len() % 4 != 0 || x.is_empty() {
        return x.is_empty();
    }
    let n = x.len();
    let all64 = |x: &[u8]| x.iter().fold(true, |a, b| a & (b64(*b) != 255));
    let pad0 = all64(x);
    let pad1 = all64(&x[..n - 1]) & (x[n - 1] == b'=') & (b64(x[n - 2]) & 3 == 0);
    let pad2 = all64(&x[..n - 2]) & (x[n - 1] == b'=') & (x[n - 2] == b'=') & (b64(x[n - 3]) & 15 == 0);
    pad0 | pad1 | pad2
}

/// Continuation requests cannot be mistaken for something else.
fn cont(max: usize) {
    let x = bytes_upto(0, max);
    let s = need(from_utf8(&x));
    let text = all1(&x, text_char);
    let valid = text && x[0] != b'[' && !is_base64(&x);
    match case(4) {
        0 => conv!(valid, &x, CommandContinuationRequestBasic::new(None, s), |v| {
            check(v.code().is_none(), 3);
            v.text().as_ref().as_bytes()
        }),
        1 => conv!(text, &x, CommandContinuationRequestBasic::new(Some(Code::Alert), s), |v| {
            check(v.code() == Some(&Code::Alert), 3);
            v.text().as_ref().as_bytes()
        }),
        2 => conv!(valid, &x, CommandContinuationRequest::basic(None, s.to_string()), |v| match &v {
            CommandContinuationRequest::Basic(b) => b.text().as_ref().as_bytes(),
            _ => b"?",
        }),
        _ => conv!(text, &x, CommandContinuationRequest::basic(Some(Code::Alert), s.to_string()), |v| match &v {
            CommandContinuationRequest::Basic(b) => b.text().as_ref().as_bytes(),
            _ => b"?",
        }),
    }
}

/// Single characters, list lengths, numbers.
fn small() {
    match case(5) {
        0 => {
            let c = need_some(char::from_u32(u32_()));
            let r = QuotedChar::try_from(c);
            check(QuotedChar::validate(c).is_ok() == r.is_ok(), 1);
            check(r.is_ok() == ((c as u32) < 0x80 && text_char(c as u8)), 2);
            if let Ok(q) = r {
                check(q.inner() == c, 3);
                reach(1);
            } else {
                reach(2);
            }
        }
        1 => {
            let v = bytes_upto(0, 4);
            let r = Vec1::try_from(v.clone());
            check(Vec1::validate(&v).is_ok() == (v.len() >= 1) && r.is_ok() == (v.len() >= 1), 1);
            if let Ok(w) = r {
                check(same(w.as_ref(), &v), 2);
                check(same(&w.clone().into_inner(), &v), 3);
                check(same(&w.into_iter().collect::<Vec<_>>(), &v), 4);
            }
            let r = Vec2::try_from(v.clone());
            check(Vec2::validate(&v).is_ok() == (v.len() >= 2) && r.is_ok() == (v.len() >= 2), 5);
            if let Ok(w) = r {
                check(same(w.as_ref(), &v), 6);
                check(same(&w.into_iter().collect::<Vec<_>>(), &v), 7);
            }
            let (a, b) = (byte(), byte());
            check(same(Vec1::from(a).as_ref(), &[a]), 8);
            check(same(Vec2::from((a, b)).as_ref(), &[a, b]), 9);
            check(same(VecN::<u8, 2>::from([a, b]).as_ref(), &[a, b]), 10);
            reach(1);
            reach(2);
        }
        2 => {
            let v = u32_();
            check(matches!(Code::uidnext(v), Ok(Code::UidNext(n)) if n.get() == v) == (v != 0), 1);
            check(matches!(Code::uidvalidity(v), Ok(Code::UidValidity(n)) if n.get() == v) == (v != 0), 2);
            check(matches!(Code::unseen(v), Ok(Code::Unseen(n)) if n.get() == v) == (v != 0), 3);
            check(Code::uidnext(v).is_ok() == (v != 0), 4);
            reach(1);
            reach(2);
        }
        3 => {
            // Dates: years 0 to 9999.
            let y = [-1, 0, 9996, -262_000, 65_536, 262_000][choice(6) as usize] + (byte() & 7) as i32 - 3;
            let (m, d) = [(1, 1), (2, 28), (12, 31)][choice(3) as usize];
            let date = need_some(chrono::NaiveDate::from_ymd_opt(y, m, d));
            let r = NaiveDate::try_from(date);
            check(r.is_ok() == (y >= 0 && y <= 9999), 1);
            if let Ok(v) = r {
                check(*v.as_ref() == date, 2);
                reach(1);
            } else {
                reach(2);
            }
        }
        _ => {
            // Times: years 0 to 9999, whole seconds, zones of whole minutes.
            let (y, m, d) = [(-1, 12, 31), (0, 1, 1), (2024, 2, 29), (9999, 12, 31), (10000, 1, 1)][choice(5) as usize];
            let (h, mi, s) = [(0, 0, 0), (12, 30, 45), (23, 59, 59)][choice(3) as usize];
            let nano = u32_();
            let off = u32_() as i32;
            assume(off > -86400 && off < 86400);
            assume(nano < 2_000_000_000);
            let date = need_some(chrono::NaiveDate::from_ymd_opt(y, m, d));
            let time = need_some(chrono::NaiveTime::from_hms_nano_opt(h, mi, s, nano));
            let zone = need_some(chrono::FixedOffset::east_opt(off));
            let value = chrono::DateTime::from_naive_utc_and_offset(chrono::NaiveDateTime::new(date, time), zone);
            let local = (h * 3600 + mi * 60 + s) as i32 + off;
            let year = if (m, d) == (12, 31) && local >= 86400 {
                y + 1
            } else if (m, d) == (1, 1) && local < 0 {
                y - 1
            } else {
                y
            };
            let valid = (year >= 0) & (year <= 9999) & (nano == 0) & (off % 60 == 0);
            let r = DateTime::try_from(value);
            check(r.is_ok() == valid, 1);
            if let Ok(v) = r {
                check(*v.as_ref() == value, 2);
                reach(1);
            } else {
                reach(2);
            }
        }
    }
}

harnesses! {
    fn h_c10_long() { strings_long(&[130, 257, 1025, 4100]) }
    fn h_c10_long16() { strings_long(&[65537]) }
    fn h_c10_str2() { strings(2) }
    fn h_c10_str3() { strings(3) }
    fn h_c10_str4() { strings(4) }
    fn h_c10_str5() { strings(5) }
    fn h_c10_name1() { names(1) }
    fn h_c10_name2() { names(2) }
    fn h_c10_name3() { names(3) }
    fn h_c10_name4() { names(4) }
    fn h_c10_cont4() { cont(4) }
    fn h_c10_cont8() { cont(8) }
    fn h_c10_small() { small() }
}
