//! Quirks: each irregular spelling is accepted with its feature, as what it stands for,
//! and rejected without; nothing else changes.
use crate::abnf;
use crate::corpus;
use crate::fam::{decode, digits, Msg, Out};
use crate::sym::*;
use imap_types::{command::CommandBody, response::Data};

const QUIRK: bool = cfg!(feature = "quirk");
const ALL: bool = cfg!(feature = "quirk_all");

/// The irregular message `q` means the same as the regular message `r` if `on`, and is rejected otherwise.
fn pair(k: u32, q: &[u8], r: &[u8], on: bool) {
    note(q);
    note(r);
    let m = match decode(k, r) {
        Out::Ok(rem, m) => {
            check(rem.is_empty(), 1);
            m
        }
        _ => {
            check(false, 2);
            return;
        }
    };
    match decode(k, q) {
        Out::Ok(rem, n) => {
            check(on, 3);
            check(rem.is_empty(), 4);
            check(n == m, 5);
            reach(1);
        }
        Out::Failed => {
            check(!on, 6);
            reach(2);
        }
        // The end of a continuation request is searched for.
        Out::Incomplete => check(!on && q.starts_with(b"+ "), 7),
        _ => check(false, 26),
    }
    // never complete early
    let cut = choice(3) as usize;
    if cut < q.len() {
        match decode(k, &q[..q.len() - 1 - cut]) {
            Out::Ok(..) => check(false, 8),
            Out::Failed => check(!on, 9),
            _ => (),
        }
    }
}

fn cat(x: &[&[u8]]) -> Vec<u8> {
    x.concat()
}

/// An arbitrary character of a class.
fn a(f: fn(u8) -> bool) -> Vec<u8> {
    let b = byte();
    assume(f(b));
    vec![b]
}

fn code_char(b: u8) -> bool {
    abnf::atom_char(b) && b != b'['
}

fn spaces(max: u32) -> (Vec<u8>, bool) {
    let n = choice(max) as usize;
    (vec![b' '; n + 1], n > 0)
}

fn decoding() {
    let w = case(14);
    match w {
        0 => {
            let (k, head): (u32, &[u8]) = [
                (0, &b"* OK "[..]),
                (0, b"* BYE "),
                (0, b"* PREAUTH "),
                (3, b"* OK "),
                (3, b"* NO "),
                (3, b"* BAD "),
                (3, b"* BYE "),
                (3, b"A OK "),
                (3, b"A NO "),
                (3, b"A BAD "),
                (3, b"+ "),
            ][choice(11) as usize];
            let code = match choice(6) {
                0 => b"ALERT".to_vec(),
                1 => b"CAPABILITY IMAP4REV1 X".to_vec(),
                2 => cat(&[b"UIDNEXT 1", &digits(1)]),
                3 => b"BADCHARSET (x \"y\")".to_vec(),
                4 => b"HIGHESTMODSEQ 7".to_vec(),
                _ => cat(&[b"X-", &a(code_char), &a(code_char)]),
            };
            pair(k, &cat(&[head, b"[", &code, b"]\r\n"]), &cat(&[head, b"[", &code, b"] ...\r\n"]), QUIRK);
        }
        1 => {
            let (p, s): (&[u8], &[u8]) = [
                (&b"* 1 FETCH (BODY (\"A\" \"B\" NIL NIL NIL \"C\" "[..], &b"))\r\n"[..]),
                (b"* 1 FETCH (BODY (\"TEXT\" \"B\" NIL NIL NIL \"C\" ", b" 4))\r\n"),
                (
                    b"* 1 FETCH (BODY (\"MESSAGE\" \"RFC822\" NIL NIL NIL \"C\" ",
                    b" (NIL NIL NIL NIL NIL NIL NIL NIL NIL NIL) (\"A\" \"B\" NIL NIL NIL \"C\" 1) 3))\r\n",
                ),
                (b"* 1 FETCH (BODYSTRUCTURE ((\"A\" \"B\" NIL NIL NIL \"C\" ", b") \"MIXED\"))\r\n"),
            ][choice(4) as usize];
            pair(3, &cat(&[p, b"-", &digits(1 + choice(2) as usize), s]), &cat(&[p, b"0", s]), QUIRK);
        }
        2 => {
            // only the octets are rectified
            let (k, p, s): (u32, &[u8], &[u8]) = [
                (3, &b"* 1 FETCH (BODY (\"TEXT\" \"B\" NIL NIL NIL \"C\" 1 "[..], &b"))\r\n"[..]),
                (3, b"* 1 FETCH (RFC822.SIZE ", b")\r\n"),
                (3, b"* STATUS x (MESSAGES ", b")\r\n"),
                (3, b"* ", b" EXISTS\r\n"),
                (3, b"* QUOTA x (STORAGE 1 ", b")\r\n"),
                (1, b"a SEARCH LARGER ", b"\r\n"),
                (1, b"a GETMETADATA (MAXSIZE ", b") x /y\r\n"),
            ][choice(7) as usize];
            pair(k, &cat(&[p, b"-", &digits(1), s]), &cat(&[p, b"0", s]), false);
        }
        3 => {
            let ((x, q1), (y, q2)) = (spaces(3), spaces(3));
            let (u, l) = (digits(1), digits(1));
            let two = choice(2) == 1;
            let tail: &[u8] = if two { b" MESSAGE 1 2)\r\n" } else { b")\r\n" };
            let r = cat(&[b"* QUOTA x (STORAGE ", &u, b" ", &l, tail]);
            let q = cat(&[b"* QUOTA x (STORAGE", &x, &u, &y, &l, tail]);
            pair(3, &q, &r, QUIRK || !(q1 || q2));
        }
        4 => {
            let (k, p, s): (u32, &[u8], &[u8]) = [
                (3, &b"* STATUS x (MESSAGES 1)"[..], &b"\r\n"[..]),
                (3, b"* STATUS x ()", b"\r\n"),
                (3, b"* STATUS \"y z\" (UIDNEXT 4 UNSEEN 0)", b"\r\n"),
                (3, b"* CAPABILITY IMAP4REV1", b"\r\n"),
                (3, b"* CAPABILITY IMAP4REV1 X-Y", b"\r\n"),
                (3, b"* OK [CAPABILITY IMAP4REV1 X-Y", b"] t\r\n"),
                (0, b"* OK [CAPABILITY IMAP4REV1 X-Y", b"] t\r\n"),
                (3, b"* ID (\"a\" \"b\"", b")\r\n"),
                (3, b"* ID (\"a\" \"b\" {1}\r\nx NIL", b")\r\n"),
                (3, b"* ID (", b")\r\n"),
                (1, b"a ID (\"a\" \"b\"", b")\r\n"),
                (1, b"a ID (", b")\r\n"),
                (3, b"* SEARCH", b"\r\n"),
                (3, b"* SEARCH 1 2", b"\r\n"),
                (3, b"* SEARCH 1 (MODSEQ 5)", b"\r\n"),
            ][choice(15) as usize];
            let r = cat(&[p, s]);
            let q = cat(&[p, b" ", s]);
            if p.windows(11).any(|w| w == b"[CAPABILITY") && !QUIRK {
                // then it is a code that is not known
                match (decode(k, &q), decode(k, &r)) {
                    (Out::Ok(_, m), Out::Ok(_, n)) => check(m != n, 10),
                    _ => check(false, 11),
                }
                reach(3);
            } else {
                pair(k, &q, &r, QUIRK);
            }
        }
        5 => {
            // two spaces are too many, and so is one elsewhere
            let (k, p, s): (u32, &[u8], &[u8]) = [
                (3, &b"* STATUS x (MESSAGES 1) "[..], &b"\r\n"[..]),
                (3, b"* STATUS x (MESSAGES 1", b")\r\n"),
                (3, b"* STATUS x (", b"MESSAGES 1)\r\n"),
                (3, b"* CAPABILITY IMAP4REV1 ", b"\r\n"),
                (3, b"* CAPABILITY ", b"IMAP4REV1\r\n"),
                (3, b"* ID (\"a\" \"b\" ", b")\r\n"),
                (3, b"* ID (", b"\"a\" \"b\")\r\n"),
                (3, b"* ID (\"a\" ", b"\"b\")\r\n"),
                (3, b"* ID (\"a\" \"b\")", b"\r\n"),
                (3, b"* SEARCH 1 ", b"\r\n"),
                (3, b"* SEARCH ", b"1\r\n"),
                (3, b"* SORT 1", b"\r\n"),
                (3, b"* QUOTA x (", b"STORAGE 1 2)\r\n"),
                (3, b"* QUOTA x (STORAGE 1 2", b")\r\n"),
                (3, b"* QUOTA ", b"x (STORAGE 1 2)\r\n"),
                (3, b"* LIST () NIL x", b"\r\n"),
                (3, b"* FLAGS (x", b")\r\n"),
                (3, b"* ENABLED X-Y", b"\r\n"),
                (3, b"* 1 EXISTS", b"\r\n"),
                (3, b"* 1 FETCH (UID 1", b")\r\n"),
                (3, b"* 1 FETCH (UID 1)", b"\r\n"),
                (1, b"a NOOP", b"\r\n"),
                (1, b"a ID NIL", b"\r\n"),
                (1, b"a SEARCH ALL", b"\r\n"),
                (1, b"a LOGIN x y", b"\r\n"),
                (1, b"a SELECT ", b"x\r\n"),
                (1, b"a FETCH 1 ", b"UID\r\n"),
                (1, b"a STATUS x (MESSAGES", b")\r\n"),
            ][choice(28) as usize];
            // (with one space, some need a quirk)
            assume(QUIRK || !p.ends_with(b" "));
            pair(k, &cat(&[p, b" ", s]), &cat(&[p, s]), false);
        }
        6 => {
            let (t, s): (&[u8], &[u8]) = [
                (&b"* 1 FETCH (ENVELOPE (NIL NIL "[..], &b" NIL NIL NIL NIL NIL NIL NIL))\r\n"[..]),
                (b"* 1 FETCH (ENVELOPE (NIL NIL NIL NIL NIL NIL ", b" NIL NIL NIL))\r\n"),
                (b"* 1 FETCH (ENVELOPE (NIL NIL NIL NIL NIL NIL NIL ", b" NIL NIL))\r\n"),
            ][choice(3) as usize];
            let (x, y) = (vec![b' '; choice(3) as usize], vec![b' '; choice(3) as usize]);
            let c = a(abnf::atom_char);
            let one = cat(&[b"(NIL NIL \"", &c, b"\" \"h\")"]);
            let two: &[u8] = b"(\"n\" NIL \"m\" NIL)";
            let q = cat(&[t, b"(", &x, &one, &y, two, b")", s]);
            let r = cat(&[t, b"(", &one, two, b")", s]);
            pair(3, &q, &r, QUIRK || (x.is_empty() && y.is_empty()));
        }
        7 => {
            pair(3, b"+\r\n", b"+ ...\r\n", QUIRK);
        }
        8 => {
            let (p, s): (&[u8], &[u8]) = [
                (&b"* 1 FETCH (BODY (\"A\" \"B\" NIL NIL NIL "[..], &b" 1))\r\n"[..]),
                (b"* 1 FETCH (BODY (\"TEXT\" \"B\" NIL NIL NIL ", b" 1 4))\r\n"),
                (b"* 1 FETCH (BODYSTRUCTURE ((\"A\" \"B\" NIL NIL NIL ", b" 1) \"MIXED\"))\r\n"),
            ][choice(3) as usize];
            let mut n = b"NIL".to_vec();
            let i = choice(3) as usize;
            if choice(2) == 1 {
                n[i] |= 32;
            }
            pair(3, &cat(&[p, &n, s]), &cat(&[p, b"\"\"", s]), QUIRK);
        }
        9 => {
            // NIL is not a string anywhere else
            let (k, p, s): (u32, &[u8], &[u8]) = [
                (3, &b"* 1 FETCH (BODY (\"A\" "[..], &b" NIL NIL NIL \"C\" 1))\r\n"[..]),
                (3, b"* 1 FETCH (BODY (", b" \"A\" NIL NIL NIL \"C\" 1))\r\n"),
                (3, b"* 1 FETCH (BODY (\"A\" \"B\" (\"x\" ", b") NIL NIL \"C\" 1))\r\n"),
                (3, b"* 1 FETCH (BODY ((\"A\" \"B\" NIL NIL NIL \"C\" 1) ", b"))\r\n"),
                (3, b"* ID (", b" \"x\")\r\n"),
                (1, b"a ID (", b" \"x\")\r\n"),
            ][choice(6) as usize];
            pair(k, &cat(&[p, b"NIL", s]), &cat(&[p, b"\"\"", s]), false);
        }
        10 => {
            // missing text in front of nothing
            let head: &[u8] = [&b"* OK"[..], b"* NO", b"* BAD", b"* BYE", b"A OK"][choice(5) as usize];
            let sp: &[u8] = [&b""[..], b" "][choice(2) as usize];
            pair(3, &cat(&[head, sp, b"\r\n"]), &cat(&[head, b" ...\r\n"]), false);
        }
        11 => {
            // spaces that belong to the text are kept
            let n = choice(4) as usize;
            let c = a(abnf::atom_char);
            assume(c[0] != b'[');
            let x = cat(&[b"* OK [ALERT] ", &vec![b' '; n], &c, &vec![b' '; n], b"\r\n"]);
            note(&x);
            match decode(3, &x) {
                Out::Ok(rem, m) => check(rem.is_empty() && same(&m.encode(), &x), 12),
                _ => check(false, 13),
            }
            reach(4);
        }
        12 => {
            // an empty list in ID is written as it is, or as NIL
            let (k, x): (u32, &[u8]) = [(1, &b"a ID ()\r\n"[..]), (3, b"* ID ()\r\n")][choice(2) as usize];
            let nil: &[u8] = if k == 1 { b"a ID NIL\r\n" } else { b"* ID NIL\r\n" };
            match decode(k, x) {
                Out::Ok(_, m) => {
                    check(same(&m.encode(), if ALL { nil } else { x }), 14);
                    match &m {
                        Msg::Command(c) => match &c.body {
                            CommandBody::Id { parameters } => check(parameters.as_ref().map(|p| p.len()) == Some(0), 15),
                            _ => check(false, 16),
                        },
                        Msg::Response(imap_types::response::Response::Data(Data::Id { parameters })) => {
                            check(parameters.as_ref().map(|p| p.len()) == Some(0), 17)
                        }
                        _ => check(false, 18),
                    }
                }
                _ => check(false, 19),
            }
            match decode(k, nil) {
                Out::Ok(_, m) => check(same(&m.encode(), nil), 20),
                _ => check(false, 21),
            }
            reach(5);
        }
        _ => {
            // sequence sets are written in normal form with the quirk only
            let d = |n: u8| {
                let b = byte();
                assume(b >= b'1' && b <= b'0' + n);
                b
            };
            let (p, q, r) = (d(4), d(4), d(4));
            let set = match choice(4) {
                0 => vec![p, b',', q, b',', r],
                1 => vec![p, b':', q, b',', r],
                2 => vec![p, b',', q, b':', r],
                _ => vec![p, b',', q, b',', b'*'],
            };
            let (a, b): (&[u8], &[u8]) = [
                (&b"a FETCH "[..], &b" UID\r\n"[..]),
                (b"a STORE ", b" FLAGS (x)\r\n"),
                (b"a UID COPY ", b" x\r\n"),
                (b"a SEARCH UID ", b"\r\n"),
            ][choice(4) as usize];
            let x = cat(&[a, &set, b]);
            note(&x);
            let m = match decode(1, &x) {
                Out::Ok(_, m) => m.encode(),
                _ => {
                    check(false, 22);
                    return;
                }
            };
            if !QUIRK {
                check(same(&m, &x), 23);
            } else {
                let s = std::str::from_utf8(&set).unwrap();
                let mut want = imap_types::sequence::SequenceSet::try_from(s).unwrap();
                want.normalize();
                check(m.starts_with(a) && m.ends_with(b), 24);
                let got = std::str::from_utf8(&m[a.len()..m.len() - b.len()]).unwrap();
                check(imap_types::sequence::SequenceSet::try_from(got).ok() == Some(want), 25);
            }
            reach(6);
        }
    }
}

/// LF in place of CRLF, in one place or everywhere.
fn line_breaks() {
    let (k, m) = corpus::nth(case(corpus::total()));
    // (one message is malformed)
    assume(!m.ends_with(b"%\"\r\n"));
    let at: Vec<usize> = (0..m.len()).filter(|i| m[*i] == b'\r').collect();
    let one = choice(at.len() as u32 + 1) as usize;
    let mut q = vec![];
    for (i, b) in m.iter().enumerate() {
        if *b == b'\r' && (one == at.len() || at[one] == i) {
            continue;
        }
        q.push(*b);
    }
    pair(k, &q, m, ALL);
}

/// Anything in place of a CR.
fn no_line_break() {
    let (k, m) = corpus::nth(case(corpus::total()));
    let at: Vec<usize> = (0..m.len()).filter(|i| m[*i] == b'\r').collect();
    let i = at[choice(at.len() as u32) as usize];
    let mut q = m.to_vec();
    q[i] = byte();
    assume(q[i] != b'\r');
    note(&q);
    match decode(k, &q) {
        Out::Ok(rem, m) => {
            // with relaxed line breaks, as part of what is in front
            check(ALL, 30);
            let _ = (rem, m);
            reach(1);
        }
        Out::Failed => reach(2),
        _ => {
            // an announcement may become a string that continues
            reach(3);
        }
    }
}

crate::harnesses! {
    fn h_c19_decoding() { decoding() }
    fn h_c19_breaks() { line_breaks() }
    fn h_c19_nobreak() { no_line_break() }
}
