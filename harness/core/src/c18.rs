//! Fields: in every place of a message exactly the values that the grammar allows for
//! that place are accepted, and they are taken as they are written.
use crate::abnf;
use crate::fam::{decode, digits, Out};
use crate::sym::*;

// Kinds of fields, as markers in the templates.
/// atom
const A: u8 = 1;
/// astring
const S: u8 = 2;
/// list-mailbox
const L: u8 = 3;
/// tag
const T: u8 = 4;
/// string
const Q: u8 = 5;
/// nstring
const N: u8 = 6;
/// nstring / literal8
const N8: u8 = 7;
/// literal / literal8
const B: u8 = 8;
/// text
const X: u8 = 11;
/// number
const N32: u8 = 12;
/// nz-number
const NZ: u8 = 14;
/// number64
const N64: u8 = 15;
/// mod-sequence-value
const M64: u8 = 21;
/// charset (atom / quoted)
const C: u8 = 16;
/// QUOTED-CHAR in quotes, or NIL
const QC: u8 = 17;
/// base64
const B64: u8 = 18;
/// literal
const LI: u8 = 19;
/// a number that a quirk rectifies
const NR: u8 = 20;

fn template(s: &str) -> (u32, Vec<u8>) {
    // "k:text", with `@x` for a field
    let b = s.as_bytes();
    let mut v = vec![];
    let mut i = 2;
    while i < b.len() {
        if b[i] == b'@' {
            i += 1;
            v.push(match b[i] {
                b'a' => A,
                b's' => S,
                b'l' => L,
                b't' => T,
                b'q' => Q,
                b'n' => N,
                b'8' => N8,
                b'b' => B,
                b'x' => X,
                b'3' => N32,
                b'z' => NZ,
                b'6' => N64,
                b'm' => M64,
                b'c' => C,
                b'd' => QC,
                b'4' => B64,
                b'i' => LI,
                _ => NR,
            });
        } else {
            v.push(b[i]);
        }
        i += 1;
    }
    v.extend_from_slice(b"\r\n");
    ((b[0] - b'0') as u32, v)
}

const TEMPLATES: &[&str] = &[
    // commands
    "1:@t NOOP",
    "1:a AUTHENTICATE @a",
    "1:a AUTHENTICATE PLAIN @4",
    "1:a LOGIN @s @s",
    "1:a SELECT @s",
    "1:a SELECT x (QRESYNC (@z @m))",
    "1:a EXAMINE @s",
    "1:a CREATE @s",
    "1:a DELETE @s",
    "1:a RENAME @s @s",
    "1:a SUBSCRIBE @s",
    "1:a UNSUBSCRIBE @s",
    "1:a LIST @s @l",
    "1:a LSUB @s @l",
    "1:a STATUS @s (MESSAGES)",
    "1:a APPEND @s (@a \\@a) @b",
    "1:a APPEND x @b",
    "1:a SEARCH CHARSET @c BCC @s",
    "1:a SEARCH BODY @s CC @s FROM @s",
    "1:a SEARCH KEYWORD @a UNKEYWORD @a",
    "1:a SEARCH SUBJECT @s TEXT @s TO @s",
    "1:a SEARCH HEADER @s @s LARGER @3 SMALLER @3",
    "1:a UID SEARCH NOT (OR MODSEQ @6 BCC @s)",
    "1:a SORT (DATE) @c BCC @s",
    "1:a THREAD @a @c TO @s",
    "1:a FETCH 1 BODY[@z.@z.MIME]<@3.@z>",
    "1:a FETCH 1 BODY[HEADER.FIELDS (@s @s)]",
    "1:a FETCH 1 BODY.PEEK[@z.HEADER.FIELDS.NOT (@s)]",
    "1:a FETCH 1 (BINARY[@z]<@3.@z> BINARY.SIZE[@z.@z])",
    "1:a FETCH 1 FLAGS (CHANGEDSINCE @m)",
    "1:a STORE 1 (UNCHANGEDSINCE @6) FLAGS (@a \\@a)",
    "1:a STORE 1 +FLAGS (@a)",
    "1:a COPY 1 @s",
    "1:a UID MOVE 1 @s",
    "1:a ENABLE @a",
    "1:a GETQUOTA @s",
    "1:a GETQUOTAROOT @s",
    "1:a SETQUOTA @s (@a @6 STORAGE @6)",
    "1:a ID (@q @n @q @n)",
    "1:a SETMETADATA @s (/x @8 /y @8)",
    "1:a GETMETADATA (MAXSIZE @3) @s /x",
    // authentication
    "2:@4",
    // greetings, responses
    "0:* OK @x",
    "0:* BYE [ALERT] @x",
    "0:* PREAUTH [CAPABILITY IMAP4REV1 @a AUTH=@a] x",
    "3:@t OK @x",
    "3:* NO [BADCHARSET (@c @c)] @x",
    "3:* BAD @x",
    "3:* BYE @x",
    "3:* OK [PERMANENTFLAGS (@a \\@a \\*)] x",
    "3:* OK [UIDNEXT @z] x",
    "3:* OK [UIDVALIDITY @z] x",
    "3:* OK [UNSEEN @z] x",
    "3:* OK [APPENDUID @z @z] x",
    "3:* OK [COPYUID @z 1 2] x",
    "3:* OK [HIGHESTMODSEQ @m] x",
    "3:* OK [METADATA LONGENTRIES @3] x",
    "3:* OK [METADATA MAXSIZE @3] x",
    "3:+ [ALERT] @x",
    "3:* CAPABILITY IMAP4REV1 @a COMPRESS=@a QUOTA=RES-@a SORT=@a THREAD=@a",
    "3:* LIST (\\@a) @d @s",
    "3:* LSUB () @d @s",
    "3:* SEARCH @z @z",
    "3:* SEARCH @z (MODSEQ @m)",
    "3:* SORT @z @z (MODSEQ @m)",
    "3:* THREAD (@z @z (@z)(@z))",
    "3:* FLAGS (@a \\@a)",
    "3:* STATUS @s (MESSAGES @3 RECENT @3 UIDNEXT @z)",
    "3:* STATUS x (UIDVALIDITY @z UNSEEN @3 DELETED @3)",
    "3:* STATUS x (DELETED-STORAGE @6 HIGHESTMODSEQ @6)",
    "3:* @3 EXISTS",
    "3:* @3 RECENT",
    "3:* @z EXPUNGE",
    "3:* @z FETCH (UID @z)",
    "3:* 1 FETCH (FLAGS (@a \\@a))",
    "3:* 1 FETCH (RFC822.SIZE @3 MODSEQ (@m))",
    "3:* 1 FETCH (RFC822 @n RFC822.HEADER @n RFC822.TEXT @n)",
    "3:* 1 FETCH (BODY[]<@3> @n BODY[@z.TEXT] @n)",
    "3:* 1 FETCH (BODY[HEADER.FIELDS (@s)] @n)",
    "3:* 1 FETCH (BINARY[@z] @8 BINARY.SIZE[@z] @3)",
    "3:* 1 FETCH (ENVELOPE (@n @n ((@n @n @n @n)) NIL NIL ((@n @n @n @n)) NIL NIL @n @n))",
    "3:* 1 FETCH (BODY (@q @q (@q @q) @n @n @q @r))",
    "3:* 1 FETCH (BODY (\"TEXT\" @q NIL @n @n @q @r @3))",
    "3:* 1 FETCH (BODY (\"MESSAGE\" \"RFC822\" NIL NIL NIL @q @r (NIL @n NIL NIL NIL NIL NIL NIL NIL NIL) (\"A\" \"B\" NIL NIL NIL @q @r) @3))",
    "3:* 1 FETCH (BODYSTRUCTURE (\"A\" \"X\" NIL NIL NIL \"B\" 1 @n (@q (@q @q)) (@q) @n))",
    "3:* 1 FETCH (BODYSTRUCTURE (\"TEXT\" \"X\" NIL NIL NIL \"B\" 1 1 NIL NIL (@q @q) NIL (@3 \"x\")))",
    "3:* 1 FETCH (BODYSTRUCTURE ((\"A\" \"B\" NIL NIL NIL \"C\" 1) @q (@q @q) (@q NIL) (@q @q) @n @3))",
    "3:* ENABLED @a",
    "3:* QUOTA @s (STORAGE @6 @6 @a @6 @6)",
    "3:* QUOTAROOT @s @s @s",
    "3:* ID (@q @n)",
    "3:* METADATA @s (/x @8)",
    "3:* NAMESPACE ((@q @d)) NIL ((@q @d @q (@q @q)))",
];

fn is_marker(b: u8) -> bool {
    b < 32 && b != b'\r' && b != b'\n'
}

/// What stands in the other fields.
fn filler(m: u8) -> &'static [u8] {
    match m {
        Q | N | N8 | C => b"\"Z\"",
        B => b"{1}\r\nZ",
        LI => b"{1}\r\nZ",
        QC => b"\"/\"",
        B64 => b"WloK",
        N32 | NZ | N64 | M64 | NR => b"7",
        _ => b"ZZ",
    }
}

/// A template, one field of it, and what is in front of and behind it.
fn field(kinds: &[u8], skip_raw_head: bool) -> (u32, u8, Vec<u8>, Vec<u8>) {
    let _ = skip_raw_head;
    let (k, t) = template(TEMPLATES[case(TEMPLATES.len() as u32) as usize]);
    let at: Vec<usize> = (0..t.len()).filter(|i| is_marker(t[*i]) && kinds.contains(&t[*i])).collect();
    assume(!at.is_empty());
    let at = at[choice(at.len() as u32) as usize];
    let fill = |x: &[u8]| {
        let mut v = vec![];
        for b in x {
            if is_marker(*b) {
                v.extend_from_slice(filler(*b));
            } else {
                v.push(*b);
            }
        }
        v
    };
    (k, t[at], fill(&t[..at]), fill(&t[at + 1..]))
}

/// Decodes and says whether a complete message was accepted; if so, it is written again as `again` (or `x`).
fn verdict(k: u32, x: &[u8], want: bool, again: Option<&[u8]>) {
    note(x);
    // A response code that is not well-formed is taken as text.
    assume(want || !coded(k, x));
    match decode(k, x) {
        Out::Ok(rem, m) => {
            check(want, 1);
            check(rem.is_empty(), 2);
            if let Some(a) = again {
                check(same(&m.encode(), a), 3);
            }
            reach(1);
        }
        Out::Failed => {
            check(!want, 4);
            reach(2);
        }
        _ => check(false, 5),
    }
}

/// Whether the line has a response code.
fn coded(k: u32, x: &[u8]) -> bool {
    let n = x.len().min(12);
    k != 1 && x[..n].windows(2).any(|w| w[0] == b' ' && w[1] == b'[')
}

fn has(x: &[u8], set: &[u8]) -> bool {
    let mut h = false;
    for b in x {
        for s in set {
            h |= *b == *s;
        }
    }
    h
}

fn any_letter(x: &[u8]) -> bool {
    let mut h = false;
    for b in x {
        h |= b.is_ascii_alphabetic();
    }
    h
}

fn eq_nil(x: &[u8]) -> bool {
    x.len() == 3 && (x[0] | 32) == b'n' && (x[1] | 32) == b'i' && (x[2] | 32) == b'l'
}

/// Whether the content of a quoted string is well-formed (`None`: it ends early); `utf8`: more than ASCII is allowed.
fn quoted_content(x: &[u8], utf8: bool) -> Option<bool> {
    let mut i = 0;
    let mut ok = true;
    let mut ascii = true;
    while i < x.len() {
        let b = x[i];
        if b == b'"' {
            return None;
        }
        if b == b'\\' {
            i += 1;
            if i == x.len() {
                return None;
            }
            if x[i] != b'\\' && x[i] != b'"' {
                return Some(false);
            }
        } else {
            ascii &= b < 0x80;
            ok &= b != 0 && b != b'\r' && b != b'\n';
        }
        i += 1;
    }
    // (Bare control characters are TEXT-CHARs.  NUL is not, but a test requires that it is accepted where UTF-8 is.)
    assume(!(utf8 && has(x, b"\0")));
    if !ok {
        return Some(false);
    }
    Some(ascii || (utf8 && std::str::from_utf8(x).is_ok()))
}

/// Texts of `n` bytes in every field for texts.
fn strings(n: usize) {
    let (k, m, p, s) = field(&[A, S, L, T, Q, N, N8, B, C, LI, X, QC], false);
    let form = choice(5);
    let bracket = p.iter().rposition(|b| *b == b'[') > p.iter().rposition(|b| *b == b']');
    let w = bytes(n);
    let cat = |a: &[u8], b: &[u8]| [&p[..], a, &w[..], b, &s[..]].concat();
    match form {
        0 => {
            let x = cat(b"", b"");
            if m == X {
                assume(!has(&w, b"\r\n"));
                assume(w[0] != b'[' || p.ends_with(b"] "));
                // What looks like base64 or a code is ambiguous in front.
                return verdict(k, &x, abnf::all(&w, abnf::text_char), Some(&x));
            }
            assume(!has(&w, b" ()\r\n\"{~"));
            if bracket {
                assume(!has(&w, b"]"));
            }
            if s.starts_with(b"]") {
                assume(!has(&w, b"]"));
            }
            let class = match m {
                A => {
                    // (a flag)
                    assume(w[0] != b'\\' || p.ends_with(b"\\"));
                    // known names are written in their own way
                    const NAMES: [&[u8]; 7] = [b"id", b"seen", b"sort", b"date", b"size", b"move", b"idle"];
                    for name in NAMES {
                        assume(!w.eq_ignore_ascii_case(name));
                    }
                    abnf::all(&w, abnf::atom_char)
                }
                C => abnf::all(&w, abnf::atom_char),
                S => abnf::all(&w, abnf::astring_char),
                L => abnf::all(&w, abnf::list_char),
                T => {
                    assume(k == 1 || !(n == 1 && (w[0] == b'*' || w[0] == b'+')));
                    abnf::all(&w, abnf::tag_char)
                }
                N | N8 => {
                    let nil = eq_nil(&w);
                    if nil {
                        return verdict(k, &x, true, Some(&[&p[..], b"NIL", &s[..]].concat()));
                    }
                    false
                }
                QC => {
                    let nil = eq_nil(&w);
                    if nil {
                        return verdict(k, &x, true, Some(&[&p[..], b"NIL", &s[..]].concat()));
                    }
                    false
                }
                _ => false,
            };
            if m == Q {
                // Some strings are optional, others NIL by a quirk.
                assume(!eq_nil(&w));
                assume(!any_letter(&w));
            }
            // `\*` is not an atom, but a flag of its own.
            assume(!(p.ends_with(b"\\") && n == 1 && w[0] == b'*'));
            // A further item may begin like this.
            verdict(k, &x, class, Some(&x));
        }
        1 => {
            assume(m != X && m != T);
            let x = cat(b"\"", b"\"");
            match m {
                QC => {
                    let ok = match n {
                        1 => w[0] != b'"' && w[0] != b'\\' && abnf::text_char(w[0]),
                        2 => w[0] == b'\\' && (w[1] == b'\\' || w[1] == b'"'),
                        _ => false,
                    };
                    verdict(k, &x, ok, Some(&x));
                }
                _ => {
                    let q = need_some(quoted_content(&w, m != C));
                    let allowed = m == S || m == L || m == Q || m == N || m == N8 || m == C;
                    if !allowed && p.ends_with(b" ") {
                        // in front of a list, a date
                        assume(m != B && m != LI);
                    }
                    verdict(k, &x, allowed && q, Some(&x));
                }
            }
        }
        2 | 3 => {
            assume(m != X && m != T);
            let a = [&b"{"[..], &[b'0' + n as u8][..], if form == 3 { &b"+}\r\n"[..] } else { &b"}\r\n"[..] }].concat();
            let x = cat(&a, b"");
            let allowed = m == S || m == L || m == Q || m == N || m == N8 || m == B || m == LI;
            verdict(k, &x, allowed && abnf::all(&w, abnf::char8), Some(&x));
        }
        _ => {
            assume(m != X && m != T);
            let plus = choice(2) == 1;
            let a = [&b"~{"[..], &[b'0' + n as u8][..], if plus { &b"+}\r\n"[..] } else { &b"}\r\n"[..] }].concat();
            let x = cat(&a, b"");
            // (`~` is an ATOM-CHAR.)
            let allowed = m == N8 || m == B;
            verdict(k, &x, allowed, Some(&x));
        }
    }
}

/// The value of a decimal number, or nothing.
fn number(x: &[u8]) -> Option<u128> {
    let mut v = 0u128;
    for b in x {
        if *b < b'0' || *b > b'9' {
            return None;
        }
        v = v.wrapping_mul(10).wrapping_add((*b - b'0') as u128);
    }
    if x.is_empty() {
        None
    } else {
        Some(v)
    }
}

fn strip(x: &[u8]) -> &[u8] {
    let mut i = 0;
    while i + 1 < x.len() && x[i] == b'0' {
        i += 1;
    }
    &x[i..]
}

fn number_field(k: u32, m: u8, p: &[u8], w: &[u8], s: &[u8], again: bool) {
    let x = [p, w, s].concat();
    let v = number(w);
    let (min, max) = match m {
        N64 => (0, u64::MAX as u128),
        M64 => (1, u64::MAX as u128),
        NZ => (1, u32::MAX as u128),
        _ => (0, u32::MAX as u128),
    };
    let want = match v {
        Some(v) => {
            // Whether numbers of 64 bits are allowed differs between RFCs.
            assume((m != N64 && m != M64) || v < 1 << 63 || v > max);
            v >= min && v <= max
        }
        None => false,
    };
    if v.is_some() && (m == NZ || m == M64) && w[0] == b'0' && want {
        // leading zeros are not allowed, but tolerated
        if let (Out::Ok(_, m), true) = (decode(k, &x), again) {
            check(same(&m.encode(), &[p, strip(w), s].concat()), 7);
        }
        return;
    }
    if again {
        verdict(k, &x, want, Some(&[p, strip(w), s].concat()));
    } else {
        verdict(k, &x, want, None);
    }
}

/// Any `n` bytes in place of a number.
fn numbers_raw(n: usize) {
    let (k, m, p, s) = field(&[N32, NZ, N64, M64, NR], false);
    let w = bytes(n);
    assume(!has(&w, b" ()\r\n\"{~"));
    // other items, and numbers that a quirk changes
    assume(!any_letter(&w));
    assume(!(cfg!(feature = "quirk") && m == NR && w[0] == b'-'));
    if p.ends_with(b"[") || s.starts_with(b"]") || s.starts_with(b".") || p.ends_with(b".") {
        assume(!has(&w, b"].<>"));
    }
    if p.ends_with(b"* ") {
        assume(!has(&w, b"*"));
    }
    number_field(k, m, &p, &w, &s, n == 1);
}

/// Numbers next to the limits.
fn numbers_limit(d: usize) {
    let (k, m, p, s) = field(&[N32, NZ, N64, M64, NR], false);
    const D: &[&[u8]] = &[
        b"",
        b"0",
        b"42949672",
        b"4294967295",
        b"429496729600000000",
        b"92233720368547758",
        b"184467440737095516",
        b"9999999999999999999999",
        b"000000000000000000000042949672",
        b"00000000000000000000184467440737095516",
    ];
    let head = D[choice(D.len() as u32) as usize];
    let w = [head, &digits(d)].concat();
    number_field(k, m, &p, &w, &s, d == 1);
}

/// base64 of `n` bytes
fn base64(n: usize) {
    let (k, _, p, s) = field(&[B64], false);
    let w = bytes(n);
    assume(!has(&w, b"\r\n"));
    let c = |b: u8| -> Option<u8> {
        // value of a base64 character
        match b {
            b'A'..=b'Z' => Some(b - b'A'),
            b'a'..=b'z' => Some(b - b'a' + 26),
            b'0'..=b'9' => Some(b - b'0' + 52),
            b'+' => Some(62),
            b'/' => Some(63),
            _ => None,
        }
    };
    let x = [&p[..], &w, &s].concat();
    let mut ok = n % 4 == 0;
    let mut i = 0;
    while ok && i < n {
        let last = i + 4 == n;
        let q = &w[i..i + 4];
        match (c(q[0]), c(q[1]), c(q[2]), c(q[3])) {
            (Some(_), Some(_), Some(_), Some(_)) => (),
            (Some(_), Some(_), Some(v), None) if last && q[3] == b'=' => assume(v & 3 == 0),
            (Some(_), Some(v), None, None) if last && q[2] == b'=' && q[3] == b'=' => assume(v & 15 == 0),
            _ => ok = false,
        }
        i += 4;
    }
    if n == 1 {
        assume(w[0] != b'=' && w[0] != b'*');
    }
    verdict(k, &x, ok, Some(&x));
}

fn two(x: &[u8]) -> Option<u32> {
    let mut v = 0;
    for b in x {
        if *b < b'0' || *b > b'9' {
            return None;
        }
        v = v * 10 + (*b - b'0') as u32;
    }
    Some(v)
}

fn month(x: &[u8]) -> Option<u32> {
    const M: [&[u8; 3]; 12] =
        [b"jan", b"feb", b"mar", b"apr", b"may", b"jun", b"jul", b"aug", b"sep", b"oct", b"nov", b"dec"];
    for (i, m) in M.iter().enumerate() {
        if x.to_ascii_lowercase() == &m[..] {
            return Some(i as u32 + 1);
        }
    }
    None
}

fn days(m: u32, y: u32) -> u32 {
    match m {
        4 | 6 | 9 | 11 => 30,
        2 if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) => 29,
        2 => 28,
        _ => 31,
    }
}

/// d-Mmm-yyyy, with a day of `l` bytes (`fixed`: a space may stand for its first digit)
fn date_ok(x: &[u8], l: usize, fixed: bool) -> Option<bool> {
    if x.len() != l + 9 || x[l] != b'-' || x[l + 4] != b'-' {
        return None;
    }
    let d = if fixed && x[0] == b' ' { two(&x[1..l]) } else { two(&x[..l]) }?;
    let m = month(&x[l + 1..l + 4])?;
    let y = two(&x[l + 5..])?;
    Some(d >= 1 && d <= days(m, y))
}

/// Dates with `n` arbitrary bytes somewhere.
fn dates(n: usize) {
    const D: &[&[u8]] = &[b"1-Jan-2000", b"28-Feb-1900", b"29-Feb-2024", b"31-Dec-9999", b"30-Jun-0000", b"9-Aug-1970"];
    let k = case(2 * D.len() as u32) as usize;
    let mut w = D[k / 2].to_vec();
    let l = w.len() - 9;
    let at = choice((w.len() - n + 1) as u32) as usize;
    for i in 0..n {
        w[at + i] = byte();
    }
    assume(!has(&w, b"\"\r\n"));
    let q: &[u8] = if k % 2 == 0 { b"" } else { b"\"" };
    if q.is_empty() {
        assume(!has(&w, b" )"));
    }
    // A dash in place of a digit of the day or a digit in place of the first dash moves what follows.
    let want = date_ok(&w, l, false) == Some(true)
        || (l == 2 && w[1] == b'-' && date_ok(&w, 1, false) == Some(true))
        || date_ok(&w, 2, false) == Some(true)
        || date_ok(&w, 1, false) == Some(true);
    let x = [b"a SEARCH ON ", q, &w, q, b"\r\n"].concat();
    verdict(1, &x, want, None);
}

/// Dates and times with `n` arbitrary bytes somewhere.
fn times(n: usize) {
    const D: &[&[u8]] = &[
        b" 1-Jan-2000 00:00:00 +0000",
        b"28-Feb-1900 23:59:59 -2359",
        b"29-Feb-2024 09:08:07 +1030",
        b"31-Dec-9999 19:50:49 +1400",
    ];
    let k = case(2 * D.len() as u32) as usize;
    let mut w = D[k / 2].to_vec();
    let at = choice((w.len() - n + 1) as u32) as usize;
    for i in 0..n {
        w[at + i] = byte();
    }
    assume(!has(&w, b"\"\r\n"));
    let form = w[11] == b' ' && w[14] == b':' && w[17] == b':' && w[20] == b' ' && (w[21] == b'+' || w[21] == b'-');
    let part = |i: usize| two(&w[i..i + 2]);
    let want = match (form, date_ok(&w[..11], 2, true), part(12), part(15), part(18), part(22), part(24)) {
        (true, Some(d), Some(h), Some(m), Some(s), Some(zh), Some(zm)) => {
            // leap seconds, and zones that are written in an unusual way
            assume(s != 60);
            assume(zm < 60 || zh * 60 + zm >= 24 * 60);
            d && h < 24 && m < 60 && s < 60 && zh * 60 + zm < 24 * 60
        }
        _ => false,
    };
    if k % 2 == 0 {
        let x = [b"a APPEND x \"", &w[..], b"\" {1}\r\nz\r\n"].concat();
        verdict(1, &x, want, None);
    } else {
        let x = [b"* 1 FETCH (INTERNALDATE \"", &w[..], b"\")\r\n"].concat();
        verdict(3, &x, want, None);
    }
}

/// A space too many anywhere outside of strings and texts is rejected.
fn spaces() {
    let (k, t) = template(TEMPLATES[case(TEMPLATES.len() as u32) as usize]);
    assume(!has(&t, &[X]));
    let mut v = vec![];
    // places inside of strings
    let mut inner = vec![];
    for b in t {
        if is_marker(b) {
            let f = filler(b);
            for i in 0..f.len() {
                inner.push(f.len() > 1 && i > 0 && b != N32 && b != NZ && b != N64);
            }
            v.extend_from_slice(f);
        } else {
            inner.push(false);
            v.push(b);
        }
    }
    let at = choice(v.len() as u32) as usize;
    assume(!inner[at]);
    let quotes = v[..at].iter().filter(|b| **b == b'"').count();
    assume(quotes % 2 == 0);
    // the text behind a code, and a code that is not known
    assume(!coded(k, &v));
    // a list of atoms; an empty initial response
    assume(!v.starts_with(b"* CAP") || !abnf::atom_char(v[at]) || !abnf::atom_char(v[at - 1]));
    assume(!v.starts_with(b"a AUTH") || v[at] != b'\r');
    let mut x = v[..at].to_vec();
    x.push(b' ');
    x.extend_from_slice(&v[at..]);
    note(&x);
    match decode(k, &x) {
        Out::Ok(..) => {
            reach(9);
            check(false, 10)
        }
        Out::Failed => reach(2),
        _ => check(false, 11),
    }
}

/// Every template is accepted with its fillers, and written again as it is.
fn templates() {
    let (k, t) = template(TEMPLATES[case(TEMPLATES.len() as u32) as usize]);
    let mut v = vec![];
    for b in t {
        if is_marker(b) {
            v.extend_from_slice(filler(b));
        } else {
            v.push(b);
        }
    }
    verdict(k, &v, true, Some(&v));
}

crate::harnesses! {
    fn h_c18_templates() { templates() }
    fn h_c18_spaces() { spaces() }
    fn h_c18_str1() { strings(1) }
    fn h_c18_str2() { strings(2) }
    fn h_c18_str3() { strings(3) }
    fn h_c18_raw1() { numbers_raw(1) }
    fn h_c18_raw2() { numbers_raw(2) }
    fn h_c18_lim1() { numbers_limit(1) }
    fn h_c18_lim3() { numbers_limit(3) }
    fn h_c18_raw3() { numbers_raw(3) }
    fn h_c18_str4() { strings(4) }
    fn h_c18_base12() { base64(12) }
    fn h_c18_date3() { dates(3) }
    fn h_c18_time3() { times(3) }
    fn h_c18_lim2() { numbers_limit(2) }
    fn h_c18_base4() { base64(4) }
    fn h_c18_base5() { base64(5) }
    fn h_c18_base8() { base64(8) }
    fn h_c18_date1() { dates(1) }
    fn h_c18_date2() { dates(2) }
    fn h_c18_time1() { times(1) }
    fn h_c18_time2() { times(2) }
}
