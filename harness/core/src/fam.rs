//! Families of symbolic wire data and the decoders they are given to.
use crate::corpus;
use crate::sym::*;
use imap_codec::{decode::*, encode::Encoder, *};
use imap_types::{auth::AuthenticateData, command::Command, core::LiteralMode, extensions::idle::IdleDone, response::*};

#[derive(Clone, Debug, PartialEq)]
pub enum Msg<'a> {
    Greeting(Greeting<'a>),
    Command(Command<'a>),
    Auth(AuthenticateData<'a>),
    Response(Response<'a>),
    Idle(IdleDone),
}

impl Msg<'_> {
    pub fn encode(&self) -> Vec<u8> {
        match self {
            Msg::Greeting(m) => GreetingCodec::default().encode(m).dump(),
            Msg::Command(m) => CommandCodec::default().encode(m).dump(),
            Msg::Auth(m) => AuthenticateDataCodec::default().encode(m).dump(),
            Msg::Response(m) => ResponseCodec::default().encode(m).dump(),
            Msg::Idle(m) => IdleDoneCodec::default().encode(m).dump(),
        }
    }
}

/// The answer of a decoder.
#[derive(Debug, PartialEq)]
pub enum Out<'a> {
    Ok(&'a [u8], Msg<'a>),
    Incomplete,
    Literal(Vec<u8>, u32, LiteralMode),
    Failed,
}

impl Out<'_> {
    pub fn class(&self) -> u64 {
        match self {
            Out::Ok(..) => 1,
            Out::Incomplete => 2,
            Out::Literal(..) => 3,
            Out::Failed => 4,
        }
    }
}

pub fn decode(k: u32, x: &[u8]) -> Out<'_> {
    match k {
        0 => match GreetingCodec::default().decode(x) {
            Ok((r, m)) => Out::Ok(r, Msg::Greeting(m)),
            Err(GreetingDecodeError::Incomplete) => Out::Incomplete,
            Err(GreetingDecodeError::Failed) => Out::Failed,
        },
        1 => match CommandCodec::default().decode(x) {
            Ok((r, m)) => Out::Ok(r, Msg::Command(m)),
            Err(CommandDecodeError::Incomplete) => Out::Incomplete,
            Err(CommandDecodeError::LiteralFound { tag, length, mode }) => {
                Out::Literal(tag.as_ref().as_bytes().to_vec(), length, mode)
            }
            Err(CommandDecodeError::Failed) => Out::Failed,
        },
        2 => match AuthenticateDataCodec::default().decode(x) {
            Ok((r, m)) => Out::Ok(r, Msg::Auth(m)),
            Err(AuthenticateDataDecodeError::Incomplete) => Out::Incomplete,
            Err(AuthenticateDataDecodeError::Failed) => Out::Failed,
        },
        3 => match ResponseCodec::default().decode(x) {
            Ok((r, m)) => Out::Ok(r, Msg::Response(m)),
            Err(ResponseDecodeError::Incomplete) => Out::Incomplete,
            Err(ResponseDecodeError::LiteralFound { length }) => Out::Literal(vec![], length, LiteralMode::Sync),
            Err(ResponseDecodeError::Failed) => Out::Failed,
        },
        _ => match IdleDoneCodec::default().decode(x) {
            Ok((r, m)) => Out::Ok(r, Msg::Idle(m)),
            Err(IdleDoneDecodeError::Incomplete) => Out::Incomplete,
            Err(IdleDoneDecodeError::Failed) => Out::Failed,
        },
    }
}

/// A corpus message with one symbolic window: every offset, the window replaces
/// `del` bytes by `ins` symbolic ones.  Returns codec, data and the offset just
/// behind the window.
pub fn window(del: usize, ins: usize) -> (u32, Vec<u8>, usize) {
    let (k, m) = corpus::nth(case(corpus::total()));
    assume(m.len() >= del);
    let i = choice((m.len() + 1 - del) as u32) as usize;
    let mut v = m[..i].to_vec();
    let mut j = 0;
    while j < ins {
        v.push(byte());
        j += 1;
    }
    v.extend_from_slice(&m[i + del..]);
    (k, v, i + ins)
}

/// As `window`, without the messages that contain a date or time (whose
/// arithmetic is expensive for wide windows).
pub fn window_no_date(del: usize, ins: usize) -> (u32, Vec<u8>, usize) {
    let (k, m) = corpus::nth(case(corpus::total()));
    assume(!has_date(m));
    assume(m.len() >= del);
    let i = choice((m.len() + 1 - del) as u32) as usize;
    let mut v = m[..i].to_vec();
    let mut j = 0;
    while j < ins {
        v.push(byte());
        j += 1;
    }
    v.extend_from_slice(&m[i + del..]);
    (k, v, i + ins)
}

fn has_date(m: &[u8]) -> bool {
    // "...-Mmm-..."
    m.windows(5).any(|w| w[0] == b'-' && w[4] == b'-' && w[1..4].iter().all(|b| b.is_ascii_alphabetic()))
}

/// `n` unconstrained bytes for one of the five decoders.
pub fn raw(n: usize) -> (u32, Vec<u8>) {
    let k = case(corpus::CODECS);
    (k, bytes(n))
}

fn digit() -> u8 {
    let d = byte();
    assume(d >= b'0' && d <= b'9');
    d
}

pub fn digits(n: usize) -> Vec<u8> {
    (0..n).map(|_| digit()).collect()
}

const MONTHS: [&[u8]; 12] =
    [b"Jan", b"Feb", b"Mar", b"Apr", b"May", b"Jun", b"Jul", b"Aug", b"Sep", b"Oct", b"Nov", b"Dec"];

fn cat(parts: &[&[u8]]) -> Vec<u8> {
    parts.concat()
}

/// Messages with a date (all digits symbolic, any month) or a time and zone
/// (all digits symbolic, at the ends of the calendar).
pub fn dates(zone: usize) -> (u32, Vec<u8>) {
    const Y: &[&[u8]] = &[b"0000", b"0004", b"0100", b"1900", b"1996", b"2000", b"2023", b"2100", b"9999"];
    let k = case(6);
    match k {
        0 | 1 | 4 => {
            let d = digits(1 + choice(2) as usize);
            let m = MONTHS[choice(12) as usize];
            let y = Y[choice(Y.len() as u32) as usize];
            let date = cat(&[&d, b"-", m, b"-", y]);
            match k {
                0 => (1, cat(&[b"a SEARCH ON ", &date, b"\r\n"])),
                1 => {
                    let sp: &[u8] = if d.len() == 1 { b" " } else { b"" };
                    (1, cat(&[b"a APPEND x \"", sp, &date, b" 23:59:59 -2359\" {0}\r\n\r\n"]))
                }
                _ => (1, cat(&[b"a SEARCH SENTBEFORE \"", &date, b"\"\r\n"])),
            }
        }
        2 => {
            let d: &[u8] = [&b" 1-Jan-0000"[..], b"31-Dec-9999"][choice(2) as usize];
            let f = choice(3);
            let part = |i| if i == f { digits(2) } else { b"59".to_vec() };
            let h = if f == 0 { digits(2) } else { b"23".to_vec() };
            let t = cat(&[&h, b":", &part(1), b":", &part(2)]);
            (3, cat(&[b"* 1 FETCH (INTERNALDATE \"", d, b" ", &t, b" +0000\")\r\n"]))
        }
        3 => {
            let d: &[u8] = [&b" 1-Jan-0000 00:00:00"[..], b"31-Dec-9999 23:59:59"][choice(2) as usize];
            let s: &[u8] = [&b"+"[..], b"-"][choice(2) as usize];
            // up to `zone` symbolic digits
            let z = match (zone, choice(4)) {
                (2, 0) => cat(&[&digits(2), b"59"]),
                (2, 1) => cat(&[b"23", &digits(2)]),
                (1, 0) => cat(&[&digits(1), b"159"]),
                (1, 1) => cat(&[b"2", &digits(1), b"59"]),
                (1, 2) => cat(&[b"00", &digits(1), b"0"]),
                (1, 3) => cat(&[b"235", &digits(1)]),
                _ => b"0000".to_vec(),
            };
            (3, cat(&[b"* 1 FETCH (INTERNALDATE \"", d, b" ", s, &z, b"\")\r\n"]))
        }
        _ => {
            // leap days
            let c: &[u8] = [&b"00"[..], b"19", b"20"][choice(3) as usize];
            (1, cat(&[b"a SEARCH ON 29-Feb-", c, &digits(2), b"\r\n"]))
        }
    }
}

/// A message with a number of up to 21 digits, of which the first and the
/// last ones are symbolic.
pub fn numbers(last: usize) -> (u32, Vec<u8>) {
    const T: &[(u32, &[u8], &[u8])] = &[
        (1, b"a FETCH ", b" UID\r\n"),
        (1, b"a FETCH 1:", b" UID\r\n"),
        (1, b"a FETCH 1 BODY[", b"]\r\n"),
        (1, b"a FETCH 1 BODY[]<", b".1>\r\n"),
        (1, b"a FETCH 1 BODY[]<0.", b">\r\n"),
        (1, b"a FETCH 1 (UID) (CHANGEDSINCE ", b")\r\n"),
        (1, b"a STORE 1 (UNCHANGEDSINCE ", b") FLAGS x\r\n"),
        (1, b"a SEARCH LARGER ", b"\r\n"),
        (1, b"a SEARCH MODSEQ ", b"\r\n"),
        (1, b"a SETQUOTA \"\" (STORAGE ", b")\r\n"),
        (1, b"a GETMETADATA (MAXSIZE ", b") \"\" /x\r\n"),
        (1, b"a SELECT x (QRESYNC (", b" 1))\r\n"),
        (1, b"a SELECT x (QRESYNC (1 ", b"))\r\n"),
        (1, b"a LOGIN x {", b"}\r\nx\r\n"),
        (1, b"a LOGIN x {", b"+}\r\nx\r\n"),
        (1, b"a APPEND x ~{", b"}\r\nx\r\n"),
        (3, b"* ", b" EXISTS\r\n"),
        (3, b"* ", b" EXPUNGE\r\n"),
        (3, b"* ", b" FETCH (UID 1)\r\n"),
        (3, b"* 1 FETCH (UID ", b")\r\n"),
        (3, b"* 1 FETCH (RFC822.SIZE ", b")\r\n"),
        (3, b"* 1 FETCH (MODSEQ (", b"))\r\n"),
        (3, b"* 1 FETCH (BODY[TEXT]<", b"> NIL)\r\n"),
        (3, b"* 1 FETCH (BODY (\"TEXT\" \"X\" NIL NIL NIL \"\" ", b" 1))\r\n"),
        (3, b"* 1 FETCH (BODY (\"TEXT\" \"X\" NIL NIL NIL \"\" 1 ", b"))\r\n"),
        (3, b"* 1 FETCH (BODY (\"TEXT\" \"X\" NIL NIL NIL \"\" -", b" 1))\r\n"),
        (3, b"* 1 FETCH (BINARY.SIZE[1] ", b")\r\n"),
        (3, b"* SEARCH ", b"\r\n"),
        (3, b"* SEARCH 1 (MODSEQ ", b")\r\n"),
        (3, b"* SORT 1 ", b"\r\n"),
        (3, b"* THREAD (", b")\r\n"),
        (3, b"* STATUS x (MESSAGES ", b")\r\n"),
        (3, b"* STATUS x (UIDNEXT ", b")\r\n"),
        (3, b"* STATUS x (DELETED-STORAGE ", b")\r\n"),
        (3, b"* STATUS x (HIGHESTMODSEQ ", b")\r\n"),
        (3, b"* QUOTA x (STORAGE ", b" 1)\r\n"),
        (3, b"* QUOTA x (STORAGE 1 ", b")\r\n"),
        (3, b"* OK [UIDNEXT ", b"] x\r\n"),
        (3, b"* OK [HIGHESTMODSEQ ", b"] x\r\n"),
        (3, b"* OK [APPENDUID ", b" 1] x\r\n"),
        (3, b"* OK [COPYUID 1 1:", b" 1] x\r\n"),
        (3, b"* OK [METADATA LONGENTRIES ", b"] x\r\n"),
        (3, b"* VANISHED ", b"\r\n"),
        (3, b"* OK {", b"}\r\nx\r\n"),
    ];
    const D: &[&[u8]] = &[b"", b"0", b"42949672", b"429496729", b"922337203685477580", b"18446744073709551", b"00000000001844674407370955161"];
    let (k, a, b) = T[case(T.len() as u32) as usize];
    let i = choice(2) as usize;
    let p = digits(if last < 2 { 0 } else { i });
    let m = D[choice(D.len() as u32) as usize];
    (k, cat(&[a, &p, m, &digits(last), b]))
}

/// If `line` ends with a literal announcement: its length and mode.
pub fn announcement(line: &[u8]) -> Option<(usize, LiteralMode)> {
    let n = line.len();
    if n < 5 || line[n - 3] != b'}' || line[n - 2] != b'\r' || line[n - 1] != b'\n' {
        return None;
    }
    let mut e = n - 3;
    let mut mode = LiteralMode::Sync;
    if line[e - 1] == b'+' {
        mode = LiteralMode::NonSync;
        e -= 1;
    }
    let mut len = 0usize;
    let mut mul = 1usize;
    let mut digits = 0;
    while e > 0 && line[e - 1] >= b'0' && line[e - 1] <= b'9' {
        len += (line[e - 1] - b'0') as usize * mul;
        mul *= 10;
        digits += 1;
        if digits > 10 {
            return None;
        }
        e -= 1;
    }
    if digits == 0 || e == 0 || line[e - 1] != b'{' {
        return None;
    }
    Some((len, mode))
}
