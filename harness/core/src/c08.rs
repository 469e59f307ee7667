//! The fragmentizer against a search-based reference model of the stream.
use crate::abnf;
use crate::sym::*;
use imap_codec::{decode::Decoder, fragmentizer::*, CommandCodec};
use imap_types::core::LiteralMode;

/// Reference: what the fragmentizer should report, computed by searching the
/// bytes of the current message rather than byte by byte.
struct Model {
    /// all bytes of the current message consumed so far
    msg: Vec<u8>,
    start: usize,
    literal: Option<usize>,
    complete: bool,
    poisoned: bool,
}

impl Model {
    fn new() -> Self {
        Model { msg: vec![], start: 0, literal: None, complete: false, poisoned: false }
    }
    fn reset(&mut self) {
        *self = Model::new();
    }
    /// Consume bytes from `avail` (advancing it) until a fragment is complete.
    fn progress(&mut self, avail: &mut &[u8]) -> Option<FragmentInfo> {
        if self.complete {
            self.reset();
        }
        let start = self.start;
        if let Some(n) = self.literal {
            let have = self.msg.len() - start;
            let take = if n - have < avail.len() { n - have } else { avail.len() };
            self.msg.extend_from_slice(&avail[..take]);
            *avail = &avail[take..];
            if self.msg.len() - start == n {
                self.start = self.msg.len();
                self.literal = None;
                return Some(FragmentInfo::Literal { start, end: self.msg.len() });
            }
            return None;
        }
        let mut i = 0;
        while i < avail.len() && avail[i] != b'\n' {
            i += 1;
        }
        if i == avail.len() {
            self.msg.extend_from_slice(avail);
            *avail = &[];
            return None;
        }
        self.msg.extend_from_slice(&avail[..i + 1]);
        *avail = &avail[i + 1..];
        let end = self.msg.len();
        let line = &self.msg[start..end - 1];
        let (body, ending) = if !line.is_empty() && line[line.len() - 1] == b'\r' {
            (&line[..line.len() - 1], LineEnding::CrLf)
        } else {
            (line, LineEnding::Lf)
        };
        let announcement = announced(body);
        match announcement {
            Some(a) => self.literal = Some(a.length as usize),
            None => self.complete = true,
        }
        self.start = end;
        Some(FragmentInfo::Line { start, end, announcement, ending })
    }
}

/// `body` ends with "{" 1*DIGIT ["+"] "}" and the number fits 32 bits.
fn announced(body: &[u8]) -> Option<LiteralAnnouncement> {
    let mut e = body.len();
    if e == 0 || body[e - 1] != b'}' {
        return None;
    }
    e -= 1;
    let mut mode = LiteralMode::Sync;
    if e > 0 && body[e - 1] == b'+' {
        mode = LiteralMode::NonSync;
        e -= 1;
    }
    let stop = e;
    while e > 0 && body[e - 1] >= b'0' && body[e - 1] <= b'9' {
        e -= 1;
    }
    if e == stop || e == 0 || body[e - 1] != b'{' {
        return None;
    }
    let mut v = 0u64;
    for d in &body[e..stop] {
        v = v * 10 + (*d - b'0') as u64;
        if v > u32::MAX as u64 {
            return None;
        }
    }
    Some(LiteralAnnouncement { mode, length: v as u32 })
}

fn tag_model(buf: &[u8]) -> Option<usize> {
    let mut i = 0;
    while i < buf.len() && buf[i] != b' ' && buf[i] != b'\n' {
        i += 1;
    }
    if i < buf.len() && buf[i] == b' ' && abnf::all1(&buf[..i], abnf::tag_char) {
        Some(i)
    } else {
        None
    }
}

/// Compare everything observable.
fn agree(f: &Fragmentizer, m: &Model, max: Option<usize>) {
    let keep = match max {
        Some(x) if x < m.msg.len() => x,
        _ => m.msg.len(),
    };
    check(f.message_bytes().len() == keep, 1);
    check(same(f.message_bytes(), &m.msg[..keep]), 2);
    check(f.is_message_complete() == m.complete, 3);
    check(f.is_max_message_size_exceeded() == (keep < m.msg.len()), 4);
    check(f.is_message_poisoned() == m.poisoned, 5);
}

fn agree_fragment(f: &Fragmentizer, m: &Model, max: Option<usize>, got: FragmentInfo) {
    let r = got.range();
    let keep = match max {
        Some(x) if x < m.msg.len() => x,
        _ => m.msg.len(),
    };
    let a = if r.start < keep { r.start } else { keep };
    let b = if r.end < keep { r.end } else { keep };
    check(same(f.fragment_bytes(got), &m.msg[a..b]), 6);
}

fn agree_decoding(f: &Fragmentizer, m: &Model, max: Option<usize>) {
    let too_long = matches!(max, Some(x) if x < m.msg.len());
    let codec = CommandCodec::default();
    let buf = f.message_bytes();
    match f.decode_message(&codec) {
        Ok(msg) => {
            check(!too_long && !m.poisoned, 7);
            match codec.decode(buf) {
                Ok((r, c)) => check(r.is_empty() && c == msg, 8),
                Err(_) => check(false, 8),
            }
            reach(3);
        }
        Err(DecodeMessageError::DecodingFailure(e)) => {
            check(!too_long && !m.poisoned, 9);
            match codec.decode(buf) {
                Ok(_) => check(false, 10),
                Err(x) => check(x == e, 10),
            }
        }
        Err(DecodeMessageError::DecodingRemainder { message, remainder }) => {
            check(!too_long && !m.poisoned, 11);
            match codec.decode(buf) {
                Ok((r, c)) => check(!r.is_empty() && c == message && same(remainder.declassify(), r), 12),
                Err(_) => check(false, 12),
            }
        }
        Err(DecodeMessageError::MessageTooLong { initial }) => {
            check(too_long, 13);
            check(same(initial.declassify(), buf), 14);
            reach(4);
        }
        Err(DecodeMessageError::MessagePoisoned { discarded }) => {
            check(m.poisoned, 15);
            check(same(discarded.declassify(), buf), 16);
        }
    }
    let want = tag_model(buf);
    match f.decode_tag() {
        Some(t) => match want {
            Some(n) => check(same(t.as_ref().as_bytes(), &buf[..n]), 17),
            None => check(false, 17),
        },
        None => check(want.is_none(), 18),
    }
}

/// Feed `x`, cut at `cuts`, and compare after every step.
fn drive(x: &[u8], cuts: &[usize], max: Option<usize>, poison_at: usize, skip_at: usize, decode: bool) {
    note(x);
    let mut f = match max {
        Some(n) => Fragmentizer::new(n as u32),
        None => Fragmentizer::without_max_message_size(),
    };
    let mut m = Model::new();
    let mut pos = 0;
    let mut step = 0;
    let mut c = 0;
    let mut avail: &[u8] = &[];
    while c <= cuts.len() {
        let end = if c < cuts.len() { cuts[c] } else { x.len() };
        f.enqueue_bytes(&x[pos..end]);
        // the unconsumed bytes so far, plus the new ones
        avail = &x[pos - avail.len()..end];
        pos = end;
        loop {
            let got = f.progress();
            let want = m.progress(&mut avail);
            check(got == want, 19);
            agree(&f, &m, max);
            if let Some(i) = got {
                agree_fragment(&f, &m, max, i);
                reach(5);
            }
            if decode && m.complete {
                agree_decoding(&f, &m, max);
            }
            if step == poison_at {
                f.poison_message();
                m.poisoned = true;
                agree(&f, &m, max);
                if decode {
                    agree_decoding(&f, &m, max);
                }
                reach(6);
            }
            if step == skip_at {
                f.skip_message();
                m.reset();
                agree(&f, &m, max);
                reach(7);
            }
            step += 1;
            if got.is_none() {
                break;
            }
        }
        c += 1;
    }
    if decode {
        agree_decoding(&f, &m, max);
    }
    reach(1);
}

const NO: usize = usize::MAX;

/// Every stream of `n` bytes: in one piece, byte by byte, or with one cut.
fn raw(n: usize) {
    let how = case(n as u32 + 1) as usize;
    let x = bytes(n);
    if how == 0 {
        drive(&x, &[], None, NO, NO, false);
    } else if how == n {
        let c: Vec<usize> = (1..n).collect();
        drive(&x, &c, None, NO, NO, false);
    } else {
        drive(&x, &[how], None, NO, NO, false);
    }
}

/// Size limits around a short stream.
fn limit(n: usize) {
    let max = case(n as u32 + 2) as usize;
    let x = bytes(n);
    let c: Vec<usize> = if choice(2) == 0 { vec![] } else { (1..n).collect() };
    drive(&x, &c, Some(max), NO, NO, false);
}

const STREAMS: &[&[u8]] = &[
    b"a {2}\r\nx\n {0}\r\n\r\nb\r\n",
    b"a {1+}\r\n{ {1}\n\r{3}\r\n\r\n}y\r\n",
    b"A1 LOGIN {1}\r\nu {2+}\r\npw\r\nA2 NOOP\r\n",
    b"a NOOP\r\nb NOOP\nc NOOP\r\r\n",
    b"a {4294967295}{4294967296}\r\nb {0007}\r\n1234567\r\n",
    b"a {10}\r\n0123456789{1}\r\nzz\r\n",
];

/// A realistic stream with a symbolic window, any one cut, optional limit.
fn stream(w: usize, cut_step: usize, limits: bool) {
    let s = STREAMS[case(STREAMS.len() as u32) as usize];
    let i = choice((s.len() + 1 - w) as u32) as usize;
    let mut x = s.to_vec();
    let mut j = 0;
    while j < w {
        x[i + j] = byte();
        j += 1;
    }
    let max = if limits { Some(choice(s.len() as u32 + 2) as usize) } else { None };
    let n = s.len() / cut_step;
    let k = choice(n as u32 + 1) as usize;
    if k == n {
        let c: Vec<usize> = (1..x.len()).collect();
        drive(&x, &c, max, NO, NO, true);
    } else {
        drive(&x, &[k * cut_step], max, NO, NO, true);
    }
}

/// Histories with poison and skip at any step.
fn history(w: usize) {
    let s = STREAMS[case(STREAMS.len() as u32) as usize];
    let mut x = s.to_vec();
    if w > 0 {
        let i = choice(s.len() as u32) as usize;
        x[i] = byte();
    }
    let p = choice(13) as usize;
    let q = choice(13) as usize;
    let cut = choice(4) as usize * (s.len() / 4);
    let max = match choice(3) {
        0 => None,
        1 => Some(5),
        _ => Some(s.len()),
    };
    drive(&x, &[cut], max, if p == 12 { NO } else { p }, if q == 12 { NO } else { q }, true);
}

/// Announced lengths: up to `n` symbolic digits, leading zeros, 32-bit bound.
fn digits(n: usize) {
    let mut x = b"a {".to_vec();
    let k = choice(3);
    if k == 1 {
        x.extend_from_slice(b"429496");
    } else if k == 2 {
        x.extend_from_slice(b"000000000000");
    }
    let m = 1 + choice(n as u32) as usize;
    let mut i = 0;
    while i < m {
        let d = byte();
        assume(d >= b'0' && d <= b'9');
        x.push(d);
        i += 1;
    }
    if choice(2) == 1 {
        x.push(b'+');
    }
    x.extend_from_slice(b"}\r\nabcdef\r\n");
    drive(&x, &[], None, NO, NO, false);
}

/// Beginnings and ends of announcements with any `w` bytes in between.
fn line(w: usize) {
    const P: &[&[u8]] = &[b"a ", b"a {", b"a {1", b"a {1+", b"a {1}", b"a {1+}", b"a {1}\r", b"a \r", b"a {1}\n"];
    const S: &[&[u8]] = &[b"{3}\r\n", b"3}\r\n", b"3+}\n", b"}\r\n", b"+}\r\n", b"\r\n", b"\n"];
    let k = case((P.len() * S.len()) as u32) as usize;
    let p = P[k % P.len()];
    let mut x = p.to_vec();
    x.extend_from_slice(&bytes(w));
    x.extend_from_slice(S[k / P.len()]);
    x.extend_from_slice(b"xyz\r\nb\r\n");
    match choice(3) {
        0 => drive(&x, &[], None, NO, NO, false),
        1 => drive(&x, &[p.len()], None, NO, NO, false),
        _ => drive(&x, &[p.len() + w, p.len() + w + 1], None, NO, NO, false),
    }
}

/// Long literals and lines, in pieces, and limits next to their length.
fn long(n: usize) {
    let k = case(4);
    let n = n + choice(3) as usize;
    let mut x = b"a ".to_vec();
    let (cut, end);
    if k & 1 == 0 {
        x.extend_from_slice(format!("{{{}+}}\r\n", n).as_bytes());
        cut = x.len() + n / 2;
        x.extend_from_slice(&vec![b'{'; n]);
        let l = x.len();
        x[l - 1] = byte();
        end = l;
    } else {
        x.extend_from_slice(&vec![b'1'; n]);
        cut = x.len() / 2;
        x[cut] = byte();
        x.push(byte());
        end = x.len();
    }
    x.extend_from_slice(b"{1}\r\n\n\r\nb NOOP\r\n");
    let max = if k & 2 == 0 { None } else { Some(end - 1 + choice(3) as usize) };
    drive(&x, &[cut, end], max, NO, NO, false);
}

crate::harnesses! {
    fn h_c08_line1() { line(1) }
    fn h_c08_line2() { line(2) }
    fn h_c08_line3() { line(3) }
    fn h_c08_long() { long(4095) }
    fn h_c08_long16() { long(65535) }
    fn h_c08_raw6() { raw(6) }
    fn h_c08_raw7() { raw(7) }
    fn h_c08_lim4() { limit(4) }
    fn h_c08_lim5() { limit(5) }
    fn h_c08_lim6() { limit(6) }
    fn h_c08_str1() { stream(1, 1, false) }
    fn h_c08_str2() { stream(2, 1, false) }
    fn h_c08_strl() { stream(1, 6, true) }
    fn h_c08_strl1() { stream(1, 1, true) }
    fn h_c08_hist() { history(0) }
    fn h_c08_hist1() { history(1) }
    fn h_c08_dig() { digits(2) }
    fn h_c08_dig4() { digits(4) }
}
