//! Secrets do not show in debug output: what is shown does not depend on them.
use crate::sym::*;
use imap_codec::{decode::*, encode::Encoder, fragmentizer::Fragmentizer, *};
use imap_types::{auth::*, command::*, core::*, secret::Secret, IntoStatic, ToStatic};
use std::borrow::Cow;
use std::fmt::Debug;

/// The debug output in every common form.
fn show<T: Debug>(x: &T) -> Vec<u8> {
    let mut s = format!("{:?}", x);
    s.push_str(&format!("{:#?}", x));
    s.push_str(&format!("{:x?}", x));
    s.push_str(&format!("{:20?}", x));
    s.into_bytes()
}

fn has(text: &[u8], what: &[u8]) -> bool {
    text.windows(what.len()).any(|w| w == what)
}

/// Two values that only differ in their secrets are shown equally, and redacted.
fn alike<T: Debug>(a: &T, b: &T) {
    let (x, y) = (show(a), show(b));
    note(&x);
    check(x.len() == y.len(), 1);
    check(same(&x, &y), 2);
    check(has(&x, b"REDACTED"), 3);
}

/// A secret: short, or long with an arbitrary byte.
fn secret(max: usize) -> Vec<u8> {
    let k = choice(max as u32 + 2) as usize;
    if k <= max {
        bytes(k)
    } else {
        let mut v = b"this is a rather long secret 0123456789".to_vec();
        v[7] = byte();
        v
    }
}

struct LiteralExt;
impl LiteralExt {
    fn non_sync(x: Vec<u8>) -> Result<Literal<'static>, ()> {
        match Literal::try_from(x) {
            Ok(l) => Ok(l.into_non_sync()),
            Err(_) => Err(()),
        }
    }
}

fn password(s: Vec<u8>, variant: u32) -> AString<'static> {
    match variant {
        0 => need(AString::try_from(s)),
        1 => AString::String(IString::Quoted(need(Quoted::try_from(need(String::from_utf8(s)))))),
        2 => AString::String(IString::Literal(need(Literal::try_from(s)))),
        _ => AString::String(IString::Literal(need(LiteralExt::non_sync(s)))),
    }
}

fn mechanism() -> AuthMechanism<'static> {
    match choice(4) {
        0 => AuthMechanism::Plain,
        1 => AuthMechanism::Login,
        2 => AuthMechanism::XOAuth2,
        _ => need(AuthMechanism::try_from("XYZ")),
    }
}

/// Values built by the user.
fn built(max: usize) {
    let k = case(5);
    let (s, t) = (secret(max), secret(max));
    match k {
        0 => {
            let a = Secret::new(password(s, choice(4)));
            let b = Secret::new(password(t, choice(4)));
            let make = |p: &Secret<AString<'static>>| {
                Command::new("A", CommandBody::Login { username: need(AString::try_from("user")), password: p.clone() }).unwrap()
            };
            let (x, y) = (make(&a), make(&b));
            alike(&x, &y);
            alike(&x.body, &y.body);
            alike(&x.to_static(), &y.into_static());
        }
        1 => {
            let a = need(CommandBody::login("user", need(Literal::try_from(s))));
            let b = need(CommandBody::login("user", need(Literal::try_from(t))));
            alike(&a, &b);
        }
        2 => {
            let m = mechanism();
            let a = CommandBody::authenticate_with_ir(m.clone(), s);
            let b = CommandBody::authenticate_with_ir(m, t);
            alike(&a, &b);
            alike(&need(a.tag("A1")), &need(b.tag("A1")));
        }
        3 => {
            let a = AuthenticateData::r#continue(s);
            let b = AuthenticateData::r#continue(t);
            alike(&a, &b);
            alike(&a.to_static(), &b.into_static());
        }
        _ => {
            // Any type.
            alike(&Secret::new(s.clone()), &Secret::new(t.clone()));
            alike(&Secret::from(&s[..]), &Secret::from(&t[..]));
            alike(&Some(Secret::new(Cow::Borrowed(&s[..]))), &Some(Secret::new(Cow::Owned(t.clone()))));
            alike(&vec![Secret::new((u32_(), byte()))], &vec![Secret::new((u32_(), byte()))]);
            alike(&Secret::new([byte(); 70]), &Secret::new([byte(); 70]));
            alike(&Secret::new((s.clone(), [byte(); 300])), &Secret::new((t.clone(), [byte(); 300])));
            alike(&Secret::new(Box::new([s.clone(), t.clone()])), &Secret::new(Box::new([t.clone(), s.clone()])));
            alike(&Secret::new(byte()), &Secret::new(byte()));
            alike(&Secret::new(need(String::from_utf8(s))), &Secret::new(need(String::from_utf8(t))));
        }
    }
    reach(1);
}

fn b64ish(b: u8) -> bool {
    (b >= b'A' && b <= b'Z') || (b >= b'a' && b <= b'z') || (b >= b'0' && b <= b'9') || b == b'+' || b == b'/'
}

/// Values received from the peer.
fn received() {
    let k = case(6);
    let mut x: Vec<u8> = vec![];
    let mut y: Vec<u8> = vec![];
    let n = choice(2) as usize;
    let (pre, post): (&[u8], &[u8]) = match k {
        0 => (b"A LOGIN user p", b"w\r\n"),
        1 => (b"A LOGIN user \"p", b"w\"\r\n"),
        2 => (b"A LOGIN user {3}\r\np", b"w\r\n"),
        3 => (b"A AUTHENTICATE PLAIN QU", b"==\r\n"),
        4 => (b"QU", b"==\r\n"),
        _ => (b"A LOGIN user p", b"\r\n"),
    };
    let kind = if k == 4 { 2 } else { 1 };
    for (v, other) in [(&mut x, false), (&mut y, true)] {
        v.extend_from_slice(pre);
        if k == 5 {
            v.extend_from_slice(if other { b"0123456789 (" } else { b"" });
        }
        if k == 3 || k == 4 {
            // one or five groups
            if other && n == 1 {
                v.extend_from_slice(b"JDRUZ0aGkJ0aGtsQ");
            }
            v.push(b'Q');
            let b = byte();
            assume(b64ish(b));
            let l = v.len();
            v[l - 2] = b;
        } else {
            if other && n == 1 && k < 2 {
                v.extend_from_slice(b"0123456789abc");
            }
            v.push(byte());
        }
        v.extend_from_slice(post);
    }
    use crate::fam::{decode, Out};
    match (decode(kind, &x), decode(kind, &y)) {
        (Out::Ok(r, a), Out::Ok(s, b)) => {
            check(r.is_empty() & s.is_empty(), 6);
            alike(&a, &b);
            reach(1);
        }
        (Out::Failed, _) | (_, Out::Failed) => reach(2),
        _ => (),
    }
}

/// Errors of the fragmentizer hold the rejected bytes, which may have secrets.
fn fragments() {
    let k = case(3);
    let mut x = b"A LOGIN user p".to_vec();
    let mut y = x.clone();
    x.push(byte());
    y.push(byte());
    if choice(2) == 1 {
        y.extend_from_slice(b"0123456789abcdef");
    }
    if k == 2 {
        // what looks like a literal behind a complete response
        x = b"* OK hi {3}\r\nab".to_vec();
        y = x.clone();
        x.push(byte());
        y.push(byte());
    }
    x.extend_from_slice(b"\r\n");
    y.extend_from_slice(b"\r\n");
    let mut f = fragmentizer(k, &x);
    let mut g = fragmentizer(k, &y);
    for f in [&mut f, &mut g] {
        while !f.is_message_complete() && f.progress().is_some() {
            if k == 1 {
                f.poison_message();
            }
        }
    }
    let (s, t) = if k == 2 {
        let c = ResponseCodec::default();
        (show(&need_some(f.decode_message(&c).err())), show(&need_some(g.decode_message(&c).err())))
    } else {
        let c = CommandCodec::default();
        (show(&need_some(f.decode_message(&c).err())), show(&need_some(g.decode_message(&c).err())))
    };
    note(&s);
    check(same(&s, &t), 7);
    check(has(&s, b"REDACTED"), 8);
    reach(1);
}

fn fragmentizer(k: u32, x: &[u8]) -> Fragmentizer {
    let mut f = if k == 0 { Fragmentizer::new(12) } else { Fragmentizer::without_max_message_size() };
    f.enqueue_bytes(x);
    f
}

/// Redaction has no other effect: secrets are compared, exposed and sent unchanged.
fn kept(max: usize) {
    let (s, t) = (secret(max), secret(max));
    let equal = same(&s, &t);
    let k = case(3);
    match k {
        0 => {
            let (a, b) = (Secret::new(s.clone()), Secret::new(t));
            check((a == b) == equal, 9);
            check(same(a.declassify(), &s), 10);
            check(same(a.clone().declassify(), &s), 11);
        }
        1 => {
            let a = AuthenticateData::r#continue(s.clone());
            let b = AuthenticateData::r#continue(t);
            check((a == b) == equal, 12);
            let wire = AuthenticateDataCodec::default().encode(&a).dump();
            match AuthenticateDataCodec::default().decode(&wire) {
                Ok((_, AuthenticateData::Continue(c))) => check(same(c.declassify(), &s), 13),
                _ => check(false, 14),
            }
        }
        _ => {
            let a = need(CommandBody::login("u", need(Literal::try_from(s.clone()))));
            let b = need(CommandBody::login("u", need(Literal::try_from(t))));
            check((a == b) == equal, 15);
            let wire = CommandCodec::default().encode(&need(a.tag("A"))).dump();
            match CommandCodec::default().decode(&wire) {
                Ok((_, Command { body: CommandBody::Login { password, .. }, .. })) => {
                    check(same(password.declassify().as_ref(), &s), 16)
                }
                _ => check(false, 17),
            }
        }
    }
    reach(1);
}

crate::harnesses! {
    fn h_c16_built1() { built(1) }
    fn h_c16_built2() { built(2) }
    fn h_c16_received() { received() }
    fn h_c16_fragments() { fragments() }
    fn h_c16_kept() { kept(2) }
}
