//! The representation of strings: chosen as documented, without changing the content.
use crate::abnf::*;
use crate::sym::*;
use imap_codec::{decode::Decoder, encode::Encoder, CommandCodec, ResponseCodec};
use imap_types::{
    command::{Command, CommandBody},
    core::*,
    extensions::{binary::LiteralOrLiteral8, metadata::Entry},
    mailbox::*,
    response::{Data, Response},
    utils::{escape_byte_string, escape_quoted, unescape_quoted},
};
use std::str::from_utf8;

fn input(max: usize) -> Vec<u8> {
    let n = choice(max as u32 + 2) as usize;
    if n <= max {
        return bytes(n);
    }
    let len = [9, 33, 70][choice(3) as usize];
    let at = [0, 1, len / 2, len - 2, len - 1][choice(5) as usize];
    let mut v = vec![b'a'; len];
    v[at] = byte();
    v
}

fn lower(b: u8) -> u8 {
    if b >= b'A' && b <= b'Z' { b | 0x20 } else { b }
}

fn is_inbox(a: &[u8]) -> bool {
    let mut ok = a.len() == 5;
    for i in 0..a.len().min(5) {
        ok &= lower(a[i]) == b"inbox"[i];
    }
    ok
}

/// atom, quoted, literal or nothing
const A: u8 = 1;
const Q: u8 = 2;
const L: u8 = 3;

fn istring(s: &IString) -> u8 {
    match s {
        IString::Quoted(_) => Q,
        IString::Literal(l) => {
            check(l.mode() == LiteralMode::Sync, 9);
            L
        }
        _ => 4,
    }
}

fn astring(s: &AString) -> u8 {
    match s {
        AString::Atom(_) => A,
        AString::String(s) => istring(s),
    }
}

fn want_istring(x: &[u8]) -> u8 {
    if all(x, text_char) { Q } else if all(x, char8) { L } else { 0 }
}

fn want_astring(x: &[u8]) -> u8 {
    if all1(x, astring_char) { A } else { want_istring(x) }
}

macro_rules! four {
    ($t:ty, $x:expr) => {{
        let x: &[u8] = $x;
        match choice(4) {
            0 => <$t>::try_from(x).ok(),
            1 => <$t>::try_from(x.to_vec()).ok(),
            2 => <$t>::try_from(need(from_utf8(x))).ok(),
            _ => <$t>::try_from(need(String::from_utf8(x.to_vec()))).ok(),
        }
    }};
}

fn choose(max: usize) {
    let k = case(7);
    let x = &input(max)[..];
    let (got, want) = match k {
        0 => (four!(AString, x).map_or(0, |s| { check(same(s.as_ref(), x), 1); astring(&s) }), want_astring(x)),
        1 => (four!(IString, x).map_or(0, |s| { check(same(s.as_ref(), x), 2); istring(&s) }), want_istring(x)),
        2 => (
            four!(NString, x).map_or(0, |s| {
                let s = need_some(s.0);
                check(same(s.as_ref(), x), 3);
                istring(&s)
            }),
            want_istring(x),
        ),
        3 => (
            four!(Charset, x).map_or(0, |s| {
                check(same(s.as_ref().as_bytes(), x), 4);
                match s {
                    Charset::Atom(_) => A,
                    Charset::Quoted(_) => Q,
                }
            }),
            if all1(x, atom_char) { A } else if all(x, text_char) { Q } else { 0 },
        ),
        4 => {
            let s = need(from_utf8(x));
            let m = if choice(2) == 0 { ListMailbox::try_from(s) } else { ListMailbox::try_from(s.to_string()) };
            (
                match &m {
                    Ok(ListMailbox::Token(t)) => {
                        check(same(t.as_ref(), x), 5);
                        A
                    }
                    Ok(ListMailbox::String(t)) => {
                        check(same(t.as_ref(), x), 6);
                        istring(t)
                    }
                    Err(_) => 0,
                },
                if all1(x, list_char) { A } else { want_istring(x) },
            )
        }
        5 => (
            match four!(Mailbox, x) {
                Some(Mailbox::Inbox) => 7,
                Some(Mailbox::Other(o)) => {
                    check(same(o.as_ref(), x), 7);
                    astring(o.inner())
                }
                None => 0,
            },
            if is_inbox(x) { 7 } else { want_astring(x) },
        ),
        _ => (
            four!(MailboxOther, x).map_or(0, |o| {
                check(same(o.as_ref(), x), 8);
                astring(o.inner())
            }),
            if is_inbox(x) { 0 } else { want_astring(x) },
        ),
    };
    check(got == want, 10);
    reach(1);
}

/// Five arbitrary bytes: INBOX or another mailbox.
fn five() {
    let x = &bytes(5)[..];
    let k = case(4);
    let a = match k {
        0 => need(AString::try_from(x)),
        1 => AString::from(need(AtomExt::try_from(x))),
        2 => AString::from(need(Quoted::try_from(x))),
        _ => {
            let l = need(Literal::try_from(x));
            AString::from(if choice(2) == 0 { l } else { l.into_non_sync() })
        }
    };
    check(MailboxOther::validate(x).is_ok() != is_inbox(x), 1);
    check(MailboxOther::try_from(a.clone()).is_ok() != is_inbox(x), 2);
    match Mailbox::from(a.clone()) {
        Mailbox::Inbox => {
            check(is_inbox(x), 3);
            reach(1);
        }
        Mailbox::Other(o) => {
            check(!is_inbox(x), 4);
            check(*o.inner() == a, 5);
            reach(2);
        }
    }
}

fn mailboxes<'a, 'b>(c: &'b CommandBody<'a>) -> Vec<&'b Mailbox<'a>> {
    match c {
        CommandBody::Select { mailbox, .. }
        | CommandBody::Examine { mailbox, .. }
        | CommandBody::Create { mailbox }
        | CommandBody::Delete { mailbox }
        | CommandBody::Subscribe { mailbox }
        | CommandBody::Unsubscribe { mailbox }
        | CommandBody::Status { mailbox, .. }
        | CommandBody::Append { mailbox, .. }
        | CommandBody::Copy { mailbox, .. }
        | CommandBody::Move { mailbox, .. }
        | CommandBody::GetQuotaRoot { mailbox }
        | CommandBody::GetMetadata { mailbox, .. }
        | CommandBody::SetMetadata { mailbox, .. } => vec![mailbox],
        CommandBody::List { reference, .. } | CommandBody::Lsub { reference, .. } => vec![reference],
        CommandBody::Rename { from, to } => vec![from, to],
        _ => vec![],
    }
}

const COMMANDS: &[(&str, &str)] = &[
    ("SELECT ", ""),
    ("EXAMINE ", ""),
    ("CREATE ", ""),
    ("DELETE ", ""),
    ("SUBSCRIBE ", ""),
    ("UNSUBSCRIBE ", ""),
    ("STATUS ", " (MESSAGES)"),
    ("APPEND ", " {1}\r\nx"),
    ("COPY 1 ", ""),
    ("UID MOVE 1 ", ""),
    ("GETQUOTAROOT ", ""),
    ("GETMETADATA ", " /a"),
    ("SETMETADATA ", " (/a NIL)"),
    ("LIST ", " *"),
    ("LSUB ", " *"),
    ("RENAME ", " x"),
    ("RENAME x ", ""),
];
const RESPONSES: &[(&str, &str)] = &[
    ("* LIST () \"/\" ", ""),
    ("* LSUB () NIL ", ""),
    ("* STATUS ", " (MESSAGES 1)"),
    ("* QUOTAROOT ", " x"),
    ("* METADATA ", " (/a NIL)"),
    ("* METADATA ", " /a"),
];

/// A mailbox on the wire is INBOX exactly if it spells inbox in any case, in any
/// representation.
fn wire() {
    let nc = COMMANDS.len();
    let k = case((nc + RESPONSES.len()) as u32) as usize;
    let x = &bytes(5)[..];
    let (mut w, rest) = if k < nc {
        (format!("A {}", COMMANDS[k].0).into_bytes(), COMMANDS[k].1)
    } else {
        (RESPONSES[k - nc].0.as_bytes().to_vec(), RESPONSES[k - nc].1)
    };
    match choice(3) {
        0 => {
            assume(all(x, astring_char));
            w.extend_from_slice(x);
        }
        1 => {
            let mut ok = true;
            for b in x {
                ok &= text_char(*b) & (*b != b'"') & (*b != b'\\');
            }
            assume(ok);
            w.push(b'"');
            w.extend_from_slice(x);
            w.push(b'"');
        }
        _ => {
            assume(all(x, char8));
            w.extend_from_slice(b"{5}\r\n");
            w.extend_from_slice(x);
        }
    }
    w.extend_from_slice(rest.as_bytes());
    w.extend_from_slice(b"\r\n");
    note(&w);
    let judge = |m: &Mailbox| match m {
        Mailbox::Inbox => {
            check(is_inbox(x), 1);
            reach(1);
        }
        Mailbox::Other(o) => {
            check(!is_inbox(x), 2);
            check(same(o.as_ref(), x), 3);
            reach(2);
        }
    };
    if k < nc {
        match CommandCodec::default().decode(&w) {
            Ok((r, c)) => {
                check(r.is_empty(), 4);
                let m = mailboxes(&c.body);
                check(!m.is_empty(), 5);
                judge(m[if COMMANDS[k].0 == "RENAME x " { 1 } else { 0 }]);
            }
            Err(_) => check(false, 6),
        }
    } else {
        match ResponseCodec::default().decode(&w) {
            Ok((r, Response::Data(d))) => {
                check(r.is_empty(), 7);
                match &d {
                    Data::List { mailbox, .. }
                    | Data::Lsub { mailbox, .. }
                    | Data::Status { mailbox, .. }
                    | Data::QuotaRoot { mailbox, .. }
                    | Data::Metadata { mailbox, .. } => judge(mailbox),
                    _ => check(false, 8),
                }
            }
            _ => check(false, 9),
        }
    }
}

/// Escaping is the inverse of unescaping, and does what quoted strings need.
fn escape(max: usize) {
    let n = case(max as u32 + 1) as usize;
    let x = bytes(n);
    assume(all(&x, text_char));
    let s = need(from_utf8(&x));
    let e = escape_quoted(s);
    // Reference: a backslash in front of each quoted-special.
    let mut want = vec![];
    for b in &x {
        if *b == b'"' || *b == b'\\' {
            want.push(b'\\');
        }
        want.push(*b);
    }
    check(same(e.as_bytes(), &want), 1);
    check(same(unescape_quoted(&e).as_bytes(), &x), 2);
    // The same on the wire.
    if is_inbox(&x) {
        return;
    }
    let c = need(Command::new("A", CommandBody::select(Mailbox::from(AString::from(need(Quoted::try_from(s))))).unwrap()));
    let w = CommandCodec::default().encode(&c).dump();
    let mut line = b"A SELECT \"".to_vec();
    line.extend_from_slice(&want);
    line.extend_from_slice(b"\"\r\n");
    check(same(&w, &line), 3);
    match CommandCodec::default().decode(&w) {
        Ok((_, d)) => match mailboxes(&d.body)[..] {
            [Mailbox::Other(o)] => {
                check(same(o.as_ref(), &x), 4);
                reach(1);
            }
            _ => check(false, 5),
        },
        Err(_) => check(false, 6),
    }
}

/// The printable form of bytes is printable and can be read back.
fn printable(max: usize) {
    let n = case(max as u32 + 1) as usize;
    let x = bytes(n);
    let s = escape_byte_string(&x);
    let b = s.as_bytes();
    let mut back = vec![];
    let mut i = 0;
    while i < b.len() {
        check(b[i] >= 0x20 && b[i] < 0x7f, 1);
        check(b[i] != b'"', 2);
        if b[i] != b'\\' {
            back.push(b[i]);
            i += 1;
            continue;
        }
        let c = *b.get(i + 1).unwrap_or(&0);
        i += 2;
        match c {
            b'\\' | b'"' => back.push(c),
            b't' => back.push(9),
            b'n' => back.push(10),
            b'r' => back.push(13),
            b'x' if i + 2 <= b.len() => {
                let d = |c: u8| if c >= b'a' { c - b'a' + 10 } else { c.wrapping_sub(b'0') };
                back.push(d(b[i]).wrapping_mul(16).wrapping_add(d(b[i + 1])));
                i += 2;
            }
            _ => check(false, 3),
        }
    }
    check(same(&back, &x), 4);
    reach(1);
}

/// Strings keep their content when turned into others.
fn turn(max: usize) {
    let k = case(5);
    let x = &bytes_upto(0, max)[..];
    match k {
        0 => {
            let a = need(Atom::try_from(x));
            let e = AtomExt::from(a.clone());
            check(same(e.as_ref().as_bytes(), x), 1);
            let s = AString::from(a);
            check(same(s.as_ref(), x) && astring(&s) == A, 2);
            let s = AString::from(e);
            check(same(s.as_ref(), x) && astring(&s) == A, 3);
        }
        1 => {
            let q = need(Quoted::try_from(x));
            let i = IString::from(q.clone());
            check(same(i.as_ref(), x) && istring(&i) == Q, 4);
            check(same(&i.into_inner(), x), 5);
            let s = AString::from(q.clone());
            check(same(s.as_ref(), x) && astring(&s) == Q, 6);
            let n = NString::from(q);
            check(same(&need_some(n.into_option()), x), 7);
        }
        2 => {
            let l = need(Literal::try_from(x));
            let i = IString::from(l.clone());
            check(same(i.as_ref(), x) && istring(&i) == L, 8);
            check(same(&i.into_inner(), x), 11);
            let s = AString::from(l.clone());
            check(same(s.as_ref(), x) && astring(&s) == L, 12);
            let n = NString::from(l);
            check(same(&need_some(n.into_option()), x), 13);
        }
        3 => {
            let a = need(AString::try_from(x));
            let e = need(Entry::try_from(a.clone()));
            check(same(e.as_ref(), x) && *e.inner() == a, 14);
        }
        _ => {
            // APPEND sends the data as a synchronizing literal.
            let c = CommandBody::append("x", vec![], None, x.to_vec());
            check(c.is_ok() == all(x, char8), 15);
            if let Ok(CommandBody::Append { message: LiteralOrLiteral8::Literal(l), .. }) = c {
                check(same(l.as_ref(), x) && l.mode() == LiteralMode::Sync, 16);
            } else {
                check(!all(x, char8), 17);
            }
        }
    }
    reach(1);
}

harnesses! {
    fn h_c11_choose3() { choose(3) }
    fn h_c11_choose4() { choose(4) }
    fn h_c11_choose5() { choose(5) }
    fn h_c11_five() { five() }
    fn h_c11_wire() { wire() }
    fn h_c11_escape4() { escape(4) }
    fn h_c11_escape6() { escape(6) }
    fn h_c11_print2() { printable(2) }
    fn h_c11_turn3() { turn(3) }
    fn h_c11_turn5() { turn(5) }
}
