//! Owned copies are equal to the borrowed original, in memory and on the wire.
use crate::fam::{self, Msg, Out};
use crate::gen::G;
use crate::sym::*;
use imap_codec::{decode::*, *};
use imap_types::{core::LiteralMode, response::Response, IntoStatic, ToStatic};

fn to_static(m: &Msg) -> Msg<'static> {
    match m {
        Msg::Greeting(m) => Msg::Greeting(m.to_static()),
        Msg::Command(m) => Msg::Command(m.to_static()),
        Msg::Auth(m) => Msg::Auth(m.to_static()),
        Msg::Response(m) => Msg::Response(m.to_static()),
        Msg::Idle(m) => Msg::Idle(m.clone()),
    }
}

fn into_static(m: Msg) -> Msg<'static> {
    match m {
        Msg::Greeting(m) => Msg::Greeting(m.into_static()),
        Msg::Command(m) => Msg::Command(m.into_static()),
        Msg::Auth(m) => Msg::Auth(m.into_static()),
        Msg::Response(m) => Msg::Response(m.into_static()),
        Msg::Idle(m) => Msg::Idle(m),
    }
}

/// As `fam::decode`, with `decode_static`.
fn decode_static(k: u32, x: &[u8]) -> Out<'_> {
    match k {
        0 => match GreetingCodec::default().decode_static(x) {
            Ok((r, m)) => Out::Ok(r, Msg::Greeting(m)),
            Err(GreetingDecodeError::Incomplete) => Out::Incomplete,
            Err(GreetingDecodeError::Failed) => Out::Failed,
        },
        1 => match CommandCodec::default().decode_static(x) {
            Ok((r, m)) => Out::Ok(r, Msg::Command(m)),
            Err(CommandDecodeError::Incomplete) => Out::Incomplete,
            Err(CommandDecodeError::LiteralFound { tag, length, mode }) => {
                Out::Literal(tag.as_ref().as_bytes().to_vec(), length, mode)
            }
            Err(CommandDecodeError::Failed) => Out::Failed,
        },
        2 => match AuthenticateDataCodec::default().decode_static(x) {
            Ok((r, m)) => Out::Ok(r, Msg::Auth(m)),
            Err(AuthenticateDataDecodeError::Incomplete) => Out::Incomplete,
            Err(AuthenticateDataDecodeError::Failed) => Out::Failed,
        },
        3 => match ResponseCodec::default().decode_static(x) {
            Ok((r, m)) => Out::Ok(r, Msg::Response(m)),
            Err(ResponseDecodeError::Incomplete) => Out::Incomplete,
            Err(ResponseDecodeError::LiteralFound { length }) => Out::Literal(vec![], length, LiteralMode::Sync),
            Err(ResponseDecodeError::Failed) => Out::Failed,
        },
        _ => match IdleDoneCodec::default().decode_static(x) {
            Ok((r, m)) => Out::Ok(r, Msg::Idle(m)),
            Err(IdleDoneDecodeError::Incomplete) => Out::Incomplete,
            Err(IdleDoneDecodeError::Failed) => Out::Failed,
        },
    }
}

fn equal(a: &Msg, b: &Msg) -> bool {
    match (a, b) {
        (Msg::Greeting(a), Msg::Greeting(b)) => a == b,
        (Msg::Command(a), Msg::Command(b)) => a == b,
        (Msg::Auth(a), Msg::Auth(b)) => a == b,
        (Msg::Response(a), Msg::Response(b)) => a == b,
        (Msg::Idle(a), Msg::Idle(b)) => a == b,
        _ => false,
    }
}

fn copies(m: &Msg) {
    let wire = m.encode();
    note(&wire);
    let a = to_static(m);
    check(equal(&a, m), 1);
    check(same(&a.encode(), &wire), 2);
    let b = into_static(m.clone());
    check(equal(&b, m), 3);
    check(same(&b.encode(), &wire), 4);
}

/// Generated messages.
fn generated(mut g: G) {
    let k = case(G::COMMANDS + G::DATA + 5);
    let m = if k < G::COMMANDS {
        Msg::Command(g.command(k))
    } else if k < G::COMMANDS + G::DATA {
        Msg::Response(Response::Data(g.data(k - G::COMMANDS)))
    } else {
        match k - G::COMMANDS - G::DATA {
            0 => Msg::Greeting(g.greeting()),
            1 => Msg::Response(Response::Status(g.status())),
            2 => Msg::Response(Response::CommandContinuationRequest(g.continuation())),
            3 => Msg::Auth(g.auth_data()),
            _ => Msg::Idle(imap_types::extensions::idle::IdleDone),
        }
    };
    copies(&m);
    reach(1);
}

/// Received messages, whose strings are borrowed from the input; and the other answers.
fn received(k: u32, x: &[u8]) {
    match (fam::decode(k, x), decode_static(k, x)) {
        (Out::Ok(r, m), Out::Ok(s, n)) => {
            check(r.len() == s.len(), 5);
            check(equal(&m, &n), 6);
            check(same(&m.encode(), &n.encode()), 7);
            copies(&m);
            reach(1);
        }
        (Out::Literal(t, l, m), Out::Literal(u, j, n)) => {
            check(same(&t, &u) & (l == j) & (m == n), 8);
            reach(2);
        }
        (a, b) => {
            check(a.class() == b.class(), 9);
            reach(3);
        }
    }
}

crate::harnesses! {
    fn h_c14_gen1() { generated(G::new(1, 2)) }
    fn h_c14_gen2() { generated(G::new(2, 1)) }
    fn h_c14_rich1() { generated(G::rich(1, 2)) }
    fn h_c14_rep1() { let (k, x, _) = fam::window(1, 1); received(k, &x) }
    fn h_c14_cut() {
        let (k, x, i) = fam::window(1, 1);
        received(k, &x[..i]);
    }
    fn h_c14_raw6() { let (k, x) = fam::raw(6); received(k, &x) }
    fn h_c14_raw8() { let (k, x) = fam::raw(8); received(k, &x) }
    fn h_c14_date() { let (k, x) = fam::dates(1); received(k, &x) }
}
