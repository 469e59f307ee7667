//! Whatever a decoder accepts can be encoded and decodes to the same value.
use crate::fam::*;
use crate::sym::*;
#[cfg(feature = "quirk")]
use imap_types::{command::*, core::Vec1, response::*, search::SearchKey};

/// With `quirk_always_normalize_sequence_sets`, encoding normalizes sequence sets.
#[cfg(not(feature = "quirk"))]
fn normal(m: Msg<'_>) -> Msg<'_> {
    m
}
#[cfg(feature = "quirk")]
fn normal(mut m: Msg<'_>) -> Msg<'_> {
    fn key(k: &mut SearchKey<'_>) {
        match k {
            SearchKey::And(v) => keys(v),
            SearchKey::Not(k) => key(k),
            SearchKey::Or(a, b) => {
                key(a);
                key(b);
            }
            SearchKey::Uid(s) | SearchKey::SequenceSet(s) => {
                s.normalize();
            }
            _ => {}
        }
    }
    fn keys<'a>(v: &mut Vec1<SearchKey<'a>>) {
        let mut w: Vec<SearchKey<'a>> = v.as_ref().to_vec();
        w.iter_mut().for_each(key);
        *v = need(Vec1::try_from(w));
    }
    fn code(c: &mut Option<Code<'_>>) {
        if let Some(Code::Modified(s)) = c {
            s.normalize();
        }
    }
    match &mut m {
        Msg::Command(c) => match &mut c.body {
            CommandBody::Fetch { sequence_set: s, .. }
            | CommandBody::Store { sequence_set: s, .. }
            | CommandBody::Copy { sequence_set: s, .. }
            | CommandBody::Move { sequence_set: s, .. }
            | CommandBody::ExpungeUid { sequence_set: s } => {
                s.normalize();
            }
            CommandBody::Search { criteria: v, .. }
            | CommandBody::Sort { search_criteria: v, .. }
            | CommandBody::Thread { search_criteria: v, .. } => keys(v),
            CommandBody::Select { parameters: p, .. } | CommandBody::Examine { parameters: p, .. } => {
                for q in p {
                    if let SelectParameter::QResync { known_uids, seq_match_data, .. } = q {
                        if let Some(s) = known_uids {
                            s.normalize();
                        }
                        if let Some((a, b)) = seq_match_data {
                            a.normalize();
                            b.normalize();
                        }
                    }
                }
            }
            _ => {}
        },
        Msg::Response(Response::Data(Data::Vanished { known_uids, .. })) => {
            known_uids.normalize();
        }
        Msg::Response(Response::Status(s)) => match s {
            Status::Untagged(b) => code(&mut b.code),
            Status::Tagged(t) => code(&mut t.body.code),
            Status::Bye(b) => code(&mut b.code),
        },
        Msg::Response(Response::CommandContinuationRequest(c)) => {
            if let CommandContinuationRequest::Basic(b) = c {
                if let Some(Code::Modified(set)) = b.code() {
                    let mut set = set.clone();
                    set.normalize();
                    *c = need(CommandContinuationRequest::basic(Some(Code::Modified(set)), b.text().clone()));
                }
            }
        }
        Msg::Greeting(g) => code(&mut g.code),
        _ => {}
    }
    m
}

fn again(k: u32, x: &[u8]) {
    note(x);
    if let Out::Ok(_, m) = decode(k, x) {
        let w = m.encode();
        note(&w);
        match decode(k, &w) {
            Out::Ok(rem, m2) => {
                check(rem.is_empty(), 1);
                check(normal(m2.clone()) == normal(m), 2);
                check(same(&m2.encode(), &w), 3);
                reach(1);
            }
            _ => check(false, 4),
        }
    }
}

fn win(del: usize, ins: usize) {
    let (k, x, _) = window(del, ins);
    again(k, &x);
}

fn win_no_date(del: usize, ins: usize) {
    let (k, x, _) = window_no_date(del, ins);
    again(k, &x);
}

fn raw_n(n: usize) {
    let (k, x) = raw(n);
    again(k, &x);
}

crate::harnesses! {
    fn h_c06_date() { let (k, x) = dates(1); again(k, &x); }
    fn h_c06_date2() { let (k, x) = dates(2); again(k, &x); }
    fn h_c06_num() { let (k, x) = numbers(1); again(k, &x); }
    fn h_c06_raw6() { raw_n(6) }
    fn h_c06_raw8() { raw_n(8) }
    fn h_c06_raw10() { raw_n(10) }
    fn h_c06_raw12() { raw_n(12) }
    fn h_c06_rep1() { win(1, 1) }
    fn h_c06_ins1() { win(0, 1) }
    fn h_c06_rep2() { win(2, 2) }
    fn h_c06_ins2() { win(0, 2) }
    fn h_c06_rep2n() { win_no_date(2, 2) }
    fn h_c06_ins2n() { win_no_date(0, 2) }
    fn h_c06_rep3n() { win_no_date(3, 3) }
    fn h_c06_rep3() { win(3, 3) }
}
