//! Generated tags: valid and all different.
use crate::abnf;
use crate::sym::*;
use imap_codec::{encode::Encoder, CommandCodec};
use imap_types::{command::{Command, CommandBody}, core::{Tag, TagGenerator}};

/// tag = 1*<any ASTRING-CHAR except "+">
fn valid(x: &[u8]) -> bool {
    abnf::all1(x, abnf::tag_char)
}

fn good(t: &Tag) {
    let x = t.as_ref().as_bytes();
    note(x);
    check(valid(x), 1);
    check(Tag::try_from(x).is_ok(), 2);
    check(x.len() >= 12 && x.iter().filter(|b| **b == b'.').count() == 2 && x[x.len() - 8..].iter().all(|b| b.is_ascii_alphanumeric()), 3);
}

fn prefix<'a>(t: &'a Tag) -> &'a [u8] {
    let x = t.as_ref().as_bytes();
    match x.iter().rposition(|b| *b == b'.') {
        Some(n) => &x[..n],
        None => x,
    }
}

/// Up to `steps` steps: make a generator, or let any of them generate.
fn history(steps: u32, max: u32) {
    let mut gs: Vec<TagGenerator> = vec![];
    let mut tags: Vec<Tag<'static>> = vec![];
    let mut i = 0;
    while i < steps {
        let n = gs.len() as u32;
        let k = choice(n + (n < max) as u32);
        if k == n {
            gs.push(TagGenerator::new());
        } else {
            let t = gs[k as usize].generate();
            good(&t);
            for u in &tags {
                check(t != *u, 4);
                // Different without the random part, too.
                check(prefix(&t) != prefix(u), 5);
            }
            tags.push(t);
            reach(1);
        }
        i += 1;
    }
}

/// A long life of two generators.
fn long(n: u32) {
    let mut a = TagGenerator::new();
    let mut b = TagGenerator::new();
    let mut tags: Vec<Tag<'static>> = vec![];
    let k = choice(3);
    let mut i = 0;
    while i < n {
        let t = if k == 0 || (k == 1 && i % 2 == 0) || (k == 2 && i < n / 2) { a.generate() } else { b.generate() };
        good(&t);
        tags.push(t);
        i += 1;
    }
    tags.sort_by(|a, b| prefix(a).cmp(prefix(b)));
    for w in tags.windows(2) {
        check(prefix(&w[0]) != prefix(&w[1]), 6);
    }
    let c = Command::new(tags[0].clone(), CommandBody::Noop).unwrap();
    let mut want = tags[0].as_ref().as_bytes().to_vec();
    want.extend_from_slice(b" NOOP\r\n");
    check(same(&CommandCodec::default().encode(&c).dump(), &want), 7);
    reach(1);
}

/// The two numbers of a generator as machine words: which one is the instance, and which the counter. None if the
/// generator is represented in some other way.
fn layout(a: &TagGenerator, b: &TagGenerator) -> Option<usize> {
    if core::mem::size_of::<TagGenerator>() != 16 || core::mem::align_of::<TagGenerator>() != 8 {
        return None;
    }
    let (x, y) = unsafe { (core::ptr::read(a as *const _ as *const [u64; 2]), core::ptr::read(b as *const _ as *const [u64; 2])) };
    if x[0] + 1 == y[0] && x[1] == 0 && y[1] == 0 {
        Some(0)
    } else if x[1] + 1 == y[1] && x[0] == 0 && y[0] == 0 {
        Some(1)
    } else {
        None
    }
}

fn age(g: &mut TagGenerator, l: usize, instance: u64, counter: u64) {
    let mut w = [0; 2];
    w[l] = instance;
    w[1 - l] = counter;
    unsafe { core::ptr::write(g as *mut _ as *mut [u64; 2], w) }
}

const BASES: [u64; 12] = [
    0, 900, 9_900, 65_500, 99_900, 999_900, 0x7fff_ffc0, 0xffff_ffc0, 9_999_999_900, 0x7fff_ffff_ffff_ffc0,
    9_999_999_999_999_999_900, 0xffff_ffff_ffff_fe00,
];
const APART: [u64; 7] = [0, 1 << 8, 1 << 16, 1 << 31, 1 << 32, 1 << 63, 1000];

/// Generators of any age: an arbitrary number near the interesting ones.
fn aged() {
    let k = case(2 * 12);
    let same_generator = k >= 12;
    let base = BASES[k as usize % 12];
    let apart = APART[choice(7) as usize];
    assume(base <= u64::MAX - 512 - apart);
    let (x, y) = (base + byte() as u64, base + apart + byte() as u64);
    let (mut a, mut b) = (TagGenerator::new(), TagGenerator::new());
    let l = match layout(&a, &b) {
        Some(l) => l,
        None => return,
    };
    assume(x != y);
    let z = byte() as u64;
    if same_generator {
        // one generator at different times
        age(&mut a, l, z, x);
        age(&mut b, l, z, y);
    } else {
        // different generators
        age(&mut a, l, x, z);
        age(&mut b, l, y, choice(2) as u64 * 1000 + byte() as u64);
    }
    let (t, u) = (a.generate(), b.generate());
    good(&t);
    good(&u);
    check(!same(prefix(&t), prefix(&u)), 8);
    let v = a.generate();
    good(&v);
    check(!same(prefix(&t), prefix(&v)), 9);
    if !same_generator {
        check(!same(prefix(&u), prefix(&v)), 10);
    }
    reach(1);
}

static mut OTHER: Vec<Vec<u8>> = vec![];

fn tags_of(fresh: bool, n: u32, out: &mut Vec<Vec<u8>>) {
    let mut g = TagGenerator::new();
    let mut i = 0;
    while i < n {
        if fresh {
            g = TagGenerator::new();
        }
        out.push(prefix(&g.generate()).to_vec());
        out.push(prefix(&g.generate()).to_vec());
        i += 1;
    }
}

extern "C" fn other_fresh() {
    other_thread();
    tags_of(true, scale(), unsafe { &mut *core::ptr::addr_of_mut!(OTHER) });
    other_thread();
}

extern "C" fn other_old() {
    other_thread();
    tags_of(false, scale(), unsafe { &mut *core::ptr::addr_of_mut!(OTHER) });
    other_thread();
}

/// Two threads that make generators and tags at the same time.
fn threads() {
    let k = case(4);
    let mut tags = vec![];
    if k & 1 == 1 {
        tags_of(false, 1, &mut tags);
    }
    race(if k & 2 == 0 { other_fresh } else { other_old }, || tags_of(k & 1 == 0, scale(), &mut tags));
    tags.append(unsafe { &mut *core::ptr::addr_of_mut!(OTHER) });
    check(tags.len() >= 4, 11);
    tags.sort();
    check(tags.windows(2).all(|w| w[0] != w[1]), 12);
    reach(1);
}

crate::harnesses! {
    fn h_c17_threads() { threads() }
    fn h_c17_aged() { aged() }
    fn h_c17_hist6() { history(6, 3) }
    fn h_c17_hist8() { history(8, 3) }
    fn h_c17_long() { long(120) }
}
