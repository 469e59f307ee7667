//! Hash-consed bit-vector expressions.
//!
//! Every expression is built from the values the interpreter computes while it
//! executes the LLVM IR of the code under test.  Widths are arbitrary; constant
//! values and evaluation are limited to 128 bits.

use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    SExt,
    Lut,
    Ctpop,
    Ctlz,
    Cttz,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: u32,
    pub b: u32,
    pub c: u32,
    pub k: u64,
}

pub const SUP_NONE: u32 = 0;
const SUP_SET: u32 = 1 << 31;

pub type Bits = [u64; 4];

pub struct Exprs {
    pub nodes: Vec<Node>,
    sup: Vec<u32>,
    map: HashMap<Node, E>,
    sets: Vec<Box<[u32]>>,
    setmap: HashMap<Box<[u32]>, u32>,
    /// width of every symbolic input variable
    pub var_w: Vec<u16>,
    pub luts: Vec<Box<[u64]>>,
    lutmap: HashMap<Box<[u64]>, u32>,
    truth_cache: HashMap<E, Bits>,
    extracts: HashMap<(E, u16, u16), E>,
    // evaluation scratch
    ev_stamp: Vec<u32>,
    ev_val: Vec<u128>,
    stamp: u32,
    pub tt: E,
    pub ff: E,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

impl Exprs {
    pub fn new() -> Self {
        let mut s = Exprs {
            nodes: vec![],
            sup: vec![],
            map: HashMap::new(),
            sets: vec![],
            setmap: HashMap::new(),
            var_w: vec![],
            luts: vec![],
            lutmap: HashMap::new(),
            truth_cache: HashMap::new(),
            extracts: HashMap::new(),
            ev_stamp: vec![],
            ev_val: vec![],
            stamp: 0,
            tt: 0,
            ff: 0,
        };
        s.ff = s.konst(1, 0);
        s.tt = s.konst(1, 1);
        s
    }

    #[inline]
    pub fn w(&self, e: E) -> u16 {
        self.nodes[e as usize].w
    }
    #[inline]
    pub fn n(&self, e: E) -> Node {
        self.nodes[e as usize]
    }

    pub fn cval(&self, e: E) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const && n.w <= 128 {
            Some((n.k as u128) | ((n.a as u128) << 64) | ((n.b as u128) << 96))
        } else {
            None
        }
    }

    fn set_of(&self, s: u32) -> Vec<u32> {
        if s == SUP_NONE {
            vec![]
        } else if s & SUP_SET != 0 {
            self.sets[(s & !SUP_SET) as usize].to_vec()
        } else {
            vec![s - 1]
        }
    }

    /// The symbolic input variables an expression depends on.
    pub fn support(&self, e: E) -> Vec<u32> {
        self.set_of(self.sup[e as usize])
    }
    /// `Some(v)` if the expression depends on exactly one variable.
    #[inline]
    pub fn single(&self, e: E) -> Option<u32> {
        let s = self.sup[e as usize];
        if s != SUP_NONE && s & SUP_SET == 0 {
            Some(s - 1)
        } else {
            None
        }
    }
    /// `Some(v)` if the expression depends on exactly one variable of at most 8 bits.
    #[inline]
    pub fn single8(&self, e: E) -> Option<u32> {
        match self.single(e) {
            Some(v) if self.var_w[v as usize] <= 8 => Some(v),
            _ => None,
        }
    }

    fn sup_union(&mut self, a: u32, b: u32) -> u32 {
        if a == b || b == SUP_NONE {
            return a;
        }
        if a == SUP_NONE {
            return b;
        }
        let mut v = self.set_of(a);
        v.extend(self.set_of(b));
        v.sort_unstable();
        v.dedup();
        if v.len() == 1 {
            return v[0] + 1;
        }
        let v: Box<[u32]> = v.into();
        if let Some(&i) = self.setmap.get(&v) {
            return i | SUP_SET;
        }
        let i = self.sets.len() as u32;
        self.sets.push(v.clone());
        self.setmap.insert(v, i);
        i | SUP_SET
    }

    fn mk(&mut self, n: Node) -> E {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let sup = match n.op {
            Op::Const => SUP_NONE,
            Op::Var => n.a + 1,
            Op::Not | Op::Extract | Op::SExt | Op::Lut | Op::Ctpop | Op::Ctlz | Op::Cttz => {
                self.sup[n.a as usize]
            }
            Op::Ite => {
                let s = self.sup_union(self.sup[n.a as usize], self.sup[n.b as usize]);
                self.sup_union(s, self.sup[n.c as usize])
            }
            _ => self.sup_union(self.sup[n.a as usize], self.sup[n.b as usize]),
        };
        let e = self.nodes.len() as E;
        self.nodes.push(n);
        self.sup.push(sup);
        self.ev_stamp.push(0);
        self.ev_val.push(0);
        self.map.insert(n, e);
        e
    }

    pub fn konst(&mut self, w: u16, v: u128) -> E {
        let v = v & mask(w);
        self.mk(Node {
            op: Op::Const,
            w,
            a: (v >> 64) as u32,
            b: (v >> 96) as u32,
            c: 0,
            k: v as u64,
        })
    }
    pub fn boolean(&mut self, b: bool) -> E {
        if b {
            self.tt
        } else {
            self.ff
        }
    }
    pub fn var(&mut self, idx: u32, w: u16) -> E {
        while self.var_w.len() <= idx as usize {
            self.var_w.push(0);
        }
        // The same index may be requested with different widths on different
        // paths; encode the width in the variable identity by keeping one
        // table per (index, width): the caller allocates indices so that this
        // never happens.
        assert!(self.var_w[idx as usize] == 0 || self.var_w[idx as usize] == w);
        self.var_w[idx as usize] = w;
        self.mk(Node { op: Op::Var, w, a: idx, b: 0, c: 0, k: 0 })
    }

    fn mk2(&mut self, op: Op, w: u16, a: E, b: E) -> E {
        self.mk(Node { op, w, a, b, c: 0, k: 0 })
    }

    pub fn not(&mut self, a: E) -> E {
        let n = self.n(a);
        if let Some(v) = self.cval(a) {
            return self.konst(n.w, !v);
        }
        match n.op {
            Op::Not => return n.a,
            Op::Ult => return self.mk2(Op::Ule, 1, n.b, n.a),
            Op::Ule => return self.mk2(Op::Ult, 1, n.b, n.a),
            Op::Slt => return self.mk2(Op::Sle, 1, n.b, n.a),
            Op::Sle => return self.mk2(Op::Slt, 1, n.b, n.a),
            Op::Concat => {
                let h = self.not(n.a);
                let l = self.not(n.b);
                return self.concat(h, l);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Not, w: n.w, a, b: 0, c: 0, k: 0 })
    }

    /// hi:lo
    pub fn concat(&mut self, hi: E, lo: E) -> E {
        let (nh, nl) = (self.n(hi), self.n(lo));
        let w = nh.w + nl.w;
        if w <= 128 {
            if let (Some(x), Some(y)) = (self.cval(hi), self.cval(lo)) {
                return self.konst(w, (x << nl.w) | y);
            }
        }
        // adjacent extracts of the same expression
        if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.k == nl.k + nl.w as u64
        {
            return self.extract(nh.a, nl.k as u16, w);
        }
        // the low part was simplified after being cut out of the same expression
        if nh.op == Op::Extract && nh.k >= nl.w as u64 && nl.op != Op::Concat {
            let l = self.extract(nh.a, nh.k as u16 - nl.w, nl.w);
            if l == lo {
                return self.extract(nh.a, nh.k as u16 - nl.w, w);
            }
        }
        // parts of two alternatives under the same condition
        if nh.op == Op::Ite && nl.op == Op::Ite && nh.a == nl.a && w <= 64 {
            let p = self.concat(nh.b, nl.b);
            let q = self.concat(nh.c, nl.c);
            return self.ite(nh.a, p, q);
        }
        // lo is itself a concat whose high part merges with hi
        if nl.op == Op::Concat {
            let nlh = self.n(nl.a);
            let mergeable = (self.cval(hi).is_some() && self.cval(nl.a).is_some() && nh.w + nlh.w <= 128)
                || (nh.op == Op::Ite && nlh.op == Op::Ite && nh.a == nlh.a && nh.w + nlh.w <= 64)
                || (nh.op == Op::Extract && nh.k >= nlh.w as u64 && nlh.op != Op::Concat && {
                    let l = self.extract(nh.a, nh.k as u16 - nlh.w, nlh.w);
                    l == nl.a
                })
                || (nh.op == Op::Extract
                    && nlh.op == Op::Extract
                    && nh.a == nlh.a
                    && nh.k == nlh.k + nlh.w as u64);
            if mergeable {
                let h = self.concat(hi, nl.a);
                return self.concat(h, nl.b);
            }
        }
        // hi is a concat: right-associate
        if nh.op == Op::Concat {
            let l = self.concat(nh.b, lo);
            return self.concat(nh.a, l);
        }
        self.mk2(Op::Concat, w, hi, lo)
    }

    pub fn extract(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        debug_assert!(lo + w <= n.w, "extract {}+{} of {}", lo, w, n.w);
        if lo == 0 && w == n.w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(w, v >> lo);
        }
        if matches!(n.op, Op::And | Op::Or | Op::Xor | Op::Not | Op::Ite | Op::Add | Op::Sub | Op::Mul) {
            // shared operands: once per expression
            if let Some(r) = self.extracts.get(&(a, lo, w)) {
                return *r;
            }
            let r = self.extract_op(a, lo, w);
            self.extracts.insert((a, lo, w), r);
            return r;
        }
        self.extract_op(a, lo, w)
    }

    fn extract_op(&mut self, a: E, lo: u16, w: u16) -> E {
        let n = self.n(a);
        match n.op {
            Op::Extract => return self.extract(n.a, lo + n.k as u16, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::And | Op::Or | Op::Xor => {
                let x = self.extract(n.a, lo, w);
                let y = self.extract(n.b, lo, w);
                return self.bin(n.op, x, y);
            }
            Op::Not => {
                let x = self.extract(n.a, lo, w);
                return self.not(x);
            }
            Op::Ite => {
                let x = self.extract(n.b, lo, w);
                let y = self.extract(n.c, lo, w);
                return self.ite(n.a, x, y);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // low bits only depend on low bits
                let x = self.extract(n.a, 0, w);
                let y = self.extract(n.b, 0, w);
                return self.bin(n.op, x, y);
            }
            Op::Lut => {
                let t: Vec<u64> = self.luts[n.k as usize]
                    .iter()
                    .map(|v| ((*v as u128 >> lo) & mask(w)) as u64)
                    .collect();
                return self.lut(n.a, t, w);
            }
            _ => {}
        }
        self.mk(Node { op: Op::Extract, w, a, b: 0, c: 0, k: lo as u64 })
    }

    pub fn zext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if aw > w {
            return self.extract(a, 0, w);
        }
        // constants wider than 128 bits: chain
        let mut rest = w - aw;
        let mut r = a;
        while rest > 0 {
            let c = rest.min(128);
            let z = self.konst(c, 0);
            r = self.concat(z, r);
            rest -= c;
        }
        r
    }
    pub fn sext(&mut self, a: E, w: u16) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cval(a) {
            return self.konst(w, sx(v, aw) as u128);
        }
        let n = self.n(a);
        if n.op == Op::Concat && self.cval(n.a) == Some(0) {
            return self.zext(a, w);
        }
        if n.op == Op::Ite {
            let x = self.sext(n.b, w);
            let y = self.sext(n.c, w);
            if self.cval(x).is_some() && self.cval(y).is_some() {
                return self.ite(n.a, x, y);
            }
        }
        self.mk(Node { op: Op::SExt, w, a, b: 0, c: 0, k: 0 })
    }
    /// table lookup: value of `t[idx]`; idx must be proven in range by the caller
    pub fn lut(&mut self, idx: E, t: Vec<u64>, w: u16) -> E {
        if let Some(i) = self.cval(idx) {
            return self.konst(w, *t.get(i as usize).unwrap_or(&0) as u128);
        }
        if t.iter().all(|v| *v == t[0]) {
            return self.konst(w, t[0] as u128);
        }
        let t: Box<[u64]> = t.into();
        let k = match self.lutmap.get(&t) {
            Some(k) => *k,
            None => {
                let k = self.luts.len() as u32;
                self.luts.push(t.clone());
                self.lutmap.insert(t, k);
                k
            }
        };
        self.mk(Node { op: Op::Lut, w, a: idx, b: 0, c: 0, k: k as u64 })
    }

    pub fn ite(&mut self, c: E, x: E, y: E) -> E {
        if c == self.tt || x == y {
            return x;
        }
        if c == self.ff {
            return y;
        }
        let w = self.w(x);
        if w == 1 {
            match (self.cval(x), self.cval(y)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Op::Or, c, y),
                (Some(0), None) => {
                    let nc = self.not(c);
                    return self.bin(Op::And, nc, y);
                }
                (None, Some(0)) => return self.bin(Op::And, c, x),
                (None, Some(1)) => {
                    let nc = self.not(c);
                    return self.bin(Op::Or, nc, x);
                }
                _ => {}
            }
        }
        if self.n(c).op == Op::Not {
            let nc = self.n(c).a;
            return self.ite(nc, y, x);
        }
        let (nx, ny) = (self.n(x), self.n(y));
        if nx.op == Op::Ite && nx.a == c {
            return self.ite(c, nx.b, y);
        }
        if ny.op == Op::Ite && ny.a == c {
            return self.ite(c, x, ny.c);
        }
        self.mk(Node { op: Op::Ite, w, a: c, b: x, c: y, k: 0 })
    }

    pub fn eq(&mut self, a: E, b: E) -> E {
        self.bin(Op::Eq, a, b)
    }

    /// Split constants and concats at the same point.
    fn split_at(&mut self, e: E, lw: u16) -> Option<(E, E)> {
        let n = self.n(e);
        if n.op == Op::Concat {
            let w = self.w(n.b);
            if w == lw {
                return Some((n.a, n.b));
            }
            // right-associated: the split may lie in hi
            if w < lw {
                if let Some((h, m)) = self.split_at(n.a, lw - w) {
                    let l = self.concat(m, n.b);
                    return Some((h, l));
                }
                return None;
            }
            // the split lies within the low part
            if let Some((m, l)) = self.split_at(n.b, lw) {
                let h = self.concat(n.a, m);
                return Some((h, l));
            }
            return None;
        }
        if self.cval(e).is_some() {
            let h = self.extract(e, lw, n.w - lw);
            let l = self.extract(e, 0, lw);
            return Some((h, l));
        }
        None
    }

    pub fn bin(&mut self, op: Op, a: E, b: E) -> E {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b), "width mismatch in {:?}", op);
        let (ca, cb) = (self.cval(a), self.cval(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            let (rw, v) = fold(op, w, x, y);
            return self.konst(rw, v);
        }
        let comm = matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq);
        let (a, b, ca, cb) = if comm && (ca.is_some() || (cb.is_none() && a > b)) {
            (b, a, cb, ca)
        } else {
            (a, b, ca, cb)
        };
        let m = if w <= 128 { mask(w) } else { 0 };
        let na = self.n(a);
        match op {
            Op::Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(y) = cb {
                    if na.op == Op::Add {
                        if let Some(z) = self.cval(na.b) {
                            let k = self.konst(w, y.wrapping_add(z));
                            return self.bin(Op::Add, na.a, k);
                        }
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.konst(w, 0);
                }
                if let Some(y) = cb {
                    let k = self.konst(w, (!y).wrapping_add(1));
                    return self.bin(Op::Add, a, k);
                }
            }
            Op::Mul => {
                if let Some(y) = cb {
                    if y == 0 {
                        return b;
                    }
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::Shl, a, k);
                    }
                }
            }
            Op::UDiv => {
                if let Some(y) = cb {
                    if y == 1 {
                        return a;
                    }
                    if y.is_power_of_two() {
                        let k = self.konst(w, y.trailing_zeros() as u128);
                        return self.bin(Op::LShr, a, k);
                    }
                }
            }
            Op::URem => {
                if let Some(y) = cb {
                    if y.is_power_of_two() {
                        let k = self.konst(w, y - 1);
                        return self.bin(Op::And, a, k);
                    }
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if cb == Some(0) {
                    return b;
                }
                if cb == Some(m) && w <= 128 {
                    return a;
                }
                if let Some(y) = cb {
                    // contiguous low mask: zext of extract
                    let t = (y + 1).trailing_zeros() as u16;
                    if w <= 128 && y != m && y.wrapping_add(1) & y == 0 {
                        let x = self.extract(a, 0, t);
                        return self.zext(x, w);
                    }
                    if na.op == Op::And {
                        if let Some(z) = self.cval(na.b) {
                            let k = self.konst(w, y & z);
                            return self.bin(Op::And, na.a, k);
                        }
                    }
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.ff;
                    }
                }
            }
            Op::Or => {
                if a == b || cb == Some(0) {
                    return a;
                }
                if cb == Some(m) && w <= 128 {
                    return b;
                }
                if w == 1 {
                    let nb = self.not(b);
                    if nb == a {
                        return self.tt;
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.konst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if cb == Some(m) && w <= 128 {
                    return self.not(a);
                }
            }
            Op::Shl => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let y = y as u16;
                    let x = self.extract(a, 0, w - y);
                    let z = self.konst(y, 0);
                    return self.concat(x, z);
                }
            }
            Op::LShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    if y >= w as u128 {
                        return self.konst(w, 0);
                    }
                    let y = y as u16;
                    let x = self.extract(a, y, w - y);
                    return self.zext(x, w);
                }
            }
            Op::AShr => {
                if let Some(y) = cb {
                    if y == 0 {
                        return a;
                    }
                    let y = y.min(w as u128 - 1) as u16;
                    let x = self.extract(a, y, w - y);
                    return self.sext(x, w);
                }
            }
            Op::Eq => {
                if a == b {
                    return self.tt;
                }
                if w == 1 {
                    if cb == Some(1) {
                        return a;
                    }
                    if cb == Some(0) {
                        return self.not(a);
                    }
                }
                if let Some(y) = cb {
                    match na.op {
                        Op::Add => {
                            if let Some(z) = self.cval(na.b) {
                                let k = self.konst(w, y.wrapping_sub(z));
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Not => {
                            let k = self.konst(w, !y);
                            return self.bin(Op::Eq, na.a, k);
                        }
                        Op::Xor => {
                            if let Some(z) = self.cval(na.b) {
                                let k = self.konst(w, y ^ z);
                                return self.bin(Op::Eq, na.a, k);
                            }
                        }
                        Op::Ite => {
                            if let (Some(p), Some(q)) = (self.cval(na.b), self.cval(na.c)) {
                                return match (p == y, q == y) {
                                    (true, true) => self.tt,
                                    (true, false) => na.a,
                                    (false, true) => self.not(na.a),
                                    (false, false) => self.ff,
                                };
                            }
                            if self.cval(na.b).is_some() || self.cval(na.c).is_some() {
                                let x = self.bin(Op::Eq, na.b, b);
                                let z = self.bin(Op::Eq, na.c, b);
                                return self.ite(na.a, x, z);
                            }
                        }
                        Op::SExt => {
                            let iw = self.w(na.a);
                            let lo = y & mask(iw);
                            if sx(lo, iw) as u128 & m == y {
                                let k = self.konst(iw, lo);
                                return self.bin(Op::Eq, na.a, k);
                            }
                            return self.ff;
                        }
                        _ => {}
                    }
                }
                // concat: component-wise
                let split = if na.op == Op::Concat {
                    Some(self.w(na.b))
                } else if self.n(b).op == Op::Concat {
                    Some(self.w(self.n(b).b))
                } else {
                    None
                };
                if let Some(lw) = split {
                    if let (Some((ah, al)), Some((bh, bl))) = (self.split_at(a, lw), self.split_at(b, lw)) {
                        let l = self.bin(Op::Eq, al, bl);
                        if l == self.ff {
                            return l;
                        }
                        let h = self.bin(Op::Eq, ah, bh);
                        return self.bin(Op::And, h, l);
                    }
                }
            }
            Op::Ult => {
                if a == b || cb == Some(0) {
                    return self.ff;
                }
                if ca == Some(m) && w <= 128 {
                    return self.ff;
                }
                if cb == Some(1) {
                    let z = self.konst(w, 0);
                    return self.bin(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.konst(w, 0);
                    let q = self.bin(Op::Eq, b, z);
                    return self.not(q);
                }
                if let Some(r) = self.narrow_cmp(op, a, b) {
                    return r;
                }
            }
            Op::Ule => {
                if a == b || ca == Some(0) || (cb == Some(m) && w <= 128) {
                    return self.tt;
                }
                if cb == Some(0) {
                    return self.bin(Op::Eq, a, b);
                }
                if let Some(r) = self.narrow_cmp(op, a, b) {
                    return r;
                }
            }
            Op::Slt | Op::Sle => {
                if a == b {
                    return self.boolean(op == Op::Sle);
                }
                // both provably non-negative: unsigned compare
                let nonneg = |s: &Self, e: E| -> bool {
                    if let Some(v) = s.cval(e) {
                        return (v >> (w - 1)) & 1 == 0;
                    }
                    let n = s.n(e);
                    n.op == Op::Concat && s.cval(n.a) == Some(0)
                };
                if w <= 128 && nonneg(self, a) && nonneg(self, b) {
                    return self.bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
                }
            }
            _ => {}
        }
        // bitwise operators distribute over concats split at the same point
        if matches!(op, Op::And | Op::Or | Op::Xor) && w > 1 {
            let lw = if na.op == Op::Concat {
                Some(self.w(na.b))
            } else if self.n(b).op == Op::Concat {
                Some(self.w(self.n(b).b))
            } else {
                None
            };
            if let Some(lw) = lw {
                if let (Some((ah, al)), Some((bh, bl))) = (self.split_at(a, lw), self.split_at(b, lw)) {
                    let h = self.bin(op, ah, bh);
                    let l = self.bin(op, al, bl);
                    return self.concat(h, l);
                }
                // one side has a zero high/low part: use extract
                let (c, o) = if na.op == Op::Concat { (a, b) } else { (b, a) };
                let nc = self.n(c);
                if self.cval(nc.a).is_some() || self.cval(nc.b).is_some() {
                    let oh = self.extract(o, lw, w - lw);
                    let ol = self.extract(o, 0, lw);
                    let h = self.bin(op, nc.a, oh);
                    let l = self.bin(op, nc.b, ol);
                    return self.concat(h, l);
                }
            }
        }
        let rw = if matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle) { 1 } else { w };
        self.mk2(op, rw, a, b)
    }

    /// unsigned comparison where both sides have a constant-zero high part
    fn narrow_cmp(&mut self, op: Op, a: E, b: E) -> Option<E> {
        let zeros = |s: &Self, e: E| -> Option<u16> {
            let n = s.n(e);
            if n.op == Op::Concat && s.cval(n.a) == Some(0) {
                Some(s.w(n.b))
            } else {
                None
            }
        };
        let (za, zb) = (zeros(self, a), zeros(self, b));
        let w = self.w(a);
        match (za, zb) {
            (Some(x), Some(y)) => {
                let m = x.max(y);
                let p = self.extract(a, 0, m);
                let q = self.extract(b, 0, m);
                Some(self.bin(op, p, q))
            }
            (Some(x), None) => {
                let v = self.cval(b)?;
                if v > mask(x) {
                    return Some(self.tt);
                }
                let p = self.extract(a, 0, x);
                let q = self.konst(x, v);
                Some(self.bin(op, p, q))
            }
            (None, Some(y)) => {
                let v = self.cval(a)?;
                if v > mask(y) {
                    return Some(self.ff);
                }
                let p = self.konst(y, v);
                let q = self.extract(b, 0, y);
                Some(self.bin(op, p, q))
            }
            _ => {
                let _ = w;
                None
            }
        }
    }

    pub fn un(&mut self, op: Op, a: E) -> E {
        let w = self.w(a);
        if let Some(v) = self.cval(a) {
            return self.konst(w, fold_un(op, w, v));
        }
        self.mk(Node { op, w, a, b: 0, c: 0, k: 0 })
    }

    // ---- evaluation ----

    /// Evaluate under an assignment of the input variables.
    pub fn eval(&mut self, e: E, model: &[u64]) -> u128 {
        self.stamp = self.stamp.wrapping_add(1);
        if self.stamp == 0 {
            self.ev_stamp.iter_mut().for_each(|s| *s = 0);
            self.stamp = 1;
        }
        self.eval_rec(e, model)
    }
    /// Evaluate several expressions sharing the memo table.
    pub fn eval_true_all(&mut self, es: &[E], model: &[u64]) -> bool {
        self.stamp = self.stamp.wrapping_add(1);
        if self.stamp == 0 {
            self.ev_stamp.iter_mut().for_each(|s| *s = 0);
            self.stamp = 1;
        }
        for e in es {
            if self.eval_rec(*e, model) != 1 {
                return false;
            }
        }
        true
    }

    fn eval_rec(&mut self, e: E, model: &[u64]) -> u128 {
        let i = e as usize;
        if self.ev_stamp[i] == self.stamp {
            return self.ev_val[i];
        }
        let n = self.nodes[i];
        let v = match n.op {
            Op::Const => return self.cval(e).expect("wide constant"),
            Op::Var => *model.get(n.a as usize).unwrap_or(&0) as u128 & mask(n.w),
            Op::Not => !self.eval_rec(n.a, model) & mask(n.w),
            Op::Ite => {
                if self.eval_rec(n.a, model) == 1 {
                    self.eval_rec(n.b, model)
                } else {
                    self.eval_rec(n.c, model)
                }
            }
            Op::Concat => {
                assert!(n.w <= 128, "evaluation of a {}-bit value", n.w);
                let lw = self.nodes[n.b as usize].w;
                let h = self.eval_rec(n.a, model);
                let l = self.eval_rec(n.b, model);
                (h << lw) | l
            }
            Op::Extract => {
                let x = self.eval_rec(n.a, model);
                (x >> n.k) & mask(n.w)
            }
            Op::SExt => {
                let iw = self.nodes[n.a as usize].w;
                let x = self.eval_rec(n.a, model);
                sx(x, iw) as u128 & mask(n.w)
            }
            Op::Lut => {
                let x = self.eval_rec(n.a, model);
                self.luts[n.k as usize].get(x as usize).copied().unwrap_or(0) as u128
            }
            Op::Ctpop | Op::Ctlz | Op::Cttz => {
                let x = self.eval_rec(n.a, model);
                fold_un(n.op, n.w, x)
            }
            op => {
                let w = self.nodes[n.a as usize].w;
                let x = self.eval_rec(n.a, model);
                // short-circuit
                if n.w == 1 && w == 1 {
                    if op == Op::And && x == 0 {
                        self.ev_stamp[i] = self.stamp;
                        self.ev_val[i] = 0;
                        return 0;
                    }
                    if op == Op::Or && x == 1 {
                        self.ev_stamp[i] = self.stamp;
                        self.ev_val[i] = 1;
                        return 1;
                    }
                }
                let y = self.eval_rec(n.b, model);
                fold(op, w, x, y).1
            }
        };
        self.ev_stamp[i] = self.stamp;
        self.ev_val[i] = v;
        v
    }

    /// `s` is a sum with operand `y` that does not exceed its width.
    fn adds_without_wrap(&mut self, s: E, y: E, doms: &[Bits], memo: &mut HashMap<E, (u128, u128)>) -> bool {
        let n = self.nodes[s as usize];
        if n.op != Op::Add || n.w > 64 || (n.a != y && n.b != y) {
            return false;
        }
        let a = self.range(n.a, doms, memo).1;
        let b = self.range(n.b, doms, memo).1;
        a + b <= mask(n.w)
    }

    /// An interval that contains all values of an expression, given the possible
    /// values of the byte variables.
    pub fn range(&mut self, e: E, doms: &[Bits], memo: &mut HashMap<E, (u128, u128)>) -> (u128, u128) {
        let n = self.nodes[e as usize];
        if let Some(v) = self.cval(e) {
            return (v, v);
        }
        let full = (0, mask(n.w));
        if n.w > 64 {
            return full;
        }
        if let Some(r) = memo.get(&e) {
            return *r;
        }
        let m = mask(n.w);
        let r = if let Some(v) = self.single8(e) {
            let d = doms[v as usize];
            let mut model = vec![0u64; v as usize + 1];
            let (mut lo, mut hi) = (u128::MAX, 0);
            for k in 0..1u64 << self.var_w[v as usize] {
                if d[(k >> 6) as usize] >> (k & 63) & 1 == 1 {
                    model[v as usize] = k;
                    let x = self.eval(e, &model);
                    lo = lo.min(x);
                    hi = hi.max(x);
                }
            }
            if lo > hi {
                full
            } else {
                (lo, hi)
            }
        } else if n.op == Op::Ult && self.adds_without_wrap(n.a, n.b, doms, memo) {
            // x + y < y
            (0, 0)
        } else if n.op == Op::Ule && self.adds_without_wrap(n.b, n.a, doms, memo) {
            // y <= x + y
            (1, 1)
        } else {
            match n.op {
                Op::Add | Op::Mul | Op::Sub | Op::UDiv | Op::And | Op::Or | Op::LShr | Op::Eq | Op::Ult | Op::Ule | Op::URem
                | Op::Xor => {
                    let (al, ah) = self.range(n.a, doms, memo);
                    let (bl, bh) = self.range(n.b, doms, memo);
                    let fit = |lo: u128, hi: u128| if hi <= m { (lo, hi) } else { full };
                    let b = |t: bool, f: bool| (t as u128, !f as u128);
                    match n.op {
                        Op::Add => fit(al + bl, ah + bh),
                        Op::Mul => match ah.checked_mul(bh) {
                            Some(h) => fit(al * bl, h),
                            None => full,
                        },
                        Op::Sub if al >= bh => (al - bh, ah - bl),
                        Op::UDiv if bl > 0 => (al / bh, ah / bl),
                        Op::URem if bl > 0 => (0, ah.min(bh - 1)),
                        Op::LShr if bl == bh && bl < 64 => (al >> bl, ah >> bl),
                        Op::And if n.w == 1 => (al & bl, ah & bh),
                        Op::Or if n.w == 1 => (al | bl, ah | bh),
                        Op::And => (0, ah.min(bh)),
                        Op::Or | Op::Xor => {
                            let top = ah | bh;
                            let bits = 128 - top.leading_zeros() as u16;
                            (if n.op == Op::Or { al.max(bl) } else { 0 }, mask(bits))
                        }
                        Op::Eq => b(al == ah && bl == bh && al == bl, ah < bl || bh < al),
                        Op::Ult => b(ah < bl, al >= bh),
                        Op::Ule => b(ah <= bl, al > bh),
                        _ => full,
                    }
                }
                Op::Not if n.w == 1 => {
                    let (l, h) = self.range(n.a, doms, memo);
                    (1 - h, 1 - l)
                }
                Op::Ite => {
                    let c = self.range(n.a, doms, memo);
                    let x = self.range(n.b, doms, memo);
                    let y = self.range(n.c, doms, memo);
                    match c {
                        (1, 1) => x,
                        (0, 0) => y,
                        _ => (x.0.min(y.0), x.1.max(y.1)),
                    }
                }
                Op::Concat => {
                    let lw = self.nodes[n.b as usize].w;
                    let (al, ah) = self.range(n.a, doms, memo);
                    let (bl, bh) = self.range(n.b, doms, memo);
                    if al == ah {
                        ((al << lw) | bl, (al << lw) | bh)
                    } else {
                        (al << lw, (ah << lw) | mask(lw))
                    }
                }
                Op::Extract => {
                    let (al, ah) = self.range(n.a, doms, memo);
                    let (l, h) = (al >> n.k, ah >> n.k);
                    if h <= m {
                        (l, h)
                    } else {
                        full
                    }
                }
                _ => full,
            }
        };
        memo.insert(e, r);
        r
    }

    /// All values of an expression over a single (<=8 bit) variable.
    pub fn table(&mut self, e: E, v: u32) -> Vec<u128> {
        let w = self.var_w[v as usize];
        let n = 1usize << w;
        let mut model = vec![0u64; v as usize + 1];
        let mut out = Vec::with_capacity(n);
        for x in 0..n {
            model[v as usize] = x as u64;
            out.push(self.eval(e, &model));
        }
        out
    }

    /// The set of values of its single variable for which a boolean expression is true.
    pub fn truth(&mut self, e: E, v: u32) -> Bits {
        if let Some(b) = self.truth_cache.get(&e) {
            return *b;
        }
        // fast paths for comparisons of the variable itself with a constant
        let n = self.n(e);
        let mut r: Bits = [0; 4];
        if n.op == Op::Not {
            let t = self.truth(n.a, v);
            let full = full_dom(self.var_w[v as usize]);
            for i in 0..4 {
                r[i] = !t[i] & full[i];
            }
        } else if matches!(n.op, Op::And | Op::Or) {
            let ta = if self.cval(n.a).is_some() { None } else { Some(self.truth(n.a, v)) };
            let tb = if self.cval(n.b).is_some() { None } else { Some(self.truth(n.b, v)) };
            let (ta, tb) = (ta.unwrap(), tb.unwrap());
            for i in 0..4 {
                r[i] = if n.op == Op::And { ta[i] & tb[i] } else { ta[i] | tb[i] };
            }
        } else {
            for (x, y) in self.table(e, v).into_iter().enumerate() {
                if y == 1 {
                    r[x >> 6] |= 1 << (x & 63);
                }
            }
        }
        self.truth_cache.insert(e, r);
        r
    }

    pub fn show(&self, e: E, depth: u32) -> String {
        let n = self.n(e);
        if let Some(v) = self.cval(e) {
            return format!("{:#x}", v);
        }
        if n.op == Op::Var {
            return format!("v{}", n.a);
        }
        if depth == 0 {
            return "..".into();
        }
        match n.op {
            Op::Not | Op::SExt | Op::Ctlz | Op::Cttz | Op::Ctpop => {
                format!("{:?}{}({})", n.op, n.w, self.show(n.a, depth - 1))
            }
            Op::Extract => format!("{}[{}+:{}]", self.show(n.a, depth - 1), n.k, n.w),
            Op::Lut => format!("lut{}[{}]", n.k, self.show(n.a, depth - 1)),
            Op::Ite => format!(
                "ite({},{},{})",
                self.show(n.a, depth - 1),
                self.show(n.b, depth - 1),
                self.show(n.c, depth - 1)
            ),
            _ => format!("{:?}({},{})", n.op, self.show(n.a, depth - 1), self.show(n.b, depth - 1)),
        }
    }
}

pub fn full_dom(w: u16) -> Bits {
    if w >= 8 {
        [u64::MAX; 4]
    } else {
        let n = 1u32 << w;
        let mut r = [0u64; 4];
        for x in 0..n {
            r[(x >> 6) as usize] |= 1 << (x & 63);
        }
        r
    }
}

pub fn fold_un(op: Op, w: u16, v: u128) -> u128 {
    match op {
        Op::Ctpop => v.count_ones() as u128,
        Op::Ctlz => (v.leading_zeros() as u128) - (128 - w as u128),
        Op::Cttz => (v.trailing_zeros() as u128).min(w as u128),
        _ => unreachable!(),
    }
}

/// Concrete semantics (SMT-LIB conventions for division by zero and large shifts).
pub fn fold(op: Op, w: u16, x: u128, y: u128) -> (u16, u128) {
    let m = mask(w);
    let b = |c: bool| (1u16, c as u128);
    match op {
        Op::Add => (w, x.wrapping_add(y) & m),
        Op::Sub => (w, x.wrapping_sub(y) & m),
        Op::Mul => (w, x.wrapping_mul(y) & m),
        Op::UDiv => (w, if y == 0 { m } else { x / y }),
        Op::URem => (w, if y == 0 { x } else { x % y }),
        Op::SDiv => {
            let (p, q) = (sx(x, w), sx(y, w));
            let r = if q == 0 {
                if p < 0 {
                    1
                } else {
                    -1
                }
            } else {
                p.wrapping_div(q)
            };
            (w, r as u128 & m)
        }
        Op::SRem => {
            let (p, q) = (sx(x, w), sx(y, w));
            let r = if q == 0 { p } else { p.wrapping_rem(q) };
            (w, r as u128 & m)
        }
        Op::And => (w, x & y),
        Op::Or => (w, x | y),
        Op::Xor => (w, x ^ y),
        Op::Shl => (w, if y >= w as u128 { 0 } else { (x << y) & m }),
        Op::LShr => (w, if y >= w as u128 { 0 } else { x >> y }),
        Op::AShr => {
            let s = y.min(w as u128 - 1) as u32;
            (w, (sx(x, w) >> s) as u128 & m)
        }
        Op::Eq => b(x == y),
        Op::Ult => b(x < y),
        Op::Ule => b(x <= y),
        Op::Slt => b(sx(x, w) < sx(y, w)),
        Op::Sle => b(sx(x, w) <= sx(y, w)),
        _ => unreachable!("{:?}", op),
    }
}
