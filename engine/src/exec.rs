//! Symbolic interpreter for the parsed LLVM IR.

use crate::expr::*;
use crate::ir::*;
use crate::z3::{Answer, Z3};
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    /// per byte: 0 = concrete, otherwise expression id + 1 (8 bit wide); empty = all concrete
    pub sym: Vec<u32>,
    pub stack: bool,
}

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub blk: u32,
    pub ip: u32,
    pub regs: Vec<Val>,
    pub allocas: Vec<u32>,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}

#[derive(Clone, Copy, Debug)]
pub enum Input {
    Var(u32),
    Conc(u64),
}

#[derive(Clone)]
pub struct State {
    pub cur: Frame,
    pub stack: Vec<Rc<Frame>>,
    pub mem: Vec<Option<Rc<Obj>>>,
    pub free: Vec<u32>,
    pub doms: Vec<Bits>,
    pub residual: Vec<E>,
    /// number of residual constraints mentioning a variable
    pub inres: Vec<u16>,
    pub model: Vec<u64>,
    pub known: Rc<HashMap<E, u64>>,
    pub inputs: Vec<Input>,
    pub nvars: BTreeMap<u16, u32>,
    pub trace: Vec<(u8, u64, E)>, // kind (0 reach,1 observe,2 check), label/concrete, expr+1 for symbolic
    pub steps: u64,
    pub forks: u32,
    /// the function of the other thread, which may run at any access to shared memory
    pub intr: Option<u32>,
    /// thread-local variables of the thread that is not running
    pub other_tls: Vec<Option<Rc<Obj>>>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub label: u64,
    pub msg: String,
    pub inputs: Vec<u64>,
    pub stack: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum FnKind {
    Body,
    Unknown,
    Panic,
    SymVar(u16),
    SymChoice,
    SymCase,
    SymAssume,
    SymCheck,
    SymReach,
    SymObserve,
    SymArm,
    SymDisarm,
    SymSwap,
    SymScale,
    Malloc,
    Calloc,
    Realloc,
    Free,
    Memalign,
    Memcmp,
    Bcmp,
    Strlen,
    Abort,
    Memcpy,
    Memset,
    Nop,
    Assume,
    UMax,
    UMin,
    SMax,
    SMin,
    UAddSat,
    USubSat,
    SAddSat,
    SSubSat,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Ctpop,
    Ctlz,
    Cttz,
    Bswap,
    BitReverse,
    Fshl,
    Fshr,
    Abs,
    UCmp,
    SCmp,
    First,
    IsConstant,
    LoadRelative,
    Getrandom,
    Dlsym,
    Cpuid,
    Zero,
    HashOne,
    RandomKeys,
    VReduceOr,
    VReduceAnd,
    VReduceAdd,
}

pub struct Limits {
    pub max_steps_path: u64,
    pub max_depth: usize,
    pub deadline: Option<Instant>,
    pub max_paths: u64,
    pub z3_every: u64,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub completed: u64,
    pub assumed_away: u64,
    pub forks: u64,
    pub steps: u64,
    pub branch_queries: u64,
    pub dom_unsat: u64,
    pub dom_sat: u64,
    pub enumerated: u64,
    pub range_unsat: u64,
    pub model_sat: u64,
    pub z3_branch: u64,
    pub crosschecked: u64,
    pub checks: u64,
    pub check_z3: u64,
    pub check_static: u64,
    pub max_depth: usize,
    pub max_path_steps: u64,
    pub max_vars: usize,
    pub max_conc: u64,
}

pub struct PathSample {
    pub inputs: Vec<u64>,
    pub trace: Vec<(u8, u64)>,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    pub x: Exprs,
    pub z3: Z3,
    pub consts: Vec<Rc<Obj>>,
    pub kinds: Vec<FnKind>,
    /// calls of these functions go to a stub of the harness
    pub redir: Vec<u32>,
    /// mutable globals are the first objects of the memory
    nshared: usize,
    /// thread-local ones of these
    tls: Vec<u32>,
    pub trace_calls: bool,
    /// concrete inputs to follow (no symbolic variables)
    pub script: Option<Vec<u64>>,
    pub limits: Limits,
    pub stats: Stats,
    pub work: Vec<State>,
    pub violations: Vec<Violation>,
    pub viol_count: HashMap<(String, u64), u64>,
    pub reach: BTreeMap<u64, u64>,
    pub funcs_seen: HashSet<u32>,
    pub case: Option<u64>,
    pub cases_discovered: Option<u64>,
    pub incomplete: BTreeMap<String, u64>,
    pub samples: Vec<PathSample>,
    pub sample_max: usize,
    pub rng: u64,
    varids: HashMap<(u16, u32), u32>,
    pub trace_on: bool,
    pub prof: HashMap<(u32, u32), u64>,
    pub prof_on: bool,
    pub z3_all: bool,
    regions: HashMap<(u32, u32), Option<Rc<Region>>>,
    pub splitter: Option<fn() -> Split>,
    pub split_at: Option<Instant>,
}

/// A loop-free piece of code without side effects between a branch and the block
/// where its paths meet again.
pub struct Region {
    /// in topological order
    blocks: Vec<u32>,
    join: u32,
}

fn succs(b: &Block) -> Vec<u32> {
    match b.insts.last() {
        Some(Inst::Br(t)) => vec![*t],
        Some(Inst::CondBr { a, b, .. }) => vec![*a, *b],
        Some(Inst::Switch { def, cases, .. }) => {
            let mut v: Vec<u32> = cases.iter().map(|c| c.1).collect();
            v.push(*def);
            v
        }
        _ => vec![],
    }
}

fn pure(i: &Inst) -> bool {
    match i {
        Inst::Bin { op, t: T::I(_), .. } => !matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem),
        Inst::Icmp { t: T::I(_), .. } => true,
        Inst::Cast { op: CastOp::Copy, .. } => true,
        Inst::Cast { op: CastOp::ZExt | CastOp::SExt | CastOp::Trunc, from: T::I(_), to: T::I(_), .. } => true,
        Inst::Select { ct: T::I(_), t: T::I(_), ptr: false, .. } => true,
        Inst::Nop | Inst::Br(_) | Inst::CondBr { .. } | Inst::Switch { .. } => true,
        _ => false,
    }
}

fn find_region(f: &Func, from: u32) -> Option<Region> {
    let start = succs(&f.blocks[from as usize]);
    // candidate joins, near ones first
    let mut cand = vec![];
    let mut q: std::collections::VecDeque<u32> = start.iter().copied().collect();
    while let Some(b) = q.pop_front() {
        if b == from || cand.contains(&b) {
            continue;
        }
        cand.push(b);
        if cand.len() > 24 {
            break;
        }
        let blk = &f.blocks[b as usize];
        if blk.insts.iter().all(pure) {
            q.extend(succs(blk));
        }
    }
    'cand: for j in cand {
        // All paths from `from` lead to `j` through pure blocks.
        let mut order = vec![];
        let mut state: HashMap<u32, u8> = HashMap::new();
        fn visit(f: &Func, b: u32, j: u32, from: u32, state: &mut HashMap<u32, u8>, order: &mut Vec<u32>) -> bool {
            if b == j {
                return true;
            }
            match state.get(&b) {
                Some(1) => return false,
                Some(_) => return true,
                None => {}
            }
            let blk = &f.blocks[b as usize];
            if b == from || order.len() > 20 || !blk.insts.iter().all(pure) {
                return false;
            }
            let s = succs(blk);
            if s.is_empty() {
                return false;
            }
            state.insert(b, 1);
            for t in s {
                if !visit(f, t, j, from, state, order) {
                    return false;
                }
            }
            state.insert(b, 2);
            order.push(b);
            true
        }
        for s in &start {
            if !visit(f, *s, j, from, &mut state, &mut order) {
                continue 'cand;
            }
        }
        if order.is_empty() && start.iter().all(|s| *s == j) {
            continue;
        }
        order.reverse();
        // No block of the region lies on all paths (its values could be used behind it).
        for x in &order {
            let mut seen = HashSet::new();
            let mut w = start.clone();
            let mut reached = false;
            while let Some(b) = w.pop() {
                if b == j {
                    reached = true;
                    break;
                }
                if b == *x || !seen.insert(b) {
                    continue;
                }
                w.extend(succs(&f.blocks[b as usize]));
            }
            if !reached {
                continue 'cand;
            }
        }
        let jb = &f.blocks[j as usize];
        if jb.phis.is_empty() {
            continue;
        }
        for ((_, inc), t) in jb.phis.iter().zip(&jb.phi_t) {
            let ok = matches!(t, T::I(w) if *w <= 32);
            let mut vals = inc.iter().filter(|(p, _)| *p == from || order.contains(p)).map(|(_, o)| format!("{:?}", o));
            let first = vals.next();
            if !ok && !vals.all(|v| Some(v) == first) {
                continue 'cand;
            }
        }
        return Some(Region { blocks: order, join: j });
    }
    None
}

pub enum Split {
    No,
    Parent,
    Child,
}

pub enum End {
    Done,
    Dead,
    Cases(u64),
}

enum Flow {
    Next,
    Jumped,
    End(End),
}

type R<T> = Result<T, Flow>;

#[inline]
fn m64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, consts: Vec<Rc<Obj>>, limits: Limits, z3_timeout: u32) -> Self {
        let kinds = m.funcs.iter().map(classify).collect();
        let mut redir: Vec<u32> = (0..m.funcs.len() as u32).collect();
        for (pats, stub) in STUBS {
            if let Some(t) = m.fmap.get(*stub) {
                for (i, f) in m.funcs.iter().enumerate() {
                    if pats.iter().all(|p| f.name.contains(p)) {
                        redir[i] = *t;
                    }
                }
            }
        }
        let mutable: Vec<_> = m.globals.iter().filter(|g| !g.constant || g.external).collect();
        let tls = (0..mutable.len() as u32).filter(|i| mutable[*i as usize].thread_local).collect();
        Engine {
            m,
            nshared: mutable.len(),
            tls,
            x: Exprs::new(),
            z3: Z3::new(z3_timeout),
            consts,
            kinds,
            redir,
            trace_calls: std::env::var("SYMEX_TRACE").is_ok(),
            script: None,
            limits,
            stats: Stats::default(),
            work: vec![],
            violations: vec![],
            viol_count: HashMap::new(),
            reach: BTreeMap::new(),
            funcs_seen: HashSet::new(),
            case: None,
            cases_discovered: None,
            incomplete: BTreeMap::new(),
            samples: vec![],
            sample_max: 4,
            rng: 0x9E3779B97F4A7C15,
            varids: HashMap::new(),
            trace_on: false,
            prof: HashMap::new(),
            prof_on: false,
            z3_all: false,
            regions: HashMap::new(),
            splitter: None,
            split_at: None,
        }
    }

    // ------------------------------------------------------------------
    // constraints

    fn add_constraint(&mut self, st: &mut State, c: E) {
        if c == self.x.tt {
            return;
        }
        let n = self.x.n(c);
        if n.op == Op::And {
            self.add_constraint(st, n.a);
            self.add_constraint(st, n.b);
            return;
        }
        if n.op == Op::Not {
            let k = self.x.n(n.a);
            if k.op == Op::Or {
                let a = self.x.not(k.a);
                let b = self.x.not(k.b);
                self.add_constraint(st, a);
                self.add_constraint(st, b);
                return;
            }
        }
        if let Some(v) = self.x.single8(c) {
            let t = self.x.truth(c, v);
            let d = &mut st.doms[v as usize];
            for i in 0..4 {
                d[i] &= t[i];
            }
            return;
        }
        if st.residual.contains(&c) {
            return;
        }
        for v in self.x.support(c) {
            st.inres[v as usize] += 1;
        }
        st.residual.push(c);
    }

    /// Residual constraints transitively connected to `seed` variables.
    fn slice(&self, st: &State, seed: &[u32]) -> (Vec<E>, Vec<u32>) {
        let mut vars: HashSet<u32> = seed.iter().copied().collect();
        let mut cons = vec![];
        let mut used = vec![false; st.residual.len()];
        let sups: Vec<Vec<u32>> = st.residual.iter().map(|c| self.x.support(*c)).collect();
        loop {
            let mut ch = false;
            for i in 0..st.residual.len() {
                if !used[i] && sups[i].iter().any(|v| vars.contains(v)) {
                    used[i] = true;
                    ch = true;
                    cons.push(st.residual[i]);
                    vars.extend(sups[i].iter().copied());
                }
            }
            if !ch {
                break;
            }
        }
        let mut vs: Vec<u32> = vars.into_iter().collect();
        vs.sort_unstable();
        (cons, vs)
    }

    fn z3_query(&mut self, st: &State, c: E) -> Answer {
        let sup = self.x.support(c);
        let (mut cons, vs) = self.slice(st, &sup);
        cons.push(c);
        let doms: Vec<(u32, Bits)> =
            vs.iter().filter(|v| self.x.var_w[**v as usize] <= 8).map(|v| (*v, st.doms[*v as usize])).collect();
        let vars: Vec<u32> = vs;
        self.z3.check(&mut self.x, &cons, &doms, &vars)
    }

    /// Satisfiability of `c` by evaluation, if its variables and those connected
    /// with them have few possible values; otherwise `None`.
    fn enumerate(&mut self, st: &State, c: E) -> Option<Option<Vec<u64>>> {
        let sup = self.x.support(c);
        let mut n = 1usize;
        let count = |v: u32| -> usize { st.doms[v as usize].iter().map(|x| x.count_ones() as usize).sum() };
        for v in &sup {
            if self.x.var_w[*v as usize] > 8 {
                return None;
            }
            n = n.saturating_mul(count(*v));
            if n > 2048 {
                return None;
            }
        }
        let (mut cons, vs) = self.slice(st, &sup);
        n = 1;
        for v in &vs {
            if self.x.var_w[*v as usize] > 8 {
                return None;
            }
            n = n.saturating_mul(count(*v));
            if n > 2048 {
                return None;
            }
        }
        cons.push(c);
        cons.reverse();
        let vals: Vec<Vec<u64>> = vs
            .iter()
            .map(|v| {
                let d = &st.doms[*v as usize];
                (0..256u64).filter(|k| d[(*k >> 6) as usize] >> (*k & 63) & 1 == 1).collect()
            })
            .collect();
        if vals.iter().any(|v| v.is_empty()) {
            return Some(None);
        }
        let mut idx = vec![0usize; vs.len()];
        let mut m = st.model.clone();
        loop {
            for (i, v) in vs.iter().enumerate() {
                m[*v as usize] = vals[i][idx[i]];
            }
            if self.x.eval_true_all(&cons, &m) {
                return Some(Some(m));
            }
            let mut i = 0;
            loop {
                if i == vs.len() {
                    return Some(None);
                }
                idx[i] += 1;
                if idx[i] < vals[i].len() {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
        }
    }

    /// A model of the path condition extended with `c`, if there is one.
    fn feasible(&mut self, st: &State, c: E) -> R<Option<Vec<u64>>> {
        if c == self.x.tt {
            return Ok(Some(st.model.clone()));
        }
        if c == self.x.ff {
            return Ok(None);
        }
        self.stats.branch_queries += 1;
        if let Some(v) = self.x.single8(c) {
            let t = self.x.truth(c, v);
            let d = st.doms[v as usize];
            let mut r: Bits = [0; 4];
            for i in 0..4 {
                r[i] = d[i] & t[i];
            }
            if r == [0; 4] {
                self.stats.dom_unsat += 1;
                if self.z3_all
                    || (self.limits.z3_every > 0 && self.stats.branch_queries % self.limits.z3_every == 0)
                {
                    self.stats.crosschecked += 1;
                    match self.z3_query(st, c) {
                        Answer::Unsat => {}
                        _ => {
                            eprintln!("finite-domain procedure and z3 disagree");
                            std::process::exit(71);
                        }
                    }
                }
                return Ok(None);
            }
            if st.inres[v as usize] == 0 {
                self.stats.dom_sat += 1;
                let mut m = st.model.clone();
                m[v as usize] = pick(&r);
                return Ok(Some(m));
            }
            // model repair
            let (cons, _) = self.slice(st, &[v]);
            let mut m = st.model.clone();
            for k in 0..256u32 {
                if r[(k >> 6) as usize] >> (k & 63) & 1 == 1 {
                    m[v as usize] = k as u64;
                    if self.x.eval_true_all(&cons, &m) {
                        self.stats.model_sat += 1;
                        return Ok(Some(m));
                    }
                }
            }
        }
        // few remaining values: decide by evaluating all of them
        if let Some(r) = self.enumerate(st, c) {
            self.stats.enumerated += 1;
            if r.is_none() && (self.z3_all || (self.limits.z3_every > 0 && self.stats.enumerated % 2048 == 0)) {
                self.stats.crosschecked += 1;
                if !matches!(self.z3_query(st, c), Answer::Unsat) {
                    eprintln!("enumeration and z3 disagree");
                    std::process::exit(71);
                }
            }
            return Ok(r);
        }
        // impossible for the intervals of its operands
        if self.x.range(c, &st.doms, &mut HashMap::new()) == (0, 0) {
            self.stats.range_unsat += 1;
            if self.z3_all || (self.limits.z3_every > 0 && self.stats.range_unsat % 256 == 0) {
                self.stats.crosschecked += 1;
                if matches!(self.z3_query(st, c), Answer::Sat(_)) {
                    eprintln!("interval analysis and z3 disagree");
                    std::process::exit(71);
                }
            }
            return Ok(None);
        }
        self.stats.z3_branch += 1;
        match self.z3_query(st, c) {
            Answer::Unsat => Ok(None),
            Answer::Sat(vals) => {
                let mut m = st.model.clone();
                for (v, k) in vals {
                    m[v as usize] = k;
                }
                if self.x.eval(c, &m) != 1 {
                    eprintln!("z3 model does not satisfy the query under the evaluator: {}", self.x.show(c, 6));
                    std::process::exit(71);
                }
                Ok(Some(m))
            }
            Answer::Unknown => {
                *self.incomplete.entry("solver-unknown".into()).or_default() += 1;
                Err(Flow::End(End::Dead))
            }
        }
    }

    fn model_bool(&mut self, st: &State, c: E) -> bool {
        if let Some(v) = self.x.single8(c) {
            let t = self.x.truth(c, v);
            let k = st.model[v as usize];
            return t[(k >> 6) as usize] >> (k & 63) & 1 == 1;
        }
        self.x.eval(c, &st.model) == 1
    }

    fn note_fork(&mut self, st: &State) {
        self.stats.forks += 1;
        if self.prof_on {
            *self.prof.entry((st.cur.func.id, st.cur.blk)).or_default() += 1;
        }
    }

    /// Decide a symbolic condition: the current state continues with the returned
    /// value; if the other value is feasible too, `mk` positions a clone for it.
    fn decide(&mut self, st: &mut State, c: E, mk: &mut dyn FnMut(&mut State, bool)) -> R<bool> {
        if c == self.x.tt {
            return Ok(true);
        }
        if c == self.x.ff {
            return Ok(false);
        }
        let side = self.model_bool(st, c);
        let nc = self.x.not(c);
        let (here, other) = if side { (c, nc) } else { (nc, c) };
        if let Some(m) = self.feasible(st, other)? {
            self.note_fork(st);
            let mut alt = st.clone();
            alt.model = m;
            alt.forks += 1;
            self.add_constraint(&mut alt, other);
            mk(&mut alt, !side);
            self.work.push(alt);
            self.add_constraint(st, here);
        }
        Ok(side)
    }

    /// Concretise an expression; other feasible values become new states that
    /// re-execute the current instruction.
    fn concretize(&mut self, st: &mut State, e: E) -> R<u64> {
        if let Some(v) = self.x.cval(e) {
            return Ok(v as u64);
        }
        if let Some(v) = st.known.get(&e) {
            return Ok(*v);
        }
        let w = self.x.w(e);
        let v = self.x.eval(e, &st.model);
        let k = self.x.konst(w, v);
        let c = self.x.eq(e, k);
        let nc = self.x.not(c);
        if let Some(m) = self.feasible(st, nc)? {
            self.note_fork(st);
            self.stats.max_conc += 1;
            let mut alt = st.clone();
            alt.model = m;
            alt.forks += 1;
            self.add_constraint(&mut alt, nc);
            self.work.push(alt);
            self.add_constraint(st, c);
        }
        Rc::make_mut(&mut st.known).insert(e, v as u64);
        Ok(v as u64)
    }

    fn conc(&mut self, st: &mut State, v: &Val) -> R<u64> {
        match v {
            Val::C(c) => Ok(*c),
            Val::S(e) => self.concretize(st, *e),
            Val::W(b) => Ok(**b as u64),
            Val::A(_) => panic!("aggregate as integer"),
        }
    }

    // ------------------------------------------------------------------
    // values

    fn ex(&mut self, v: &Val, w: u16) -> E {
        match v {
            Val::C(c) => self.x.konst(w, *c as u128),
            Val::S(e) => {
                debug_assert_eq!(self.x.w(*e), w);
                *e
            }
            Val::W(b) => self.x.konst(w, **b),
            Val::A(_) => panic!("aggregate as expression"),
        }
    }
    fn val(&self, e: E) -> Val {
        match self.x.cval(e) {
            Some(v) => {
                if self.x.w(e) <= 64 {
                    Val::C(v as u64)
                } else {
                    Val::W(Box::new(v))
                }
            }
            None => Val::S(e),
        }
    }
    fn mk(&self, v: u128, w: u16) -> Val {
        if w <= 64 {
            Val::C(v as u64 & m64(w))
        } else {
            Val::W(Box::new(v & mask(w)))
        }
    }
    fn wide(&self, v: &Val) -> Option<u128> {
        match v {
            Val::C(c) => Some(*c as u128),
            Val::W(b) => Some(**b),
            _ => None,
        }
    }

    fn bin(&mut self, op: BinOp, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let m = m64(w);
            let r = match op {
                BinOp::Add => x.wrapping_add(y),
                BinOp::Sub => x.wrapping_sub(y),
                BinOp::Mul => x.wrapping_mul(y),
                BinOp::And => x & y,
                BinOp::Or => x | y,
                BinOp::Xor => x ^ y,
                BinOp::Shl => {
                    if y >= w as u64 {
                        0
                    } else {
                        x << y
                    }
                }
                BinOp::LShr => {
                    if y >= w as u64 {
                        0
                    } else {
                        x >> y
                    }
                }
                _ => return self.mk(fold(xop(op), w, x as u128, y as u128).1, w),
            };
            return Val::C(r & m);
        }
        if let (Some(x), Some(y)) = (self.wide(a), self.wide(b)) {
            return self.mk(fold(xop(op), w, x, y).1, w);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = self.x.bin(xop(op), x, y);
        self.val(e)
    }

    fn icmp(&mut self, p: Pred, w: u16, a: &Val, b: &Val) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (x, y) = (*x, *y);
            let s = |v: u64| -> i64 {
                if w >= 64 {
                    v as i64
                } else {
                    ((v << (64 - w)) as i64) >> (64 - w)
                }
            };
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Sgt => s(x) > s(y),
                Pred::Sge => s(x) >= s(y),
                Pred::Slt => s(x) < s(y),
                Pred::Sle => s(x) <= s(y),
            };
            return Val::C(r as u64);
        }
        let (x, y) = (self.ex(a, w), self.ex(b, w));
        let e = match p {
            Pred::Eq => self.x.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.x.bin(Op::Eq, x, y);
                self.x.not(e)
            }
            Pred::Ult => self.x.bin(Op::Ult, x, y),
            Pred::Ule => self.x.bin(Op::Ule, x, y),
            Pred::Ugt => self.x.bin(Op::Ult, y, x),
            Pred::Uge => self.x.bin(Op::Ule, y, x),
            Pred::Slt => self.x.bin(Op::Slt, x, y),
            Pred::Sle => self.x.bin(Op::Sle, x, y),
            Pred::Sgt => self.x.bin(Op::Slt, y, x),
            Pred::Sge => self.x.bin(Op::Sle, y, x),
        };
        self.val(e)
    }

    fn cast(&mut self, op: CastOp, fw: u16, tw: u16, a: &Val) -> Val {
        match (op, a) {
            (CastOp::Copy, v) => v.clone(),
            (CastOp::ZExt, Val::C(c)) if tw <= 64 => Val::C(*c),
            (CastOp::Trunc, Val::C(c)) => Val::C(*c & m64(tw)),
            (_, Val::S(e)) => {
                let r = match op {
                    CastOp::ZExt => self.x.zext(*e, tw),
                    CastOp::SExt => self.x.sext(*e, tw),
                    CastOp::Trunc => self.x.extract(*e, 0, tw),
                    _ => *e,
                };
                self.val(r)
            }
            (_, v) => {
                let x = self.wide(v).unwrap();
                match op {
                    CastOp::SExt => {
                        let s = 128 - fw as u32;
                        let y = if fw >= 128 { x } else { (((x << s) as i128) >> s) as u128 };
                        self.mk(y, tw)
                    }
                    _ => self.mk(x, tw),
                }
            }
        }
    }

    /// all bits of a value, low first
    fn flatten(&mut self, v: &Val, t: T) -> Val {
        match (t, v) {
            (T::I(_), v) | (T::F(_), v) => v.clone(),
            (T::V(n, w), Val::A(l)) => {
                let tot = n * w;
                if tot <= 128 && l.iter().all(|x| matches!(x, Val::C(_) | Val::W(_))) {
                    let mut r = 0u128;
                    for (i, x) in l.iter().enumerate() {
                        r |= self.wide(x).unwrap() << (i as u32 * w as u32);
                    }
                    return self.mk(r, tot);
                }
                let mut e = self.ex(&l[0], w);
                for x in &l[1..] {
                    let h = self.ex(x, w);
                    e = self.x.concat(h, e);
                }
                self.val(e)
            }
            _ => panic!("flatten {:?}", t),
        }
    }
    fn unflatten(&mut self, v: &Val, t: T) -> Val {
        match t {
            T::I(_) | T::F(_) => v.clone(),
            T::V(n, w) => {
                let tot = n * w;
                if let Some(x) = self.wide(v) {
                    let l = (0..n).map(|i| self.mk(x >> (i as u32 * w as u32), w)).collect();
                    return Val::A(Rc::new(l));
                }
                let e = self.ex(v, tot);
                let mut l = vec![];
                for i in 0..n {
                    let p = self.x.extract(e, i * w, w);
                    l.push(self.val(p));
                }
                Val::A(Rc::new(l))
            }
            _ => panic!("unflatten {:?}", t),
        }
    }

    // ------------------------------------------------------------------
    // memory

    fn alloc(&mut self, st: &mut State, size: u64, stack: bool) -> R<(u64, u32)> {
        if size > 1 << 26 {
            *self.incomplete.entry("huge-allocation".into()).or_default() += 1;
            return Err(Flow::End(End::Dead));
        }
        let o = Rc::new(Obj { data: vec![0; size as usize], sym: vec![], stack });
        let slot = match st.free.pop() {
            Some(s) => {
                st.mem[s as usize] = Some(o);
                s
            }
            None => {
                st.mem.push(Some(o));
                st.mem.len() as u32 - 1
            }
        };
        Ok((((slot as u64) + 1 + self.consts.len() as u64) << 32, slot))
    }

    fn memerr(&mut self, st: &State, what: &str, addr: u64, len: u64) -> Flow {
        let msg = format!("{} at {:#x} len {}", what, addr, len);
        self.violation(st, "memory", 0, msg, &st.model.clone());
        Flow::End(End::Dead)
    }

    fn slot_of(&self, addr: u64) -> Option<(bool, usize, usize)> {
        let hi = addr >> 32;
        if hi == 0 || addr & FN_BASE != 0 {
            return None;
        }
        let i = hi as usize - 1;
        let off = (addr & 0xffff_ffff) as usize;
        if i < self.consts.len() {
            Some((true, i, off))
        } else {
            Some((false, i - self.consts.len(), off))
        }
    }

    fn obj<'a>(&'a self, st: &'a State, addr: u64, len: u64) -> Option<(&'a Obj, usize)> {
        let (c, i, off) = self.slot_of(addr)?;
        let o: &Obj = if c { &self.consts[i] } else { st.mem.get(i)?.as_ref()? };
        if off as u64 + len > o.data.len() as u64 {
            return None;
        }
        Some((o, off))
    }

    fn load_bytes(&mut self, st: &State, addr: u64, n: usize) -> R<Val> {
        let (o, off) = match self.obj(st, addr, n as u64) {
            Some(x) => x,
            None => return Err(self.memerr(st, "invalid load", addr, n as u64)),
        };
        if o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| *s == 0) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::C(u64::from_le_bytes(b)));
            }
            if n <= 16 {
                let mut b = [0u8; 16];
                b[..n].copy_from_slice(&o.data[off..off + n]);
                return Ok(Val::W(Box::new(u128::from_le_bytes(b))));
            }
        }
        // build from high byte to low byte
        let bytes: Vec<(u8, u32)> =
            (0..n).map(|i| (o.data[off + i], if o.sym.is_empty() { 0 } else { o.sym[off + i] })).collect();
        let mut e: Option<E> = None;
        for (d, s) in bytes.into_iter().rev() {
            let b = if s == 0 { self.x.konst(8, d as u128) } else { s - 1 };
            e = Some(match e {
                None => b,
                Some(h) => self.x.concat(h, b),
            });
        }
        Ok(self.val(e.unwrap()))
    }

    fn obj_mut<'a>(&mut self, st: &'a mut State, addr: u64, len: u64) -> R<(&'a mut Obj, usize)> {
        let bad = match self.slot_of(addr) {
            Some((false, i, off)) => match st.mem.get(i) {
                Some(Some(o)) => off as u64 + len > o.data.len() as u64,
                _ => true,
            },
            _ => true,
        };
        if bad {
            return Err(self.memerr(st, "invalid store", addr, len));
        }
        let (_, i, off) = self.slot_of(addr).unwrap();
        Ok((Rc::make_mut(st.mem[i].as_mut().unwrap()), off))
    }

    fn store_bytes(&mut self, st: &mut State, addr: u64, n: usize, v: &Val) -> R<()> {
        match v {
            Val::C(c) => {
                let b = c.to_le_bytes();
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                if n <= 8 {
                    o.data[off..off + n].copy_from_slice(&b[..n]);
                } else {
                    o.data[off..off + 8].copy_from_slice(&b);
                    o.data[off + 8..off + n].iter_mut().for_each(|x| *x = 0);
                }
                if !o.sym.is_empty() {
                    o.sym[off..off + n].iter_mut().for_each(|s| *s = 0);
                }
                Ok(())
            }
            Val::W(c) => {
                let b = c.to_le_bytes();
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                for i in 0..n {
                    o.data[off + i] = if i < 16 { b[i] } else { 0 };
                }
                if !o.sym.is_empty() {
                    o.sym[off..off + n].iter_mut().for_each(|s| *s = 0);
                }
                Ok(())
            }
            Val::S(e) => {
                let mut parts = Vec::with_capacity(n);
                for i in 0..n {
                    let p = self.x.extract(*e, 8 * i as u16, 8);
                    parts.push(match self.x.cval(p) {
                        Some(v) => (v as u8, 0),
                        None => (0u8, p + 1),
                    });
                }
                let (o, off) = self.obj_mut(st, addr, n as u64)?;
                if o.sym.is_empty() {
                    o.sym = vec![0; o.data.len()];
                }
                for (i, (d, s)) in parts.into_iter().enumerate() {
                    o.data[off + i] = d;
                    o.sym[off + i] = s;
                }
                Ok(())
            }
            Val::A(_) => panic!("store of aggregate as bytes"),
        }
    }

    fn load(&mut self, st: &mut State, t: T, addr: &Val) -> R<Val> {
        match t {
            T::I(w) | T::F(w) => {
                let n = (w as usize + 7) / 8;
                let a = match addr {
                    Val::C(a) => *a,
                    Val::S(e) => {
                        if let Some(v) = self.try_lut(st, *e, n) {
                            return Ok(if w as usize != n * 8 { self.cast(CastOp::Trunc, n as u16 * 8, w, &v) } else { v });
                        }
                        self.concretize(st, *e)?
                    }
                    _ => panic!("load address"),
                };
                let v = self.load_bytes(st, a, n)?;
                if w as usize != n * 8 {
                    return Ok(self.cast(CastOp::Trunc, n as u16 * 8, w, &v));
                }
                Ok(v)
            }
            T::V(n, w) => {
                let a = self.conc(st, addr)?;
                if w % 8 != 0 {
                    let tot = n * w;
                    let v = self.load(st, T::I(tot), &Val::C(a))?;
                    return Ok(self.unflatten(&v, t));
                }
                let mut l = vec![];
                for i in 0..n as u64 {
                    l.push(self.load(st, T::I(w), &Val::C(a + i * (w as u64 / 8)))?);
                }
                Ok(Val::A(Rc::new(l)))
            }
            T::A(ty) => {
                let a = self.conc(st, addr)?;
                let n = match self.m.tget(ty) {
                    Ty::Struct(f, _) => f.len(),
                    Ty::Arr(n, _) => n as usize,
                    t => panic!("load {:?}", t),
                };
                let mut l = vec![];
                for i in 0..n {
                    let (o, ft) = self.m.field_offset(ty, i);
                    l.push(self.load(st, self.m.t(ft), &Val::C(a + o))?);
                }
                Ok(Val::A(Rc::new(l)))
            }
            T::Void => Ok(Val::C(0)),
        }
    }

    /// Load through an address that depends on a single input byte: a table lookup.
    fn try_lut(&mut self, st: &State, addr: E, n: usize) -> Option<Val> {
        if n > 8 {
            return None;
        }
        let v = self.x.single8(addr)?;
        let t = self.x.table(addr, v);
        let d = st.doms[v as usize];
        let mut out = vec![0u64; t.len()];
        let mut slot: Option<u64> = None;
        for (k, a) in t.iter().enumerate() {
            if d[k >> 6] >> (k & 63) & 1 == 0 {
                continue;
            }
            let a = *a as u64;
            match slot {
                None => slot = Some(a >> 32),
                Some(s) if s == a >> 32 => {}
                _ => return None,
            }
            let (o, off) = self.obj(st, a, n as u64)?;
            if !o.sym.is_empty() && o.sym[off..off + n].iter().any(|s| *s != 0) {
                return None;
            }
            let mut b = [0u8; 8];
            b[..n].copy_from_slice(&o.data[off..off + n]);
            out[k] = u64::from_le_bytes(b);
        }
        let w = self.x.var_w[v as usize];
        let ve = self.x.var(v, w);
        let e = self.x.lut(ve, out, n as u16 * 8);
        Some(self.val(e))
    }

    fn store(&mut self, st: &mut State, t: T, addr: u64, v: &Val) -> R<()> {
        match t {
            T::I(w) | T::F(w) => {
                let n = (w as usize + 7) / 8;
                if w as usize != n * 8 {
                    if let Val::S(e) = v {
                        let z = self.x.zext(*e, n as u16 * 8);
                        let z = self.val(z);
                        return self.store_bytes(st, addr, n, &z);
                    }
                }
                self.store_bytes(st, addr, n, v)
            }
            T::V(n, w) => {
                if w % 8 != 0 {
                    let f = self.flatten(v, t);
                    return self.store(st, T::I(n * w), addr, &f);
                }
                if let Val::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        self.store(st, T::I(w), addr + i as u64 * (w as u64 / 8), x)?;
                    }
                }
                Ok(())
            }
            T::A(ty) => {
                if let Val::A(l) = v {
                    for (i, x) in l.iter().enumerate() {
                        let (o, ft) = self.m.field_offset(ty, i);
                        self.store(st, self.m.t(ft), addr + o, x)?;
                    }
                }
                Ok(())
            }
            T::Void => Ok(()),
        }
    }

    fn memcpy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let n = n as usize;
        let (data, sym) = {
            let (o, off) = match self.obj(st, src, n as u64) {
                Some(x) => x,
                None => return Err(self.memerr(st, "invalid memcpy source", src, n as u64)),
            };
            let s = if o.sym.is_empty() || o.sym[off..off + n].iter().all(|s| *s == 0) {
                vec![]
            } else {
                o.sym[off..off + n].to_vec()
            };
            (o.data[off..off + n].to_vec(), s)
        };
        let (o, off) = self.obj_mut(st, dst, n as u64)?;
        o.data[off..off + n].copy_from_slice(&data);
        if !sym.is_empty() {
            if o.sym.is_empty() {
                o.sym = vec![0; o.data.len()];
            }
            o.sym[off..off + n].copy_from_slice(&sym);
        } else if !o.sym.is_empty() {
            o.sym[off..off + n].iter_mut().for_each(|s| *s = 0);
        }
        Ok(())
    }

    // ------------------------------------------------------------------
    // reporting

    fn inputs_of(&self, st: &State, model: &[u64]) -> Vec<u64> {
        st.inputs
            .iter()
            .map(|i| match i {
                Input::Var(v) => model[*v as usize] & m64(self.x.var_w[*v as usize]),
                Input::Conc(c) => *c,
            })
            .collect()
    }

    fn stack_names(&self, st: &State) -> Vec<String> {
        let mut s: Vec<String> = vec![self.m.funcs[st.cur.func.id as usize].name.clone()];
        for f in st.stack.iter().rev().take(24) {
            s.push(self.m.funcs[f.func.id as usize].name.clone());
        }
        s
    }

    fn violation(&mut self, st: &State, kind: &str, label: u64, msg: String, model: &[u64]) {
        let c = self.viol_count.entry((format!("{}:{}", kind, msg), label)).or_default();
        *c += 1;
        if *c > 3 || self.violations.len() > 60 {
            return;
        }
        let v = Violation {
            kind: kind.to_string(),
            label,
            msg,
            inputs: self.inputs_of(st, model),
            stack: self.stack_names(st),
        };
        self.violations.push(v);
    }

    // ------------------------------------------------------------------
    // execution

    pub fn initial(&mut self, func: &str, init_mem: Vec<Option<Rc<Obj>>>) -> State {
        let id = *self.m.fmap.get(func).unwrap_or_else(|| panic!("no harness {}", func));
        let f = self.m.func(id);
        self.funcs_seen.insert(id);
        let other_tls = self.tls.iter().map(|i| init_mem[*i as usize].clone()).collect();
        State {
            cur: Frame {
                regs: vec![Val::C(0); f.nregs as usize],
                func: f,
                blk: 0,
                ip: 0,
                allocas: vec![],
                dst: None,
                normal: None,
            },
            stack: vec![],
            mem: init_mem,
            free: vec![],
            doms: vec![],
            residual: vec![],
            inres: vec![],
            model: vec![],
            known: Rc::new(HashMap::new()),
            inputs: vec![],
            nvars: BTreeMap::new(),
            trace: vec![],
            steps: 0,
            forks: 0,
            intr: None,
            other_tls,
        }
    }

    pub fn explore(&mut self, init: State) {
        self.work.push(init);
        while let Some(st) = self.work.pop() {
            if self.work.len() >= 3 {
                if let Some(f) = self.splitter {
                    // hand the oldest half of the pending states to a forked copy
                    match f() {
                        Split::No => {}
                        Split::Parent => {
                            let mut i = 0;
                            self.work.retain(|_| {
                                i += 1;
                                i % 2 == 0
                            });
                        }
                        Split::Child => {
                            let mut i = 0;
                            self.work.retain(|_| {
                                i += 1;
                                i % 2 == 1
                            });
                            self.reset_results();
                            // the popped state stays with the parent
                            continue;
                        }
                    }
                }
            }
            if let Some(d) = self.limits.deadline {
                if Instant::now() > d {
                    *self.incomplete.entry("deadline".into()).or_default() += 1 + self.work.len() as u64;
                    return;
                }
            }
            if self.stats.paths >= self.limits.max_paths {
                *self.incomplete.entry("max-paths".into()).or_default() += 1 + self.work.len() as u64;
                return;
            }
            match self.run(st) {
                End::Cases(n) => {
                    self.cases_discovered = Some(n);
                    return;
                }
                _ => {}
            }
            self.stats.paths += 1;
        }
    }

    fn reset_results(&mut self) {
        self.split_at = Some(Instant::now());
        self.stats = Default::default();
        self.violations.clear();
        self.viol_count.clear();
        self.reach.clear();
        self.incomplete.clear();
        self.samples.clear();
        self.z3.reset_stats();
    }

    fn finish(&mut self, st: &State) {
        self.stats.completed += 1;
        self.stats.max_vars = self.stats.max_vars.max(st.inputs.len());
        self.stats.max_path_steps = self.stats.max_path_steps.max(st.steps);
        // reservoir sample of complete paths for validation against the native build
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        let k = self.stats.completed;
        let idx = if self.samples.len() < self.sample_max {
            self.samples.len()
        } else {
            let r = self.rng % k;
            if r < self.sample_max as u64 {
                r as usize
            } else {
                return;
            }
        };
        let mut tr = vec![];
        for (k, l, e) in &st.trace {
            if *e == 0 {
                tr.push((*k, *l));
            } else {
                let v = self.x.eval(*e - 1, &st.model) as u64;
                tr.push((*k, v));
            }
        }
        let s = PathSample { inputs: self.inputs_of(st, &st.model), trace: tr };
        if idx < self.samples.len() {
            self.samples[idx] = s;
        } else {
            self.samples.push(s);
        }
    }

    fn run(&mut self, mut st: State) -> End {
        let mut check = 0u32;
        loop {
            check += 1;
            if check & 0xfff == 0 {
                self.stats.steps += 0x1000;
                st.steps += 0x1000;
                if st.steps > self.limits.max_steps_path {
                    let m = st.model.clone();
                    self.violation(&st, "steps", 0, "instruction limit per path exceeded".into(), &m);
                    *self.incomplete.entry("step-limit".into()).or_default() += 1;
                    return End::Dead;
                }
                if check & 0xfffff == 0 {
                    if let Some(d) = self.limits.deadline {
                        if Instant::now() > d {
                            *self.incomplete.entry("deadline".into()).or_default() += 1;
                            return End::Dead;
                        }
                    }
                }
            }
            match self.step(&mut st) {
                Ok(()) => {}
                Err(Flow::Next) | Err(Flow::Jumped) => {}
                Err(Flow::End(e)) => {
                    self.stats.steps += (check & 0xfff) as u64;
                    st.steps += (check & 0xfff) as u64;
                    if let End::Done = e {
                        self.finish(&st);
                    }
                    return e;
                }
            }
        }
    }

    #[inline]
    fn get(&self, fr: &Frame, o: &Opd) -> Val {
        match o {
            Opd::R(r) => fr.regs[*r as usize].clone(),
            Opd::K(v) => v.clone(),
        }
    }

    fn jump(&mut self, st: &mut State, to: u32) {
        let from = st.cur.blk;
        let f = st.cur.func.clone();
        let b = &f.blocks[to as usize];
        if !b.phis.is_empty() {
            if b.phis.len() == 1 {
                let (d, inc) = &b.phis[0];
                let v = &inc.iter().find(|(p, _)| *p == from).expect("phi").1;
                let v = self.get(&st.cur, v);
                st.cur.regs[*d as usize] = v;
            } else {
                let mut vals = Vec::with_capacity(b.phis.len());
                for (_, inc) in &b.phis {
                    let v = &inc.iter().find(|(p, _)| *p == from).expect("phi").1;
                    vals.push(self.get(&st.cur, v));
                }
                for ((d, _), v) in b.phis.iter().zip(vals) {
                    st.cur.regs[*d as usize] = v;
                }
            }
        }
        st.cur.blk = to;
        st.cur.ip = 0;
    }

    fn set(&mut self, st: &mut State, d: u32, v: Val) {
        st.cur.regs[d as usize] = v;
    }

    fn pure_value(&mut self, fr: &Frame, i: &Inst) -> Option<(u32, Val)> {
        Some(match i {
            Inst::Bin { dst, op, t: T::I(w), a, b } => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                (*dst, self.bin(*op, *w, &x, &y))
            }
            Inst::Icmp { dst, p, t: T::I(w), a, b } => {
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                (*dst, self.icmp(*p, *w, &x, &y))
            }
            Inst::Cast { dst, op: CastOp::Copy, a, .. } => (*dst, self.get(fr, a)),
            Inst::Cast { dst, op, from: T::I(fw), to: T::I(tw), a } => {
                let x = self.get(fr, a);
                (*dst, self.cast(*op, *fw, *tw, &x))
            }
            Inst::Select { dst, t: T::I(w), c, a, b, .. } => {
                let cv = self.get(fr, c);
                let (x, y) = (self.get(fr, a), self.get(fr, b));
                let v = match cv {
                    Val::C(k) => {
                        if k == 1 {
                            x
                        } else {
                            y
                        }
                    }
                    v => {
                        let (c, x, y) = (self.ex(&v, 1), self.ex(&x, *w), self.ex(&y, *w));
                        let e = self.x.ite(c, x, y);
                        self.val(e)
                    }
                };
                (*dst, v)
            }
            _ => return None,
        })
    }

    /// The condition of each edge that leaves block `b`, which is reached under `c`.
    fn edges(&mut self, fr: &Frame, f: &Func, b: u32, c: E, out: &mut Vec<(u32, u32, E)>) {
        match f.blocks[b as usize].insts.last() {
            Some(Inst::Br(t)) => out.push((b, *t, c)),
            Some(Inst::CondBr { c: o, a, b: e }) => {
                let v = self.get(fr, o);
                let v = self.ex(&v, 1);
                let n = self.x.not(v);
                let p = self.x.bin(Op::And, c, v);
                let q = self.x.bin(Op::And, c, n);
                out.push((b, *a, p));
                out.push((b, *e, q));
            }
            Some(Inst::Switch { w, v, def, cases }) => {
                let v = self.get(fr, v);
                let v = self.ex(&v, *w);
                let mut any = self.x.ff;
                for (k, t) in cases {
                    let k = self.x.konst(*w, *k);
                    let q = self.x.eq(v, k);
                    any = self.x.bin(Op::Or, any, q);
                    let p = self.x.bin(Op::And, c, q);
                    out.push((b, *t, p));
                }
                let n = self.x.not(any);
                let p = self.x.bin(Op::And, c, n);
                out.push((b, *def, p));
            }
            _ => unreachable!(),
        }
    }

    /// Lets the other thread run before an access to shared memory, as an alternative.
    fn interrupt(&mut self, st: &mut State, ins: &Inst) {
        let ptr = match ins {
            Inst::Load { ptr, .. } | Inst::Store { ptr, .. } | Inst::AtomicRmw { ptr, .. } | Inst::CmpXchg { ptr, .. } => ptr,
            _ => return,
        };
        let a = match self.get(&st.cur, ptr) {
            Val::C(a) => a,
            _ => return,
        };
        match self.slot_of(a) {
            Some((false, i, _)) if i < self.nshared && !self.tls.contains(&(i as u32)) => {}
            _ => return,
        }
        self.note_fork(st);
        let mut alt = st.clone();
        alt.forks += 1;
        let g = alt.intr.take().unwrap();
        let func = self.m.func(g);
        self.funcs_seen.insert(g);
        let nf = Frame {
            regs: vec![Val::C(0); func.nregs as usize],
            func,
            blk: 0,
            ip: 0,
            allocas: vec![],
            dst: None,
            normal: None,
        };
        let mut old = std::mem::replace(&mut alt.cur, nf);
        // returning advances
        old.ip = old.ip.wrapping_sub(1);
        alt.stack.push(Rc::new(old));
        self.work.push(alt);
    }

    /// Instead of forking at a branch whose paths meet again without side effects,
    /// compute what they yield as a function of the one byte they depend on.
    fn merge(&mut self, st: &mut State) -> bool {
        let f = st.cur.func.clone();
        let from = st.cur.blk;
        let key = (f.id, from);
        let r = match self.regions.get(&key) {
            Some(r) => r.clone(),
            None => {
                let r = find_region(&f, from).map(Rc::new);
                self.regions.insert(key, r.clone());
                r
            }
        };
        let r = match r {
            Some(r) => r,
            None => return false,
        };
        let mut old: Vec<(u32, Val)> = vec![];
        let mut edges: Vec<(u32, u32, E)> = vec![];
        let tt = self.x.tt;
        self.edges(&st.cur, &f, from, tt, &mut edges);
        for b in &r.blocks {
            let mut c = self.x.ff;
            for (_, t, e) in &edges {
                if t == b {
                    c = self.x.bin(Op::Or, c, *e);
                }
            }
            let mut new = vec![];
            for ((d, inc), t) in f.blocks[*b as usize].phis.iter().zip(&f.blocks[*b as usize].phi_t) {
                match self.phi(&st.cur, inc, *t, *b, &edges) {
                    Some(v) => new.push((*d, v)),
                    None => {
                        for (d, v) in old.into_iter().rev() {
                            st.cur.regs[d as usize] = v;
                        }
                        return false;
                    }
                }
            }
            for (d, v) in new {
                old.push((d, std::mem::replace(&mut st.cur.regs[d as usize], v)));
            }
            for i in &f.blocks[*b as usize].insts {
                if let Some((d, v)) = self.pure_value(&st.cur, i) {
                    old.push((d, std::mem::replace(&mut st.cur.regs[d as usize], v)));
                }
            }
            self.edges(&st.cur, &f, *b, c, &mut edges);
        }
        let jb = &f.blocks[r.join as usize];
        let mut new = vec![];
        for ((d, inc), t) in jb.phis.iter().zip(&jb.phi_t) {
            match self.phi(&st.cur, inc, *t, r.join, &edges) {
                Some(v) => {
                    if let Val::S(e) = &v {
                        if self.x.single8(*e).is_none() && !inc.iter().any(|(_, o)| matches!(self.get(&st.cur, o), Val::S(x) if x == *e)) {
                            new.clear();
                            break;
                        }
                    }
                    new.push((*d, v))
                }
                None => {
                    new.clear();
                    break;
                }
            }
        }
        for (d, v) in old.into_iter().rev() {
            st.cur.regs[d as usize] = v;
        }
        if new.is_empty() {
            return false;
        }
        for (d, v) in new {
            st.cur.regs[d as usize] = v;
        }
        st.cur.blk = r.join;
        st.cur.ip = 0;
        true
    }

    /// The value of a phi, given the conditions of the edges.
    fn phi(&mut self, fr: &Frame, inc: &[(u32, Opd)], t: T, b: u32, edges: &[(u32, u32, E)]) -> Option<Val> {
        let mut vals: Vec<(E, Val)> = vec![];
        for (p, to, c) in edges {
            if *to == b && *c != self.x.ff {
                let o = &inc.iter().find(|(q, _)| q == p).expect("phi").1;
                vals.push((*c, self.get(fr, o)));
            }
        }
        let (_, first) = vals.last()?.clone();
        let same = |a: &Val, b: &Val| match (a, b) {
            (Val::C(x), Val::C(y)) => x == y,
            (Val::S(x), Val::S(y)) => x == y,
            _ => false,
        };
        if vals.iter().all(|(_, v)| same(v, &first)) || vals.len() == 1 {
            return Some(first);
        }
        let w = match t {
            T::I(w) if w <= 32 => w,
            _ => return None,
        };
        let mut acc = self.ex(&first, w);
        for (c, v) in vals.iter().rev().skip(1) {
            let e = self.ex(v, w);
            acc = self.x.ite(*c, e, acc);
        }
        Some(self.val(acc))
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let fp: *const Func = &*st.cur.func;
        // Safety: functions are never dropped while the engine lives (the module keeps them).
        let f: &Func = unsafe { &*fp };
        let ins = &f.blocks[st.cur.blk as usize].insts[st.cur.ip as usize];
        if st.intr.is_some() {
            self.interrupt(st, ins);
        }
        match ins {
            Inst::Bin { dst, op, t, a, b } => {
                let (x, y) = (self.get(&st.cur, a), self.get(&st.cur, b));
                let r = match t {
                    T::I(w) => {
                        if matches!(op, BinOp::UDiv | BinOp::SDiv | BinOp::URem | BinOp::SRem) {
                            // rustc guards division by zero; a zero divisor here would be UB
                            if let Val::C(0) = y {
                                let m = st.model.clone();
                                self.violation(st, "memory", 0, "division by zero".into(), &m);
                                return Err(Flow::End(End::Dead));
                            }
                        }
                        self.bin(*op, *w, &x, &y)
                    }
                    T::V(_, w) => match (&x, &y) {
                        (Val::A(p), Val::A(q)) => {
                            let l = p.iter().zip(q.iter()).map(|(i, j)| self.bin(*op, *w, i, j)).collect();
                            Val::A(Rc::new(l))
                        }
                        _ => panic!(),
                    },
                    _ => return self.unsupported(st, "binop type"),
                };
                self.set(st, *dst, r);
            }
            Inst::Icmp { dst, p, t, a, b } => {
                let (x, y) = (self.get(&st.cur, a), self.get(&st.cur, b));
                let r = match t {
                    T::I(w) => self.icmp(*p, *w, &x, &y),
                    T::V(_, w) => match (&x, &y) {
                        (Val::A(i), Val::A(j)) => {
                            let l = i.iter().zip(j.iter()).map(|(i, j)| self.icmp(*p, *w, i, j)).collect();
                            Val::A(Rc::new(l))
                        }
                        _ => panic!(),
                    },
                    _ => return self.unsupported(st, "icmp type"),
                };
                self.set(st, *dst, r);
            }
            Inst::Load { dst, t, ptr } => {
                let p = self.get(&st.cur, ptr);
                let v = self.load(st, *t, &p)?;
                self.set(st, *dst, v);
            }
            Inst::Store { t, val, ptr } => {
                let p = self.get(&st.cur, ptr);
                let v = self.get(&st.cur, val);
                let a = self.conc(st, &p)?;
                self.store(st, *t, a, &v)?;
            }
            Inst::Gep { dst, base, off, idx } => {
                let b = self.get(&st.cur, base);
                let mut acc = match b {
                    Val::C(c) => Val::C(c.wrapping_add(*off as u64)),
                    v => self.bin(BinOp::Add, 64, &v, &Val::C(*off as u64)),
                };
                for (o, iw, scale) in idx {
                    let i = self.get(&st.cur, o);
                    let i = if *iw == 64 { i } else { self.cast(CastOp::SExt, *iw, 64, &i) };
                    let sc = match i {
                        Val::C(c) => Val::C(c.wrapping_mul(*scale)),
                        v => self.bin(BinOp::Mul, 64, &v, &Val::C(*scale)),
                    };
                    acc = self.bin(BinOp::Add, 64, &acc, &sc);
                }
                self.set(st, *dst, acc);
            }
            Inst::Cast { dst, op, from, to, a } => {
                let x = self.get(&st.cur, a);
                let r = match (op, from, to) {
                    (CastOp::Copy, _, _) => x,
                    (CastOp::BitCast, _, _) => {
                        let fl = self.flatten(&x, *from);
                        self.unflatten(&fl, *to)
                    }
                    (_, T::I(fw), T::I(tw)) => self.cast(*op, *fw, *tw, &x),
                    (_, T::V(_, fw), T::V(_, tw)) => match &x {
                        Val::A(l) => {
                            let l = l.iter().map(|v| self.cast(*op, *fw, *tw, v)).collect();
                            Val::A(Rc::new(l))
                        }
                        _ => panic!(),
                    },
                    _ => return self.unsupported(st, "cast"),
                };
                self.set(st, *dst, r);
            }
            Inst::Select { dst, ct, c, t, ptr, a, b } => {
                let cv = self.get(&st.cur, c);
                if let T::V(..) = ct {
                    let (x, y) = (self.get(&st.cur, a), self.get(&st.cur, b));
                    let w = match t {
                        T::V(_, w) => *w,
                        _ => panic!(),
                    };
                    if let (Val::A(cs), Val::A(xs), Val::A(ys)) = (&cv, &x, &y) {
                        let mut l = vec![];
                        for i in 0..cs.len() {
                            l.push(match &cs[i] {
                                Val::C(k) => {
                                    if *k == 1 {
                                        xs[i].clone()
                                    } else {
                                        ys[i].clone()
                                    }
                                }
                                v => {
                                    let e = self.ex(v, 1);
                                    let p = self.ex(&xs[i], w);
                                    let q = self.ex(&ys[i], w);
                                    let r = self.x.ite(e, p, q);
                                    self.val(r)
                                }
                            });
                        }
                        self.set(st, *dst, Val::A(Rc::new(l)));
                    }
                } else {
                    let r = match cv {
                        Val::C(k) => {
                            if k == 1 {
                                self.get(&st.cur, a)
                            } else {
                                self.get(&st.cur, b)
                            }
                        }
                        Val::S(e) => {
                            let (x, y) = (self.get(&st.cur, a), self.get(&st.cur, b));
                            let scalar = matches!(t, T::I(_)) && !*ptr;
                            // two different pointers: fork instead of building a symbolic pointer
                            if scalar && !looks_like_ptr(&x) && !looks_like_ptr(&y) {
                                let w = match t {
                                    T::I(w) => *w,
                                    _ => unreachable!(),
                                };
                                let (p, q) = (self.ex(&x, w), self.ex(&y, w));
                                let ne = self.x.not(e);
                                let r = if st.residual.contains(&e) {
                                    p
                                } else if st.residual.contains(&ne) {
                                    q
                                } else {
                                    self.x.ite(e, p, q)
                                };
                                self.val(r)
                            } else {
                                let d = self.decide(st, e, &mut |_, _| {})?;
                                if d {
                                    x
                                } else {
                                    y
                                }
                            }
                        }
                        _ => panic!(),
                    };
                    self.set(st, *dst, r);
                }
            }
            Inst::Br(to) => {
                self.jump(st, *to);
                return Ok(());
            }
            Inst::CondBr { c, a, b } => {
                let cv = match c {
                    Opd::R(r) => &st.cur.regs[*r as usize],
                    Opd::K(v) => v,
                };
                let side = match cv {
                    Val::C(k) => *k == 1,
                    Val::S(e) => {
                        let e = *e;
                        let (a, b) = (*a, *b);
                        if self.x.single8(e).is_some() && st.intr.is_none() && self.merge(st) {
                            return Ok(());
                        }
                        if a == b {
                            true
                        } else {
                            let mut pend: Option<bool> = None;
                            let n0 = self.work.len();
                            let s = self.decide(st, e, &mut |_, s| pend = Some(s))?;
                            if let Some(os) = pend {
                                debug_assert!(self.work.len() == n0 + 1);
                                let mut alt = self.work.pop().unwrap();
                                self.jump(&mut alt, if os { a } else { b });
                                self.work.push(alt);
                            }
                            s
                        }
                    }
                    _ => panic!(),
                };
                self.jump(st, if side { *a } else { *b });
                return Ok(());
            }
            Inst::Switch { w, v, def, cases } => {
                let cv = self.get(&st.cur, v);
                match cv {
                    Val::C(k) => {
                        let t = cases.iter().find(|(c, _)| *c == k as u128).map(|(_, t)| *t).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::W(k) => {
                        let t = cases.iter().find(|(c, _)| *c == *k).map(|(_, t)| *t).unwrap_or(*def);
                        self.jump(st, t);
                    }
                    Val::S(e) => {
                        if self.x.single8(e).is_some() && st.intr.is_none() && self.merge(st) {
                            return Ok(());
                        }
                        let mut groups: Vec<(u32, E)> = vec![];
                        let mut any = self.x.ff;
                        for (c, t) in cases {
                            let k = self.x.konst(*w, *c);
                            let q = self.x.eq(e, k);
                            if *t == *def {
                                continue;
                            }
                            any = self.x.bin(Op::Or, any, q);
                            match groups.iter_mut().find(|(g, _)| g == t) {
                                Some((_, g)) => *g = self.x.bin(Op::Or, *g, q),
                                None => groups.push((*t, q)),
                            }
                        }
                        let nd = self.x.not(any);
                        groups.push((*def, nd));
                        let mut chosen = None;
                        for (t, c) in &groups {
                            if self.model_bool(st, *c) {
                                chosen = Some((*t, *c));
                                break;
                            }
                        }
                        let chosen = chosen.expect("switch");
                        let mut forked = false;
                        for (t, c) in &groups {
                            if *t == chosen.0 {
                                continue;
                            }
                            if let Some(m) = self.feasible(st, *c)? {
                                forked = true;
                                self.note_fork(st);
                                let mut alt = st.clone();
                                alt.model = m;
                                alt.forks += 1;
                                self.add_constraint(&mut alt, *c);
                                self.jump(&mut alt, *t);
                                self.work.push(alt);
                            }
                        }
                        if forked {
                            self.add_constraint(st, chosen.1);
                        }
                        self.jump(st, chosen.0);
                    }
                    _ => panic!(),
                }
                return Ok(());
            }
            Inst::Ret(v) => {
                let r = v.as_ref().map(|o| self.get(&st.cur, o));
                if self.trace_calls {
                    eprintln!("{}=> {}", " ".repeat(st.stack.len()), r.as_ref().map(|v| self.show(v)).unwrap_or_default());
                }
                for s in std::mem::take(&mut st.cur.allocas) {
                    st.mem[s as usize] = None;
                    st.free.push(s);
                }
                let (dst, normal) = (st.cur.dst, st.cur.normal);
                match st.stack.pop() {
                    None => return Err(Flow::End(End::Done)),
                    Some(fr) => {
                        st.cur = match Rc::try_unwrap(fr) {
                            Ok(f) => f,
                            Err(rc) => (*rc).clone(),
                        };
                    }
                }
                if let (Some(d), Some(v)) = (dst, r) {
                    st.cur.regs[d as usize] = v;
                }
                match normal {
                    Some(b) => self.jump(st, b),
                    None => st.cur.ip = st.cur.ip.wrapping_add(1),
                }
                return Ok(());
            }
            Inst::Call(c) => return self.call(st, c),
            Inst::Alloca { dst, size, count } => {
                let n = match count {
                    Some(o) => {
                        let v = self.get(&st.cur, o);
                        self.conc(st, &v)?
                    }
                    None => 1,
                };
                let (a, s) = self.alloc(st, *size * n, true)?;
                st.cur.allocas.push(s);
                self.set(st, *dst, Val::C(a));
            }
            Inst::ExtractValue { dst, a, path } => {
                let mut v = self.get(&st.cur, a);
                for p in path {
                    v = match &v {
                        Val::A(l) => l[*p as usize].clone(),
                        _ => panic!("extractvalue"),
                    };
                }
                self.set(st, *dst, v);
            }
            Inst::InsertValue { dst, a, v, path } => {
                let base = self.get(&st.cur, a);
                let x = self.get(&st.cur, v);
                let r = insert(&base, path, x);
                self.set(st, *dst, r);
            }
            Inst::ExtractElem { dst, a, i } => {
                let v = self.get(&st.cur, a);
                let i = self.get(&st.cur, i);
                let i = self.conc(st, &i)?;
                let r = match &v {
                    Val::A(l) => l[i as usize].clone(),
                    _ => panic!(),
                };
                self.set(st, *dst, r);
            }
            Inst::InsertElem { dst, a, v, i } => {
                let base = self.get(&st.cur, a);
                let x = self.get(&st.cur, v);
                let i = self.get(&st.cur, i);
                let i = self.conc(st, &i)?;
                let r = insert(&base, &[i as u32], x);
                self.set(st, *dst, r);
            }
            Inst::Shuffle { dst, a, b, mask } => {
                let (x, y) = (self.get(&st.cur, a), self.get(&st.cur, b));
                let r = match (&x, &y) {
                    (Val::A(p), Val::A(q)) => {
                        let n = p.len();
                        let l = mask
                            .iter()
                            .map(|i| {
                                let i = *i as usize;
                                if i < n {
                                    p[i].clone()
                                } else if i - n < q.len() {
                                    q[i - n].clone()
                                } else {
                                    Val::C(0)
                                }
                            })
                            .collect();
                        Val::A(Rc::new(l))
                    }
                    _ => panic!(),
                };
                self.set(st, *dst, r);
            }
            Inst::AtomicRmw { dst, op, t, ptr, v } => {
                let p = self.get(&st.cur, ptr);
                let a = self.conc(st, &p)?;
                let old = self.load(st, *t, &Val::C(a))?;
                let x = self.get(&st.cur, v);
                let w = match t {
                    T::I(w) => *w,
                    _ => return self.unsupported(st, "atomicrmw"),
                };
                let new = match op.as_str() {
                    "xchg" => x,
                    "add" => self.bin(BinOp::Add, w, &old, &x),
                    "sub" => self.bin(BinOp::Sub, w, &old, &x),
                    "and" => self.bin(BinOp::And, w, &old, &x),
                    "or" => self.bin(BinOp::Or, w, &old, &x),
                    "xor" => self.bin(BinOp::Xor, w, &old, &x),
                    _ => return self.unsupported(st, "atomicrmw op"),
                };
                self.store(st, *t, a, &new)?;
                self.set(st, *dst, old);
            }
            Inst::CmpXchg { dst, t, ptr, cmp, new } => {
                let p = self.get(&st.cur, ptr);
                let a = self.conc(st, &p)?;
                let old = self.load(st, *t, &Val::C(a))?;
                let o = self.conc(st, &old)?;
                let c = self.get(&st.cur, cmp);
                let c = self.conc(st, &c)?;
                let n = self.get(&st.cur, new);
                if o == c {
                    self.store(st, *t, a, &n)?;
                }
                self.set(st, *dst, Val::A(Rc::new(vec![Val::C(o), Val::C((o == c) as u64)])));
            }
            Inst::Nop => {}
            Inst::Unreachable => {
                let m = st.model.clone();
                self.violation(st, "unreachable", 0, "`unreachable` executed".into(), &m);
                return Err(Flow::End(End::Dead));
            }
            Inst::Unsupported(s) => {
                let s = s.clone();
                return self.unsupported(st, &s);
            }
        }
        st.cur.ip += 1;
        Ok(())
    }

    fn unsupported(&mut self, st: &State, what: &str) -> R<()> {
        let k = format!("unsupported: {} in {}", what, self.m.funcs[st.cur.func.id as usize].name);
        *self.incomplete.entry(k).or_default() += 1;
        Err(Flow::End(End::Dead))
    }

    fn ret(&mut self, st: &mut State, c: &CallInst, v: Val) -> R<()> {
        if let Some(d) = c.dst {
            st.cur.regs[d as usize] = v;
        }
        match c.normal {
            Some(b) => self.jump(st, b),
            None => st.cur.ip += 1,
        }
        Ok(())
    }

    pub fn new_var(&mut self, st: &mut State, w: u16) -> u32 {
        let n = st.nvars.entry(w).or_insert(0);
        let key = (w, *n);
        *n += 1;
        let next = self.varids.len() as u32;
        let id = *self.varids.entry(key).or_insert(next);
        while st.doms.len() <= id as usize {
            st.doms.push([u64::MAX; 4]);
            st.inres.push(0);
            st.model.push(0);
        }
        st.doms[id as usize] = full_dom(w);
        self.x.var(id, w);
        id
    }

    fn loc_of(&self, st: &State, args: &[Val]) -> String {
        for a in args.iter().rev() {
            if let Val::C(p) = a {
                if let Some((o, off)) = self.obj(st, *p, 24) {
                    let rd = |i: usize| u64::from_le_bytes(o.data[off + i..off + i + 8].try_into().unwrap());
                    let (fp, fl) = (rd(0), rd(8));
                    if fl > 3 && fl < 400 {
                        if let Some((fo, foff)) = self.obj(st, fp, fl) {
                            if let Ok(s) = std::str::from_utf8(&fo.data[foff..foff + fl as usize]) {
                                if s.ends_with(".rs") {
                                    let lc = rd(16);
                                    return format!("{}:{}", s, lc & 0xffff_ffff);
                                }
                            }
                        }
                    }
                }
            }
        }
        "?".into()
    }

    fn show(&self, v: &Val) -> String {
        match v {
            Val::C(k) => format!("{:#x}", k),
            Val::W(k) => format!("{:#x}w", **k),
            Val::S(e) => format!("sym{}", e),
            _ => "agg".to_string(),
        }
    }

    fn call(&mut self, st: &mut State, c: &CallInst) -> R<()> {
        let fid = match &c.callee {
            Callee::Direct(f) => *f,
            Callee::Indirect(o) => {
                let v = self.get(&st.cur, o);
                let a = self.conc(st, &v)?;
                if a & FN_BASE == 0 || ((a & !FN_BASE) >> 8) as usize >= self.m.funcs.len() {
                    return Err(self.memerr(st, "call of a non-function", a, 0));
                }
                ((a & !FN_BASE) >> 8) as u32
            }
        };
        let fid = self.redir[fid as usize];
        let kind = self.kinds[fid as usize];
        if self.trace_calls {
            let a: Vec<String> = c.args.iter().map(|(_, a)| self.show(&self.get(&st.cur, a))).collect();
            eprintln!("{}{} ({})", " ".repeat(st.stack.len()), self.m.funcs[fid as usize].name, a.join(", "));
        }
        if kind == FnKind::Body {
            if st.stack.len() >= self.limits.max_depth {
                let m = st.model.clone();
                self.violation(st, "depth", 0, "call depth limit exceeded".into(), &m);
                return Err(Flow::End(End::Dead));
            }
            let f = self.m.func(fid);
            self.funcs_seen.insert(fid);
            let mut regs = Vec::with_capacity(f.nregs as usize);
            for (_, a) in c.args.iter().take(f.nparams as usize) {
                regs.push(self.get(&st.cur, a));
            }
            regs.resize(f.nregs as usize, Val::C(0));
            let nf = Frame { func: f, blk: 0, ip: 0, regs, allocas: vec![], dst: c.dst, normal: c.normal };
            let old = std::mem::replace(&mut st.cur, nf);
            st.stack.push(Rc::new(old));
            if st.stack.len() > self.stats.max_depth {
                self.stats.max_depth = st.stack.len();
            }
            return Ok(());
        }
        let args: Vec<Val> = c.args.iter().map(|(_, a)| self.get(&st.cur, a)).collect();
        let w0 = match c.args.first() {
            Some((T::I(w), _)) => *w,
            Some((T::V(_, w), _)) => *w,
            _ => 0,
        };
        match kind {
            FnKind::Body => unreachable!(),
            FnKind::Unknown => {
                let n = self.m.funcs[fid as usize].name.clone();
                self.unsupported(st, &format!("call {}", n))
            }
            FnKind::Nop => self.ret(st, c, Val::C(0)),
            FnKind::Assume => self.ret(st, c, Val::C(0)),
            FnKind::Panic | FnKind::Abort => {
                let loc = self.loc_of(st, &args);
                let m = st.model.clone();
                let msg = if kind == FnKind::Abort { "abort".to_string() } else { format!("panic at {}", loc) };
                self.violation(st, "panic", 0, msg, &m);
                Err(Flow::End(End::Dead))
            }
            FnKind::SymVar(_) | FnKind::SymChoice if self.script.is_some() => {
                let k = self.script.as_ref().unwrap().get(st.inputs.len()).copied().unwrap_or(0);
                st.inputs.push(Input::Conc(k));
                self.ret(st, c, Val::C(k))
            }
            FnKind::SymVar(w) => {
                let id = self.new_var(st, w);
                st.inputs.push(Input::Var(id));
                let e = self.x.var(id, w);
                self.ret(st, c, Val::S(e))
            }
            FnKind::SymChoice => {
                let n = self.conc(st, &args[0])?;
                for k in (1..n).rev() {
                    self.note_fork(st);
                    let mut alt = st.clone();
                    alt.forks += 1;
                    alt.inputs.push(Input::Conc(k));
                    self.ret(&mut alt, c, Val::C(k))?;
                    self.work.push(alt);
                }
                st.inputs.push(Input::Conc(0));
                self.ret(st, c, Val::C(0))
            }
            FnKind::SymArm => {
                let a = self.conc(st, &args[0])?;
                if a & FN_BASE == 0 || ((a & !FN_BASE) >> 8) as usize >= self.m.funcs.len() {
                    return Err(self.memerr(st, "thread of a non-function", a, 0));
                }
                st.intr = Some(self.redir[((a & !FN_BASE) >> 8) as usize]);
                self.ret(st, c, Val::C(0))
            }
            FnKind::SymDisarm => {
                let ran = st.intr.take().is_none();
                self.ret(st, c, Val::C(ran as u64))
            }
            FnKind::SymSwap => {
                for (k, i) in self.tls.iter().enumerate() {
                    std::mem::swap(&mut st.other_tls[k], &mut st.mem[*i as usize]);
                }
                self.ret(st, c, Val::C(0))
            }
            FnKind::SymScale => self.ret(st, c, Val::C(1)),
            FnKind::SymCase => {
                let n = self.conc(st, &args[0])?;
                let case = match &self.script {
                    Some(s) => s.get(st.inputs.len()).copied(),
                    None => self.case,
                };
                match case {
                    Some(k) => {
                        st.inputs.push(Input::Conc(k));
                        self.ret(st, c, Val::C(k))
                    }
                    None => Err(Flow::End(End::Cases(n))),
                }
            }
            FnKind::SymAssume => {
                let w = w0;
                match &args[0] {
                    Val::C(0) => {
                        self.stats.assumed_away += 1;
                        Err(Flow::End(End::Dead))
                    }
                    Val::C(_) => self.ret(st, c, Val::C(0)),
                    Val::S(e) => {
                        let cnd = if w == 1 {
                            *e
                        } else {
                            let z = self.x.konst(w, 0);
                            let q = self.x.eq(*e, z);
                            self.x.not(q)
                        };
                        if !self.model_bool(st, cnd) {
                            match self.feasible(st, cnd)? {
                                None => {
                                    self.stats.assumed_away += 1;
                                    return Err(Flow::End(End::Dead));
                                }
                                Some(m) => st.model = m,
                            }
                        }
                        self.add_constraint(st, cnd);
                        self.ret(st, c, Val::C(0))
                    }
                    _ => panic!(),
                }
            }
            FnKind::SymCheck => {
                let label = self.conc(st, &args[1])?;
                self.stats.checks += 1;
                st.trace.push((2, label, 0));
                *self.reach.entry(label | (1 << 40)).or_default() += 1;
                match &args[0] {
                    Val::C(0) => {
                        let m = st.model.clone();
                        self.violation(st, "check", label, format!("check {}", label), &m);
                        Err(Flow::End(End::Dead))
                    }
                    Val::C(_) => {
                        self.stats.check_static += 1;
                        self.ret(st, c, Val::C(0))
                    }
                    Val::S(e) => {
                        let cnd = if w0 == 1 {
                            *e
                        } else {
                            let z = self.x.konst(w0, 0);
                            let q = self.x.eq(*e, z);
                            self.x.not(q)
                        };
                        let neg = self.x.not(cnd);
                        // the assertion itself is always decided by the SMT solver
                        self.stats.check_z3 += 1;
                        match self.z3_query(st, neg) {
                            Answer::Unsat => self.ret(st, c, Val::C(0)),
                            Answer::Unknown => {
                                *self.incomplete.entry("solver-unknown".into()).or_default() += 1;
                                Err(Flow::End(End::Dead))
                            }
                            Answer::Sat(vals) => {
                                let mut m = st.model.clone();
                                for (v, k) in vals {
                                    m[v as usize] = k;
                                }
                                self.violation(st, "check", label, format!("check {}", label), &m);
                                // continue on the side where it holds
                                match self.feasible(st, cnd)? {
                                    None => Err(Flow::End(End::Dead)),
                                    Some(m) => {
                                        st.model = m;
                                        self.add_constraint(st, cnd);
                                        self.ret(st, c, Val::C(0))
                                    }
                                }
                            }
                        }
                    }
                    _ => panic!(),
                }
            }
            FnKind::SymReach => {
                let label = self.conc(st, &args[0])?;
                *self.reach.entry(label).or_default() += 1;
                st.trace.push((0, label, 0));
                self.ret(st, c, Val::C(0))
            }
            FnKind::SymObserve => {
                match &args[0] {
                    Val::C(k) => st.trace.push((1, *k, 0)),
                    Val::S(e) => st.trace.push((1, 0, *e + 1)),
                    _ => panic!(),
                }
                self.ret(st, c, Val::C(0))
            }
            FnKind::Malloc => {
                let n = self.conc(st, &args[0])?;
                let (a, _) = self.alloc(st, n, false)?;
                self.ret(st, c, Val::C(a))
            }
            FnKind::Calloc => {
                let n = self.conc(st, &args[0])?;
                let k = self.conc(st, &args[1])?;
                let (a, _) = self.alloc(st, n * k, false)?;
                self.ret(st, c, Val::C(a))
            }
            FnKind::Memalign => {
                let p = self.conc(st, &args[0])?;
                let n = self.conc(st, &args[2])?;
                let (a, _) = self.alloc(st, n, false)?;
                self.store(st, T::I(64), p, &Val::C(a))?;
                self.ret(st, c, Val::C(0))
            }
            FnKind::Realloc => {
                let p = self.conc(st, &args[0])?;
                let n = self.conc(st, &args[1])?;
                let old = match self.slot_of(p) {
                    Some((false, i, 0)) if st.mem[i].is_some() => i,
                    _ => return Err(self.memerr(st, "invalid realloc", p, n)),
                };
                let o = Rc::make_mut(st.mem[old].as_mut().unwrap());
                o.data.resize(n as usize, 0);
                if !o.sym.is_empty() {
                    o.sym.resize(n as usize, 0);
                }
                self.ret(st, c, Val::C(p))
            }
            FnKind::Free => {
                let p = self.conc(st, &args[0])?;
                if p != 0 {
                    match self.slot_of(p) {
                        Some((false, i, 0)) if st.mem.get(i).map(|o| o.is_some()).unwrap_or(false) => {
                            st.mem[i] = None;
                            st.free.push(i as u32);
                        }
                        _ => return Err(self.memerr(st, "invalid free", p, 0)),
                    }
                }
                self.ret(st, c, Val::C(0))
            }
            FnKind::Memcpy => {
                let n = self.conc(st, &args[2])?;
                let d = self.conc(st, &args[0])?;
                let s = self.conc(st, &args[1])?;
                self.memcpy(st, d, s, n)?;
                self.ret(st, c, Val::C(d))
            }
            FnKind::Memset => {
                let n = self.conc(st, &args[2])?;
                let d = self.conc(st, &args[0])?;
                let v = if w0 == 0 { Val::C(0) } else { args[1].clone() };
                let vw = match c.args[1].0 {
                    T::I(w) => w,
                    _ => 8,
                };
                let v = if vw > 8 { self.cast(CastOp::Trunc, vw, 8, &v) } else { v };
                if n > 0 {
                    match v {
                        Val::C(b) => {
                            let (o, off) = self.obj_mut(st, d, n)?;
                            o.data[off..off + n as usize].iter_mut().for_each(|x| *x = b as u8);
                            if !o.sym.is_empty() {
                                o.sym[off..off + n as usize].iter_mut().for_each(|x| *x = 0);
                            }
                        }
                        v => {
                            for i in 0..n {
                                self.store_bytes(st, d + i, 1, &v)?;
                            }
                        }
                    }
                }
                self.ret(st, c, Val::C(d))
            }
            FnKind::Bcmp | FnKind::Memcmp => {
                let n = self.conc(st, &args[2])?;
                let p = self.conc(st, &args[0])?;
                let q = self.conc(st, &args[1])?;
                let mut conc: Option<i64> = Some(0);
                let mut parts: Vec<(E, E)> = vec![];
                for i in 0..n {
                    let a = self.load_bytes(st, p + i, 1)?;
                    let b = self.load_bytes(st, q + i, 1)?;
                    if let (Some(0), Val::C(x), Val::C(y)) = (conc, &a, &b) {
                        if x != y && parts.is_empty() {
                            conc = Some(*x as i64 - *y as i64);
                            break;
                        }
                    }
                    let (x, y) = (self.ex(&a, 8), self.ex(&b, 8));
                    if x == y {
                        continue;
                    }
                    conc = None;
                    parts.push((x, y));
                    // a definite difference ends the comparison
                    if let (Some(_), Some(_)) = (self.x.cval(x), self.x.cval(y)) {
                        break;
                    }
                }
                if let Some(r) = conc {
                    return self.ret(st, c, Val::C(r as u32 as u64));
                }
                let r = if kind == FnKind::Bcmp {
                    let mut all = self.x.tt;
                    for (x, y) in parts {
                        let q = self.x.eq(x, y);
                        all = self.x.bin(Op::And, all, q);
                    }
                    let ne = self.x.not(all);
                    self.x.zext(ne, 32)
                } else {
                    let mut r = self.x.konst(32, 0);
                    for (x, y) in parts.into_iter().rev() {
                        let q = self.x.eq(x, y);
                        let (xx, yy) = (self.x.zext(x, 32), self.x.zext(y, 32));
                        let d = self.x.bin(Op::Sub, xx, yy);
                        r = self.x.ite(q, r, d);
                    }
                    r
                };
                let v = self.val(r);
                self.ret(st, c, v)
            }
            FnKind::Strlen => {
                let p = self.conc(st, &args[0])?;
                let mut n = 0;
                loop {
                    let b = self.load_bytes(st, p + n, 1)?;
                    if self.conc(st, &b)? == 0 {
                        break;
                    }
                    n += 1;
                }
                self.ret(st, c, Val::C(n))
            }
            FnKind::UMax | FnKind::UMin | FnKind::SMax | FnKind::SMin => {
                let p = match kind {
                    FnKind::UMax => Pred::Ugt,
                    FnKind::UMin => Pred::Ult,
                    FnKind::SMax => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let r = self.lanes2(c, &args, w0, |s, a, b| {
                    let q = s.icmp(p, w0, a, b);
                    s.sel(&q, a, b, w0)
                });
                self.ret(st, c, r)
            }
            FnKind::UAddSat => {
                let r = self.lanes2(c, &args, w0, |s, a, b| {
                    let z = s.bin(BinOp::Add, w0, a, b);
                    let o = s.icmp(Pred::Ult, w0, &z, a);
                    let m = s.mk(mask(w0), w0);
                    s.sel(&o, &m, &z, w0)
                });
                self.ret(st, c, r)
            }
            FnKind::USubSat => {
                let r = self.lanes2(c, &args, w0, |s, a, b| {
                    let z = s.bin(BinOp::Sub, w0, a, b);
                    let o = s.icmp(Pred::Ult, w0, a, b);
                    let m = s.mk(0, w0);
                    s.sel(&o, &m, &z, w0)
                });
                self.ret(st, c, r)
            }
            FnKind::SAddSat | FnKind::SSubSat => {
                let add = kind == FnKind::SAddSat;
                let r = self.lanes2(c, &args, w0, |s, a, b| {
                    let z = s.bin(if add { BinOp::Add } else { BinOp::Sub }, w0, a, b);
                    let p = s.bin(BinOp::Xor, w0, a, &z);
                    let q = if add { s.bin(BinOp::Xor, w0, b, &z) } else { s.bin(BinOp::Xor, w0, a, b) };
                    let f = s.bin(BinOp::And, w0, &p, &q);
                    let zero = s.mk(0, w0);
                    let o = s.icmp(Pred::Slt, w0, &f, &zero);
                    let neg = s.icmp(Pred::Slt, w0, a, &zero);
                    let (lo, hi) = (s.mk(1u128 << (w0 - 1), w0), s.mk(mask(w0) >> 1, w0));
                    let m = s.sel(&neg, &lo, &hi, w0);
                    s.sel(&o, &m, &z, w0)
                });
                self.ret(st, c, r)
            }
            FnKind::UAddO => {
                let z = self.bin(BinOp::Add, w0, &args[0], &args[1]);
                let o = self.icmp(Pred::Ult, w0, &z, &args[0]);
                self.ret(st, c, Val::A(Rc::new(vec![z, o])))
            }
            FnKind::USubO => {
                let z = self.bin(BinOp::Sub, w0, &args[0], &args[1]);
                let o = self.icmp(Pred::Ult, w0, &args[0], &args[1]);
                self.ret(st, c, Val::A(Rc::new(vec![z, o])))
            }
            FnKind::UMulO | FnKind::SAddO | FnKind::SSubO | FnKind::SMulO => {
                let op = match kind {
                    FnKind::UMulO | FnKind::SMulO => BinOp::Mul,
                    FnKind::SAddO => BinOp::Add,
                    _ => BinOp::Sub,
                };
                let z = self.bin(op, w0, &args[0], &args[1]);
                let ext = if kind == FnKind::UMulO { CastOp::ZExt } else { CastOp::SExt };
                if 2 * w0 > 128 {
                    return self.unsupported(st, "128-bit overflow arithmetic");
                }
                let a = self.cast(ext, w0, 2 * w0, &args[0]);
                let b = self.cast(ext, w0, 2 * w0, &args[1]);
                let full = self.bin(op, 2 * w0, &a, &b);
                let back = self.cast(ext, w0, 2 * w0, &z);
                let o = if let (Some(p), Some(q)) = (self.wide(&full), self.wide(&back)) {
                    Val::C((p != q) as u64)
                } else if kind == FnKind::UMulO {
                    let max = self.mk(mask(w0), 2 * w0);
                    self.icmp(Pred::Ugt, 2 * w0, &full, &max)
                } else {
                    self.icmp(Pred::Ne, 2 * w0, &full, &back)
                };
                self.ret(st, c, Val::A(Rc::new(vec![z, o])))
            }
            FnKind::Ctpop | FnKind::Ctlz | FnKind::Cttz => {
                let op = match kind {
                    FnKind::Ctpop => Op::Ctpop,
                    FnKind::Ctlz => Op::Ctlz,
                    _ => Op::Cttz,
                };
                let e = self.ex(&args[0], w0);
                let r = self.x.un(op, e);
                let v = self.val(r);
                self.ret(st, c, v)
            }
            FnKind::Bswap => {
                let e = self.ex(&args[0], w0);
                let mut r: Option<E> = None;
                for i in 0..w0 / 8 {
                    let b = self.x.extract(e, i * 8, 8);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.x.concat(h, b),
                    });
                }
                let v = self.val(r.unwrap());
                self.ret(st, c, v)
            }
            FnKind::BitReverse => {
                let e = self.ex(&args[0], w0);
                let mut r: Option<E> = None;
                for i in 0..w0 {
                    let b = self.x.extract(e, i, 1);
                    r = Some(match r {
                        None => b,
                        Some(h) => self.x.concat(h, b),
                    });
                }
                let v = self.val(r.unwrap());
                self.ret(st, c, v)
            }
            FnKind::Fshl | FnKind::Fshr => {
                let lanes: Vec<[Val; 3]> = match (&args[0], &args[1], &args[2]) {
                    (Val::A(x), Val::A(y), Val::A(z)) => {
                        (0..x.len()).map(|i| [x[i].clone(), y[i].clone(), z[i].clone()]).collect()
                    }
                    (x, y, z) => vec![[x.clone(), y.clone(), z.clone()]],
                };
                let mut out = vec![];
                for [hi, lo, z] in &lanes {
                    let s = self.conc(st, z)? % w0 as u64;
                    out.push(if s == 0 {
                        if kind == FnKind::Fshl {
                            hi.clone()
                        } else {
                            lo.clone()
                        }
                    } else {
                        let s1 = if kind == FnKind::Fshl { s } else { w0 as u64 - s };
                        let a = self.bin(BinOp::Shl, w0, hi, &self.mk(s1 as u128, w0));
                        let b = self.bin(BinOp::LShr, w0, lo, &self.mk(w0 as u128 - s1 as u128, w0));
                        self.bin(BinOp::Or, w0, &a, &b)
                    });
                }
                let r = if let Val::A(_) = args[0] { Val::A(Rc::new(out)) } else { out.pop().unwrap() };
                self.ret(st, c, r)
            }
            FnKind::Abs => {
                let z = self.mk(0, w0);
                let n = self.icmp(Pred::Slt, w0, &args[0], &z);
                let neg = self.bin(BinOp::Sub, w0, &z, &args[0]);
                let r = self.sel(&n, &neg, &args[0], w0);
                self.ret(st, c, r)
            }
            FnKind::UCmp | FnKind::SCmp => {
                let rw = match c.ret {
                    T::I(w) => w,
                    _ => return self.unsupported(st, "vector cmp"),
                };
                let (lt, gt) = if kind == FnKind::UCmp { (Pred::Ult, Pred::Ugt) } else { (Pred::Slt, Pred::Sgt) };
                let l = self.icmp(lt, w0, &args[0], &args[1]);
                let g = self.icmp(gt, w0, &args[0], &args[1]);
                let g1 = self.sel(&g, &self.mk(1, rw), &self.mk(0, rw), rw);
                let r = self.sel(&l, &self.mk(u128::MAX, rw), &g1, rw);
                self.ret(st, c, r)
            }
            FnKind::First => self.ret(st, c, args[0].clone()),
            FnKind::IsConstant => self.ret(st, c, Val::C(0)),
            FnKind::LoadRelative => {
                let p = self.conc(st, &args[0])?;
                let o = self.conc(st, &args[1])?;
                let v = self.load(st, T::I(32), &Val::C(p.wrapping_add(o)))?;
                let v = self.conc(st, &v)?;
                let d = if v >> 30 == 1 { self.m.rel.borrow()[(v & 0x3fff_ffff) as usize] } else { v as i32 as i64 as u64 };
                self.ret(st, c, Val::C(p.wrapping_add(d)))
            }
            FnKind::Getrandom => {
                // syscall(SYS_getrandom, buf, len, flags) or getrandom(buf, len, flags): zero bytes
                let (p, n) = if args.len() >= 4 { (&args[1], &args[2]) } else { (&args[0], &args[1]) };
                let p = self.conc(st, p)?;
                let n = self.conc(st, n)?;
                for i in 0..n {
                    self.store_bytes(st, p + i, 1, &Val::C(0))?;
                }
                self.ret(st, c, Val::C(n))
            }
            FnKind::Dlsym => {
                // only used for getrandom; `Getrandom` understands both signatures
                let f = self.kinds.iter().position(|k| *k == FnKind::Getrandom);
                self.ret(st, c, Val::C(f.map_or(0, |f| fn_addr(f as u32))))
            }
            FnKind::Cpuid => self.ret(st, c, Val::A(Rc::new(vec![Val::C(0); 4]))),
            FnKind::Zero => self.ret(st, c, Val::C(0)),
            FnKind::HashOne => self.ret(st, c, Val::C(0)),
            FnKind::RandomKeys => self.ret(st, c, Val::A(Rc::new(vec![Val::C(1), Val::C(2)]))),
            FnKind::VReduceOr | FnKind::VReduceAnd | FnKind::VReduceAdd => {
                let op = match kind {
                    FnKind::VReduceOr => BinOp::Or,
                    FnKind::VReduceAnd => BinOp::And,
                    _ => BinOp::Add,
                };
                let r = match &args[0] {
                    Val::A(l) => {
                        let mut r = l[0].clone();
                        for x in &l[1..] {
                            r = self.bin(op, w0, &r, x);
                        }
                        r
                    }
                    _ => panic!(),
                };
                self.ret(st, c, r)
            }
        }
    }

    fn sel(&mut self, c: &Val, a: &Val, b: &Val, w: u16) -> Val {
        match c {
            Val::C(0) => b.clone(),
            Val::C(_) => a.clone(),
            Val::S(e) => {
                let (x, y) = (self.ex(a, w), self.ex(b, w));
                let r = self.x.ite(*e, x, y);
                self.val(r)
            }
            _ => panic!(),
        }
    }

    fn lanes2(&mut self, c: &CallInst, args: &[Val], _w: u16, mut f: impl FnMut(&mut Self, &Val, &Val) -> Val) -> Val {
        if let T::V(..) = c.args[0].0 {
            if let (Val::A(a), Val::A(b)) = (&args[0], &args[1]) {
                let l = a.iter().zip(b.iter()).map(|(x, y)| f(self, x, y)).collect();
                return Val::A(Rc::new(l));
            }
        }
        f(self, &args[0], &args[1])
    }
}

fn looks_like_ptr(v: &Val) -> bool {
    matches!(v, Val::C(c) if *c >= 1 << 32 && *c < FN_BASE << 1 && *c != u64::MAX)
}

fn insert(base: &Val, path: &[u32], x: Val) -> Val {
    match base {
        Val::A(l) => {
            let mut v = (**l).clone();
            let i = path[0] as usize;
            v[i] = if path.len() == 1 { x } else { insert(&v[i], &path[1..], x) };
            Val::A(Rc::new(v))
        }
        _ => panic!("insertvalue"),
    }
}

fn pick(b: &Bits) -> u64 {
    // prefer printable values: nicer counterexamples
    for k in 0x21..0x7f {
        if b[(k >> 6) as usize] >> (k & 63) & 1 == 1 {
            return k as u64;
        }
    }
    for i in 0..4 {
        if b[i] != 0 {
            return (i as u64) * 64 + b[i].trailing_zeros() as u64;
        }
    }
    unreachable!()
}

fn xop(op: BinOp) -> Op {
    match op {
        BinOp::Add => Op::Add,
        BinOp::Sub => Op::Sub,
        BinOp::Mul => Op::Mul,
        BinOp::UDiv => Op::UDiv,
        BinOp::SDiv => Op::SDiv,
        BinOp::URem => Op::URem,
        BinOp::SRem => Op::SRem,
        BinOp::Shl => Op::Shl,
        BinOp::LShr => Op::LShr,
        BinOp::AShr => Op::AShr,
        BinOp::And => Op::And,
        BinOp::Or => Op::Or,
        BinOp::Xor => Op::Xor,
    }
}

/// Library functions with processor-specific implementations, replaced by portable
/// equivalents that the harness crate provides.
const STUBS: &[(&[&str], &str)] = &[(&["memchr_raw", "detect"], "sym_stub_memchr_raw"), (&["5slice6memchr", "memchr_aligned"], "sym_stub_memchr")];

fn classify(f: &FuncDecl) -> FnKind {
    let n = f.name.as_str();
    match n {
        "sym_u8" => return FnKind::SymVar(8),
        "sym_u16" => return FnKind::SymVar(16),
        "sym_u32" => return FnKind::SymVar(32),
        "sym_u64" => return FnKind::SymVar(64),
        "sym_choice" => return FnKind::SymChoice,
        "sym_case" => return FnKind::SymCase,
        "sym_assume" => return FnKind::SymAssume,
        "sym_check" => return FnKind::SymCheck,
        "sym_reach" => return FnKind::SymReach,
        "sym_observe" => return FnKind::SymObserve,
        "sym_note" => return FnKind::Nop,
        "sym_arm" => return FnKind::SymArm,
        "sym_disarm" => return FnKind::SymDisarm,
        "sym_swap_thread" => return FnKind::SymSwap,
        "sym_scale" => return FnKind::SymScale,
        "malloc" => return FnKind::Malloc,
        "calloc" => return FnKind::Calloc,
        "realloc" => return FnKind::Realloc,
        "free" => return FnKind::Free,
        "posix_memalign" => return FnKind::Memalign,
        "memcmp" => return FnKind::Memcmp,
        "bcmp" => return FnKind::Bcmp,
        "strlen" => return FnKind::Strlen,
        "abort" | "llvm.trap" => return FnKind::Abort,
        "memcpy" | "memmove" => return FnKind::Memcpy,
        "memset" => return FnKind::Memset,
        "getrandom" | "syscall" => return FnKind::Getrandom,
        "sym_cpuid" => return FnKind::Cpuid,
        "dlsym" => return FnKind::Dlsym,
        "__cxa_thread_atexit_impl" => return FnKind::Zero,
        "llvm.assume" => return FnKind::Assume,
        _ => {}
    }
    if let Some(r) = n.strip_prefix("llvm.") {
        let has = |p: &str| r.starts_with(p);
        return if has("memcpy.") || has("memmove.") || has("memcpy.inline") {
            FnKind::Memcpy
        } else if has("memset.") {
            FnKind::Memset
        } else if has("lifetime.")
            || has("experimental.noalias")
            || has("dbg.")
            || has("x86.sse2.pause")
            || has("donothing")
            || has("prefetch")
            || has("fake.use")
        {
            FnKind::Nop
        } else if has("umax.") {
            FnKind::UMax
        } else if has("umin.") {
            FnKind::UMin
        } else if has("smax.") {
            FnKind::SMax
        } else if has("smin.") {
            FnKind::SMin
        } else if has("uadd.sat.") {
            FnKind::UAddSat
        } else if has("usub.sat.") {
            FnKind::USubSat
        } else if has("sadd.sat.") {
            FnKind::SAddSat
        } else if has("ssub.sat.") {
            FnKind::SSubSat
        } else if has("uadd.with") {
            FnKind::UAddO
        } else if has("usub.with") {
            FnKind::USubO
        } else if has("umul.with") {
            FnKind::UMulO
        } else if has("sadd.with") {
            FnKind::SAddO
        } else if has("ssub.with") {
            FnKind::SSubO
        } else if has("smul.with") {
            FnKind::SMulO
        } else if has("ctpop.") {
            FnKind::Ctpop
        } else if has("ctlz.") {
            FnKind::Ctlz
        } else if has("cttz.") {
            FnKind::Cttz
        } else if has("bswap.") {
            FnKind::Bswap
        } else if has("bitreverse.") {
            FnKind::BitReverse
        } else if has("fshl.") {
            FnKind::Fshl
        } else if has("fshr.") {
            FnKind::Fshr
        } else if has("abs.") {
            FnKind::Abs
        } else if has("ucmp.") {
            FnKind::UCmp
        } else if has("scmp.") {
            FnKind::SCmp
        } else if has("expect") || has("threadlocal.address") || has("launder") || has("strip.invariant") || has("ssa.copy") {
            FnKind::First
        } else if has("is.constant") {
            FnKind::IsConstant
        } else if has("load.relative") {
            FnKind::LoadRelative
        } else if has("vector.reduce.or") {
            FnKind::VReduceOr
        } else if has("vector.reduce.and") {
            FnKind::VReduceAnd
        } else if has("vector.reduce.add") {
            FnKind::VReduceAdd
        } else {
            FnKind::Unknown
        };
    }
    // entry points of the panic machinery (panic=abort: nothing returns from them)
    for p in [
        "9panicking9panic_fmt",
        "9panicking18panic_nounwind_fmt",
        "9panicking14panic_nounwind",
        "9panicking19panic_cannot_unwind",
        "rust_begin_unwind",
        "begin_panic_handler",
        "rust_panic_with_hook",
        "5alloc18handle_alloc_error",
        "9panicking16panic_in_cleanup",
    ] {
        if n.contains(p) {
            return FnKind::Panic;
        }
    }
    if n.contains("8hash_one") {
        return FnKind::HashOne;
    }
    if n.contains("19hashmap_random_keys") {
        return FnKind::RandomKeys;
    }
    if f.body.is_some() {
        FnKind::Body
    } else {
        FnKind::Unknown
    }
}
