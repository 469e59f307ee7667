//! Translation of path conditions to Z3 (C API) and queries.

use crate::expr::{Bits, Exprs, Op, E};
use std::collections::HashMap;
use std::ffi::CString;
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;

#[allow(non_snake_case)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
    fn Z3_get_error_msg(c: P, e: c_int) -> *const c_char;
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, out: *mut u64) -> bool;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

extern "C" fn on_error(c: P, e: c_int) {
    unsafe {
        let m = std::ffi::CStr::from_ptr(Z3_get_error_msg(c, e));
        eprintln!("z3 error: {:?}", m);
    }
    std::process::exit(70);
}

pub enum Answer {
    Unsat,
    Sat(Vec<(u32, u64)>),
    Unknown,
}

pub struct Z3 {
    ctx: P,
    solver: P,
    cache: HashMap<E, P>,
    bool_cache: HashMap<E, P>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max_time: f64,
    pub dump: Option<String>,
}

impl Z3 {
    pub fn reset_stats(&mut self) {
        self.queries = 0;
        self.sat = 0;
        self.unsat = 0;
        self.unknown = 0;
        self.time = 0.0;
        self.max_time = 0.0;
    }

    pub fn new(timeout_ms: u32) -> Z3 {
        unsafe {
            let cfg = Z3_mk_config();
            let k = CString::new("model").unwrap();
            let v = CString::new("true").unwrap();
            Z3_set_param_value(cfg, k.as_ptr(), v.as_ptr());
            // Plain (non reference counted) context: terms live as long as it does.
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, Some(on_error));
            let logic = CString::new("QF_BV").unwrap();
            let ls = Z3_mk_string_symbol(ctx, logic.as_ptr());
            let solver = Z3_mk_solver_for_logic(ctx, ls);
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let t = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, t.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, solver, p);
            Z3 {
                ctx,
                solver,
                cache: HashMap::new(),
                bool_cache: HashMap::new(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max_time: 0.0,
                dump: None,
            }
        }
    }

    fn num(&self, v: u128, w: u16) -> P {
        unsafe {
            let s = Z3_mk_bv_sort(self.ctx, w as c_uint);
            if v <= u64::MAX as u128 {
                Z3_mk_unsigned_int64(self.ctx, v as u64, s)
            } else {
                let t = CString::new(v.to_string()).unwrap();
                Z3_mk_numeral(self.ctx, t.as_ptr(), s)
            }
        }
    }

    /// boolean-sorted term for a 1-bit expression
    fn boolean(&mut self, x: &Exprs, e: E) -> P {
        if let Some(p) = self.bool_cache.get(&e) {
            return *p;
        }
        let n = x.n(e);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Not => {
                    let a = self.boolean(x, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And | Op::Or => {
                    let v = [self.boolean(x, n.a), self.boolean(x, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Eq => {
                    let (a, b) = (self.bv(x, n.a), self.bv(x, n.b));
                    Z3_mk_eq(c, a, b)
                }
                Op::Ult => {
                    let (a, b) = (self.bv(x, n.a), self.bv(x, n.b));
                    Z3_mk_bvult(c, a, b)
                }
                Op::Ule => {
                    let (a, b) = (self.bv(x, n.a), self.bv(x, n.b));
                    Z3_mk_bvule(c, a, b)
                }
                Op::Slt => {
                    let (a, b) = (self.bv(x, n.a), self.bv(x, n.b));
                    Z3_mk_bvslt(c, a, b)
                }
                Op::Sle => {
                    let (a, b) = (self.bv(x, n.a), self.bv(x, n.b));
                    Z3_mk_bvsle(c, a, b)
                }
                Op::Ite => {
                    let (a, b, d) = (self.boolean(x, n.a), self.boolean(x, n.b), self.boolean(x, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let a = self.bv(x, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
            }
        };
        self.bool_cache.insert(e, r);
        r
    }

    fn bv(&mut self, x: &Exprs, e: E) -> P {
        if let Some(p) = self.cache.get(&e) {
            return *p;
        }
        let n = x.n(e);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(x.cval(e).expect("wide"), n.w),
                Op::Var => {
                    let s = CString::new(format!("v{}", n.a)).unwrap();
                    Z3_mk_const(c, Z3_mk_string_symbol(c, s.as_ptr()), Z3_mk_bv_sort(c, n.w as c_uint))
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.boolean(x, e);
                    Z3_mk_ite(c, b, self.num(1, 1), self.num(0, 1))
                }
                Op::Not => {
                    let a = self.bv(x, n.a);
                    Z3_mk_bvnot(c, a)
                }
                Op::Ite => {
                    let (a, b, d) = (self.boolean(x, n.a), self.bv(x, n.b), self.bv(x, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Extract => {
                    let a = self.bv(x, n.a);
                    Z3_mk_extract(c, (n.k as u32) + n.w as u32 - 1, n.k as u32, a)
                }
                Op::SExt => {
                    let iw = x.w(n.a);
                    let a = self.bv(x, n.a);
                    Z3_mk_sign_ext(c, (n.w - iw) as u32, a)
                }
                Op::Lut => {
                    let iw = x.w(n.a);
                    let a = self.bv(x, n.a);
                    let t = &x.luts[n.k as usize];
                    // group equal values
                    let mut groups: HashMap<u64, Vec<u64>> = HashMap::new();
                    for (i, v) in t.iter().enumerate() {
                        groups.entry(*v).or_default().push(i as u64);
                    }
                    let mut gs: Vec<_> = groups.into_iter().collect();
                    gs.sort_by_key(|g| (g.1.len(), g.0));
                    let last = gs.pop().unwrap();
                    let mut r = self.num(last.0 as u128, n.w);
                    for (v, ix) in gs {
                        let mut alts: Vec<P> = vec![];
                        let mut i = 0;
                        while i < ix.len() {
                            let mut j = i;
                            while j + 1 < ix.len() && ix[j + 1] == ix[j] + 1 {
                                j += 1;
                            }
                            if i == j {
                                alts.push(Z3_mk_eq(c, a, self.num(ix[i] as u128, iw)));
                            } else {
                                let p = [
                                    Z3_mk_bvule(c, self.num(ix[i] as u128, iw), a),
                                    Z3_mk_bvule(c, a, self.num(ix[j] as u128, iw)),
                                ];
                                alts.push(Z3_mk_and(c, 2, p.as_ptr()));
                            }
                            i = j + 1;
                        }
                        let cond = if alts.len() == 1 { alts[0] } else { Z3_mk_or(c, alts.len() as u32, alts.as_ptr()) };
                        r = Z3_mk_ite(c, cond, self.num(v as u128, n.w), r);
                    }
                    r
                }
                Op::Ctpop => {
                    let a = self.bv(x, n.a);
                    let mut r = self.num(0, n.w);
                    for i in 0..n.w as u32 {
                        let bit = Z3_mk_extract(c, i, i, a);
                        let z = if n.w > 1 { Z3_mk_concat(c, self.num(0, n.w - 1), bit) } else { bit };
                        r = Z3_mk_bvadd(c, r, z);
                    }
                    r
                }
                Op::Ctlz | Op::Cttz => {
                    let a = self.bv(x, n.a);
                    let mut r = self.num(n.w as u128, n.w);
                    for i in 0..n.w as u32 {
                        // Ctlz: highest set bit wins -> iterate from low to high
                        let bitpos = if n.op == Op::Ctlz { i } else { n.w as u32 - 1 - i };
                        let bit = Z3_mk_extract(c, bitpos, bitpos, a);
                        let val = if n.op == Op::Ctlz { n.w as u32 - 1 - bitpos } else { bitpos };
                        r = Z3_mk_ite(c, Z3_mk_eq(c, bit, self.num(1, 1)), self.num(val as u128, n.w), r);
                    }
                    r
                }
                _ => {
                    let (a, b) = (self.bv(x, n.a), self.bv(x, n.b));
                    match n.op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!("{:?}", n.op),
                    }
                }
            }
        };
        self.cache.insert(e, r);
        r
    }

    /// Is the conjunction of `cons` and the domain constraints satisfiable?
    pub fn check(&mut self, x: &mut Exprs, cons: &[E], doms: &[(u32, Bits)], vars: &[u32]) -> Answer {
        let t0 = Instant::now();
        self.queries += 1;
        let c = self.ctx;
        unsafe {
            Z3_solver_reset(c, self.solver);
            for e in cons {
                let b = self.boolean(x, *e);
                Z3_solver_assert(c, self.solver, b);
            }
            for (v, d) in doms {
                let w = x.var_w[*v as usize];
                if *d == crate::expr::full_dom(w) {
                    continue;
                }
                let ve = x.var(*v, w);
                let p = self.bv(x, ve);
                let mut alts: Vec<P> = vec![];
                let n = 1u32 << w;
                let has = |k: u32| d[(k >> 6) as usize] >> (k & 63) & 1 == 1;
                let mut i = 0;
                while i < n {
                    if !has(i) {
                        i += 1;
                        continue;
                    }
                    let mut j = i;
                    while j + 1 < n && has(j + 1) {
                        j += 1;
                    }
                    if i == j {
                        alts.push(Z3_mk_eq(c, p, self.num(i as u128, w)));
                    } else {
                        let q = [
                            Z3_mk_bvule(c, self.num(i as u128, w), p),
                            Z3_mk_bvule(c, p, self.num(j as u128, w)),
                        ];
                        alts.push(Z3_mk_and(c, 2, q.as_ptr()));
                    }
                    i = j + 1;
                }
                let b = Z3_mk_or(c, alts.len() as u32, alts.as_ptr());
                Z3_solver_assert(c, self.solver, b);
            }
            let r = Z3_solver_check(c, self.solver);
            let ans = match r {
                -1 => {
                    self.unsat += 1;
                    Answer::Unsat
                }
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(c, self.solver);
                    Z3_model_inc_ref(c, m);
                    let mut out = vec![];
                    for v in vars {
                        let w = x.var_w[*v as usize];
                        let ve = x.var(*v, w);
                        let p = self.bv(x, ve);
                        let mut res: P = std::ptr::null_mut();
                        let mut val = 0u64;
                        if !Z3_model_eval(c, m, p, true, &mut res) || !Z3_get_numeral_uint64(c, res, &mut val) {
                            eprintln!("z3: no value for variable {}", v);
                            std::process::exit(70);
                        }
                        out.push((*v, val));
                    }
                    Z3_model_dec_ref(c, m);
                    Answer::Sat(out)
                }
                _ => {
                    self.unknown += 1;
                    if std::env::var("SYMEX_DUMP_UNKNOWN").is_ok() {
                        let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.solver));
                        eprintln!("unknown:\n{}", s.to_string_lossy());
                    }
                    Answer::Unknown
                }
            };
            let dt = t0.elapsed().as_secs_f64();
            if let Ok(t) = std::env::var("SYMEX_DUMP_SLOW") {
                if dt > t.parse::<f64>().unwrap_or(5.0) {
                    let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(c, self.solver));
                    eprintln!("slow {} {}:\n{}", dt, r, s.to_string_lossy());
                }
            }
            self.time += dt;
            if dt > self.max_time {
                self.max_time = dt;
            }
            ans
        }
    }
}
