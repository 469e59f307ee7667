//! Parser for textual LLVM IR (the subset rustc/LLVM emit).  Function bodies are
//! parsed lazily, the first time the interpreter enters them.

use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Val {
    /// concrete, at most 64 bits
    C(u64),
    /// symbolic
    S(crate::expr::E),
    /// concrete, 65..=128 bits
    W(Box<u128>),
    /// aggregate or vector
    A(Rc<Vec<Val>>),
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, u32),
    Struct(Vec<u32>, bool),
    Vec(u32, u32),
    Other,
}

/// Compact type used by instructions.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum T {
    Void,
    I(u16),
    /// vector: lanes, lane width
    V(u16, u16),
    /// aggregate
    A(u32),
    F(u16),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(Val),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum CastOp {
    ZExt,
    SExt,
    Trunc,
    BitCast,
    Copy,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Direct(u32),
    Indirect(Opd),
}

#[derive(Clone, Debug)]
pub struct CallInst {
    pub dst: Option<u32>,
    pub ret: T,
    pub callee: Callee,
    pub args: Vec<(T, Opd)>,
    /// `invoke`: normal destination
    pub normal: Option<u32>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Alloca { dst: u32, size: u64, count: Option<Opd> },
    Load { dst: u32, t: T, ptr: Opd },
    Store { t: T, val: Opd, ptr: Opd },
    Gep { dst: u32, base: Opd, off: i64, idx: Vec<(Opd, u16, u64)> },
    Bin { dst: u32, op: BinOp, t: T, a: Opd, b: Opd },
    Icmp { dst: u32, p: Pred, t: T, a: Opd, b: Opd },
    Cast { dst: u32, op: CastOp, from: T, to: T, a: Opd },
    Select { dst: u32, ct: T, c: Opd, t: T, ptr: bool, a: Opd, b: Opd },
    ExtractValue { dst: u32, a: Opd, path: Vec<u32> },
    InsertValue { dst: u32, a: Opd, v: Opd, path: Vec<u32> },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    InsertElem { dst: u32, a: Opd, v: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, mask: Vec<u32> },
    AtomicRmw { dst: u32, op: String, t: T, ptr: Opd, v: Opd },
    CmpXchg { dst: u32, t: T, ptr: Opd, cmp: Opd, new: Opd },
    Call(Box<CallInst>),
    Br(u32),
    CondBr { c: Opd, a: u32, b: u32 },
    Switch { w: u16, v: Opd, def: u32, cases: Vec<(u128, u32)> },
    Ret(Option<Opd>),
    Nop,
    Unreachable,
    Unsupported(String),
}

#[derive(Debug, Default)]
pub struct Block {
    /// (dst, incoming (pred block, value))
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub phi_t: Vec<T>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub nparams: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
}

pub struct FuncDecl {
    pub name: String,
    pub sig: (usize, usize),
    pub body: Option<(usize, usize)>,
    pub parsed: RefCell<Option<Rc<Func>>>,
}

pub struct Global {
    pub name: String,
    pub constant: bool,
    pub external: bool,
    pub ty: u32,
    pub init: (usize, usize),
    pub addr: u64,
    pub size: u64,
    pub thread_local: bool,
}

pub struct Module {
    pub text: String,
    pub types: RefCell<(Vec<Ty>, HashMap<Ty, u32>)>,
    pub named: HashMap<String, (usize, usize)>,
    named_cache: RefCell<HashMap<String, u32>>,
    pub globals: Vec<Global>,
    pub gmap: HashMap<String, u32>,
    pub funcs: Vec<FuncDecl>,
    pub fmap: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    pub rel: RefCell<Vec<u64>>,
}

pub const FN_BASE: u64 = 0x4000_0000_0000_0000;

pub fn fn_addr(i: u32) -> u64 {
    FN_BASE | ((i as u64) << 8)
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Str(&'a str),
    CStr(&'a str),
    Meta(&'a str),
    P(u8),
    End,
}

pub struct Lex<'a> {
    s: &'a str,
    b: &'a [u8],
    pub pos: usize,
    end: usize,
    peeked: Option<(Tok<'a>, usize)>,
}

fn is_ident(c: u8) -> bool {
    c.is_ascii_alphanumeric() || matches!(c, b'_' | b'.' | b'$' | b'-' | b'+')
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a str, start: usize, end: usize) -> Self {
        Lex { s, b: s.as_bytes(), pos: start, end, peeked: None }
    }
    fn quoted(&mut self) -> &'a str {
        // self.pos at opening quote
        let st = self.pos + 1;
        let mut p = st;
        while self.b[p] != b'"' {
            p += 1;
        }
        self.pos = p + 1;
        &self.s[st..p]
    }
    fn raw(&mut self) -> Tok<'a> {
        loop {
            if self.pos >= self.end {
                return Tok::End;
            }
            let c = self.b[self.pos];
            if c == b' ' || c == b'\n' || c == b'\t' || c == b'\r' {
                self.pos += 1;
            } else if c == b';' {
                while self.pos < self.end && self.b[self.pos] != b'\n' {
                    self.pos += 1;
                }
            } else {
                break;
            }
        }
        let c = self.b[self.pos];
        match c {
            b'%' | b'@' | b'!' | b'#' => {
                self.pos += 1;
                if self.pos < self.end && self.b[self.pos] == b'"' && c != b'#' {
                    let q = self.quoted();
                    return match c {
                        b'%' => Tok::Local(q),
                        b'@' => Tok::Global(q),
                        _ => Tok::Meta(q),
                    };
                }
                let st = self.pos;
                while self.pos < self.end && is_ident(self.b[self.pos]) {
                    self.pos += 1;
                }
                let t = &self.s[st..self.pos];
                match c {
                    b'%' => Tok::Local(t),
                    b'@' => Tok::Global(t),
                    b'!' => Tok::Meta(t),
                    _ => Tok::Word(&self.s[st - 1..self.pos]),
                }
            }
            b'"' => Tok::Str(self.quoted()),
            b'c' if self.pos + 1 < self.end && self.b[self.pos + 1] == b'"' => {
                self.pos += 1;
                Tok::CStr(self.quoted())
            }
            _ if is_ident(c) => {
                let st = self.pos;
                while self.pos < self.end && is_ident(self.b[self.pos]) {
                    self.pos += 1;
                }
                Tok::Word(&self.s[st..self.pos])
            }
            _ => {
                self.pos += 1;
                Tok::P(c)
            }
        }
    }
    pub fn next(&mut self) -> Tok<'a> {
        if let Some((t, p)) = self.peeked.take() {
            self.pos = p;
            return t;
        }
        self.raw()
    }
    pub fn peek(&mut self) -> Tok<'a> {
        if let Some((t, _)) = self.peeked {
            return t;
        }
        let save = self.pos;
        let t = self.raw();
        let after = self.pos;
        self.pos = save;
        self.peeked = Some((t, after));
        t
    }
    fn eat_p(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    fn eat_w(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect_p(&mut self, c: u8) {
        let t = self.next();
        if t != Tok::P(c) {
            panic!("IR parse: expected {:?}, got {:?} near {:?}", c as char, t, self.ctx());
        }
    }
    fn ctx(&self) -> &'a str {
        let lo = self.pos.saturating_sub(160);
        let hi = (self.pos + 80).min(self.end);
        let mut lo = lo;
        while !self.s.is_char_boundary(lo) {
            lo += 1;
        }
        let mut hi = hi;
        while !self.s.is_char_boundary(hi) {
            hi -= 1;
        }
        &self.s[lo..hi]
    }
    fn skip_balanced(&mut self) {
        // next token is an opening paren
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P(b'(') => d += 1,
                Tok::P(b')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                Tok::End => panic!("unbalanced"),
                _ => {}
            }
        }
    }
}

/// decode `c"..."` contents
fn cstr_bytes(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let mut out = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                out.push(u8::from_str_radix(&s[i + 1..i + 3], 16).unwrap());
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    out
}

impl Module {
    pub fn ty(&self, t: Ty) -> u32 {
        let mut g = self.types.borrow_mut();
        if let Some(i) = g.1.get(&t) {
            return *i;
        }
        let i = g.0.len() as u32;
        g.0.push(t.clone());
        g.1.insert(t, i);
        i
    }
    pub fn tget(&self, i: u32) -> Ty {
        self.types.borrow().0[i as usize].clone()
    }
    pub fn align(&self, i: u32) -> u64 {
        match self.tget(i) {
            Ty::Int(w) => {
                if w <= 8 {
                    1
                } else if w <= 16 {
                    2
                } else if w <= 32 {
                    4
                } else if w <= 64 {
                    8
                } else {
                    16
                }
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (w as u64) / 8,
            Ty::Arr(_, e) => self.align(e),
            Ty::Struct(f, packed) => {
                if packed {
                    1
                } else {
                    f.iter().map(|t| self.align(*t)).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, e) => (n as u64 * self.size(e)).next_power_of_two(),
            _ => 1,
        }
    }
    /// allocation size in bytes
    pub fn size(&self, i: u32) -> u64 {
        match self.tget(i) {
            Ty::Int(w) => {
                let s = (w as u64 + 7) / 8;
                let a = self.align(i);
                (s + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => (w as u64) / 8,
            Ty::Arr(n, e) => n * self.size(e),
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for t in &f {
                    if !packed {
                        let a = self.align(*t);
                        o = (o + a - 1) / a * a;
                    }
                    o += self.size(*t);
                }
                let a = self.align(i);
                (o + a - 1) / a * a
            }
            Ty::Vec(n, e) => {
                let w = match self.tget(e) {
                    Ty::Int(w) => w as u64,
                    _ => self.size(e) * 8,
                };
                let s = (n as u64 * w + 7) / 8;
                s.next_power_of_two()
            }
            Ty::Void | Ty::Other => 0,
        }
    }
    pub fn field_offset(&self, i: u32, k: usize) -> (u64, u32) {
        match self.tget(i) {
            Ty::Struct(f, packed) => {
                let mut o = 0u64;
                for (j, t) in f.iter().enumerate() {
                    if !packed {
                        let a = self.align(*t);
                        o = (o + a - 1) / a * a;
                    }
                    if j == k {
                        return (o, *t);
                    }
                    o += self.size(*t);
                }
                panic!("field index")
            }
            Ty::Arr(_, e) => (self.size(e) * k as u64, e),
            Ty::Vec(_, e) => (self.size(e) * k as u64, e),
            t => panic!("field of {:?}", t),
        }
    }
    pub fn t(&self, i: u32) -> T {
        match self.tget(i) {
            Ty::Void | Ty::Other => T::Void,
            Ty::Int(w) => T::I(w as u16),
            Ty::Ptr => T::I(64),
            Ty::Float(w) => T::F(w as u16),
            Ty::Vec(n, e) => T::V(
                n as u16,
                match self.tget(e) {
                    Ty::Int(w) => w as u16,
                    Ty::Ptr => 64,
                    Ty::Float(w) => w as u16,
                    t => panic!("vector of {:?}", t),
                },
            ),
            _ => T::A(i),
        }
    }

    // ---- parsing ----

    pub fn parse(text: String) -> Module {
        let mut m = Module {
            text,
            types: RefCell::new((vec![], HashMap::new())),
            named: HashMap::new(),
            named_cache: RefCell::new(HashMap::new()),
            globals: vec![],
            gmap: HashMap::new(),
            funcs: vec![],
            fmap: HashMap::new(),
            aliases: HashMap::new(),
            rel: RefCell::new(vec![]),
        };
        let text = std::mem::take(&mut m.text);
        let b = text.as_bytes();
        let mut pos = 0usize;
        let mut gl: Vec<(usize, usize)> = vec![];
        m.fmap.insert("sym_cpuid".into(), 0);
        m.funcs.push(FuncDecl { name: "sym_cpuid".into(), sig: (0, 0), body: None, parsed: RefCell::new(None) });
        while pos < b.len() {
            let eol = memchr(b, pos, b'\n');
            let line = &text[pos..eol];
            if line.starts_with("define ") {
                // the signature may contain '{' in types; the body starts after the line's trailing '{'
                let end = find(b, eol, b"\n}\n").unwrap_or(b.len());
                let name = func_name(line);
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, sig: (pos, eol), body: Some((eol + 1, end + 1)), parsed: RefCell::new(None) });
                pos = end + 3;
                continue;
            } else if line.starts_with("declare ") {
                let name = func_name(line);
                let id = m.funcs.len() as u32;
                m.fmap.insert(name.clone(), id);
                m.funcs.push(FuncDecl { name, sig: (pos, eol), body: None, parsed: RefCell::new(None) });
            } else if line.starts_with('@') {
                gl.push((pos, eol));
            } else if line.starts_with('%') {
                if let Some(i) = line.find(" = type ") {
                    let n = line[1..i].trim_matches('"').to_string();
                    m.named.insert(n, (pos + i + 8, eol));
                }
            }
            pos = eol + 1;
        }
        m.text = text;
        let mut globals = vec![];
        let mut aliases = HashMap::new();
        for (s, e) in gl {
            let mut lx = Lex::new(&m.text, s, e);
            let name = match lx.next() {
                Tok::Global(n) => n.to_string(),
                t => panic!("{:?}", t),
            };
            lx.expect_p(b'=');
            let mut external = false;
            let mut alias = false;
            let mut thread_local = false;
            let constant;
            loop {
                match lx.next() {
                    Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                    Tok::Word("constant") => {
                        constant = true;
                        break;
                    }
                    Tok::Word("global") => {
                        constant = false;
                        break;
                    }
                    Tok::Word("alias") | Tok::Word("ifunc") => {
                        alias = true;
                        constant = false;
                        break;
                    }
                    Tok::Word(w) => {
                        thread_local |= w == "thread_local";
                        if lx.peek() == Tok::P(b'(') {
                            lx.skip_balanced();
                        }
                    }
                    t => panic!("global {}: {:?}", name, t),
                }
            }
            let ty = m.parse_type(&mut lx);
            if alias {
                lx.expect_p(b',');
                m.parse_type(&mut lx);
                match lx.next() {
                    Tok::Global(t) => {
                        aliases.insert(name, t.to_string());
                    }
                    t => panic!("alias {:?}", t),
                }
                continue;
            }
            if lx.peek() == Tok::P(b',') || lx.peek() == Tok::End {
                external = true;
            }
            let size = m.size(ty);
            globals.push(Global { name, constant, external, ty, init: (lx.pos, e), addr: 0, size, thread_local });
        }
        m.globals = globals;
        m.aliases = aliases;
        for (i, g) in m.globals.iter().enumerate() {
            m.gmap.insert(g.name.clone(), i as u32);
        }
        m
    }

    pub fn parse_type(&self, lx: &mut Lex) -> u32 {
        let mut t = match lx.next() {
            Tok::Word(w) => match w {
                "void" => self.ty(Ty::Void),
                "ptr" => {
                    if lx.peek() == Tok::Word("addrspace") {
                        lx.next();
                        lx.skip_balanced();
                    }
                    self.ty(Ty::Ptr)
                }
                "float" => self.ty(Ty::Float(32)),
                "double" => self.ty(Ty::Float(64)),
                "half" | "bfloat" => self.ty(Ty::Float(16)),
                "fp128" | "x86_fp80" => self.ty(Ty::Float(128)),
                "label" | "metadata" | "token" | "opaque" | "..." => self.ty(Ty::Other),
                _ if w.starts_with('i') && w[1..].bytes().all(|c| c.is_ascii_digit()) => {
                    self.ty(Ty::Int(w[1..].parse().unwrap()))
                }
                _ => panic!("IR type {:?} near {:?}", w, lx.ctx()),
            },
            Tok::P(b'[') => {
                let n = self.num(lx) as u64;
                assert!(lx.eat_w("x"));
                let e = self.parse_type(lx);
                lx.expect_p(b']');
                self.ty(Ty::Arr(n, e))
            }
            Tok::P(b'{') => {
                let f = self.type_list(lx, b'}');
                self.ty(Ty::Struct(f, false))
            }
            Tok::P(b'<') => {
                if lx.peek() == Tok::P(b'{') {
                    lx.next();
                    let f = self.type_list(lx, b'}');
                    lx.expect_p(b'>');
                    self.ty(Ty::Struct(f, true))
                } else {
                    let n = self.num(lx) as u32;
                    assert!(lx.eat_w("x"));
                    let e = self.parse_type(lx);
                    lx.expect_p(b'>');
                    self.ty(Ty::Vec(n, e))
                }
            }
            Tok::Local(n) => {
                if let Some(i) = self.named_cache.borrow().get(n) {
                    return *i;
                }
                let (s, e) = self.named[n];
                let mut l2 = Lex::new(&self.text, s, e);
                let t = self.parse_type(&mut l2);
                self.named_cache.borrow_mut().insert(n.to_string(), t);
                t
            }
            t => panic!("IR type {:?} near {:?}", t, lx.ctx()),
        };
        // function type: ret (args)
        if lx.peek() == Tok::P(b'(') {
            lx.skip_balanced();
            let _ = &mut t;
        }
        t
    }
    fn type_list(&self, lx: &mut Lex, close: u8) -> Vec<u32> {
        let mut f = vec![];
        if lx.eat_p(close) {
            return f;
        }
        loop {
            f.push(self.parse_type(lx));
            if lx.eat_p(close) {
                return f;
            }
            lx.expect_p(b',');
        }
    }
    fn num(&self, lx: &mut Lex) -> i128 {
        match lx.next() {
            Tok::Word(w) => w.parse().unwrap_or_else(|_| panic!("number {:?}", w)),
            t => panic!("number {:?}", t),
        }
    }

    pub fn global_addr(&self, n: &str) -> u64 {
        let n = match self.aliases.get(n) {
            Some(t) => t.as_str(),
            None => n,
        };
        if let Some(g) = self.gmap.get(n) {
            return self.globals[*g as usize].addr;
        }
        if let Some(f) = self.fmap.get(n) {
            return fn_addr(*f);
        }
        panic!("unknown global @{}", n)
    }

    fn mkint(&self, v: u128, w: u32) -> Val {
        let v = v & crate::expr::mask(w as u16);
        if w <= 64 {
            Val::C(v as u64)
        } else {
            Val::W(Box::new(v))
        }
    }

    pub fn zero(&self, ty: u32) -> Val {
        match self.tget(ty) {
            Ty::Int(w) => self.mkint(0, w),
            Ty::Ptr | Ty::Float(_) | Ty::Void | Ty::Other => Val::C(0),
            Ty::Arr(n, e) => Val::A(Rc::new(vec![self.zero(e); n as usize])),
            Ty::Vec(n, e) => Val::A(Rc::new(vec![self.zero(e); n as usize])),
            Ty::Struct(f, _) => Val::A(Rc::new(f.iter().map(|t| self.zero(*t)).collect())),
        }
    }

    /// constant of a known type
    pub fn parse_const(&self, lx: &mut Lex, ty: u32) -> Val {
        let t = lx.next();
        match t {
            Tok::Word(w) => {
                match w {
                    "true" => return Val::C(1),
                    "false" => return Val::C(0),
                    "null" => return Val::C(0),
                    "none" | "undef" | "poison" | "zeroinitializer" => return self.zero(ty),
                    "splat" => {
                        lx.expect_p(b'(');
                        let et = self.parse_type(lx);
                        let v = self.parse_const(lx, et);
                        lx.expect_p(b')');
                        if let Ty::Vec(n, _) = self.tget(ty) {
                            return Val::A(Rc::new(vec![v; n as usize]));
                        }
                        panic!("splat")
                    }
                    "getelementptr" => {
                        while let Tok::Word(x) = lx.peek() {
                            lx.next();
                            let _ = x;
                            if lx.peek() == Tok::P(b'(') && matches!(x, "inrange") {
                                lx.skip_balanced();
                            }
                        }
                        lx.expect_p(b'(');
                        let st = self.parse_type(lx);
                        lx.expect_p(b',');
                        let pt = self.parse_type(lx);
                        let base = self.cu(self.parse_const(lx, pt));
                        let mut off = 0i64;
                        let mut cur = st;
                        let mut first = true;
                        while lx.eat_p(b',') {
                            let it = self.parse_type(lx);
                            let iw = match self.tget(it) {
                                Ty::Int(w) => w,
                                _ => 64,
                            };
                            let i = sext64(self.cu(self.parse_const(lx, it)), iw);
                            if first {
                                off += i * self.size(cur) as i64;
                                first = false;
                            } else {
                                let (o, t) = self.field_offset(cur, if let Ty::Struct(..) = self.tget(cur) { i as usize } else { 0 });
                                if let Ty::Struct(..) = self.tget(cur) {
                                    off += o as i64;
                                } else {
                                    off += i * self.size(t) as i64;
                                }
                                cur = t;
                            }
                        }
                        lx.expect_p(b')');
                        return Val::C(base.wrapping_add(off as u64));
                    }
                    "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "ptrtoaddr" | "addrspacecast" => {
                        lx.expect_p(b'(');
                        let ft = self.parse_type(lx);
                        let v = self.parse_const(lx, ft);
                        assert!(lx.eat_w("to"));
                        let tt = self.parse_type(lx);
                        lx.expect_p(b')');
                        let kw = w;
                        let w = match self.tget(tt) {
                            Ty::Int(w) => w,
                            _ => 64,
                        };
                        let x = self.cu(v);
                        if kw == "trunc" && w == 32 && x >> 32 != 0 {
                            // relative lookup table entry: objects are 2^32 apart here, so the
                            // 64-bit difference is kept aside and restored by llvm.load.relative
                            let mut r = self.rel.borrow_mut();
                            r.push(x);
                            return self.mkint(0x4000_0000 | (r.len() as u128 - 1), w);
                        }
                        return self.mkint(x as u128, w);
                    }
                    "sub" | "add" | "xor" | "mul" | "and" | "or" | "shl" => {
                        while lx.peek() != Tok::P(b'(') {
                            lx.next();
                        }
                        lx.expect_p(b'(');
                        let t1 = self.parse_type(lx);
                        let a = self.cu(self.parse_const(lx, t1));
                        lx.expect_p(b',');
                        let t2 = self.parse_type(lx);
                        let b = self.cu(self.parse_const(lx, t2));
                        lx.expect_p(b')');
                        let r = match w {
                            "sub" => a.wrapping_sub(b),
                            "add" => a.wrapping_add(b),
                            "xor" => a ^ b,
                            "mul" => a.wrapping_mul(b),
                            "and" => a & b,
                            "or" => a | b,
                            _ => a.wrapping_shl(b as u32),
                        };
                        let bits = match self.tget(ty) {
                            Ty::Int(w) => w,
                            _ => 64,
                        };
                        return self.mkint(r as u128, bits);
                    }
                    "dso_local_equivalent" | "no_cfi" => return self.parse_const(lx, ty),
                    _ => {}
                }
                match self.tget(ty) {
                    Ty::Int(bits) => {
                        let v: u128 = if let Some(h) = w.strip_prefix("-") {
                            (h.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
                        } else {
                            w.parse::<u128>().unwrap_or_else(|_| panic!("const {:?} near {}", w, lx.ctx()))
                        };
                        if bits > 128 && v != 0 {
                            return self.mkint(v, 128);
                        }
                        self.mkint(v, bits)
                    }
                    Ty::Float(_) => Val::C(0),
                    t => panic!("const {:?} of {:?} near {}", w, t, lx.ctx()),
                }
            }
            Tok::Global(n) => Val::C(self.global_addr(n)),
            Tok::CStr(s) => Val::A(Rc::new(cstr_bytes(s).into_iter().map(|b| Val::C(b as u64)).collect())),
            Tok::P(b'[') | Tok::P(b'{') => {
                let close = if t == Tok::P(b'[') { b']' } else { b'}' };
                Val::A(Rc::new(self.const_list(lx, close)))
            }
            Tok::P(b'<') => {
                if lx.eat_p(b'{') {
                    let v = self.const_list(lx, b'}');
                    lx.expect_p(b'>');
                    Val::A(Rc::new(v))
                } else {
                    Val::A(Rc::new(self.const_list(lx, b'>')))
                }
            }
            t => panic!("const {:?} near {}", t, lx.ctx()),
        }
    }
    fn const_list(&self, lx: &mut Lex, close: u8) -> Vec<Val> {
        let mut v = vec![];
        if lx.eat_p(close) {
            return v;
        }
        loop {
            let t = self.parse_type(lx);
            v.push(self.parse_const(lx, t));
            if lx.eat_p(close) {
                return v;
            }
            lx.expect_p(b',');
        }
    }
    fn cu(&self, v: Val) -> u64 {
        match v {
            Val::C(c) => c,
            Val::W(b) => *b as u64,
            v => panic!("constant expression {:?}", v),
        }
    }

    /// bytes of a constant value
    pub fn const_bytes(&self, v: &Val, ty: u32, out: &mut Vec<u8>) {
        let start = out.len();
        match (self.tget(ty), v) {
            (Ty::Struct(f, _), Val::A(vs)) => {
                for (i, (t, x)) in f.iter().zip(vs.iter()).enumerate() {
                    let (o, _) = self.field_offset(ty, i);
                    out.resize(start + o as usize, 0);
                    self.const_bytes(x, *t, out);
                }
            }
            (Ty::Arr(_, e), Val::A(vs)) | (Ty::Vec(_, e), Val::A(vs)) => {
                for x in vs.iter() {
                    self.const_bytes(x, e, out);
                }
            }
            (_, Val::C(c)) => {
                let n = self.size(ty) as usize;
                let b = (*c as u128).to_le_bytes();
                out.extend_from_slice(&b[..n.min(16)]);
            }
            (_, Val::W(c)) => {
                out.extend_from_slice(&c.to_le_bytes());
            }
            (t, v) => panic!("const bytes {:?} {:?}", t, v),
        }
        out.resize(start + self.size(ty) as usize, 0);
    }

    pub fn global_bytes(&self, g: &Global) -> Vec<u8> {
        if g.external {
            return vec![0; g.size as usize];
        }
        let mut lx = Lex::new(&self.text, g.init.0, g.init.1);
        let v = self.parse_const(&mut lx, g.ty);
        let mut out = Vec::with_capacity(g.size as usize);
        self.const_bytes(&v, g.ty, &mut out);
        out
    }

    pub fn func(&self, id: u32) -> Rc<Func> {
        let d = &self.funcs[id as usize];
        if let Some(f) = d.parsed.borrow().as_ref() {
            return f.clone();
        }
        let f = Rc::new(FnParser::new(self, id).run());
        *d.parsed.borrow_mut() = Some(f.clone());
        f
    }
}

fn sext64(v: u64, w: u32) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        ((v << (64 - w)) as i64) >> (64 - w)
    }
}

fn memchr(b: &[u8], mut p: usize, c: u8) -> usize {
    while p < b.len() && b[p] != c {
        p += 1;
    }
    p
}
fn find(b: &[u8], mut p: usize, pat: &[u8]) -> Option<usize> {
    while p + pat.len() <= b.len() {
        if &b[p..p + pat.len()] == pat {
            return Some(p);
        }
        p = memchr(b, p + 1, pat[0]);
    }
    None
}

fn func_name(line: &str) -> String {
    // first '@' outside of attribute strings; attributes before the name do not contain '@'
    let i = line.find('@').unwrap();
    let rest = &line[i + 1..];
    if let Some(r) = rest.strip_prefix('"') {
        return r[..r.find('"').unwrap()].to_string();
    }
    let e = rest.find('(').unwrap();
    rest[..e].to_string()
}

struct FnParser<'m> {
    m: &'m Module,
    id: u32,
    regs: HashMap<&'m str, u32>,
    blocks: HashMap<&'m str, u32>,
    reg_ty: HashMap<u32, u32>,
}

impl<'m> FnParser<'m> {
    fn new(m: &'m Module, id: u32) -> Self {
        FnParser { m, id, regs: HashMap::new(), blocks: HashMap::new(), reg_ty: HashMap::new() }
    }
    fn reg(&mut self, n: &'m str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn opd(&mut self, lx: &mut Lex<'m>, ty: u32) -> Opd {
        if let Tok::Local(n) = lx.peek() {
            lx.next();
            return Opd::R(self.reg(n));
        }
        Opd::K(self.m.parse_const(lx, ty))
    }
    fn typed(&mut self, lx: &mut Lex<'m>) -> (u32, Opd) {
        let t = self.m.parse_type(lx);
        let o = self.opd(lx, t);
        (t, o)
    }
    fn label(&mut self, lx: &mut Lex<'m>) -> u32 {
        assert!(lx.eat_w("label"), "label near {}", lx.ctx());
        match lx.next() {
            Tok::Local(n) => *self.blocks.get(n).unwrap_or_else(|| panic!("unknown block {}", n)),
            t => panic!("label {:?}", t),
        }
    }

    fn run(mut self) -> Func {
        let m = self.m;
        let d = &m.funcs[self.id as usize];
        // parameters
        let sig = &m.text[d.sig.0..d.sig.1];
        let at = sig.find('@').unwrap();
        let mut lx = Lex::new(&m.text, d.sig.0 + at, d.sig.1);
        lx.next(); // name
        lx.expect_p(b'(');
        let mut nparams = 0;
        let mut unnamed = 0u32;
        if !lx.eat_p(b')') {
            loop {
                if lx.eat_w("...") {
                    lx.expect_p(b')');
                    break;
                }
                let _t = m.parse_type(&mut lx);
                let mut name: Option<&'m str> = None;
                loop {
                    match lx.peek() {
                        Tok::P(b',') | Tok::P(b')') => break,
                        Tok::Local(n) => {
                            lx.next();
                            name = Some(n);
                        }
                        Tok::P(b'(') => lx.skip_balanced(),
                        Tok::Word("byval") => panic!("byval parameter"),
                        _ => {
                            lx.next();
                        }
                    }
                }
                let key = name.expect("unnamed parameter");
                let r = self.reg(key);
                assert_eq!(r, nparams);
                nparams += 1;
                if key.bytes().all(|c| c.is_ascii_digit()) {
                    unnamed += 1;
                }
                if lx.eat_p(b')') {
                    break;
                }
                lx.expect_p(b',');
            }
        }
        // first pass: block labels
        let (s, e) = d.body.expect("body");
        let body = &m.text[s..e];
        let mut nblk = 0u32;
        let mut off = s;
        let mut lines: Vec<(usize, usize)> = vec![];
        let mut first = true;
        let mut chunks: Vec<Vec<(usize, usize)>> = vec![];
        // the entry block may be unlabelled: its implicit name is the next number, never referenced by phis
        for l in body.split('\n') {
            let lstart = off;
            let lend = off + l.len();
            off = lend + 1;
            if l.is_empty() || l.trim_start().starts_with(';') || l == "}" {
                continue;
            }
            let c0 = l.as_bytes()[0];
            if c0 != b' ' && c0 != b'\t' && c0 != b']' {
                // label
                let name = if let Some(r) = l.strip_prefix('"') {
                    &r[..r.find('"').unwrap()]
                } else {
                    &l[..l.find(':').unwrap()]
                };
                let name: &'m str = unsafe { std::mem::transmute::<&str, &'m str>(name) };
                if !first {
                    chunks.push(std::mem::take(&mut lines));
                }
                self.blocks.insert(name, nblk);
                nblk += 1;
                first = false;
                continue;
            }
            if first {
                // unlabelled entry block
                let implicit: &'m str = Box::leak(format!("{}", unnamed).into_boxed_str());
                self.blocks.insert(implicit, nblk);
                nblk += 1;
                first = false;
            }
            lines.push((lstart, lend));
        }
        chunks.push(lines);
        assert_eq!(chunks.len(), nblk as usize, "{}", d.name);
        let mut blocks = vec![];
        for ch in chunks {
            let mut blk = Block::default();
            // join continuation lines (switch tables, invoke, landingpad clauses)
            let mut i = 0;
            while i < ch.len() {
                let st = ch[i].0;
                let mut en = ch[i].1;
                let l = &m.text[st..en];
                let is_switch = l.trim_start().starts_with("switch ");
                if is_switch && !l.contains(']') {
                    while !m.text[ch[i].0..ch[i].1].trim_start().starts_with(']') {
                        i += 1;
                        en = ch[i].1;
                    }
                } else if l.contains("invoke ") || l.contains("landingpad ") {
                    while i + 1 < ch.len() {
                        let nl = m.text[ch[i + 1].0..ch[i + 1].1].trim_start();
                        if nl.starts_with("to label") || nl.starts_with("cleanup") || nl.starts_with("catch") || nl.starts_with("filter") {
                            i += 1;
                            en = ch[i].1;
                        } else {
                            break;
                        }
                    }
                }
                self.inst(st, en, &mut blk);
                i += 1;
            }
            blocks.push(blk);
        }
        Func { id: self.id, nparams, nregs: self.regs.len() as u32, blocks }
    }

    fn inst(&mut self, s: usize, e: usize, blk: &mut Block) {
        let m = self.m;
        let mut lx = Lex::new(&m.text, s, e);
        let mut dst: Option<u32> = None;
        if let Tok::Local(n) = lx.peek() {
            lx.next();
            lx.expect_p(b'=');
            dst = Some(self.reg(n));
        }
        let op = match lx.next() {
            Tok::Word(w) => w,
            t => panic!("inst {:?} in {}", t, &m.text[s..e]),
        };
        let ins = match op {
            "phi" => {
                let t = m.parse_type(&mut lx);
                let mut inc = vec![];
                loop {
                    lx.expect_p(b'[');
                    let v = self.opd(&mut lx, t);
                    lx.expect_p(b',');
                    let b = match lx.next() {
                        Tok::Local(n) => *self.blocks.get(n).unwrap_or_else(|| panic!("phi block {}", n)),
                        t => panic!("{:?}", t),
                    };
                    lx.expect_p(b']');
                    inc.push((b, v));
                    if !lx.eat_p(b',') {
                        break;
                    }
                    if !matches!(lx.peek(), Tok::P(b'[')) {
                        break;
                    }
                }
                blk.phis.push((dst.unwrap(), inc));
                blk.phi_t.push(m.t(t));
                return;
            }
            "alloca" => {
                let t = m.parse_type(&mut lx);
                let mut count = None;
                if lx.eat_p(b',') && !matches!(lx.peek(), Tok::Word("align") | Tok::Meta(_) | Tok::Word("addrspace")) {
                    let (_, o) = self.typed(&mut lx);
                    count = Some(o);
                }
                Inst::Alloca { dst: dst.unwrap(), size: m.size(t), count }
            }
            "load" => {
                while matches!(lx.peek(), Tok::Word("atomic") | Tok::Word("volatile")) {
                    lx.next();
                }
                let t = m.parse_type(&mut lx);
                lx.expect_p(b',');
                let (_, p) = self.typed(&mut lx);
                Inst::Load { dst: dst.unwrap(), t: m.t(t), ptr: p }
            }
            "store" => {
                while matches!(lx.peek(), Tok::Word("atomic") | Tok::Word("volatile")) {
                    lx.next();
                }
                let (t, v) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (_, p) = self.typed(&mut lx);
                Inst::Store { t: m.t(t), val: v, ptr: p }
            }
            "getelementptr" => {
                while let Tok::Word("inbounds" | "nuw" | "nusw") = lx.peek() {
                    lx.next();
                }
                if let Tok::Word("inrange") = lx.peek() {
                    lx.next();
                    lx.skip_balanced();
                }
                let st = m.parse_type(&mut lx);
                lx.expect_p(b',');
                let (_, base) = self.typed(&mut lx);
                let mut off = 0i64;
                let mut idx = vec![];
                let mut cur = st;
                let mut first = true;
                while lx.eat_p(b',') {
                    if matches!(lx.peek(), Tok::Meta(_)) {
                        break;
                    }
                    let (it, o) = self.typed(&mut lx);
                    let iw = match m.tget(it) {
                        Ty::Int(w) => w,
                        t => panic!("gep index {:?} {}", t, &m.text[s..e]),
                    };
                    let (scale, next) = if first {
                        (m.size(cur), cur)
                    } else {
                        match m.tget(cur) {
                            Ty::Struct(..) => {
                                let k = match &o {
                                    Opd::K(Val::C(c)) => *c as usize,
                                    _ => panic!("struct gep"),
                                };
                                let (fo, ft) = m.field_offset(cur, k);
                                off += fo as i64;
                                cur = ft;
                                continue;
                            }
                            Ty::Arr(_, e) | Ty::Vec(_, e) => (m.size(e), e),
                            t => panic!("gep into {:?}", t),
                        }
                    };
                    first = false;
                    cur = next;
                    match &o {
                        Opd::K(Val::C(c)) => off = off.wrapping_add(sext64(*c, iw).wrapping_mul(scale as i64)),
                        _ => idx.push((o, iw as u16, scale)),
                    }
                }
                Inst::Gep { dst: dst.unwrap(), base, off, idx }
            }
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" => {
                while let Tok::Word("nuw" | "nsw" | "exact" | "disjoint") = lx.peek() {
                    lx.next();
                }
                let (t, a) = self.typed(&mut lx);
                lx.expect_p(b',');
                let b = self.opd(&mut lx, t);
                let bop = match op {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    _ => BinOp::Xor,
                };
                Inst::Bin { dst: dst.unwrap(), op: bop, t: m.t(t), a, b }
            }
            "icmp" => {
                lx.eat_w("samesign");
                let p = match lx.next() {
                    Tok::Word(w) => match w {
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        _ => panic!("pred {}", w),
                    },
                    t => panic!("{:?}", t),
                };
                let (t, a) = self.typed(&mut lx);
                lx.expect_p(b',');
                let b = self.opd(&mut lx, t);
                Inst::Icmp { dst: dst.unwrap(), p, t: m.t(t), a, b }
            }
            "zext" | "sext" | "trunc" | "bitcast" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "addrspacecast" => {
                while let Tok::Word("nneg" | "nuw" | "nsw") = lx.peek() {
                    lx.next();
                }
                let (ft, a) = self.typed(&mut lx);
                assert!(lx.eat_w("to"), "{}", &m.text[s..e]);
                let tt = m.parse_type(&mut lx);
                let (from, to) = (m.t(ft), m.t(tt));
                let c = match op {
                    "zext" => CastOp::ZExt,
                    "sext" => CastOp::SExt,
                    "trunc" => CastOp::Trunc,
                    "bitcast" => {
                        if from == to {
                            CastOp::Copy
                        } else {
                            CastOp::BitCast
                        }
                    }
                    _ => match (from, to) {
                        (T::I(a), T::I(b)) if a == b => CastOp::Copy,
                        (T::I(a), T::I(b)) if a < b => CastOp::ZExt,
                        _ => CastOp::Trunc,
                    },
                };
                Inst::Cast { dst: dst.unwrap(), op: c, from, to, a }
            }
            "select" => {
                let (ct, c) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (t, a) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (_, b) = self.typed(&mut lx);
                Inst::Select { dst: dst.unwrap(), ct: m.t(ct), c, t: m.t(t), ptr: m.tget(t) == Ty::Ptr, a, b }
            }
            "freeze" => {
                let (t, a) = self.typed(&mut lx);
                Inst::Cast { dst: dst.unwrap(), op: CastOp::Copy, from: m.t(t), to: m.t(t), a }
            }
            "extractvalue" => {
                let (_, a) = self.typed(&mut lx);
                let mut path = vec![];
                while lx.eat_p(b',') {
                    if matches!(lx.peek(), Tok::Meta(_)) {
                        break;
                    }
                    path.push(m.num(&mut lx) as u32);
                }
                Inst::ExtractValue { dst: dst.unwrap(), a, path }
            }
            "insertvalue" => {
                let (_, a) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (_, v) = self.typed(&mut lx);
                let mut path = vec![];
                while lx.eat_p(b',') {
                    if matches!(lx.peek(), Tok::Meta(_)) {
                        break;
                    }
                    path.push(m.num(&mut lx) as u32);
                }
                Inst::InsertValue { dst: dst.unwrap(), a, v, path }
            }
            "extractelement" => {
                let (_, a) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (_, i) = self.typed(&mut lx);
                Inst::ExtractElem { dst: dst.unwrap(), a, i }
            }
            "insertelement" => {
                let (_, a) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (_, v) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (_, i) = self.typed(&mut lx);
                Inst::InsertElem { dst: dst.unwrap(), a, v, i }
            }
            "shufflevector" => {
                let (_, a) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (_, b) = self.typed(&mut lx);
                lx.expect_p(b',');
                let mt = m.parse_type(&mut lx);
                let mk = m.parse_const(&mut lx, mt);
                let mask = match mk {
                    Val::A(v) => v.iter().map(|x| if let Val::C(c) = x { *c as u32 } else { 0 }).collect(),
                    _ => panic!(),
                };
                Inst::Shuffle { dst: dst.unwrap(), a, b, mask }
            }
            "br" => {
                if lx.peek() == Tok::Word("label") {
                    Inst::Br(self.label(&mut lx))
                } else {
                    let (_, c) = self.typed(&mut lx);
                    lx.expect_p(b',');
                    let a = self.label(&mut lx);
                    lx.expect_p(b',');
                    let b = self.label(&mut lx);
                    Inst::CondBr { c, a, b }
                }
            }
            "switch" => {
                let (t, v) = self.typed(&mut lx);
                lx.expect_p(b',');
                let def = self.label(&mut lx);
                lx.expect_p(b'[');
                let mut cases = vec![];
                while lx.peek() != Tok::P(b']') {
                    let ct = m.parse_type(&mut lx);
                    let c = m.parse_const(&mut lx, ct);
                    lx.expect_p(b',');
                    let l = self.label(&mut lx);
                    match c {
                        Val::C(c) => cases.push((c as u128, l)),
                        Val::W(b) => cases.push((*b, l)),
                        _ => panic!("wide switch"),
                    }
                }
                let w = match m.t(t) {
                    T::I(w) => w,
                    _ => panic!(),
                };
                Inst::Switch { w, v, def, cases }
            }
            "ret" => {
                let t = m.parse_type(&mut lx);
                if m.tget(t) == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.opd(&mut lx, t)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => Inst::Nop,
            "landingpad" | "resume" | "cleanuppad" | "catchpad" => Inst::Unsupported(op.to_string()),
            "atomicrmw" => {
                lx.eat_w("volatile");
                let o = match lx.next() {
                    Tok::Word(w) => w.to_string(),
                    t => panic!("{:?}", t),
                };
                let (_, p) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (t, v) = self.typed(&mut lx);
                Inst::AtomicRmw { dst: dst.unwrap(), op: o, t: m.t(t), ptr: p, v }
            }
            "cmpxchg" => {
                while matches!(lx.peek(), Tok::Word("weak") | Tok::Word("volatile")) {
                    lx.next();
                }
                let (_, p) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (t, c) = self.typed(&mut lx);
                lx.expect_p(b',');
                let (_, n) = self.typed(&mut lx);
                Inst::CmpXchg { dst: dst.unwrap(), t: m.t(t), ptr: p, cmp: c, new: n }
            }
            "tail" | "musttail" | "notail" => {
                assert!(lx.eat_w("call"));
                self.call(&mut lx, dst, false, s, e)
            }
            "call" => self.call(&mut lx, dst, false, s, e),
            "invoke" => self.call(&mut lx, dst, true, s, e),
            _ => Inst::Unsupported(m.text[s..e].trim().chars().take(120).collect()),
        };
        blk.insts.push(ins);
    }

    fn call(&mut self, lx: &mut Lex<'m>, dst: Option<u32>, invoke: bool, s: usize, e: usize) -> Inst {
        let m = self.m;
        // skip calling convention, return attributes, fast-math flags
        let ret;
        loop {
            match lx.peek() {
                Tok::Word(w) => {
                    let is_ty = w == "void"
                        || w == "ptr"
                        || w == "float"
                        || w == "double"
                        || w == "half"
                        || w == "fp128"
                        || w == "x86_fp80"
                        || w == "token"
                        || (w.starts_with('i') && w.len() > 1 && w[1..].bytes().all(|c| c.is_ascii_digit()));
                    if is_ty {
                        ret = m.parse_type(lx);
                        break;
                    }
                    lx.next();
                    if lx.peek() == Tok::P(b'(') {
                        lx.skip_balanced();
                    } else if w == "align" || w == "cc" {
                        lx.next();
                    }
                }
                Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') | Tok::Local(_) => {
                    ret = m.parse_type(lx);
                    break;
                }
                t => panic!("call {:?}: {}", t, &m.text[s..e]),
            }
        }
        let callee = match lx.next() {
            Tok::Global(n) => {
                let n2 = m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
                match m.fmap.get(n2) {
                    Some(f) => Callee::Direct(*f),
                    None => panic!("call of unknown @{}", n),
                }
            }
            Tok::Local(n) => Callee::Indirect(Opd::R(self.reg(n))),
            // a processor without optional features
            Tok::Word("asm") if m.text[s..e].contains("cpuid") => {
                while lx.peek() != Tok::P(b'(') {
                    lx.next();
                }
                Callee::Direct(m.fmap["sym_cpuid"])
            }
            Tok::Word("asm") => return Inst::Unsupported("inline asm".into()),
            Tok::Word("inttoptr") => return Inst::Unsupported("call inttoptr".into()),
            Tok::Word("null") | Tok::Word("poison") | Tok::Word("undef") => return Inst::Unsupported("call of null".into()),
            t => panic!("callee {:?}: {}", t, &m.text[s..e]),
        };
        lx.expect_p(b'(');
        let mut args = vec![];
        if !lx.eat_p(b')') {
            loop {
                let t = m.parse_type(lx);
                if m.tget(t) == Ty::Other {
                    // metadata argument: skip to , or )
                    let mut d = 0;
                    loop {
                        match lx.peek() {
                            Tok::P(b'(') => {
                                d += 1;
                                lx.next();
                            }
                            Tok::P(b')') if d > 0 => {
                                d -= 1;
                                lx.next();
                            }
                            Tok::P(b',') | Tok::P(b')') if d == 0 => break,
                            _ => {
                                lx.next();
                            }
                        }
                    }
                } else {
                    // attributes
                    loop {
                        match lx.peek() {
                            Tok::Word(w)
                                if !is_const_word(w) =>
                            {
                                if w == "byval" {
                                    return Inst::Unsupported("byval argument".into());
                                }
                                lx.next();
                                if lx.peek() == Tok::P(b'(') {
                                    lx.skip_balanced();
                                } else if w == "align" {
                                    lx.next();
                                }
                            }
                            Tok::Str(_) => {
                                lx.next();
                                if lx.eat_p(b'=') {
                                    lx.next();
                                }
                            }
                            _ => break,
                        }
                    }
                    let o = self.opd(lx, t);
                    args.push((m.t(t), o));
                }
                if lx.eat_p(b')') {
                    break;
                }
                lx.expect_p(b',');
            }
        }
        let normal = if invoke {
            loop {
                match lx.next() {
                    Tok::Word("to") => break,
                    Tok::End => panic!("invoke: {}", &m.text[s..e]),
                    _ => {}
                }
            }
            Some(self.label(lx))
        } else {
            None
        };
        let _ = &self.reg_ty;
        Inst::Call(Box::new(CallInst { dst, ret: m.t(ret), callee, args, normal }))
    }
}

fn is_const_word(w: &str) -> bool {
    let b = w.as_bytes()[0];
    b.is_ascii_digit()
        || b == b'-'
        || matches!(
            w,
            "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr"
                | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "sub" | "add" | "xor" | "mul" | "zext" | "ptrtoaddr"
        )
}
