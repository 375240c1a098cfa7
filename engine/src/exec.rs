//! The symbolic executor: states, memory, instruction semantics.
use crate::expr::*;
use crate::ir::*;
use crate::solver::{Sat, Solver};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

#[path = "conc.rs"]
mod conc;

pub const K_HEAP: u8 = 0;
pub const K_STACK: u8 = 1;
pub const K_GLOBAL: u8 = 2;
pub const K_CONST: u8 = 3;

#[derive(Clone)]
pub struct Obj {
    pub size: u32,
    pub off: u32,
    pub align: u32,
    pub kind: u8,
    pub data: Vec<u8>,
    pub st: Vec<u8>, // 0 uninit, 1 concrete, 2 symbolic
    pub sym: Option<Box<BTreeMap<u32, (E, u8)>>>,
}

impl Obj {
    fn new(size: u32, align: u32, kind: u8) -> Obj {
        let off = if align <= 4096 && kind != K_GLOBAL && kind != K_CONST { align } else { 0 };
        Obj { size, off, align, kind, data: vec![0; size as usize], st: vec![0; size as usize], sym: None }
    }
    fn read(&self, o: usize, n: usize, w: u32) -> V {
        let st = &self.st[o..o + n];
        if st.iter().all(|&s| s == 1) {
            if n <= 8 {
                let mut b = [0u8; 8];
                b[..n].copy_from_slice(&self.data[o..o + n]);
                let x = u64::from_le_bytes(b);
                return V::I(if w < 64 { x & ((1u64 << w) - 1) } else { x });
            }
            let mut b = [0u8; 16];
            b[..n].copy_from_slice(&self.data[o..o + n]);
            return V::S(cst(u128::from_le_bytes(b), w));
        }
        if st.iter().all(|&s| s == 0) {
            return V::S(undef(w));
        }
        let get = |i: usize| -> Option<(E, u8)> {
            if self.st[o + i] == 2 {
                self.sym.as_ref().and_then(|m| m.get(&((o + i) as u32)).copied())
            } else {
                None
            }
        };
        if let Some((e, k)) = get(0) {
            if (1..n).all(|i| get(i) == Some((e, k + i as u8))) {
                let r = extract(e, k as u32 * 8, n as u32 * 8);
                return from_e(extract(r, 0, w));
            }
        }
        let mut acc: Option<E> = None;
        let mut i = 0;
        let mut parts: Vec<E> = vec![];
        while i < n {
            match self.st[o + i] {
                1 => {
                    let mut j = i;
                    let mut v: u128 = 0;
                    while j < n && self.st[o + j] == 1 {
                        v |= (self.data[o + j] as u128) << (8 * (j - i));
                        j += 1;
                    }
                    parts.push(cst(v, 8 * (j - i) as u32));
                    i = j;
                }
                2 => {
                    let (e, k) = get(i).unwrap();
                    let mut j = i + 1;
                    while j < n && get(j) == Some((e, k + (j - i) as u8)) {
                        j += 1;
                    }
                    parts.push(extract(e, k as u32 * 8, 8 * (j - i) as u32));
                    i = j;
                }
                _ => {
                    let mut j = i;
                    while j < n && self.st[o + j] == 0 {
                        j += 1;
                    }
                    parts.push(undef(8 * (j - i) as u32));
                    i = j;
                }
            }
        }
        for p in parts {
            acc = Some(match acc {
                None => p,
                Some(a) => concat(p, a),
            });
        }
        from_e(extract(acc.unwrap(), 0, w))
    }
    fn write(&mut self, o: usize, n: usize, v: &V, w: u32) {
        match v {
            V::I(x) => {
                let b = x.to_le_bytes();
                self.data[o..o + n.min(8)].copy_from_slice(&b[..n.min(8)]);
                if n > 8 {
                    for k in 8..n {
                        self.data[o + k] = 0;
                    }
                }
                for s in &mut self.st[o..o + n] {
                    *s = 1;
                }
            }
            V::S(e) => {
                let e = if w < 8 * n as u32 { zext(*e, 8 * n as u32) } else { *e };
                if let Some(c) = as_const(e) {
                    let b = c.to_le_bytes();
                    self.data[o..o + n].copy_from_slice(&b[..n]);
                    for s in &mut self.st[o..o + n] {
                        *s = 1;
                    }
                    return;
                }
                let nd = node(e);
                if nd.op == Op::Undef {
                    for s in &mut self.st[o..o + n] {
                        *s = 0;
                    }
                    return;
                }
                // split concatenations at byte boundaries so that undefined
                // or constant parts keep their own status
                if nd.op == Op::Concat {
                    let lw = width(nd.b);
                    if lw % 8 == 0 && (n as u32 * 8 - lw) % 8 == 0 {
                        let ln = (lw / 8) as usize;
                        self.write(o, ln, &from_e(nd.b), lw);
                        self.write(o + ln, n - ln, &from_e(nd.a), width(nd.a));
                        return;
                    }
                }
                if nd.op == Op::ZExt {
                    let lw = width(nd.a);
                    if lw % 8 == 0 {
                        let ln = (lw / 8) as usize;
                        self.write(o, ln, &from_e(nd.a), lw);
                        for k in ln..n {
                            self.data[o + k] = 0;
                            self.st[o + k] = 1;
                        }
                        return;
                    }
                }
                let m = self.sym.get_or_insert_with(|| Box::new(BTreeMap::new()));
                for i in 0..n {
                    self.st[o + i] = 2;
                    m.insert((o + i) as u32, (e, i as u8));
                }
            }
            V::Agg(_) => unreachable!(),
        }
    }
}

pub type Chunk = Vec<Option<Rc<Obj>>>;
const CH: usize = 64;

#[derive(Clone)]
pub struct Frame {
    pub func: Rc<Func>,
    pub regs: Vec<V>,
    pub block: u32,
    pub ip: u32,
    pub allocas: Vec<u32>,
    pub catch: bool,
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Vec<Rc<Chunk>>,
    pub next: u32,
    pub gmods: Rc<HashMap<u32, Rc<Obj>>>,
    pub pc: Vec<E>,
    pub facts: Vec<E>,
    pub model: Vec<u64>,
    pub bound: u128,
    pub inputs: Vec<(E, Rc<str>)>,
    pub counts: Vec<(Rc<str>, u32)>,
    pub trace: Vec<V>,
    pub steps: u64,
    pub live: u64,
    pub live_bytes: u64,
    pub covers: u64,
    pub ncatch: u32,
    pub last_panic: Rc<str>,
    pub tag: Rc<str>,
    pub par: Option<Box<conc::Par>>,
}

pub enum Stop {
    Done,
    Killed,
    Viol(String, String),
    Unsup(String),
}
type X<T> = Result<T, Stop>;

fn viol<T>(k: &str, m: impl Into<String>) -> X<T> {
    Err(Stop::Viol(k.into(), m.into()))
}
fn unsup<T>(m: impl Into<String>) -> X<T> {
    Err(Stop::Unsup(m.into()))
}

pub fn from_e(e: E) -> V {
    let n = node(e);
    if n.op == Op::Const && n.w <= 64 {
        V::I(cval(&n) as u64)
    } else {
        V::S(e)
    }
}
pub fn to_e(v: &V, w: u32) -> E {
    match v {
        V::I(x) => cst(*x as u128, w),
        V::S(e) => *e,
        V::Agg(_) => panic!("aggregate as scalar"),
    }
}

#[derive(Clone, Debug, PartialEq)]
enum Intr {
    Nop,
    Memcpy,
    Memmove,
    Memset,
    Umin,
    Umax,
    Smin,
    Smax,
    Abs,
    UsubSat,
    UaddSat,
    Ucmp,
    Scmp,
    Fshl,
    Fshr,
    Ctlz,
    Cttz,
    Ctpop,
    Bswap,
    Bitrev,
    Ovf(Op, bool),
    Assume,
    IsConst,
    Trap,
    Expect,
    TlsAddr,
    Bcmp,
    Memcmp,
    Strlen,
    PanicFmt,
    BeginPanic,
    AbortPanic,
    VecReduce(Op),
    SymAlloc,
    SymDealloc,
    SymVar,
    SymAssume,
    SymAssert,
    SymFail,
    SymCover,
    SymTrace,
    SymConc,
    SymLive,
    SymParam,
    SymCatch,
    SymTag,
    SymIsEngine,
    SymIte,
    SymWasPanic,
    SymPar,
    Unknown,
}

#[derive(Clone)]
enum Callee {
    F(Rc<Func>),
    I(Intr),
}

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub tag: String,
    pub stack: Vec<String>,
    pub inputs: Vec<(String, u64)>,
}
#[derive(Clone)]
pub struct Sample {
    pub inputs: Vec<(String, u64)>,
    pub trace: Vec<u64>,
}

#[derive(Default)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub forks: u64,
    pub insts: u64,
    pub covers: u64,
    pub max_steps: u64,
    pub asserts: u64,
    pub sym_asserts: u64,
    pub branches: u64,
}

pub struct Engine<'m> {
    pub m: &'m Module,
    gobjs: RefCell<HashMap<u32, Rc<Obj>>>,
    callees: Vec<Option<Callee>>,
    pub funcs: Vec<Rc<Func>>,
    pub sv: Solver,
    pub work: Vec<State>,
    pub stats: Stats,
    pub viols: Vec<Violation>,
    pub unsup: Vec<String>,
    pub samples: Vec<Sample>,
    pub max_samples: usize,
    pub params: HashMap<String, u64>,
    pub step_limit: u64,
    pub verbose: bool,
}

fn m64(w: u32) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}

pub fn bin_v(op: Op, w: u32, a: &V, b: &V) -> V {
    if let (V::I(x), V::I(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let m = m64(w);
        let r = match op {
            Op::Add => x.wrapping_add(y) & m,
            Op::Sub => x.wrapping_sub(y) & m,
            Op::Mul => x.wrapping_mul(y) & m,
            Op::And => x & y,
            Op::Or => x | y,
            Op::Xor => x ^ y,
            Op::Shl => {
                if y >= w as u64 {
                    0
                } else {
                    (x << y) & m
                }
            }
            Op::LShr => {
                if y >= w as u64 {
                    0
                } else {
                    x >> y
                }
            }
            Op::UDiv if y != 0 => x / y,
            Op::URem if y != 0 => x % y,
            _ => conc(op, w, x as u128, y as u128) as u64,
        };
        return V::I(r);
    }
    from_e(bin(op, to_e(a, w), to_e(b, w)))
}

pub fn cmp_v(p: Pred, w: u32, a: &V, b: &V) -> V {
    if let (V::I(x), V::I(y)) = (a, b) {
        let (x, y) = (*x, *y);
        let s = |v: u64| sext128(v as u128, w) as i64;
        let r = match p {
            Pred::Eq => x == y,
            Pred::Ne => x != y,
            Pred::Ult => x < y,
            Pred::Ule => x <= y,
            Pred::Ugt => x > y,
            Pred::Uge => x >= y,
            Pred::Slt => s(x) < s(y),
            Pred::Sle => s(x) <= s(y),
            Pred::Sgt => s(x) > s(y),
            Pred::Sge => s(x) >= s(y),
        };
        return V::I(r as u64);
    }
    let (x, y) = (to_e(a, w), to_e(b, w));
    from_e(match p {
        Pred::Eq => bin(Op::Eq, x, y),
        Pred::Ne => not(bin(Op::Eq, x, y)),
        Pred::Ult => bin(Op::Ult, x, y),
        Pred::Ule => bin(Op::Ule, x, y),
        Pred::Ugt => bin(Op::Ult, y, x),
        Pred::Uge => bin(Op::Ule, y, x),
        Pred::Slt => bin(Op::Slt, x, y),
        Pred::Sle => bin(Op::Sle, x, y),
        Pred::Sgt => bin(Op::Slt, y, x),
        Pred::Sge => bin(Op::Sle, y, x),
    })
}

fn rd<'a>(fr: &'a Frame, o: &'a Opd) -> &'a V {
    match o {
        Opd::R(r) => &fr.regs[*r as usize],
        Opd::K(v) => v,
    }
}

impl<'m> Engine<'m> {
    pub fn new(m: &'m Module, params: HashMap<String, u64>, rlimit: u32) -> Self {
        Engine {
            m,
            gobjs: RefCell::new(HashMap::new()),
            callees: vec![None; m.globals.len()],
            funcs: vec![],
            sv: Solver::new(rlimit),
            work: vec![],
            stats: Stats::default(),
            viols: vec![],
            unsup: vec![],
            samples: vec![],
            max_samples: 16,
            params,
            step_limit: 20_000_000,
            verbose: false,
        }
    }

    // ---- functions -----------------------------------------------------
    fn classify(name: &str) -> Intr {
        let pre = |p: &str| name.starts_with(p);
        if pre("llvm.") {
            let n = &name[5..];
            let p = |s: &str| n.starts_with(s);
            return if p("memcpy") {
                Intr::Memcpy
            } else if p("memmove") {
                Intr::Memmove
            } else if p("memset") {
                Intr::Memset
            } else if p("umin") {
                Intr::Umin
            } else if p("umax") {
                Intr::Umax
            } else if p("smin") {
                Intr::Smin
            } else if p("smax") {
                Intr::Smax
            } else if p("abs.") {
                Intr::Abs
            } else if p("usub.sat") {
                Intr::UsubSat
            } else if p("uadd.sat") {
                Intr::UaddSat
            } else if p("ucmp") {
                Intr::Ucmp
            } else if p("scmp") {
                Intr::Scmp
            } else if p("fshl") {
                Intr::Fshl
            } else if p("fshr") {
                Intr::Fshr
            } else if p("ctlz") {
                Intr::Ctlz
            } else if p("cttz") {
                Intr::Cttz
            } else if p("ctpop") {
                Intr::Ctpop
            } else if p("bswap") {
                Intr::Bswap
            } else if p("bitreverse") {
                Intr::Bitrev
            } else if p("uadd.with.overflow") {
                Intr::Ovf(Op::Add, false)
            } else if p("usub.with.overflow") {
                Intr::Ovf(Op::Sub, false)
            } else if p("umul.with.overflow") {
                Intr::Ovf(Op::Mul, false)
            } else if p("sadd.with.overflow") {
                Intr::Ovf(Op::Add, true)
            } else if p("ssub.with.overflow") {
                Intr::Ovf(Op::Sub, true)
            } else if p("smul.with.overflow") {
                Intr::Ovf(Op::Mul, true)
            } else if p("assume") {
                Intr::Assume
            } else if p("is.constant") {
                Intr::IsConst
            } else if p("trap") || p("debugtrap") {
                Intr::Trap
            } else if p("expect") {
                Intr::Expect
            } else if p("threadlocal.address") {
                Intr::TlsAddr
            } else if p("vector.reduce.or") {
                Intr::VecReduce(Op::Or)
            } else if p("vector.reduce.and") {
                Intr::VecReduce(Op::And)
            } else if p("vector.reduce.add") {
                Intr::VecReduce(Op::Add)
            } else if p("lifetime") || p("experimental.noalias") || p("dbg") || p("invariant") || p("x86.sse2.pause") || p("prefetch") {
                Intr::Nop
            } else {
                Intr::Unknown
            };
        }
        match name {
            "bcmp" => Intr::Bcmp,
            "memcmp" => Intr::Memcmp,
            "memcpy" => Intr::Memcpy,
            "memmove" => Intr::Memmove,
            "memset" => Intr::Memset,
            "strlen" => Intr::Strlen,
            "abort" => Intr::Trap,
            "__sym_alloc" => Intr::SymAlloc,
            "__sym_dealloc" => Intr::SymDealloc,
            "__sym_var" => Intr::SymVar,
            "__sym_assume" => Intr::SymAssume,
            "__sym_assert" => Intr::SymAssert,
            "__sym_fail" => Intr::SymFail,
            "__sym_cover" => Intr::SymCover,
            "__sym_trace" => Intr::SymTrace,
            "__sym_concretize" => Intr::SymConc,
            "__sym_live" => Intr::SymLive,
            "__sym_param" => Intr::SymParam,
            "__sym_catch" => Intr::SymCatch,
            "__sym_par" => Intr::SymPar,
            "__sym_tag" => Intr::SymTag,
            "__sym_is_engine" => Intr::SymIsEngine,
            "__sym_ite" => Intr::SymIte,
            _ => Intr::Unknown,
        }
    }
    fn callee(&mut self, id: u32) -> X<Callee> {
        if let Some(c) = &self.callees[id as usize] {
            return Ok(c.clone());
        }
        let g = &self.m.globals[id as usize];
        let name = g.name;
        let c = match &g.kind {
            GKind::Func { body } => {
                if name.contains("core9panicking9panic_fmt") || name.contains("17rust_begin_unwind") {
                    Callee::I(Intr::PanicFmt)
                } else if name.contains("9panicking11begin_panic") || name.contains("9panicking20rust_panic_with_hook") || name.contains("resume_unwind") {
                    Callee::I(Intr::BeginPanic)
                } else if name.contains("core9panicking")
                    && (name.contains("panic_nounwind") || name.contains("panic_cannot_unwind") || name.contains("panic_in_cleanup"))
                {
                    Callee::I(Intr::AbortPanic)
                } else if name.contains("9rust_abort") || name.contains("handle_alloc_error") {
                    Callee::I(Intr::Trap)
                } else {
                    match body {
                        Some(r) if Self::classify(name) == Intr::Unknown => match self.m.parse_fn(id, *r) {
                            Ok(f) => {
                                let f = Rc::new(f);
                                self.funcs.push(f.clone());
                                Callee::F(f)
                            }
                            Err(e) => return unsup(format!("parse {}: {}", name, e)),
                        },
                        _ => Callee::I(Self::classify(name)),
                    }
                }
            }
            _ => return viol("memory", "call of a non-function address"),
        };
        self.callees[id as usize] = Some(c.clone());
        Ok(c)
    }

    // ---- state creation -------------------------------------------------
    pub fn initial(&mut self, entry: &str) -> Result<State, String> {
        let id = self.m.gid(entry).ok_or_else(|| format!("no entry {}", entry))?;
        let f = match self.callee(id) {
            Ok(Callee::F(f)) => f,
            _ => return Err("entry is not a function".into()),
        };
        let nregs = f.nregs as usize;
        Ok(State {
            frames: vec![Rc::new(Frame { func: f, regs: vec![V::I(0); nregs], block: 0, ip: 0, allocas: vec![], catch: false })],
            mem: vec![],
            next: 0,
            gmods: Rc::new(HashMap::new()),
            pc: vec![],
            facts: vec![],
            model: vec![],
            bound: 0,
            inputs: vec![],
            counts: vec![],
            trace: vec![],
            steps: 0,
            live: 0,
            live_bytes: 0,
            covers: 0,
            ncatch: 0,
            last_panic: "".into(),
            tag: "".into(),
            par: None,
        })
    }

    // ---- constraints ------------------------------------------------------
    fn add_pc(st: &mut State, c: E) {
        let n = node(c);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And && n.w == 1 {
            Self::add_pc(st, n.a);
            Self::add_pc(st, n.b);
            return;
        }
        if n.op == Op::Xor && n.w == 1 && as_const(n.b) == Some(1) {
            let k = node(n.a);
            if k.op == Op::Or && k.w == 1 {
                Self::add_pc(st, not(k.a));
                Self::add_pc(st, not(k.b));
                return;
            }
            if k.op == Op::Var && k.a < 126 {
                st.bound |= 1 << k.a;
            }
        }
        if n.op == Op::Var && n.a < 126 {
            st.bound |= 1 << n.a;
        }
        if n.op == Op::Eq && as_const(n.b).is_some() {
            let k = node(n.a);
            if k.op == Op::Var && k.a < 126 {
                st.bound |= 1 << k.a;
            }
        }
        if !st.pc.contains(&c) {
            st.pc.push(c);
        }
    }
    fn merge(st: &mut State, m: &[(u32, u64)]) {
        for &(v, x) in m {
            let v = v as usize;
            if st.model.len() <= v {
                st.model.resize(v + 1, 0);
            }
            st.model[v] = x;
        }
    }
    /// Known truth value without the solver.
    fn quick(&self, st: &State, e: E) -> Option<bool> {
        if let Some(c) = as_const(e) {
            return Some(c == 1);
        }
        if vmask(e) & !st.bound == 0 {
            return Some(eval(e, &st.model) == 1);
        }
        if st.pc.contains(&e) || st.facts.contains(&e) {
            return Some(true);
        }
        let n = not(e);
        if st.pc.contains(&n) || st.facts.contains(&n) {
            return Some(false);
        }
        None
    }
    fn fork(&mut self, st: &State, c: E, m: &[(u32, u64)]) {
        let mut o = st.clone();
        Self::merge(&mut o, m);
        Self::add_pc(&mut o, c);
        let top = Rc::make_mut(o.frames.last_mut().unwrap());
        top.ip -= 1; // re-execute the deciding instruction
        self.stats.forks += 1;
        self.work.push(o);
    }
    /// `e` with undefined parts removed; a violation when its value depends
    /// on them under the path condition.
    fn defined(&mut self, st: &mut State, e: E, what: &str) -> X<E> {
        if vmask(e) & UNDEF_BIT == 0 {
            return Ok(e);
        }
        let e0 = subst_undef(e, false, &mut HashMap::new());
        let e1 = subst_undef(e, true, &mut HashMap::new());
        if e0 == e1 {
            return Ok(e0);
        }
        let differ = not(bin(Op::Eq, e0, e1));
        match self.sv.check(&st.pc, differ, &st.model) {
            Sat::Unsat => Ok(e0),
            Sat::Sat(m) => {
                Self::merge(st, &m);
                viol("uninit", format!("{} depends on uninitialised memory: {}", what, show(e)))
            }
            Sat::Unknown => unsup("solver gave up"),
        }
    }
    fn decide(&mut self, st: &mut State, v: &V, what: &str) -> X<bool> {
        let e = match v {
            V::I(x) => return Ok(*x & 1 == 1),
            V::S(e) => *e,
            _ => return unsup("decide on aggregate"),
        };
        let e = self.defined(st, e, what)?;
        if let Some(k) = as_const(e) {
            return Ok(k == 1);
        }
        if let Some(b) = self.quick(st, e) {
            return Ok(b);
        }
        self.stats.branches += 1;
        let val = eval(e, &st.model) == 1;
        let (this, other) = if val { (e, not(e)) } else { (not(e), e) };
        match self.sv.check(&st.pc, other, &st.model) {
            Sat::Unsat => {
                st.facts.push(this);
                if st.facts.len() > 64 {
                    st.facts.remove(0);
                }
                Ok(val)
            }
            Sat::Sat(m) => {
                self.fork(st, other, &m);
                Self::add_pc(st, this);
                Ok(val)
            }
            Sat::Unknown => unsup("solver gave up"),
        }
    }
    fn concretize(&mut self, st: &mut State, v: &V, w: u32, what: &str) -> X<u64> {
        let e = match v {
            V::I(x) => return Ok(*x),
            V::S(e) => *e,
            _ => return unsup("concretize aggregate"),
        };
        if let Some(c) = as_const(e) {
            return Ok(c as u64);
        }
        let e = self.defined(st, e, what)?;
        if let Some(c) = as_const(e) {
            return Ok(c as u64);
        }
        let x = eval(e, &st.model);
        if vmask(e) & !st.bound == 0 {
            return Ok(x as u64);
        }
        let eq = bin(Op::Eq, e, cst(x, w));
        if let Some(true) = self.quick(st, eq) {
            return Ok(x as u64);
        }
        self.stats.branches += 1;
        match self.sv.check(&st.pc, not(eq), &st.model) {
            Sat::Unsat => {
                Self::add_pc(st, eq);
                Ok(x as u64)
            }
            Sat::Sat(m) => {
                self.fork(st, not(eq), &m);
                Self::add_pc(st, eq);
                Ok(x as u64)
            }
            Sat::Unknown => unsup("solver gave up"),
        }
    }

    // ---- memory -------------------------------------------------------------
    fn alloc(&mut self, st: &mut State, size: u64, align: u32, kind: u8) -> X<u64> {
        if size > (1 << 23) {
            return unsup(format!("allocation of {} bytes", size));
        }
        let id = st.next;
        st.next += 1;
        let o = Obj::new(size as u32, align, kind);
        let off = o.off;
        let c = id as usize / CH;
        if c >= st.mem.len() {
            st.mem.push(Rc::new(Vec::with_capacity(CH)));
        }
        Rc::make_mut(&mut st.mem[c]).push(Some(Rc::new(o)));
        if st.par.is_some() {
            Self::note_alloc(st, id + HEAP_BASE);
        }
        Ok(((id + HEAP_BASE) as u64 + 1) << ID_SHIFT | off as u64)
    }
    fn free_id(st: &mut State, id: u32) {
        let (c, k) = (id as usize / CH, id as usize % CH);
        Rc::make_mut(&mut st.mem[c])[k] = None;
    }
    fn gobj(&self, id: u32) -> X<Rc<Obj>> {
        if let Some(o) = self.gobjs.borrow().get(&id) {
            return Ok(o.clone());
        }
        let g = &self.m.globals[id as usize];
        match &g.kind {
            GKind::Data { line, constant } => {
                let mut p = P::new(line, self.m);
                let t = match p.ty() {
                    Ok(t) => t,
                    Err(e) => return unsup(format!("global {}: {}", g.name, e)),
                };
                let v = match p.konst(&t) {
                    Ok(v) => v,
                    Err(e) => return unsup(format!("global {}: {}", g.name, e)),
                };
                let mut o = Obj::new(t.size() as u32, 16, if *constant { K_CONST } else { K_GLOBAL });
                for s in o.st.iter_mut() {
                    *s = 1;
                }
                put(&mut o, 0, &t, &v);
                let o = Rc::new(o);
                self.gobjs.borrow_mut().insert(id, o.clone());
                Ok(o)
            }
            _ => viol("memory", format!("data access to function {}", g.name)),
        }
    }
    /// Object and offset of an access of `n` bytes.
    fn find(&self, st: &State, addr: u64, n: u64, what: &str) -> X<(u32, usize, Rc<Obj>)> {
        let idp = (addr >> ID_SHIFT) as u32;
        if idp == 0 || addr >> 56 != 0 {
            return viol("memory", format!("{} of {} bytes through invalid pointer {:#x}", what, n, addr));
        }
        let id = idp - 1;
        let o = if id < HEAP_BASE {
            if id as usize >= self.m.globals.len() {
                return viol("memory", format!("{} through invalid pointer {:#x}", what, addr));
            }
            match st.gmods.get(&id) {
                Some(o) => o.clone(),
                None => self.gobj(id)?,
            }
        } else {
            let k = (id - HEAP_BASE) as usize;
            if k >= st.next as usize {
                return viol("memory", format!("{} through invalid pointer {:#x}", what, addr));
            }
            match &st.mem[k / CH][k % CH] {
                Some(o) => o.clone(),
                None => return viol("memory", format!("{} of {} bytes in freed memory (object {})", what, n, k)),
            }
        };
        let low = (addr & ((1 << ID_SHIFT) - 1)) as i64 - o.off as i64;
        if low < 0 || low as u64 + n > o.size as u64 {
            return viol("memory", format!("{} of {} bytes out of bounds: offset {} of an object of {} bytes", what, n, low, o.size));
        }
        Ok((id, low as usize, o))
    }
    fn obj_mut<'a>(&self, st: &'a mut State, id: u32, what: &str) -> X<&'a mut Obj> {
        if id < HEAP_BASE {
            let g = Rc::make_mut(&mut st.gmods);
            if !g.contains_key(&id) {
                let o = self.gobj(id)?;
                if o.kind == K_CONST {
                    return viol("memory", format!("{} to constant memory", what));
                }
                g.insert(id, o);
            }
            Ok(Rc::make_mut(g.get_mut(&id).unwrap()))
        } else {
            let k = (id - HEAP_BASE) as usize;
            let ch = Rc::make_mut(&mut st.mem[k / CH]);
            Ok(Rc::make_mut(ch[k % CH].as_mut().unwrap()))
        }
    }
    fn rd_ty(o: &Obj, off: usize, t: &Ty) -> V {
        match t {
            Ty::Struct(..) | Ty::Arr(..) => {
                V::Agg(Rc::new((0..t.nelems()).map(|i| Self::rd_ty(o, off + t.field_off(i) as usize, &t.elem(i))).collect()))
            }
            Ty::Vec(n, e) => {
                if e.bits() % 8 == 0 {
                    V::Agg(Rc::new((0..*n as usize).map(|i| Self::rd_ty(o, off + i * (e.bits() / 8) as usize, e)).collect()))
                } else {
                    let w = t.bits();
                    let v = o.read(off, t.store_size() as usize, w);
                    let e1 = to_e(&v, w);
                    V::Agg(Rc::new((0..*n).map(|i| from_e(extract(e1, i * e.bits(), e.bits()))).collect()))
                }
            }
            _ => o.read(off, t.store_size() as usize, t.bits()),
        }
    }
    pub fn load_ty(&self, st: &State, addr: u64, t: &Ty, size: u32, align: u32) -> X<V> {
        if align > 1 && addr % align as u64 != 0 {
            return viol("memory", format!("misaligned load of {:?} at {:#x}", t, addr));
        }
        let (_, off, o) = self.find(st, addr, size as u64, "read")?;
        Ok(Self::rd_ty(&o, off, t))
    }
    pub fn store_ty(&self, st: &mut State, addr: u64, t: &Ty, size: u32, align: u32, v: &V) -> X<()> {
        if align > 1 && addr % align as u64 != 0 {
            return viol("memory", format!("misaligned store of {:?} at {:#x}", t, addr));
        }
        let (id, off, o) = self.find(st, addr, size as u64, "write")?;
        drop(o);
        let o = self.obj_mut(st, id, "write")?;
        put(o, off, t, v);
        Ok(())
    }
    fn copy(&self, st: &mut State, dst: u64, src: u64, n: u64, may_overlap: bool) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (sid, so, s) = self.find(st, src, n, "memcpy read")?;
        let (did, d_o, d0) = self.find(st, dst, n, "memcpy write")?;
        drop(d0);
        if !may_overlap && sid == did && so != d_o && (so as i64 - d_o as i64).unsigned_abs() < n {
            return viol("memory", "memcpy with overlapping ranges");
        }
        let n = n as usize;
        let data = s.data[so..so + n].to_vec();
        let stt = s.st[so..so + n].to_vec();
        let syms: Vec<(u32, (E, u8))> = match &s.sym {
            Some(m) => m.range(so as u32..(so + n) as u32).map(|(k, v)| (*k, *v)).collect(),
            None => vec![],
        };
        drop(s);
        let d = self.obj_mut(st, did, "memcpy")?;
        d.data[d_o..d_o + n].copy_from_slice(&data);
        d.st[d_o..d_o + n].copy_from_slice(&stt);
        if !syms.is_empty() {
            let m = d.sym.get_or_insert_with(|| Box::new(BTreeMap::new()));
            for (k, v) in syms {
                if stt[k as usize - so] == 2 {
                    m.insert(k - so as u32 + d_o as u32, v);
                }
            }
        }
        Ok(())
    }
    fn read_str(&self, st: &State, addr: u64, n: u64) -> X<String> {
        if n == 0 {
            return Ok(String::new());
        }
        let (_, o, b) = self.find(st, addr, n, "string read")?;
        Ok(String::from_utf8_lossy(&b.data[o..o + n as usize]).into_owned())
    }
    fn byte_at(o: &Obj, i: usize) -> E {
        to_e(&o.read(i, 1, 8), 8)
    }

    // ---- main loop ------------------------------------------------------------
    /// Runs `st` to the end of its path; alternatives go to `self.work`.
    pub fn run(&mut self, mut st: State) {
        let r = loop {
            match self.block_run(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
        };
        self.stats.max_steps = self.stats.max_steps.max(st.steps);
        match r {
            Stop::Done => {
                self.stats.paths += 1;
                self.stats.covers |= st.covers;
                let n = self.stats.paths;
                if n <= 2 || n.is_power_of_two() || n % 997 == 0 {
                    if self.samples.len() < self.max_samples {
                        let s = Sample {
                            inputs: self.inputs(&st),
                            trace: st
                                .trace
                                .iter()
                                .map(|v| match v {
                                    V::I(x) => *x,
                                    V::S(e) => eval(*e, &st.model) as u64,
                                    _ => 0,
                                })
                                .collect(),
                        };
                        self.samples.push(s);
                    }
                }
            }
            Stop::Killed => self.stats.killed += 1,
            Stop::Viol(k, m) => {
                self.stats.paths += 1;
                self.report(&st, k, m)
            }
            Stop::Unsup(m) => {
                let s = format!("{} [{}]", m, self.stack(&st).into_iter().take(6).collect::<Vec<_>>().join(" < "));
                if !self.unsup.contains(&s) {
                    self.unsup.push(s);
                }
            }
        }
    }
    fn inputs(&self, st: &State) -> Vec<(String, u64)> {
        st.inputs.iter().map(|(e, n)| (n.to_string(), eval(*e, &st.model) as u64)).collect()
    }
    fn stack(&self, st: &State) -> Vec<String> {
        let mut v: Vec<String> = st.frames.iter().rev().map(|f| f.func.name.to_string()).collect();
        if let Some(p) = &st.par {
            v.extend(p.log.iter().map(|l| format!("[{}]", l)));
        }
        v
    }
    fn report(&mut self, st: &State, kind: String, msg: String) {
        let v = Violation { kind, msg, tag: st.tag.to_string(), stack: self.stack(st), inputs: self.inputs(st) };
        if self.verbose {
            eprintln!("violation {} {} at {}", v.kind, v.msg, v.stack.first().cloned().unwrap_or_default());
        }
        let same = self.viols.iter().filter(|o| o.kind == v.kind && o.msg == v.msg && o.tag == v.tag).count();
        if same < 3 {
            self.viols.push(v);
        }
    }

    fn enter_block(fr: &mut Frame, b: u32) {
        let pred = fr.block;
        let f = fr.func.clone();
        let blk = &f.blocks[b as usize];
        if !blk.phis.is_empty() {
            if blk.phis.len() == 1 {
                let (d, ins) = &blk.phis[0];
                if let Some((_, o)) = ins.iter().find(|(p, _)| *p == pred) {
                    let v = rd(fr, o).clone();
                    fr.regs[*d as usize] = v;
                }
            } else {
                let vals: Vec<V> = blk
                    .phis
                    .iter()
                    .map(|(_, ins)| match ins.iter().find(|(p, _)| *p == pred) {
                        Some((_, o)) => rd(fr, o).clone(),
                        None => V::I(0),
                    })
                    .collect();
                for ((d, _), v) in blk.phis.iter().zip(vals) {
                    fr.regs[*d as usize] = v;
                }
            }
        }
        fr.block = b;
        fr.ip = 0;
        f.hits.borrow_mut()[b as usize] = true;
    }

    fn block_run(&mut self, st: &mut State) -> X<()> {
        if let Some(p) = &st.par {
            if p.need {
                return self.schedule(st);
            }
        }
        let func = st.frames.last().unwrap().func.clone();
        if st.steps == 0 {
            func.hits.borrow_mut()[0] = true;
        }
        loop {
            if let Some(p) = &st.par {
                if p.need {
                    self.schedule(st)?;
                    return Ok(());
                }
            }
            let (b, ip) = {
                let fr = st.frames.last().unwrap();
                (fr.block, fr.ip)
            };
            let inst = &func.blocks[b as usize].insts[ip as usize];
            st.steps += 1;
            self.stats.insts += 1;
            if st.steps > self.step_limit {
                return viol("steps", format!("no termination within {} instructions", self.step_limit));
            }
            // the top frame is uniquely owned except right after a fork
            Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            macro_rules! fr {
                () => {
                    st.frames.last().unwrap()
                };
            }
            macro_rules! set {
                ($d:expr, $v:expr) => {{
                    let v = $v;
                    Rc::make_mut(st.frames.last_mut().unwrap()).regs[$d as usize] = v;
                }};
            }
            match inst {
                Inst::Bin { op, ty, w, dst, a, b } => {
                    let (x, y) = (rd(fr!(), a), rd(fr!(), b));
                    let r = match ty {
                        Ty::Vec(..) => match (x, y) {
                            (V::Agg(x), V::Agg(y)) => V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| bin_v(*op, *w, p, q)).collect())),
                            _ => return unsup("vector operand"),
                        },
                        _ => {
                            if matches!(op, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) {
                                let z = cmp_v(Pred::Eq, *w, y, &V::I(0));
                                match z {
                                    V::I(0) => {}
                                    V::I(_) => return viol("arith", "division by zero"),
                                    _ => {
                                        let y2 = y.clone();
                                        let x2 = x.clone();
                                        if self.decide(st, &z, "division")? {
                                            return viol("arith", "division by zero");
                                        }
                                        let r = bin_v(*op, *w, &x2, &y2);
                                        set!(*dst, r);
                                        continue;
                                    }
                                }
                            }
                            bin_v(*op, *w, x, y)
                        }
                    };
                    set!(*dst, r);
                }
                Inst::Icmp { pred, ty, w, dst, a, b } => {
                    let (x, y) = (rd(fr!(), a), rd(fr!(), b));
                    let r = match ty {
                        Ty::Vec(..) => match (x, y) {
                            (V::Agg(x), V::Agg(y)) => V::Agg(Rc::new(x.iter().zip(y.iter()).map(|(p, q)| cmp_v(*pred, *w, p, q)).collect())),
                            _ => return unsup("vector operand"),
                        },
                        _ => cmp_v(*pred, *w, x, y),
                    };
                    set!(*dst, r);
                }
                Inst::Cast { kind, from, to, dst, a } => {
                    let x = rd(fr!(), a);
                    let r = cast_v(*kind, from, to, x)?;
                    set!(*dst, r);
                }
                Inst::Select { dst, ty, c, cty, a, b } => {
                    let cv = rd(fr!(), c).clone();
                    let r = if let Ty::Vec(..) = cty {
                        match (&cv, rd(fr!(), a), rd(fr!(), b)) {
                            (V::Agg(c), V::Agg(x), V::Agg(y)) => {
                                let w = ty.elem(0).bits();
                                let mut out = vec![];
                                for i in 0..c.len() {
                                    out.push(match &c[i] {
                                        V::I(k) => if *k & 1 == 1 { x[i].clone() } else { y[i].clone() },
                                        V::S(e) => from_e(ite(*e, to_e(&x[i], w), to_e(&y[i], w))),
                                        _ => return unsup("select"),
                                    });
                                }
                                V::Agg(Rc::new(out))
                            }
                            _ => return unsup("vector select"),
                        }
                    } else {
                        match cv {
                            V::I(k) => (if k & 1 == 1 { rd(fr!(), a) } else { rd(fr!(), b) }).clone(),
                            V::S(e) => {
                                if let (Ty::Int(w), V::I(_) | V::S(_), V::I(_) | V::S(_)) = (ty, rd(fr!(), a), rd(fr!(), b)) {
                                    match self.quick(st, e) {
                                        Some(k) => (if k { rd(fr!(), a) } else { rd(fr!(), b) }).clone(),
                                        None => from_e(ite(e, to_e(rd(fr!(), a), *w), to_e(rd(fr!(), b), *w))),
                                    }
                                } else if self.decide(st, &V::S(e), "select condition")? {
                                    rd(fr!(), a).clone()
                                } else {
                                    rd(fr!(), b).clone()
                                }
                            }
                            _ => return unsup("select cond"),
                        }
                    };
                    set!(*dst, r);
                }
                Inst::Load { dst, ty, size, ptr, align, ord } => {
                    let p = rd(fr!(), ptr).clone();
                    if st.par.is_some() && *ord != Ord::None {
                        let a = self.concretize(st, &p, 64, "atomic address")?;
                        if !self.visible(st, a, *size, false)? {
                            return Ok(());
                        }
                        let r = self.at_load(st, a, *size * 8, *ord)?;
                        let r = if ty.bits() < *size * 8 { from_e(extract(to_e(&r, *size * 8), 0, ty.bits())) } else { r };
                        set!(*dst, r);
                        continue;
                    }
                    let r = match p {
                        V::I(a) if st.par.is_some() => {
                            self.acc(st, a, *size as u64, false, false)?;
                            self.load_ty(st, a, ty, *size, *align)?
                        }
                        V::I(a) => self.load_ty(st, a, ty, *size, *align)?,
                        ref s => self.sym_load(st, s, ty, *size, *align)?,
                    };
                    set!(*dst, r);
                }
                Inst::Store { ty, size, val, ptr, align, ord } => {
                    let p = rd(fr!(), ptr).clone();
                    let a = self.concretize(st, &p, 64, "store address")?;
                    let v = rd(fr!(), val).clone();
                    if st.par.is_some() {
                        if *ord != Ord::None {
                            if !self.visible(st, a, *size, true)? {
                                return Ok(());
                            }
                            let v = from_e(zext(to_e(&v, ty.bits()), *size * 8));
                            self.at_write(st, a, *size * 8, *ord, &v, false)?;
                            continue;
                        }
                        self.acc(st, a, *size as u64, true, false)?;
                    }
                    self.store_ty(st, a, ty, *size, *align, &v)?;
                    if st.par.is_some() {
                        self.note_escape(st, a, *size as u64)?;
                    }
                }
                Inst::Gep { dst, base, off, terms } => {
                    let mut v = rd(fr!(), base).clone();
                    if *off != 0 {
                        v = bin_v(Op::Add, 64, &v, &V::I(*off));
                    }
                    for (scale, o, w) in terms {
                        let mut x = rd(fr!(), o).clone();
                        if *w < 64 {
                            x = cast_v(Cast::SExt, &Ty::Int(*w), &Ty::Int(64), &x)?;
                        }
                        let t = bin_v(Op::Mul, 64, &x, &V::I(*scale));
                        v = bin_v(Op::Add, 64, &v, &t);
                    }
                    set!(*dst, v);
                }
                Inst::Alloca { dst, size, align } => {
                    let a = self.alloc(st, *size, *align, K_STACK)?;
                    let fr = Rc::make_mut(st.frames.last_mut().unwrap());
                    fr.allocas.push(st.next - 1);
                    fr.regs[*dst as usize] = V::I(a);
                }
                Inst::Br(t) => {
                    Self::enter_block(Rc::make_mut(st.frames.last_mut().unwrap()), *t);
                }
                Inst::CondBr { c, t, f } => {
                    let cv = rd(fr!(), c).clone();
                    let k = self.decide(st, &cv, "branch")?;
                    Self::enter_block(Rc::make_mut(st.frames.last_mut().unwrap()), if k { *t } else { *f });
                }
                Inst::Switch { v, w, cases, default } => {
                    let x = rd(fr!(), v).clone();
                    let mut target = *default;
                    match x {
                        V::I(k) => {
                            if let Some((_, t)) = cases.iter().find(|(c, _)| *c == k) {
                                target = *t;
                            }
                        }
                        V::S(e) => {
                            let e = self.defined(st, e, "switch")?;
                            // decide cases in model order: the model's own case first
                            let mv = eval(e, &st.model) as u64;
                            let first = cases.iter().find(|(c, _)| *c == mv);
                            let mut done = false;
                            if let Some((c, t)) = first {
                                let cond = from_e(bin(Op::Eq, e, cst(*c as u128, *w)));
                                if self.decide(st, &cond, "switch")? {
                                    target = *t;
                                    done = true;
                                }
                            }
                            if !done {
                                for (c, t) in cases {
                                    let cond = from_e(bin(Op::Eq, e, cst(*c as u128, *w)));
                                    if self.decide(st, &cond, "switch")? {
                                        target = *t;
                                        break;
                                    }
                                }
                            }
                        }
                        _ => return unsup("switch value"),
                    }
                    Self::enter_block(Rc::make_mut(st.frames.last_mut().unwrap()), target);
                }
                Inst::Ret(v) => {
                    let v = v.as_ref().map(|o| rd(fr!(), o).clone());
                    let fr = st.frames.pop().unwrap();
                    for &a in &fr.allocas {
                        Self::free_id(st, a);
                    }
                    if st.frames.is_empty() {
                        if st.par.is_some() {
                            self.thread_end(st);
                            return Ok(());
                        }
                        return Err(Stop::Done);
                    }
                    let v = if fr.catch {
                        st.ncatch -= 1;
                        Some(V::I(0))
                    } else {
                        v
                    };
                    self.resume_caller(st, v);
                    return Ok(());
                }
                Inst::Unreachable => {
                    return viol("unreachable", "an `unreachable` instruction was executed");
                }
                Inst::Resume(_) => {
                    return self.unwind(st, true);
                }
                Inst::LandingPad { dst, cleanup, filter, .. } => {
                    let sel = if *filter && !*cleanup { 0xffff_ffff } else { 0 };
                    set!(*dst, V::Agg(Rc::new(vec![V::I(1 << 40), V::I(sel)])));
                }
                Inst::ExtractValue { dst, a, idx } => {
                    let mut v = rd(fr!(), a).clone();
                    for &i in idx {
                        v = match &v {
                            V::Agg(x) => x[i as usize].clone(),
                            _ => return unsup("extractvalue"),
                        };
                    }
                    set!(*dst, v);
                }
                Inst::InsertValue { dst, a, v, idx, .. } => {
                    let base = rd(fr!(), a).clone();
                    let x = rd(fr!(), v).clone();
                    fn ins(b: &V, idx: &[u32], x: V) -> Option<V> {
                        if idx.is_empty() {
                            return Some(x);
                        }
                        match b {
                            V::Agg(e) => {
                                let mut e = (**e).clone();
                                let k = idx[0] as usize;
                                e[k] = ins(&e[k], &idx[1..], x)?;
                                Some(V::Agg(Rc::new(e)))
                            }
                            _ => None,
                        }
                    }
                    match ins(&base, idx, x) {
                        Some(r) => set!(*dst, r),
                        None => return unsup("insertvalue"),
                    }
                }
                Inst::AtomicRmw { dst, op, ptr, val, w, ord } => {
                    let p = rd(fr!(), ptr).clone();
                    let a = self.concretize(st, &p, 64, "atomic address")?;
                    if st.par.is_some() && !self.visible(st, a, *w / 8, true)? {
                        return Ok(());
                    }
                    let t = Ty::Int(*w);
                    let sz = *w / 8;
                    let old = self.load_ty(st, a, &t, sz, sz)?;
                    let v = rd(fr!(), val).clone();
                    let new = match op.as_str() {
                        "add" => bin_v(Op::Add, *w, &old, &v),
                        "sub" => bin_v(Op::Sub, *w, &old, &v),
                        "and" => bin_v(Op::And, *w, &old, &v),
                        "or" => bin_v(Op::Or, *w, &old, &v),
                        "xor" => bin_v(Op::Xor, *w, &old, &v),
                        "xchg" => v,
                        o => return unsup(format!("atomicrmw {}", o)),
                    };
                    if st.par.is_some() {
                        self.at_write(st, a, *w, *ord, &new, true)?;
                    } else {
                        self.store_ty(st, a, &t, sz, sz, &new)?;
                    }
                    set!(*dst, old);
                }
                Inst::CmpXchg { dst, ptr, cmp, new, w, ord } => {
                    let p = rd(fr!(), ptr).clone();
                    let a = self.concretize(st, &p, 64, "atomic address")?;
                    if st.par.is_some() && !self.visible(st, a, *w / 8, true)? {
                        return Ok(());
                    }
                    let t = Ty::Int(*w);
                    let sz = *w / 8;
                    let old = self.load_ty(st, a, &t, sz, sz)?;
                    let eq = cmp_v(Pred::Eq, *w, &old, rd(fr!(), cmp));
                    if self.decide(st, &eq, "cmpxchg")? {
                        let n = rd(fr!(), new).clone();
                        if st.par.is_some() {
                            self.at_write(st, a, *w, *ord, &n, true)?;
                        } else {
                            self.store_ty(st, a, &t, sz, sz, &n)?;
                        }
                        set!(*dst, V::Agg(Rc::new(vec![old, V::I(1)])));
                    } else {
                        if st.par.is_some() {
                            self.at_fail(st, a, *w)?;
                        }
                        set!(*dst, V::Agg(Rc::new(vec![old, V::I(0)])));
                    }
                }
                Inst::Fence(o) => {
                    if st.par.is_some() {
                        self.at_fence(st, *o);
                    }
                }
                Inst::Freeze { dst, a, ty } => {
                    let v = rd(fr!(), a).clone();
                    let r = match &v {
                        // any fixed value is allowed
                        V::S(e) if vmask(*e) & UNDEF_BIT != 0 => from_e(subst_undef(*e, false, &mut HashMap::new())),
                        _ => v,
                    };
                    set!(*dst, r);
                }
                Inst::InsertElem { dst, a, v, i, .. } => {
                    let iv = rd(fr!(), i).clone();
                    let k = self.concretize(st, &iv, 64, "element index")? as usize;
                    let x = rd(fr!(), v).clone();
                    match rd(fr!(), a) {
                        V::Agg(e) => {
                            let mut e = (**e).clone();
                            if k >= e.len() {
                                return viol("memory", "insertelement index");
                            }
                            e[k] = x;
                            set!(*dst, V::Agg(Rc::new(e)));
                        }
                        _ => return unsup("insertelement"),
                    }
                }
                Inst::ExtractElem { dst, a, i } => {
                    let iv = rd(fr!(), i).clone();
                    let k = self.concretize(st, &iv, 64, "element index")? as usize;
                    match rd(fr!(), a) {
                        V::Agg(e) if k < e.len() => {
                            let x = e[k].clone();
                            set!(*dst, x)
                        }
                        _ => return unsup("extractelement"),
                    }
                }
                Inst::Shuffle { dst, a, b, n, mask } => {
                    let (x, y, m) = (rd(fr!(), a), rd(fr!(), b), rd(fr!(), mask));
                    match (x, y, m) {
                        (V::Agg(x), V::Agg(y), V::Agg(m)) => {
                            let mut out = vec![];
                            for k in m.iter() {
                                let k = match k {
                                    V::I(k) => *k as usize,
                                    _ => 0,
                                };
                                out.push(if k < *n as usize { x[k].clone() } else { y[k - *n as usize].clone() });
                            }
                            set!(*dst, V::Agg(Rc::new(out)));
                        }
                        _ => return unsup("shufflevector"),
                    }
                }
                Inst::Unsupported(m) => return unsup(m.clone()),
                Inst::Call { dst, callee, args, argtys, ret, invoke } => {
                    let cv = rd(fr!(), callee).clone();
                    let ca = self.concretize(st, &cv, 64, "call target")?;
                    let idp = (ca >> ID_SHIFT) as u32;
                    if idp == 0 || idp - 1 >= self.m.globals.len() as u32 || ca & 0xff_ffff != 0 {
                        return viol("memory", format!("call through invalid pointer {:#x}", ca));
                    }
                    match self.callee(idp - 1)? {
                        Callee::F(f) => {
                            let mut regs = vec![V::I(0); f.nregs as usize];
                            for (k, a) in args.iter().enumerate() {
                                if k < f.nargs as usize {
                                    regs[k] = rd(fr!(), a).clone();
                                }
                            }
                            if st.frames.len() > 3000 {
                                return viol("stack", "call depth exceeds 3000 frames");
                            }
                            f.hits.borrow_mut()[0] = true;
                            st.frames.push(Rc::new(Frame { func: f, regs, block: 0, ip: 0, allocas: vec![], catch: false }));
                            return Ok(());
                        }
                        Callee::I(i) => {
                            let av: Vec<V> = args.iter().map(|a| rd(fr!(), a).clone()).collect();
                            match self.intrinsic(st, &i, idp - 1, &av, argtys, ret)? {
                                Next::Val(v) => {
                                    if let Some(d) = dst {
                                        set!(*d, v);
                                    }
                                    if let Some((n, _)) = invoke {
                                        Self::enter_block(Rc::make_mut(st.frames.last_mut().unwrap()), *n);
                                    }
                                }
                                Next::Frame => return Ok(()),
                                Next::Unwind => return self.unwind(st, false),
                            }
                        }
                    }
                }
            }
        }
    }

    fn resume_caller(&mut self, st: &mut State, v: Option<V>) {
        let fr = Rc::make_mut(st.frames.last_mut().unwrap());
        let f = fr.func.clone();
        if let Inst::Call { dst, invoke, .. } = &f.blocks[fr.block as usize].insts[fr.ip as usize - 1] {
            if let (Some(d), Some(v)) = (dst, v) {
                fr.regs[*d as usize] = v;
            }
            if let Some((n, _)) = invoke {
                Self::enter_block(fr, *n);
            }
        }
    }
    /// Propagates an exception: from the current call (`pop_first` = false)
    /// or out of the current frame.
    fn unwind(&mut self, st: &mut State, pop_first: bool) -> X<()> {
        let mut pop = pop_first;
        loop {
            if pop {
                let fr = st.frames.pop().unwrap();
                for &a in &fr.allocas {
                    Self::free_id(st, a);
                }
                if fr.catch {
                    st.ncatch -= 1;
                    self.resume_caller(st, Some(V::I(1)));
                    return Ok(());
                }
                if st.frames.is_empty() {
                    return viol("panic", format!("panic left the entry: {}", st.last_panic));
                }
            }
            pop = true;
            let fr = Rc::make_mut(st.frames.last_mut().unwrap());
            let f = fr.func.clone();
            if let Inst::Call { invoke: Some((_, u)), .. } = &f.blocks[fr.block as usize].insts[fr.ip as usize - 1] {
                Self::enter_block(fr, *u);
                return Ok(());
            }
        }
    }
    fn panic_at(&mut self, st: &mut State, loc: String) -> X<Next> {
        st.last_panic = loc.as_str().into();
        if st.ncatch == 0 {
            return viol("panic", format!("panicked at {}", loc));
        }
        Ok(Next::Unwind)
    }
    fn location(&self, st: &State, a: &V) -> Option<String> {
        let a = match a {
            V::I(a) => *a,
            _ => return None,
        };
        let get = |off: u64, t: &Ty| -> Option<u64> {
            match self.load_ty(st, a + off, t, t.size() as u32, 1) {
                Ok(V::I(x)) => Some(x),
                _ => None,
            }
        };
        let p = get(0, &Ty::Ptr)?;
        let n = get(8, &Ty::Int(64))?;
        let line = get(16, &Ty::Int(32))?;
        if n > 300 {
            return None;
        }
        let s = self.read_str(st, p, n).ok()?;
        let s = s.rsplit("/library/").next().unwrap_or("").to_string();
        Some(format!("{}:{}", s, line))
    }

    fn sym_load(&mut self, st: &mut State, p: &V, ty: &Ty, size: u32, align: u32) -> X<V> {
        let e = to_e(p, 64);
        let e = self.defined(st, e, "load address")?;
        // symbolic index into a small constant table: read it as one term
        let a0 = eval(e, &st.model) as u64;
        let idp = (a0 >> ID_SHIFT) as u32;
        if idp >= 1 && idp - 1 < self.m.globals.len() as u32 && ty.is_scalar() && vmask(e) & !st.bound != 0 {
            let id = idp - 1;
            if let GKind::Data { constant: true, .. } = self.m.globals[id as usize].kind {
                let o = self.gobj(id)?;
                if o.size <= 1024 && !matches!(ty, Ty::Ptr) {
                    let base = gaddr(id);
                    let offe = bin(Op::Sub, e, cst(base as u128, 64));
                    let last = (o.size - size.min(o.size)) as u128;
                    let inb = from_e(bin(Op::Ule, offe, cst(last, 64)));
                    if self.decide(st, &inb, "table index")? {
                        let step = align.max(1) as usize;
                        let w = ty.bits();
                        let mut acc: Option<E> = None;
                        let mut off = last as usize / step * step;
                        loop {
                            let v = to_e(&o.read(off, size as usize, w), w);
                            acc = Some(match acc {
                                None => v,
                                Some(a) => {
                                    if a == v {
                                        a
                                    } else {
                                        ite(bin(Op::Ule, offe, cst(off as u128, 64)), v, a)
                                    }
                                }
                            });
                            if off == 0 {
                                break;
                            }
                            off -= step;
                        }
                        return Ok(from_e(acc.unwrap()));
                    }
                }
            }
        }
        let a = self.concretize(st, p, 64, "load address")?;
        if st.par.is_some() {
            self.acc(st, a, size as u64, false, false)?;
        }
        self.load_ty(st, a, ty, size, align)
    }

    fn new_var(&mut self, st: &mut State, base: &str, bits: u32, lo: u64, hi: u64) -> V {
        let k = {
            match st.counts.iter_mut().find(|(s, _)| **s == *base) {
                Some((_, c)) => {
                    *c += 1;
                    *c - 1
                }
                None => {
                    st.counts.push((base.into(), 1));
                    0
                }
            }
        };
        let name = format!("{}#{}", base, k);
        let v = var(&name, bits);
        let idx = node(v).a as usize;
        if st.model.len() <= idx {
            st.model.resize(idx + 1, 0);
        }
        st.model[idx] = lo;
        st.inputs.push((v, name.as_str().into()));
        if lo == hi {
            Self::add_pc(st, bin(Op::Eq, v, cst(lo as u128, bits)));
        } else {
            if lo > 0 {
                Self::add_pc(st, bin(Op::Ule, cst(lo as u128, bits), v));
            }
            if (hi as u128) < mask(bits) {
                Self::add_pc(st, bin(Op::Ule, v, cst(hi as u128, bits)));
            }
        }
        if lo == hi { V::I(lo) } else { from_e(zext(v, 64)) }
    }

    fn intrinsic(&mut self, st: &mut State, i: &Intr, id: u32, a: &[V], at: &[Ty], ret: &Ty) -> X<Next> {
        let w = if at.is_empty() { 0 } else { at[0].bits() };
        let iv = |v: V| Ok(Next::Val(v));
        match i {
            Intr::Nop => iv(V::I(0)),
            Intr::Memcpy | Intr::Memmove => {
                let n = self.concretize(st, &a[2], 64, "copy length")?;
                let d = self.concretize(st, &a[0], 64, "copy address")?;
                let s = self.concretize(st, &a[1], 64, "copy address")?;
                if st.par.is_some() {
                    self.acc(st, s, n, false, false)?;
                    self.acc(st, d, n, true, false)?;
                }
                self.copy(st, d, s, n, *i == Intr::Memmove)?;
                if st.par.is_some() {
                    self.note_escape(st, d, n)?;
                }
                iv(V::I(d))
            }
            Intr::Memset => {
                let n = self.concretize(st, &a[2], 64, "memset length")?;
                let d = self.concretize(st, &a[0], 64, "memset address")?;
                if n > 0 {
                    if st.par.is_some() {
                        self.acc(st, d, n, true, false)?;
                    }
                    let (oid, off, o) = self.find(st, d, n, "memset")?;
                    drop(o);
                    let v = a[1].clone();
                    let o = self.obj_mut(st, oid, "memset")?;
                    for k in 0..n as usize {
                        o.write(off + k, 1, &v, 8);
                    }
                }
                iv(V::I(d))
            }
            Intr::Umin | Intr::Umax | Intr::Smin | Intr::Smax => {
                let p = match i {
                    Intr::Umin => Pred::Ult,
                    Intr::Umax => Pred::Ugt,
                    Intr::Smin => Pred::Slt,
                    _ => Pred::Sgt,
                };
                if matches!(at[0], Ty::Vec(..)) {
                    return unsup("vector min/max");
                }
                iv(match cmp_v(p, w, &a[0], &a[1]) {
                    V::I(1) => a[0].clone(),
                    V::I(_) => a[1].clone(),
                    V::S(e) => from_e(ite(e, to_e(&a[0], w), to_e(&a[1], w))),
                    _ => unreachable!(),
                })
            }
            Intr::Abs => {
                let n = bin_v(Op::Sub, w, &V::I(0), &a[0]);
                iv(match cmp_v(Pred::Slt, w, &a[0], &V::I(0)) {
                    V::I(1) => n,
                    V::I(_) => a[0].clone(),
                    V::S(e) => from_e(ite(e, to_e(&n, w), to_e(&a[0], w))),
                    _ => unreachable!(),
                })
            }
            Intr::UsubSat => {
                let d = bin_v(Op::Sub, w, &a[0], &a[1]);
                iv(match cmp_v(Pred::Ult, w, &a[0], &a[1]) {
                    V::I(1) => V::I(0),
                    V::I(_) => d,
                    V::S(e) => from_e(ite(e, cst(0, w), to_e(&d, w))),
                    _ => unreachable!(),
                })
            }
            Intr::UaddSat => {
                let d = bin_v(Op::Add, w, &a[0], &a[1]);
                iv(match cmp_v(Pred::Ult, w, &d, &a[0]) {
                    V::I(1) => from_e(cst(mask(w), w)),
                    V::I(_) => d,
                    V::S(e) => from_e(ite(e, cst(mask(w), w), to_e(&d, w))),
                    _ => unreachable!(),
                })
            }
            Intr::Ucmp | Intr::Scmp => {
                let rw = ret.bits();
                let p = if *i == Intr::Ucmp { Pred::Ult } else { Pred::Slt };
                let lt = to_e(&cmp_v(p, w, &a[0], &a[1]), 1);
                let gt = to_e(&cmp_v(p, w, &a[1], &a[0]), 1);
                let r = ite(lt, cst(mask(rw), rw), ite(gt, cst(1, rw), cst(0, rw)));
                iv(from_e(r))
            }
            Intr::Fshl | Intr::Fshr => {
                let s = bin_v(Op::URem, w, &a[2], &V::I(w as u64));
                let wm = bin_v(Op::Sub, w, &V::I(w as u64), &s);
                // shifts by `w` yield zero in this encoding, as needed for s = 0
                let (hi, lo) = if *i == Intr::Fshl {
                    (bin_v(Op::Shl, w, &a[0], &s), bin_v(Op::LShr, w, &a[1], &wm))
                } else {
                    (bin_v(Op::Shl, w, &a[0], &wm), bin_v(Op::LShr, w, &a[1], &s))
                };
                iv(bin_v(Op::Or, w, &hi, &lo))
            }
            Intr::Ctlz | Intr::Cttz | Intr::Ctpop => match &a[0] {
                V::I(x) => {
                    let x = *x;
                    iv(V::I(match i {
                        Intr::Ctlz => (x.leading_zeros() as u64).saturating_sub(64 - w as u64).min(w as u64),
                        Intr::Cttz => (x.trailing_zeros() as u64).min(w as u64),
                        _ => x.count_ones() as u64,
                    }))
                }
                V::S(e) => {
                    let e = *e;
                    let mut r;
                    match i {
                        Intr::Ctlz => {
                            r = cst(w as u128, w);
                            for k in 0..w {
                                r = ite(extract(e, k, 1), cst((w - 1 - k) as u128, w), r);
                            }
                        }
                        Intr::Cttz => {
                            r = cst(w as u128, w);
                            for k in (0..w).rev() {
                                r = ite(extract(e, k, 1), cst(k as u128, w), r);
                            }
                        }
                        _ => {
                            r = cst(0, w);
                            for k in 0..w {
                                r = bin(Op::Add, r, zext(extract(e, k, 1), w));
                            }
                        }
                    }
                    iv(from_e(r))
                }
                _ => unsup("bit count of vector"),
            },
            Intr::Bswap | Intr::Bitrev => {
                let e = to_e(&a[0], w);
                let step = if *i == Intr::Bswap { 8 } else { 1 };
                let mut r = extract(e, 0, step);
                let mut k = step;
                while k < w {
                    r = concat(r, extract(e, k, step));
                    k += step;
                }
                iv(from_e(r))
            }
            Intr::Ovf(op, signed) => {
                let r = bin_v(*op, w, &a[0], &a[1]);
                let o = match (op, signed) {
                    (Op::Add, false) => cmp_v(Pred::Ult, w, &r, &a[0]),
                    (Op::Sub, false) => cmp_v(Pred::Ult, w, &a[0], &a[1]),
                    _ => {
                        let ww = if *op == Op::Mul { 2 * w } else { w + 1 };
                        let ext = |v: &V| if *signed { sext(to_e(v, w), ww) } else { zext(to_e(v, w), ww) };
                        let full = bin(*op, ext(&a[0]), ext(&a[1]));
                        let back = if *signed { sext(to_e(&r, w), ww) } else { zext(to_e(&r, w), ww) };
                        from_e(not(bin(Op::Eq, full, back)))
                    }
                };
                iv(V::Agg(Rc::new(vec![r, o])))
            }
            Intr::Assume => {
                // an optimiser promise: it must hold
                match &a[0] {
                    V::I(1) => {}
                    V::I(_) => return viol("assume", "an optimiser assumption is false"),
                    v => {
                        if let V::S(e) = v {
                            if vmask(*e) & UNDEF_BIT != 0 {
                                return iv(V::I(0));
                            }
                        }
                        let v = v.clone();
                        if !self.decide(st, &v, "assume")? {
                            return viol("assume", "an optimiser assumption is false");
                        }
                    }
                }
                iv(V::I(0))
            }
            Intr::IsConst => iv(V::I(0)),
            Intr::Trap => viol("abort", format!("abort ({})", self.m.globals[id as usize].name)),
            Intr::TlsAddr if st.par.is_some() => {
                let g = self.concretize(st, &a[0], 64, "thread-local address")?;
                let x = self.tls(st, g)?;
                iv(V::I(x))
            }
            Intr::Expect | Intr::TlsAddr => iv(a[0].clone()),
            Intr::VecReduce(op) => match &a[0] {
                V::Agg(x) => {
                    let ew = ret.bits();
                    let mut r = x[0].clone();
                    for y in &x[1..] {
                        r = bin_v(*op, ew, &r, y);
                    }
                    iv(r)
                }
                _ => unsup("vector.reduce"),
            },
            Intr::Bcmp | Intr::Memcmp => {
                let n = self.concretize(st, &a[2], 64, "compare length")?;
                if n == 0 {
                    return iv(V::I(0));
                }
                let p = self.concretize(st, &a[0], 64, "compare address")?;
                let q = self.concretize(st, &a[1], 64, "compare address")?;
                if st.par.is_some() {
                    self.acc(st, p, n, false, false)?;
                    self.acc(st, q, n, false, false)?;
                }
                let (_, o1, b1) = self.find(st, p, n, "memcmp read")?;
                let (_, o2, b2) = self.find(st, q, n, "memcmp read")?;
                let n = n as usize;
                if b1.st[o1..o1 + n].iter().chain(&b2.st[o2..o2 + n]).all(|&s| s == 1) {
                    let c = b1.data[o1..o1 + n].cmp(&b2.data[o2..o2 + n]);
                    return iv(V::I(match c {
                        std::cmp::Ordering::Less => 0xffff_ffff,
                        std::cmp::Ordering::Equal => 0,
                        _ => 1,
                    }));
                }
                if *i == Intr::Bcmp {
                    let mut acc = cst(1, 1);
                    for k in 0..n {
                        let e = bin(Op::Eq, Self::byte_at(&b1, o1 + k), Self::byte_at(&b2, o2 + k));
                        acc = bin(Op::And, acc, e);
                    }
                    iv(from_e(zext(not(acc), 32)))
                } else {
                    let mut acc = cst(0, 32);
                    for k in (0..n).rev() {
                        let (x, y) = (Self::byte_at(&b1, o1 + k), Self::byte_at(&b2, o2 + k));
                        acc = ite(bin(Op::Ult, x, y), cst(0xffff_ffff, 32), ite(bin(Op::Ult, y, x), cst(1, 32), acc));
                    }
                    iv(from_e(acc))
                }
            }
            Intr::Strlen => {
                let p = self.concretize(st, &a[0], 64, "strlen")?;
                let (_, o, b) = self.find(st, p, 1, "strlen")?;
                let mut n = 0;
                while o + n < b.size as usize {
                    if b.st[o + n] != 1 {
                        return unsup("strlen of symbolic data");
                    }
                    if b.data[o + n] == 0 {
                        return iv(V::I(n as u64));
                    }
                    n += 1;
                }
                viol("memory", "unterminated C string")
            }
            Intr::PanicFmt | Intr::BeginPanic => {
                let mut loc = None;
                for v in a.iter().rev() {
                    loc = self.location(st, v);
                    if loc.is_some() {
                        break;
                    }
                }
                self.panic_at(st, loc.unwrap_or_else(|| "?".into()))
            }
            Intr::AbortPanic => viol("abort", format!("process abort via {} (after {})", self.m.globals[id as usize].name, st.last_panic)),
            Intr::SymAlloc => {
                let n = self.concretize(st, &a[0], 64, "allocation size")?;
                let al = self.concretize(st, &a[1], 64, "allocation alignment")?;
                if n == 0 {
                    return viol("alloc", "allocation of zero bytes");
                }
                let p = self.alloc(st, n, al as u32, K_HEAP)?;
                st.live += 1;
                st.live_bytes += n;
                iv(V::I(p))
            }
            Intr::SymDealloc => {
                let p = self.concretize(st, &a[0], 64, "free address")?;
                let n = self.concretize(st, &a[1], 64, "free size")?;
                let al = self.concretize(st, &a[2], 64, "free alignment")?;
                let (oid, off, o) = self.find(st, p, 0, "free")?;
                if o.kind != K_HEAP || off != 0 {
                    return viol("memory", "free of a pointer that is not the start of a heap object");
                }
                if o.size as u64 != n || o.align as u64 != al {
                    return viol("memory", format!("free with layout ({}, {}) of an object allocated with ({}, {})", n, al, o.size, o.align));
                }
                drop(o);
                if st.par.is_some() {
                    self.note_free(st, p, n)?;
                }
                Self::free_id(st, oid - HEAP_BASE);
                st.live -= 1;
                st.live_bytes -= n;
                iv(V::I(0))
            }
            Intr::SymVar => {
                // (name, len, bits, lo, hi)
                let (p, n) = (self.concretize(st, &a[0], 64, "name")?, self.concretize(st, &a[1], 64, "name")?);
                let bits = self.concretize(st, &a[2], 32, "bits")? as u32;
                let lo = self.concretize(st, &a[3], 64, "lo")?;
                let hi = self.concretize(st, &a[4], 64, "hi")?;
                let base = self.read_str(st, p, n)?;
                let v = self.new_var(st, &base, bits, lo, hi);
                iv(v)
            }
            Intr::SymAssume => {
                let c = match &a[0] {
                    V::I(x) => {
                        if x & 1 == 1 {
                            return iv(V::I(0));
                        }
                        return Err(Stop::Killed);
                    }
                    V::S(e) => extract(*e, 0, 1),
                    _ => return unsup("assume"),
                };
                let c = self.defined(st, c, "harness assumption")?;
                if as_const(c) == Some(1) {
                    return iv(V::I(0));
                }
                match self.quick(st, c) {
                    Some(true) => return iv(V::I(0)),
                    Some(false) => return Err(Stop::Killed),
                    None => {}
                }
                if eval(c, &st.model) != 1 {
                    match self.sv.check(&st.pc, c, &st.model) {
                        Sat::Sat(m) => Self::merge(st, &m),
                        Sat::Unsat => return Err(Stop::Killed),
                        Sat::Unknown => return unsup("solver gave up"),
                    }
                }
                Self::add_pc(st, c);
                iv(V::I(0))
            }
            Intr::SymAssert => {
                self.stats.asserts += 1;
                let c = match &a[0] {
                    V::I(x) => cst((*x & 1) as u128, 1),
                    V::S(e) => extract(*e, 0, 1),
                    _ => return unsup("assert"),
                };
                let q = self.quick(st, c);
                if q == Some(true) {
                    return iv(V::I(0));
                }
                let (p, n) = (self.concretize(st, &a[1], 64, "msg")?, self.concretize(st, &a[2], 64, "msg")?);
                let msg = self.read_str(st, p, n)?;
                let c = self.defined(st, c, &format!("assertion `{}`", msg))?;
                if q == Some(false) || eval(c, &st.model) == 0 {
                    self.report(st, "assert".into(), msg);
                    if q == Some(false) {
                        self.stats.paths += 1;
                        return Err(Stop::Killed);
                    }
                    match self.sv.check(&st.pc, c, &st.model) {
                        Sat::Sat(m) => {
                            Self::merge(st, &m);
                            Self::add_pc(st, c);
                            return iv(V::I(0));
                        }
                        Sat::Unsat => return Err(Stop::Killed),
                        Sat::Unknown => return unsup("solver gave up"),
                    }
                }
                self.stats.sym_asserts += 1;
                self.sv.assert_queries += 1;
                match self.sv.check(&st.pc, not(c), &st.model) {
                    Sat::Unsat => {
                        st.facts.push(c);
                        iv(V::I(0))
                    }
                    Sat::Sat(m) => {
                        let mut bad = st.clone();
                        Self::merge(&mut bad, &m);
                        self.report(&bad, "assert".into(), msg);
                        Self::add_pc(st, c);
                        iv(V::I(0))
                    }
                    Sat::Unknown => unsup("solver gave up"),
                }
            }
            Intr::SymFail => {
                let (p, n) = (self.concretize(st, &a[0], 64, "msg")?, self.concretize(st, &a[1], 64, "msg")?);
                let msg = self.read_str(st, p, n)?;
                viol("assert", msg)
            }
            Intr::SymCover => {
                let k = self.concretize(st, &a[0], 64, "cover")?;
                st.covers |= 1 << (k & 63);
                iv(V::I(0))
            }
            Intr::SymTrace => {
                if let V::S(e) = &a[0] {
                    let e = self.defined(st, *e, "observed value")?;
                    st.trace.push(from_e(e));
                    return iv(V::I(0));
                }
                st.trace.push(a[0].clone());
                iv(V::I(0))
            }
            Intr::SymConc => {
                let x = self.concretize(st, &a[0], 64, "value")?;
                iv(V::I(x))
            }
            Intr::SymLive => iv(V::I(st.live)),
            Intr::SymParam => {
                let (p, n) = (self.concretize(st, &a[0], 64, "name")?, self.concretize(st, &a[1], 64, "name")?);
                let name = self.read_str(st, p, n)?;
                let d = self.concretize(st, &a[2], 64, "default")?;
                iv(V::I(*self.params.get(&name).unwrap_or(&d)))
            }
            Intr::SymTag => {
                let (p, n) = (self.concretize(st, &a[0], 64, "name")?, self.concretize(st, &a[1], 64, "name")?);
                st.tag = self.read_str(st, p, n)?.as_str().into();
                iv(V::I(0))
            }
            Intr::SymIsEngine => iv(V::I(1)),
            Intr::SymIte => {
                // (cond, a, b) without branching
                match &a[0] {
                    V::I(x) => iv(if x & 1 == 1 { a[1].clone() } else { a[2].clone() }),
                    V::S(e) => {
                        let c = extract(*e, 0, 1);
                        iv(from_e(ite(c, to_e(&a[1], 64), to_e(&a[2], 64))))
                    }
                    _ => unsup("ite"),
                }
            }
            Intr::SymCatch => {
                let f = self.concretize(st, &a[0], 64, "call target")?;
                let idp = (f >> ID_SHIFT) as u32;
                match self.callee(idp - 1)? {
                    Callee::F(f) => {
                        let mut regs = vec![V::I(0); f.nregs as usize];
                        regs[0] = a[1].clone();
                        f.hits.borrow_mut()[0] = true;
                        st.frames.push(Rc::new(Frame { func: f, regs, block: 0, ip: 0, allocas: vec![], catch: true }));
                        st.ncatch += 1;
                        Ok(Next::Frame)
                    }
                    _ => unsup("catch of intrinsic"),
                }
            }
            Intr::SymWasPanic => iv(V::I(0)),
            Intr::SymPar => {
                // (f, data, n)
                let f = self.concretize(st, &a[0], 64, "call target")?;
                let n = self.concretize(st, &a[2], 64, "threads")?;
                let idp = (f >> ID_SHIFT) as u32;
                match self.callee(idp - 1)? {
                    Callee::F(f) => {
                        self.par_start(st, f, a[1].clone(), n as usize)?;
                        Ok(Next::Frame)
                    }
                    _ => unsup("thread of intrinsic"),
                }
            }
            Intr::Unknown => unsup(format!("external function {}", self.m.globals[id as usize].name)),
        }
    }
}

enum Next {
    Val(V),
    Frame,
    Unwind,
}

fn put(o: &mut Obj, off: usize, t: &Ty, v: &V) {
    match t {
        Ty::Struct(..) | Ty::Arr(..) => {
            if let V::Agg(x) = v {
                for i in 0..t.nelems() {
                    put(o, off + t.field_off(i) as usize, &t.elem(i), &x[i]);
                }
            }
        }
        Ty::Vec(n, e) => {
            if let V::Agg(x) = v {
                if e.bits() % 8 == 0 {
                    for i in 0..*n as usize {
                        put(o, off + i * (e.bits() / 8) as usize, e, &x[i]);
                    }
                } else {
                    let mut acc = to_e(&x[0], e.bits());
                    for y in &x[1..] {
                        acc = concat(to_e(y, e.bits()), acc);
                    }
                    o.write(off, t.store_size() as usize, &from_e(acc), t.bits());
                }
            }
        }
        _ => o.write(off, t.store_size() as usize, v, t.bits()),
    }
}

fn cast_v(k: Cast, from: &Ty, to: &Ty, x: &V) -> X<V> {
    if k == Cast::Bitcast {
        return Ok(match (from, to) {
            (Ty::Vec(_, e), Ty::Vec(n2, e2)) => {
                let w = e.bits();
                let all = pack(x, w);
                let _ = n2;
                unpack(all, to.nelems() as u32, e2.bits())
            }
            (Ty::Vec(_, e), _) => from_e(pack(x, e.bits())),
            (_, Ty::Vec(n, e)) => unpack(to_e(x, from.bits()), *n, e.bits()),
            _ => x.clone(),
        });
    }
    if let (Ty::Vec(_, ef), Ty::Vec(_, et)) = (from, to) {
        if let V::Agg(v) = x {
            let mut out = vec![];
            for y in v.iter() {
                out.push(cast_v(k, ef, et, y)?);
            }
            return Ok(V::Agg(Rc::new(out)));
        }
    }
    let (fw, tw) = (from.bits(), to.bits());
    if let V::I(v) = x {
        if tw <= 64 {
            return Ok(V::I(match k {
                Cast::Trunc | Cast::PtrToInt | Cast::IntToPtr => *v & m64(tw),
                Cast::ZExt => *v,
                Cast::SExt => (sext128(*v as u128, fw) as u64) & m64(tw),
                Cast::Bitcast => unreachable!(),
            }));
        }
    }
    let e = to_e(x, fw);
    Ok(from_e(match k {
        Cast::Trunc => extract(e, 0, tw),
        Cast::ZExt => zext(e, tw),
        Cast::SExt => sext(e, tw),
        Cast::PtrToInt | Cast::IntToPtr => {
            if tw < fw {
                extract(e, 0, tw)
            } else {
                zext(e, tw)
            }
        }
        Cast::Bitcast => unreachable!(),
    }))
}
fn pack(x: &V, w: u32) -> E {
    match x {
        V::Agg(v) => {
            let mut acc = to_e(&v[0], w);
            for y in &v[1..] {
                acc = concat(to_e(y, w), acc);
            }
            acc
        }
        _ => to_e(x, w),
    }
}
fn unpack(e: E, n: u32, w: u32) -> V {
    V::Agg(Rc::new((0..n).map(|i| from_e(extract(e, i * w, w))).collect()))
}
