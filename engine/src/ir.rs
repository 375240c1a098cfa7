//! Parser for the textual LLVM IR subset that rustc emits.
use crate::expr::*;
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Arr(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Vec(u32, Rc<Ty>),
    Meta,
    Func,
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(w) => match *w {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(_, t) => t.align(),
            Ty::Struct(ts, packed) => {
                if *packed {
                    1
                } else {
                    ts.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 / 8).next_power_of_two().max(1),
            _ => 1,
        }
    }
    pub fn bits(&self) -> u32 {
        match self {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            Ty::Vec(n, t) => n * t.bits(),
            _ => (self.size() * 8) as u32,
        }
    }
    /// Number of bytes read or written by a load or store.
    pub fn store_size(&self) -> u64 {
        match self {
            Ty::Int(w) => (*w as u64 + 7) / 8,
            Ty::Vec(n, t) => (*n as u64 * t.bits() as u64 + 7) / 8,
            _ => self.size(),
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(w) => {
                let b = (*w as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Float(w) => *w as u64 / 8,
            Ty::Arr(n, t) => n * t.size(),
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for t in ts.iter() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    o += t.size();
                }
                let a = self.align();
                (o + a - 1) / a * a
            }
            Ty::Vec(n, t) => {
                let b = (*n as u64 * t.bits() as u64 + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            _ => 0,
        }
    }
    pub fn field_off(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(ts, packed) => {
                let mut o = 0;
                for (k, t) in ts.iter().enumerate() {
                    if !packed {
                        let a = t.align();
                        o = (o + a - 1) / a * a;
                    }
                    if k == i {
                        return o;
                    }
                    o += t.size();
                }
                o
            }
            Ty::Arr(_, t) | Ty::Vec(_, t) => i as u64 * t.size(),
            _ => 0,
        }
    }
    pub fn elem(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(ts, _) => ts[i].clone(),
            Ty::Arr(_, t) | Ty::Vec(_, t) => (**t).clone(),
            _ => panic!("elem of {:?}", self),
        }
    }
    pub fn nelems(&self) -> usize {
        match self {
            Ty::Struct(ts, _) => ts.len(),
            Ty::Arr(n, _) => *n as usize,
            Ty::Vec(n, _) => *n as usize,
            _ => 0,
        }
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self, Ty::Int(_) | Ty::Ptr | Ty::Float(_))
    }
}

/// Register value. Concrete integers up to 64 bits are `I` (masked to their
/// width); wider or symbolic ones are expressions.
#[derive(Clone, Debug)]
pub enum V {
    I(u64),
    S(E),
    Agg(Rc<Vec<V>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    K(V),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ult,
    Ule,
    Ugt,
    Uge,
    Slt,
    Sle,
    Sgt,
    Sge,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ord {
    None,
    Relaxed,
    Acquire,
    Release,
    AcqRel,
    SeqCst,
}

#[derive(Debug)]
pub enum Inst {
    Bin { op: Op, ty: Ty, w: u32, dst: u32, a: Opd, b: Opd },
    Icmp { pred: Pred, ty: Ty, w: u32, dst: u32, a: Opd, b: Opd },
    Cast { kind: Cast, from: Ty, to: Ty, dst: u32, a: Opd },
    Select { dst: u32, ty: Ty, c: Opd, cty: Ty, a: Opd, b: Opd },
    Load { dst: u32, ty: Ty, size: u32, ptr: Opd, align: u32, ord: Ord },
    Store { ty: Ty, size: u32, val: Opd, ptr: Opd, align: u32, ord: Ord },
    Gep { dst: u32, base: Opd, off: u64, terms: Vec<(u64, Opd, u32)> },
    Alloca { dst: u32, size: u64, align: u32 },
    Call {
        dst: Option<u32>,
        callee: Opd,
        args: Vec<Opd>,
        argtys: Vec<Ty>,
        ret: Ty,
        invoke: Option<(u32, u32)>,
    },
    Br(u32),
    CondBr { c: Opd, t: u32, f: u32 },
    Switch { v: Opd, w: u32, cases: Vec<(u64, u32)>, default: u32 },
    Ret(Option<Opd>),
    Unreachable,
    Resume(Opd),
    LandingPad { dst: u32, cleanup: bool, filter: bool, catch_all: bool },
    ExtractValue { dst: u32, a: Opd, idx: Vec<u32> },
    InsertValue { dst: u32, a: Opd, aty: Ty, v: Opd, idx: Vec<u32> },
    AtomicRmw { dst: u32, op: String, ptr: Opd, val: Opd, w: u32, ord: Ord },
    CmpXchg { dst: u32, ptr: Opd, cmp: Opd, new: Opd, w: u32, ord: Ord },
    Fence(Ord),
    Freeze { dst: u32, a: Opd, ty: Ty },
    InsertElem { dst: u32, a: Opd, ty: Ty, v: Opd, i: Opd },
    ExtractElem { dst: u32, a: Opd, i: Opd },
    Shuffle { dst: u32, a: Opd, b: Opd, n: u32, mask: Opd },
    Unsupported(String),
}

#[derive(Debug)]
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Opd)>)>,
    pub insts: Vec<Inst>,
}

#[derive(Debug)]
pub struct Func {
    pub id: u32,
    pub name: &'static str,
    pub nargs: u32,
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub hits: RefCell<Vec<bool>>,
}

pub enum GKind {
    Data { line: &'static str, constant: bool },
    Func { body: Option<(usize, usize)> },
    Alias(u32),
}

pub struct Global {
    pub name: &'static str,
    pub kind: GKind,
}

pub struct Module {
    pub lines: Vec<&'static str>,
    pub globals: Vec<Global>,
    pub byname: HashMap<&'static str, u32>,
    pub types: HashMap<&'static str, &'static str>,
    tycache: RefCell<HashMap<&'static str, Ty>>,
}

pub const ID_SHIFT: u32 = 24;
pub const HEAP_BASE: u32 = 1 << 18;

pub fn gaddr(id: u32) -> u64 {
    (id as u64 + 1) << ID_SHIFT
}

pub struct P<'m> {
    pub s: &'static str,
    pub i: usize,
    pub m: &'m Module,
}

type R<T> = Result<T, String>;

impl<'m> P<'m> {
    pub fn new(s: &'static str, m: &'m Module) -> Self {
        P { s, i: 0, m }
    }
    fn b(&self) -> &'static [u8] {
        self.s.as_bytes()
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && matches!(self.b()[self.i], b' ' | b'\t' | b'\n') {
            self.i += 1;
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        if self.i < self.s.len() {
            self.b()[self.i]
        } else {
            0
        }
    }
    fn eat(&mut self, t: &str) -> bool {
        self.ws();
        if self.s[self.i..].starts_with(t) {
            self.i += t.len();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, t: &str) -> R<()> {
        if self.eat(t) {
            Ok(())
        } else {
            Err(format!("expected `{}` at `{}`", t, &self.s[self.i..].chars().take(60).collect::<String>()))
        }
    }
    fn is_id(c: u8) -> bool {
        c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'
    }
    fn peek_word(&mut self) -> &'static str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && Self::is_id(self.b()[j]) {
            j += 1;
        }
        &self.s[self.i..j]
    }
    fn word(&mut self) -> &'static str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn name(&mut self) -> R<&'static str> {
        // after % or @
        if self.i < self.s.len() && self.b()[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while self.b()[j] != b'"' {
                j += 1;
            }
            self.i = j + 1;
            Ok(&self.s[st..j])
        } else {
            let w = self.word();
            if w.is_empty() {
                Err("empty name".into())
            } else {
                Ok(w)
            }
        }
    }
    fn skip_paren(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.b()[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                _ => {}
            }
            self.i += 1;
        }
    }
    fn is_type_start(&mut self) -> bool {
        let c = self.peek();
        if c == b'{' || c == b'[' || c == b'<' || c == b'%' {
            return true;
        }
        let w = self.peek_word();
        if matches!(w, "void" | "ptr" | "float" | "double" | "metadata" | "label" | "token" | "half" | "fp128" | "x86_fp80" | "opaque") {
            return true;
        }
        w.len() > 1 && w.as_bytes()[0] == b'i' && w.as_bytes()[1..].iter().all(|c| c.is_ascii_digit())
    }
    fn skip_attrs(&mut self) {
        loop {
            if self.peek() == b'"' {
                // string attribute
                self.i += 1;
                while self.b()[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                if self.eat("=") {
                    self.expect("\"").ok();
                    while self.b()[self.i] != b'"' {
                        self.i += 1;
                    }
                    self.i += 1;
                }
                continue;
            }
            if self.is_type_start() {
                return;
            }
            let w = self.peek_word();
            if w.is_empty() || !w.as_bytes()[0].is_ascii_alphabetic() {
                return;
            }
            if matches!(w, "null" | "undef" | "poison" | "true" | "false" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "none" | "splat" | "c" | "add" | "sub" | "trunc" | "bitcast" | "xor" | "asm") {
                return;
            }
            self.i += w.len();
            if w == "align" {
                self.ws();
                if self.peek() != b'(' {
                    self.word();
                    continue;
                }
            }
            if w == "cc" {
                self.word();
                continue;
            }
            if self.i < self.s.len() && self.b()[self.i] == b'(' {
                self.skip_paren();
            }
        }
    }
    pub fn ty(&mut self) -> R<Ty> {
        let c = self.peek();
        let t = match c {
            b'{' => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat("}") {
                    v.push(self.ty()?);
                    self.eat(",");
                }
                Ty::Struct(Rc::new(v), false)
            }
            b'[' => {
                self.i += 1;
                let n: u64 = self.word().parse().map_err(|_| "arr n")?;
                self.expect("x")?;
                let t = self.ty()?;
                self.expect("]")?;
                Ty::Arr(n, Rc::new(t))
            }
            b'<' => {
                self.i += 1;
                if self.peek() == b'{' {
                    self.i += 1;
                    let mut v = vec![];
                    while !self.eat("}") {
                        v.push(self.ty()?);
                        self.eat(",");
                    }
                    self.expect(">")?;
                    Ty::Struct(Rc::new(v), true)
                } else {
                    let n: u32 = self.word().parse().map_err(|_| "vec n")?;
                    self.expect("x")?;
                    let t = self.ty()?;
                    self.expect(">")?;
                    Ty::Vec(n, Rc::new(t))
                }
            }
            b'%' => {
                self.i += 1;
                let n = self.name()?;
                self.m.named_ty(n)?
            }
            _ => {
                let w = self.word();
                match w {
                    "void" => Ty::Void,
                    "ptr" => Ty::Ptr,
                    "float" => Ty::Float(32),
                    "double" => Ty::Float(64),
                    "half" => Ty::Float(16),
                    "fp128" => Ty::Float(128),
                    "x86_fp80" => Ty::Float(128),
                    "metadata" => Ty::Meta,
                    "label" | "token" | "opaque" => Ty::Void,
                    _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                    _ => return Err(format!("type `{}` in `{}`", w, self.s)),
                }
            }
        };
        // function type suffix
        if self.peek() == b'(' && !matches!(t, Ty::Meta) {
            // only when used as a function type; the caller decides
        }
        Ok(t)
    }
    /// Constant of type `t`.
    pub fn konst(&mut self, t: &Ty) -> R<V> {
        let c = self.peek();
        match c {
            b'@' => {
                self.i += 1;
                let n = self.name()?;
                let id = self.m.gid(n).ok_or_else(|| format!("unknown global {}", n))?;
                return Ok(V::I(gaddr(id)));
            }
            b'c' if self.i + 1 < self.s.len() && self.b()[self.i + 1] == b'"' => {
                self.i += 2;
                let mut v = vec![];
                loop {
                    let ch = self.b()[self.i];
                    if ch == b'"' {
                        self.i += 1;
                        break;
                    }
                    if ch == b'\\' {
                        if self.b()[self.i + 1] == b'\\' {
                            v.push(V::I(b'\\' as u64));
                            self.i += 2;
                        } else {
                            let h = u8::from_str_radix(&self.s[self.i + 1..self.i + 3], 16).map_err(|e| e.to_string())?;
                            v.push(V::I(h as u64));
                            self.i += 3;
                        }
                    } else {
                        v.push(V::I(ch as u64));
                        self.i += 1;
                    }
                }
                return Ok(V::Agg(Rc::new(v)));
            }
            b'[' | b'{' => {
                let close = if c == b'[' { "]" } else { "}" };
                self.i += 1;
                let mut v = vec![];
                while !self.eat(close) {
                    let t = self.ty()?;
                    v.push(self.konst(&t)?);
                    self.eat(",");
                }
                return Ok(V::Agg(Rc::new(v)));
            }
            b'<' => {
                self.i += 1;
                let packed = self.eat("{");
                let mut v = vec![];
                loop {
                    if packed {
                        if self.eat("}") {
                            self.expect(">")?;
                            break;
                        }
                    } else if self.eat(">") {
                        break;
                    }
                    let t = self.ty()?;
                    v.push(self.konst(&t)?);
                    self.eat(",");
                }
                return Ok(V::Agg(Rc::new(v)));
            }
            _ => {}
        }
        let w = self.word();
        match w {
            "null" => Ok(V::I(0)),
            "none" => Ok(V::I(0)),
            "true" => Ok(V::I(1)),
            "false" => Ok(V::I(0)),
            "undef" | "poison" => Ok(undef_of(t)),
            "zeroinitializer" => Ok(zero_of(t)),
            "splat" => {
                self.expect("(")?;
                let et = self.ty()?;
                let v = self.konst(&et)?;
                self.expect(")")?;
                Ok(V::Agg(Rc::new(vec![v; t.nelems()])))
            }
            "getelementptr" => {
                while !self.eat("(") {
                    self.word();
                    if self.i < self.s.len() && self.b()[self.i] == b'(' && self.s[..self.i].ends_with("inrange") {
                        self.skip_paren();
                    }
                }
                let bt = self.ty()?;
                self.expect(",")?;
                let pt = self.ty()?;
                let base = self.konst(&pt)?;
                let mut addr = match base {
                    V::I(a) => a,
                    _ => return Err("gep base".into()),
                };
                let mut cur = bt;
                let mut first = true;
                while self.eat(",") {
                    let it = self.ty()?;
                    let iv = match self.konst(&it)? {
                        V::I(x) => sext128(x as u128, it.bits()) as i64,
                        _ => return Err("gep idx".into()),
                    };
                    if first {
                        addr = addr.wrapping_add((iv as u64).wrapping_mul(cur.size()));
                        first = false;
                    } else {
                        addr = addr.wrapping_add(cur.field_off(iv as usize));
                        cur = cur.elem(if let Ty::Struct(..) = cur { iv as usize } else { 0 });
                    }
                }
                self.expect(")")?;
                Ok(V::I(addr))
            }
            "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "zext" => {
                self.expect("(")?;
                let t1 = self.ty()?;
                let v = self.konst(&t1)?;
                self.expect("to")?;
                let t2 = self.ty()?;
                self.expect(")")?;
                match v {
                    V::I(x) => Ok(V::I(x & mask(t2.bits().min(64)) as u64)),
                    _ => Err("const cast".into()),
                }
            }
            "add" | "sub" | "xor" | "mul" => {
                while !self.eat("(") {
                    self.word();
                }
                let t1 = self.ty()?;
                let a = self.konst(&t1)?;
                self.expect(",")?;
                let t2 = self.ty()?;
                let b = self.konst(&t2)?;
                self.expect(")")?;
                match (a, b) {
                    (V::I(a), V::I(b)) => {
                        let r = match w {
                            "add" => a.wrapping_add(b),
                            "sub" => a.wrapping_sub(b),
                            "mul" => a.wrapping_mul(b),
                            _ => a ^ b,
                        };
                        Ok(V::I(r & mask(t1.bits().min(64)) as u64))
                    }
                    _ => Err("const bin".into()),
                }
            }
            _ => {
                if let Ty::Float(fw) = t {
                    if let Some(h) = w.strip_prefix("0x") {
                        let bits = u64::from_str_radix(h.trim_start_matches(['K', 'L', 'M', 'H', 'R']), 16).unwrap_or(0);
                        let f = f64::from_bits(bits);
                        return Ok(V::I(if *fw == 32 { (f as f32).to_bits() as u64 } else { bits }));
                    }
                    // decimal such as 1.000000e+00
                    let mut s = w.to_string();
                    if self.eat("+") {
                        s.push('+');
                        s.push_str(self.word());
                    }
                    let f: f64 = s.parse().map_err(|_| format!("float {}", s))?;
                    return Ok(V::I(if *fw == 32 { (f as f32).to_bits() as u64 } else { f.to_bits() }));
                }
                let bits = t.bits();
                if bits > 64 {
                    let v: i128 = w.parse::<i128>().or_else(|_| w.parse::<u128>().map(|x| x as i128)).map_err(|_| format!("const `{}`", w))?;
                    return Ok(V::S(cst(v as u128, bits)));
                }
                let v: i128 = w.parse().map_err(|_| format!("const `{}` of {:?} in {}", w, t, &self.s[..self.s.len().min(200)]))?;
                Ok(V::I((v as u128 & mask(bits)) as u64))
            }
        }
    }
}

pub fn undef_of(t: &Ty) -> V {
    match t {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
            V::Agg(Rc::new((0..t.nelems()).map(|i| undef_of(&t.elem(i))).collect()))
        }
        Ty::Void | Ty::Meta | Ty::Func => V::I(0),
        _ => V::S(undef(t.bits())),
    }
}
pub fn zero_of(t: &Ty) -> V {
    match t {
        Ty::Struct(..) | Ty::Arr(..) | Ty::Vec(..) => {
            V::Agg(Rc::new((0..t.nelems()).map(|i| zero_of(&t.elem(i))).collect()))
        }
        _ if t.bits() > 64 => V::S(cst(0, t.bits())),
        _ => V::I(0),
    }
}

struct FnCx {
    regs: HashMap<&'static str, u32>,
    labels: HashMap<&'static str, u32>,
}
impl FnCx {
    fn reg(&mut self, n: &'static str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn label(&self, n: &str) -> R<u32> {
        self.labels.get(n).copied().ok_or_else(|| format!("label {}", n))
    }
}

fn ordering(w: &str) -> Option<Ord> {
    Some(match w {
        "monotonic" | "unordered" => Ord::Relaxed,
        "acquire" => Ord::Acquire,
        "release" => Ord::Release,
        "acq_rel" => Ord::AcqRel,
        "seq_cst" => Ord::SeqCst,
        _ => return None,
    })
}

impl Module {
    pub fn load(path: &str) -> Module {
        let text: &'static str = Box::leak(std::fs::read_to_string(path).expect("read ir").into_boxed_str());
        let lines: Vec<&'static str> = text.lines().collect();
        let mut m = Module {
            lines,
            globals: vec![],
            byname: HashMap::new(),
            types: HashMap::new(),
            tycache: RefCell::new(HashMap::new()),
        };
        let mut i = 0;
        let mut aliases = vec![];
        while i < m.lines.len() {
            let l = m.lines[i];
            if l.starts_with('@') {
                let (name, rest) = split_gname(&l[1..]);
                let rest = rest.trim_start().strip_prefix('=').unwrap_or("").trim_start();
                let mut constant = None;
                let mut k = 0;
                // scan words up to global/constant/alias
                let mut it = rest;
                while k < 14 {
                    let w = it.split([' ', '(']).next().unwrap_or("");
                    if w == "global" || w == "constant" || w == "alias" {
                        constant = Some(w);
                        it = it[w.len()..].trim_start();
                        break;
                    }
                    it = &it[w.len()..];
                    if it.starts_with('(') {
                        let e = it.find(')').unwrap_or(0);
                        it = &it[e + 1..];
                    }
                    it = it.trim_start();
                    k += 1;
                }
                match constant {
                    Some("alias") => aliases.push((name, it)),
                    Some(c) => m.add(name, GKind::Data { line: it, constant: c == "constant" }),
                    None => {}
                }
            } else if l.starts_with("define ") {
                let n = fn_name(l);
                let st = i;
                while m.lines[i] != "}" {
                    i += 1;
                }
                m.add(n, GKind::Func { body: Some((st, i)) });
            } else if l.starts_with("declare ") {
                let n = fn_name(l);
                m.add(n, GKind::Func { body: None });
            } else if l.starts_with('%') && l.contains(" = type ") {
                let (n, rest) = split_gname(&l[1..]);
                let t = rest.trim_start().strip_prefix("= type ").unwrap_or("");
                m.types.insert(n, t);
            }
            i += 1;
        }
        for (n, rest) in aliases {
            if let Some(p) = rest.find('@') {
                let (t, _) = split_gname(&rest[p + 1..]);
                if let Some(&id) = m.byname.get(t) {
                    m.add(n, GKind::Alias(id));
                }
            }
        }
        m
    }
    fn add(&mut self, name: &'static str, kind: GKind) {
        let id = self.globals.len() as u32;
        assert!(id + 1 < HEAP_BASE);
        self.globals.push(Global { name, kind });
        self.byname.insert(name, id);
    }
    pub fn gid(&self, n: &str) -> Option<u32> {
        let id = *self.byname.get(n)?;
        if let GKind::Alias(t) = self.globals[id as usize].kind {
            return Some(t);
        }
        Some(id)
    }
    fn named_ty(&self, n: &'static str) -> R<Ty> {
        if let Some(t) = self.tycache.borrow().get(n) {
            return Ok(t.clone());
        }
        let s = *self.types.get(n).ok_or_else(|| format!("type %{}", n))?;
        let t = P::new(s, self).ty()?;
        self.tycache.borrow_mut().insert(n, t.clone());
        Ok(t)
    }

    fn opd(&self, p: &mut P, t: &Ty, cx: &mut FnCx) -> R<Opd> {
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name()?;
            Ok(Opd::R(cx.reg(n)))
        } else {
            Ok(Opd::K(p.konst(t)?))
        }
    }
    fn label(&self, p: &mut P, cx: &FnCx) -> R<u32> {
        p.expect("label")?;
        p.expect("%")?;
        let n = p.name()?;
        cx.label(n)
    }

    pub fn parse_fn(&self, id: u32, range: (usize, usize)) -> R<Func> {
        let head = self.lines[range.0];
        let mut cx = FnCx { regs: HashMap::new(), labels: HashMap::new() };
        // arguments
        let at = head.find('@').unwrap();
        let mut p = P::new(head, self);
        p.i = at + 1;
        let name = p.name()?;
        p.expect("(")?;
        let mut nargs = 0;
        let mut nunnamed = 0;
        while !p.eat(")") {
            if p.eat("...") {
                continue;
            }
            let _t = p.ty()?;
            p.skip_attrs();
            if p.eat("%") {
                let n = p.name()?;
                if n.bytes().all(|c| c.is_ascii_digit()) {
                    nunnamed += 1;
                }
                let r = cx.reg(n);
                assert_eq!(r, nargs);
            } else {
                return Err("unnamed arg".into());
            }
            nargs += 1;
            p.eat(",");
        }
        // logical lines per block
        let mut blocks: Vec<Vec<String>> = vec![];
        let mut i = range.0 + 1;
        let mut started = false;
        while i < range.1 {
            let l = self.lines[i];
            i += 1;
            if l.is_empty() || l.trim_start().starts_with('#') || l.trim_start().starts_with(';') {
                continue;
            }
            if !l.starts_with(' ') {
                // label
                let (n, _) = split_gname(l);
                let k = blocks.len() as u32;
                cx.labels.insert(n, k);
                blocks.push(vec![]);
                started = true;
                continue;
            }
            if !started {
                let n: &'static str = Box::leak(nunnamed.to_string().into_boxed_str());
                cx.labels.insert(n, 0);
                blocks.push(vec![]);
                started = true;
            }
            let t = l.trim_start();
            let cur = blocks.last_mut().unwrap();
            if l.starts_with("    ") {
                // continuation
                let prev = cur.last_mut().ok_or("continuation")?;
                prev.push(' ');
                prev.push_str(t);
            } else if t.starts_with(']') {
                let prev = cur.last_mut().ok_or("continuation")?;
                prev.push_str(" ]");
            } else {
                cur.push(t.to_string());
            }
        }
        let mut out = vec![];
        for b in blocks {
            let mut phis = vec![];
            let mut insts = vec![];
            for l in b {
                let l: &'static str = Box::leak(l.into_boxed_str());
                match self.inst(l, &mut cx) {
                    Ok(PI::Phi(d, v)) => phis.push((d, v)),
                    Ok(PI::I(i)) => insts.push(i),
                    Err(e) => insts.push(Inst::Unsupported(format!("{} | {}", e, &l[..l.len().min(160)]))),
                }
            }
            out.push(Block { phis, insts });
        }
        let nb = out.len();
        Ok(Func { id, name, nargs, nregs: cx.regs.len() as u32, blocks: out, hits: RefCell::new(vec![false; nb]) })
    }

    fn inst(&self, l: &'static str, cx: &mut FnCx) -> R<PI> {
        let mut p = P::new(l, self);
        let mut dst = None;
        if p.peek() == b'%' {
            p.i += 1;
            let n = p.name()?;
            p.expect("=")?;
            dst = Some(cx.reg(n));
        }
        let d = dst.unwrap_or(u32::MAX);
        let op = p.word();
        let i = match op {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "and" | "or" | "xor" | "shl" | "lshr" | "ashr" => {
                while matches!(p.peek_word(), "nuw" | "nsw" | "exact" | "disjoint") {
                    p.word();
                }
                let ty = p.ty()?;
                let a = self.opd(&mut p, &ty, cx)?;
                p.expect(",")?;
                let b = self.opd(&mut p, &ty, cx)?;
                let op = match op {
                    "add" => Op::Add,
                    "sub" => Op::Sub,
                    "mul" => Op::Mul,
                    "udiv" => Op::UDiv,
                    "sdiv" => Op::SDiv,
                    "urem" => Op::URem,
                    "srem" => Op::SRem,
                    "and" => Op::And,
                    "or" => Op::Or,
                    "xor" => Op::Xor,
                    "shl" => Op::Shl,
                    "lshr" => Op::LShr,
                    _ => Op::AShr,
                };
                let w = if let Ty::Vec(_, t) = &ty { t.bits() } else { ty.bits() };
                Inst::Bin { op, w, ty, dst: d, a, b }
            }
            "icmp" => {
                while p.peek_word() == "samesign" {
                    p.word();
                }
                let pr = match p.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("pred {}", x)),
                };
                let ty = p.ty()?;
                let a = self.opd(&mut p, &ty, cx)?;
                p.expect(",")?;
                let b = self.opd(&mut p, &ty, cx)?;
                let w = if let Ty::Vec(_, t) = &ty { t.bits() } else { ty.bits() };
                Inst::Icmp { pred: pr, w, ty, dst: d, a, b }
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "bitcast" | "ptrtoaddr" => {
                while matches!(p.peek_word(), "nneg" | "nuw" | "nsw") {
                    p.word();
                }
                let from = p.ty()?;
                let a = self.opd(&mut p, &from, cx)?;
                p.expect("to")?;
                let to = p.ty()?;
                let kind = match op {
                    "trunc" => Cast::Trunc,
                    "zext" => Cast::ZExt,
                    "sext" => Cast::SExt,
                    "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
                    "inttoptr" => Cast::IntToPtr,
                    _ => Cast::Bitcast,
                };
                Inst::Cast { kind, from, to, dst: d, a }
            }
            "select" => {
                let cty = p.ty()?;
                let c = self.opd(&mut p, &cty, cx)?;
                p.expect(",")?;
                let ty = p.ty()?;
                let a = self.opd(&mut p, &ty, cx)?;
                p.expect(",")?;
                let _ = p.ty()?;
                let b = self.opd(&mut p, &ty, cx)?;
                Inst::Select { dst: d, ty, c, cty, a, b }
            }
            "load" => {
                let mut atomic = false;
                loop {
                    if p.eat_word("atomic") {
                        atomic = true;
                    } else if !p.eat_word("volatile") {
                        break;
                    }
                }
                let ty = p.ty()?;
                p.expect(",")?;
                let pt = p.ty()?;
                let ptr = self.opd(&mut p, &pt, cx)?;
                let mut ord = Ord::None;
                if atomic {
                    if p.eat_word("syncscope") {
                        p.skip_paren();
                    }
                    ord = ordering(p.word()).unwrap_or(Ord::SeqCst);
                }
                let align = self.align_suffix(&mut p).unwrap_or(ty.align() as u32);
                Inst::Load { dst: d, size: ty.store_size() as u32, ty, ptr, align, ord }
            }
            "store" => {
                let mut atomic = false;
                loop {
                    if p.eat_word("atomic") {
                        atomic = true;
                    } else if !p.eat_word("volatile") {
                        break;
                    }
                }
                let ty = p.ty()?;
                let val = self.opd(&mut p, &ty, cx)?;
                p.expect(",")?;
                let pt = p.ty()?;
                let ptr = self.opd(&mut p, &pt, cx)?;
                let mut ord = Ord::None;
                if atomic {
                    if p.eat_word("syncscope") {
                        p.skip_paren();
                    }
                    ord = ordering(p.word()).unwrap_or(Ord::SeqCst);
                }
                let align = self.align_suffix(&mut p).unwrap_or(ty.align() as u32);
                Inst::Store { size: ty.store_size() as u32, ty, val, ptr, align, ord }
            }
            "getelementptr" => {
                while matches!(p.peek_word(), "inbounds" | "nuw" | "nusw" | "inrange") {
                    p.word();
                    if p.i < l.len() && l.as_bytes()[p.i] == b'(' {
                        p.skip_paren();
                    }
                }
                let bt = p.ty()?;
                p.expect(",")?;
                let pt = p.ty()?;
                if pt != Ty::Ptr {
                    return Err("vector gep".into());
                }
                let base = self.opd(&mut p, &pt, cx)?;
                let mut off = 0u64;
                let mut terms = vec![];
                let mut cur = bt;
                let mut first = true;
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    let it = p.ty()?;
                    let iv = self.opd(&mut p, &it, cx)?;
                    if !first && matches!(cur, Ty::Struct(..)) {
                        if let Opd::K(V::I(x)) = iv {
                            off = off.wrapping_add(cur.field_off(x as usize));
                            cur = cur.elem(x as usize);
                            continue;
                        }
                        return Err("struct idx".into());
                    }
                    let scale = if first { cur.size() } else { cur.elem(0).size() };
                    match iv {
                        Opd::K(V::I(x)) => {
                            let x = sext128(x as u128, it.bits()) as i64 as u64;
                            off = off.wrapping_add(x.wrapping_mul(scale));
                        }
                        o => terms.push((scale, o, it.bits())),
                    }
                    if !first {
                        cur = cur.elem(0);
                    }
                    first = false;
                }
                Inst::Gep { dst: d, base, off, terms }
            }
            "alloca" => {
                p.eat_word("inalloca");
                let ty = p.ty()?;
                let mut n = 1;
                let mut align = ty.align() as u32;
                while p.eat(",") {
                    if p.eat_word("align") {
                        align = p.word().parse().unwrap_or(align);
                    } else if p.is_type_start() {
                        let t = p.ty()?;
                        match self.opd(&mut p, &t, cx)? {
                            Opd::K(V::I(x)) => n = x,
                            _ => return Err("dynamic alloca".into()),
                        }
                    } else {
                        break;
                    }
                }
                Inst::Alloca { dst: d, size: ty.size() * n, align }
            }
            "phi" => {
                let ty = p.ty()?;
                let mut v = vec![];
                loop {
                    p.expect("[")?;
                    let o = self.opd(&mut p, &ty, cx)?;
                    p.expect(",")?;
                    p.expect("%")?;
                    let n = p.name()?;
                    p.expect("]")?;
                    v.push((cx.label(n)?, o));
                    if !p.eat(",") {
                        break;
                    }
                    if p.peek() != b'[' {
                        break;
                    }
                }
                return Ok(PI::Phi(d, v));
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if op != "call" && op != "invoke" {
                    p.expect("call")?;
                }
                p.skip_attrs();
                let ret = p.ty()?;
                if p.peek() == b'(' {
                    p.skip_paren(); // function type
                }
                if p.peek_word() == "asm" {
                    // inline asm: only the empty barrier is supported
                    p.word();
                    if p.s[p.i..].contains("\"\"") || p.s[p.i..].contains("\"cpuid") {
                        if p.s[p.i..].trim_start().starts_with("sideeffect") && p.s[p.i..].contains("sideeffect alignstack") {}
                    }
                    return Err("inline asm".into());
                }
                let callee = self.opd(&mut p, &Ty::Ptr, cx)?;
                p.expect("(")?;
                let mut args = vec![];
                let mut argtys = vec![];
                while !p.eat(")") {
                    let t = p.ty()?;
                    if t == Ty::Meta {
                        // skip to , or )
                        while p.i < l.len() && l.as_bytes()[p.i] != b',' && l.as_bytes()[p.i] != b')' {
                            p.i += 1;
                        }
                        p.eat(",");
                        continue;
                    }
                    p.skip_attrs();
                    args.push(self.opd(&mut p, &t, cx)?);
                    argtys.push(t);
                    p.eat(",");
                }
                let mut invoke = None;
                if op == "invoke" {
                    let k = l.rfind(" to label ").ok_or("invoke")?;
                    p.i = k + 3;
                    let a = self.label(&mut p, cx)?;
                    p.expect("unwind")?;
                    let b = self.label(&mut p, cx)?;
                    invoke = Some((a, b));
                }
                Inst::Call { dst, callee, args, argtys, ret, invoke }
            }
            "br" => {
                if p.peek_word() == "label" {
                    Inst::Br(self.label(&mut p, cx)?)
                } else {
                    let t = p.ty()?;
                    let c = self.opd(&mut p, &t, cx)?;
                    p.expect(",")?;
                    let a = self.label(&mut p, cx)?;
                    p.expect(",")?;
                    let b = self.label(&mut p, cx)?;
                    Inst::CondBr { c, t: a, f: b }
                }
            }
            "switch" => {
                let t = p.ty()?;
                let v = self.opd(&mut p, &t, cx)?;
                p.expect(",")?;
                let default = self.label(&mut p, cx)?;
                p.expect("[")?;
                let mut cases = vec![];
                while !p.eat("]") {
                    let ct = p.ty()?;
                    let c = match p.konst(&ct)? {
                        V::I(x) => x,
                        _ => return Err("switch case".into()),
                    };
                    p.expect(",")?;
                    cases.push((c, self.label(&mut p, cx)?));
                }
                Inst::Switch { v, w: t.bits(), cases, default }
            }
            "ret" => {
                let t = p.ty()?;
                if t == Ty::Void {
                    Inst::Ret(None)
                } else {
                    Inst::Ret(Some(self.opd(&mut p, &t, cx)?))
                }
            }
            "unreachable" => Inst::Unreachable,
            "resume" => {
                let t = p.ty()?;
                Inst::Resume(self.opd(&mut p, &t, cx)?)
            }
            "landingpad" => {
                let _t = p.ty()?;
                let rest = &l[p.i..];
                Inst::LandingPad {
                    dst: d,
                    cleanup: rest.contains(" cleanup"),
                    filter: rest.contains(" filter "),
                    catch_all: rest.contains(" catch ptr "),
                }
            }
            "extractvalue" => {
                let t = p.ty()?;
                let a = self.opd(&mut p, &t, cx)?;
                let mut idx = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.word().parse().map_err(|_| "idx")?);
                }
                Inst::ExtractValue { dst: d, a, idx }
            }
            "insertvalue" => {
                let aty = p.ty()?;
                let a = self.opd(&mut p, &aty, cx)?;
                p.expect(",")?;
                let vt = p.ty()?;
                let v = self.opd(&mut p, &vt, cx)?;
                let mut idx = vec![];
                while p.eat(",") {
                    if p.peek() == b'!' {
                        break;
                    }
                    idx.push(p.word().parse().map_err(|_| "idx")?);
                }
                Inst::InsertValue { dst: d, a, aty, v, idx }
            }
            "atomicrmw" => {
                p.eat_word("volatile");
                let rop = p.word().to_string();
                let pt = p.ty()?;
                let ptr = self.opd(&mut p, &pt, cx)?;
                p.expect(",")?;
                let t = p.ty()?;
                let val = self.opd(&mut p, &t, cx)?;
                if p.eat_word("syncscope") {
                    p.skip_paren();
                }
                let ord = ordering(p.word()).unwrap_or(Ord::SeqCst);
                Inst::AtomicRmw { dst: d, op: rop, ptr, val, w: t.bits(), ord }
            }
            "cmpxchg" => {
                while matches!(p.peek_word(), "weak" | "volatile") {
                    p.word();
                }
                let pt = p.ty()?;
                let ptr = self.opd(&mut p, &pt, cx)?;
                p.expect(",")?;
                let t = p.ty()?;
                let cmp = self.opd(&mut p, &t, cx)?;
                p.expect(",")?;
                let t2 = p.ty()?;
                let new = self.opd(&mut p, &t2, cx)?;
                let ord = ordering(p.word()).unwrap_or(Ord::SeqCst);
                Inst::CmpXchg { dst: d, ptr, cmp, new, w: t.bits(), ord }
            }
            "fence" => {
                if p.eat_word("syncscope") {
                    p.skip_paren();
                }
                Inst::Fence(ordering(p.word()).unwrap_or(Ord::SeqCst))
            }
            "freeze" => {
                let ty = p.ty()?;
                let a = self.opd(&mut p, &ty, cx)?;
                Inst::Freeze { dst: d, a, ty }
            }
            "insertelement" => {
                let ty = p.ty()?;
                let a = self.opd(&mut p, &ty, cx)?;
                p.expect(",")?;
                let vt = p.ty()?;
                let v = self.opd(&mut p, &vt, cx)?;
                p.expect(",")?;
                let it = p.ty()?;
                let i = self.opd(&mut p, &it, cx)?;
                Inst::InsertElem { dst: d, a, ty, v, i }
            }
            "extractelement" => {
                let ty = p.ty()?;
                let a = self.opd(&mut p, &ty, cx)?;
                p.expect(",")?;
                let it = p.ty()?;
                let i = self.opd(&mut p, &it, cx)?;
                Inst::ExtractElem { dst: d, a, i }
            }
            "shufflevector" => {
                let ty = p.ty()?;
                let a = self.opd(&mut p, &ty, cx)?;
                p.expect(",")?;
                let _ = p.ty()?;
                let b = self.opd(&mut p, &ty, cx)?;
                p.expect(",")?;
                let mt = p.ty()?;
                let mask = self.opd(&mut p, &mt, cx)?;
                Inst::Shuffle { dst: d, a, b, n: ty.nelems() as u32, mask }
            }
            _ => return Err(format!("instruction {}", op)),
        };
        Ok(PI::I(i))
    }
    fn align_suffix(&self, p: &mut P) -> Option<u32> {
        if p.eat(",") && p.eat_word("align") {
            return p.word().parse().ok();
        }
        None
    }
}

enum PI {
    Phi(u32, Vec<(u32, Opd)>),
    I(Inst),
}

fn split_gname(s: &'static str) -> (&'static str, &'static str) {
    if let Some(r) = s.strip_prefix('"') {
        let e = r.find('"').unwrap_or(r.len());
        (&r[..e], &r[(e + 1).min(r.len())..])
    } else {
        let e = s
            .bytes()
            .position(|c| !(c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'-' || c == b'$'))
            .unwrap_or(s.len());
        (&s[..e], &s[e..])
    }
}
fn fn_name(l: &'static str) -> &'static str {
    let at = l.find('@').unwrap();
    split_gname(&l[at + 1..]).0
}
