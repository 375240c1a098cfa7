//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;

pub type E = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Undef,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    And,
    Or,
    Xor,
    Shl,
    LShr,
    AShr,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u8,
    pub a: u32,
    pub b: u32,
    pub c: u32,
}

pub const UNDEF_BIT: u128 = 1 << 127;

pub struct VarInfo {
    pub w: u8,
    pub name: String,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    pub masks: Vec<u128>,
    map: HashMap<Node, E, Fx>,
    big: Vec<u128>,
    bigmap: HashMap<u128, u32>,
    pub vars: Vec<VarInfo>,
    varmap: HashMap<(String, u8), E>,
    // evaluation memo
    ev_gen: u32,
    ev_tag: Vec<u32>,
    ev_val: Vec<u128>,
}

#[derive(Clone, Default)]
pub struct Fx;
pub struct FxH(u64);
impl std::hash::BuildHasher for Fx {
    type Hasher = FxH;
    fn build_hasher(&self) -> FxH {
        FxH(0)
    }
}
impl std::hash::Hasher for FxH {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.write_u64(x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
    fn finish(&self) -> u64 {
        self.0 ^ (self.0 >> 32)
    }
}

static mut AR: *mut Arena = std::ptr::null_mut();

#[inline]
pub fn ar() -> &'static mut Arena {
    unsafe {
        if AR.is_null() {
            AR = Box::into_raw(Box::new(Arena {
                nodes: vec![],
                masks: vec![],
                map: HashMap::with_hasher(Fx),
                big: vec![],
                bigmap: HashMap::new(),
                vars: vec![],
                varmap: HashMap::new(),
                ev_gen: 0,
                ev_tag: vec![],
                ev_val: vec![],
            }));
        }
        &mut *AR
    }
}

#[inline]
pub fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}
#[inline]
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

fn intern(n: Node) -> E {
    let a = ar();
    if let Some(&e) = a.map.get(&n) {
        return e;
    }
    let e = a.nodes.len() as u32;
    let m = match n.op {
        Op::Const => 0,
        Op::Var => 1u128 << (n.a.min(126)),
        Op::Undef => UNDEF_BIT,
        Op::Ite => a.masks[n.a as usize] | a.masks[n.b as usize] | a.masks[n.c as usize],
        Op::Extract | Op::ZExt | Op::SExt => a.masks[n.a as usize],
        _ => a.masks[n.a as usize] | a.masks[n.b as usize],
    };
    a.nodes.push(n);
    a.masks.push(m);
    a.map.insert(n, e);
    e
}

pub fn node(e: E) -> Node {
    ar().nodes[e as usize]
}
pub fn width(e: E) -> u32 {
    ar().nodes[e as usize].w as u32
}
pub fn vmask(e: E) -> u128 {
    ar().masks[e as usize]
}

pub fn cst(v: u128, w: u32) -> E {
    let v = v & mask(w);
    if v >> 64 == 0 {
        intern(Node { op: Op::Const, w: w as u8, a: v as u32, b: (v >> 32) as u32, c: 0 })
    } else {
        let a = ar();
        let idx = match a.bigmap.get(&v) {
            Some(&i) => i,
            None => {
                a.big.push(v);
                let i = a.big.len() as u32;
                a.bigmap.insert(v, i);
                i
            }
        };
        intern(Node { op: Op::Const, w: w as u8, a: 0, b: 0, c: idx })
    }
}
pub fn undef(w: u32) -> E {
    intern(Node { op: Op::Undef, w: w as u8, a: 0, b: 0, c: 0 })
}
pub fn var(name: &str, w: u32) -> E {
    let a = ar();
    if let Some(&e) = a.varmap.get(&(name.to_string(), w as u8)) {
        return e;
    }
    let id = a.vars.len() as u32;
    a.vars.push(VarInfo { w: w as u8, name: name.to_string() });
    let e = intern(Node { op: Op::Var, w: w as u8, a: id, b: 0, c: 0 });
    ar().varmap.insert((name.to_string(), w as u8), e);
    e
}
pub fn as_const(e: E) -> Option<u128> {
    let n = node(e);
    if n.op == Op::Const {
        Some(cval(&n))
    } else {
        None
    }
}
#[inline]
pub fn cval(n: &Node) -> u128 {
    if n.c != 0 {
        ar().big[n.c as usize - 1]
    } else {
        (n.a as u128) | ((n.b as u128) << 32)
    }
}

pub fn conc(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext128(a, w), sext128(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = if b >= w as u128 { w - 1 } else { b as u32 };
            ((sext128(a, w) >> s) as u128) & m
        }
        Op::Eq => (a == b) as u128,
        Op::Ult => (a < b) as u128,
        Op::Ule => (a <= b) as u128,
        Op::Slt => (sext128(a, w) < sext128(b, w)) as u128,
        Op::Sle => (sext128(a, w) <= sext128(b, w)) as u128,
        _ => unreachable!(),
    }
}

fn is_cmp(op: Op) -> bool {
    matches!(op, Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle)
}

pub fn not(e: E) -> E {
    debug_assert_eq!(width(e), 1);
    bin(Op::Xor, e, cst(1, 1))
}

/// Upper bound of the value of `e` from its shape alone.
pub fn ubound(e: E) -> u128 {
    let n = node(e);
    match n.op {
        Op::Const => cval(&n),
        Op::ZExt => ubound(n.a),
        Op::And => ubound(n.a).min(ubound(n.b)),
        Op::Ite => ubound(n.b).max(ubound(n.c)),
        Op::LShr => {
            if let Some(s) = as_const(n.b) {
                if s < n.w as u128 { ubound(n.a) >> s } else { 0 }
            } else {
                ubound(n.a)
            }
        }
        Op::Add => {
            let (x, y) = (ubound(n.a), ubound(n.b));
            match x.checked_add(y) {
                Some(s) if s <= mask(n.w as u32) => s,
                _ => mask(n.w as u32),
            }
        }
        _ => mask(n.w as u32),
    }
}

pub fn bin(op: Op, mut a: E, mut b: E) -> E {
    let (mut na, mut nb) = (node(a), node(b));
    let w = na.w as u32;
    debug_assert_eq!(na.w, nb.w, "{:?}", op);
    let rw = if is_cmp(op) { 1 } else { w };
    if na.op == Op::Const && nb.op == Op::Const {
        return cst(conc(op, w, cval(&na), cval(&nb)), rw);
    }
    // canonical order: constant on the right for commutative ops
    if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor | Op::Eq)
        && (na.op == Op::Const || (nb.op != Op::Const && a > b))
    {
        std::mem::swap(&mut a, &mut b);
        std::mem::swap(&mut na, &mut nb);
    }
    let cb = if nb.op == Op::Const { Some(cval(&nb)) } else { None };
    let ca = if na.op == Op::Const { Some(cval(&na)) } else { None };
    let m = mask(w);
    match op {
        Op::Add => {
            if cb == Some(0) {
                return a;
            }
            if let (Some(c2), Op::Add) = (cb, na.op) {
                if let Some(c1) = as_const(na.b) {
                    return bin(Op::Add, na.a, cst(c1.wrapping_add(c2), w));
                }
            }
        }
        Op::Sub => {
            if cb == Some(0) {
                return a;
            }
            if a == b {
                return cst(0, w);
            }
            if let Some(c) = cb {
                return bin(Op::Add, a, cst(0u128.wrapping_sub(c), w));
            }
            // (x + y) - x
            if na.op == Op::Add {
                if na.a == b {
                    return na.b;
                }
                if na.b == b {
                    return na.a;
                }
            }
            // x - (x + c) = -c
            if nb.op == Op::Add && nb.a == a {
                return bin(Op::Sub, cst(0, w), nb.b);
            }
        }
        Op::Mul => {
            if cb == Some(0) {
                return cst(0, w);
            }
            if cb == Some(1) {
                return a;
            }
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::Shl, a, cst(c.trailing_zeros() as u128, w));
                }
            }
        }
        Op::And => {
            if cb == Some(0) {
                return b;
            }
            if cb == Some(m) || a == b {
                return a;
            }
            if let Some(c) = cb {
                // low mask of zext
                if na.op == Op::ZExt {
                    let iw = node(na.a).w as u32;
                    if c & mask(iw) == mask(iw) {
                        return a;
                    }
                    let inner = bin(Op::And, na.a, cst(c & mask(iw), iw));
                    return zext(inner, w);
                }
                // contiguous low mask => zext(extract)
                if c != 0 && (c & (c + 1)) == 0 {
                    let k = 128 - c.leading_zeros();
                    return zext(extract(a, 0, k), w);
                }
                if na.op == Op::Concat {
                    let lw = node(na.b).w as u32;
                    let hi = bin(Op::And, na.a, cst(c >> lw, w - lw));
                    let lo = bin(Op::And, na.b, cst(c, lw));
                    return concat(hi, lo);
                }
            }
            if w == 1 {
                // x & !x
                if (nb.op == Op::Xor && nb.a == a) || (na.op == Op::Xor && na.a == b) {
                    if as_const(nb.b) == Some(1) || as_const(na.b) == Some(1) {
                        return cst(0, 1);
                    }
                }
            }
        }
        Op::Or => {
            if cb == Some(0) || a == b {
                return a;
            }
            if cb == Some(m) {
                return b;
            }
            // zext(x) << k | zext(y) with no overlap => concat
            if cb.is_none() {
                for (x, y) in [(a, b), (b, a)] {
                    let (nx, ny) = (node(x), node(y));
                    if nx.op == Op::Concat && as_const(nx.b) == Some(0) {
                        let lw = node(nx.b).w as u32;
                        if ny.op == Op::ZExt && node(ny.a).w as u32 <= lw {
                            return concat(nx.a, zext(ny.a, lw));
                        }
                        if ny.op == Op::Concat
                            && as_const(ny.a) == Some(0)
                            && node(ny.b).w as u32 <= lw
                        {
                            return concat(nx.a, zext(ny.b, lw));
                        }
                    }
                }
            }
        }
        Op::Xor => {
            if cb == Some(0) {
                return a;
            }
            if a == b {
                return cst(0, w);
            }
            if let (Some(c2), Op::Xor) = (cb, na.op) {
                if let Some(c1) = as_const(na.b) {
                    return bin(Op::Xor, na.a, cst(c1 ^ c2, w));
                }
            }
            if w == 1 && cb == Some(1) {
                // push negation into comparisons
                match na.op {
                    Op::Ult => return bin(Op::Ule, na.b, na.a),
                    Op::Ule => return bin(Op::Ult, na.b, na.a),
                    Op::Slt => return bin(Op::Sle, na.b, na.a),
                    Op::Sle => return bin(Op::Slt, na.b, na.a),
                    Op::Ite => {
                        if as_const(na.b).is_some() || as_const(na.c).is_some() {
                            return ite(na.a, not(na.b), not(na.c));
                        }
                    }
                    _ => {}
                }
            }
        }
        Op::Shl => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u128 {
                    return cst(0, w);
                }
                let k = c as u32;
                return concat(extract(a, 0, w - k), cst(0, k));
            }
            if ca == Some(0) {
                return a;
            }
        }
        Op::LShr => {
            if let Some(c) = cb {
                if c == 0 {
                    return a;
                }
                if c >= w as u128 {
                    return cst(0, w);
                }
                let k = c as u32;
                return zext(extract(a, k, w - k), w);
            }
            if ca == Some(0) {
                return a;
            }
        }
        Op::AShr => {
            if cb == Some(0) {
                return a;
            }
            if ca == Some(0) {
                return a;
            }
        }
        Op::UDiv => {
            if cb == Some(1) {
                return a;
            }
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::LShr, a, cst(c.trailing_zeros() as u128, w));
                }
            }
        }
        Op::URem => {
            if let Some(c) = cb {
                if c.is_power_of_two() {
                    return bin(Op::And, a, cst(c - 1, w));
                }
            }
        }
        Op::Eq => {
            if a == b {
                return cst(1, 1);
            }
            if let Some(c) = cb {
                if w == 1 {
                    return if c == 1 { a } else { not(a) };
                }
                match na.op {
                    Op::ZExt => {
                        let iw = node(na.a).w as u32;
                        if c > mask(iw) {
                            return cst(0, 1);
                        }
                        return bin(Op::Eq, na.a, cst(c, iw));
                    }
                    Op::SExt => {
                        let iw = node(na.a).w as u32;
                        let t = c & mask(iw);
                        if (sext128(t, iw) as u128) & m != c {
                            return cst(0, 1);
                        }
                        return bin(Op::Eq, na.a, cst(t, iw));
                    }
                    Op::Add => {
                        if let Some(k) = as_const(na.b) {
                            return bin(Op::Eq, na.a, cst(c.wrapping_sub(k), w));
                        }
                    }
                    Op::Xor => {
                        if let Some(k) = as_const(na.b) {
                            return bin(Op::Eq, na.a, cst(c ^ k, w));
                        }
                    }
                    Op::Ite => {
                        let (x, y) = (as_const(na.b), as_const(na.c));
                        if x.is_some() || y.is_some() {
                            return ite(na.a, bin(Op::Eq, na.b, b), bin(Op::Eq, na.c, b));
                        }
                    }
                    Op::Concat => {
                        let lw = node(na.b).w as u32;
                        let h = bin(Op::Eq, na.a, cst(c >> lw, w - lw));
                        let l = bin(Op::Eq, na.b, cst(c, lw));
                        return bin(Op::And, h, l);
                    }
                    _ => {}
                }
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt && node(na.a).w == node(nb.a).w {
                return bin(Op::Eq, na.a, nb.a);
            }
            // x + c1 == x + c2, x == x + c
            if na.op == Op::Add && nb.op == Op::Add && na.a == nb.a {
                return bin(Op::Eq, na.b, nb.b);
            }
            if nb.op == Op::Add && nb.a == a {
                return bin(Op::Eq, nb.b, cst(0, w));
            }
            if na.op == Op::Add && na.a == b {
                return bin(Op::Eq, na.b, cst(0, w));
            }
        }
        Op::Ult => {
            if a == b {
                return cst(0, 1);
            }
            if cb == Some(0) {
                return cst(0, 1);
            }
            if ca == Some(m) {
                return cst(0, 1);
            }
            if let Some(c) = cb {
                if c == 1 {
                    return bin(Op::Eq, a, cst(0, w));
                }
                if na.op == Op::ZExt {
                    let iw = node(na.a).w as u32;
                    if c > mask(iw) {
                        return cst(1, 1);
                    }
                    return bin(Op::Ult, na.a, cst(c, iw));
                }
                if ubound(a) < c {
                    return cst(1, 1);
                }
            }
            if let Some(c) = ca {
                if nb.op == Op::ZExt {
                    let iw = node(nb.a).w as u32;
                    if c >= mask(iw) {
                        return cst(0, 1);
                    }
                    return bin(Op::Ult, cst(c, iw), nb.a);
                }
                if c >= ubound(b) {
                    return cst(0, 1);
                }
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt && node(na.a).w == node(nb.a).w {
                return bin(Op::Ult, na.a, nb.a);
            }
        }
        Op::Ule => {
            if a == b || ca == Some(0) || cb == Some(m) {
                return cst(1, 1);
            }
            if cb == Some(0) {
                return bin(Op::Eq, a, b);
            }
            if let Some(c) = cb {
                // c < m here
                return bin(Op::Ult, a, cst(c + 1, w));
            }
            if let Some(c) = ca {
                // c > 0 here: c <= b  <=>  c-1 < b
                return bin(Op::Ult, cst(c - 1, w), b);
            }
            if na.op == Op::ZExt && nb.op == Op::ZExt && node(na.a).w == node(nb.a).w {
                return bin(Op::Ule, na.a, nb.a);
            }
        }
        Op::Slt | Op::Sle => {
            if a == b {
                return cst((op == Op::Sle) as u128, 1);
            }
            // both provably non-negative: use the unsigned form
            let top = 1u128 << (w - 1);
            if ubound(a) < top && ubound(b) < top {
                return bin(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
            }
            if op == Op::Slt && cb == Some(0) {
                return extract(a, w - 1, 1);
            }
            if op == Op::Slt && ca == Some(m) {
                return not(extract(b, w - 1, 1));
            }
            if op == Op::Sle && ca == Some(0) {
                return not(extract(b, w - 1, 1));
            }
        }
        _ => {}
    }
    // push through ite when the other side is constant and both arms are constant
    if let Some(_) = cb {
        if na.op == Op::Ite && as_const(na.b).is_some() && as_const(na.c).is_some() {
            let x = bin(op, na.b, b);
            let y = bin(op, na.c, b);
            return ite(na.a, x, y);
        }
    }
    if let Some(_) = ca {
        if nb.op == Op::Ite && as_const(nb.b).is_some() && as_const(nb.c).is_some() {
            let x = bin(op, a, nb.b);
            let y = bin(op, a, nb.c);
            return ite(nb.a, x, y);
        }
    }
    intern(Node { op, w: rw as u8, a, b, c: 0 })
}

pub fn ite(c: E, t: E, f: E) -> E {
    if let Some(v) = as_const(c) {
        return if v == 1 { t } else { f };
    }
    if t == f {
        return t;
    }
    let w = width(t);
    if w == 1 {
        match (as_const(t), as_const(f)) {
            (Some(1), Some(0)) => return c,
            (Some(0), Some(1)) => return not(c),
            (Some(1), None) => return bin(Op::Or, c, f),
            (Some(0), None) => return bin(Op::And, not(c), f),
            (None, Some(0)) => return bin(Op::And, c, t),
            (None, Some(1)) => return bin(Op::Or, not(c), t),
            _ => {}
        }
    }
    let nc = node(c);
    if nc.op == Op::Xor && as_const(nc.b) == Some(1) {
        return ite(nc.a, f, t);
    }
    let (nt, nf) = (node(t), node(f));
    if nf.op == Op::Ite && nf.a == c {
        return ite(c, t, nf.c);
    }
    if nt.op == Op::Ite && nt.a == c {
        return ite(c, nt.b, f);
    }
    if nt.op == Op::ZExt && nf.op == Op::ZExt && node(nt.a).w == node(nf.a).w {
        return zext(ite(c, nt.a, nf.a), w);
    }
    intern(Node { op: Op::Ite, w: w as u8, a: c, b: t, c: f })
}

pub fn zext(a: E, w: u32) -> E {
    let n = node(a);
    if n.w as u32 == w {
        return a;
    }
    match n.op {
        Op::Const => cst(cval(&n), w),
        Op::ZExt => zext(n.a, w),
        Op::Ite if as_const(n.b).is_some() && as_const(n.c).is_some() => {
            let x = zext(n.b, w);
            let y = zext(n.c, w);
            intern(Node { op: Op::Ite, w: w as u8, a: n.a, b: x, c: y })
        }
        _ => intern(Node { op: Op::ZExt, w: w as u8, a, b: 0, c: 0 }),
    }
}
pub fn sext(a: E, w: u32) -> E {
    let n = node(a);
    if n.w as u32 == w {
        return a;
    }
    match n.op {
        Op::Const => cst(sext128(cval(&n), n.w as u32) as u128, w),
        Op::ZExt => zext(n.a, w),
        Op::Ite if as_const(n.b).is_some() && as_const(n.c).is_some() => {
            let x = sext(n.b, w);
            let y = sext(n.c, w);
            ite(n.a, x, y)
        }
        _ => intern(Node { op: Op::SExt, w: w as u8, a, b: 0, c: 0 }),
    }
}
pub fn concat(hi: E, lo: E) -> E {
    let (nh, nl) = (node(hi), node(lo));
    let w = nh.w as u32 + nl.w as u32;
    if nh.op == Op::Const && nl.op == Op::Const {
        return cst((cval(&nh) << nl.w) | cval(&nl), w);
    }
    if nh.op == Op::Const && cval(&nh) == 0 {
        return zext(lo, w);
    }
    if nh.op == Op::Undef && nl.op == Op::Undef {
        return undef(w);
    }
    // extract(x, i..) ++ extract(x, j..) adjacent
    if nh.op == Op::Extract && nl.op == Op::Extract && nh.a == nl.a && nh.b == nl.b + nl.w as u32 {
        return extract(nh.a, nl.b, w);
    }
    if nh.op == Op::Extract && nh.a == lo && nh.b == nl.w as u32 {
        // extract(x, w_lo..) ++ x   cannot be adjacent (x has full width); keep
    }
    // (hi' ++ ex1) ++ ex2 with ex1, ex2 adjacent
    if nh.op == Op::Concat {
        let m = node(nh.b);
        if m.op == Op::Extract && nl.op == Op::Extract && m.a == nl.a && m.b == nl.b + nl.w as u32 {
            return concat(nh.a, extract(m.a, nl.b, m.w as u32 + nl.w as u32));
        }
        if m.op == Op::Const && nl.op == Op::Const {
            return concat(nh.a, cst((cval(&m) << nl.w) | cval(&nl), (m.w + nl.w) as u32));
        }
    }
    // zext(ex1) ++ ex2
    if nh.op == Op::ZExt {
        return zext(concat(nh.a, lo), w);
    }
    intern(Node { op: Op::Concat, w: w as u8, a: hi, b: lo, c: 0 })
}
pub fn extract(a: E, lo: u32, w: u32) -> E {
    let n = node(a);
    if lo == 0 && n.w as u32 == w {
        return a;
    }
    match n.op {
        Op::Const => return cst(cval(&n) >> lo, w),
        Op::Undef => return undef(w),
        Op::Extract => return extract(n.a, n.b + lo, w),
        Op::ZExt => {
            let iw = node(n.a).w as u32;
            if lo >= iw {
                return cst(0, w);
            }
            if lo + w <= iw {
                return extract(n.a, lo, w);
            }
            return zext(extract(n.a, lo, iw - lo), w);
        }
        Op::SExt => {
            let iw = node(n.a).w as u32;
            if lo + w <= iw {
                return extract(n.a, lo, w);
            }
            if lo == 0 {
                return sext(n.a, w);
            }
        }
        Op::Concat => {
            let lw = node(n.b).w as u32;
            if lo >= lw {
                return extract(n.a, lo - lw, w);
            }
            if lo + w <= lw {
                return extract(n.b, lo, w);
            }
            let l = extract(n.b, lo, lw - lo);
            let h = extract(n.a, 0, w - (lw - lo));
            return concat(h, l);
        }
        Op::And | Op::Or | Op::Xor => {
            let x = extract(n.a, lo, w);
            let y = extract(n.b, lo, w);
            return bin(n.op, x, y);
        }
        Op::Add | Op::Sub | Op::Mul if lo == 0 => {
            let x = extract(n.a, 0, w);
            let y = extract(n.b, 0, w);
            return bin(n.op, x, y);
        }
        Op::Ite => {
            let x = extract(n.b, lo, w);
            let y = extract(n.c, lo, w);
            return ite(n.a, x, y);
        }
        _ => {}
    }
    intern(Node { op: Op::Extract, w: w as u8, a, b: lo, c: 0 })
}

/// Evaluate `e` under the assignment (undef evaluates to 0).
pub fn eval(e: E, model: &[u64]) -> u128 {
    let a = ar();
    a.ev_gen = a.ev_gen.wrapping_add(1);
    if a.ev_gen == 0 {
        a.ev_tag.iter_mut().for_each(|t| *t = 0);
        a.ev_gen = 1;
    }
    let n = a.nodes.len();
    if a.ev_tag.len() < n {
        a.ev_tag.resize(n + n / 2 + 64, 0);
        a.ev_val.resize(n + n / 2 + 64, 0);
    }
    ev(e, model)
}
fn ev(e: E, model: &[u64]) -> u128 {
    let a = ar();
    let n = a.nodes[e as usize];
    match n.op {
        Op::Const => return cval(&n),
        Op::Var => {
            return model.get(n.a as usize).copied().unwrap_or(0) as u128 & mask(n.w as u32)
        }
        Op::Undef => return 0,
        _ => {}
    }
    if a.ev_tag[e as usize] == a.ev_gen {
        return a.ev_val[e as usize];
    }
    let w = n.w as u32;
    let v = match n.op {
        Op::Ite => {
            if ev(n.a, model) == 1 {
                ev(n.b, model)
            } else {
                ev(n.c, model)
            }
        }
        Op::Concat => (ev(n.a, model) << node(n.b).w) | ev(n.b, model),
        Op::Extract => (ev(n.a, model) >> n.b) & mask(w),
        Op::ZExt => ev(n.a, model),
        Op::SExt => (sext128(ev(n.a, model), node(n.a).w as u32) as u128) & mask(w),
        op => conc(op, node(n.a).w as u32, ev(n.a, model), ev(n.b, model)),
    };
    let a = ar();
    a.ev_tag[e as usize] = a.ev_gen;
    a.ev_val[e as usize] = v;
    v
}

pub fn show(e: E) -> String {
    fn go(e: E, d: u32, s: &mut String) {
        if d > 12 {
            s.push_str("..");
            return;
        }
        let n = node(e);
        match n.op {
            Op::Const => s.push_str(&format!("{}", cval(&n))),
            Op::Var => s.push_str(&ar().vars[n.a as usize].name),
            Op::Undef => s.push_str("UNDEF"),
            Op::Extract => {
                s.push_str(&format!("(ex{}:{} ", n.b, n.w));
                go(n.a, d + 1, s);
                s.push(')');
            }
            Op::ZExt | Op::SExt => {
                s.push_str(&format!("({:?}{} ", n.op, n.w));
                go(n.a, d + 1, s);
                s.push(')');
            }
            _ => {
                s.push_str(&format!("({:?} ", n.op));
                go(n.a, d + 1, s);
                s.push(' ');
                go(n.b, d + 1, s);
                if n.op == Op::Ite {
                    s.push(' ');
                    go(n.c, d + 1, s);
                }
                s.push(')');
            }
        }
    }
    let mut s = String::new();
    go(e, 0, &mut s);
    s
}

/// `e` with every undefined part replaced: by 0, or (`fresh`) by an otherwise
/// unconstrained variable of that width.
pub fn subst_undef(e: E, fresh: bool, memo: &mut HashMap<E, E>) -> E {
    if vmask(e) & UNDEF_BIT == 0 {
        return e;
    }
    if let Some(&r) = memo.get(&e) {
        return r;
    }
    let n = node(e);
    let w = n.w as u32;
    let r = match n.op {
        Op::Undef => {
            if fresh {
                var(&format!("undef!{}", w), w)
            } else {
                cst(0, w)
            }
        }
        Op::Ite => {
            let (c, t, f) = (subst_undef(n.a, fresh, memo), subst_undef(n.b, fresh, memo), subst_undef(n.c, fresh, memo));
            ite(c, t, f)
        }
        Op::Concat => {
            let (h, l) = (subst_undef(n.a, fresh, memo), subst_undef(n.b, fresh, memo));
            concat(h, l)
        }
        Op::Extract => extract(subst_undef(n.a, fresh, memo), n.b, w),
        Op::ZExt => zext(subst_undef(n.a, fresh, memo), w),
        Op::SExt => sext(subst_undef(n.a, fresh, memo), w),
        Op::Const | Op::Var => e,
        op => {
            let (a, b) = (subst_undef(n.a, fresh, memo), subst_undef(n.b, fresh, memo));
            bin(op, a, b)
        }
    };
    memo.insert(e, r);
    r
}
