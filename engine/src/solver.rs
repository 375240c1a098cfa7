//! Z3 binding: path-condition slicing, caching and model reuse.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CString};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context(c: P) -> P;
    fn Z3_set_error_handler(c: P, h: extern "C" fn(P, c_int));
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_bool_sort(c: P) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, compl: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, v: P, u: *mut u64) -> bool;
    fn Z3_get_bool_value(c: P, a: P) -> c_int;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_tactic(c: P, name: *const std::os::raw::c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
}

extern "C" fn on_err(_: P, code: c_int) {
    eprintln!("z3 error {}", code);
    std::process::exit(2);
}

#[derive(Clone, Debug)]
pub enum Sat {
    Unsat,
    Sat(Vec<(u32, u64)>),
    Unknown,
}

pub struct Solver {
    ctx: P,
    solver: P,
    /// for what the first one does not settle quickly
    strong: P,
    table_bits: u32,
    asts: Vec<P>,
    bsort: P,
    cache: HashMap<Vec<E>, Sat>,
    recent: Vec<Vec<(u32, u64)>>,
    pub queries: u64,
    pub z3_calls: u64,
    pub cache_hits: u64,
    pub model_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub time: f64,
    pub rlimit: u32,
    pub assert_queries: u64,
}

impl Solver {
    pub fn reset_counters(&mut self) {
        (self.queries, self.z3_calls, self.cache_hits, self.model_hits) = (0, 0, 0, 0);
        (self.sat, self.unsat, self.time, self.assert_queries) = (0, 0, 0.0, 0);
    }
    pub fn new(rlimit: u32) -> Solver {
        let quick = std::env::var("RSX_QUICK").ok().and_then(|x| x.parse().ok()).unwrap_or(100_000u32);
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context(cfg);
            Z3_set_error_handler(ctx, on_err);
            let l = CString::new("QF_BV").unwrap();
            let solver = Z3_mk_solver_for_logic(ctx, Z3_mk_string_symbol(ctx, l.as_ptr()));
            Z3_solver_inc_ref(ctx, solver);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("rlimit").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), quick);
            Z3_solver_set_params(ctx, solver, p);
            let q = CString::new("qfbv").unwrap();
            let t = Z3_mk_tactic(ctx, q.as_ptr());
            Z3_tactic_inc_ref(ctx, t);
            let strong = Z3_mk_solver_from_tactic(ctx, t);
            Z3_solver_inc_ref(ctx, strong);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), rlimit);
            Z3_solver_set_params(ctx, strong, p);
            Solver {
                ctx,
                solver,
                strong,
                table_bits: std::env::var("RSX_TABLE").ok().and_then(|x| x.parse().ok()).unwrap_or(8),
                asts: vec![],
                bsort: Z3_mk_bool_sort(ctx),
                cache: HashMap::new(),
                recent: vec![],
                queries: 0,
                z3_calls: 0,
                cache_hits: 0,
                model_hits: 0,
                sat: 0,
                unsat: 0,
                time: 0.0,
                rlimit,
                assert_queries: 0,
            }
        }
    }

    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            if w == 1 {
                return if v == 1 { Z3_mk_true(self.ctx) } else { Z3_mk_false(self.ctx) };
            }
            let s = CString::new(v.to_string()).unwrap();
            Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w))
        }
    }
    /// Bit-vector view of a (possibly boolean) term.
    fn bv(&mut self, e: E) -> P {
        let t = self.tr(e);
        if width(e) == 1 {
            unsafe {
                let s = Z3_mk_bv_sort(self.ctx, 1);
                let one = CString::new("1").unwrap();
                let zero = CString::new("0").unwrap();
                let o = Z3_mk_numeral(self.ctx, one.as_ptr(), s);
                let z = Z3_mk_numeral(self.ctx, zero.as_ptr(), s);
                Z3_mk_ite(self.ctx, t, o, z)
            }
        } else {
            t
        }
    }
    /// Variables of a term that has so few bits of them that a product in it
    /// is better written as a table of constants than as a multiplier.
    fn table_vars(&self, e: E) -> Option<Vec<E>> {
        if vmask(e).count_ones() > 4 {
            return None;
        }
        let mut vars = vec![];
        collect(e, &mut vars, &mut std::collections::HashSet::new());
        let bits: u32 = vars.iter().map(|&v| node(v).w as u32).sum();
        if bits <= self.table_bits { Some(vars) } else { None }
    }
    fn table(&mut self, e: E, w: u32, vars: &[E], bit: u32, env: &mut Vec<u64>) -> P {
        let total: u32 = vars.iter().map(|&v| node(v).w as u32).sum();
        if bit == total {
            return self.num(eval(e, env), w);
        }
        let mut b = bit;
        let mut i = 0;
        while b >= node(vars[i]).w as u32 {
            b -= node(vars[i]).w as u32;
            i += 1;
        }
        let v = node(vars[i]).a as usize;
        if env.len() <= v {
            env.resize(v + 1, 0);
        }
        env[v] &= !(1 << b);
        let z = self.table(e, w, vars, bit + 1, env);
        env[v] |= 1 << b;
        let o = self.table(e, w, vars, bit + 1, env);
        env[v] &= !(1 << b);
        let c = extract(vars[i], b, 1);
        let c = self.tr(c);
        unsafe { Z3_mk_ite(self.ctx, c, o, z) }
    }
    fn tr(&mut self, e: E) -> P {
        if (e as usize) < self.asts.len() && !self.asts[e as usize].is_null() {
            return self.asts[e as usize];
        }
        let n = node(e);
        let c = self.ctx;
        let w = n.w as u32;
        let r = unsafe {
            match n.op {
                Op::Const => self.num(cval(&n), w),
                Op::Undef => self.num(0, w),
                Op::Var => {
                    let s = CString::new(format!("v{}", n.a)).unwrap();
                    let sym = Z3_mk_string_symbol(c, s.as_ptr());
                    let sort = if w == 1 { self.bsort } else { Z3_mk_bv_sort(c, w) };
                    Z3_mk_const(c, sym, sort)
                }
                Op::Ite => {
                    let (x, y, z) = (self.tr(n.a), self.tr(n.b), self.tr(n.c));
                    Z3_mk_ite(c, x, y, z)
                }
                Op::Concat => {
                    let (x, y) = (self.bv(n.a), self.bv(n.b));
                    Z3_mk_concat(c, x, y)
                }
                Op::Extract => {
                    let x = self.bv(n.a);
                    let t = Z3_mk_extract(c, n.b + w - 1, n.b, x);
                    if w == 1 {
                        let s = Z3_mk_bv_sort(c, 1);
                        let one = CString::new("1").unwrap();
                        Z3_mk_eq(c, t, Z3_mk_numeral(c, one.as_ptr(), s))
                    } else {
                        t
                    }
                }
                Op::ZExt => {
                    let x = self.bv(n.a);
                    Z3_mk_zero_ext(c, w - width(n.a), x)
                }
                Op::SExt => {
                    let x = self.bv(n.a);
                    Z3_mk_sign_ext(c, w - width(n.a), x)
                }
                Op::Mul if w > 8 && self.table_vars(e).is_some() => {
                    let vars = self.table_vars(e).unwrap();
                    let mut env = vec![];
                    self.table(e, w, &vars, 0, &mut env)
                }
                op => {
                    let iw = width(n.a);
                    let (a, b) = (self.tr(n.a), self.tr(n.b));
                    if iw == 1 {
                        let and = |x: P, y: P| Z3_mk_and(c, 2, [x, y].as_ptr());
                        let or = |x: P, y: P| Z3_mk_or(c, 2, [x, y].as_ptr());
                        match op {
                            Op::Add | Op::Sub | Op::Xor => {
                                if as_const(n.b) == Some(1) {
                                    Z3_mk_not(c, a)
                                } else {
                                    Z3_mk_xor(c, a, b)
                                }
                            }
                            Op::And | Op::Mul => and(a, b),
                            Op::Or => or(a, b),
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Ult | Op::Slt => {
                                if op == Op::Ult {
                                    and(Z3_mk_not(c, a), b)
                                } else {
                                    and(a, Z3_mk_not(c, b))
                                }
                            }
                            Op::Ule => or(Z3_mk_not(c, a), b),
                            Op::Sle => or(a, Z3_mk_not(c, b)),
                            Op::Shl | Op::LShr => and(a, Z3_mk_not(c, b)),
                            Op::AShr | Op::UDiv => a,
                            _ => panic!("bool op {:?}", op),
                        }
                    } else {
                        match op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::Eq => Z3_mk_eq(c, a, b),
                            Op::Ult => Z3_mk_bvult(c, a, b),
                            Op::Ule => Z3_mk_bvule(c, a, b),
                            Op::Slt => Z3_mk_bvslt(c, a, b),
                            Op::Sle => Z3_mk_bvsle(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        if self.asts.len() <= e as usize {
            self.asts.resize(e as usize + 1024, std::ptr::null_mut());
        }
        self.asts[e as usize] = r;
        r
    }

    /// Is `pc /\ q` satisfiable?  The answer's model covers the variables of
    /// the part of `pc` that shares variables with `q`.
    pub fn check(&mut self, pc: &[E], q: E, base: &[u64]) -> Sat {
        self.queries += 1;
        match as_const(q) {
            Some(0) => return Sat::Unsat,
            Some(_) => return Sat::Sat(vec![]),
            None => {}
        }
        // relevant slice
        let mut m = vmask(q);
        let mut slice: Vec<E> = vec![];
        let mut used = vec![false; pc.len()];
        loop {
            let before = m;
            for (i, &c) in pc.iter().enumerate() {
                if !used[i] && vmask(c) & m != 0 {
                    used[i] = true;
                    slice.push(c);
                    m |= vmask(c);
                }
            }
            if m == before {
                break;
            }
        }
        slice.sort_unstable();
        slice.push(q);
        if let Some(r) = self.cache.get(&slice) {
            self.cache_hits += 1;
            return r.clone();
        }
        // try recent models
        let mut found = None;
        let mut env = base.to_vec();
        for (k, rm) in self.recent.iter().enumerate().rev() {
            let rm: Vec<(u32, u64)> = rm.iter().copied().filter(|&(v, _)| m >> v.min(126) & 1 == 1).collect();
            let saved: Vec<(usize, u64)> = rm
                .iter()
                .map(|&(v, _)| {
                    let v = v as usize;
                    if env.len() <= v {
                        env.resize(v + 1, 0);
                    }
                    (v, env[v])
                })
                .collect();
            for &(v, x) in &rm {
                env[v as usize] = x;
            }
            let ok = slice.iter().rev().all(|&c| eval(c, &env) == 1);
            if ok {
                found = Some((k, rm));
            }
            for (v, x) in saved {
                env[v] = x;
            }
            if found.is_some() {
                break;
            }
        }
        if let Some((k, rm)) = found {
            self.model_hits += 1;
            let full = self.recent.remove(k);
            self.recent.push(full);
            return Sat::Sat(rm);
        }
        let t0 = Instant::now();
        let mut vars = vec![];
        let mut seen = std::collections::HashSet::new();
        for &c in &slice {
            collect(c, &mut vars, &mut seen);
        }
        let mut r = Sat::Unknown;
        for solver in [self.solver, self.strong] {
        r = unsafe {
            Z3_solver_push(self.ctx, solver);
            for &c in &slice {
                let a = self.tr(c);
                Z3_solver_assert(self.ctx, solver, a);
            }
            self.z3_calls += 1;
            let res = Z3_solver_check(self.ctx, solver);
            let r = match res {
                -1 => Sat::Unsat,
                1 => {
                    let md = Z3_solver_get_model(self.ctx, solver);
                    Z3_model_inc_ref(self.ctx, md);
                    let mut out = vec![];
                    for &v in &vars {
                        let t = self.tr(v);
                        let mut val: P = std::ptr::null_mut();
                        Z3_model_eval(self.ctx, md, t, true, &mut val);
                        let n = node(v);
                        let x = if n.w == 1 {
                            (Z3_get_bool_value(self.ctx, val) == 1) as u64
                        } else {
                            let mut u = 0u64;
                            Z3_get_numeral_uint64(self.ctx, val, &mut u);
                            u
                        };
                        out.push((n.a, x));
                    }
                    Z3_model_dec_ref(self.ctx, md);
                    Sat::Sat(out)
                }
                _ => Sat::Unknown,
            };
            Z3_solver_pop(self.ctx, solver, 1);
            r
        };
            if !matches!(r, Sat::Unknown) {
                break;
            }
        }
        self.time += t0.elapsed().as_secs_f64();
        match &r {
            Sat::Sat(m) => {
                self.sat += 1;
                self.recent.push(m.clone());
                if self.recent.len() > 48 {
                    self.recent.remove(0);
                }
                // the model must satisfy the query (guards the encoding)
                let mut env = base.to_vec();
                for &(v, x) in m {
                    if env.len() <= v as usize {
                        env.resize(v as usize + 1, 0);
                    }
                    env[v as usize] = x;
                }
                for &c in &slice {
                    if eval(c, &env) != 1 {
                        eprintln!("internal error: z3 model disagrees with evaluator on {}", show(c));
                        std::process::exit(2);
                    }
                }
            }
            Sat::Unsat => self.unsat += 1,
            Sat::Unknown => {}
        }
        if self.cache.len() > 2_000_000 {
            self.cache.clear();
        }
        self.cache.insert(slice, r.clone());
        r
    }
}

fn collect(e: E, out: &mut Vec<E>, seen: &mut std::collections::HashSet<E>) {
    if !seen.insert(e) {
        return;
    }
    let n = node(e);
    match n.op {
        Op::Const | Op::Undef => {}
        Op::Var => out.push(e),
        Op::Ite => {
            collect(n.a, out, seen);
            collect(n.b, out, seen);
            collect(n.c, out, seen);
        }
        Op::Extract | Op::ZExt | Op::SExt => collect(n.a, out, seen),
        _ => {
            collect(n.a, out, seen);
            collect(n.b, out, seen);
        }
    }
}
