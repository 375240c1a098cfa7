//! Interface between a harness and whoever runs it: the symbolic executor
//! (which implements the `__sym_*` functions itself) or the native replay
//! runtime (`native.rs`).
use core::alloc::{GlobalAlloc, Layout};

unsafe extern "C-unwind" {
    fn __sym_alloc(size: usize, align: usize) -> *mut u8;
    fn __sym_dealloc(p: *mut u8, size: usize, align: usize);
    fn __sym_var(name: *const u8, len: usize, bits: u32, lo: u64, hi: u64) -> u64;
    fn __sym_assume(c: bool);
    fn __sym_assert(c: bool, msg: *const u8, len: usize);
    fn __sym_fail(msg: *const u8, len: usize);
    fn __sym_cover(k: u64);
    fn __sym_trace(v: u64);
    fn __sym_concretize(v: u64) -> u64;
    fn __sym_live() -> u64;
    fn __sym_param(name: *const u8, len: usize, default: u64) -> u64;
    fn __sym_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool;
    fn __sym_tag(name: *const u8, len: usize);
    fn __sym_ite(c: bool, a: u64, b: u64) -> u64;
    fn __sym_par(f: extern "C-unwind" fn(*mut u8, u64), data: *mut u8, n: u64);
}

pub struct SymAlloc;
unsafe impl GlobalAlloc for SymAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { __sym_alloc(l.size(), l.align()) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe { __sym_dealloc(p, l.size(), l.align()) }
    }
}

/// A symbolic value of `bits` bits in `lo..=hi`.
pub fn var(name: &str, bits: u32, lo: u64, hi: u64) -> u64 {
    unsafe { __sym_var(name.as_ptr(), name.len(), bits, lo, hi) }
}
/// Symbolic `0..=hi`.
pub fn upto(name: &str, hi: u64) -> u64 {
    let bits = 64 - hi.leading_zeros();
    if hi == 0 { 0 } else { var(name, bits, 0, hi) }
}
pub fn any_u16(name: &str) -> u16 {
    var(name, 16, 0, 0xffff) as u16
}
pub fn any_u32(name: &str) -> u32 {
    var(name, 32, 0, 0xffff_ffff) as u32
}
pub fn any_u8(name: &str) -> u8 {
    var(name, 8, 0, 0xff) as u8
}
/// Symbolic choice in `0..n`, split into one path per value.
pub fn choose(name: &str, n: u64) -> usize {
    conc(upto(name, n - 1)) as usize
}
pub fn conc(v: u64) -> u64 {
    unsafe { __sym_concretize(v) }
}
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { __sym_assert(c, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &str) {
    unsafe { __sym_fail(msg.as_ptr(), msg.len()) }
}
pub fn cover(k: u64) {
    unsafe { __sym_cover(k) }
}
pub fn trace(v: u64) {
    unsafe { __sym_trace(v) }
}
/// Number of live heap objects.
pub fn live() -> u64 {
    unsafe { __sym_live() }
}
pub fn param(name: &str, default: u64) -> u64 {
    unsafe { __sym_param(name.as_ptr(), name.len(), default) }
}
pub fn tag(name: &str) {
    unsafe { __sym_tag(name.as_ptr(), name.len()) }
}
pub fn sel(c: bool, a: u64, b: u64) -> u64 {
    unsafe { __sym_ite(c, a, b) }
}

/// Runs `f`; `None` when it panicked.
pub fn catch<R, F: FnOnce() -> R>(f: F) -> Option<R> {
    struct Slot<R, F> {
        f: Option<F>,
        r: Option<R>,
    }
    extern "C-unwind" fn tramp<R, F: FnOnce() -> R>(p: *mut u8) {
        let s = unsafe { &mut *(p as *mut Slot<R, F>) };
        if let Some(f) = s.f.take() {
            s.r = Some(f());
        }
    }
    let mut s = Slot { f: Some(f), r: None };
    let panicked = unsafe { __sym_catch(tramp::<R, F>, &mut s as *mut _ as *mut u8) };
    if panicked { None } else { s.r }
}

/// Runs `f(data, i)` for `i` in `0..n` in threads of their own; returns when
/// all are done.
pub fn par(n: usize, f: extern "C-unwind" fn(*mut u8, u64), data: *mut u8) {
    unsafe { __sym_par(f, data, n as u64) }
}

/// Byte-wise equality as one term (no branching on symbolic bytes).
pub fn same_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// `a == b` on options of symbolic numbers whose presence is concrete.
pub fn opt_eq(a: Option<u64>, b: Option<u64>) -> bool {
    match (a, b) {
        (Some(x), Some(y)) => x == y,
        (None, None) => true,
        _ => false,
    }
}
