//! Native runtime for replaying one input against the real code.
//! Every heap object lives on its own pages with an inaccessible page after
//! it, freed objects become inaccessible, and layouts are checked on free.
use core::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::ffi::c_void;

unsafe extern "C" {
    fn mmap(a: *mut c_void, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void;
    fn mprotect(a: *mut c_void, n: usize, prot: i32) -> i32;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    #[cfg(not(miri))]
    fn _exit(c: i32) -> !;
}
const PG: usize = 4096;
static LIVE: AtomicU64 = AtomicU64::new(0);
pub static GUARD: AtomicUsize = AtomicUsize::new(1);

fn say(s: &str) {
    #[cfg(miri)]
    print!("{}", s);
    #[cfg(not(miri))]
    unsafe {
        write(1, s.as_ptr(), s.len())
    };
}
#[cfg(miri)]
unsafe fn _exit(c: i32) -> ! {
    std::process::exit(c)
}
fn die(what: &str, detail: &str) -> ! {
    say("REPLAY-VIOLATION ");
    say(what);
    say(": ");
    say(detail);
    say("\n");
    unsafe { _exit(42) }
}

#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_alloc(size: usize, align: usize) -> *mut u8 {
    if size == 0 {
        die("alloc", "zero-sized allocation");
    }
    LIVE.fetch_add(1, Ordering::SeqCst);
    #[cfg(miri)]
    return unsafe { std::alloc::GlobalAlloc::alloc(&std::alloc::System, std::alloc::Layout::from_size_align(size, align).unwrap()) };
    #[cfg(not(miri))]
    alloc_pages(size, align)
}
#[cfg(not(miri))]
fn alloc_pages(size: usize, align: usize) -> *mut u8 {
    let data = (size + PG - 1) / PG * PG;
    unsafe {
        let b = mmap(core::ptr::null_mut(), data + 2 * PG, 3, 0x22, -1, 0) as *mut u8;
        if b as isize == -1 {
            die("alloc", "out of memory");
        }
        mprotect(b.add(PG + data) as *mut c_void, PG, 0);
        // header page: size, align, magic
        let p = b.add(PG + (data - size) / align * align);
        let h = b as *mut usize;
        *h = size;
        *h.add(1) = align;
        *h.add(2) = 0x5afe_5afe;
        *h.add(3) = p as usize;
        core::ptr::write_bytes(p, 0xa5, size);
        p
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_dealloc(p: *mut u8, size: usize, align: usize) {
    LIVE.fetch_sub(1, Ordering::SeqCst);
    #[cfg(miri)]
    unsafe {
        std::alloc::GlobalAlloc::dealloc(&std::alloc::System, p, std::alloc::Layout::from_size_align(size, align).unwrap())
    }
    #[cfg(not(miri))]
    free_pages(p, size, align)
}
#[cfg(not(miri))]
fn free_pages(p: *mut u8, size: usize, align: usize) {
    let data = (size + PG - 1) / PG * PG;
    unsafe {
        let b = ((p as usize) & !(PG - 1)) as *mut u8;
        let b = b.sub(PG);
        let h = b as *mut usize;
        if *h.add(2) != 0x5afe_5afe || *h != size || *h.add(1) != align || *h.add(3) != p as usize {
            die("memory", "free with a wrong pointer or layout");
        }
        mprotect(b as *mut c_void, data + 2 * PG, 0);
    }
}

static mut INPUTS: Vec<(String, u64)> = Vec::new();
static mut COUNTS: Vec<(String, u32)> = Vec::new();
static mut PARAMS: Vec<(String, u64)> = Vec::new();
static mut TRACE: [u64; 65536] = [0; 65536];
static mut NTRACE: usize = 0;
static mut BASE: u64 = 0;

#[allow(static_mut_refs)]
unsafe fn name_of(p: *const u8, n: usize) -> &'static str {
    unsafe { core::str::from_utf8_unchecked(core::slice::from_raw_parts(p, n)) }
}

#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
pub extern "C-unwind" fn __sym_var(p: *const u8, n: usize, _bits: u32, lo: u64, hi: u64) -> u64 {
    unsafe {
        let name = name_of(p, n);
        let l0 = LIVE.load(Ordering::SeqCst);
        let k = match COUNTS.iter_mut().find(|(s, _)| s == name) {
            Some((_, c)) => {
                *c += 1;
                *c - 1
            }
            None => {
                COUNTS.push((name.to_string(), 1));
                0
            }
        };
        let full = format!("{}#{}", name, k);
        let v = INPUTS.iter().find(|(s, _)| *s == full).map(|x| x.1).unwrap_or(lo);
        drop(full);
        LIVE.store(l0, Ordering::SeqCst);
        if v < lo || v > hi {
            say("REPLAY-INVALID input out of range\n");
            _exit(43);
        }
        v
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_assume(c: bool) {
    if !c {
        say("REPLAY-INVALID assumption does not hold\n");
        unsafe { _exit(43) }
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_assert(c: bool, p: *const u8, n: usize) {
    if !c {
        die("assert", unsafe { name_of(p, n) });
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_fail(p: *const u8, n: usize) {
    die("assert", unsafe { name_of(p, n) });
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_cover(_: u64) {}
#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
pub extern "C-unwind" fn __sym_trace(v: u64) {
    unsafe {
        if NTRACE < TRACE.len() {
            TRACE[NTRACE] = v;
            NTRACE += 1;
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_concretize(v: u64) -> u64 {
    v
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_live() -> u64 {
    unsafe { LIVE.load(Ordering::SeqCst) - BASE }
}
#[unsafe(no_mangle)]
#[allow(static_mut_refs)]
pub extern "C-unwind" fn __sym_param(p: *const u8, n: usize, d: u64) -> u64 {
    unsafe {
        let name = name_of(p, n);
        PARAMS.iter().find(|(s, _)| s == name).map(|x| x.1).unwrap_or(d)
    }
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_catch(f: extern "C-unwind" fn(*mut u8), data: *mut u8) -> bool {
    let d = data as usize;
    let r = std::panic::catch_unwind(move || f(d as *mut u8));
    r.is_err()
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_tag(_: *const u8, _: usize) {}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_ite(c: bool, a: u64, b: u64) -> u64 {
    if c { a } else { b }
}

struct Start {
    f: extern "C-unwind" fn(*mut u8, u64),
    data: *mut u8,
    i: u64,
}
extern "C" fn enter(p: *mut c_void) -> *mut c_void {
    let s = unsafe { &*(p as *const Start) };
    if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.f)(s.data, s.i))).is_err() {
        die("panic", "in a thread");
    }
    core::ptr::null_mut()
}
unsafe extern "C" {
    fn pthread_create(t: *mut u64, attr: *const c_void, f: extern "C" fn(*mut c_void) -> *mut c_void, a: *mut c_void) -> i32;
    fn pthread_join(t: u64, r: *mut *mut c_void) -> i32;
}
#[unsafe(no_mangle)]
pub extern "C-unwind" fn __sym_par(f: extern "C-unwind" fn(*mut u8, u64), data: *mut u8, n: u64) {
    let mut s: [Start; 8] = core::array::from_fn(|i| Start { f, data, i: i as u64 });
    let mut t = [0u64; 8];
    let p = s.as_mut_ptr();
    for i in 0..n as usize {
        let rc = unsafe { pthread_create(&mut t[i], core::ptr::null(), enter, p.add(i) as *mut c_void) };
        if rc != 0 {
            die("threads", "cannot start");
        }
    }
    for i in 0..n as usize {
        unsafe { pthread_join(t[i], core::ptr::null_mut()) };
    }
}

/// Runs the entry on the inputs of the file named on the command line:
/// lines `name#k=value`, or `param:name=value`.
#[allow(static_mut_refs)]
pub fn main(entries: &[(&str, fn())]) {
    let args: Vec<String> = std::env::args().collect();
    let f = entries.iter().find(|e| e.0 == args[1]);
    let Some((_, f)) = f else {
        eprintln!("no entry {}", args[1]);
        std::process::exit(44);
    };
    let text = std::fs::read_to_string(&args[2]).expect("inputs");
    unsafe {
        COUNTS.reserve(4096);
        for l in text.lines() {
            let Some((k, v)) = l.split_once('=') else { continue };
            let v: u64 = v.parse().expect("value");
            match k.strip_prefix("param:") {
                Some(k) => PARAMS.push((k.to_string(), v)),
                None => INPUTS.push((k.to_string(), v)),
            }
        }
    }
    std::panic::set_hook(Box::new(|_| {}));
    // let the panic machinery allocate what it keeps
    let _ = std::panic::catch_unwind(|| panic!("warm-up"));
    unsafe { BASE = LIVE.load(Ordering::SeqCst) };
    let r = std::panic::catch_unwind(|| f());
    if let Err(e) = r {
        let s = e
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| e.downcast_ref::<String>().cloned())
            .unwrap_or_default();
        die("panic", &s);
    }
    let mut out = String::from("TRACE");
    unsafe {
        for v in &TRACE[..NTRACE] {
            out.push_str(&format!(" {}", v));
        }
    }
    println!("{}", out);
    println!("REPLAY-OK");
}
