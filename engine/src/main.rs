//! rsx: a small symbolic executor for the LLVM IR of Rust programs.
mod exec;
mod expr;
mod ir;
mod solver;

use exec::*;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::Instant;

extern "C" {
    fn fork() -> i32;
    fn waitpid(p: i32, st: *mut i32, o: i32) -> i32;
    fn mmap(a: *mut u8, n: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn _exit(c: i32) -> !;
    fn getpid() -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn setrlimit(r: i32, l: *const [u64; 2]) -> i32;
}

fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o
}
fn inputs_json(v: &[(String, u64)]) -> String {
    let mut s = String::from("[");
    for (i, (n, x)) in v.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "[\"{}\",{}]", esc(n), x);
    }
    s.push(']');
    s
}

fn dump(e: &Engine, remaining: usize, path: &str) {
    let mut o = String::new();
    let s = &e.stats;
    let v = &e.sv;
    let mut num = |k: &str, x: u64| {
        let _ = writeln!(o, "N\t{}\t{}", k, x);
    };
    num("paths", s.paths);
    num("killed", s.killed);
    num("forks", s.forks);
    num("insts", s.insts);
    num("asserts", s.asserts);
    num("symbolic_asserts", s.sym_asserts);
    num("branch_decisions", s.branches);
    num("queries", v.queries);
    num("z3_calls", v.z3_calls);
    num("cache_hits", v.cache_hits);
    num("model_reuse", v.model_hits);
    num("sat", v.sat);
    num("unsat", v.unsat);
    num("solver_us", (v.time * 1e6) as u64);
    num("remaining", remaining as u64);
    let _ = writeln!(o, "C\t{}", s.covers);
    let _ = writeln!(o, "M\t{}", s.max_steps);
    for v in &e.viols {
        let _ = writeln!(
            o,
            "V\t{{\"kind\":\"{}\",\"msg\":\"{}\",\"tag\":\"{}\",\"inputs\":{},\"stack\":[{}]}}",
            esc(&v.kind),
            esc(&v.msg),
            esc(&v.tag),
            inputs_json(&v.inputs),
            v.stack.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(",")
        );
    }
    for u in &e.unsup {
        let _ = writeln!(o, "U\t\"{}\"", esc(u));
    }
    for s in &e.samples {
        let _ = writeln!(
            o,
            "S\t{{\"inputs\":{},\"trace\":[{}]}}",
            inputs_json(&s.inputs),
            s.trace.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
        );
    }
    for f in &e.funcs {
        let h: String = f.hits.borrow().iter().map(|&b| if b { '1' } else { '0' }).collect();
        let _ = writeln!(o, "F\t{}\t{}", f.name, h);
    }
    std::fs::write(path, o).expect("write part");
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let mut ll = String::new();
    let mut entry = String::new();
    let mut out = String::new();
    let mut params = HashMap::new();
    let mut jobs = 8usize;
    let mut tlimit = 600.0f64;
    let mut steps = 20_000_000u64;
    let mut rlimit = 50_000_000u32;
    let mut verbose = false;
    let mut max_viol = 20usize;
    let mut seeds = 0usize;
    let mut i = 1;
    while i < args.len() {
        let nx = |i: &mut usize| -> String {
            *i += 1;
            args[*i].clone()
        };
        match args[i].as_str() {
            "--entry" => entry = nx(&mut i),
            "--out" => out = nx(&mut i),
            "--jobs" => jobs = nx(&mut i).parse().unwrap(),
            "--time-limit" => tlimit = nx(&mut i).parse().unwrap(),
            "--step-limit" => steps = nx(&mut i).parse().unwrap(),
            "--rlimit" => rlimit = nx(&mut i).parse().unwrap(),
            "--max-viol" => max_viol = nx(&mut i).parse().unwrap(),
            "--seeds" => seeds = nx(&mut i).parse().unwrap(),
            "--param" => {
                let p = nx(&mut i);
                let (k, v) = p.split_once('=').unwrap();
                params.insert(k.to_string(), v.parse().unwrap());
            }
            "-v" => verbose = true,
            x => ll = x.to_string(),
        }
        i += 1;
    }
    // deep recursion over expressions
    let h = std::thread::Builder::new()
        .stack_size(2 << 30)
        .spawn(move || real_main(ll, entry, out, params, jobs, tlimit, steps, rlimit, verbose, max_viol, seeds))
        .unwrap();
    let code = h.join().unwrap_or(2);
    std::process::exit(code);
}

#[allow(clippy::too_many_arguments)]
fn real_main(
    ll: String,
    entry: String,
    out: String,
    params: HashMap<String, u64>,
    jobs: usize,
    tlimit: f64,
    steps: u64,
    rlimit: u32,
    verbose: bool,
    max_viol: usize,
    seeds: usize,
) -> i32 {
    unsafe {
        // no core files, bounded memory per process (24 GB address space)
        setrlimit(4, &[0, 0]);
    }
    let t0 = Instant::now();
    let m = ir::Module::load(&ll);
    let mut e = Engine::new(&m, params.clone(), rlimit);
    e.step_limit = steps;
    e.verbose = verbose;
    let st = match e.initial(&entry) {
        Ok(s) => s,
        Err(x) => {
            eprintln!("{}", x);
            return 2;
        }
    };
    let t_load = t0.elapsed().as_secs_f64();
    e.work.push(st);
    let want = if seeds > 0 { seeds } else if jobs <= 1 { 0 } else { jobs * 12 };
    let mut q: std::collections::VecDeque<State> = e.work.drain(..).collect();
    let over = |e: &Engine| e.viols.len() >= max_viol || e.unsup.len() >= 40 || t0.elapsed().as_secs_f64() > tlimit;
    while q.len() < want {
        let Some(s) = q.pop_front() else { break };
        e.run(s);
        q.extend(e.work.drain(..));
        if over(&e) {
            break;
        }
    }
    let mut parts = vec![];
    let pid = unsafe { getpid() };
    if jobs <= 1 || q.is_empty() || over(&e) {
        e.work = q.into_iter().collect();
        while let Some(s) = e.work.pop() {
            if over(&e) {
                e.work.push(s);
                break;
            }
            e.run(s);
        }
        let p = format!("/tmp/rsx.{}.{}.part", pid, "m");
        dump(&e, e.work.len(), &p);
        parts.push(p);
    } else {
        // the parent's own share of the statistics
        let p = format!("/tmp/rsx.{}.{}.part", pid, "m");
        dump(&e, 0, &p);
        parts.push(p);
        let shared = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) };
        let ctr = unsafe { &*(shared as *const AtomicU64) };
        let vio = unsafe { &*(shared.add(64) as *const AtomicU64) };
        let free = unsafe { &*(shared.add(128) as *const AtomicU64) };
        let nparts = unsafe { &*(shared.add(192) as *const AtomicU64) };
        let all: Vec<State> = q.into_iter().collect();
        nparts.store(jobs as u64, Ordering::SeqCst);
        // helpers forked by workers are inherited when the workers exit
        unsafe { prctl(36, 1, 0, 0, 0) };
        for j in 0..jobs {
            if unsafe { fork() } != 0 {
                continue;
            }
            let mut p = format!("/tmp/rsx.{}.{}.part", pid, j);
            let reset = |e: &mut Engine| {
                e.sv.reset_counters();
                e.stats = Stats::default();
                e.viols.clear();
                e.samples.clear();
                e.unsup.clear();
            };
            reset(&mut e);
            let mut remaining = 0;
            let mut split = Instant::now();
            loop {
                if e.work.is_empty() {
                    let k = ctr.fetch_add(1, Ordering::Relaxed) as usize;
                    if k >= all.len() {
                        break;
                    }
                    if vio.load(Ordering::Relaxed) as usize >= max_viol || t0.elapsed().as_secs_f64() > tlimit {
                        remaining += 1;
                        continue;
                    }
                    e.work.push(all[k].clone());
                }
                let mut nv = e.viols.len();
                while let Some(s) = e.work.pop() {
                    e.run(s);
                    if e.viols.len() > nv {
                        vio.fetch_add((e.viols.len() - nv) as u64, Ordering::Relaxed);
                        nv = e.viols.len();
                    }
                    if e.unsup.len() >= 40 {
                        vio.fetch_add(1 << 20, Ordering::Relaxed);
                    }
                    if vio.load(Ordering::Relaxed) as usize >= max_viol || t0.elapsed().as_secs_f64() > tlimit {
                        break;
                    }
                    // give half of the work away when a worker has run dry
                    let f = free.load(Ordering::Relaxed);
                    if f > 0
                        && e.work.len() >= 2
                        && split.elapsed().as_millis() > 40
                        && free.compare_exchange(f, f - 1, Ordering::SeqCst, Ordering::SeqCst).is_ok()
                    {
                        let h = e.work.len() / 2;
                        let k = nparts.fetch_add(1, Ordering::SeqCst);
                        let c = unsafe { fork() };
                        if c == 0 {
                            p = format!("/tmp/rsx.{}.{}.part", pid, k);
                            e.work.truncate(h);
                            reset(&mut e);
                            remaining = 0;
                            nv = 0;
                            e.max_samples = 0;
                        } else if c > 0 {
                            e.work.drain(..h);
                        }
                        split = Instant::now();
                    }
                }
                remaining += e.work.len();
                e.work.clear();
            }
            dump(&e, remaining, &p);
            free.fetch_add(1, Ordering::SeqCst);
            unsafe { _exit(0) };
        }
        let mut failed = 0;
        loop {
            let mut st = 0;
            if unsafe { waitpid(-1, &mut st, 0) } < 0 {
                break;
            }
            if st != 0 {
                failed = st;
            }
        }
        for j in 0..nparts.load(Ordering::SeqCst) {
            parts.push(format!("/tmp/rsx.{}.{}.part", pid, j));
        }
        if failed != 0 {
            eprintln!("worker failed with status {:#x}", failed);
            for p in &parts {
                let _ = std::fs::remove_file(p);
            }
            return 2;
        }
    }
    // merge
    let mut nums: BTreeMap<String, u64> = BTreeMap::new();
    let mut viols = vec![];
    let mut unsup = vec![];
    let mut samples = vec![];
    let mut funcs: BTreeMap<String, Vec<bool>> = BTreeMap::new();
    let mut covers = 0u64;
    let mut maxsteps = 0u64;
    for p in &parts {
        let s = std::fs::read_to_string(p).expect("part");
        let _ = std::fs::remove_file(p);
        for l in s.lines() {
            let f: Vec<&str> = l.splitn(3, '\t').collect();
            match f[0] {
                "N" => *nums.entry(f[1].into()).or_default() += f[2].parse::<u64>().unwrap(),
                "C" => covers |= f[1].parse::<u64>().unwrap(),
                "M" => maxsteps = maxsteps.max(f[1].parse::<u64>().unwrap()),
                "V" => viols.push(f[1].to_string()),
                "U" => unsup.push(f[1].to_string()),
                "S" => samples.push(f[1].to_string()),
                "F" => {
                    let b: Vec<bool> = f[2].bytes().map(|c| c == b'1').collect();
                    let x = funcs.entry(f[1].into()).or_insert_with(|| vec![false; b.len()]);
                    for (i, k) in b.iter().enumerate() {
                        x[i] |= k;
                    }
                }
                _ => {}
            }
        }
    }
    unsup.sort();
    unsup.dedup();
    let complete = nums.get("remaining").copied().unwrap_or(0) == 0 && unsup.is_empty();
    let mut o = String::from("{");
    for (k, v) in &nums {
        let _ = write!(o, "\"{}\":{},", k, v);
    }
    let _ = write!(o, "\"covers\":{},\"max_steps\":{},\"complete\":{},", covers, maxsteps, complete);
    let _ = write!(o, "\"load_s\":{:.3},\"wall_s\":{:.3},", t_load, t0.elapsed().as_secs_f64());
    let _ = write!(o, "\"violations\":[{}],", viols.join(","));
    let _ = write!(o, "\"unsupported\":[{}],", unsup.join(","));
    let _ = write!(o, "\"samples\":[{}],", samples.join(","));
    let fs: Vec<String> = funcs
        .iter()
        .filter(|(_, b)| b.iter().any(|x| *x))
        .map(|(n, b)| format!("[\"{}\",{},{}]", esc(n), b.iter().filter(|x| **x).count(), b.len()))
        .collect();
    let _ = write!(o, "\"functions\":[{}]}}", fs.join(","));
    if out.is_empty() {
        println!("{}", o);
    } else {
        std::fs::write(&out, o).expect("write out");
    }
    0
}
