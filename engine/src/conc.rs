//! Threads: a symbolic schedule over the visible (atomic) operations with
//! sleep sets, release/acquire views after the C11/RC11 model (no load
//! buffering), and happens-before race detection on every access.
use super::*;

#[derive(Clone, Default)]
pub struct View {
    vc: Vec<u32>,
    /// oldest message of a location that may still be read
    seen: BTreeMap<(u32, u32), u32>,
}
impl View {
    fn join(&mut self, o: &View) {
        if self.vc.len() < o.vc.len() {
            self.vc.resize(o.vc.len(), 0);
        }
        for (a, b) in self.vc.iter_mut().zip(&o.vc) {
            *a = (*a).max(*b);
        }
        for (k, v) in &o.seen {
            let e = self.seen.entry(*k).or_insert(0);
            *e = (*e).max(*v);
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
struct Pend {
    id: u32,
    off: u32,
    n: u32,
    write: bool,
}
impl Pend {
    fn dependent(&self, o: &Pend) -> bool {
        self.id == o.id && self.off < o.off + o.n && o.off < self.off + self.n && (self.write || o.write)
    }
}

#[derive(Clone)]
struct Th {
    frames: Vec<Rc<Frame>>,
    ncatch: u32,
    last_panic: Rc<str>,
    view: View,
    acqp: View,
    relf: View,
    done: bool,
    pend: Option<Pend>,
}

#[derive(Clone)]
struct Msg {
    v: V,
    sync: View,
}
#[derive(Clone, Default)]
struct Loc {
    hist: Vec<Msg>,
    stale: bool,
}
#[derive(Clone)]
struct Acc {
    lo: u32,
    hi: u32,
    tid: u32,
    clk: u32,
    write: bool,
    atomic: bool,
    func: &'static str,
}

#[derive(Clone)]
pub struct Par {
    main: Vec<Rc<Frame>>,
    main_ncatch: u32,
    main_panic: Rc<str>,
    cur: usize,
    th: Vec<Th>,
    locs: BTreeMap<(u32, u32), Loc>,
    acc: HashMap<u32, Vec<Acc>>,
    own: HashMap<u32, u32>,
    tls: BTreeMap<(u32, u32), u64>,
    escaped: bool,
    sleep: u32,
    granted: bool,
    pub need: bool,
    choice: Option<V>,
    rf: Option<V>,
    pub log: Vec<String>,
}


impl<'m> Engine<'m> {
    /// Runs `f(data, i)` for `i` in `0..n`, one thread each, and waits for all.
    pub fn par_start(&mut self, st: &mut State, f: Rc<Func>, data: V, n: usize) -> X<()> {
        if st.par.is_some() {
            return unsup("nested threads");
        }
        if n == 0 || n > 8 {
            return unsup("number of threads");
        }
        f.hits.borrow_mut()[0] = true;
        let mut th = vec![];
        for i in 0..n {
            let mut regs = vec![V::I(0); f.nregs as usize];
            regs[0] = data.clone();
            regs[1] = V::I(i as u64);
            let fr = Frame { func: f.clone(), regs, block: 0, ip: 0, allocas: vec![], catch: false };
            let mut view = View { vc: vec![0; n], seen: BTreeMap::new() };
            view.vc[i] = 1;
            th.push(Th {
                frames: vec![Rc::new(fr)],
                ncatch: 0,
                last_panic: "".into(),
                view,
                acqp: View::default(),
                relf: View::default(),
                done: false,
                pend: None,
            });
        }
        let main = std::mem::take(&mut st.frames);
        st.frames = std::mem::take(&mut th[0].frames);
        st.par = Some(Box::new(Par {
            main,
            main_ncatch: st.ncatch,
            main_panic: st.last_panic.clone(),
            cur: 0,
            th,
            locs: BTreeMap::new(),
            acc: HashMap::new(),
            own: HashMap::new(),
            tls: BTreeMap::new(),
            escaped: false,
            sleep: 0,
            granted: false,
            need: false,
            choice: None,
            rf: None,
            log: vec![],
        }));
        st.ncatch = 0;
        Ok(())
    }
    fn switch(st: &mut State, t: usize) {
        let p = st.par.as_mut().unwrap();
        if p.cur == t {
            return;
        }
        let c = p.cur;
        p.th[c].frames = std::mem::take(&mut st.frames);
        p.th[c].ncatch = st.ncatch;
        p.th[c].last_panic = st.last_panic.clone();
        st.frames = std::mem::take(&mut p.th[t].frames);
        st.ncatch = p.th[t].ncatch;
        st.last_panic = p.th[t].last_panic.clone();
        p.cur = t;
    }
    pub fn thread_end(&mut self, st: &mut State) {
        let p = st.par.as_mut().unwrap();
        let c = p.cur;
        p.th[c].done = true;
        p.need = true;
    }
    /// Decides which thread makes the next visible step.
    pub fn schedule(&mut self, st: &mut State) -> X<()> {
        let p = st.par.as_mut().unwrap();
        let n = p.th.len();
        if p.choice.is_none() {
            // first everyone runs up to their next visible operation
            if let Some(t) = (0..n).find(|&t| !p.th[t].done && p.th[t].pend.is_none()) {
                p.need = false;
                Self::switch(st, t);
                return Ok(());
            }
            if p.th.iter().all(|t| t.done) {
                let p = st.par.take().unwrap();
                st.frames = p.main;
                st.ncatch = p.main_ncatch;
                st.last_panic = p.main_panic;
                self.resume_caller(st, Some(V::I(0)));
                return Ok(());
            }
        }
        let en: Vec<usize> = (0..n).filter(|&t| p.th[t].pend.is_some() && p.sleep >> t & 1 == 0).collect();
        if en.is_empty() {
            return Err(Stop::Killed); // another order of independent steps, seen elsewhere
        }
        let k = if en.len() == 1 {
            0
        } else {
            if p.choice.is_none() {
                Self::switch(st, en[0]);
                let bits = 32 - (en.len() as u32 - 1).leading_zeros();
                let v = self.new_var(st, "sched", bits, 0, en.len() as u64 - 1);
                st.par.as_mut().unwrap().choice = Some(v);
            }
            let v = st.par.as_ref().unwrap().choice.clone().unwrap();
            Rc::make_mut(st.frames.last_mut().unwrap()).ip += 1;
            let r = self.concretize(st, &v, 64, "schedule");
            Rc::make_mut(st.frames.last_mut().unwrap()).ip -= 1;
            r? as usize
        };
        let p = st.par.as_mut().unwrap();
        p.choice = None;
        for &u in &en[..k] {
            p.sleep |= 1 << u;
        }
        p.need = false;
        p.granted = true;
        Self::switch(st, en[k]);
        Ok(())
    }
    /// Called before an atomic access; false when another thread has to be
    /// considered first (the instruction is then executed again later).
    pub fn visible(&mut self, st: &mut State, a: u64, n: u32, write: bool) -> X<bool> {
        let (id, off, _) = self.find(st, a, n as u64, "atomic access")?;
        let p = st.par.as_mut().unwrap();
        if p.granted || self.is_local(st, id) {
            return Ok(true);
        }
        let p = st.par.as_mut().unwrap();
        let c = p.cur;
        p.th[c].pend = Some(Pend { id, off: off as u32, n, write });
        p.need = true;
        Rc::make_mut(st.frames.last_mut().unwrap()).ip -= 1;
        Ok(false)
    }
    fn is_local(&self, st: &State, id: u32) -> bool {
        let p = st.par.as_ref().unwrap();
        !p.escaped && p.own.get(&id) == Some(&(p.cur as u32))
    }
    fn visible_done(st: &mut State, what: &str) {
        let f = st.frames.last().unwrap().func.name.to_string();
        let p = st.par.as_mut().unwrap();
        let c = p.cur;
        if let Some(o) = p.th[c].pend.take() {
            p.log.push(format!("thread {}: {} object {}+{} in {}", c, what, o.id as i64 - HEAP_BASE as i64, o.off, f));
            for t in 0..p.th.len() {
                if p.sleep >> t & 1 == 1 && p.th[t].pend.is_some_and(|q| q.dependent(&o)) {
                    p.sleep &= !(1 << t);
                }
            }
        }
        p.granted = false;
        p.rf = None;
        p.th[c].view.vc[c] += 1;
    }
    pub fn note_alloc(st: &mut State, id: u32) {
        let p = st.par.as_mut().unwrap();
        p.own.insert(id, p.cur as u32);
    }
    pub fn note_free(&mut self, st: &mut State, a: u64, n: u64) -> X<()> {
        self.acc(st, a, n, true, false)?;
        let (id, _, _) = self.find(st, a, 0, "free")?;
        let p = st.par.as_mut().unwrap();
        p.locs.retain(|k, _| k.0 != id);
        p.acc.remove(&id);
        Ok(())
    }
    /// Records an access and checks it against unordered earlier ones.
    pub fn acc(&mut self, st: &mut State, a: u64, n: u64, write: bool, atomic: bool) -> X<()> {
        if n == 0 {
            return Ok(());
        }
        let (id, off, o) = self.find(st, a, n, if write { "write" } else { "read" })?;
        if o.kind == K_CONST || o.kind == K_STACK && self.is_local(st, id) {
            return Ok(());
        }
        drop(o);
        let func = st.frames.last().unwrap().func.name;
        let p = st.par.as_mut().unwrap();
        let c = p.cur;
        let (lo, hi) = (off as u32, off as u32 + n as u32);
        if write && !atomic {
            for (k, l) in p.locs.iter_mut() {
                if k.0 == id && k.1 < hi && lo < k.1 + 8 {
                    l.stale = true;
                }
            }
        }
        let list = p.acc.entry(id).or_default();
        for x in list.iter() {
            if x.tid != c as u32 && x.lo < hi && lo < x.hi && (x.write || write) && !(x.atomic && atomic) && x.clk > p.th[c].view.vc[x.tid as usize] {
                let d = |w: bool, a: bool| format!("{}{}", if a { "atomic " } else { "" }, if w { "write" } else { "read" });
                let m = format!("{} in {} and {} in {} are not ordered", d(x.write, x.atomic), x.func, d(write, atomic), func);
                return viol("race", m);
            }
        }
        let clk = p.th[c].view.vc[c];
        if let Some(x) = list.iter_mut().find(|x| x.tid == c as u32 && x.lo == lo && x.hi == hi && x.write == write && x.atomic == atomic) {
            x.clk = clk;
            x.func = func;
        } else {
            list.push(Acc { lo, hi, tid: c as u32, clk, write, atomic, func });
        }
        Ok(())
    }
    /// Called after a write: has a pointer to a thread's own object become
    /// visible to others?
    pub fn note_escape(&mut self, st: &mut State, a: u64, n: u64) -> X<()> {
        if n < 8 || st.par.as_ref().unwrap().escaped {
            return Ok(());
        }
        let (id, off, o) = self.find(st, a, n, "write")?;
        if self.is_local(st, id) {
            return Ok(());
        }
        let mut k = (off + 7) / 8 * 8;
        while k + 8 <= off + n as usize {
            if o.st[k..k + 8].iter().all(|&s| s == 1) {
                let x = u64::from_le_bytes(o.data[k..k + 8].try_into().unwrap());
                let idp = (x >> ID_SHIFT) as u32;
                let p = st.par.as_mut().unwrap();
                if idp > 0 && x >> 56 == 0 && p.own.contains_key(&(idp - 1)) {
                    p.escaped = true;
                    return Ok(());
                }
            }
            k += 8;
        }
        Ok(())
    }
    fn loc<'a>(&self, st: &'a mut State, a: u64, w: u32) -> X<(&'a mut Par, (u32, u32))> {
        let n = w / 8;
        let (id, off, _) = self.find(st, a, n as u64, "atomic access")?;
        let cur = self.load_ty(st, a, &Ty::Int(w), n, n)?;
        let p = st.par.as_mut().unwrap();
        let key = (id, off as u32);
        let l = p.locs.entry(key).or_default();
        if l.hist.is_empty() {
            l.hist.push(Msg { v: cur, sync: View::default() });
        } else if l.stale {
            // a plain write happened in between (ordered, or reported as a race)
            l.hist.push(Msg { v: cur, sync: View::default() });
            l.stale = false;
            let last = l.hist.len() as u32 - 1;
            for t in &mut p.th {
                t.view.seen.insert(key, last);
            }
        }
        Ok((p, key))
    }
    pub fn at_load(&mut self, st: &mut State, a: u64, w: u32, ord: Ord) -> X<V> {
        let n = w / 8;
        if a % n as u64 != 0 {
            return viol("memory", "misaligned atomic load");
        }
        self.acc(st, a, n as u64, false, true)?;
        let (p, key) = self.loc(st, a, w)?;
        let c = p.cur;
        let lo = p.th[c].view.seen.get(&key).copied().unwrap_or(0);
        let last = p.locs[&key].hist.len() as u32 - 1;
        let mut i = last;
        if lo < last {
            // which of the writes not yet overwritten from this thread's view
            if p.rf.is_none() {
                let d = (last - lo) as u64;
                let v = self.new_var(st, "rf", 64 - d.leading_zeros(), 0, d);
                st.par.as_mut().unwrap().rf = Some(v);
            }
            let v = st.par.as_ref().unwrap().rf.clone().unwrap();
            i = last - self.concretize(st, &v, 64, "value read")? as u32;
        }
        let p = st.par.as_mut().unwrap();
        let m = p.locs[&key].hist[i as usize].clone();
        let t = &mut p.th[c];
        t.view.seen.insert(key, i);
        match ord {
            Ord::Acquire | Ord::AcqRel | Ord::SeqCst => t.view.join(&m.sync),
            _ => t.acqp.join(&m.sync),
        }
        Self::visible_done(st, &format!("load {:?} ({} behind)", ord, last - i));
        Ok(m.v)
    }
    /// `new` becomes the latest write; `rmw`: it continues release sequences.
    pub fn at_write(&mut self, st: &mut State, a: u64, w: u32, ord: Ord, new: &V, rmw: bool) -> X<()> {
        let n = w / 8;
        if a % n as u64 != 0 {
            return viol("memory", "misaligned atomic write");
        }
        self.acc(st, a, n as u64, true, true)?;
        let (p, key) = self.loc(st, a, w)?;
        let c = p.cur;
        let l = p.locs.get_mut(&key).unwrap();
        let k = l.hist.len() as u32;
        let prev = l.hist.last().unwrap().sync.clone();
        let t = &mut p.th[c];
        t.view.seen.insert(key, k);
        let mut sync = View::default();
        if rmw {
            match ord {
                Ord::Acquire | Ord::AcqRel | Ord::SeqCst => t.view.join(&prev),
                _ => t.acqp.join(&prev),
            }
            sync.join(&prev);
        }
        match ord {
            Ord::Release | Ord::AcqRel | Ord::SeqCst => sync.join(&t.view),
            _ => sync.join(&t.relf),
        }
        l.hist.push(Msg { v: new.clone(), sync });
        self.store_ty(st, a, &Ty::Int(w), n, n, new)?;
        self.note_escape(st, a, n as u64)?;
        Self::visible_done(st, &format!("{} {:?}", if rmw { "update" } else { "store" }, ord));
        Ok(())
    }
    /// A failed compare-exchange: reads the latest value.
    pub fn at_fail(&mut self, st: &mut State, a: u64, w: u32) -> X<()> {
        let n = w / 8;
        self.acc(st, a, n as u64, false, true)?;
        let (p, key) = self.loc(st, a, w)?;
        let c = p.cur;
        let l = &p.locs[&key];
        let k = l.hist.len() as u32 - 1;
        let prev = l.hist.last().unwrap().sync.clone();
        let t = &mut p.th[c];
        t.view.seen.insert(key, k);
        t.acqp.join(&prev);
        Self::visible_done(st, "failed compare-exchange");
        Ok(())
    }
    pub fn at_fence(&mut self, st: &mut State, ord: Ord) {
        let p = st.par.as_mut().unwrap();
        let c = p.cur;
        let t = &mut p.th[c];
        if matches!(ord, Ord::Acquire | Ord::AcqRel | Ord::SeqCst) {
            let a = t.acqp.clone();
            t.view.join(&a);
        }
        if matches!(ord, Ord::Release | Ord::AcqRel | Ord::SeqCst) {
            t.relf = t.view.clone();
        }
        t.view.vc[c] += 1;
    }
    /// This thread's copy of a thread-local variable.
    pub fn tls(&mut self, st: &mut State, a: u64) -> X<u64> {
        let id = (a >> ID_SHIFT) as u32 - 1;
        let p = st.par.as_ref().unwrap();
        let key = (p.cur as u32, id);
        if let Some(x) = p.tls.get(&key) {
            return Ok(*x);
        }
        let o = self.gobj(id)?;
        let x = self.alloc(st, o.size.max(1) as u64, 16, K_STACK)?;
        let (nid, _, _) = self.find(st, x, 0, "tls")?;
        let d = self.obj_mut(st, nid, "tls")?;
        d.data.copy_from_slice(&o.data);
        d.st.copy_from_slice(&o.st);
        st.par.as_mut().unwrap().tls.insert(key, x);
        Ok(x)
    }
}
