//! Threads. The schedule is explored like any other decision: at every operation on an atomic and
//! every lock that another thread might see, one path for each thread that can go on, with a
//! bound on the number of times a thread that could go on is interrupted. All other accesses are
//! checked by vector clocks: two accesses of which one is a write, that are neither atomic nor
//! ordered by what happened before, are a data race. Without a data race, switching at
//! synchronising operations reaches every behaviour.
use super::*;
use crate::builtin::L;

const N: usize = 4;
type Clock = [u32; N];

/// an access to memory in one step
pub struct Acc {
    pub slot: u32,
    pub lo: u32,
    pub hi: u32,
    pub write: bool,
    pub free: bool,
}
#[derive(Clone)]
struct Rec {
    lo: u32,
    hi: u32,
    t: u8,
    write: bool,
    atomic: bool,
    clk: u32,
}
#[derive(Clone, Default)]
struct Shadow {
    creator: Option<u8>,
    shared: bool,
    recs: Vec<Rec>,
}
#[derive(Clone, Copy, PartialEq)]
enum Wait {
    No,
    Lock(L, u64),
    Join,
}
#[derive(Clone)]
struct Thr {
    frames: Option<(Frame, Vec<Rc<Frame>>)>,
    errno: u64,
    done: bool,
    wait: Wait,
    /// has been scheduled for the operation it is at
    skip: bool,
    vc: Clock,
    /// what relaxed loads have seen, for an acquire fence to come
    acq: Clock,
    /// at the last release fence
    rel: Clock,
    tls: FxMap<u64, u64>,
}
#[derive(Clone)]
pub struct Par {
    thr: Vec<Thr>,
    pub cur: usize,
    left: u32,
    sync: FxMap<u64, Clock>,
    shadow: FxMap<u32, Rc<Shadow>>,
    pub quiet: bool,
}
fn join(a: &mut Clock, b: &Clock) {
    for i in 0..N {
        a[i] = a[i].max(b[i]);
    }
}
fn acquires(o: u8) -> bool {
    matches!(o, 4 | 6 | 7)
}
fn releases(o: u8) -> bool {
    matches!(o, 5..=7)
}
impl Thr {
    fn new(vc: Clock) -> Thr {
        Thr {
            frames: None,
            errno: 0,
            done: false,
            wait: Wait::No,
            skip: false,
            vc,
            acq: [0; N],
            rel: [0; N],
            tls: Default::default(),
        }
    }
}
impl Par {
    pub fn created(&mut self, slot: u32) {
        self.shadow.insert(slot, Rc::new(Shadow { creator: Some(self.cur as u8), ..Default::default() }));
    }
    pub fn forget(&mut self, slot: u32) {
        self.shadow.remove(&slot);
    }
    /// only the present thread has ever seen it
    fn private(&self, slot: u32) -> bool {
        match self.shadow.get(&slot) {
            Some(s) => s.creator == Some(self.cur as u8) && !s.shared,
            None => false,
        }
    }
    fn access(&mut self, a: &Acc, atomic: bool) -> Option<String> {
        let c = self.cur;
        let vc = self.thr[c].vc;
        let s = Rc::make_mut(self.shadow.entry(a.slot).or_default());
        if s.creator != Some(c as u8) {
            s.shared = true;
        }
        for r in &s.recs {
            if r.t as usize != c
                && r.lo < a.hi
                && a.lo < r.hi
                && (r.write || a.write)
                && !(r.atomic && atomic)
                && r.clk > vc[r.t as usize]
            {
                return Some(format!(
                    "data race: {} and {} of the same memory by two threads",
                    if a.free { "release" } else if a.write { "write" } else { "read" },
                    if r.write { "write" } else { "read" },
                ));
            }
        }
        if a.free {
            self.shadow.remove(&a.slot);
            return None;
        }
        let clk = vc[c];
        for r in &mut s.recs {
            if r.t as usize == c && r.write == a.write && r.atomic == atomic {
                if r.lo == a.lo && r.hi == a.hi {
                    r.clk = clk;
                    return None;
                }
                if r.clk == clk && a.lo <= r.hi && r.lo <= a.hi {
                    r.lo = r.lo.min(a.lo);
                    r.hi = r.hi.max(a.hi);
                    return None;
                }
            }
        }
        s.recs.push(Rec { lo: a.lo, hi: a.hi, t: c as u8, write: a.write, atomic, clk });
        None
    }
    fn acquire(&mut self, addr: u64, ord: u8) {
        if let Some(l) = self.sync.get(&addr) {
            let t = &mut self.thr[self.cur];
            if acquires(ord) {
                join(&mut t.vc, l);
            } else {
                join(&mut t.acq, l);
            }
        }
    }
    /// `keep`: a read-modify-write continues what was released before
    fn release(&mut self, addr: u64, ord: u8, keep: bool) {
        let c = self.cur;
        let t = &mut self.thr[c];
        let mut l = if releases(ord) { t.vc } else { t.rel };
        if releases(ord) {
            t.vc[c] += 1;
        }
        let s = self.sync.entry(addr).or_default();
        if keep {
            join(&mut l, s);
        }
        *s = l;
    }
}

impl<'p> Exec<'p> {
    pub(super) fn spawn(&mut self, st: &mut State, f: u64, x: u64, limit: u32) -> R<()> {
        if f & FUNC_FLAG == 0 {
            return Err(Stop::Err("spawn".into()));
        }
        let id = ((f & 0xffff_ffff) >> 4) as u32;
        let fu = &self.p.funcs[id as usize];
        let mut regs = vec![K(0); fu.nregs as usize];
        regs[0] = K(x);
        if st.par.is_none() {
            let mut vc = [0; N];
            vc[0] = 1;
            st.par = Some(Box::new(Par {
                thr: vec![Thr::new(vc)],
                cur: 0,
                left: limit,
                sync: Default::default(),
                shadow: Default::default(),
                quiet: false,
            }));
        }
        let p = st.par.as_mut().unwrap();
        let n = p.thr.len();
        if n == N {
            return Err(Stop::Err("too many threads".into()));
        }
        let c = p.cur;
        let mut vc = p.thr[c].vc;
        vc[n] = 1;
        let mut t = Thr::new(vc);
        t.frames = Some((Frame { f: id, regs, block: 0, ip: 0, allocas: vec![], ret: None, normal: None }, vec![]));
        p.thr.push(t);
        p.thr[c].vc[c] += 1;
        self.cov[fu.block_base as usize] = true;
        Ok(())
    }
    pub(super) fn join(&mut self, st: &mut State) -> R<()> {
        if let Some(p) = &st.par {
            if p.thr.iter().skip(1).any(|t| !t.done) {
                return Err(Stop::Err("join".into()));
            }
        }
        st.par = None;
        Ok(())
    }
    fn switch(&mut self, st: &mut State, to: usize) {
        let p = st.par.as_mut().unwrap();
        let c = p.cur;
        let (top, stack) = p.thr[to].frames.take().unwrap();
        let old = (std::mem::replace(&mut st.top, top), std::mem::replace(&mut st.stack, stack));
        p.thr[c].frames = Some(old);
        p.thr[c].errno = st.errno;
        st.errno = p.thr[to].errno;
        p.thr[to].wait = Wait::No;
        p.cur = to;
    }
    fn word(&mut self, st: &State, k: L, a: u64) -> R<u64> {
        let w = match k {
            L::PlMutex => 8,
            L::PlRead | L::PlWrite => 64,
            _ => 32,
        };
        match self.load(st, a, &Ty::Int(w))? {
            K(x) => Ok(x),
            _ => Err(Stop::Err("symbolic lock".into())),
        }
    }
    fn lock_free(&mut self, st: &State, k: L, a: u64) -> R<bool> {
        let t = self.track.replace(false);
        let s = self.word(st, k, a);
        self.track.set(t);
        let s = s?;
        let m = (1 << 30) - 1;
        Ok(match k {
            L::PlMutex => s & 1 == 0,
            L::PlRead => s & 8 == 0,
            L::PlWrite => s & !7 == 0,
            L::StdMutex => s == 0,
            L::StdRead => s & m < m - 1,
            L::StdWrite => s & m == 0,
        })
    }
    /// what the slow path of locking does once the lock is free
    pub(super) fn take_lock(&mut self, st: &mut State, k: L, a: u64) -> R<bool> {
        if !self.lock_free(st, k, a)? {
            return Ok(false);
        }
        let t = self.track.replace(false);
        let s = self.word(st, k, a)?;
        let m = (1 << 30) - 1;
        let (n, w) = match k {
            L::PlMutex => (s | 1, 8),
            L::PlRead => (s + 16, 64),
            L::PlWrite => (s | 8, 64),
            L::StdMutex => (1, 32),
            L::StdRead => (s + 1, 32),
            L::StdWrite => (s | m, 32),
        };
        self.store(st, a, &Ty::Int(w), &K(n))?;
        self.track.set(t);
        if let Some(p) = &mut st.par {
            p.acquire(a, 4);
        }
        Ok(true)
    }
    fn enabled(&mut self, st: &State, t: usize) -> R<bool> {
        let p = st.par.as_ref().unwrap();
        if p.thr[t].done {
            return Ok(false);
        }
        match p.thr[t].wait {
            Wait::No => Ok(true),
            Wait::Join => Ok(p.thr.iter().skip(1).all(|t| t.done)),
            Wait::Lock(k, a) => self.lock_free(st, k, a),
        }
    }
    /// which thread goes on; `me`: the present one can
    fn choose(&mut self, st: &mut State, me: bool) -> R<usize> {
        let (c, n, left) = {
            let p = st.par.as_ref().unwrap();
            (p.cur, p.thr.len(), p.left)
        };
        let mut opts = vec![];
        if me {
            opts.push(c);
        }
        if !me || left > 0 {
            for t in 0..n {
                if t != c && self.enabled(st, t)? {
                    opts.push(t);
                }
            }
        }
        if opts.is_empty() {
            return Err(Stop::Bad("deadlock", "no thread can go on".into()));
        }
        let to = if opts.len() == 1 {
            opts[0]
        } else if st.cur < st.log.len() {
            let t = match st.log[st.cur] {
                Dec::C(t) => t as usize,
                _ => return Err(Stop::Err("replay out of step (schedule)".into())),
            };
            st.cur += 1;
            t
        } else {
            for o in &opts[1..] {
                let m = st.model.clone();
                self.fork(st, Dec::C(*o as u64), m);
            }
            st.log.push(Dec::C(opts[0] as u64));
            st.cur += 1;
            opts[0]
        };
        if me && to != c {
            st.par.as_mut().unwrap().left -= 1;
        }
        Ok(to)
    }
    /// the present thread has returned from its function
    pub(super) fn finish(&mut self, st: &mut State) -> R<()> {
        let c = st.par.as_ref().unwrap().cur;
        st.par.as_mut().unwrap().thr[c].done = true;
        let to = self.choose(st, false)?;
        let p = st.par.as_mut().unwrap();
        let vc = p.thr[c].vc;
        join(&mut p.thr[0].vc, &vc);
        self.switch(st, to);
        Ok(())
    }
    pub(super) fn tls(&mut self, st: &mut State, a: V) -> R<V> {
        let (c, known) = match (&st.par, &a) {
            (Some(p), K(k)) if p.cur != 0 => (p.cur, p.thr[p.cur].tls.get(k).copied()),
            _ => return Ok(a),
        };
        let K(k) = a else { return Ok(a) };
        if let Some(x) = known {
            return Ok(K(x));
        }
        let slot = ((k >> SLOT_SHIFT) & 0xfffff) as usize;
        let d = self.p.globs[slot - 1].data.clone();
        let n = self.alloc(st, d.len() as u64, Kind::Global, 0, 16)?;
        let ns = ((n >> SLOT_SHIFT) & 0xfffff) as usize;
        Rc::make_mut(st.slots[ns].obj.as_mut().unwrap()).data = d;
        st.par.as_mut().unwrap().thr[c].tls.insert(k, n);
        Ok(K(n))
    }
    /// one step of the present thread, or a change of threads
    pub(super) fn step_par(&mut self, st: &mut State) -> R<()> {
        let p: &'p Prog = self.p;
        let f: &'p Func = &p.funcs[st.top.f as usize];
        let inst: &'p Inst = &f.blocks[st.top.block as usize].insts[st.top.ip as usize];
        let (ptr, atomic) = match inst {
            Inst::Load { p, ord, .. } | Inst::Store { p, ord, .. } => (Some(p), *ord >= 2),
            Inst::Rmw { p, .. } | Inst::CmpXchg { p, .. } => (Some(p), true),
            _ => (None, false),
        };
        let addr = match ptr {
            Some(p) if atomic => match self.get(st, p) {
                K(a) => Some(a),
                _ => None,
            },
            _ => None,
        };
        let (c, quiet, skip) = {
            let q = st.par.as_ref().unwrap();
            (q.cur, q.quiet, q.thr[q.cur].skip)
        };
        let mut to = c;
        if let Inst::Call { f: crate::ir::Callee::Builtin(b), args, .. } = inst {
            match b {
                B::Lock(k) => {
                    let V::K(a) = self.get(st, &args[0]) else { return Err(Stop::Err("symbolic lock".into())) };
                    if !self.lock_free(st, *k, a)? {
                        to = self.choose(st, false)?;
                        st.par.as_mut().unwrap().thr[c].wait = Wait::Lock(*k, a);
                    }
                }
                B::SymJoin => {
                    if st.par.as_ref().unwrap().thr.iter().skip(1).any(|t| !t.done) {
                        to = self.choose(st, false)?;
                        st.par.as_mut().unwrap().thr[c].wait = Wait::Join;
                    }
                }
                _ => {}
            }
        } else if let Some(a) = addr {
            let slot = ((a >> SLOT_SHIFT) & 0xfffff) as u32;
            let q = st.par.as_ref().unwrap();
            if a & CONST_FLAG == 0 && !quiet && !skip && !q.private(slot) {
                to = self.choose(st, true)?;
            }
        }
        if to != c {
            st.par.as_mut().unwrap().thr[c].skip = true;
            self.switch(st, to);
            return Ok(());
        }
        self.acc.borrow_mut().clear();
        self.track.set(!quiet);
        let r = self.step(st);
        self.track.set(false);
        r?;
        let acc = std::mem::take(&mut *self.acc.borrow_mut());
        let Some(q) = st.par.as_mut() else { return Ok(()) };
        if q.cur != c {
            return Ok(());
        }
        q.thr[c].skip = false;
        for a in &acc {
            if let Some(m) = q.access(a, atomic) {
                return Err(Stop::Bad("race", m));
            }
        }
        if let Some(a) = addr {
            match inst {
                Inst::Load { ord, .. } => q.acquire(a, *ord),
                Inst::Store { ord, .. } => q.release(a, *ord, false),
                Inst::Rmw { ord, .. } => {
                    q.acquire(a, *ord);
                    q.release(a, *ord, true);
                }
                Inst::CmpXchg { ord, ford, d, .. } => {
                    let won = match &st.top.regs[*d as usize] {
                        X(b) => matches!(&**b, Big::A(v) if matches!(v[1], K(1))),
                        _ => false,
                    };
                    let q = st.par.as_mut().unwrap();
                    q.acquire(a, if won { *ord } else { *ford });
                    if won {
                        q.release(a, *ord, true);
                    }
                }
                _ => {}
            }
        } else if let Inst::Fence { ord } = inst {
            let t = &mut q.thr[c];
            if acquires(*ord) {
                let a = t.acq;
                join(&mut t.vc, &a);
            }
            if releases(*ord) {
                t.rel = t.vc;
                t.vc[c] += 1;
            }
        }
        Ok(())
    }
}
