//! The forking symbolic executor.
use crate::builtin::B;
use crate::ir::*;
use crate::term::{fold, mask, sext, Arena, FxMap, Op, Tm};
use crate::z3::*;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum V {
    K(u64),
    T(Tm),
    X(Rc<Big>),
}
#[derive(Debug)]
pub enum Big {
    W(u128),
    A(Vec<V>),
}
use V::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Dec {
    B(bool),
    C(u64),
    Ex(Vec<u64>),
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Heap,
    Stack,
    Global,
}
#[derive(Clone)]
pub struct Obj {
    pub data: Vec<u8>,
    pub sym: FxMap<u32, Tm>,
    pub kind: Kind,
    pub align: u32,
}
#[derive(Clone)]
struct Slot {
    gen: u32,
    obj: Option<Rc<Obj>>,
}

#[derive(Clone)]
pub struct Frame {
    f: u32,
    regs: Vec<V>,
    block: u32,
    ip: u32,
    allocas: Vec<u32>,
    ret: Option<u32>,
    normal: Option<u32>,
}

#[path = "thread.rs"]
mod thread;

#[derive(Clone)]
pub struct State {
    top: Frame,
    stack: Vec<Rc<Frame>>,
    slots: Vec<Slot>,
    free: Vec<u32>,
    pub live: u64,
    pub pc: Vec<Tm>,
    pub model: Vec<u64>,
    pub widths: Vec<u16>,
    pub log: Vec<Dec>,
    pub cur: usize,
    mark: usize,
    pub obs: Vec<V>,
    pub steps: u64,
    pub expect_panic: bool,
    errno: u64,
    pub depth: u32,
    par: Option<Box<thread::Par>>,
}

pub enum Stop {
    Done,
    Infeasible,
    /// (kind, message)
    Bad(&'static str, String),
    Panic(String),
    Err(String),
    Fork,
}
type R<X> = Result<X, Stop>;

pub struct Viol {
    pub kind: String,
    pub msg: String,
    pub model: Vec<u64>,
    pub obs: Vec<u64>,
    pub trace: Vec<String>,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub steps: u64,
    pub forks: u64,
    pub paths: u64,
    pub infeasible: u64,
    pub checks: u64,
    pub checks_solver: u64,
    pub branches: u64,
    pub giveups: u64,
}

pub struct Exec<'p> {
    pub p: &'p Prog,
    pub fb: &'p [Option<B>],
    pub ar: Arena,
    pub sol: Solver,
    pub forks: Vec<State>,
    pub viols: Vec<Viol>,
    pub stats: Stats,
    pub cov: Vec<bool>,
    pub reach: Vec<String>,
    pub gaveup: Vec<String>,
    pub params: Vec<u64>,
    pub max_steps: u64,
    globs_init: Vec<Slot>,
    const_sizes: Vec<u32>,
    /// the accesses of the present step, when there are threads
    track: std::cell::Cell<bool>,
    acc: std::cell::RefCell<Vec<thread::Acc>>,
}

fn m64(w: u16) -> u64 {
    if w >= 64 {
        u64::MAX
    } else {
        (1u64 << w) - 1
    }
}
fn sx(v: u64, w: u16) -> i64 {
    if w >= 64 {
        v as i64
    } else {
        let s = 64 - w as u32;
        ((v << s) as i64) >> s
    }
}

impl<'p> Exec<'p> {
    pub fn new(p: &'p Prog, fb: &'p [Option<B>], timeout_ms: u32, cache: std::sync::Arc<Cache>) -> Self {
        let mut slots = vec![Slot { gen: 0, obj: None }];
        for g in &p.globs {
            slots.push(Slot {
                gen: 0,
                obj: if g.constant {
                    None
                } else {
                    Some(Rc::new(Obj { data: g.data.clone(), sym: Default::default(), kind: Kind::Global, align: 16 }))
                },
            });
        }
        Exec {
            p,
            fb,
            ar: Arena::new(),
            sol: Solver::new(timeout_ms, cache),
            forks: vec![],
            viols: vec![],
            stats: Stats::default(),
            cov: vec![false; p.nblocks as usize],
            reach: vec![],
            gaveup: vec![],
            params: vec![],
            max_steps: 30_000_000,
            globs_init: slots,
            const_sizes: p.globs.iter().map(|g| g.data.len() as u32).collect(),
            track: Default::default(),
            acc: Default::default(),
        }
    }
    pub fn start(&self, f: u32, log: Vec<Dec>, model: Vec<u64>) -> State {
        let fu = &self.p.funcs[f as usize];
        State {
            top: Frame {
                f,
                regs: vec![K(0); fu.nregs as usize],
                block: 0,
                ip: 0,
                allocas: vec![],
                ret: None,
                normal: None,
            },
            stack: vec![],
            slots: self.globs_init.clone(),
            free: vec![],
            live: 0,
            pc: vec![],
            model,
            widths: vec![],
            log,
            cur: 0,
            mark: 0,
            obs: vec![],
            steps: 0,
            expect_panic: false,
            errno: 0,
            depth: 0,
            par: None,
        }
    }
    // ---- values
    fn term(&mut self, v: &V, w: u16) -> Tm {
        match v {
            T(t) => *t,
            K(k) => self.ar.cst(w, *k as u128),
            X(b) => match &**b {
                Big::W(x) => self.ar.cst(w, *x),
                Big::A(_) => panic!("aggregate used as a term"),
            },
        }
    }
    fn val(&self, t: Tm) -> V {
        let n = self.ar.n(t);
        if n.op == Op::Const {
            if n.w <= 64 {
                K(n.imm as u64)
            } else {
                X(Rc::new(Big::W(n.imm)))
            }
        } else {
            T(t)
        }
    }
    fn wide(&self, v: &V) -> Option<u128> {
        match v {
            K(k) => Some(*k as u128),
            X(b) => match &**b {
                Big::W(x) => Some(*x),
                _ => None,
            },
            T(_) => None,
        }
    }
    fn mkv(&self, w: u16, x: u128) -> V {
        if w <= 64 {
            K(x as u64 & m64(w))
        } else {
            X(Rc::new(Big::W(x & mask(w))))
        }
    }
    fn cval(&self, c: &C) -> V {
        match c {
            C::I(x) => K(*x),
            C::W(x) => X(Rc::new(Big::W(*x))),
            C::A(v) => X(Rc::new(Big::A(v.iter().map(|c| self.cval(c)).collect()))),
        }
    }
    #[inline]
    fn get(&self, st: &State, o: &Opd) -> V {
        match o {
            Opd::R(r) => st.top.regs[*r as usize].clone(),
            Opd::K(k) => K(*k),
            Opd::C(c) => self.cval(c),
        }
    }
    #[inline]
    fn set(&self, st: &mut State, d: u32, v: V) {
        st.top.regs[d as usize] = v;
    }
    // ---- path condition and decisions
    fn add_pc(&mut self, st: &mut State, t: Tm) {
        let n = self.ar.n(t);
        if n.op == Op::Const {
            return;
        }
        if n.op == Op::And && n.w == 1 {
            self.add_pc(st, n.a);
            self.add_pc(st, n.b);
            return;
        }
        if !st.pc.contains(&t) {
            st.pc.push(t);
        }
    }
    fn known(&mut self, st: &State, t: Tm) -> Option<bool> {
        if st.pc.contains(&t) {
            return Some(true);
        }
        let n = self.ar.not(t);
        if st.pc.contains(&n) {
            return Some(false);
        }
        None
    }
    fn query(&mut self, st: &State, t: Tm) -> Res {
        self.sol.check(&mut self.ar, &st.pc, t, &st.widths, &st.model)
    }
    fn give_up(&mut self, what: &str) {
        self.stats.giveups += 1;
        if self.gaveup.len() < 20 {
            self.gaveup.push(what.to_string());
        }
    }
    fn fork(&mut self, st: &State, d: Dec, model: Vec<u64>) {
        let mut s = st.clone();
        s.log.truncate(st.cur);
        s.log.push(d);
        s.cur = st.mark;
        let mut m = model;
        if m.len() < st.model.len() {
            m.extend_from_slice(&st.model[m.len()..]);
        }
        s.model = m;
        s.depth += 1;
        self.stats.forks += 1;
        self.forks.push(s);
    }
    fn branch(&mut self, st: &mut State, c: Tm) -> R<bool> {
        if let Some(k) = self.ar.as_c(c) {
            return Ok(k != 0);
        }
        self.stats.branches += 1;
        if st.cur < st.log.len() {
            let b = match st.log[st.cur] {
                Dec::B(b) => b,
                _ => return Err(Stop::Err("replay out of step (branch)".into())),
            };
            st.cur += 1;
            let t = if b { c } else { self.ar.not(c) };
            self.add_pc(st, t);
            return Ok(b);
        }
        let v = match self.known(st, c) {
            Some(b) => b,
            None => {
                let v = self.ar.eval(c, &st.model) != 0;
                let n = self.ar.not(c);
                let other = if v { n } else { c };
                match self.query(st, other) {
                    Res::Sat(m) => {
                        self.fork(st, Dec::B(!v), m);
                        let t = if v { c } else { n };
                        self.add_pc(st, t);
                    }
                    Res::Unsat => {}
                    Res::Unknown => self.give_up("branch"),
                }
                v
            }
        };
        st.log.push(Dec::B(v));
        st.cur += 1;
        Ok(v)
    }
    fn concretize(&mut self, st: &mut State, v: &V, w: u16) -> R<u64> {
        let t = match v {
            K(k) => return Ok(*k),
            T(t) => *t,
            X(_) => return Err(Stop::Err("concretize wide value".into())),
        };
        self.stats.branches += 1;
        let mut ex: Vec<u64> = vec![];
        if st.cur < st.log.len() {
            match st.log[st.cur].clone() {
                Dec::C(k) => {
                    st.cur += 1;
                    let kt = self.ar.cst(w, k as u128);
                    let e = self.ar.bin(Op::Eq, t, kt);
                    self.add_pc(st, e);
                    return Ok(k);
                }
                Dec::Ex(vs) => {
                    if st.cur + 1 != st.log.len() {
                        return Err(Stop::Err("replay out of step (exclusion)".into()));
                    }
                    ex = vs;
                    st.log.pop();
                }
                _ => return Err(Stop::Err("replay out of step (value)".into())),
            }
        }
        let k = self.ar.eval(t, &st.model) as u64;
        let kt = self.ar.cst(w, k as u128);
        let e = self.ar.bin(Op::Eq, t, kt);
        let mut others = self.ar.not(e);
        for x in &ex {
            let xt = self.ar.cst(w, *x as u128);
            let q = self.ar.bin(Op::Eq, t, xt);
            let q = self.ar.not(q);
            others = self.ar.bin(Op::And, others, q);
        }
        if ex.len() > 600 {
            return Err(Stop::Err("more than 600 values for one concretized term".into()));
        }
        match self.query(st, others) {
            Res::Sat(m) => {
                ex.push(k);
                self.fork(st, Dec::Ex(ex), m);
                self.add_pc(st, e);
            }
            Res::Unsat => self.add_pc(st, e),
            Res::Unknown => {
                self.give_up("value");
                self.add_pc(st, e)
            }
        }
        st.log.push(Dec::C(k));
        st.cur += 1;
        Ok(k)
    }
    fn newvar(&mut self, st: &mut State, w: u16) -> Tm {
        let i = st.widths.len() as u32;
        st.widths.push(w);
        if st.model.len() <= i as usize {
            st.model.push(0);
        }
        self.ar.var(w, i)
    }
    // ---- memory
    fn alloc(&mut self, st: &mut State, size: u64, kind: Kind, fill: u8, align: u32) -> R<u64> {
        if size >= 1 << SLOT_SHIFT {
            return Err(Stop::Err(format!("allocation of {} bytes", size)));
        }
        let o = Rc::new(Obj { data: vec![fill; size as usize], sym: Default::default(), kind, align });
        let i = match st.free.pop() {
            Some(i) => {
                let s = &mut st.slots[i as usize];
                s.gen = (s.gen + 1) & 0x1ffff;
                s.obj = Some(o);
                i
            }
            None => {
                st.slots.push(Slot { gen: 0, obj: Some(o) });
                st.slots.len() as u32 - 1
            }
        };
        if kind == Kind::Heap {
            st.live += 1;
        }
        if let Some(p) = &mut st.par {
            p.created(i);
        }
        Ok(((i as u64) << SLOT_SHIFT) | ((st.slots[i as usize].gen as u64) << GEN_SHIFT))
    }
    fn dealloc(&mut self, st: &mut State, p: u64, kind: Kind) -> R<()> {
        let slot = ((p >> SLOT_SHIFT) & 0xfffff) as usize;
        let gen = ((p >> GEN_SHIFT) & 0x1ffff) as u32;
        if p & (CONST_FLAG | FUNC_FLAG) != 0 || slot >= st.slots.len() {
            return Err(Stop::Bad("memory", format!("free of a pointer that is not from malloc ({:#x})", p)));
        }
        let s = &mut st.slots[slot];
        match &s.obj {
            Some(o) if s.gen == gen => {
                if o.kind != kind || p & 0xff_ffff != 0 {
                    return Err(Stop::Bad("memory", "free of a pointer that is not from malloc".into()));
                }
            }
            _ => return Err(Stop::Bad("memory", "double free".into())),
        }
        if self.track.get() {
            let n = s.obj.as_ref().unwrap().data.len() as u32;
            self.acc.borrow_mut().push(thread::Acc { slot: slot as u32, lo: 0, hi: n.max(1), write: true, free: true });
        }
        s.obj = None;
        st.free.push(slot as u32);
        if kind == Kind::Heap {
            st.live -= 1;
        }
        Ok(())
    }
    fn resolve<'a>(&self, st: &'a State, p: u64, n: u64, write: bool) -> R<(usize, usize)> {
        let off = (p & 0xff_ffff) as usize;
        let slot = ((p >> SLOT_SHIFT) & 0xfffff) as usize;
        if p & CONST_FLAG != 0 {
            if p & FUNC_FLAG == 0 && slot >= 1 && slot <= self.const_sizes.len() {
                if write {
                    return Err(Stop::Bad("memory", "write to read-only memory".into()));
                }
                if off as u64 + n <= self.const_sizes[slot - 1] as u64 {
                    return Ok((usize::MAX - slot, off));
                }
            }
            return Err(Stop::Bad("memory", format!("out-of-bounds access to a constant ({} bytes)", n)));
        }
        if p < 1 << SLOT_SHIFT {
            return Err(Stop::Bad("memory", format!("null pointer access ({:#x}, {} bytes)", p, n)));
        }
        if p & FUNC_FLAG != 0 || p >> 63 != 0 || slot >= st.slots.len() {
            return Err(Stop::Bad("memory", format!("wild pointer access ({:#x}, {} bytes)", p, n)));
        }
        let s = &st.slots[slot];
        match &s.obj {
            Some(o) if s.gen as u64 == (p >> GEN_SHIFT) & 0x1ffff => {
                if off as u64 + n > o.data.len() as u64 {
                    return Err(Stop::Bad(
                        "memory",
                        format!(
                            "out-of-bounds {} of {} bytes at offset {} of a {:?} object of {} bytes",
                            if write { "write" } else { "read" },
                            n,
                            off,
                            o.kind,
                            o.data.len()
                        ),
                    ));
                }
                if self.track.get() && n > 0 {
                    let (lo, hi) = (off as u32, (off as u64 + n) as u32);
                    self.acc.borrow_mut().push(thread::Acc { slot: slot as u32, lo, hi, write, free: false });
                }
                Ok((slot, off))
            }
            _ => Err(Stop::Bad(
                "memory",
                format!("{} of {} bytes after free", if write { "write" } else { "read" }, n),
            )),
        }
    }
    fn cdata<'a>(&'a self, st: &'a State, slot: usize) -> (&'a [u8], Option<&'a FxMap<u32, Tm>>) {
        if slot > usize::MAX / 2 {
            (&self.p.globs[usize::MAX - slot - 1].data, None)
        } else {
            let o = st.slots[slot].obj.as_ref().unwrap();
            (&o.data, if o.sym.is_empty() { None } else { Some(&o.sym) })
        }
    }
    fn byte(&self, st: &State, slot: usize, off: usize) -> V {
        let (d, s) = self.cdata(st, slot);
        if let Some(s) = s {
            if let Some(t) = s.get(&(off as u32)) {
                return T(*t);
            }
        }
        K(d[off] as u64)
    }
    fn set_byte(&mut self, st: &mut State, slot: usize, off: usize, v: V) {
        let o = Rc::make_mut(st.slots[slot].obj.as_mut().unwrap());
        match v {
            K(k) => {
                o.data[off] = k as u8;
                if !o.sym.is_empty() {
                    o.sym.remove(&(off as u32));
                }
            }
            T(t) => {
                o.sym.insert(off as u32, t);
            }
            _ => unreachable!(),
        }
    }
    fn load_int(&mut self, st: &State, slot: usize, off: usize, w: u16) -> V {
        let n = (w as usize + 7) / 8;
        let (d, s) = self.cdata(st, slot);
        let symbolic = match s {
            None => false,
            Some(s) => (off..off + n).any(|i| s.contains_key(&(i as u32))),
        };
        if !symbolic {
            if n <= 8 {
                let mut x = 0u64;
                for i in (0..n).rev() {
                    x = (x << 8) | d[off + i] as u64;
                }
                return K(x & m64(w));
            }
            let mut x = 0u128;
            for i in (0..n).rev() {
                x = (x << 8) | d[off + i] as u128;
            }
            return self.mkv(w, x);
        }
        let mut t: Option<Tm> = None;
        for i in (0..n).rev() {
            let b = self.byte(st, slot, off + i);
            let bt = self.term(&b, 8);
            t = Some(match t {
                None => bt,
                Some(x) => self.ar.concat(x, bt),
            });
        }
        let mut t = t.unwrap();
        if self.ar.w(t) > w {
            t = self.ar.extract(t, w - 1, 0);
        }
        self.val(t)
    }
    fn load(&mut self, st: &State, p: u64, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(w) | Ty::Float(w) => {
                let (s, o) = self.resolve(st, p, ty.store_size(), false)?;
                Ok(self.load_int(st, s, o, *w))
            }
            Ty::Agg(a) => {
                let mut v = Vec::with_capacity(a.elems.len());
                for (o, t) in &a.elems {
                    if a.vector && t.w() < 8 {
                        return Err(Stop::Err("bit vector in memory".into()));
                    }
                    v.push(self.load(st, p.wrapping_add(*o), t)?);
                }
                Ok(X(Rc::new(Big::A(v))))
            }
            Ty::Void => Err(Stop::Err("load of an unsupported type".into())),
        }
    }
    fn store(&mut self, st: &mut State, p: u64, ty: &Ty, v: &V) -> R<()> {
        match ty {
            Ty::Int(w) | Ty::Float(w) => {
                let n = ty.store_size() as usize;
                let (s, off) = self.resolve(st, p, n as u64, true)?;
                match v {
                    T(t) => {
                        let mut t = *t;
                        if *w as usize != n * 8 {
                            t = self.ar.zext(t, n as u16 * 8);
                        }
                        for i in 0..n {
                            let b = self.ar.extract(t, i as u16 * 8 + 7, i as u16 * 8);
                            let b = self.val(b);
                            self.set_byte(st, s, off + i, b);
                        }
                    }
                    _ => {
                        let x = self.wide(v).ok_or_else(|| Stop::Err("store of an aggregate".into()))?;
                        let o = Rc::make_mut(st.slots[s].obj.as_mut().unwrap());
                        o.data[off..off + n].copy_from_slice(&x.to_le_bytes()[..n]);
                        if !o.sym.is_empty() {
                            for i in off..off + n {
                                o.sym.remove(&(i as u32));
                            }
                        }
                    }
                }
                Ok(())
            }
            Ty::Agg(a) => {
                if let X(b) = v {
                    if let Big::A(vs) = &**b {
                        for ((o, t), x) in a.elems.iter().zip(vs) {
                            if a.vector && t.w() < 8 {
                                return Err(Stop::Err("bit vector in memory".into()));
                            }
                            self.store(st, p.wrapping_add(*o), t, x)?;
                        }
                        return Ok(());
                    }
                }
                Err(Stop::Err("store of a non-aggregate".into()))
            }
            Ty::Void => Err(Stop::Err("store of an unsupported type".into())),
        }
    }
    fn copy(&mut self, st: &mut State, dst: u64, src: u64, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (ss, so) = self.resolve(st, src, n, false)?;
        let (ds, d_o) = self.resolve(st, dst, n, true)?;
        let n = n as usize;
        if ss == ds && so == d_o {
            return Ok(());
        }
        // the source bytes (symbolic ones separately)
        let src_rc;
        let (sd, ssym): (&[u8], Option<&FxMap<u32, Tm>>) = if ss > usize::MAX / 2 {
            (&self.p.globs[usize::MAX - ss - 1].data, None)
        } else {
            src_rc = st.slots[ss].obj.clone().unwrap();
            (&src_rc.data, if src_rc.sym.is_empty() { None } else { Some(&src_rc.sym) })
        };
        let mut syms: Vec<(u32, Tm)> = vec![];
        if let Some(s) = ssym {
            for i in 0..n {
                if let Some(t) = s.get(&((so + i) as u32)) {
                    syms.push(((d_o + i) as u32, *t));
                }
            }
        }
        let o = Rc::make_mut(st.slots[ds].obj.as_mut().unwrap());
        o.data[d_o..d_o + n].copy_from_slice(&sd[so..so + n]);
        if !o.sym.is_empty() {
            if o.sym.len() < n {
                o.sym.retain(|k, _| (*k as usize) < d_o || (*k as usize) >= d_o + n);
            } else {
                for i in d_o..d_o + n {
                    o.sym.remove(&(i as u32));
                }
            }
        }
        for (k, t) in syms {
            o.sym.insert(k, t);
        }
        Ok(())
    }
    fn bytes_at(&self, st: &State, p: u64, n: u64) -> R<String> {
        let (s, o) = self.resolve(st, p, n, false)?;
        let (d, _) = self.cdata(st, s);
        Ok(String::from_utf8_lossy(&d[o..o + n as usize]).into_owned())
    }
    /// address of an access; symbolic addresses inside small constant tables are kept
    fn addr(&mut self, st: &mut State, v: &V) -> R<u64> {
        self.concretize(st, v, 64)
    }
    fn table_load(&mut self, st: &mut State, t: Tm, ty: &Ty) -> R<Option<V>> {
        let w = match ty {
            Ty::Int(w) if *w <= 64 => *w,
            _ => return Ok(None),
        };
        // decided by the term's shape, so that every worker decides alike
        let node = self.ar.n(t);
        let base = match if node.op == Op::Add { self.ar.as_c(node.b) } else { None } {
            Some(c) => c as u64 & !0xff_ffff,
            None => return Ok(None),
        };
        let slot = ((base >> SLOT_SHIFT) & 0xfffff) as usize;
        if base & CONST_FLAG == 0 || slot == 0 || slot > self.const_sizes.len() {
            return Ok(None);
        }
        let size = self.const_sizes[slot - 1] as u64;
        let n = ty.store_size();
        if size > 1024 || size < n {
            return Ok(None);
        }
        let bt = self.ar.cst(64, base as u128);
        let off = self.ar.bin(Op::Sub, t, bt);
        let lim = self.ar.cst(64, (size - n + 1) as u128);
        let inb = self.ar.bin(Op::Ult, off, lim);
        if !self.branch(st, inb)? {
            return Ok(None);
        }
        let data = &self.p.globs[slot - 1].data;
        let mut r: Option<Tm> = None;
        for o in (0..=(size - n)).rev() {
            let mut x = 0u64;
            for i in (0..n).rev() {
                x = (x << 8) | data[(o + i) as usize] as u64;
            }
            let c = self.ar.cst(w, x as u128);
            r = Some(match r {
                None => c,
                Some(prev) => {
                    if prev == c {
                        prev
                    } else {
                        let ot = self.ar.cst(64, o as u128);
                        let e = self.ar.bin(Op::Eq, off, ot);
                        self.ar.ite(e, c, prev)
                    }
                }
            });
        }
        Ok(Some(self.val(r.unwrap())))
    }

    // ---- arithmetic
    fn binop(&mut self, op: Op, w: u16, a: &V, b: &V) -> R<V> {
        if let (K(x), K(y)) = (a, b) {
            if w <= 64 {
                let m = m64(w);
                let r = match op {
                    Op::Add => x.wrapping_add(*y) & m,
                    Op::Sub => x.wrapping_sub(*y) & m,
                    Op::And => x & y,
                    Op::Or => x | y,
                    Op::Xor => x ^ y,
                    Op::Mul => x.wrapping_mul(*y) & m,
                    Op::Shl if *y < w as u64 => (x << y) & m,
                    Op::LShr if *y < w as u64 => x >> y,
                    Op::UDiv | Op::SDiv | Op::URem | Op::SRem if *y == 0 => {
                        return Err(Stop::Bad("memory", "division by zero".into()))
                    }
                    _ => fold(op, w, *x as u128, *y as u128) as u64,
                };
                return Ok(K(r));
            }
        }
        let x = self.term(a, w);
        let y = self.term(b, w);
        let t = self.ar.bin(op, x, y);
        Ok(self.val(t))
    }
    fn lanes(&self, v: &V) -> R<Vec<V>> {
        if let X(b) = v {
            if let Big::A(a) = &**b {
                return Ok(a.clone());
            }
        }
        Err(Stop::Err("vector operand expected".into()))
    }
    fn bin_ty(&mut self, op: Op, ty: &Ty, a: &V, b: &V) -> R<V> {
        match ty {
            Ty::Agg(t) => {
                let (x, y) = (self.lanes(a)?, self.lanes(b)?);
                let w = t.elems[0].1.w();
                let mut r = vec![];
                for (p, q) in x.iter().zip(&y) {
                    r.push(self.binop(op, w, p, q)?);
                }
                Ok(X(Rc::new(Big::A(r))))
            }
            _ => self.binop(op, ty.w(), a, b),
        }
    }
    fn icmp(&mut self, p: Pred, w: u16, a: &V, b: &V) -> V {
        if let (K(x), K(y)) = (a, b) {
            if w <= 64 {
                let (x, y) = (*x, *y);
                let r = match p {
                    Pred::Eq => x == y,
                    Pred::Ne => x != y,
                    Pred::Ugt => x > y,
                    Pred::Uge => x >= y,
                    Pred::Ult => x < y,
                    Pred::Ule => x <= y,
                    Pred::Sgt => sx(x, w) > sx(y, w),
                    Pred::Sge => sx(x, w) >= sx(y, w),
                    Pred::Slt => sx(x, w) < sx(y, w),
                    Pred::Sle => sx(x, w) <= sx(y, w),
                };
                return K(r as u64);
            }
        }
        let x = self.term(a, w);
        let y = self.term(b, w);
        let t = match p {
            Pred::Eq => self.ar.bin(Op::Eq, x, y),
            Pred::Ne => {
                let e = self.ar.bin(Op::Eq, x, y);
                self.ar.not(e)
            }
            Pred::Ugt => self.ar.bin(Op::Ult, y, x),
            Pred::Uge => self.ar.bin(Op::Ule, y, x),
            Pred::Ult => self.ar.bin(Op::Ult, x, y),
            Pred::Ule => self.ar.bin(Op::Ule, x, y),
            Pred::Sgt => self.ar.bin(Op::Slt, y, x),
            Pred::Sge => self.ar.bin(Op::Sle, y, x),
            Pred::Slt => self.ar.bin(Op::Slt, x, y),
            Pred::Sle => self.ar.bin(Op::Sle, x, y),
        };
        self.val(t)
    }
    fn cast1(&mut self, c: Cast, fw: u16, tw: u16, a: &V) -> V {
        match (a, c) {
            (_, Cast::Bit) => a.clone(),
            (K(x), Cast::Trunc) => K(x & m64(tw)),
            (K(x), Cast::ZExt) if tw <= 64 => K(*x),
            (K(x), Cast::SExt) if tw <= 64 => K(sx(*x, fw) as u64 & m64(tw)),
            _ => {
                let t = self.term(a, fw);
                let r = match c {
                    Cast::Trunc => {
                        if fw == tw {
                            t
                        } else {
                            self.ar.extract(t, tw - 1, 0)
                        }
                    }
                    Cast::ZExt => self.ar.zext(t, tw),
                    _ => self.ar.sext(t, tw),
                };
                self.val(r)
            }
        }
    }
    fn select(&mut self, st: &mut State, c: &V, ty: &Ty, a: &V, b: &V) -> R<V> {
        match c {
            K(k) => Ok(if *k != 0 { a.clone() } else { b.clone() }),
            T(t) => {
                let same = match (a, b) {
                    (K(x), K(y)) => x == y,
                    (T(x), T(y)) => x == y,
                    _ => false,
                };
                if same {
                    return Ok(a.clone());
                }
                match ty {
                    Ty::Int(64) | Ty::Agg(_) => {
                        // pointers and aggregates: decide now when both sides look like addresses
                        let ptr = |v: &V| matches!(v, K(k) if *k >= 1 << SLOT_SHIFT);
                        if matches!(ty, Ty::Agg(_)) || ptr(a) || ptr(b) {
                            let r = self.branch(st, *t)?;
                            return Ok(if r { a.clone() } else { b.clone() });
                        }
                    }
                    _ => {}
                }
                let w = ty.w();
                let (x, y) = (self.term(a, w), self.term(b, w));
                let r = self.ar.ite(*t, x, y);
                Ok(self.val(r))
            }
            X(_) => {
                // lane-wise
                let cs = self.lanes(c)?;
                let (xs, ys) = (self.lanes(a)?, self.lanes(b)?);
                let et = match ty {
                    Ty::Agg(t) => t.elems[0].1.clone(),
                    _ => return Err(Stop::Err("select".into())),
                };
                let mut r = vec![];
                for ((c, x), y) in cs.iter().zip(&xs).zip(&ys) {
                    let v = self.select(st, c, &et, x, y)?;
                    r.push(v);
                }
                Ok(X(Rc::new(Big::A(r))))
            }
        }
    }
    // ---- control
    fn goto(&mut self, st: &mut State, to: u32) -> R<()> {
        let f = &self.p.funcs[st.top.f as usize];
        let from = st.top.block;
        let b = &f.blocks[to as usize];
        self.cov[(f.block_base + to) as usize] = true;
        if !b.phis.is_empty() {
            for (p, l) in &b.phis {
                if *p == from {
                    if l.len() == 1 {
                        let v = self.get(st, &l[0].1);
                        self.set(st, l[0].0, v);
                    } else {
                        let vs: Vec<V> = l.iter().map(|x| self.get(st, &x.1)).collect();
                        for (x, v) in l.iter().zip(vs) {
                            self.set(st, x.0, v);
                        }
                    }
                    break;
                }
            }
        }
        st.top.block = to;
        st.top.ip = 0;
        Ok(())
    }
    pub fn backtrace(&self, st: &State) -> Vec<String> {
        let mut v = vec![self.p.funcs[st.top.f as usize].name.clone()];
        for f in st.stack.iter().rev().take(14) {
            v.push(self.p.funcs[f.f as usize].name.clone());
        }
        v
    }
    pub fn violation(&mut self, st: &State, kind: &str, msg: String, model: Vec<u64>) {
        let trace = self.backtrace(st);
        let mut obs = vec![];
        for o in &st.obs {
            obs.push(match o {
                K(k) => *k,
                T(t) => self.ar.eval(*t, &model) as u64,
                _ => 0,
            });
        }
        let n = st.widths.len();
        let mut m = model;
        m.resize(n.max(m.len()), 0);
        m.truncate(n);
        self.viols.push(Viol { kind: kind.into(), msg, model: m, obs, trace });
    }
    pub fn final_obs(&mut self, st: &State) -> (Vec<u64>, Vec<u64>) {
        let mut m = st.model.clone();
        m.truncate(st.widths.len());
        let mut o = vec![];
        for v in &st.obs {
            o.push(match v {
                K(k) => *k,
                T(t) => self.ar.eval(*t, &m) as u64,
                _ => 0,
            });
        }
        (m, o)
    }

    /// runs until the path ends; alternatives are pushed to self.forks
    pub fn run(&mut self, st: &mut State) -> Stop {
        let f0 = &self.p.funcs[st.top.f as usize];
        self.cov[(f0.block_base + st.top.block) as usize] = true;
        loop {
            st.mark = st.cur;
            st.steps += 1;
            if st.steps > self.max_steps {
                return Stop::Bad("nontermination", format!("no end within {} steps", self.max_steps));
            }
            match if st.par.is_none() { self.step(st) } else { self.step_par(st) } {
                Ok(()) => {}
                Err(s) => return s,
            }
        }
    }
    fn step(&mut self, st: &mut State) -> R<()> {
        let p: &'p Prog = self.p;
        let f: &'p Func = &p.funcs[st.top.f as usize];
        let inst: &'p Inst = &f.blocks[st.top.block as usize].insts[st.top.ip as usize];
        match inst {
            Inst::Bin { op, ty, a, b, d } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.bin_ty(*op, ty, &x, &y)?;
                self.set(st, *d, v);
            }
            Inst::Icmp { p, ty, a, b, d } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = match ty {
                    Ty::Agg(t) => {
                        let w = t.elems[0].1.w();
                        let (x, y) = (self.lanes(&x)?, self.lanes(&y)?);
                        let r = x.iter().zip(&y).map(|(a, b)| self.icmp(*p, w, a, b)).collect();
                        X(Rc::new(Big::A(r)))
                    }
                    _ => self.icmp(*p, ty.w(), &x, &y),
                };
                self.set(st, *d, v);
            }
            Inst::Cast { c, from, to, a, d } => {
                let x = self.get(st, a);
                let v = match (from, to) {
                    (Ty::Agg(f), Ty::Agg(t)) if *c != Cast::Bit || f.elems.len() == t.elems.len() => {
                        let (fw, tw) = (f.elems[0].1.w(), t.elems[0].1.w());
                        let x = self.lanes(&x)?;
                        let r = x.iter().map(|v| self.cast1(*c, fw, tw, v)).collect();
                        X(Rc::new(Big::A(r)))
                    }
                    (Ty::Agg(_), _) | (_, Ty::Agg(_)) => self.bitcast(&x, from, to)?,
                    _ => self.cast1(*c, from.w(), to.w(), &x),
                };
                self.set(st, *d, v);
            }
            Inst::Load { ty, p, d, .. } => {
                let pv = self.get(st, p);
                let v = match &pv {
                    K(k) => self.load(st, *k, ty)?,
                    T(t) => match self.table_load(st, *t, ty)? {
                        Some(v) => v,
                        None => {
                            let a = self.addr(st, &pv)?;
                            self.load(st, a, ty)?
                        }
                    },
                    _ => return Err(Stop::Err("load address".into())),
                };
                self.set(st, *d, v);
            }
            Inst::Store { ty, v, p, .. } => {
                let pv = self.get(st, p);
                let a = self.addr(st, &pv)?;
                let x = self.get(st, v);
                self.store(st, a, ty, &x)?;
            }
            Inst::Gep { base, off, idx, d } => {
                let b = self.get(st, base);
                let mut v = match b {
                    K(k) => K(k.wrapping_add(*off)),
                    T(t) => {
                        let o = self.ar.cst(64, *off as u128);
                        let t = self.ar.bin(Op::Add, t, o);
                        self.val(t)
                    }
                    _ => return Err(Stop::Err("gep base".into())),
                };
                for (o, w, scale) in idx {
                    let i = self.get(st, o);
                    let i = if *w < 64 { self.cast1(Cast::SExt, *w, 64, &i) } else { i };
                    let i = self.binop(Op::Mul, 64, &i, &K(*scale))?;
                    v = self.binop(Op::Add, 64, &v, &i)?;
                }
                self.set(st, *d, v);
            }
            Inst::Alloca { size, n, d } => {
                let n = self.get(st, n);
                let n = self.concretize(st, &n, 64)?;
                let a = self.alloc(st, size * n, Kind::Stack, 0xCD, 16)?;
                st.top.allocas.push(((a >> SLOT_SHIFT) & 0xfffff) as u32);
                self.set(st, *d, K(a));
            }
            Inst::Select { ty, c, cty: _, a, b, d } => {
                let c = self.get(st, c);
                let (x, y) = (self.get(st, a), self.get(st, b));
                let v = self.select(st, &c, ty, &x, &y)?;
                self.set(st, *d, v);
            }
            Inst::Br { to } => return self.goto(st, *to),
            Inst::CondBr { c, t, f } => {
                let b = match self.get(st, c) {
                    K(k) => k != 0,
                    T(t) => self.branch(st, t)?,
                    _ => return Err(Stop::Err("branch condition".into())),
                };
                return self.goto(st, if b { *t } else { *f });
            }
            Inst::Switch { v, w, def, cases } => {
                let x = self.get(st, v);
                let to = match &x {
                    T(t) => {
                        // group the values by target so that equal targets do not fork
                        let mut to = *def;
                        let mut done: Vec<u32> = vec![];
                        for (_, b) in cases {
                            if *b == *def || done.contains(b) {
                                continue;
                            }
                            done.push(*b);
                            let mut c = self.ar.cst(1, 0);
                            for (k, b2) in cases {
                                if b2 == b {
                                    let kt = self.ar.cst(*w, *k);
                                    let e = self.ar.bin(Op::Eq, *t, kt);
                                    c = self.ar.bin(Op::Or, c, e);
                                }
                            }
                            if self.branch(st, c)? {
                                to = *b;
                                break;
                            }
                        }
                        to
                    }
                    _ => {
                        let k = self.wide(&x).unwrap_or(0);
                        cases.iter().find(|c| c.0 == k).map(|c| c.1).unwrap_or(*def)
                    }
                };
                return self.goto(st, to);
            }
            Inst::Ret { v } => {
                let r = match v {
                    Some(o) => Some(self.get(st, o)),
                    None => None,
                };
                let al = std::mem::take(&mut st.top.allocas);
                if let Some(p) = &mut st.par {
                    for a in &al {
                        p.forget(*a);
                    }
                }
                for a in al.iter().rev() {
                    st.slots[*a as usize].obj = None;
                    st.free.push(*a);
                }
                match st.stack.pop() {
                    None if st.par.as_ref().is_some_and(|p| p.cur != 0) => return self.finish(st),
                    None => return Err(Stop::Done),
                    Some(fr) => {
                        let done = std::mem::replace(
                            &mut st.top,
                            Rc::try_unwrap(fr).unwrap_or_else(|r| (*r).clone()),
                        );
                        if let (Some(d), Some(v)) = (done.ret, r) {
                            st.top.regs[d as usize] = v;
                        }
                        if let Some(n) = done.normal {
                            return self.goto(st, n);
                        }
                        st.top.ip += 1;
                        return Ok(());
                    }
                }
            }
            Inst::Call { f: callee, args, tys, rty, d, normal } => {
                let id = match callee {
                    Callee::Fn(id) => *id,
                    Callee::Builtin(b) => return self.builtin(st, *b, args, tys, rty, *d, *normal),
                    Callee::Asm => {
                        if d.is_some() {
                            return Err(Stop::Err("inline assembly".into()));
                        }
                        return self.next(st, *normal);
                    }
                    Callee::Ind(o) => {
                        let v = self.get(st, o);
                        let a = self.concretize(st, &v, 64)?;
                        if a & FUNC_FLAG == 0 || a & CONST_FLAG != 0 || (a & 0xffff_ffff) >> 4 >= p.funcs.len() as u64 {
                            return Err(Stop::Bad("memory", format!("call through a wild pointer ({:#x})", a)));
                        }
                        let id = ((a & 0xffff_ffff) >> 4) as u32;
                        if let Some(b) = self.fb[id as usize] {
                            return self.builtin(st, b, args, tys, rty, *d, *normal);
                        }
                        id
                    }
                };
                let fu = &p.funcs[id as usize];
                if fu.decl {
                    return Err(Stop::Err(format!("call of external function {}", fu.name)));
                }
                if st.stack.len() > 2000 {
                    return Err(Stop::Bad("nontermination", "stack of more than 2000 frames".into()));
                }
                let mut regs = Vec::with_capacity(fu.nregs as usize);
                for a in args.iter().take(fu.nparams as usize) {
                    regs.push(self.get(st, a));
                }
                regs.resize(fu.nregs as usize, K(0));
                let fr = Frame { f: id, regs, block: 0, ip: 0, allocas: vec![], ret: *d, normal: *normal };
                let old = std::mem::replace(&mut st.top, fr);
                st.stack.push(Rc::new(old));
                self.cov[fu.block_base as usize] = true;
                return Ok(());
            }
            Inst::Extract { a, path, d } => {
                let mut v = self.get(st, a);
                for i in path {
                    v = match &v {
                        X(b) => match &**b {
                            Big::A(x) => x[*i as usize].clone(),
                            _ => return Err(Stop::Err("extractvalue".into())),
                        },
                        _ => return Err(Stop::Err("extractvalue".into())),
                    };
                }
                self.set(st, *d, v);
            }
            Inst::Insert { a, v, path, d } => {
                let x = self.get(st, a);
                let nv = self.get(st, v);
                let r = self.insert(&x, path, nv)?;
                self.set(st, *d, r);
            }
            Inst::ExtElem { a, i, d } => {
                let x = self.get(st, a);
                let i = self.get(st, i);
                let i = self.concretize(st, &i, 64)?;
                let l = self.lanes(&x)?;
                self.set(st, *d, l.get(i as usize).cloned().unwrap_or(K(0)));
            }
            Inst::InsElem { a, v, i, d } => {
                let x = self.get(st, a);
                let i = self.get(st, i);
                let i = self.concretize(st, &i, 64)?;
                let nv = self.get(st, v);
                let r = self.insert(&x, &[i as u32], nv)?;
                self.set(st, *d, r);
            }
            Inst::Shuffle { a, b, n, mask, d } => {
                let (x, y) = (self.get(st, a), self.get(st, b));
                let x = self.lanes(&x)?;
                let y = self.lanes(&y)?;
                let r = mask
                    .iter()
                    .map(|m| {
                        if *m < 0 {
                            K(0)
                        } else if (*m as u32) < *n {
                            x[*m as usize].clone()
                        } else {
                            y[(*m as u32 - *n) as usize].clone()
                        }
                    })
                    .collect();
                self.set(st, *d, X(Rc::new(Big::A(r))));
            }
            Inst::Rmw { op, ty, p, v, d, .. } => {
                let pv = self.get(st, p);
                let a = self.addr(st, &pv)?;
                let old = self.load(st, a, ty)?;
                let x = self.get(st, v);
                let w = ty.w();
                let new = match op {
                    0 => x,
                    1 => self.binop(Op::Add, w, &old, &x)?,
                    2 => self.binop(Op::Sub, w, &old, &x)?,
                    3 => self.binop(Op::And, w, &old, &x)?,
                    5 => self.binop(Op::Or, w, &old, &x)?,
                    6 => self.binop(Op::Xor, w, &old, &x)?,
                    _ => return Err(Stop::Err(format!("atomicrmw {}", op))),
                };
                self.store(st, a, ty, &new)?;
                self.set(st, *d, old);
            }
            Inst::CmpXchg { ty, p, cmp, new, d, .. } => {
                let pv = self.get(st, p);
                let a = self.addr(st, &pv)?;
                let old = self.load(st, a, ty)?;
                let c = self.get(st, cmp);
                let n = self.get(st, new);
                let e = self.icmp(Pred::Eq, ty.w(), &old, &c);
                let e = match e {
                    K(k) => k != 0,
                    T(t) => self.branch(st, t)?,
                    _ => false,
                };
                if e {
                    self.store(st, a, ty, &n)?;
                }
                self.set(st, *d, X(Rc::new(Big::A(vec![old, K(e as u64)]))));
            }
            Inst::Copy { a, d } => {
                let v = self.get(st, a);
                self.set(st, *d, v);
            }
            Inst::Nop | Inst::Fence { .. } => {}
            Inst::Unreachable => return Err(Stop::Bad("memory", "unreachable code reached".into())),
            Inst::Unsupported { what } => return Err(Stop::Err(format!("unsupported: {}", what))),
        }
        st.top.ip += 1;
        Ok(())
    }
    fn bitcast(&mut self, v: &V, from: &Ty, to: &Ty) -> R<V> {
        // through one wide term
        let t = match from {
            Ty::Agg(a) => {
                let w = a.elems[0].1.w();
                let l = self.lanes(v)?;
                let mut t: Option<Tm> = None;
                if w as usize * l.len() > 128 {
                    return Err(Stop::Err("bitcast of a wide vector".into()));
                }
                for x in l.iter().rev() {
                    let b = self.term(x, w);
                    t = Some(match t {
                        None => b,
                        Some(h) => self.ar.concat(h, b),
                    });
                }
                t.unwrap()
            }
            _ => self.term(v, from.w()),
        };
        match to {
            Ty::Agg(a) => {
                let w = a.elems[0].1.w();
                let r = (0..a.elems.len() as u16)
                    .map(|i| {
                        let x = self.ar.extract(t, i * w + w - 1, i * w);
                        self.val(x)
                    })
                    .collect();
                Ok(X(Rc::new(Big::A(r))))
            }
            _ => Ok(self.val(t)),
        }
    }
    fn insert(&self, x: &V, path: &[u32], nv: V) -> R<V> {
        if path.is_empty() {
            return Ok(nv);
        }
        let mut l = self.lanes(x)?;
        let i = path[0] as usize;
        if i >= l.len() {
            return Err(Stop::Err("insertvalue".into()));
        }
        l[i] = self.insert(&l[i].clone(), &path[1..], nv)?;
        Ok(X(Rc::new(Big::A(l))))
    }
    fn next(&mut self, st: &mut State, normal: Option<u32>) -> R<()> {
        match normal {
            Some(n) => self.goto(st, n),
            None => {
                st.top.ip += 1;
                Ok(())
            }
        }
    }
    fn builtin(
        &mut self,
        st: &mut State,
        b: B,
        args: &[Opd],
        tys: &[Ty],
        rty: &Ty,
        d: Option<u32>,
        normal: Option<u32>,
    ) -> R<()> {
        let r = self.call_builtin(st, b, args, tys, rty)?;
        if let (Some(d), Some(v)) = (d, r) {
            self.set(st, d, v);
        }
        self.next(st, normal)
    }
    fn argc(&mut self, st: &mut State, args: &[Opd], tys: &[Ty], i: usize) -> R<u64> {
        let v = self.get(st, &args[i]);
        self.concretize(st, &v, tys[i].w())
    }
    fn call_builtin(&mut self, st: &mut State, b: B, args: &[Opd], tys: &[Ty], rty: &Ty) -> R<Option<V>> {
        macro_rules! c {
            ($i:expr) => {
                self.argc(st, args, tys, $i)?
            };
        }
        macro_rules! v {
            ($i:expr) => {
                self.get(st, &args[$i])
            };
        }
        Ok(match b {
            B::SymU8 => Some(T(self.newvar(st, 8))),
            B::SymU64 => Some(T(self.newvar(st, 64))),
            B::SymChoice => {
                let n = c!(0);
                if n <= 1 {
                    Some(K(0))
                } else {
                    let t = self.newvar(st, 8);
                    let i = st.widths.len() - 1;
                    if n < 256 {
                        let k = self.ar.cst(8, n as u128);
                        let e = self.ar.bin(Op::Ult, t, k);
                        if st.model[i] >= n {
                            st.model[i] = 0;
                        }
                        self.add_pc(st, e);
                    }
                    let z = self.ar.zext(t, 64);
                    Some(T(z))
                }
            }
            B::SymParam => {
                let i = c!(0);
                Some(K(self.params.get(i as usize).copied().unwrap_or(0)))
            }
            B::SymSpawn => {
                let (f, x, limit) = (c!(0), c!(1), c!(2));
                self.spawn(st, f, x, limit as u32)?;
                None
            }
            B::SymJoin => {
                self.join(st)?;
                None
            }
            B::SymQuiet => {
                let q = c!(0) != 0;
                if let Some(p) = &mut st.par {
                    p.quiet = q;
                }
                None
            }
            B::Lock(k) => {
                let a = c!(0);
                if !self.take_lock(st, k, a)? {
                    return Err(Stop::Bad("deadlock", "a lock is taken that the thread holds already".into()));
                }
                if *rty == Ty::Void { None } else { Some(K(1)) }
            }
            B::Tls => {
                let a = v!(0);
                Some(self.tls(st, a)?)
            }
            B::SymConcrete => Some(K(c!(0))),
            B::SymAssume => {
                match v!(0) {
                    K(0) => return Err(Stop::Infeasible),
                    T(t) => {
                        let t = if self.ar.w(t) == 1 { t } else { self.ar.extract(t, 0, 0) };
                        if self.ar.as_c(t) == Some(0) {
                            return Err(Stop::Infeasible);
                        }
                        if self.ar.eval(t, &st.model) == 0 {
                            match self.query(st, t) {
                                Res::Sat(m) => {
                                    let mut m = m;
                                    if m.len() < st.model.len() {
                                        m.extend_from_slice(&st.model[m.len()..]);
                                    }
                                    st.model = m;
                                }
                                Res::Unsat => return Err(Stop::Infeasible),
                                Res::Unknown => {
                                    self.give_up("assume");
                                    return Err(Stop::Infeasible);
                                }
                            }
                        }
                        self.add_pc(st, t);
                    }
                    _ => {}
                }
                None
            }
            B::SymCheck => {
                let cond = v!(0);
                let (p, n) = (c!(1), c!(2));
                self.stats.checks += 1;
                match cond {
                    K(0) => {
                        let id = self.bytes_at(st, p, n)?;
                        return Err(Stop::Bad("check", id));
                    }
                    T(t) => {
                        let t = if self.ar.w(t) == 1 { t } else { self.ar.extract(t, 0, 0) };
                        if st.cur < st.log.len() {
                            // already decided by the worker this prefix came from
                            if self.ar.as_c(t) == Some(0) {
                                return Err(Stop::Infeasible);
                            }
                            self.add_pc(st, t);
                            return Ok(None);
                        }
                        match self.ar.as_c(t) {
                            Some(0) => {
                                let id = self.bytes_at(st, p, n)?;
                                return Err(Stop::Bad("check", id));
                            }
                            Some(_) => {}
                            None => {
                                self.stats.checks_solver += 1;
                                let nt = self.ar.not(t);
                                if self.ar.eval(nt, &st.model) != 0 {
                                    let id = self.bytes_at(st, p, n)?;
                                    let m = st.model.clone();
                                    self.violation(st, "check", id, m);
                                    match self.query(st, t) {
                                        Res::Sat(m) => {
                                            let mut m = m;
                                            if m.len() < st.model.len() {
                                                m.extend_from_slice(&st.model[m.len()..]);
                                            }
                                            st.model = m;
                                        }
                                        Res::Unsat => return Err(Stop::Infeasible),
                                        Res::Unknown => {
                                            self.give_up("check");
                                            return Err(Stop::Infeasible);
                                        }
                                    }
                                } else {
                                    match self.query(st, nt) {
                                        Res::Sat(m) => {
                                            let id = self.bytes_at(st, p, n)?;
                                            self.violation(st, "check", id, m);
                                        }
                                        Res::Unsat => {}
                                        Res::Unknown => self.give_up("check"),
                                    }
                                }
                                self.add_pc(st, t);
                            }
                        }
                    }
                    _ => {}
                }
                None
            }
            B::SymObserve => {
                let x = v!(0);
                st.obs.push(x);
                None
            }
            B::SymReach => {
                let (p, n) = (c!(0), c!(1));
                let id = self.bytes_at(st, p, n)?;
                if !self.reach.contains(&id) {
                    self.reach.push(id);
                }
                None
            }
            B::SymLive => Some(K(st.live)),
            B::SymExpectPanic => {
                st.expect_panic = c!(0) != 0;
                None
            }
            B::Malloc => {
                let n = c!(0);
                Some(K(self.alloc(st, n, Kind::Heap, 0xCD, 16)?))
            }
            B::Calloc => {
                let (a, b) = (c!(0), c!(1));
                Some(K(self.alloc(st, a * b, Kind::Heap, 0, 16)?))
            }
            B::PosixMemalign => {
                let (out, al, n) = (c!(0), c!(1), c!(2));
                let a = self.alloc(st, n, Kind::Heap, 0xCD, al as u32)?;
                self.store(st, out, &Ty::Int(64), &K(a))?;
                Some(K(0))
            }
            B::Realloc => {
                let (p, n) = (c!(0), c!(1));
                if p == 0 {
                    return Ok(Some(K(self.alloc(st, n, Kind::Heap, 0xCD, 16)?)));
                }
                let (s, o) = self.resolve(st, p, 0, true)?;
                let ob = st.slots[s].obj.clone().unwrap();
                if ob.kind != Kind::Heap || o != 0 {
                    return Err(Stop::Bad("memory", "realloc of a pointer that is not from malloc".into()));
                }
                let a = self.alloc(st, n, Kind::Heap, 0xCD, ob.align)?;
                let k = n.min(ob.data.len() as u64);
                self.copy(st, a, p, k)?;
                self.dealloc(st, p, Kind::Heap)?;
                Some(K(a))
            }
            B::Free => {
                let p = c!(0);
                if p != 0 {
                    self.dealloc(st, p, Kind::Heap)?;
                }
                None
            }
            B::Memcpy => {
                let (dst, src, n) = (c!(0), c!(1), c!(2));
                self.copy(st, dst, src, n)?;
                Some(K(dst))
            }
            B::Memset => {
                let dst = c!(0);
                let n = c!(2);
                let x = v!(1);
                let x = if tys[1].w() > 8 { self.cast1(Cast::Trunc, tys[1].w(), 8, &x) } else { x };
                if n > 0 {
                    let (s, o) = self.resolve(st, dst, n, true)?;
                    for i in 0..n as usize {
                        self.set_byte(st, s, o + i, x.clone());
                    }
                }
                Some(K(dst))
            }
            B::Memcmp | B::Bcmp => {
                let (p, q, n) = (c!(0), c!(1), c!(2));
                if n == 0 {
                    return Ok(Some(K(0)));
                }
                let (ps, po) = self.resolve(st, p, n, false)?;
                let (qs, qo) = self.resolve(st, q, n, false)?;
                if b == B::Bcmp {
                    let mut eq = self.ar.cst(1, 1);
                    for i in 0..n as usize {
                        let x = self.byte(st, ps, po + i);
                        let y = self.byte(st, qs, qo + i);
                        let e = self.icmp(Pred::Eq, 8, &x, &y);
                        let e = self.term(&e, 1);
                        eq = self.ar.bin(Op::And, eq, e);
                        if self.ar.as_c(eq) == Some(0) {
                            break;
                        }
                    }
                    let z = self.ar.cst(32, 0);
                    let o = self.ar.cst(32, 1);
                    let t = self.ar.ite(eq, z, o);
                    Some(self.val(t))
                } else {
                    // the first differing byte decides
                    let mut r = self.ar.cst(32, 0);
                    let (mut last, n) = (n as usize, n as usize);
                    // bytes after a definite difference do not matter
                    for i in 0..n {
                        let x = self.byte(st, ps, po + i);
                        let y = self.byte(st, qs, qo + i);
                        if let (K(a), K(b)) = (&x, &y) {
                            if a != b {
                                last = i + 1;
                                break;
                            }
                        }
                    }
                    for i in (0..last).rev() {
                        let x = self.byte(st, ps, po + i);
                        let y = self.byte(st, qs, qo + i);
                        let x = self.term(&x, 8);
                        let y = self.term(&y, 8);
                        let lt = self.ar.bin(Op::Ult, x, y);
                        let e = self.ar.bin(Op::Eq, x, y);
                        let (neg, pos) = (self.ar.cst(32, u32::MAX as u128), self.ar.cst(32, 1));
                        let d = self.ar.ite(lt, neg, pos);
                        r = self.ar.ite(e, r, d);
                    }
                    Some(self.val(r))
                }
            }
            B::Strlen => {
                let p = c!(0);
                let mut n = 0;
                loop {
                    let (s, o) = self.resolve(st, p + n, 1, false)?;
                    match self.byte(st, s, o) {
                        K(0) => break,
                        K(_) => n += 1,
                        _ => return Err(Stop::Err("strlen of symbolic bytes".into())),
                    }
                }
                Some(K(n))
            }
            B::Errno => {
                if st.errno == 0 {
                    st.errno = self.alloc(st, 8, Kind::Global, 0, 8)?;
                }
                Some(K(st.errno))
            }
            B::Sysconf => Some(K(if c!(0) == 30 { 4096 } else { 1 })),
            B::Syscall => {
                let n = c!(0);
                return Err(Stop::Err(format!("system call {}", n)));
            }
            B::Zero => match rty {
                Ty::Void => None,
                _ => Some(K(0)),
            },
            B::Panic => {
                let mut loc = String::from("?");
                if let Some(o) = args.last() {
                    if let K(p) = self.get(st, o) {
                        if let (Ok(K(f)), Ok(K(n)), Ok(K(line)), Ok(K(col))) = (
                            self.load(st, p, &Ty::Int(64)),
                            self.load(st, p + 8, &Ty::Int(64)),
                            self.load(st, p + 16, &Ty::Int(32)),
                            self.load(st, p + 20, &Ty::Int(32)),
                        ) {
                            if n < 300 {
                                if let Ok(s) = self.bytes_at(st, f, n) {
                                    loc = format!("{}:{}:{}", s.trim_end_matches('\0'), line, col);
                                }
                            }
                        }
                    }
                }
                return Err(Stop::Panic(loc));
            }
            B::Abort => return Err(Stop::Panic("abort".into())),
            B::IsConstant => Some(K(0)),
            B::ObjectSize => Some(K(if c!(1) == 0 { m64(rty.w()) } else { 0 })),
            B::Ident => Some(v!(0)),
            _ => Some(self.intrinsic(st, b, args, tys, rty)?),
        })
    }
    fn intrinsic(&mut self, st: &mut State, b: B, args: &[Opd], tys: &[Ty], rty: &Ty) -> R<V> {
        let vs: Vec<V> = args.iter().map(|a| self.get(st, a)).collect();
        match b {
            B::RedOr | B::RedAnd | B::RedAdd | B::RedXor | B::RedUMax | B::RedUMin => {
                let l = self.lanes(&vs[0])?;
                let w = rty.w();
                let mut r = l[0].clone();
                for x in &l[1..] {
                    r = match b {
                        B::RedOr => self.binop(Op::Or, w, &r, x)?,
                        B::RedAnd => self.binop(Op::And, w, &r, x)?,
                        B::RedAdd => self.binop(Op::Add, w, &r, x)?,
                        B::RedXor => self.binop(Op::Xor, w, &r, x)?,
                        B::RedUMax => self.intr1(B::UMax, w, &[r, x.clone()])?,
                        _ => self.intr1(B::UMin, w, &[r, x.clone()])?,
                    };
                }
                return Ok(r);
            }
            B::UAddO | B::USubO | B::UMulO | B::SAddO | B::SSubO | B::SMulO => {
                let w = tys[0].w();
                if w == 0 {
                    return Err(Stop::Err("vector with.overflow".into()));
                }
                return self.overflow(b, w, &vs[0], &vs[1]);
            }
            _ => {}
        }
        match rty {
            Ty::Agg(a) => {
                let w = a.elems[0].1.w();
                let n = a.elems.len();
                let mut cols = vec![];
                for (v, t) in vs.iter().zip(tys) {
                    cols.push(match t {
                        Ty::Agg(_) => self.lanes(v)?,
                        _ => vec![v.clone(); n],
                    });
                }
                let mut r = vec![];
                for i in 0..n {
                    let row: Vec<V> = cols.iter().map(|c| c[i].clone()).collect();
                    r.push(self.intr1(b, w, &row)?);
                }
                Ok(X(Rc::new(Big::A(r))))
            }
            _ => {
                if matches!(b, B::Ucmp | B::Scmp) {
                    let w = tys[0].w();
                    let rw = rty.w();
                    let lt = self.icmp(if b == B::Ucmp { Pred::Ult } else { Pred::Slt }, w, &vs[0], &vs[1]);
                    let eq = self.icmp(Pred::Eq, w, &vs[0], &vs[1]);
                    let lt = self.term(&lt, 1);
                    let eq = self.term(&eq, 1);
                    let neg = self.ar.cst(rw, u128::MAX);
                    let pos = self.ar.cst(rw, 1);
                    let z = self.ar.cst(rw, 0);
                    let x = self.ar.ite(lt, neg, pos);
                    let t = self.ar.ite(eq, z, x);
                    return Ok(self.val(t));
                }
                self.intr1(b, rty.w(), &vs)
            }
        }
    }
    fn overflow(&mut self, b: B, w: u16, a: &V, c: &V) -> R<V> {
        let pair = |v: V, o: V| Ok(X(Rc::new(Big::A(vec![v, o]))));
        if let (K(x), K(y)) = (a, c) {
            let (x, y) = (*x as u128, *y as u128);
            let m = mask(w);
            let (sx_, sy) = (sext(x, w), sext(y, w));
            let (r, o) = match b {
                B::UAddO => ((x + y) & m, x + y > m),
                B::USubO => (x.wrapping_sub(y) & m, x < y),
                B::UMulO => (x.wrapping_mul(y) & m, x * y > m),
                B::SAddO => ((sx_ + sy) as u128 & m, sext((sx_ + sy) as u128 & m, w) != sx_ + sy),
                B::SSubO => ((sx_ - sy) as u128 & m, sext((sx_ - sy) as u128 & m, w) != sx_ - sy),
                _ => {
                    let p = sx_ * sy;
                    (p as u128 & m, sext(p as u128 & m, w) != p)
                }
            };
            return pair(K(r as u64), K(o as u64));
        }
        let (x, y) = (self.term(a, w), self.term(c, w));
        let (r, o) = match b {
            B::UAddO => {
                let r = self.ar.bin(Op::Add, x, y);
                let o = self.ar.bin(Op::Ult, r, x);
                (r, o)
            }
            B::USubO => {
                let r = self.ar.bin(Op::Sub, x, y);
                let o = self.ar.bin(Op::Ult, x, y);
                (r, o)
            }
            _ => {
                // through the doubled width
                let w2 = (w * 2).min(128);
                if w > 64 {
                    return Err(Stop::Err("wide with.overflow".into()));
                }
                let signed = b != B::UMulO;
                let (x2, y2) = if signed {
                    (self.ar.sext(x, w2), self.ar.sext(y, w2))
                } else {
                    (self.ar.zext(x, w2), self.ar.zext(y, w2))
                };
                let op = match b {
                    B::SAddO => Op::Add,
                    B::SSubO => Op::Sub,
                    _ => Op::Mul,
                };
                let full = self.ar.bin(op, x2, y2);
                let r = self.ar.extract(full, w - 1, 0);
                let back = if signed { self.ar.sext(r, w2) } else { self.ar.zext(r, w2) };
                let e = self.ar.bin(Op::Eq, full, back);
                (r, self.ar.not(e))
            }
        };
        let (r, o) = (self.val(r), self.val(o));
        pair(r, o)
    }
    fn intr1(&mut self, b: B, w: u16, v: &[V]) -> R<V> {
        let m = mask(w);
        match b {
            B::UMin | B::UMax | B::SMin | B::SMax => {
                let p = if matches!(b, B::UMin | B::UMax) { Pred::Ult } else { Pred::Slt };
                let lt = self.icmp(p, w, &v[0], &v[1]);
                let lt = self.term(&lt, 1);
                let (x, y) = (self.term(&v[0], w), self.term(&v[1], w));
                let t = if matches!(b, B::UMin | B::SMin) { self.ar.ite(lt, x, y) } else { self.ar.ite(lt, y, x) };
                Ok(self.val(t))
            }
            B::USubSat => {
                let (x, y) = (self.term(&v[0], w), self.term(&v[1], w));
                let lt = self.ar.bin(Op::Ult, x, y);
                let z = self.ar.cst(w, 0);
                let s = self.ar.bin(Op::Sub, x, y);
                let t = self.ar.ite(lt, z, s);
                Ok(self.val(t))
            }
            B::UAddSat => {
                let (x, y) = (self.term(&v[0], w), self.term(&v[1], w));
                let s = self.ar.bin(Op::Add, x, y);
                let lt = self.ar.bin(Op::Ult, s, x);
                let z = self.ar.cst(w, m);
                let t = self.ar.ite(lt, z, s);
                Ok(self.val(t))
            }
            B::Abs => {
                let x = self.term(&v[0], w);
                let z = self.ar.cst(w, 0);
                let neg = self.ar.bin(Op::Slt, x, z);
                let n = self.ar.bin(Op::Sub, z, x);
                let t = self.ar.ite(neg, n, x);
                Ok(self.val(t))
            }
            B::Ctpop | B::Ctlz | B::Cttz | B::Bswap | B::BitReverse => {
                if let Some(x) = self.wide(&v[0]) {
                    let r = match b {
                        B::Ctpop => x.count_ones() as u128,
                        B::Ctlz => {
                            if x == 0 {
                                w as u128
                            } else {
                                x.leading_zeros() as u128 - (128 - w as u128)
                            }
                        }
                        B::Cttz => {
                            if x == 0 {
                                w as u128
                            } else {
                                x.trailing_zeros() as u128
                            }
                        }
                        B::Bswap => x.swap_bytes() >> (128 - w),
                        _ => x.reverse_bits() >> (128 - w),
                    };
                    return Ok(self.mkv(w, r));
                }
                let x = self.term(&v[0], w);
                let t = match b {
                    B::Bswap => {
                        let mut t = self.ar.extract(x, 7, 0);
                        for i in 1..w / 8 {
                            let y = self.ar.extract(x, i * 8 + 7, i * 8);
                            t = self.ar.concat(t, y);
                        }
                        t
                    }
                    B::BitReverse => {
                        let mut t = self.ar.extract(x, 0, 0);
                        for i in 1..w {
                            let y = self.ar.extract(x, i, i);
                            t = self.ar.concat(t, y);
                        }
                        t
                    }
                    B::Ctpop => {
                        let mut t = self.ar.cst(w, 0);
                        for i in 0..w {
                            let y = self.ar.extract(x, i, i);
                            let y = self.ar.zext(y, w);
                            t = self.ar.bin(Op::Add, t, y);
                        }
                        t
                    }
                    B::Cttz => {
                        let mut t = self.ar.cst(w, w as u128);
                        for i in (0..w).rev() {
                            let y = self.ar.extract(x, i, i);
                            let k = self.ar.cst(w, i as u128);
                            t = self.ar.ite(y, k, t);
                        }
                        t
                    }
                    _ => {
                        let mut t = self.ar.cst(w, w as u128);
                        for i in 0..w {
                            let y = self.ar.extract(x, i, i);
                            let k = self.ar.cst(w, (w - 1 - i) as u128);
                            t = self.ar.ite(y, k, t);
                        }
                        t
                    }
                };
                Ok(self.val(t))
            }
            B::Fshl | B::Fshr => {
                let s = match self.wide(&v[2]) {
                    Some(s) => (s % w as u128) as u16,
                    None => return Err(Stop::Err("symbolic funnel shift".into())),
                };
                let (x, y) = (self.term(&v[0], w), self.term(&v[1], w));
                let r = if s == 0 {
                    if b == B::Fshl {
                        x
                    } else {
                        y
                    }
                } else {
                    let s = if b == B::Fshl { s } else { w - s };
                    let hi = self.ar.extract(x, w - 1 - s, 0);
                    let lo = self.ar.extract(y, w - 1, w - s);
                    self.ar.concat(hi, lo)
                };
                Ok(self.val(r))
            }
            _ => Err(Stop::Err(format!("intrinsic {:?}", b))),
        }
    }
}
