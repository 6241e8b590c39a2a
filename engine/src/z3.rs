//! Incremental QF_BV solver over the Z3 C API.
#[allow(unused)]
use crate::term::*;
use std::ffi::CString;
use std::hash::{Hasher, SipHasher};
use std::sync::{Arc, Mutex};
use std::os::raw::{c_char, c_int, c_uint, c_void};
use std::time::Instant;

type P = *mut c_void;
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_del_config(c: P);
    fn Z3_del_context(c: P);
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_mk_bv_sort(c: P, w: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, s: *const c_char, ty: P) -> P;
    fn Z3_mk_unsigned_int64(c: P, v: u64, ty: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, hi: c_uint, lo: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, n: c_uint, a: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, s: P) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, a: P, complete: bool, out: *mut P) -> bool;
    fn Z3_get_numeral_uint64(c: P, a: P, out: *mut u64) -> bool;
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
}

pub enum Res {
    Sat(Vec<u64>),
    Unsat,
    Unknown,
}

pub struct Solver {
    c: P,
    s: P,
    bv: FxMap<T, P>,
    bo: FxMap<T, P>,
    vars: FxMap<u32, P>,
    cache: Arc<Cache>,
    sup: Vec<u128>,
    tables: FxMap<Tm, [u64; 4]>,
    buf: Vec<u8>,
    /// questions asked, answered from the cache, passed to Z3
    pub asked: u64,
    pub hits: u64,
    /// answered by the truth table of a formula over one byte
    pub tabled: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub time: f64,
    pub max: f64,
    /// every dump_every-th query is written here as SMT-LIB2, for a second solver
    pub dump_every: u64,
    pub dump: Vec<(String, bool)>,
}

impl Solver {
    pub fn new(timeout_ms: u32, cache: Arc<Cache>) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let c = Z3_mk_context_rc(cfg);
            Z3_del_config(cfg);
            let mut s = Solver {
                c,
                s: std::ptr::null_mut(),
                bv: Default::default(),
                bo: Default::default(),
                vars: Default::default(),
                cache,
                sup: vec![],
                tables: Default::default(),
                tabled: 0,
                buf: vec![],
                asked: 0,
                hits: 0,
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                time: 0.0,
                max: 0.0,
                dump_every: 0,
                dump: vec![],
            };
            s.mk_solver(timeout_ms);
            s
        }
    }
    unsafe fn mk_solver(&mut self, timeout_ms: u32) {
        let l = CString::new("QF_BV").unwrap();
        let sym = Z3_mk_string_symbol(self.c, l.as_ptr());
        self.s = Z3_mk_simple_solver(self.c);
        Z3_solver_inc_ref(self.c, self.s);
        let p = Z3_mk_params(self.c);
        Z3_params_inc_ref(self.c, p);
        let k = CString::new("timeout").unwrap();
        Z3_params_set_uint(self.c, p, Z3_mk_string_symbol(self.c, k.as_ptr()), timeout_ms);
        Z3_solver_set_params(self.c, self.s, p);
    }
    fn keep(&mut self, a: P) -> P {
        unsafe { Z3_inc_ref(self.c, a) };
        a
    }
    fn bvsort(&self, w: u16) -> P {
        unsafe { Z3_mk_bv_sort(self.c, w as c_uint) }
    }
    /// translation as a boolean (width 1)
    fn tb(&mut self, ar: &Arena, t: T) -> P {
        if let Some(p) = self.bo.get(&t) {
            return *p;
        }
        let n = ar.n(t);
        debug_assert!(n.w == 1);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.imm != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Eq => {
                    if ar.w(n.a) == 1 {
                        let (a, b) = (self.tb(ar, n.a), self.tb(ar, n.b));
                        Z3_mk_eq(c, a, b)
                    } else {
                        let (a, b) = (self.tv(ar, n.a), self.tv(ar, n.b));
                        Z3_mk_eq(c, a, b)
                    }
                }
                Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let (a, b) = (self.tv(ar, n.a), self.tv(ar, n.b));
                    match n.op {
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::And | Op::Or => {
                    let v = [self.tb(ar, n.a), self.tb(ar, n.b)];
                    if n.op == Op::And {
                        Z3_mk_and(c, 2, v.as_ptr())
                    } else {
                        Z3_mk_or(c, 2, v.as_ptr())
                    }
                }
                Op::Xor => {
                    let a = self.tb(ar, n.a);
                    if ar.as_c(n.b) == Some(1) {
                        Z3_mk_not(c, a)
                    } else {
                        let b = self.tb(ar, n.b);
                        Z3_mk_xor(c, a, b)
                    }
                }
                Op::Ite => {
                    let (a, b, d) = (self.tb(ar, n.a), self.tb(ar, n.b), self.tb(ar, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                _ => {
                    let v = self.tv(ar, t);
                    let one = Z3_mk_unsigned_int64(c, 1, self.bvsort(1));
                    self.keep(one);
                    Z3_mk_eq(c, v, one)
                }
            }
        };
        self.keep(p);
        self.bo.insert(t, p);
        p
    }
    fn tv(&mut self, ar: &Arena, t: T) -> P {
        if let Some(p) = self.bv.get(&t) {
            return *p;
        }
        let n = ar.n(t);
        let c = self.c;
        let p = unsafe {
            match n.op {
                Op::Const => {
                    if n.w <= 64 {
                        Z3_mk_unsigned_int64(c, n.imm as u64, self.bvsort(n.w))
                    } else {
                        let s = CString::new(n.imm.to_string()).unwrap();
                        Z3_mk_numeral(c, s.as_ptr(), self.bvsort(n.w))
                    }
                }
                Op::Var => self.var(n.imm as u32, n.w),
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let b = self.tb(ar, t);
                    let so = self.bvsort(1);
                    let one = Z3_mk_unsigned_int64(c, 1, so);
                    self.keep(one);
                    let zero = Z3_mk_unsigned_int64(c, 0, so);
                    self.keep(zero);
                    Z3_mk_ite(c, b, one, zero)
                }
                Op::Ite => {
                    let (a, b, d) = (self.tb(ar, n.a), self.tv(ar, n.b), self.tv(ar, n.c));
                    Z3_mk_ite(c, a, b, d)
                }
                Op::Extract => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_extract(c, n.imm as c_uint + n.w as c_uint - 1, n.imm as c_uint, a)
                }
                Op::ZExt => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_zero_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                Op::SExt => {
                    let a = self.tv(ar, n.a);
                    Z3_mk_sign_ext(c, (n.w - ar.w(n.a)) as c_uint, a)
                }
                op => {
                    let (a, b) = (self.tv(ar, n.a), self.tv(ar, n.b));
                    match op {
                        Op::Add => Z3_mk_bvadd(c, a, b),
                        Op::Sub => Z3_mk_bvsub(c, a, b),
                        Op::Mul => Z3_mk_bvmul(c, a, b),
                        Op::UDiv => Z3_mk_bvudiv(c, a, b),
                        Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                        Op::URem => Z3_mk_bvurem(c, a, b),
                        Op::SRem => Z3_mk_bvsrem(c, a, b),
                        Op::Shl => Z3_mk_bvshl(c, a, b),
                        Op::LShr => Z3_mk_bvlshr(c, a, b),
                        Op::AShr => Z3_mk_bvashr(c, a, b),
                        Op::And => Z3_mk_bvand(c, a, b),
                        Op::Or => Z3_mk_bvor(c, a, b),
                        Op::Xor => Z3_mk_bvxor(c, a, b),
                        Op::Concat => Z3_mk_concat(c, a, b),
                        _ => unreachable!(),
                    }
                }
            }
        };
        self.keep(p);
        self.bv.insert(t, p);
        p
    }
    fn var(&mut self, i: u32, w: u16) -> P {
        if let Some(p) = self.vars.get(&i) {
            return *p;
        }
        let p = unsafe {
            let s = CString::new(format!("v{}", i)).unwrap();
            let sym = Z3_mk_string_symbol(self.c, s.as_ptr());
            Z3_mk_const(self.c, sym, self.bvsort(w))
        };
        self.keep(p);
        self.vars.insert(i, p);
        p
    }
    /// the variables of a term, as a set (variables from 127 on share one bit)
    fn support(&mut self, ar: &Arena, t: Tm) -> u128 {
        if (t as usize) < self.sup.len() && self.sup[t as usize] != u128::MAX {
            return self.sup[t as usize];
        }
        let n = ar.n(t);
        let r = match n.op {
            Op::Const => 0,
            Op::Var => 1u128 << n.imm.min(127),
            Op::Ite => self.support(ar, n.a) | self.support(ar, n.b) | self.support(ar, n.c),
            Op::Extract | Op::ZExt | Op::SExt => self.support(ar, n.a),
            _ => self.support(ar, n.a) | self.support(ar, n.b),
        };
        if self.sup.len() <= t as usize {
            self.sup.resize(ar.nodes.len().max(t as usize + 1), u128::MAX);
        }
        self.sup[t as usize] = r;
        r
    }
    /// for which values of the byte v does t, which depends on nothing else, hold?
    fn table(&mut self, ar: &mut Arena, t: Tm, v: usize) -> [u64; 4] {
        if let Some(x) = self.tables.get(&t) {
            return *x;
        }
        let mut m = vec![0u64; v + 1];
        let mut r = [0u64; 4];
        for x in 0..256usize {
            m[v] = x as u64;
            if ar.eval(t, &m) == 1 {
                r[x / 64] |= 1 << (x % 64);
            }
        }
        self.tables.insert(t, r);
        r
    }
    /// serialises a term with variables renamed in order of appearance
    fn ser(&mut self, ar: &Arena, t: Tm, k: &mut Key) {
        if let Some(i) = k.seen.get(&t) {
            k.buf.push(0xff);
            k.buf.extend_from_slice(&i.to_le_bytes()[..2]);
            return;
        }
        let n = ar.n(t);
        k.buf.push(n.op as u8);
        k.buf.push(n.w as u8);
        match n.op {
            Op::Const => {
                let l = (n.w as usize + 7) / 8;
                k.buf.extend_from_slice(&n.imm.to_le_bytes()[..l]);
                return;
            }
            Op::Var => {
                let i = n.imm as u32;
                let p = match k.vars.iter().position(|x| *x == i) {
                    Some(p) => p,
                    None => {
                        k.vars.push(i);
                        k.vars.len() - 1
                    }
                };
                k.buf.push(p as u8);
                k.buf.push((p >> 8) as u8);
                return;
            }
            Op::Ite => {
                self.ser(ar, n.a, k);
                self.ser(ar, n.b, k);
                self.ser(ar, n.c, k);
            }
            Op::Extract => {
                k.buf.push(n.imm as u8);
                self.ser(ar, n.a, k);
            }
            Op::ZExt | Op::SExt => self.ser(ar, n.a, k),
            _ => {
                self.ser(ar, n.a, k);
                self.ser(ar, n.b, k);
            }
        }
        let i = k.seen.len() as u32;
        k.seen.insert(t, i);
    }
    /// is pc and cond satisfiable? (cond: a width-1 term; cur: an assignment that satisfies pc)
    ///
    /// Only the constraints connected to cond through shared variables are asked about; the
    /// remaining variables keep their values. Answers are cached up to renaming of variables.
    pub fn check(&mut self, ar: &mut Arena, pc: &[Tm], cond: Tm, widths: &[u16], cur: &[u64]) -> Res {
        let t0 = Instant::now();
        self.asked += 1;
        let mut set = self.support(ar, cond);
        let mut sel: Vec<bool> = vec![false; pc.len()];
        loop {
            let mut ch = false;
            for (i, t) in pc.iter().enumerate() {
                if !sel[i] {
                    let s = self.support(ar, *t);
                    if s & set != 0 {
                        sel[i] = true;
                        if s & !set != 0 {
                            set |= s;
                            ch = true;
                        }
                    }
                }
            }
            if !ch {
                break;
            }
        }
        let mut table: Option<Option<u64>> = None;
        if set.count_ones() == 1 && set.trailing_zeros() < 127 && widths.get(set.trailing_zeros() as usize) == Some(&8) {
            // everything that matters is about one byte: the truth table decides
            let v = set.trailing_zeros() as usize;
            let mut m = self.table(ar, cond, v);
            for (i, t) in pc.iter().enumerate() {
                if sel[i] {
                    let x = self.table(ar, *t, v);
                    for j in 0..4 {
                        m[j] &= x[j];
                    }
                }
            }
            self.tabled += 1;
            let w = (0..4).find(|j| m[*j] != 0).map(|j| (j * 64 + m[j].trailing_zeros() as usize) as u64);
            if self.tabled % 256 != 1 {
                return match w {
                    None => Res::Unsat,
                    Some(x) => {
                        let mut m = cur.to_vec();
                        if m.len() < widths.len() {
                            m.resize(widths.len(), 0);
                        }
                        m[v] = x;
                        Res::Sat(m)
                    }
                };
            }
            // now and then Z3 is asked as well
            table = Some(w);
        }
        let mut k = Key { buf: std::mem::take(&mut self.buf), vars: vec![], seen: Default::default() };
        k.buf.clear();
        self.ser(ar, cond, &mut k);
        for (i, t) in pc.iter().enumerate() {
            if sel[i] {
                self.ser(ar, *t, &mut k);
            }
        }
        let key = {
            let mut a = SipHasher::new_with_keys(0x1234, 0x5678);
            a.write(&k.buf);
            let mut b = SipHasher::new_with_keys(0x9abc, 0xdef0);
            b.write(&k.buf);
            ((a.finish() as u128) << 64) | b.finish() as u128
        };
        self.buf = std::mem::take(&mut k.buf);
        let cache = self.cache.clone();
        let shard = &cache.0[(key as usize) & 63];
        let hit = shard.lock().unwrap().get(&key).cloned();
        let ans: Option<Vec<u64>> = match hit {
            Some(a) => {
                self.hits += 1;
                a
            }
            None => {
                self.queries += 1;
                let r = unsafe {
                    Z3_solver_push(self.c, self.s);
                    for (i, t) in pc.iter().enumerate() {
                        if sel[i] {
                            let b = self.tb(ar, *t);
                            Z3_solver_assert(self.c, self.s, b);
                        }
                    }
                    let b = self.tb(ar, cond);
                    Z3_solver_assert(self.c, self.s, b);
                    let r = Z3_solver_check(self.c, self.s);
                    if self.dump_every > 0 && self.queries % self.dump_every == 0 && r != 0 && self.dump.len() < 200 {
                        let s = std::ffi::CStr::from_ptr(Z3_solver_to_string(self.c, self.s));
                        self.dump.push((s.to_string_lossy().into_owned(), r == 1));
                    }
                    let res = match r {
                        1 => {
                            let m = Z3_solver_get_model(self.c, self.s);
                            Z3_model_inc_ref(self.c, m);
                            let mut v = Vec::with_capacity(k.vars.len());
                            for i in &k.vars {
                                let mut val = 0u64;
                                let x = self.var(*i, widths.get(*i as usize).copied().unwrap_or(8));
                                let mut out: P = std::ptr::null_mut();
                                if Z3_model_eval(self.c, m, x, true, &mut out) {
                                    Z3_get_numeral_uint64(self.c, out, &mut val);
                                }
                                v.push(val);
                            }
                            Z3_model_dec_ref(self.c, m);
                            Some(Some(v))
                        }
                        -1 => Some(None),
                        _ => None,
                    };
                    Z3_solver_pop(self.c, self.s, 1);
                    res
                };
                let dt = t0.elapsed().as_secs_f64();
                self.time += dt;
                if dt > self.max {
                    self.max = dt;
                }
                match r {
                    None => {
                        self.unknown += 1;
                        return Res::Unknown;
                    }
                    Some(a) => {
                        if a.is_some() {
                            self.sat += 1
                        } else {
                            self.unsat += 1
                        }
                        let mut g = shard.lock().unwrap();
                        if g.len() > 400_000 {
                            g.clear();
                        }
                        g.insert(key, a.clone());
                        a
                    }
                }
            }
        };
        if let Some(w) = table {
            if w.is_some() != ans.is_some() {
                self.unknown += 1;
                return Res::Unknown;
            }
        }
        match ans {
            None => Res::Unsat,
            Some(v) => {
                let mut m = cur.to_vec();
                if m.len() < widths.len() {
                    m.resize(widths.len(), 0);
                }
                for (i, x) in k.vars.iter().zip(v) {
                    if m.len() <= *i as usize {
                        m.resize(*i as usize + 1, 0);
                    }
                    m[*i as usize] = x;
                }
                // the model has to satisfy what was asked: guards slicing, cache and translation
                if ar.eval(cond, &m) != 1 || !pc.iter().all(|t| ar.eval(*t, &m) == 1) {
                    self.unknown += 1;
                    return Res::Unknown;
                }
                Res::Sat(m)
            }
        }
    }
}
struct Key {
    buf: Vec<u8>,
    vars: Vec<u32>,
    seen: FxMap<Tm, u32>,
}
pub struct Cache(Vec<Mutex<FxMap<u128, Option<Vec<u64>>>>>);
impl Cache {
    pub fn new() -> Self {
        Cache((0..64).map(|_| Mutex::new(Default::default())).collect())
    }
}
impl Drop for Solver {
    fn drop(&mut self) {
        unsafe { Z3_del_context(self.c) }
    }
}
