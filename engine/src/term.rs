//! Hash-consed bit-vector terms with a structural simplifier.
//!
//! Booleans are width-1 bit-vectors. The simplifier never looks at term numbers
//! (which depend on the order of creation), so that re-executing a decision prefix in
//! another worker meets the same symbolic branches in the same order.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

pub type T = u32;
pub type Tm = u32;

#[derive(Default, Clone, Copy)]
pub struct Fx(u64);
impl Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64)
        }
    }
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64);
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<Fx>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
#[repr(u8)]
pub enum Op {
    Const,
    Var,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract,
    ZExt,
    SExt,
}
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: T,
    pub b: T,
    pub c: T,
    /// Const: the value; Var: its index; Extract: the low bit
    pub imm: u128,
}

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w as u32;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u16, a: u128, b: u128) -> u128 {
    // w: width of the operands
    let m = mask(w);
    match op {
        Add => a.wrapping_add(b) & m,
        Sub => a.wrapping_sub(b) & m,
        Mul => a.wrapping_mul(b) & m,
        UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                if x < 0 {
                    1
                } else {
                    m
                }
            } else {
                (x.wrapping_div(y) as u128) & m
            }
        }
        SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y) as u128) & m
            }
        }
        Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        AShr => {
            let x = sext(a, w);
            let s = if b >= w as u128 { w as u32 - 1 } else { b as u32 };
            ((x >> s.min(127)) as u128) & m
        }
        And => a & b,
        Or => a | b,
        Xor => a ^ b,
        Eq => (a == b) as u128,
        Ult => (a < b) as u128,
        Ule => (a <= b) as u128,
        Slt => (sext(a, w) < sext(b, w)) as u128,
        Sle => (sext(a, w) <= sext(b, w)) as u128,
        _ => unreachable!(),
    }
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<Node, T>,
    stamp: Vec<u32>,
    memo: Vec<u128>,
    gen: u32,
}

impl Arena {
    pub fn new() -> Self {
        let mut a = Arena { nodes: vec![], map: Default::default(), stamp: vec![], memo: vec![], gen: 0 };
        // term 0 is never used as a value: 0 means "concrete" in memory overlays
        a.nodes.push(Node { op: Const, w: 1, a: 0, b: 0, c: 0, imm: 0 });
        a
    }
    fn mk(&mut self, n: Node) -> T {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let t = self.nodes.len() as T;
        self.nodes.push(n);
        self.map.insert(n, t);
        t
    }
    #[inline]
    pub fn n(&self, t: T) -> Node {
        self.nodes[t as usize]
    }
    #[inline]
    pub fn w(&self, t: T) -> u16 {
        self.nodes[t as usize].w
    }
    pub fn cst(&mut self, w: u16, v: u128) -> T {
        self.mk(Node { op: Const, w, a: 0, b: 0, c: 0, imm: v & mask(w) })
    }
    pub fn var(&mut self, w: u16, i: u32) -> T {
        self.mk(Node { op: Var, w, a: 0, b: 0, c: 0, imm: i as u128 })
    }
    pub fn as_c(&self, t: T) -> Option<u128> {
        let n = self.nodes[t as usize];
        if n.op == Const {
            Some(n.imm)
        } else {
            None
        }
    }
    /// an if-then-else whose leaves are all constants (bounded depth)
    fn const_ite(&self, t: T, d: u32) -> bool {
        let n = self.n(t);
        match n.op {
            Const => true,
            Ite if d > 0 => self.const_ite(n.b, d - 1) && self.const_ite(n.c, d - 1),
            _ => false,
        }
    }
    pub fn not(&mut self, t: T) -> T {
        debug_assert!(self.w(t) == 1);
        let one = self.cst(1, 1);
        self.bin(Xor, t, one)
    }
    fn low_zero_bits(&self, t: T) -> u16 {
        let n = self.n(t);
        match n.op {
            Const => {
                if n.imm == 0 {
                    n.w
                } else {
                    n.imm.trailing_zeros() as u16
                }
            }
            Concat => {
                let wb = self.w(n.b);
                let z = self.low_zero_bits(n.b);
                if z == wb {
                    wb + self.low_zero_bits(n.a)
                } else {
                    z
                }
            }
            ZExt => {
                let z = self.low_zero_bits(n.a);
                if z == self.w(n.a) {
                    n.w
                } else {
                    z
                }
            }
            _ => 0,
        }
    }
    /// number of bits that may be non-zero
    fn active_bits(&self, t: T) -> u16 {
        let n = self.n(t);
        match n.op {
            Const => 128 - n.imm.leading_zeros() as u16,
            ZExt => self.active_bits(n.a),
            Concat => {
                let a = self.active_bits(n.a);
                if a == 0 {
                    self.active_bits(n.b)
                } else {
                    a + self.w(n.b)
                }
            }
            Ite => self.active_bits(n.b).max(self.active_bits(n.c)),
            _ => n.w,
        }
    }
    pub fn ite(&mut self, c: T, a: T, b: T) -> T {
        if let Some(v) = self.as_c(c) {
            return if v != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let w = self.w(a);
        debug_assert!(w == self.w(b));
        if w == 1 {
            match (self.as_c(a), self.as_c(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.bin(Or, c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.bin(And, n, b);
                }
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.bin(Or, n, a);
                }
                (None, Some(0)) => return self.bin(And, c, a),
                _ => {}
            }
        }
        let cn = self.n(c);
        if cn.op == Xor && self.as_c(cn.b) == Some(1) {
            return self.ite(cn.a, b, a);
        }
        let bn = self.n(b);
        if bn.op == Ite && bn.a == c {
            return self.ite(c, a, bn.c);
        }
        let an = self.n(a);
        if an.op == Ite && an.a == c {
            return self.ite(c, an.b, b);
        }
        self.mk(Node { op: Ite, w, a: c, b: a, c: b, imm: 0 })
    }
    pub fn extract(&mut self, t: T, hi: u16, lo: u16) -> T {
        let n = self.n(t);
        let w = hi - lo + 1;
        if w == n.w {
            return t;
        }
        match n.op {
            Const => self.cst(w, n.imm >> lo),
            Extract => self.extract(n.a, hi + n.imm as u16, lo + n.imm as u16),
            Concat => {
                let wb = self.w(n.b);
                if hi < wb {
                    self.extract(n.b, hi, lo)
                } else if lo >= wb {
                    self.extract(n.a, hi - wb, lo - wb)
                } else {
                    let a = self.extract(n.a, hi - wb, 0);
                    let b = self.extract(n.b, wb - 1, lo);
                    self.concat(a, b)
                }
            }
            ZExt => {
                let wa = self.w(n.a);
                if lo >= wa {
                    self.cst(w, 0)
                } else if hi < wa {
                    self.extract(n.a, hi, lo)
                } else {
                    let x = self.extract(n.a, wa - 1, lo);
                    self.zext(x, w)
                }
            }
            SExt => {
                let wa = self.w(n.a);
                if hi < wa {
                    self.extract(n.a, hi, lo)
                } else if lo == 0 {
                    self.sext(n.a, w)
                } else {
                    self.mk(Node { op: Extract, w, a: t, b: 0, c: 0, imm: lo as u128 })
                }
            }
            And | Or | Xor => {
                let a = self.extract(n.a, hi, lo);
                let b = self.extract(n.b, hi, lo);
                self.bin(n.op, a, b)
            }
            Add | Sub | Mul if lo == 0 => {
                let a = self.extract(n.a, hi, lo);
                let b = self.extract(n.b, hi, lo);
                self.bin(n.op, a, b)
            }
            Ite => {
                let a = self.extract(n.b, hi, lo);
                let b = self.extract(n.c, hi, lo);
                self.ite(n.a, a, b)
            }
            _ => self.mk(Node { op: Extract, w, a: t, b: 0, c: 0, imm: lo as u128 }),
        }
    }
    /// a is the high part
    pub fn concat(&mut self, a: T, b: T) -> T {
        let (na, nb) = (self.n(a), self.n(b));
        let w = na.w + nb.w;
        if na.op == Const && nb.op == Const {
            return self.cst(w, (na.imm << nb.w) | nb.imm);
        }
        if na.op == Const && na.imm == 0 {
            return self.zext(b, w);
        }
        if na.op == Extract && nb.op == Extract && na.a == nb.a && na.imm == nb.imm + nb.w as u128 {
            return self.extract(na.a, (na.imm as u16) + na.w - 1, nb.imm as u16);
        }
        if na.op == Extract && na.a == b && na.imm == nb.w as u128 {
            // cannot happen for a full-width b, kept for symmetry
        }
        // (x ++ extract) ++ extract
        if nb.op == Concat {
            // re-associate to the left: a ++ (b1 ++ b2) = (a ++ b1) ++ b2
            let x = self.concat(a, nb.a);
            return self.concat(x, nb.b);
        }
        if na.op == Concat {
            let nab = self.n(na.b);
            if nab.op == Extract && nb.op == Extract && nab.a == nb.a && nab.imm == nb.imm + nb.w as u128 {
                let lo = self.extract(nb.a, (nab.imm as u16) + nab.w - 1, nb.imm as u16);
                return self.concat(na.a, lo);
            }
            if nab.op == Const && nb.op == Const {
                let lo = self.cst(nab.w + nb.w, (nab.imm << nb.w) | nb.imm);
                return self.concat(na.a, lo);
            }
        }
        if na.op == ZExt {
            // (0 ++ x) ++ b = 0 ++ (x ++ b)
            let x = self.concat(na.a, b);
            return self.zext(x, w);
        }
        self.mk(Node { op: Concat, w, a, b, c: 0, imm: 0 })
    }
    pub fn zext(&mut self, t: T, w: u16) -> T {
        let n = self.n(t);
        if n.w == w {
            return t;
        }
        debug_assert!(n.w < w);
        match n.op {
            Const => self.cst(w, n.imm),
            ZExt => self.zext(n.a, w),
            Ite if self.const_ite(t, 8) => {
                let a = self.zext(n.b, w);
                let b = self.zext(n.c, w);
                self.ite(n.a, a, b)
            }
            _ => self.mk(Node { op: ZExt, w, a: t, b: 0, c: 0, imm: 0 }),
        }
    }
    pub fn sext(&mut self, t: T, w: u16) -> T {
        let n = self.n(t);
        if n.w == w {
            return t;
        }
        match n.op {
            Const => self.cst(w, sext(n.imm, n.w) as u128),
            ZExt => self.zext(n.a, w),
            SExt => self.sext(n.a, w),
            Ite if self.const_ite(t, 8) => {
                let a = self.sext(n.b, w);
                let b = self.sext(n.c, w);
                self.ite(n.a, a, b)
            }
            _ if n.w == 1 => {
                let a = self.cst(w, u128::MAX);
                let b = self.cst(w, 0);
                self.ite(t, a, b)
            }
            _ => self.mk(Node { op: SExt, w, a: t, b: 0, c: 0, imm: 0 }),
        }
    }
    pub fn bin(&mut self, op: Op, a: T, b: T) -> T {
        let (na, nb) = (self.n(a), self.n(b));
        debug_assert!(na.w == nb.w, "{:?} {:?} {:?}", op, na, nb);
        let w = na.w;
        let rw = match op {
            Eq | Ult | Ule | Slt | Sle => 1,
            _ => w,
        };
        if na.op == Const && nb.op == Const {
            return self.cst(rw, fold(op, w, na.imm, nb.imm));
        }
        // constants to the right for commutative operators
        if na.op == Const && matches!(op, Add | Mul | And | Or | Xor | Eq) {
            return self.bin(op, b, a);
        }
        // push operators into if-then-else with constant leaves
        if nb.op == Const && na.op == Ite && self.const_ite(a, 6) {
            let x = self.bin(op, na.b, b);
            let y = self.bin(op, na.c, b);
            return self.ite(na.a, x, y);
        }
        if na.op == Const && nb.op == Ite && self.const_ite(b, 6) {
            let x = self.bin(op, a, nb.b);
            let y = self.bin(op, a, nb.c);
            return self.ite(nb.a, x, y);
        }
        let cb = if nb.op == Const { Some(nb.imm) } else { None };
        let ca = if na.op == Const { Some(na.imm) } else { None };
        let m = mask(w);
        match op {
            Add => {
                if cb == Some(0) {
                    return a;
                }
                if let Some(c2) = cb {
                    if na.op == Add {
                        if let Some(c1) = self.as_c(na.b) {
                            let c = self.cst(w, c1.wrapping_add(c2));
                            return self.bin(Add, na.a, c);
                        }
                    }
                }
                if na.op == Add {
                    if let Some(_) = self.as_c(na.b) {
                        let x = self.bin(Add, na.a, b);
                        return self.bin(Add, x, na.b);
                    }
                }
                if nb.op == Add {
                    if let Some(_) = self.as_c(nb.b) {
                        let x = self.bin(Add, a, nb.a);
                        return self.bin(Add, x, nb.b);
                    }
                }
                // x + (y - x) = y
                if nb.op == Sub && nb.b == a {
                    return nb.a;
                }
                if na.op == Sub && na.b == b {
                    return na.a;
                }
            }
            Sub => {
                if a == b {
                    return self.cst(w, 0);
                }
                if let Some(c) = cb {
                    let c = self.cst(w, c.wrapping_neg());
                    return self.bin(Add, a, c);
                }
                // (x + c) - x = c ; (x + c) - (x + d)
                if na.op == Add {
                    if na.a == b {
                        return na.b;
                    }
                    if na.b == b {
                        return na.a;
                    }
                    if nb.op == Add && na.a == nb.a {
                        return self.bin(Sub, na.b, nb.b);
                    }
                }
            }
            Mul => {
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let s = self.cst(w, c.trailing_zeros() as u128);
                        return self.bin(Shl, a, s);
                    }
                }
            }
            UDiv => {
                if let Some(c) = cb {
                    if c == 1 {
                        return a;
                    }
                    if c.is_power_of_two() {
                        let s = self.cst(w, c.trailing_zeros() as u128);
                        return self.bin(LShr, a, s);
                    }
                }
            }
            URem => {
                if let Some(c) = cb {
                    if c.is_power_of_two() {
                        let s = self.cst(w, c - 1);
                        return self.bin(And, a, s);
                    }
                }
            }
            Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = k as u16;
                    let x = self.extract(a, w - 1 - k, 0);
                    let z = self.cst(k, 0);
                    return self.concat(x, z);
                }
            }
            LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(w, 0);
                    }
                    let k = k as u16;
                    let x = self.extract(a, w - 1, k);
                    return self.zext(x, w);
                }
            }
            AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k < w as u128 {
                        let x = self.extract(a, w - 1, k as u16);
                        return self.sext(x, w);
                    }
                }
            }
            And => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return b;
                    }
                    if c == m {
                        return a;
                    }
                    // low mask
                    if (c & (c + 1)) == 0 {
                        let k = (128 - c.leading_zeros()) as u16;
                        let x = self.extract(a, k - 1, 0);
                        return self.zext(x, w);
                    }
                    if na.op == And {
                        if let Some(c1) = self.as_c(na.b) {
                            let c = self.cst(w, c & c1);
                            return self.bin(And, na.a, c);
                        }
                    }
                    // single-bit or contiguous mask
                    let tz = c.trailing_zeros() as u16;
                    let top = 128 - c.leading_zeros() as u16;
                    if c >> tz == mask(top - tz) {
                        let x = self.extract(a, top - 1, tz);
                        let z = self.cst(tz, 0);
                        let y = self.concat(x, z);
                        return self.zext(y, w);
                    }
                }
                if w == 1 {
                    if na.op == Xor && na.a == b && self.as_c(na.b) == Some(1) {
                        return self.cst(1, 0);
                    }
                    if nb.op == Xor && nb.a == a && self.as_c(nb.b) == Some(1) {
                        return self.cst(1, 0);
                    }
                    if na.op == And && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == And && (nb.a == a || nb.b == a) {
                        return b;
                    }
                }
            }
            Or => {
                if a == b {
                    return a;
                }
                if let Some(c) = cb {
                    if c == 0 {
                        return a;
                    }
                    if c == m {
                        return b;
                    }
                }
                if w == 1 {
                    if na.op == Xor && na.a == b && self.as_c(na.b) == Some(1) {
                        return self.cst(1, 1);
                    }
                    if nb.op == Xor && nb.a == a && self.as_c(nb.b) == Some(1) {
                        return self.cst(1, 1);
                    }
                    if na.op == Or && (na.a == b || na.b == b) {
                        return a;
                    }
                    if nb.op == Or && (nb.a == a || nb.b == a) {
                        return b;
                    }
                } else {
                    // disjoint halves
                    let (za, zb) = (self.low_zero_bits(a), self.low_zero_bits(b));
                    let (aa, ab) = (self.active_bits(a), self.active_bits(b));
                    if za > 0 && ab <= za && za < w {
                        let hi = self.extract(a, w - 1, za);
                        let lo = self.extract(b, za - 1, 0);
                        return self.concat(hi, lo);
                    }
                    if zb > 0 && aa <= zb && zb < w {
                        let hi = self.extract(b, w - 1, zb);
                        let lo = self.extract(a, zb - 1, 0);
                        return self.concat(hi, lo);
                    }
                }
            }
            Xor => {
                if a == b {
                    return self.cst(w, 0);
                }
                if cb == Some(0) {
                    return a;
                }
                if let Some(c) = cb {
                    if na.op == Xor {
                        if let Some(c1) = self.as_c(na.b) {
                            let c = self.cst(w, c ^ c1);
                            return self.bin(Xor, na.a, c);
                        }
                    }
                    // negated comparisons
                    if w == 1 && c == 1 {
                        match na.op {
                            Ult => return self.bin(Ule, na.b, na.a),
                            Ule => return self.bin(Ult, na.b, na.a),
                            Slt => return self.bin(Sle, na.b, na.a),
                            Sle => return self.bin(Slt, na.b, na.a),
                            _ => {}
                        }
                    }
                }
            }
            Eq => {
                if a == b {
                    return self.cst(1, 1);
                }
                if w == 1 {
                    if let Some(c) = cb {
                        return if c == 1 { a } else { self.not(a) };
                    }
                }
                if let Some(c) = cb {
                    match na.op {
                        ZExt => {
                            let wa = self.w(na.a);
                            if c > mask(wa) {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(wa, c);
                            return self.bin(Eq, na.a, k);
                        }
                        SExt => {
                            let wa = self.w(na.a);
                            if (sext(c & mask(wa), wa) as u128) & m != c {
                                return self.cst(1, 0);
                            }
                            let k = self.cst(wa, c);
                            return self.bin(Eq, na.a, k);
                        }
                        Concat => {
                            let wb = self.w(na.b);
                            let wa = self.w(na.a);
                            let hi = self.cst(wa, c >> wb);
                            let lo = self.cst(wb, c);
                            let x = self.bin(Eq, na.a, hi);
                            let y = self.bin(Eq, na.b, lo);
                            return self.bin(And, x, y);
                        }
                        Add => {
                            if let Some(c1) = self.as_c(na.b) {
                                let k = self.cst(w, c.wrapping_sub(c1));
                                return self.bin(Eq, na.a, k);
                            }
                        }
                        Xor => {
                            if let Some(c1) = self.as_c(na.b) {
                                let k = self.cst(w, c ^ c1);
                                return self.bin(Eq, na.a, k);
                            }
                            if c == 0 {
                                return self.bin(Eq, na.a, na.b);
                            }
                        }
                        Sub if c == 0 => return self.bin(Eq, na.a, na.b),
                        Or if c == 0 => {
                            let z = self.cst(w, 0);
                            let x = self.bin(Eq, na.a, z);
                            let y = self.bin(Eq, na.b, z);
                            return self.bin(And, x, y);
                        }
                        Ite => {
                            // one constant leaf that differs from c
                            if let Some(k) = self.as_c(na.b) {
                                if k != c {
                                    let n = self.not(na.a);
                                    let y = self.bin(Eq, na.c, b);
                                    return self.bin(And, n, y);
                                }
                            }
                            if let Some(k) = self.as_c(na.c) {
                                if k != c {
                                    let y = self.bin(Eq, na.b, b);
                                    return self.bin(And, na.a, y);
                                }
                            }
                        }
                        _ => {}
                    }
                } else {
                    if na.op == ZExt && nb.op == ZExt {
                        let (wa, wb) = (self.w(na.a), self.w(nb.a));
                        let wm = wa.max(wb);
                        let x = self.zext(na.a, wm);
                        let y = self.zext(nb.a, wm);
                        if wm < w {
                            return self.bin(Eq, x, y);
                        }
                    }
                    if na.op == Concat || nb.op == Concat {
                        // split at the concat's boundary
                        let k = if na.op == Concat { self.w(na.b) } else { self.w(nb.b) };
                        let other_ok = |n: &Node| matches!(n.op, Concat | ZExt);
                        if (na.op == Concat && other_ok(&nb)) || (nb.op == Concat && other_ok(&na)) {
                            let ah = self.extract(a, w - 1, k);
                            let bh = self.extract(b, w - 1, k);
                            let al = self.extract(a, k - 1, 0);
                            let bl = self.extract(b, k - 1, 0);
                            let x = self.bin(Eq, ah, bh);
                            let y = self.bin(Eq, al, bl);
                            return self.bin(And, x, y);
                        }
                    }
                }
            }
            Ult => {
                if a == b || cb == Some(0) {
                    return self.cst(1, 0);
                }
                if cb == Some(1) {
                    let z = self.cst(w, 0);
                    return self.bin(Eq, a, z);
                }
                if ca == Some(m) {
                    return self.cst(1, 0);
                }
                if ca == Some(0) {
                    let e = self.bin(Eq, b, a);
                    return self.not(e);
                }
                if let Some(r) = self.narrow_cmp(op, a, b) {
                    return r;
                }
            }
            Ule => {
                if a == b || ca == Some(0) || cb == Some(m) {
                    return self.cst(1, 1);
                }
                if cb == Some(0) {
                    return self.bin(Eq, a, b);
                }
                if let Some(c) = cb {
                    let k = self.cst(w, c + 1);
                    return self.bin(Ult, a, k);
                }
                if let Some(c) = ca {
                    let k = self.cst(w, c - 1);
                    return self.bin(Ult, k, b);
                }
                if let Some(r) = self.narrow_cmp(op, a, b) {
                    return r;
                }
            }
            Slt | Sle => {
                if a == b {
                    return self.cst(1, (op == Sle) as u128);
                }
                // both non-negative: unsigned comparison
                if self.active_bits(a) < w && self.active_bits(b) < w {
                    return self.bin(if op == Slt { Ult } else { Ule }, a, b);
                }
            }
            _ => {}
        }
        self.mk(Node { op, w: rw, a, b, c: 0, imm: 0 })
    }
    fn narrow_cmp(&mut self, op: Op, a: T, b: T) -> Option<T> {
        let w = self.w(a);
        let k = self.active_bits(a).max(self.active_bits(b)).max(1);
        if k >= w {
            return None;
        }
        // only useful when an operand is an extension
        let (na, nb) = (self.n(a), self.n(b));
        if na.op != ZExt && nb.op != ZExt {
            return None;
        }
        // keep whole operands: do not cut through an extended term
        let x = self.extract(a, k - 1, 0);
        let y = self.extract(b, k - 1, 0);
        Some(self.bin(op, x, y))
    }

    pub fn eval(&mut self, t: T, model: &[u64]) -> u128 {
        self.gen += 1;
        if self.stamp.len() < self.nodes.len() {
            self.stamp.resize(self.nodes.len(), 0);
            self.memo.resize(self.nodes.len(), 0);
        }
        self.ev(t, model)
    }
    fn ev(&mut self, t: T, model: &[u64]) -> u128 {
        let n = self.nodes[t as usize];
        match n.op {
            Const => return n.imm,
            Var => return model.get(n.imm as usize).copied().unwrap_or(0) as u128 & mask(n.w),
            _ => {}
        }
        if self.stamp[t as usize] == self.gen {
            return self.memo[t as usize];
        }
        let r = match n.op {
            Ite => {
                if self.ev(n.a, model) != 0 {
                    self.ev(n.b, model)
                } else {
                    self.ev(n.c, model)
                }
            }
            Concat => {
                let wb = self.w(n.b);
                (self.ev(n.a, model) << wb) | self.ev(n.b, model)
            }
            Extract => (self.ev(n.a, model) >> n.imm) & mask(n.w),
            ZExt => self.ev(n.a, model),
            SExt => {
                let wa = self.w(n.a);
                sext(self.ev(n.a, model), wa) as u128 & mask(n.w)
            }
            _ => {
                let wa = self.w(n.a);
                let x = self.ev(n.a, model);
                let y = self.ev(n.b, model);
                fold(n.op, wa, x, y)
            }
        };
        self.stamp[t as usize] = self.gen;
        self.memo[t as usize] = r;
        r
    }
    #[allow(dead_code)]
    pub fn show(&self, t: T) -> String {
        let n = self.n(t);
        match n.op {
            Const => format!("{}", n.imm),
            Var => format!("v{}", n.imm),
            Ite => format!("(ite {} {} {})", self.show(n.a), self.show(n.b), self.show(n.c)),
            Extract => format!("{}[{}..{}]", self.show(n.a), n.imm, n.imm as u16 + n.w - 1),
            ZExt | SExt => format!("({:?}{} {})", n.op, n.w, self.show(n.a)),
            _ => format!("({:?} {} {})", n.op, self.show(n.a), self.show(n.b)),
        }
    }
}
