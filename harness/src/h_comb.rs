use crate::gen::*;
use crate::model::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::*;
use std::cell::Cell;

pub const KEEP_A: usize = 0;
pub const TAKE_B: usize = 1;
pub const DROP: usize = 2;
pub const NEW: usize = 3;

/// n entries with arbitrary increasing keys; the i-th value is tagged base + i
#[inline(never)]
pub fn tagged(s: &Shape, n: usize, base: u8) -> Map {
    let mut m = Map::new();
    if s.levels().is_some() {
        m = Shape { vlen: 0, ..*s }.content(n);
        for (i, (_, v)) in m.0.iter_mut().enumerate() {
            *v = tag(base + i as u8, s.vlen);
        }
        return m;
    }
    for i in 0..n {
        let k = s.key();
        if i > 0 {
            assume(lt(&m.0[i - 1].0, &k));
        }
        m.0.push((k, tag(base + i as u8, s.vlen)));
    }
    m
}
/// value lengths by code: mixed over the limits of the ways to store them; nothing on one side
pub const MIXED: usize = 1001;
pub const B_EMPTY: usize = 1002;
pub const A_EMPTY: usize = 1003;
pub fn tag(t: u8, len: usize) -> Bytes {
    let len = match len {
        MIXED if t < B => [1, 130, 8, 127][t as usize % 4],
        MIXED => [130, 2, 128, 7][t as usize % 4],
        B_EMPTY if t >= B => return vec![],
        A_EMPTY if t < B => return vec![],
        B_EMPTY | A_EMPTY => 1,
        _ => len,
    };
    let mut v = Vec::with_capacity(len);
    for i in 0..len.max(1) {
        v.push(t.wrapping_add((i % 16) as u8 * 0x10));
    }
    v
}
pub fn new_value(len: usize) -> Bytes {
    vec![0xf7; if len == 1 || len > 1000 { 2 } else { len - 1 }]
}
/// up to eight collisions: who meets whom, and what is to happen
pub struct Plan {
    /// indexed by the tag of the left value: tag of the right value
    pub partner: [u8; 8],
    pub what: [usize; 8],
    pub calls: [Cell<u8>; 8],
    pub wrong: Cell<bool>,
}
pub const A: u8 = 0;
pub const B: u8 = 8;
impl Plan {
    #[inline(never)]
    pub fn new(m1: &Map, m2: &Map, kinds: usize) -> Self {
        let mut p = Plan { partner: [0xff; 8], what: [0; 8], calls: Default::default(), wrong: Cell::new(false) };
        for (_, a, b) in join(m1, m2) {
            if let (Some(a), Some(b)) = (a, b) {
                let i = Self::index(a, b);
                p.partner[i] = Self::other(a, b);
                p.what[i] = pick(kinds);
            }
        }
        p
    }
    /// pairs are known by the tag of the left value, or of the right one when the left one is empty
    fn index(a: &[u8], b: &[u8]) -> usize {
        if a.is_empty() {
            b[0].wrapping_sub(B) as usize
        } else {
            a[0].wrapping_sub(A) as usize
        }
    }
    fn other(a: &[u8], b: &[u8]) -> u8 {
        if a.is_empty() || b.is_empty() {
            0xfe
        } else {
            b[0]
        }
    }
    pub fn of(&self, a: &[u8], b: &[u8]) -> usize {
        self.what[Self::index(a, b)]
    }
    /// note a call, and say what to do
    pub fn call(&self, a: &[u8], b: &[u8]) -> usize {
        if (a.is_empty() && b.is_empty()) || Self::index(a, b) >= 8 || self.partner[Self::index(a, b)] != Self::other(a, b) {
            self.wrong.set(true);
            return DROP;
        }
        let i = Self::index(a, b);
        self.calls[i].set(self.calls[i].get() + 1);
        self.what[i]
    }
    pub fn reset(&self) {
        for c in &self.calls {
            c.set(0);
        }
    }
    /// every collision was asked for exactly once
    pub fn once(&self) -> bool {
        let mut r = !self.wrong.get();
        for i in 0..8 {
            r &= self.calls[i].get() == (self.partner[i] != 0xff) as u8;
        }
        r
    }
}
#[derive(Clone, Copy, PartialEq)]
pub enum Op {
    Outer,
    Inner,
    Left,
}
#[inline(never)]
pub fn combined(op: Op, m1: &Map, m2: &Map, plan: &Plan, new: &[u8]) -> Map {
    let mut e = Map::new();
    for (k, a, b) in join(m1, m2) {
        let v = match (a, b) {
            (Some(a), Some(b)) => match plan.of(a, b) {
                KEEP_A => Some(a.clone()),
                TAKE_B => Some(b.clone()),
                DROP => None,
                _ => Some(new.to_vec()),
            },
            (Some(a), None) if op != Op::Inner => Some(a.clone()),
            (None, Some(b)) if op == Op::Outer => Some(b.clone()),
            _ => None,
        };
        if let Some(v) = v {
            e.0.push((k.to_vec(), v));
        }
    }
    e
}

/// params: entries left, entries right, kinds of decisions, history, shape
#[inline(always)]
fn comb(op: Op) {
    let (n1, n2, kinds) = (param(0), param(1), param(2));
    let s = shape(4);
    let live0 = live();
    {
        let m1 = tagged(&s, n1, A);
        let m2 = tagged(&s, n2, B);
        let t1 = crate::h_query::tree_by(&m1, &s, param(3));
        let t2 = tree(&m2);
        let plan = Plan::new(&m1, &m2, kinds);
        let p = &plan;
        let new = new_value(s.vlen);
        let new_tree = RadixTree::single(b"", &new);
        let nt = &new_tree;
        let e = combined(op, &m1, &m2, p, &new);
        let f = |a: &ValueRef, b: &ValueRef| -> Option<Value> {
            match p.call(a.data().unwrap_or(&[]), b.data().unwrap_or(&[])) {
                KEEP_A => Some(a.to_owned()),
                TAKE_B => Some(b.to_owned()),
                DROP => None,
                _ => Some(nt.value().unwrap().to_owned()),
            }
        };
        let r = match op {
            Op::Outer => t1.outer_combine(&t2, f),
            Op::Inner => t1.inner_combine(&t2, f),
            Op::Left => t1.left_combine(&t2, f),
        };
        check_content(&r, &e, "the combination holds exactly the right entries");
        check(r.is_empty() == e.0.is_empty(), "the combination is empty iff it has no entries");
        check(p.once(), "the function is asked once per key on both sides, with its values");
        check_content(&t1, &m1, "the left tree is unchanged");
        check_content(&t2, &m2, "the right tree is unchanged");
        p.reset();
        let mut i = t1.clone();
        let g = |a: &mut Value, b: &ValueRef| {
            let w = p.call(a.as_ref(), b.data().unwrap_or(&[]));
            match w {
                KEEP_A => {}
                TAKE_B => a.set(Some(b)),
                DROP => a.set(None),
                _ => a.set(Some(&nt.value().unwrap())),
            }
        };
        match op {
            Op::Outer => i.outer_combine_with(&t2, g),
            Op::Inner => i.inner_combine_with(&t2, g),
            Op::Left => i.left_combine_with(&t2, g),
        }
        check_content(&i, &e, "the in-place combination holds exactly the right entries");
        check(i.is_empty() == e.0.is_empty(), "the in-place combination is empty iff it has no entries");
        check(p.once(), "the function is asked once per key on both sides, with its values, in place");
        check_content(&t1, &m1, "a clone of the target is unchanged");
        check_content(&t2, &m2, "the argument of the in-place combination is unchanged");
        let et = tree(&e);
        check(r == et, "[C09] a combination is equal to the tree built from its entries");
        check(i == et, "[C09] an in-place combination is equal to the tree built from its entries");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
#[no_mangle]
pub fn h_outer() {
    comb(Op::Outer)
}
#[no_mangle]
pub fn h_inner() {
    comb(Op::Inner)
}
#[no_mangle]
pub fn h_left() {
    comb(Op::Left)
}

/// the predicate variants. params: entries left, entries right, shape
#[no_mangle]
pub fn h_pred() {
    let (n1, n2) = (param(0), param(1));
    let s = shape(2);
    let live0 = live();
    {
        let m1 = tagged(&s, n1, A);
        let m2 = tagged(&s, n2, B);
        let t1 = tree(&m1);
        let t2 = tree(&m2);
        let plan = Plan::new(&m1, &m2, 2);
        let p = &plan;
        let (mut inner, mut left) = (false, false);
        for (_, a, b) in join(&m1, &m2) {
            match (a, b) {
                (Some(a), Some(b)) => {
                    inner |= p.of(a, b) == 1;
                    left |= p.of(a, b) == 1;
                }
                (Some(_), None) => left = true,
                _ => {}
            }
        }
        let f = |a: &ValueRef, b: &ValueRef| p.call(a.data().unwrap_or(&[]), b.data().unwrap_or(&[])) == 1;
        let r = t1.inner_combine_pred(&t2, f);
        check(!p.wrong.get(), "[C06] the predicate is asked for pairs with the same key");
        check(r == inner, "[C06] inner_combine_pred iff some common key satisfies the predicate");
        p.reset();
        let r = t1.left_combine_pred(&t2, f);
        check(!p.wrong.get(), "[C07] the predicate is asked for pairs with the same key");
        check(r == left, "[C07] left_combine_pred iff some left key is alone or satisfies the predicate");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// retain and remove by prefixes. params: entries, prefixes, history, shape of keys, shape of prefixes
#[no_mangle]
pub fn h_by_prefixes() {
    let (n1, n2) = (param(0), param(1));
    let s = shape(3);
    let s2 = shape(3 + SHAPE);
    let live0 = live();
    {
        let m1 = tagged(&s, n1, A);
        let m2 = tagged(&s2, n2, B);
        let t1 = crate::h_query::tree_by(&m1, &s, param(2));
        let t2 = tree(&m2);
        let mut on = [false; 8];
        let n2 = m2.0.len();
        for i in 0..n2 {
            on[i] = pick(2) == 1;
        }
        let o = &on;
        let hit = |k: &[u8]| {
            let mut r = false;
            for (p, v) in &m2.0 {
                if o[(v[0] - B) as usize] && is_prefix(p, k) {
                    r = true;
                    break;
                }
            }
            r
        };
        let keep = m1.filter(|k, _| hit(k));
        let mut rest = Map::new();
        for (k, v) in &m1.0 {
            if !keep.0.iter().any(|(_, w)| w[0] == v[0]) {
                rest.0.push((k.clone(), v.clone()));
            }
        }
        let f = |v: &ValueRef| match v.data() {
            Some(d) if d.len() > 0 && d[0] >= B && ((d[0] - B) as usize) < n2 => o[(d[0] - B) as usize],
            _ => {
                check(false, "the predicate is asked about values of the second tree");
                false
            }
        };
        let mut a = t1.clone();
        a.retain_prefix_with(&t2, f);
        check_content(&a, &keep, "retain_prefix_with keeps exactly the entries under an accepted prefix");
        check(a.is_empty() == keep.0.is_empty(), "is_empty after retain_prefix_with");
        let mut b = t1.clone();
        b.remove_prefix_with(&t2, f);
        check_content(&b, &rest, "remove_prefix_with keeps exactly the entries under no accepted prefix");
        check(b.is_empty() == rest.0.is_empty(), "is_empty after remove_prefix_with");
        check_content(&t1, &m1, "a clone of the target is unchanged");
        check_content(&t2, &m2, "the tree of prefixes is unchanged");
        check(a == tree(&keep), "[C09] retain_prefix_with leaves a tree equal to one built from its entries");
        check(b == tree(&rest), "[C09] remove_prefix_with leaves a tree equal to one built from its entries");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
