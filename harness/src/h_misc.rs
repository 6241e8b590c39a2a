use crate::gen::*;
use crate::h_query::tree_by;
use crate::model::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::*;
use std::cell::RefCell;

/// equality of two arbitrary trees. params: entries, entries, history, longest value, shape
#[no_mangle]
pub fn h_eq() {
    let s = shape(4);
    let live0 = live();
    {
        let mk = |n: usize| {
            let mut m = Map::new();
            for i in 0..n {
                let k = s.key();
                if i > 0 {
                    assume(lt(&m.0[i - 1].0, &k));
                }
                let l = if s.vlen > 2 { s.vlen } else { pick(param(3) + 1) };
                m.0.push((k, value(l)));
            }
            m
        };
        let a = mk(param(0));
        let b = mk(param(1));
        let ta = tree_by(&a, &s, param(2));
        let tb = tree_by(&b, &s, 0);
        let e = same(&a, &b);
        check((ta == tb) == e, "two trees are equal iff their contents are");
        check((tb == ta) == e, "equality is symmetric");
        check(ta == ta.clone(), "a tree equals its clone");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// a history of any operations, then equality with the tree built from what should be left
/// params: operations, entries before, shape
#[no_mangle]
pub fn h_eq_ops() {
    let s = shape(2);
    let live0 = live();
    {
        let mut m = s.content(param(1));
        let mut t = tree(&m);
        for _ in 0..param(0) {
            let k = s.key();
            match pick(8) {
                0 => {
                    t.insert(&k, [1u8]);
                    m.insert(&k, &[1u8]);
                }
                1 => {
                    t.insert(&k, []);
                    m.insert(&k, &[]);
                }
                2 => {
                    t.remove(&k);
                    m.remove(&k);
                }
                3 => {
                    t.remove_prefix(&k);
                    m = m.filter(|x, _| !is_prefix(&k, x));
                }
                4 => {
                    t.retain_prefix_with(&RadixTree::single(&k, []), |_| true);
                    m = m.filter(|x, _| is_prefix(&k, x));
                }
                5 => {
                    t = t.filter_prefix(&k, &k);
                    m = m.filter(|x, _| is_prefix(&k, x));
                }
                6 => {
                    t = t.left_combine(&RadixTree::single(&k, []), |_, _| None);
                    m.remove(&k);
                }
                _ => {
                    t.inner_combine_with(&RadixTree::single(&k, []), |_, _| {});
                    m = m.filter(|x, _| eq(&k, x));
                }
            }
        }
        let e = tree(&m);
        check(t == e, "after any history a tree equals the one built from its entries");
        check(t.is_leaf() == e.is_leaf(), "is_leaf depends on the content only");
        check(t.is_empty() == m.0.is_empty(), "is_empty iff no entries");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// params: entries, history, shape
#[no_mangle]
pub fn h_group() {
    let s = shape(2);
    let live0 = live();
    {
        let m = s.content(param(0));
        let t = tree_by(&m, &s, param(1));
        let expect: RefCell<Vec<Map>> = RefCell::new(vec![]);
        let mut got = vec![];
        {
            let (ex, mm) = (&expect, &m);
            for g in t.group_by(|p, _| {
                let descend = pick(2) == 1;
                if descend {
                    if let Some(v) = mm.get(p) {
                        let mut x = Map::new();
                        x.0.push((p.to_vec(), v.clone()));
                        ex.borrow_mut().push(x);
                    }
                } else {
                    ex.borrow_mut().push(mm.filter(|k, _| is_prefix(p, k)));
                }
                descend
            }) {
                got.push(g);
            }
        }
        let ex = expect.into_inner();
        check(got.len() == ex.len(), "one part per node not descended into, and per value passed");
        let mut all = Map::new();
        for i in 0..got.len() {
            let c = content_of(&got[i]);
            check(same(&c, &ex[i]), "a part holds exactly the entries of its node, under full keys");
            all.0.extend(c.0);
        }
        observe_map(&all);
        check(same(&all, &m), "the parts are disjoint, in order, and add up to the tree");
        check_content(&t, &m, "group_by leaves the tree unchanged");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// snapshots. params: entries, shape
#[no_mangle]
pub fn h_snap() {
    let n = param(0);
    let s = shape(1);
    let live0 = live();
    {
        let m = s.content(n);
        let mut t = tree(&m);
        // what is to survive
        let clone = t.clone();
        let keep = pick(4);
        let at = if keep < 3 { pick(n + 1) } else { 0 };
        let q = if keep == 1 { s.key() } else { vec![] };
        let mut it: Option<Box<dyn Iterator<Item = (IterKey, Value)>>> = match keep {
            0 => Some(Box::new(t.iter())),
            1 => match t.try_scan_prefix(&q) {
                Ok(x) => Some(Box::new(x.map(|x| match x {
                    Ok(x) => x,
                    Err(e) => match e {},
                }))),
                Err(e) => match e {},
            },
            _ => None,
        };
        let mut vals: Option<Box<dyn Iterator<Item = Value>>> = if keep == 2 { Some(Box::new(t.values())) } else { None };
        let sel = m.filter(|k, _| is_prefix(&q, k));
        let mut seen = vec![];
        let mut seen_v = vec![];
        for _ in 0..at {
            if let Some(it) = it.as_mut() {
                if let Some(x) = it.next() {
                    seen.push(x);
                }
            }
            if let Some(it) = vals.as_mut() {
                if let Some(x) = it.next() {
                    seen_v.push(x);
                }
            }
        }
        let kept = if keep == 3 && n > 0 { t.get(&m.0[0].0) } else { None };
        // what happens to the original
        let mut m2 = m.clone();
        let k = s.key();
        let early = pick(2) == 1;
        match pick(5) {
            0 => {
                t.insert(&k, [0x55]);
                m2.insert(&k, &[0x55]);
            }
            1 => {
                t.remove(&k);
                m2.remove(&k);
            }
            2 => {
                t.remove_prefix(&k);
                m2 = m2.filter(|x, _| !is_prefix(&k, x));
            }
            3 => {
                // a change of every value
                let u = t.clone();
                t.outer_combine_with(&u, |a, _| a.set(Some(&RadixTree::leaf([0x66]).value().unwrap())));
                for e in m2.0.iter_mut() {
                    e.1 = vec![0x66];
                }
            }
            _ => {
                t.inner_combine_with(&RadixTree::<store::Detached>::default(), |_, _| {});
                m2 = Map::new();
            }
        }
        check_content(&t, &m2, "the original shows the change");
        if early {
            drop(std::mem::take(&mut t));
        }
        if let Some(it) = it {
            for x in it {
                seen.push(x);
            }
            let mut c = Map::new();
            for (k, v) in &seen {
                let k: &[u8] = k.as_ref();
                let v: &[u8] = v.as_ref();
                c.0.push((k.to_vec(), v.to_vec()));
            }
            observe_map(&c);
            check(same(&c, &sel), "an iterator shows the tree as it was when it was made");
        }
        if let Some(it) = vals {
            for x in it {
                seen_v.push(x);
            }
            let mut r = seen_v.len() == m.0.len();
            if r {
                for i in 0..seen_v.len() {
                    r &= eq(seen_v[i].as_ref(), &m.0[i].1);
                }
            }
            check(r, "an iterator over values shows the tree as it was when it was made");
        }
        if let Some(v) = &kept {
            check(eq(v.as_ref(), &m.0[0].1), "a value taken from a tree stays as it was");
        }
        check_content(&clone, &m, "a clone stays as it was");
        // and the other way round
        let mut clone = clone;
        let before = content_of(&t);
        clone.insert(&k, [0x77]);
        check_content(&t, &before, "a change of the clone does not show in the original");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
