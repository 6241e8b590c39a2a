//! building from lists, combinations of wide nodes, snapshots of attached trees
use crate::gen::*;
use crate::h_att::{opt_is, stored};
use crate::h_comb::*;
use crate::model::*;
use crate::stores::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::*;

/// building a tree from a list in which keys may repeat, in any order
/// params: entries, shape
#[no_mangle]
pub fn h_list() {
    let n = param(0);
    let s = shape(1);
    let live0 = live();
    {
        let mut l: Vec<(Bytes, Bytes)> = vec![];
        let mut m = Map::new();
        for _ in 0..n {
            let (k, v) = (s.key(), s.value());
            m.insert(&k, &v);
            l.push((k, v));
        }
        let t: RadixTree = match pick(3) {
            0 => l.iter().map(|(k, v)| (k.as_slice(), v.as_slice())).collect(),
            1 => l.clone().into_iter().collect(),
            _ => RadixTree::from_iter(l.iter().map(|(k, v)| (k, v.clone()))),
        };
        check_content(&t, &m, "a tree made from a list holds the last value of each key");
        let q = s.probe();
        let g = t.get(&q);
        check(g.is_some() == m.get(&q).is_some(), "lookup in a tree made from a list");
        if let (Some(g), Some(e)) = (g, m.get(&q)) {
            check(eq(g.as_ref(), e), "lookup in a tree made from a list");
        }
        if n > 0 {
            let (k, v) = &l[0];
            let mut m1 = Map::new();
            m1.insert(k, v);
            check_content(&RadixTree::single(k, v), &m1, "a tree made from one entry holds it");
            let (k2, v2) = (s.key(), [1u8, 2]);
            let u = radixtree! { k => v, k2 => v2 };
            m1.insert(&k2, &v2);
            check_content(&u, &m1, "a tree made by the macro holds its entries");
            m1.0.truncate(1);
            m1.0[0].1 = v.clone();
            m1.0[0].0 = vec![];
            check_content(&RadixTree::leaf(v), &m1, "a leaf holds its value under the empty key");
        }
        check_content(&RadixTree::default(), &Map::new(), "the default tree is empty");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// children of two trees: `n` of them from `first` on, `step` apart
fn wide(n: usize, first: usize, step: usize, pad: usize, below: usize, base: u8) -> Map {
    let mut m = Map::new();
    for i in 0..n {
        let b = (first + i * step) as u8;
        for j in 0..below.max(1) {
            let mut k = vec![b'x'; pad];
            k.push(b);
            if below > 0 {
                k.push(j as u8);
            }
            m.0.push((k, vec![base, b, j as u8]));
        }
    }
    m
}
/// combinations of nodes with many children; what happens on a collision depends on the byte,
/// what happens on some of them is arbitrary
/// params: op (0 outer, 1 inner, 2 left, 3 predicates, 4 by prefixes), n, first, step of either side, entries below each child, bytes in front,
/// where (0 in memory, 1 left stored, 2 right stored, 3 both stored)
#[no_mangle]
pub fn h_comb_wide() {
    let mut m1 = wide(param(1), param(2), param(3), param(8), param(7), 1);
    let mut m2 = wide(param(4), param(5), param(6), param(8), param(7), 2);
    // leave one out
    for (m, p) in [(&mut m1, 10), (&mut m2, 11)] {
        if param(p) > 0 {
            m.0.remove(param(p) - 1);
        }
    }
    comb_wide(param(0), m1, m2, param(9), true);
}
/// the same with any `n` and `k` children
/// params: op, n, k, bytes behind, where
#[no_mangle]
pub fn h_any_comb_wide() {
    let any = |n: usize, base: u8| {
        let mut m = Map::new();
        for i in 0..n {
            let mut k = vec![byte()];
            if i > 0 {
                assume(m.0[i - 1].0[0] < k[0]);
            }
            k.extend(vec![b'y'; param(3)]);
            m.0.push((k, vec![base, i as u8, 0]));
        }
        m
    };
    let (m1, m2) = (any(param(1), 1), any(param(2), 2));
    comb_wide(param(0), m1, m2, param(4), false);
}
#[inline(never)]
fn comb_wide(op: usize, m1: Map, m2: Map, at: usize, same_tag: bool) {
    let live0 = live();
    {
        let store = Store::new(8);
        let (a, b);
        let (ml, mr) = (at & 1, at & 2);
        a = if ml > 0 { stored(&m1, &store, 1) } else { stored(&m1, &store, 4) };
        b = if mr > 0 { stored(&m2, &store, 1) } else { stored(&m2, &store, 4) };
        // drop every second, and one of a choice
        let kind = pick(3);
        let ats = if same_tag { [0usize, 1, 40, 254, 255] } else { [0usize, 1, 5, 5, 5] };
        let at = if kind == 0 { 0 } else { ats[pick(if same_tag { 5 } else { 3 })] };
        let what = |k: &[u8]| {
            let b = k[1] as usize;
            let on = match kind {
                0 => b % 2 == 0,
                1 => b == at,
                _ => b != at,
            };
            if on {
                DROP
            } else if b % 3 == 0 {
                KEEP_A
            } else {
                TAKE_B
            }
        };
        let mut e = Map::new();
        let (mut inner, mut left) = (false, false);
        for (k, x, y) in join(&m1, &m2) {
            let v = match (x, y) {
                (Some(x), Some(y)) => {
                    inner |= what(x) == DROP;
                    left |= what(x) == DROP;
                    match what(x) {
                        KEEP_A => Some(x.clone()),
                        TAKE_B => Some(y.clone()),
                        _ => None,
                    }
                }
                (Some(x), None) => {
                    left = true;
                    if op != 1 {
                        Some(x.clone())
                    } else {
                        None
                    }
                }
                (None, Some(y)) if op == 0 => Some(y.clone()),
                _ => None,
            };
            if let Some(v) = v {
                e.0.push((k.to_vec(), v));
            }
        }
        let st = &store;
        match op {
            0..=2 => {
                let f = |x: &ValueRef<Store>, y: &ValueRef<Store>| -> Result<Option<Value>, Error> {
                    let (x, y) = (load(&x.to_owned(), st), load(&y.to_owned(), st));
                    check((!same_tag || x[1..] == y[1..]) && x[0] == 1 && y[0] == 2, "the function is asked for values of the same key, left first");
                    Ok(match what(&x) {
                        KEEP_A => Some(RadixTree::single(b"", &x).value().unwrap().to_owned()),
                        TAKE_B => Some(RadixTree::single(b"", &y).value().unwrap().to_owned()),
                        _ => None,
                    })
                };
                let r = ok(
                    match op {
                        0 => a.try_outer_combine::<Store, Error, _>(&b, f),
                        1 => a.try_inner_combine::<Store, Error, _>(&b, f),
                        _ => a.try_left_combine::<Store, Error, _>(&b, f),
                    },
                    "a combination succeeds",
                );
                check_content(&r, &e, "a combination of wide nodes holds exactly the right entries");
                let mut i = a.clone();
                let g = |x: &mut Value<Store>, y: &ValueRef<Store>| -> Result<(), Error> {
                    match what(&load(x, st)) {
                        KEEP_A => {}
                        TAKE_B => x.set(Some(y)),
                        _ => x.set(None),
                    }
                    Ok(())
                };
                ok(
                    match op {
                        0 => i.try_outer_combine_with(&b, IdentityConverter, g),
                        1 => i.try_inner_combine_with(&b, IdentityConverter, g),
                        _ => i.try_left_combine_with(&b, IdentityConverter, g),
                    },
                    "an in-place combination succeeds",
                );
                check_att(&i, &e, "an in-place combination of wide nodes holds exactly the right entries");
                check(ok(i.try_detached(), "detaching succeeds") == r, "an in-place combination of wide nodes equals the other one");
            }
            3 => {
                let f = |x: &ValueRef<Store>, _: &ValueRef<Store>| -> Result<bool, Error> { Ok(what(&load(&x.to_owned(), st)) == DROP) };
                check(ok(a.try_inner_combine_pred::<Store, Error, _>(&b, f), "inner_combine_pred succeeds") == inner, "[C06] inner_combine_pred on wide nodes");
                check(ok(a.try_left_combine_pred::<Store, Error, _>(&b, f), "left_combine_pred succeeds") == left, "[C07] left_combine_pred on wide nodes");
            }
            _ => {
                let f = |x: &ValueRef<Store>| -> Result<bool, Error> { Ok(what(&load(&x.to_owned(), st)) == DROP) };
                let on = |k: &[u8]| m2.0.iter().any(|(p, v)| what(v) == DROP && k.len() >= p.len() && k[..p.len()] == p[..]);
                let (keep, rest) = (m1.filter(|k, _| on(k)), m1.filter(|k, _| !on(k)));
                let mut i = a.clone();
                ok(i.try_retain_prefix_with(&b, f), "retain_prefix_with succeeds");
                check_att(&i, &keep, "retain_prefix_with on wide nodes");
                let mut i = a.clone();
                ok(i.try_remove_prefix_with(&b, f), "remove_prefix_with succeeds");
                check_att(&i, &rest, "remove_prefix_with on wide nodes");
            }
        }
        check_att(&a, &m1, "the left tree is unchanged");
        check_att(&b, &m2, "the right tree is unchanged");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// snapshots of trees with nodes in a store. params: entries, ways of being stored, shape
#[no_mangle]
pub fn h_att_snap() {
    let s = shape(2);
    let live0 = live();
    {
        let m = s.content(param(0));
        let store = Store::new(8);
        let mut t = stored(&m, &store, pick(param(1)));
        let clone = t.clone();
        let keep = pick(4);
        let q = if keep == 1 { s.key() } else { vec![] };
        let sel = m.filter(|k, _| is_prefix(&q, k));
        let mut it: Option<Box<dyn Iterator<Item = _>>> = match keep {
            0 => Some(Box::new(t.try_iter())),
            1 => Some(Box::new(ok(t.try_scan_prefix(&q), "scan_prefix succeeds"))),
            _ => None,
        };
        let mut seen = Map::new();
        let mut take = |x: Result<(IterKey, Value<Store>), Error>, seen: &mut Map| {
            let (k, v) = ok(x, "iterating succeeds");
            let k: &[u8] = k.as_ref();
            seen.0.push((k.to_vec(), load(&v, &store)));
        };
        if let Some(it) = it.as_mut() {
            if pick(2) == 1 {
                if let Some(x) = it.next() {
                    take(x, &mut seen);
                }
            }
        }
        let part = if keep == 2 { Some(ok(t.try_filter_prefix(&q, &[7u8]), "filter_prefix succeeds")) } else { None };
        let val = if keep == 3 && !m.0.is_empty() { ok(t.try_get(&m.0[0].0), "get succeeds") } else { None };
        let mut m2 = m.clone();
        let k = s.key();
        match pick(5) {
            0 => {
                ok(t.try_insert(&k, &[0x55u8]), "insert succeeds");
                m2.insert(&k, &[0x55]);
            }
            1 => {
                ok(t.try_remove(&k), "remove succeeds");
                m2.remove(&k);
            }
            2 => {
                ok(t.try_remove_prefix(&k), "remove_prefix succeeds");
                m2 = m2.filter(|x, _| !is_prefix(&k, x));
            }
            3 => {
                let u = t.clone();
                let leaf = RadixTree::leaf([0x66u8]);
                let l = &leaf;
                ok(
                    t.try_outer_combine_with(&u, IdentityConverter, |a: &mut Value<Store>, _: &ValueRef<Store>| {
                        a.set(Some(l.value().unwrap().downcast()));
                        Ok(())
                    }),
                    "an in-place combination succeeds",
                );
                for e in m2.0.iter_mut() {
                    e.1 = vec![0x66];
                }
            }
            _ => {
                ok(t.try_reattach(), "reattaching succeeds");
            }
        }
        check_att(&t, &m2, "the original shows the change");
        if pick(2) == 1 {
            drop(std::mem::replace(&mut t, RadixTree::empty(store.clone())));
        }
        if let Some(it) = it {
            for x in it {
                take(x, &mut seen);
            }
            observe_map(&seen);
            check(same(&seen, &sel), "an iterator shows the tree as it was when it was made");
        }
        if let Some(p) = &part {
            let mut x = Map::new();
            for (k, v) in &m.0 {
                let mut k2 = vec![7];
                k2.extend_from_slice(k);
                x.0.push((k2, v.clone()));
            }
            check_att(p, &x, "a filtered tree stays as it was");
        }
        if let Some(v) = &val {
            check(eq(&load(v, &store), &m.0[0].1), "a value taken from a tree stays as it was");
        }
        check_att(&clone, &m, "a clone stays as it was");
        let mut clone = clone;
        let before = if t.is_empty() { Map::new() } else { m2 };
        ok(clone.try_insert(&k, &[0x77u8]), "insert succeeds");
        ok(clone.try_reattach(), "reattaching succeeds");
        check_att(&t, &before, "a change of the clone does not show in the original");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// a node with any `n` children: their bytes are arbitrary, in ascending order
/// params: children, bytes in front, where (0 in memory, 1.. as in `stored`, one less), bytes behind, what (0 queries, 1 changes)
#[no_mangle]
pub fn h_any_wide() {
    let live0 = live();
    {
        let (n, pad, behind) = (param(0), param(1), param(3));
        let mut m = Map::new();
        for i in 0..n {
            let mut k = vec![b'x'; pad];
            k.push(byte());
            if i > 0 {
                assume(m.0[i - 1].0[pad] < k[pad]);
            }
            k.extend(vec![b'y'; behind]);
            m.0.push((k, vec![i as u8; 1 + i % 3]));
        }
        let mut q = vec![b'x'; pad];
        q.push(byte());
        q.extend(vec![b'y'; behind]);
        let cut = &q[..pad + 1];
        let only = m.filter(|k, _| is_prefix(cut, k));
        if param(2) == 0 {
            let mut t = tree(&m);
            if param(4) == 0 {
                match (t.get(&q), m.get(&q)) {
                    (None, None) => {}
                    (Some(a), Some(b)) => check(eq(a.as_ref(), b), "get returns the key's value"),
                    _ => check(false, "get finds exactly the keys that are there"),
                }
                check(t.contains_key(&q) == m.get(&q).is_some(), "contains_key among any children");
                check(t.has_prefix(cut) == !only.0.is_empty(), "has_prefix among any children");
                let mut c = Map::new();
                for (k, v) in t.scan_prefix(cut) {
                    let (k, v): (&[u8], &[u8]) = (k.as_ref(), v.as_ref());
                    c.0.push((k.to_vec(), v.to_vec()));
                }
                check(same(&c, &only), "scan_prefix among any children");
                let mut f = Map::new();
                for (k, v) in &only.0 {
                    f.0.push((k[pad + 1..].to_vec(), v.clone()));
                }
                check_content(&t.filter_prefix(cut, []), &f, "filter_prefix among any children");
            } else {
                match pick(3) {
                    0 => {
                        let v = [byte(), 7];
                        t.insert(&q, v);
                        m.insert(&q, &v);
                    }
                    1 => {
                        t.remove(&q);
                        m.remove(&q);
                    }
                    _ => {
                        t.remove_prefix(cut);
                        m = m.filter(|k, _| !is_prefix(cut, k));
                    }
                }
                check_content(&t, &m, "a change among any children");
                check(t == tree(&m), "a change among any children gives the tree made from its entries");
            }
        } else {
            let store = Store::new(8);
            let mut t = stored(&m, &store, param(2) - 1);
            if param(4) == 0 {
                check(opt_is(&ok(t.try_get(&q), "get succeeds"), m.get(&q), &store), "get among any stored children");
                check(ok(t.try_contains_key(&q), "contains_key succeeds") == m.get(&q).is_some(), "contains_key among any stored children");
                check(ok(t.try_has_prefix(cut), "has_prefix succeeds") == !only.0.is_empty(), "has_prefix among any stored children");
                let mut c = Map::new();
                for x in ok(t.try_scan_prefix(cut), "scan_prefix succeeds") {
                    let (k, v) = ok(x, "iterating succeeds");
                    let k: &[u8] = k.as_ref();
                    c.0.push((k.to_vec(), load(&v, &store)));
                }
                check(same(&c, &only), "scan_prefix among any stored children");
                let mut f = Map::new();
                for (k, v) in &only.0 {
                    f.0.push((k[pad + 1..].to_vec(), v.clone()));
                }
                check_att(&ok(t.try_filter_prefix(cut, []), "filter_prefix succeeds"), &f, "filter_prefix among any stored children");
                check(opt_is(&ok(t.try_last_value(), "last_value succeeds"), m.0.last().map(|x| &x.1), &store), "last_value among any stored children");
            } else {
                match pick(3) {
                    0 => {
                        let v = [byte(), 7];
                        ok(t.try_insert(&q, v), "insert succeeds");
                        m.insert(&q, &v);
                    }
                    1 => {
                        ok(t.try_remove(&q), "remove succeeds");
                        m.remove(&q);
                    }
                    _ => {
                        ok(t.try_remove_prefix(cut), "remove_prefix succeeds");
                        m = m.filter(|k, _| !is_prefix(cut, k));
                    }
                }
                check_att(&t, &m, "a change among any stored children");
                check(ok(t.try_detached(), "detaching succeeds") == tree(&m), "a change among any stored children gives the tree made from its entries");
            }
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
