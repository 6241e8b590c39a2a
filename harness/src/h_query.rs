use crate::gen::*;
use crate::model::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::*;

/// the tree of m, its entries inserted in a rotated order, after which a key that is
/// not part of m has come and gone (history 1)
#[inline(never)]
pub fn tree_by(m: &Map, s: &Shape, history: usize) -> RadixTree {
    let mut t = RadixTree::default();
    let n = m.0.len();
    let r = if history > 0 { pick(n.max(1)) } else { 0 };
    for i in 0..n {
        let (k, v) = &m.0[(i + r) % n];
        t.insert(k, v);
    }
    if history > 1 {
        let k = s.key();
        assume(m.get(&k).is_none());
        t.insert(&k, [7u8, 7]);
        t.remove(&k);
    }
    t
}

fn entry_is(e: &Option<(Vec<u8>, Value)>, prefix: &[u8], x: Option<&(Bytes, Bytes)>) -> bool {
    match (e, x) {
        (None, None) => true,
        (Some((k, v)), Some((ek, ev))) => {
            k.len() == prefix.len() + ek.len() && eq(&k[..prefix.len()], prefix) & eq(&k[prefix.len()..], ek) & eq(v.as_ref(), ev)
        }
        _ => false,
    }
}
fn value_is(e: &Option<Value>, x: Option<&(Bytes, Bytes)>) -> bool {
    match (e, x) {
        (None, None) => true,
        (Some(v), Some((_, ev))) => eq(v.as_ref(), ev),
        _ => false,
    }
}

/// traversal: params: entries, history, shape
#[no_mangle]
pub fn h_order() {
    let n = param(0);
    let s = shape(2);
    let live0 = live();
    {
        let m = s.content(n);
        let t = tree_by(&m, &s, param(1));
        check_content(&t, &m, "iter yields exactly the entries, in key order");
        let mut i = 0;
        for v in t.values() {
            check(i < m.0.len() && eq(v.as_ref(), &m.0[i].1), "values yields the values in key order");
            i += 1;
        }
        check(i == m.0.len(), "values yields every value");
        check(value_is(&t.first_value(), m.0.first()), "first_value is the value of the smallest key");
        check(value_is(&t.last_value(), m.0.last()), "last_value is the value of the largest key");
        let p = [byte(), 9];
        let pl = pick(2) * 2;
        let p = &p[..pl];
        check(entry_is(&t.first_entry(p.to_vec()), p, m.0.first()), "first_entry is the smallest entry");
        check(entry_is(&t.last_entry(p.to_vec()), p, m.0.last()), "last_entry is the largest entry");
        // an exhausted iterator stays exhausted
        let mut it = t.iter();
        for _ in 0..m.0.len() {
            it.next();
        }
        check(it.next().is_none() && it.next().is_none(), "an iterator ends after the last entry, and stays ended");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// a tree with as many children under one node as there are, or one or two fewer
/// params: number of children, depth of the node (bytes in front), values
#[no_mangle]
pub fn h_wide() {
    let n = param(0);
    let pad = param(1);
    let live0 = live();
    {
        let mut m = Map::new();
        let mut t = RadixTree::default();
        let first = pick(2) * (256 - n);
        for i in 0..n {
            let mut k = vec![b'x'; pad];
            k.push((first + i) as u8);
            m.0.push((k, vec![i as u8]));
        }
        for (k, v) in &m.0 {
            t.insert(k, v);
        }
        let mut q = vec![b'x'; pad];
        if param(2) == 0 {
            q.push(byte());
            let inside = (q[pad] as usize).wrapping_sub(first) < n;
            let g = t.get(&q);
            match &g {
                Some(v) => {
                    check(inside, "get finds only keys that are there");
                    let v: &[u8] = v.as_ref();
                    check(v.len() == 1 && v[0] == q[pad].wrapping_sub(first as u8), "get returns the key's value");
                }
                None => check(!inside, "get finds every key"),
            }
        } else {
            let at = [0, n / 2, n - 1, n, 255][pick(5)];
            q.push((first + at) as u8);
            check(match (t.get(&q), m.get(&q)) { (None, None) => true, (Some(a), Some(b)) => eq(a.as_ref(), b), _ => false }, "get returns the key's value");
            check_content(&t, &m, "iter yields exactly the entries, in key order");
            // the node loses the child, and gets it back
            t.remove(&q);
            m.remove(&q);
            check(!t.contains_key(&q), "a removed key is gone");
            check_content(&t, &m, "the others are left");
            let v = [byte()];
            t.insert(&q, v);
            m.insert(&q, &v);
            check_content(&t, &m, "insert after remove");
            let c = t.filter_prefix(&q[..pad], []);
            let mut fm = Map::new();
            for (k, v) in &m.0 {
                fm.0.push((k[pad..].to_vec(), v.clone()));
            }
            check_content(&c, &fm, "filter_prefix with many children");
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// prefix queries. params: entries, history, longest substitution, shape
#[no_mangle]
pub fn h_prefix() {
    let n = param(0);
    let s = shape(3);
    let live0 = live();
    {
        let m = s.content(n);
        let t = tree_by(&m, &s, param(1));
        let q = s.probe();
        let e = m.filter(|k, _| is_prefix(&q, k));
        let mut c = Map::new();
        for (k, v) in t.scan_prefix(&q) {
            let k: &[u8] = k.as_ref();
            let v: &[u8] = v.as_ref();
            c.0.push((k.to_vec(), v.to_vec()));
        }
        observe_map(&c);
        check(same(&c, &e), "scan_prefix yields exactly the entries with the prefix");
        check(t.has_prefix(&q) == !e.0.is_empty(), "has_prefix iff some key has the prefix");
        let sn = pick(param(2) + 1);
        let mut sub = Vec::new();
        for _ in 0..sn {
            sub.push(byte());
        }
        let f = t.filter_prefix(&q, &sub);
        let mut x = Map::new();
        for (k, v) in &e.0 {
            let mut k2 = sub.clone();
            k2.extend_from_slice(&k[q.len()..]);
            x.0.push((k2, v.clone()));
        }
        check_content(&f, &x, "filter_prefix holds exactly the entries with the prefix, under the substitution");
        check(f.is_empty() == x.0.is_empty(), "filter_prefix is empty iff no key has the prefix");
        check(f == tree(&x), "[C09] filter_prefix gives a tree equal to one built from its entries");
        check_content(&t, &m, "prefix queries leave the tree unchanged");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// params: entries, history, shape
#[no_mangle]
pub fn h_remove_prefix() {
    let n = param(0);
    let s = shape(2);
    let live0 = live();
    {
        let m = s.content(n);
        let mut t = tree_by(&m, &s, param(1));
        let q = s.probe();
        t.remove_prefix(&q);
        let e = m.filter(|k, _| !is_prefix(&q, k));
        check_content(&t, &e, "remove_prefix leaves exactly the entries without the prefix");
        check(t.is_empty() == e.0.is_empty(), "is_empty after remove_prefix");
        check(t == tree(&e), "[C09] remove_prefix leaves a tree equal to one built from its entries");
        // and the tree can be used afterwards
        let k = s.probe();
        let g = t.get(&k);
        match (&g, e.get(&k)) {
            (Some(x), Some(y)) => check(eq(x.as_ref(), y), "get after remove_prefix"),
            (None, None) => {}
            _ => check(false, "get after remove_prefix finds exactly the keys left"),
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
