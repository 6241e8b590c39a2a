//! trees whose nodes live in a store
use crate::gen::*;
use crate::model::*;
use crate::stores::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::store::*;
use radixdb::*;
use std::cell::RefCell;

pub fn opt_is<S: BlobStore>(v: &Option<Value<S>>, x: Option<&Bytes>, s: &S) -> bool {
    match (v, x) {
        (None, None) => true,
        (Some(v), Some(x)) => eq(&load(v, s), x),
        _ => false,
    }
}

fn round<S: BlobStore + Clone>(store: S, m: &Map) {
    let t = tree(m);
    let mut a = ok(t.try_attached(store.clone()), "attaching succeeds");
    check_att(&a, m, "an attached tree holds the entries of the original");
    check(a.is_empty() == m.0.is_empty(), "is_empty of an attached tree");
    let d = ok(a.try_detached(), "detaching succeeds");
    check(d == t, "a detached tree equals the original");
    let id = ok(a.try_reattach(), "reattaching succeeds");
    check_att(&a, m, "a reattached tree holds the entries of the original");
    let mut l = ok(RadixTree::try_load(store.clone(), Some(&id)), "loading succeeds");
    check_att(&l, m, "a loaded tree holds the entries of the original");
    let d = ok(l.try_detached(), "detaching a loaded tree succeeds");
    check(d == t, "a loaded and detached tree equals the original");
    let id2 = ok(l.try_reattach(), "reattaching a loaded tree succeeds");
    let l2 = ok(RadixTree::try_load(store.clone(), Some(&id2)), "loading again succeeds");
    check_att(&l2, m, "a tree persisted twice holds the entries of the original");
    check_content(&t, m, "attaching leaves the original unchanged");
    reach("end");
}
/// params: entries, id length (0: the memory store), shape
#[no_mangle]
pub fn h_attach() {
    let n = param(0);
    let idlen = param(1);
    let s = shape(2);
    let live0 = live();
    {
        let m = s.content(n);
        if idlen == 0 {
            round(MemStore::default(), &m);
        } else {
            round(Store::new(idlen), &m);
        }
    }
    check(live() == live0, "[C24] no memory is leaked");
}
/// n children under one node, with arbitrary bytes at the front of some of the values
/// params: children, id length, tail, value length
#[no_mangle]
pub fn h_attach_wide() {
    let n = param(0);
    let live0 = live();
    {
        let mut m = Map::new();
        for i in 0..n {
            let mut k = vec![i as u8];
            for j in 0..param(2) {
                k.push(j as u8);
            }
            let mut v = vec![i as u8; param(3)];
            if param(3) > 0 && i % 100 == 0 {
                v[0] = byte();
            }
            m.0.push((k, v));
        }
        let store = Store::new(param(1));
        let t = tree(&m);
        let mut a = ok(t.try_attached(store.clone()), "attaching succeeds");
        let id = ok(a.try_reattach(), "reattaching succeeds");
        let l = ok(RadixTree::try_load(store.clone(), Some(&id)), "loading succeeds");
        check_att(&l, &m, "a loaded tree holds the entries of the original");
        let d = ok(l.try_detached(), "detaching a loaded tree succeeds");
        check(d == t, "a loaded and detached tree equals the original");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// a tree with the content of m that lives in the store in the way `how` says:
/// 0 just attached, 1 loaded from its id, 2 one entry (the last) added after that, 3 reattached,
/// 4 never attached but with a store (built by inserts)
#[inline(never)]
pub fn stored(m: &Map, store: &Store, how: usize) -> RadixTree<Store> {
    if how == 4 {
        let mut t = RadixTree::empty(store.clone());
        for (k, v) in &m.0 {
            ok(t.try_insert(k, v), "insert succeeds");
        }
        return t;
    }
    let mut part = m.clone();
    let last = if how == 2 { part.0.pop() } else { None };
    let mut t = ok(tree(&part).try_attached(store.clone()), "attaching succeeds");
    if how >= 1 {
        let id = ok(t.try_reattach(), "reattaching succeeds");
        t = ok(RadixTree::try_load(store.clone(), Some(&id)), "loading succeeds");
    }
    if let Some((k, v)) = last {
        ok(t.try_insert(&k, &v), "insert succeeds");
    }
    if how == 3 {
        ok(t.try_reattach(), "reattaching succeeds");
    }
    t
}

/// queries on an attached tree. params: entries, ways of being stored, id length, shape
#[no_mangle]
pub fn h_att_query() {
    let s = shape(3);
    let live0 = live();
    {
        let m = s.content(param(0));
        let store = Store::new(param(2));
        let t = stored(&m, &store, pick(param(1)));
        let writes = store.inner().writes;
        let q = s.probe();
        match pick(6) {
            0 => {
                let g = ok(t.try_get(&q), "get succeeds");
                check(opt_is(&g, m.get(&q), &store), "get on an attached tree");
                check(ok(t.try_contains_key(&q), "contains_key succeeds") == m.get(&q).is_some(), "contains_key on an attached tree");
            }
            1 => {
                let e = m.filter(|k, _| is_prefix(&q, k));
                check(ok(t.try_has_prefix(&q), "has_prefix succeeds") == !e.0.is_empty(), "has_prefix on an attached tree");
                let mut c = Map::new();
                for x in ok(t.try_scan_prefix(&q), "scan_prefix succeeds") {
                    let (k, v) = ok(x, "iterating succeeds");
                    let k: &[u8] = k.as_ref();
                    c.0.push((k.to_vec(), load(&v, &store)));
                }
                observe_map(&c);
                check(same(&c, &e), "scan_prefix on an attached tree");
            }
            2 => {
                let sub = [byte(), 3];
                let sub = &sub[..pick(2) * 2];
                let f = ok(t.try_filter_prefix(&q, sub), "filter_prefix succeeds");
                let mut x = Map::new();
                for (k, v) in &m.filter(|k, _| is_prefix(&q, k)).0 {
                    let mut k2 = sub.to_vec();
                    k2.extend_from_slice(&k[q.len()..]);
                    x.0.push((k2, v.clone()));
                }
                check_att(&f, &x, "filter_prefix on an attached tree");
            }
            3 => {
                check(opt_is(&ok(t.try_first_value(), "first_value succeeds"), m.0.first().map(|x| &x.1), &store), "first_value on an attached tree");
                check(opt_is(&ok(t.try_last_value(), "last_value succeeds"), m.0.last().map(|x| &x.1), &store), "last_value on an attached tree");
                let f = ok(t.try_first_entry(q.clone()), "first_entry succeeds");
                let l = ok(t.try_last_entry(q.clone()), "last_entry succeeds");
                for (e, x) in [(f, m.0.first()), (l, m.0.last())] {
                    match (e, x) {
                        (None, None) => {}
                        (Some((k, v)), Some((ek, ev))) => {
                            check(k.len() == q.len() + ek.len() && eq(&k[..q.len()], &q) & eq(&k[q.len()..], ek), "key of the first and last entry");
                            check(eq(&load(&v, &store), ev), "value of the first and last entry");
                        }
                        _ => check(false, "first and last entry are there iff there are entries"),
                    }
                }
            }
            4 => {
                let expect: RefCell<Vec<Map>> = RefCell::new(vec![]);
                let (ex, mm) = (&expect, &m);
                let mut got = vec![];
                for g in t.try_group_by(|p, _| {
                    let descend = pick(2) == 1;
                    if !descend {
                        ex.borrow_mut().push(mm.filter(|k, _| is_prefix(p, k)));
                    } else if let Some(v) = mm.get(p) {
                        let mut x = Map::new();
                        x.0.push((p.to_vec(), v.clone()));
                        ex.borrow_mut().push(x);
                    }
                    Ok(descend)
                }) {
                    got.push(ok(g, "grouping succeeds"));
                }
                let ex = expect.into_inner();
                check(got.len() == ex.len(), "one part per node not descended into, and per value passed, on an attached tree");
                for i in 0..got.len() {
                    check_att(&got[i], &ex[i], "a part of an attached tree holds exactly the entries of its node, under full keys");
                }
                let n: usize = ex.iter().map(|x| x.0.len()).sum();
                check(n == m.0.len(), "the parts of an attached tree add up to it");
            }
            _ => {
                check_att(&t, &m, "iter on an attached tree");
                let mut i = 0;
                for v in t.try_values() {
                    let v = ok(v, "iterating succeeds");
                    check(i < m.0.len() && eq(&load(&v, &store), &m.0[i].1), "values on an attached tree");
                    i += 1;
                }
                check(i == m.0.len(), "values on an attached tree yields every value");
                let d = ok(t.try_detached(), "detaching succeeds");
                check(d == tree(&m), "detaching gives the original");
            }
        }
        check(store.inner().writes == writes, "[C15] queries write nothing");
        check(store.inner().stray == 0, "only ids that the store gave out are read");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// a change of an attached tree, maybe persisted, then another
/// params: entries, ways of being stored, id length, changes, shape
#[no_mangle]
pub fn h_att_change() {
    let s = shape(4);
    let live0 = live();
    {
        let mut m = s.content(param(0));
        let store = Store::new(param(2));
        let mut t = stored(&m, &store, pick(param(1)));
        for i in 0..param(3) {
            let k = s.probe();
            match pick(3) {
                0 => {
                    let v = s.value();
                    ok(t.try_insert(&k, &v), "insert succeeds");
                    m.insert(&k, &v);
                }
                1 => {
                    ok(t.try_remove(&k), "remove succeeds");
                    m.remove(&k);
                }
                _ => {
                    ok(t.try_remove_prefix(&k), "remove_prefix succeeds");
                    m = m.filter(|x, _| !is_prefix(&k, x));
                }
            }
            if i + 1 < param(3) && pick(2) == 1 {
                ok(t.try_reattach(), "reattaching succeeds");
            }
        }
        check_att(&t, &m, "a changed attached tree holds the right entries");
        check(t.is_empty() == m.0.is_empty(), "is_empty of a changed attached tree");
        let d = ok(t.try_detached(), "detaching succeeds");
        check(d == tree(&m), "detaching a changed attached tree gives the tree built from its entries");
        let id = ok(t.try_reattach(), "reattaching succeeds");
        let l = ok(RadixTree::try_load(store.clone(), Some(&id)), "loading succeeds");
        check_att(&l, &m, "persisting the changes keeps the entries");
        check(store.inner().stray == 0, "only ids that the store gave out are read");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// a node with many children that lives in the store, with no child for the bytes from `gap` on
/// params: children, gap, id length, way of being stored, what (0 lookups, 1 traversal, 2 changes), bytes in front
#[no_mangle]
pub fn h_att_wide() {
    let (n, gap, pad) = (param(0), param(1), param(5));
    let live0 = live();
    {
        let byte_of = |i: usize| if i < gap { i } else { i + 256 - n };
        let has = |b: usize| b < gap || b >= gap + 256 - n;
        let mut m = Map::new();
        for i in 0..n {
            let mut k = vec![b'x'; pad];
            k.push(byte_of(i) as u8);
            m.0.push((k, vec![byte_of(i) as u8]));
        }
        let store = Store::new(param(2));
        let mut t = stored(&m, &store, param(3));
        match param(4) {
            0 => {
                let b = byte();
                let mut q = vec![b'x'; pad];
                q.push(b);
                let inside = (b as usize) < gap || b as usize >= gap + 256 - n;
                check(ok(t.try_contains_key(&q), "contains_key succeeds") == inside, "contains_key on an attached tree");
                check(ok(t.try_has_prefix(&q), "has_prefix succeeds") == inside, "has_prefix on an attached tree");
                match ok(t.try_get(&q), "get succeeds") {
                    Some(v) => {
                        let v = load(&v, &store);
                        check(inside && v.len() == 1 && v[0] == b, "get on an attached tree");
                    }
                    None => check(!inside, "get on an attached tree"),
                }
                q.push(1);
                check(!ok(t.try_contains_key(&q), "contains_key succeeds"), "contains_key on an attached tree");
                check(!ok(t.try_has_prefix(&q), "has_prefix succeeds"), "has_prefix on an attached tree");
            }
            w => {
                let edge = [0, gap.wrapping_sub(1) & 255, gap & 255, (gap + 255 - n) & 255, (gap + 256 - n) & 255, 255];
                let b = edge[pick(6)];
                let mut q = vec![b'x'; pad];
                q.push(b as u8);
                if w == 1 {
                    let e = m.filter(|k, _| k[pad] == b as u8);
                    let f = ok(t.try_filter_prefix(&q, &[1u8]), "filter_prefix succeeds");
                    let mut x = Map::new();
                    for (_, v) in &e.0 {
                        x.0.push((vec![1], v.clone()));
                    }
                    check_att(&f, &x, "filter_prefix on an attached tree");
                    let mut c = 0;
                    for y in ok(t.try_scan_prefix(&q), "scan_prefix succeeds") {
                        let (k, v) = ok(y, "iterating succeeds");
                        let k: &[u8] = k.as_ref();
                        check(eq(k, &q) && eq(&load(&v, &store), &[b as u8]), "scan_prefix on an attached tree");
                        c += 1;
                    }
                    check(c == has(b) as usize, "scan_prefix on an attached tree");
                    check(opt_is(&ok(t.try_first_value(), "first_value succeeds"), m.0.first().map(|x| &x.1), &store), "first_value on an attached tree");
                    check(opt_is(&ok(t.try_last_value(), "last_value succeeds"), m.0.last().map(|x| &x.1), &store), "last_value on an attached tree");
                    check_att(&t, &m, "iter on an attached tree");
                } else {
                    match pick(3) {
                        0 => {
                            ok(t.try_insert(&q, &[0xeeu8]), "insert succeeds");
                            m.insert(&q, &[0xee]);
                        }
                        1 => {
                            ok(t.try_remove(&q), "remove succeeds");
                            m.remove(&q);
                        }
                        _ => {
                            ok(t.try_remove_prefix(&q), "remove_prefix succeeds");
                            m = m.filter(|k, _| k[pad] != b as u8);
                        }
                    }
                    check_att(&t, &m, "a changed attached tree holds the right entries");
                    let id = ok(t.try_reattach(), "reattaching succeeds");
                    let l = ok(RadixTree::try_load(store.clone(), Some(&id)), "loading succeeds");
                    check_att(&l, &m, "persisting the changes keeps the entries");
                }
            }
        }
        check(store.inner().stray == 0, "only ids that the store gave out are read");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
