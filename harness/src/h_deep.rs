//! trees with hundreds of levels
use crate::gen::*;
use crate::h_att::{opt_is, stored};
use crate::model::*;
use crate::stores::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::*;

fn path(n: usize) -> Bytes {
    (0..n).map(|i| (i * 7 + i / 256) as u8).collect()
}
/// an entry at every `step`-th level, and now and then one to the side
fn chain(n: usize, step: usize, side: usize, base: u8) -> Map {
    let p = path(n);
    let mut m = Map::new();
    let mut up = vec![];
    for i in 0..=n {
        if i % step == 0 {
            m.0.push((p[..i].to_vec(), vec![base, i as u8, (i / 256) as u8]));
        }
        if side > 0 && i % side == 0 && i < n && p[i] < 255 {
            let mut k = p[..i].to_vec();
            k.push(255);
            up.push((k, vec![base, 255, (i / side) as u8]));
        }
    }
    // what is to the side comes after everything below
    up.reverse();
    m.0.extend(up);
    m
}

/// params: levels, levels between entries, levels between entries to the side, where (0 in memory, else as in `stored`, plus one), what
#[no_mangle]
pub fn h_deep_many() {
    let live0 = live();
    {
        let n = param(0);
        let m = chain(n, param(1), param(2), 1);
        let store = Store::new(8);
        let st = &store;
        let p = path(n);
        // a place on the path, and an arbitrary byte there
        let mut at = || {
            let lens = [1, 128, 256, 257, n];
            let l = lens[pick(lens.len())].min(n);
            let mut q = p[..l - 1].to_vec();
            q.push(byte());
            q
        };
        let what = param(4);
        if param(3) == 0 {
            let mut t = tree(&m);
            match what {
                0 => {
                    let q = at();
                    let g = t.get(&q);
                    check(g.is_some() == m.get(&q).is_some(), "get in a deep tree");
                    if let (Some(g), Some(e)) = (&g, m.get(&q)) {
                        check(eq(g.as_ref(), e), "get in a deep tree");
                    }
                    let e = m.filter(|k, _| is_prefix(&q, k));
                    check(t.has_prefix(&q) == !e.0.is_empty(), "has_prefix in a deep tree");
                    let mut c = Map::new();
                    for (k, v) in t.scan_prefix(&q) {
                        let (k, v): (&[u8], &[u8]) = (k.as_ref(), v.as_ref());
                        c.0.push((k.to_vec(), v.to_vec()));
                    }
                    check(same(&c, &e), "scan_prefix in a deep tree");
                    let mut f = Map::new();
                    for (k, v) in &e.0 {
                        f.0.push((k[q.len()..].to_vec(), v.clone()));
                    }
                    check_content(&t.filter_prefix(&q, []), &f, "filter_prefix in a deep tree");
                }
                1 => {
                    check_content(&t, &m, "iter over a deep tree");
                    let mut i = 0;
                    for v in t.values() {
                        check(i < m.0.len() && eq(v.as_ref(), &m.0[i].1), "values of a deep tree");
                        i += 1;
                    }
                    check(i == m.0.len(), "values of a deep tree");
                    for (x, y) in [(t.first_entry(vec![]), m.0.first()), (t.last_entry(vec![]), m.0.last())] {
                        let ((k, v), (ek, ev)) = (x.unwrap(), y.unwrap());
                        check(eq(&k, ek) && eq(v.as_ref(), ev), "first and last entry of a deep tree");
                    }
                    check(t == tree(&m) && t == t.clone(), "equality of deep trees");
                    drop(t.iter().next());
                }
                2 => {
                    let q = at();
                    let mut i = t.clone();
                    match pick(3) {
                        0 => {
                            i.insert(&q, [9u8]);
                            let mut e = m.clone();
                            e.insert(&q, &[9]);
                            check_content(&i, &e, "insert into a deep tree");
                        }
                        1 => {
                            i.remove(&q);
                            let mut e = m.clone();
                            e.remove(&q);
                            check_content(&i, &e, "remove from a deep tree");
                        }
                        _ => {
                            i.remove_prefix(&q);
                            check_content(&i, &m.filter(|k, _| !is_prefix(&q, k)), "remove_prefix on a deep tree");
                        }
                    }
                    check_content(&t, &m, "[C11] the clone is unchanged");
                }
                3 => {
                    let d = [0, 1, 255, 256, 257, n + 1][pick(6)];
                    let mut all = Map::new();
                    for g in t.group_by(|k, _| k.len() < d) {
                        let c = content_of(&g);
                        check(c.0.len() == 1 || c.0.iter().all(|(k, _)| k.len() + 1 >= d), "a part of a deep tree");
                        all.0.extend(c.0);
                    }
                    check(same(&all, &m), "the parts of a deep tree add up to it");
                }
                _ => {
                    let m2 = chain(n - pick(2) * 40, param(1) + 1, param(2), 2);
                    let u = tree(&m2);
                    let rule = pick(3);
                    let (mut e, mut left) = (Map::new(), false);
                    let mut common = false;
                    let op = pick(3);
                    for (k, x, y) in join(&m, &m2) {
                        let v = match (x, y) {
                            (Some(x), Some(y)) => {
                                common = true;
                                match rule {
                                    0 => Some(x.clone()),
                                    1 => Some(y.clone()),
                                    _ => None,
                                }
                            }
                            (Some(x), None) => {
                                left = true;
                                if op != 1 {
                                    Some(x.clone())
                                } else {
                                    None
                                }
                            }
                            (None, y) => {
                                if op == 0 {
                                    y.cloned()
                                } else {
                                    None
                                }
                            }
                            _ => None,
                        };
                        if let Some(v) = v {
                            e.0.push((k.to_vec(), v));
                        }
                    }
                    let f = |x: &ValueRef, y: &ValueRef| match rule {
                        0 => Some(x.to_owned()),
                        1 => Some(y.to_owned()),
                        _ => None,
                    };
                    let g = |x: &mut Value, y: &ValueRef| match rule {
                        0 => {}
                        1 => x.set(Some(y)),
                        _ => x.set(None),
                    };
                    let r = match op {
                        0 => t.outer_combine(&u, f),
                        1 => t.inner_combine(&u, f),
                        _ => t.left_combine(&u, f),
                    };
                    check_content(&r, &e, "a combination of deep trees");
                    check(t.inner_combine_pred(&u, |_, _| true) == common, "inner_combine_pred on deep trees");
                    check(t.left_combine_pred(&u, |_, _| false) == left, "left_combine_pred on deep trees");
                    let mut a = t.clone();
                    match op {
                        0 => a.outer_combine_with(&u, g),
                        1 => a.inner_combine_with(&u, g),
                        _ => a.left_combine_with(&u, g),
                    }
                    check(a == r, "an in-place combination of deep trees");
                    let deep = |v: &ValueRef| {
                        let v = v.to_owned();
                        let v: &[u8] = v.as_ref();
                        v[1] != 255 && v[1] as usize + 256 * v[2] as usize > n / 2
                    };
                    let on = |k: &[u8]| m2.0.iter().any(|(p, v)| v[1] != 255 && v[1] as usize + 256 * v[2] as usize > n / 2 && k.len() >= p.len() && k[..p.len()] == p[..]);
                    let mut a = t.clone();
                    a.retain_prefix_with(&u, deep);
                    check_content(&a, &m.filter(|k, _| on(k)), "retain_prefix_with on deep trees");
                    t.remove_prefix_with(&u, deep);
                    check_content(&t, &m.filter(|k, _| !on(k)), "remove_prefix_with on deep trees");
                }
            }
        } else {
            let mut t = stored(&m, st, param(3) - 1);
            match what {
                0 => {
                    let q = at();
                    check(opt_is(&ok(t.try_get(&q), "get succeeds"), m.get(&q), st), "get in a deep tree");
                    let e = m.filter(|k, _| is_prefix(&q, k));
                    check(ok(t.try_has_prefix(&q), "has_prefix succeeds") == !e.0.is_empty(), "has_prefix in a deep tree");
                    let mut c = Map::new();
                    for x in ok(t.try_scan_prefix(&q), "scan_prefix succeeds") {
                        let (k, v) = ok(x, "iterating succeeds");
                        let k: &[u8] = k.as_ref();
                        c.0.push((k.to_vec(), load(&v, st)));
                    }
                    check(same(&c, &e), "scan_prefix in a deep tree");
                    let mut f = Map::new();
                    for (k, v) in &e.0 {
                        f.0.push((k[q.len()..].to_vec(), v.clone()));
                    }
                    check_att(&ok(t.try_filter_prefix(&q, []), "filter_prefix succeeds"), &f, "filter_prefix in a deep tree");
                }
                1 => {
                    check_att(&t, &m, "iter over a deep tree");
                    check(opt_is(&ok(t.try_last_value(), "last_value succeeds"), m.0.last().map(|x| &x.1), st), "last_value of a deep tree");
                    check(opt_is(&ok(t.try_first_value(), "first_value succeeds"), m.0.first().map(|x| &x.1), st), "first_value of a deep tree");
                    let d = ok(t.try_detached(), "detaching succeeds");
                    check(d == tree(&m), "a deep tree comes back from the store as it was");
                }
                2 => {
                    let q = at();
                    let mut e = m.clone();
                    match pick(3) {
                        0 => {
                            ok(t.try_insert(&q, [9u8]), "insert succeeds");
                            e.insert(&q, &[9]);
                        }
                        1 => {
                            ok(t.try_remove(&q), "remove succeeds");
                            e.remove(&q);
                        }
                        _ => {
                            ok(t.try_remove_prefix(&q), "remove_prefix succeeds");
                            e = m.filter(|k, _| !is_prefix(&q, k));
                        }
                    }
                    check_att(&t, &e, "a change of a deep tree");
                    let id = ok(t.try_reattach(), "reattaching succeeds");
                    let l = ok(RadixTree::try_load(store.clone(), Some(&id)), "loading succeeds");
                    check_att(&l, &e, "a deep tree that was changed, persisted and loaded");
                }
                _ => {
                    let d = [0, 1, 255, 256, 257, n + 1][pick(6)];
                    let mut all = Map::new();
                    for g in t.try_group_by(|k, _| Ok(k.len() < d)) {
                        all.0.extend(att_content(&ok(g, "grouping succeeds")).0);
                    }
                    check(same(&all, &m), "the parts of a deep tree add up to it");
                }
            }
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
