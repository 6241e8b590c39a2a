//! stores that fail once
use crate::gen::*;
use crate::h_att::stored;
use crate::model::*;
use crate::stores::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::store::*;
use radixdb::*;

/// the store fails at some access from now on, or not at all
fn arm(store: &Store, n: usize) {
    let s = store.inner();
    s.failed = 0;
    s.fail_at = s.accesses + pick(n);
}
fn disarm(store: &Store) -> bool {
    store.inner().fail_at = NEVER;
    store.inner().failed > 0
}
/// an error is reported if and only if the store failed, and it is that error
fn outcome<T>(r: Result<T, Error>, store: &Store) -> Option<T> {
    let failed = disarm(store);
    observe(failed as u64);
    match r {
        Ok(x) => {
            check(!failed, "an operation that could not be carried out is not reported as a success");
            Some(x)
        }
        Err(e) => {
            check(failed, "an operation fails only if the store does");
            check(matches!(e, Error::Fault), "the error of the store is the error of the operation");
            drop(e);
            None
        }
    }
}
fn opt_is(v: &Option<Value<Store>>, x: Option<&Bytes>, s: &Store) -> bool {
    match (v, x) {
        (None, None) => true,
        (Some(v), Some(x)) => eq(&load(v, s), x),
        _ => false,
    }
}
/// the entries up to the first error, after which there is nothing
fn entries<K: AsRef<[u8]>>(i: impl Iterator<Item = Result<(K, Value<Store>), Error>>) -> (Vec<(Bytes, Value<Store>)>, bool) {
    let mut r = vec![];
    let mut i = i;
    loop {
        match i.next() {
            None => return (r, false),
            Some(Ok((k, v))) => r.push((k.as_ref().to_vec(), v)),
            Some(Err(e)) => {
                check(matches!(e, Error::Fault), "the error of the store is the error of the operation");
                drop(e);
                check(i.next().is_none(), "an iterator ends after an error");
                check(i.next().is_none(), "an iterator that has ended stays so");
                return (r, true);
            }
        }
    }
}
fn check_entries(store: &Store, r: (Vec<(Bytes, Value<Store>)>, bool), m: &Map) {
    let failed = disarm(store);
    check(r.1 == failed, "an iterator yields an error if and only if the store failed");
    check(r.0.len() <= m.0.len() && (failed || r.0.len() == m.0.len()), "an iterator yields every entry unless the store fails");
    for (i, (k, v)) in r.0.iter().enumerate() {
        if i < m.0.len() {
            check(eq(k, &m.0[i].0) && eq(&load(v, store), &m.0[i].1), "entries before the error are right");
        }
    }
}

/// params: entries, ways of being stored, id length, accesses, shape
#[no_mangle]
pub fn h_fault_query() {
    let s = shape(4);
    let n = param(3);
    let live0 = live();
    {
        let m = s.content(param(0));
        let store = Store::new(param(2));
        let t = stored(&m, &store, pick(param(1)));
        let q = s.probe();
        let below = m.filter(|k, _| is_prefix(&q, k));
        match pick(11) {
            0 => {
                arm(&store, n);
                if let Some(g) = outcome(t.try_get(&q), &store) {
                    check(opt_is(&g, m.get(&q), &store), "get");
                }
            }
            1 => {
                arm(&store, n);
                if let Some(g) = outcome(t.try_contains_key(&q), &store) {
                    check(g == m.get(&q).is_some(), "contains_key");
                }
            }
            2 => {
                arm(&store, n);
                if let Some(g) = outcome(t.try_has_prefix(&q), &store) {
                    check(g == !below.0.is_empty(), "has_prefix");
                }
            }
            3 => {
                arm(&store, n);
                match t.try_scan_prefix(&q) {
                    Ok(i) => check_entries(&store, entries(i), &below),
                    Err(e) => drop(outcome::<()>(Err(e), &store)),
                }
            }
            4 => {
                arm(&store, n);
                check_entries(&store, entries(t.try_iter()), &m);
            }
            5 => {
                arm(&store, n);
                // without the keys
                let mut i = 0;
                let r = entries(t.try_values().map(|v| {
                    i += 1;
                    v.map(|v| (m.0.get(i - 1).map(|x| x.0.clone()).unwrap_or_default(), v))
                }));
                check_entries(&store, r, &m);
            }
            6 => {
                arm(&store, n);
                if let Some(g) = outcome(t.try_first_value(), &store) {
                    check(opt_is(&g, m.0.first().map(|x| &x.1), &store), "first_value");
                }
            }
            7 => {
                arm(&store, n);
                if let Some(g) = outcome(t.try_last_entry(q.clone()), &store) {
                    check(g.is_some() == !m.0.is_empty(), "last_entry");
                    if let Some((k, v)) = g {
                        let (ek, ev) = &m.0[m.0.len() - 1];
                        check(k.len() == q.len() + ek.len() && eq(&k[q.len()..], ek), "key of the last entry");
                        check(eq(&load(&v, &store), ev), "value of the last entry");
                    }
                }
            }
            8 => {
                arm(&store, n);
                if let Some(f) = outcome(t.try_filter_prefix(&q, &q), &store) {
                    check_att(&f, &below, "filter_prefix");
                }
            }
            9 => {
                let d = pick(2);
                arm(&store, n);
                let mut parts = vec![];
                let mut err = false;
                for g in t.try_group_by(move |k, _| Ok(k.len() < d)) {
                    check(!err, "an iterator ends after an error");
                    match g {
                        Ok(g) => parts.push(g),
                        Err(e) => {
                            drop(e);
                            err = true;
                        }
                    }
                }
                check(disarm(&store) == err, "grouping yields an error if and only if the store failed");
                let mut i = 0;
                for p in &parts {
                    for (k, v) in att_content(p).0 {
                        check(i < m.0.len() && eq(&k, &m.0[i].0) && eq(&v, &m.0[i].1), "parts before the error are right");
                        i += 1;
                    }
                }
                check(err || i == m.0.len(), "the parts hold every entry unless the store fails");
            }
            _ => {
                arm(&store, n);
                if let Some(d) = outcome(t.try_detached(), &store) {
                    check_content(&d, &m, "detaching");
                }
            }
        }
        // and after the fault
        check_att(&t, &m, "a query that failed leaves the tree as it was");
        check(opt_is(&ok(t.try_get(&q), "get succeeds"), m.get(&q), &store), "get after the fault");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// attaching, persisting and loading. params as before
#[no_mangle]
pub fn h_fault_persist() {
    let s = shape(4);
    let n = param(3);
    let live0 = live();
    {
        let mut m = s.content(param(0));
        let store = Store::new(param(2));
        if pick(2) == 0 {
            let t0 = tree(&m);
            arm(&store, n);
            if let Some(a) = outcome(t0.try_attached(store.clone()), &store) {
                check_att(&a, &m, "attaching");
            }
            check_content(&t0, &m, "attaching leaves the original as it was");
            let a = ok(t0.try_attached(store.clone()), "attaching succeeds");
            check_att(&a, &m, "attaching after the fault");
        } else {
            let mut t = stored(&m, &store, pick(param(1)));
            if pick(2) == 1 {
                let (k, v) = (s.key(), s.value());
                ok(t.try_insert(&k, &v), "insert succeeds");
                m.insert(&k, &v);
            }
            arm(&store, n);
            let id = match outcome(t.try_reattach(), &store) {
                Some(id) => id,
                None => {
                    check_att(&t, &m, "persisting that failed leaves the tree as it was");
                    ok(t.try_reattach(), "reattaching succeeds after the fault")
                }
            };
            check_att(&t, &m, "persisting");
            arm(&store, 2);
            let l = match outcome(RadixTree::try_load(store.clone(), Some(&id)), &store) {
                Some(l) => l,
                None => ok(RadixTree::try_load(store.clone(), Some(&id)), "loading succeeds after the fault"),
            };
            check_att(&l, &m, "loading what was persisted");
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// changes. params as before
#[no_mangle]
pub fn h_fault_change() {
    let s = shape(4);
    let n = param(3);
    let live0 = live();
    {
        let m = s.content(param(0));
        let store = Store::new(param(2));
        let mut t = stored(&m, &store, pick(param(1)));
        let snap = t.clone();
        let k = s.probe();
        let v = s.value();
        let op = pick(3);
        let mut after = m.clone();
        match op {
            0 => after.insert(&k, &v),
            1 => after.remove(&k),
            _ => after = m.filter(|x, _| !is_prefix(&k, x)),
        }
        let go = |t: &mut RadixTree<Store>| match op {
            0 => t.try_insert(&k, &v),
            1 => t.try_remove(&k),
            _ => t.try_remove_prefix(&k),
        };
        arm(&store, n);
        match outcome(go(&mut t), &store) {
            Some(()) => {}
            None => {
                check_att(&t, &m, "a change that failed leaves the tree as it was");
                ok(go(&mut t), "the change succeeds after the fault");
            }
        }
        check_att(&t, &after, "the change after the fault");
        check_att(&snap, &m, "a clone is not affected");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// combinations in which a store or the function fails
/// params: entries left, entries right, ways left, ways right, id length, accesses, shape
#[no_mangle]
pub fn h_fault_comb() {
    let s = shape(6);
    let n = param(5);
    let live0 = live();
    {
        let m1 = s.content(param(0));
        let m2 = s.content(param(1));
        // one store, so that either side can fail
        let store = Store::new(param(4));
        let mut a = stored(&m1, &store, pick(param(2)));
        let b = stored(&m2, &store, pick(param(3)));
        let op = pick(8);
        let st = &store;
        let mut want = Map::new();
        for (k, x, y) in join(&m1, &m2) {
            let covered = m2.0.iter().any(|p| is_prefix(&p.0, k));
            match (op % 5, x, y) {
                (0, Some(_), Some(y)) | (0, None, Some(y)) | (1, Some(_), Some(y)) | (2, Some(_), Some(y)) => want.0.push((k.to_vec(), y.clone())),
                (0, Some(x), None) | (2, Some(x), None) => want.0.push((k.to_vec(), x.clone())),
                (3, Some(x), _) if covered => want.0.push((k.to_vec(), x.clone())),
                (4, Some(x), _) if !covered => want.0.push((k.to_vec(), x.clone())),
                _ => {}
            }
        }
        let fresh = |x: &ValueRef<Store>, y: &ValueRef<Store>| -> Result<Option<Value>, Error> {
            drop(x.to_owned().load(st)?);
            let y = y.to_owned().load(st)?;
            Ok(Some(RadixTree::single(b"", y.as_ref()).value().unwrap().to_owned()))
        };
        let place = |x: &mut Value<Store>, y: &ValueRef<Store>| -> Result<(), Error> {
            drop(x.load(st)?);
            drop(y.to_owned().load(st)?);
            x.set(Some(y));
            Ok(())
        };
        let go = |a: &mut RadixTree<Store>| -> Result<Option<RadixTree>, Error> {
            Ok(match op {
                0 => {
                    a.try_outer_combine_with(&b, IdentityConverter, place)?;
                    None
                }
                1 => {
                    a.try_inner_combine_with(&b, IdentityConverter, place)?;
                    None
                }
                2 => {
                    a.try_left_combine_with(&b, IdentityConverter, place)?;
                    None
                }
                3 => {
                    a.try_retain_prefix_with(&b, |_| Ok(true))?;
                    None
                }
                4 => {
                    a.try_remove_prefix_with(&b, |_| Ok(true))?;
                    None
                }
                5 => Some(a.try_outer_combine::<_, Error, _>(&b, fresh)?),
                6 => Some(a.try_inner_combine::<_, Error, _>(&b, fresh)?),
                _ => Some(a.try_left_combine::<_, Error, _>(&b, fresh)?),
            })
        };
        arm(&store, n);
        let r = match outcome(go(&mut a), &store) {
            Some(r) => r,
            None => {
                check_att(&a, &m1, "a combination that failed leaves the tree as it was");
                ok(go(&mut a), "the combination succeeds after the fault")
            }
        };
        match r {
            Some(r) => {
                check_content(&r, &want, "the result of a combination");
                check_att(&a, &m1, "a combination leaves the tree as it was");
            }
            None => check_att(&a, &want, "the combination after the fault"),
        }
        check_att(&b, &m2, "the other tree is as it was");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// a detached tree is changed by one whose store fails. params: which operation
#[no_mangle]
pub fn h_fault_detached() {
    let live0 = live();
    {
        let store = MemStore::default();
        // a node with a child block that is not there
        let mut b = vec![1, byte(), 0x80, 0x89, 0];
        b.extend_from_slice(&[0, 0, 0, 0, 0, 0, 0, 9]);
        let id = ok(store.write(&b), "writing succeeds");
        let that = ok(RadixTree::try_load(store, Some(&id)), "loading succeeds");
        let mut a = RadixTree::single(&[byte(), 2], b"v");
        let none = |_: &mut Value, _: &ValueRef<MemStore>| -> Result<(), NoError> { Ok(()) };
        reach("end");
        match param(0) {
            0 => drop(a.try_outer_combine_with(&that, DetachConverter, none)),
            1 => drop(a.try_inner_combine_with(&that, DetachConverter, none)),
            _ => drop(a.try_remove_prefix_with(&that, |_| Ok(true))),
        }
        drop(a);
        drop(that);
    }
    check(live() == live0, "[C24] no memory is leaked");
}
