use crate::gen::*;
use crate::model::*;
use crate::sym::*;
use radixdb::*;

fn queries(t: &RadixTree, m: &Map, s: &Shape) {
    check_content(t, m, "iter yields exactly the entries, in key order");
    let mut n = 0;
    for v in t.values() {
        let v: &[u8] = v.as_ref();
        check(n < m.0.len() && eq(v, &m.0[n].1), "values yields the values in key order");
        n += 1;
    }
    check(n == m.0.len(), "values yields every value");
    check(t.is_empty() == m.0.is_empty(), "is_empty iff no entries");
    let q = s.probe();
    let g = t.get(&q);
    let e = m.get(&q);
    match (&g, e) {
        (Some(x), Some(y)) => check(eq(x.as_ref(), y), "get returns the last value inserted"),
        (None, None) => {}
        _ => check(false, "get finds exactly the keys present"),
    }
    check(t.contains_key(&q) == e.is_some(), "contains_key iff present");
    observe(g.is_some() as u64);
}

/// a history of inserts and removes over arbitrary keys
/// params: operations, shape
#[no_mangle]
pub fn h_map_ops() {
    let n = param(0);
    let s = shape(1);
    let live0 = live();
    {
        let mut t = RadixTree::default();
        let mut m = Map::new();
        for i in 0..n {
            let k = s.key();
            if i > 0 && pick(2) == 1 {
                t.remove(&k);
                m.remove(&k);
            } else {
                let v = s.value();
                t.insert(&k, &v);
                m.insert(&k, &v);
            }
        }
        queries(&t, &m, &s);
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// one operation on a tree of n arbitrary entries
#[no_mangle]
pub fn h_map_step() {
    let n = param(0);
    let s = shape(1);
    let live0 = live();
    {
        let mut m = s.content(n);
        let mut t = tree(&m);
        let k = s.probe();
        if pick(2) == 1 {
            t.remove(&k);
            m.remove(&k);
        } else {
            let v = s.value();
            t.insert(&k, &v);
            m.insert(&k, &v);
        }
        queries(&t, &m, &s);
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
