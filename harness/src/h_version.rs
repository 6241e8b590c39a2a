//! versions of a tree in one store
use crate::gen::*;
use crate::h_format::*;
use crate::model::*;
use crate::stores::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::*;

struct Version {
    id: Bytes,
    m: Map,
}
/// persists t, which has been changed at the given keys (or below them) since it was persisted
#[inline(never)]
fn persist(store: &Store, t: &mut RadixTree<Store>, m: &Map, changed: &[Bytes], before: usize) -> Version {
    check(store.inner().blocks.len() == before, "only persisting writes to the store");
    let id = ok(t.try_reattach(), "reattaching succeeds");
    let d = decoded(store, &id, false);
    check(same(&d.m, m), "a persisted tree has the content of the tree");
    let root = store.index_of(&id).unwrap_or(0);
    let mut used = vec![false; store.inner().blocks.len()];
    used[root] = true;
    for n in &d.nodes {
        for (i, b) in n.blocks.iter().enumerate() {
            if let Some(b) = *b {
                used[b] = true;
                if b < before {
                    continue;
                }
                let p = &n.path;
                let lies = |k: &Bytes| match i {
                    // a prefix that is new because it was split or joined begins on the path
                    0 => is_prefix(&p[..n.start], k),
                    1 => eq(p, k),
                    _ => is_prefix(p, k),
                };
                check(changed.iter().any(lies), "only blocks on the paths that changed are written");
            }
        }
    }
    for b in before..used.len() {
        check(used[b], "nothing is written that is not part of the tree");
    }
    Version { id, m: m.clone() }
}
/// params: entries, id length, changes, kinds of changes (4: without, 6: with combinations), shape
#[no_mangle]
pub fn h_versions() {
    let s = shape(4);
    let live0 = live();
    {
        let mut m = s.content(param(0));
        let store = Store::new(param(1));
        let t0 = tree(&m);
        let mut t = ok(t0.try_attached(store.clone()), "attaching succeeds");
        let mut all = vec![];
        let every: Vec<Bytes> = m.0.iter().map(|x| x.0.clone()).collect();
        // the blocks of the attached tree are there already
        let n = store.inner().blocks.len();
        all.push(persist(&store, &mut t, &m, &every, n));
        for i in 0..param(2) {
            // go on with the tree at hand, or with one that is loaded from the first id
            match pick(if i > 0 { 3 } else { 2 }) {
                0 => {}
                1 => {
                    let v = &all[all.len() - 1];
                    t = ok(RadixTree::try_load(store.clone(), Some(&v.id)), "loading succeeds");
                }
                _ => {
                    t = ok(RadixTree::try_load(store.clone(), Some(&all[0].id)), "loading succeeds");
                    m = all[0].m.clone();
                }
            }
            let before = store.inner().blocks.len();
            let k = s.probe();
            let mut changed = vec![k.clone()];
            let v = s.value();
            match pick(param(3)) {
                0 => {
                    ok(t.try_insert(&k, &v), "insert succeeds");
                    m.insert(&k, &v);
                }
                1 => {
                    ok(t.try_remove(&k), "remove succeeds");
                    m.remove(&k);
                }
                2 => {
                    ok(t.try_remove_prefix(&k), "remove_prefix succeeds");
                    m = m.filter(|x, _| !is_prefix(&k, x));
                }
                3 => {
                    // queries only
                    ok(t.try_get(&k), "get succeeds");
                    let c = t.clone();
                    check_att(&c, &m, "a clone of a persisted tree");
                    changed.clear();
                }
                4 => {
                    let mut b = RadixTree::default();
                    b.insert(&k, &v);
                    let f = |a: &mut Value<Store>, b: &ValueRef| -> Result<(), Error> {
                        a.set(Some(b.downcast()));
                        Ok(())
                    };
                    ok(t.try_outer_combine_with(&b, DowncastConverter, f), "outer_combine_with succeeds");
                    m.insert(&k, &v);
                }
                _ => {
                    let mut b = RadixTree::default();
                    b.insert(&k, &v);
                    let f = |a: &mut Value<Store>, _: &ValueRef| -> Result<(), Error> {
                        a.set(None);
                        Ok(())
                    };
                    ok(t.try_left_combine_with(&b, DowncastConverter, f), "left_combine_with succeeds");
                    m.remove(&k);
                }
            }
            all.push(persist(&store, &mut t, &m, &changed, before));
        }
        let n = store.inner().blocks.len();
        for v in &all {
            let t = ok(RadixTree::try_load(store.clone(), Some(&v.id)), "loading succeeds");
            check_att(&t, &v.m, "an id shows the content that it was given out for");
        }
        check(same(&content_of(&t0), &all[0].m), "attaching does not change the original");
        check(store.inner().blocks.len() == n, "loading and queries write nothing");
        observe(n as u64);
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
