//! stores that return anything at all
use crate::gen::*;
use crate::model::*;
use crate::stores::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::store::*;
use radixdb::*;

/// a reading of the blocks by the documentation that notes what is wrong with them
struct Oracle<'a> {
    s: &'a Store,
    m: Vec<(Bytes, Option<Bytes>)>,
    /// a block that is not a sequence of nodes
    bad: bool,
    /// an id that does not lead anywhere
    unknown: bool,
    /// against a rule of the documentation, but readable
    odd: bool,
    deep: bool,
}
impl<'a> Oracle<'a> {
    fn new(s: &'a Store) -> Self {
        Oracle { s, m: vec![], bad: false, unknown: false, odd: false, deep: false }
    }
    fn stop(&self) -> bool {
        self.bad | self.unknown | self.deep
    }
    fn field(&mut self, b: &'a [u8], at: &mut usize) -> Option<(bool, &'a [u8])> {
        if *at >= b.len() {
            self.bad = true;
            return None;
        }
        let h = b[*at];
        let n = (h & 127) as usize;
        if n > b.len() - *at - 1 {
            self.bad = true;
            return None;
        }
        let f = &b[*at + 1..*at + 1 + n];
        *at += 1 + n;
        Some((h >= 128, f))
    }
    fn block(&mut self, id: &[u8]) -> Option<&'a [u8]> {
        match self.s.index_of(id) {
            Some(i) => Some(&self.s.inner().blocks[i]),
            None => {
                self.unknown = true;
                None
            }
        }
    }
    /// the nodes of a block, without what they refer to
    fn nodes(&mut self, b: &'a [u8]) -> Vec<[(bool, &'a [u8]); 3]> {
        let mut r = vec![];
        let mut at = 0;
        while at < b.len() {
            let mut n = [(false, &b[..0]); 3];
            for i in 0..3 {
                match self.field(b, &mut at) {
                    Some(f) => n[i] = f,
                    None => return r,
                }
            }
            // the prefix has a first byte if it is behind an id, and children are always behind one
            if (n[0].0 && n[0].1.is_empty()) || !n[2].0 {
                self.bad = true;
                return r;
            }
            r.push(n);
        }
        r
    }
    fn walk(&mut self, b: &'a [u8], path: &[u8], root: bool, depth: usize) {
        let nodes = self.nodes(b);
        if nodes.is_empty() || (root && nodes.len() != 1) {
            self.bad = true;
        }
        if self.stop() {
            return;
        }
        let mut last = None;
        for n in nodes {
            let mut p = path.to_vec();
            if n[0].0 {
                match self.block(&n[0].1[1..]) {
                    Some(d) => {
                        self.odd |= d.is_empty() || d[0] != n[0].1[0];
                        p.extend_from_slice(d)
                    }
                    None => return,
                }
            } else {
                p.extend_from_slice(n[0].1);
            }
            if !root {
                let f = n[0].1.first().copied();
                self.odd |= f.is_none() || f <= last;
                last = f;
            }
            let has_value = !(n[1].0 && n[1].1.is_empty());
            let leaf = n[2].1.is_empty();
            self.odd |= !has_value && leaf && !root;
            if has_value {
                let v = if n[1].0 {
                    match self.block(n[1].1) {
                        Some(v) => Some(v.to_vec()),
                        // only reading that value fails
                        None => {
                            self.unknown = false;
                            self.odd = true;
                            None
                        }
                    }
                } else {
                    Some(n[1].1.to_vec())
                };
                self.m.push((p.clone(), v));
            }
            if !leaf {
                if depth == 0 {
                    self.deep = true;
                    return;
                }
                match self.block(&n[2].1[1..]) {
                    Some(c) => {
                        self.walk(c, &p, false, depth - 1);
                        self.odd |= n[2].1[0] != 0;
                    }
                    None => return,
                }
                if self.stop() {
                    return;
                }
            }
        }
    }
}
fn block(n: usize) -> Bytes {
    (0..n).map(|_| byte()).collect()
}
/// a query or change that may fail, and is asked for an answer only
#[inline(never)]
fn poke(t: &mut RadixTree<Store>, store: &Store, what: usize, qlen: usize) {
    let q = block(qlen);
    let eat = |v: &Value<Store>| drop(v.load(store));
    match what {
        0 => {
            if let Ok(Some(v)) = t.try_get(&q) {
                eat(&v);
            }
            drop(t.try_contains_key(&q));
        }
        1 => {
            drop(t.try_has_prefix(&q));
            if let Ok(i) = t.try_scan_prefix(&q) {
                for x in i {
                    if let Ok((_, v)) = x {
                        eat(&v);
                    }
                }
            }
        }
        2 => {
            drop(t.try_first_value());
            drop(t.try_last_value());
        }
        3 => {
            drop(t.try_first_entry(q.clone()));
            drop(t.try_last_entry(q));
        }
        4 => {
            if let Ok(f) = t.try_filter_prefix(&q, b"x") {
                drop(f.try_detached());
            }
        }
        5 => {
            let d = pick(3);
            for g in t.try_group_by(move |k, _| Ok(k.len() < d)) {
                if let Ok(g) = g {
                    drop(g.try_first_value());
                }
            }
        }
        6 => {
            for v in t.try_values() {
                drop(v);
            }
            drop(t.try_detached());
        }
        7 => {
            drop(t.try_insert(&q, b"v"));
            drop(t.try_reattach());
        }
        8 => {
            drop(t.try_remove(&q));
            drop(t.try_reattach());
        }
        9 => {
            drop(t.try_remove_prefix(&q));
            drop(t.try_reattach());
        }
        10 => drop(t.try_reattach()),
        w => {
            let mut o = RadixTree::default();
            o.insert(&q, b"w");
            o.insert(b"ab", b"");
            type R = Result<Option<Value>, Error>;
            let take = |_: &ValueRef<Store>, b: &ValueRef| -> R { Ok(Some(b.to_owned())) };
            let none = |_: &mut Value<Store>, _: &ValueRef| -> Result<(), Error> { Ok(()) };
            match w {
                11 => drop(t.try_outer_combine::<_, Error, _>(&o, take)),
                12 => drop(t.try_inner_combine::<_, Error, _>(&o, take)),
                13 => drop(t.try_left_combine::<_, Error, _>(&o, take)),
                14 => drop(t.try_outer_combine_with(&o, DowncastConverter, none)),
                15 => drop(t.try_inner_combine_with(&o, DowncastConverter, none)),
                16 => drop(t.try_left_combine_with(&o, DowncastConverter, none)),
                17 => drop(t.try_inner_combine_pred::<_, Error, _>(&o, |_, _| Ok(true))),
                18 => drop(t.try_left_combine_pred::<_, Error, _>(&o, |_, _| Ok(false))),
                19 => {
                    drop(t.try_remove_prefix_with(&o, |_| Ok(true)));
                    drop(t.try_reattach());
                }
                20 => {
                    drop(t.try_retain_prefix_with(&o, |_| Ok(true)));
                    drop(t.try_reattach());
                }
                21 => {
                    // the other way round
                    let mut u = RadixTree::<Store>::empty(store.clone());
                    drop(u.try_insert(&q, b"w"));
                    drop(u.try_insert(b"ab", b"w"));
                    let none = |_: &mut Value<Store>, _: &ValueRef<Store>| -> Result<(), Error> { Ok(()) };
                    drop(u.try_outer_combine_with(t, IdentityConverter, none));
                    drop(u.try_detached());
                }
                22 => {
                    let mut u = o.clone();
                    drop(o.try_outer_combine::<_, Error, _>(t, |a: &ValueRef, _| Ok(Some(a.to_owned()))));
                    drop(u.try_retain_prefix_with(&o, |_| Ok(true)));
                }
                _ => {
                    let mut u = RadixTree::<Store>::empty(store.clone());
                    drop(u.try_insert(&q, b"w"));
                    drop(u.try_remove_prefix_with(t, |_| Ok(true)));
                    drop(u.try_retain_prefix_with(t, |_| Ok(true)));
                    drop(u.try_detached());
                }
            }
        }
    }
    drop(t.try_detached());
}
/// the answer of a full traversal: either an error, or what the documentation says
#[inline(never)]
fn traverse(t: &RadixTree<Store>, store: &Store, root: usize) {
    let mut o = Oracle::new(store);
    o.walk(&store.inner().blocks[root], &[], true, 4);
    let (mut i, mut err) = (0, false);
    for x in t.try_iter() {
        check(!err, "an iterator ends after an error");
        match x {
            Ok((k, v)) => {
                if !o.deep {
                    check(i < o.m.len(), "entries are those in the blocks");
                    if i < o.m.len() {
                        let k: &[u8] = k.as_ref();
                        check(eq(k, &o.m[i].0), "keys are those in the blocks");
                        match (v.load(store), &o.m[i].1) {
                            (Ok(v), Some(x)) => check(eq(v.as_ref(), x), "values are those in the blocks"),
                            (Err(e), None) => drop(e),
                            (Err(e), Some(_)) => {
                                drop(e);
                                check(false, "a value that is there can be read")
                            }
                            (Ok(v), None) => {
                                drop(v);
                                check(false, "a value that is not there can not be read")
                            }
                        }
                    }
                }
                i += 1;
            }
            Err(e) => {
                drop(e);
                err = true;
            }
        }
    }
    if !o.deep {
        if err {
            check(o.bad | o.unknown | o.odd, "data that is as documented is not refused");
        } else {
            check(!o.bad & !o.unknown, "data that can not be a sequence of nodes is reported");
            check(i == o.m.len(), "no entries are left out");
        }
        match t.try_detached() {
            Ok(d) => {
                drop(d);
                check(!o.bad & !o.unknown, "detaching data that can not be a sequence of nodes is an error")
            }
            Err(e) => {
                drop(e);
                check(o.bad | o.unknown | o.odd, "data that is as documented can be detached")
            }
        }
    }
}
/// arbitrary bytes as the root, and in the blocks it may refer to
/// params: length of the root block, of the second and third block, what is done, length of the
/// query, bytes of the root that are fixed: 0 none, 1 an empty prefix and no value
#[no_mangle]
pub fn h_bad() {
    let live0 = live();
    {
        let store = Store::new(1);
        let mut root = vec![];
        if param(5) == 1 {
            root.extend_from_slice(&[0, 0x80]);
        }
        root.extend(block(param(0)));
        // the first block has id 1
        store.inner().blocks.push(block(param(1)));
        store.inner().blocks.push(block(param(2)));
        store.inner().blocks.push(root);
        store.inner().limit = 12;
        let id = [3];
        let mut o = Oracle::new(&store);
        let n = o.nodes(&store.inner().blocks[2]);
        let valid = !o.bad && n.len() == 1;
        match RadixTree::try_load(store.clone(), Some(&id)) {
            Ok(mut t) => {
                check(valid, "a root block that is not a node is refused");
                observe(1);
                if param(3) == 0 {
                    traverse(&t, &store, 2);
                } else {
                    poke(&mut t, &store, pick(24), param(4));
                }
            }
            Err(e) => {
                drop(e);
                observe(0);
                check(!valid, "a root block that is a node is accepted");
            }
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
/// an id that the store did not give out
#[no_mangle]
pub fn h_bad_id() {
    let live0 = live();
    {
        let n = pick(12);
        let id: Bytes = (0..n).map(|_| byte()).collect();
        let store = MemStore::default();
        let mut t = ok(tree(&Map(vec![(vec![1], vec![2]), (vec![3], vec![4])])).try_attached(store.clone()), "attaching succeeds");
        let root = ok(t.try_reattach(), "reattaching succeeds");
        let known = n == 8 && eq(&id, &root);
        let kids = n == 8 && eq(&id, &[0, 0, 0, 0, 0, 0, 0, 1]);
        match RadixTree::try_load(store, Some(&id)) {
            Ok(t) => {
                check(known, "an unknown id is an error");
                drop(t);
            }
            Err(e) => {
                drop(e);
                check(!known | kids, "a known id is not an error");
            }
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
/// a child block whose node refers to that very block. params: how it is used
#[no_mangle]
pub fn h_cycle() {
    let live0 = live();
    {
        let store = Store::new(1);
        // one child with an arbitrary prefix of one byte and no value
        store.inner().blocks.push(vec![1, byte(), 0x80, 0x82, 0, 1]);
        store.inner().blocks.push(vec![0, 0x80, 0x82, 0, 1]);
        store.inner().limit = 100;
        let mut t = ok(RadixTree::try_load(store.clone(), Some(&[2])), "loading succeeds");
        poke(&mut t, &store, param(0), 1);
        observe(store.inner().accesses as u64);
        reach("end");
        check(store.inner().accesses < 100, "a query of two blocks ends");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
/// a node with many children, in whose block one byte is arbitrary, or that is cut short
/// params: children, length of their prefixes, of their values, what is done, the children in question (0 the last ones, 1 others)
#[no_mangle]
pub fn h_bad_wide() {
    let live0 = live();
    {
        let store = Store::new(8);
        let (n, pl, vl) = (param(0), param(1), param(2));
        let mut b = vec![];
        for i in 0..n {
            b.push(pl as u8);
            b.push((i + 256 - n) as u8);
            b.extend(vec![b'p'; pl - 1]);
            b.push(vl as u8);
            b.extend(vec![i as u8; vl]);
            b.push(0x80);
        }
        let size = b.len() / n;
        // the headers and the first byte
        let places = [0, 1, 1 + pl, size - 1];
        let which = if param(4) == 0 { [n - 1, n - 2] } else { [n / 2, 1] };
        if param(4) == 0 && pick(2) == 1 {
            b.truncate(b.len() - 1 - pick(size));
        } else {
            b[which[pick(2)] * size + places[pick(4)]] = byte();
        }
        store.inner().blocks.push(b);
        let mut root = vec![0, 0x80, 0x89, 0];
        root.extend(store.id_of(0));
        store.inner().blocks.push(root);
        let mut t = ok(RadixTree::try_load(store.clone(), Some(&store.id_of(1))), "loading succeeds");
        if param(3) == 0 {
            traverse(&t, &store, 1);
        } else {
            store.inner().limit = 40;
            poke(&mut t, &store, pick(24), 1);
        }
        observe(1);
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
