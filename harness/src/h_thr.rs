//! Threads: clones of one tree, one tree by reference, and stores, used by two threads at a time.
//! Whatever the schedule, each thread gets what it would get alone.
use crate::file;
use crate::gen::*;
use crate::model::*;
use crate::stores::*;
use crate::sym::*;
use radixdb::store::*;
use radixdb::*;

/// what a thread does with a tree of its own, and what it sees
struct Plan {
    act: usize,
    key: Bytes,
    val: Bytes,
    other: RadixTree,
}
const ACTS: usize = 9;
fn model(act: usize, m: &Map, k: &[u8], v: &[u8], o: &Map) -> Map {
    let mut m = m.clone();
    match act {
        1 => m.insert(k, v),
        2 => m.remove(k),
        3 => m = m.filter(|x, _| !is_prefix(k, x)),
        4 => m = m.filter(|x, _| is_prefix(k, x)),
        // the own value comes first
        5 => {
            for (k, v) in &o.0 {
                if m.get(k).is_none() {
                    m.insert(k, v);
                }
            }
        }
        6 => m = m.filter(|x, _| o.get(x).is_some()),
        7 => {
            for (_, x) in m.0.iter_mut() {
                *x = v.to_vec();
            }
        }
        _ => {}
    }
    m
}
fn change(t: &mut RadixTree, p: &Plan) {
    let (k, v) = (&p.key, &p.val);
    match p.act {
        1 => t.insert(k, v),
        2 => t.remove(k),
        3 => t.remove_prefix(k),
        4 => *t = t.filter_prefix(k, k),
        5 => t.outer_combine_with(&p.other, |_, _| {}),
        6 => t.inner_combine_with(&p.other, |_, _| {}),
        7 => {
            let u = t.clone();
            t.inner_combine_with(&u, |a, _| a.set(Some(&RadixTree::leaf(v).value().unwrap())));
        }
        _ => {}
    }
}
/// reading through a shared reference
fn look(t: &RadixTree, p: &Plan) -> Map {
    let (k, v) = (&p.key, &p.val);
    match p.act {
        1 => {
            let mut m = Map::new();
            if let Some(x) = t.get(k) {
                m.0.push((k.clone(), x.as_ref().to_vec()));
            }
            m
        }
        2 => {
            let mut m = Map::new();
            if t.has_prefix(k) {
                m.0.push((k.clone(), v.clone()));
            }
            m
        }
        3 => {
            let mut m = Map::new();
            for (k, v) in t.scan_prefix(k) {
                m.0.push((k.as_ref().to_vec(), v.as_ref().to_vec()));
            }
            m
        }
        4 => content_of(&t.filter_prefix(k, k)),
        5 => content_of(&t.outer_combine(&p.other, |a, _| Some(a.to_owned()))),
        6 => content_of(&t.inner_combine(&p.other, |a, _| Some(a.to_owned()))),
        7 => {
            let mut u = t.clone();
            u.insert(k, v);
            content_of(&u)
        }
        8 => {
            drop(t.clone());
            Map::new()
        }
        _ => content_of(t),
    }
}
fn look_model(act: usize, m: &Map, k: &[u8], v: &[u8], o: &Map) -> Map {
    match act {
        1 => m.filter(|x, _| eq(x, k) && x.len() == k.len()),
        2 => {
            let mut r = Map::new();
            if m.0.iter().any(|x| is_prefix(k, &x.0)) {
                r.0.push((k.to_vec(), v.to_vec()));
            }
            r
        }
        3 => m.filter(|x, _| is_prefix(k, x)),
        4 | 5 | 6 => model(act, m, k, v, o),
        7 => model(1, m, k, v, o),
        8 => Map::new(),
        _ => m.clone(),
    }
}
/// `n` from 100 on: not arbitrary keys, but all of a tree of two levels (there is a value at every
/// node, or at the leaves only), and a choice of these and some other keys to act on
fn content(s: &Shape, n: usize) -> Map {
    if n < 100 {
        return s.content(n);
    }
    let mut m = Map::new();
    for k in [&[][..], &[1], &[1, 1], &[1, 3], &[5], &[5, 2], &[5, 6]] {
        if n > 100 || k.len() == 2 {
            let mut k = k.to_vec();
            if n > 101 {
                k.resize(k.len() * 40, 9);
            }
            let v = s.value();
            m.insert(&k, &v);
        }
    }
    m
}
fn key(s: &Shape, n: usize, m: &Map) -> Bytes {
    if n < 100 {
        return s.key();
    }
    match pick(3) {
        0 => m.0[1].0.clone(),
        1 => m.0[m.0.len() - 1].0.clone(),
        _ => vec![5],
    }
}
fn pair(x: &mut [Map]) -> (&mut Map, &mut Map) {
    let (a, b) = x.split_at_mut(1);
    (&mut a[0], &mut b[0])
}
fn triple(x: &mut [Map]) -> (&mut Map, &mut Map, &mut Map) {
    let (a, b) = x.split_at_mut(1);
    let (b, c) = b.split_at_mut(1);
    (&mut a[0], &mut b[0], &mut c[0])
}
/// params: who holds what, action of each thread, preemptions, entries, shape
/// (0: the first thread has the tree itself and the second a clone; 1: both have clones, and the
/// tree stays; 2: both have a reference; 3: the first goes on with an iterator of the tree, and the
/// second has its first item and the tree; 4: as 1, with a third thread that does what the second does)
#[no_mangle]
pub fn h_thr_tree() {
    let how = param(0);
    let acts = [param(1), param(2)];
    let limit = param(3);
    let n = param(4);
    let s = shape(5);
    let m = content(&s, n);
    let t = tree(&m);
    let mut om = Map::new();
    let ok = if n < 100 { s.key() } else { m.0[1].0.clone() };
    om.insert(&ok, &s.value());
    let ot = tree(&om);
    let mut plans = vec![];
    for a in acts {
        assert!(a < ACTS);
        plans.push(Plan { act: a, key: key(&s, n, &m), val: s.value(), other: ot.clone() });
    }
    let mut want = vec![];
    for p in &plans {
        want.push(if how == 2 { look_model(p.act, &m, &p.key, &p.val, &om) } else { model(p.act, &m, &p.key, &p.val, &om) });
    }
    if how == 4 {
        let p = &plans[1];
        want.push(want[1].clone());
        plans.insert(0, Plan { act: p.act, key: p.key.clone(), val: p.val.clone(), other: ot.clone() });
    }
    if how == 3 {
        want[0] = m.clone();
    }
    let mut got = vec![Map::new(), Map::new(), Map::new()];
    let mut item = Map::new();
    let p1 = plans.pop().unwrap();
    let p0 = plans.pop().unwrap();
    let keep = if how == 0 { None } else { Some(t.clone()) };
    {
        let (g0, g1, g2) = triple(&mut got);
        if how == 3 {
            let mut it = t.iter();
            let first = it.next();
            let mut b = t;
            let im = &mut item;
            par(
                vec![
                    Box::new(move || {
                        for (k, v) in it {
                            g0.0.push((k.as_ref().to_vec(), v.as_ref().to_vec()));
                        }
                    }),
                    Box::new(move || {
                        change(&mut b, &p1);
                        *g1 = content_of(&b);
                        drop(b);
                        if let Some((k, v)) = first {
                            im.0.push((k.as_ref().to_vec(), v.as_ref().to_vec()));
                        }
                    }),
                ],
                limit,
            );
        } else if how == 2 {
            let r = &t;
            par(vec![Box::new(move || *g0 = look(r, &p0)), Box::new(move || *g1 = look(r, &p1))], limit);
        } else {
            let mut a = t;
            let mut b = a.clone();
            let mut jobs: Vec<Job> = vec![];
            if how == 4 {
                let p2 = plans.pop().unwrap();
                let mut c = a.clone();
                jobs.push(Box::new(move || {
                    change(&mut c, &p2);
                    *g2 = content_of(&c);
                }));
            }
            jobs.extend::<Vec<Job>>(
                vec![
                    Box::new(move || {
                        change(&mut a, &p0);
                        if p0.act != 8 {
                            *g0 = content_of(&a);
                        }
                    }),
                    Box::new(move || {
                        change(&mut b, &p1);
                        if p1.act != 8 {
                            *g1 = content_of(&b);
                        }
                    }),
                ],
            );
            par(jobs, limit);
        }
    }
    if how == 3 {
        item.0.append(&mut got[0].0);
        got[0] = item;
    }
    if how == 4 {
        observe_map(&got[2]);
        check(same(&got[2], &want[2]), "a thread gets what it would get alone");
    }
    for i in 0..2 {
        if how == 2 || how == 3 || acts[i] != 8 {
            observe_map(&got[i]);
            check(same(&got[i], &want[i]), "a thread gets what it would get alone");
        }
    }
    if let Some(k) = keep {
        check_content(&k, &m, "a tree is not changed by threads that hold clones or references");
    }
    reach("end");
}

fn att_act<S: BlobStore + Clone>(t: &mut RadixTree<S>, act: usize, k: &[u8], v: &[u8]) -> Map {
    match act {
        1 => ok(t.try_insert(k, v), "insert succeeds"),
        2 => ok(t.try_remove(k), "remove succeeds"),
        3 => {
            ok(t.try_insert(k, v), "insert succeeds");
            let s = RadixTree::store(t).clone();
            let id = ok(t.try_reattach(), "reattaching succeeds");
            *t = ok(RadixTree::try_load(s, Some(&id)), "loading succeeds");
        }
        4 => return content_of(&ok(t.try_detached(), "detaching succeeds")),
        5 => {
            let s = RadixTree::store(t).clone();
            let mut m = Map::new();
            if let Some(x) = ok(t.try_get(k), "get succeeds") {
                m.0.push((k.to_vec(), load(&x, &s)));
            }
            return m;
        }
        _ => {}
    }
    att_content(t)
}
fn att_model(act: usize, m: &Map, k: &[u8], v: &[u8]) -> Map {
    let mut m = m.clone();
    match act {
        1 | 3 => m.insert(k, v),
        2 => m.remove(k),
        5 => m = m.filter(|x, _| x.len() == k.len() && eq(x, k)),
        _ => {}
    }
    m
}
fn thr_att<S: BlobStore + Clone>(store: S) {
    let acts = [param(1), param(2)];
    let limit = param(3);
    let s = shape(5);
    let m = content(&s, param(4));
    let mut t = ok(tree(&m).try_attached(store.clone()), "attaching succeeds");
    let id = ok(t.try_reattach(), "reattaching succeeds");
    let t = ok(RadixTree::try_load(store, Some(&id)), "loading succeeds");
    let k = [key(&s, param(4), &m), key(&s, param(4), &m)];
    let v = [s.value(), s.value()];
    let want = [att_model(acts[0], &m, &k[0], &v[0]), att_model(acts[1], &m, &k[1], &v[1])];
    let mut got = vec![Map::new(), Map::new()];
    {
        let (g0, g1) = pair(&mut got);
        let (mut a, mut b) = (t.clone(), t.clone());
        let (k, v) = (&k, &v);
        par(
            vec![Box::new(move || *g0 = att_act(&mut a, acts[0], &k[0], &v[0])), Box::new(move || *g1 = att_act(&mut b, acts[1], &k[1], &v[1]))],
            limit,
        );
    }
    for i in 0..2 {
        observe_map(&got[i]);
        check(same(&got[i], &want[i]), "a thread gets what it would get alone");
    }
    check_att(&t, &m, "a tree is not changed by threads that hold clones");
    reach("end");
}
/// params: store (0 memory, otherwise pages of that size), action of each thread, preemptions,
/// entries, shape
#[no_mangle]
pub fn h_thr_att() {
    if param(0) == 0 {
        thr_att(MemStore::default());
    } else {
        file::create();
        thr_att(ok(PagedFileStore::new(file::open(), param(0) as u64), "a new file can be opened"));
        file::delete();
    }
}

/// writes and reads of one thread; true if all was as it should be
fn store_job<S: BlobStore>(s: &S, before: &(Bytes, Bytes), blocks: &[Bytes], act: usize) -> (bool, Vec<Bytes>) {
    let mut good = true;
    let mut ids = vec![];
    let is = |id: &[u8], b: &[u8]| match s.read(id) {
        Ok(r) => {
            let r: &[u8] = r.as_ref();
            r.len() == b.len() && eq(r, b)
        }
        Err(e) => {
            std::mem::forget(e);
            false
        }
    };
    if act & 1 != 0 {
        good &= is(&before.0, &before.1);
    }
    if act & 2 != 0 {
        for b in blocks {
            match s.write(b) {
                Ok(id) => {
                    if act & 4 != 0 {
                        good &= is(&id, b);
                    }
                    ids.push(id);
                }
                Err(e) => {
                    std::mem::forget(e);
                    good = false;
                }
            }
        }
    }
    if act & 8 != 0 {
        good &= s.sync().is_ok();
    }
    if act & 16 != 0 {
        good &= is(&before.0, &before.1);
    }
    (good, ids)
}
fn thr_store<S: BlobStore + Clone>(s: S) -> Vec<(Bytes, Bytes)> {
    let acts = [param(1), param(2)];
    let limit = param(3);
    let n = param(4);
    let len = param(5);
    let mut mk = || {
        let mut v = vec![];
        for _ in 0..n {
            let mut b = vec![0x33; len];
            for i in 0..len.min(2) {
                b[i] = byte();
            }
            v.push(b);
        }
        v
    };
    let first = vec![0x11; len];
    let id = ok(s.write(&first), "appending succeeds");
    let before = (id, first);
    let blocks = [mk(), mk()];
    let mut got = vec![(false, vec![]), (false, vec![])];
    {
        let (a, b) = got.split_at_mut(1);
        let (g0, g1) = (&mut a[0], &mut b[0]);
        let (s0, s1) = (s.clone(), &s);
        let (bl, be) = (&blocks, &before);
        par(
            vec![
                Box::new(move || *g0 = store_job(&s0, be, &bl[0], acts[0])),
                Box::new(move || *g1 = store_job(s1, be, &bl[1], acts[1])),
            ],
            limit,
        );
    }
    let mut all = vec![before];
    for i in 0..2 {
        check(got[i].0, "a thread reads what it or others have written");
        let ids = std::mem::take(&mut got[i].1);
        check(ids.len() == if acts[i] & 2 != 0 { n } else { 0 }, "all writes succeed");
        for (j, id) in ids.into_iter().enumerate() {
            for (o, _) in &all {
                check(!(o.len() == id.len() && eq(o, &id)), "ids are distinct");
            }
            all.push((id, blocks[i][j].clone()));
        }
    }
    for (id, b) in &all {
        let r = ok(s.read(id), "a block is read back");
        check(r.len() == b.len() && eq(r.as_ref(), b), "a block is read back");
    }
    observe(all.len() as u64);
    all
}
/// params: store (0 memory, otherwise pages of that size), what each thread does (bits: read what
/// was there, write, read that, sync, read what was there), preemptions, blocks each, their length
#[no_mangle]
pub fn h_thr_store() {
    if param(0) == 0 {
        let s = MemStore::default();
        let all = thr_store(s.clone());
        check(s.count() == all.len(), "the number of blocks");
    } else {
        file::create();
        let s = ok(PagedFileStore::new(file::open(), param(0) as u64), "a new file can be opened");
        let all = thr_store(s.clone());
        drop(s);
        // and after opening it again
        let s = ok(PagedFileStore::new(file::open(), param(0) as u64), "the file can be opened again");
        for (id, b) in &all {
            let r = ok(s.read(id), "a block is read back after opening the file again");
            check(r.len() == b.len() && eq(r.as_ref(), b), "a block is read back after opening the file again");
        }
        drop(s);
        file::delete();
    }
    reach("end");
}
