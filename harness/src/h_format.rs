//! the stored format, read and written by the documentation alone (src/lib.rs, "Data format")
use crate::gen::*;
use crate::model::*;
use crate::stores::*;
use crate::sym::*;
use radixdb::store::*;
use radixdb::*;

/// where a node lies and what it refers to
pub struct Seen {
    /// the key up to and including the prefix of the node
    pub path: Bytes,
    /// the length of the key before that prefix
    pub start: usize,
    /// the blocks of its prefix, value and children
    pub blocks: [Option<usize>; 3],
}
pub struct Decoded {
    pub m: Map,
    pub nodes: Vec<Seen>,
    /// what was written by the tree itself obeys stricter rules than what may be read
    pub strict: bool,
}
fn data_or_id<'a>(s: &'a Store, b: &'a [u8], pos: usize, extra: usize) -> (Option<usize>, &'a [u8], usize) {
    let h = b[pos] as usize;
    let n = h & 127;
    check(pos + 1 + n <= b.len(), "a field ends inside the block");
    let f = &b[pos + 1..pos + 1 + n];
    if h < 128 {
        return (None, f, pos + 1 + n);
    }
    check(n == extra + s.inner().idlen, "an id has the length that the store gave it");
    match s.index_of(&f[extra..]) {
        Some(i) => (Some(i), f, pos + 1 + n),
        None => {
            check(false, "an id is one that the store gave out");
            assume(false);
            loop {}
        }
    }
}
/// reads one node, gives the position after it
#[inline(never)]
pub fn decode(s: &Store, b: &[u8], mut pos: usize, path: &[u8], root: bool, out: &mut Decoded) -> usize {
    let mut p = path.to_vec();
    let mut blocks = [None; 3];
    let (id, f, e) = data_or_id(s, b, pos, 1);
    pos = e;
    if let Some(i) = id {
        let d = &s.inner().blocks[i];
        check(d.len() > 0 && d[0] == f[0], "an id prefix carries its first byte");
        if out.strict {
            check(d.len() > 127, "a short prefix is stored inline");
        }
        p.extend_from_slice(d);
        blocks[0] = id;
    } else {
        p.extend_from_slice(f);
    }
    check(root || p.len() > path.len(), "only the prefix of the root may be empty");
    let mut value = None;
    if b[pos] == 0x80 {
        pos += 1;
    } else {
        let (id, f, e) = data_or_id(s, b, pos, 0);
        pos = e;
        value = Some(match id {
            Some(i) => {
                let d = &s.inner().blocks[i];
                if out.strict {
                    check(d.len() > 127, "a short value is stored inline");
                }
                blocks[1] = id;
                d.to_vec()
            }
            None => f.to_vec(),
        });
    }
    let has_value = value.is_some();
    if let Some(v) = value {
        out.m.0.push((p.clone(), v));
    }
    if b[pos] == 0x80 {
        pos += 1;
        check(has_value || root, "a node has a value or children");
        out.nodes.push(Seen { path: p, start: path.len(), blocks });
        return pos;
    }
    check(b[pos] > 0x80, "children are stored behind an id");
    let (id, f, e) = data_or_id(s, b, pos, 1);
    blocks[2] = id;
    out.nodes.push(Seen { path: p.clone(), start: path.len(), blocks });
    let d = &s.inner().blocks[id.unwrap()];
    let (mut at, mut first, mut equal, mut count) = (0, 0, true, 0);
    let mut last: Option<u8> = None;
    while at < d.len() {
        // the byte after the header is the first of the prefix, inline or not
        if at + 1 < d.len() {
            let c = d[at + 1];
            if let Some(l) = last {
                check(l < c, "children are in the order of their first byte");
            }
            last = Some(c);
        }
        let e = decode(s, d, at, &p, false, out);
        if count == 0 {
            first = e - at;
        } else if e - at != first {
            equal = false;
        }
        at = e;
        count += 1;
    }
    check(count > 0, "a child block has children");
    if out.strict {
        check(has_value || count > 1, "a node without a value has more than one child");
    }
    let want = if equal && first < 256 { first } else { 0 };
    check(f[0] as usize == want || (!out.strict && f[0] == 0), "the record size");
    pos = e;
    pos
}
#[inline(never)]
pub fn decoded(s: &Store, id: &[u8], strict: bool) -> Decoded {
    let mut out = Decoded { m: Map::new(), nodes: vec![], strict };
    let i = s.index_of(id);
    check(i.is_some(), "the id of a tree is one that the store gave out");
    if let Some(i) = i {
        let b = &s.inner().blocks[i];
        let e = decode(s, b, 0, &[], true, &mut out);
        check(e == b.len(), "the block of the root holds one node");
    }
    out
}

/// what is written. params: entries, id length, changes, shape
#[no_mangle]
pub fn h_written() {
    let s = shape(3);
    let live0 = live();
    {
        let mut m = s.content(param(0));
        let store = Store::new(param(1));
        let mut t = ok(tree(&m).try_attached(store.clone()), "attaching succeeds");
        let id = ok(t.try_reattach(), "reattaching succeeds");
        let d = decoded(&store, &id, true);
        observe_map(&d.m);
        check(same(&d.m, &m), "reading the format gives the content");
        if param(2) > 0 {
            t = ok(RadixTree::try_load(store.clone(), Some(&id)), "loading succeeds");
            for _ in 0..param(2) {
                let k = s.probe();
                match pick(3) {
                    0 => {
                        let v = s.value();
                        ok(t.try_insert(&k, &v), "insert succeeds");
                        m.insert(&k, &v);
                    }
                    1 => {
                        ok(t.try_remove(&k), "remove succeeds");
                        m.remove(&k);
                    }
                    _ => {
                        ok(t.try_remove_prefix(&k), "remove_prefix succeeds");
                        m = m.filter(|x, _| !is_prefix(&k, x));
                    }
                }
            }
            let id = ok(t.try_reattach(), "reattaching succeeds");
            let d = decoded(&store, &id, false);
            check(same(&d.m, &m), "reading the format after a change gives the content");
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
/// n children with values of the given length; params: children, id length, tail, value length, other value length
#[no_mangle]
pub fn h_written_wide() {
    let n = param(0);
    let live0 = live();
    {
        let store = Store::new(param(1));
        let mut m = Map::new();
        let odd = if param(4) == param(3) { n } else { pick(n) };
        for i in 0..n {
            let mut k = vec![i as u8];
            for j in 0..param(2) {
                k.push(j as u8);
            }
            m.0.push((k, value(if i == odd { param(4) } else { param(3) })));
        }
        let mut t = ok(tree(&m).try_attached(store.clone()), "attaching succeeds");
        let id = ok(t.try_reattach(), "reattaching succeeds");
        let d = decoded(&store, &id, true);
        check(same(&d.m, &m), "reading the format gives the content");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
/// the examples of the documentation, byte for byte, with arbitrary bytes in place of the letters
#[no_mangle]
pub fn h_examples() {
    let live0 = live();
    {
        let store = Store::new(8);
        let put = |m: &Map| {
            let mut t = ok(tree(m).try_attached(store.clone()), "attaching succeeds");
            let id = ok(t.try_reattach(), "reattaching succeeds");
            store.index_of(&id).unwrap()
        };
        let sid = |i: usize| store.id_of(i);
        let mut m = Map::new();
        match pick(5) {
            0 => {
                m.insert(&[], &[]);
                let i = put(&m);
                check(eq(&store.inner().blocks[i], &[0, 0, 0x80]), "the simplest node");
            }
            1 => {
                let k: Vec<u8> = (0..5).map(|_| byte()).collect();
                let v: Vec<u8> = (0..6).map(|_| byte()).collect();
                m.insert(&k, &v);
                let mut want = vec![5];
                want.extend_from_slice(&k);
                want.push(6);
                want.extend_from_slice(&v);
                want.push(0x80);
                let i = put(&m);
                check(eq(&store.inner().blocks[i], &want), "a small leaf node");
            }
            2 => {
                let mut k = vec![b'a'; 256];
                let mut v = vec![b'b'; 256];
                k[0] = byte();
                v[0] = byte();
                m.insert(&k, &v);
                let i = put(&m);
                let s = &store.inner().blocks;
                // blocks are numbered in the order in which they were written
                check(s.len() == 3 && i == 2, "a large leaf is three blocks");
                check(eq(&s[0], &k) & eq(&s[1], &v), "prefix and value of a large leaf");
                let mut want = vec![0x89, k[0]];
                want.extend_from_slice(&sid(0));
                want.push(0x88);
                want.extend_from_slice(&sid(1));
                want.push(0x80);
                check(eq(&s[2], &want), "a large leaf node");
            }
            3 => {
                let (p, a, b) = (byte(), byte(), byte());
                assume(a < b);
                m.insert(&[p, a], &[]);
                m.insert(&[p, b], &[]);
                let i = put(&m);
                let s = &store.inner().blocks;
                check(s.len() == 2 && i == 1, "a branch is two blocks");
                check(eq(&s[0], &[1, a, 0, 0x80, 1, b, 0, 0x80]), "the children of a branch");
                let mut want = vec![1, p, 0x80, 0x89, 4];
                want.extend_from_slice(&sid(0));
                check(eq(&s[1], &want), "a branch node");
            }
            _ => {
                let i = put(&m);
                check(eq(&store.inner().blocks[i], &[0, 0x80, 0x80]), "the empty tree");
            }
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// writes by the documentation, making any of the choices it leaves
struct Writer<'a> {
    s: &'a Store,
    /// short data behind ids, record size left out
    choices: usize,
}
impl Writer<'_> {
    fn coin(&self, bit: usize) -> bool {
        self.choices >> bit & 1 == 1 && pick(2) == 1
    }
    fn put(&self, d: &[u8]) -> Bytes {
        ok(self.s.write(d), "the store of the harness works")
    }
    /// entries share the first `at` bytes
    fn node(&self, e: &[(Bytes, Bytes)], at: usize, root: bool, b: &mut Bytes) {
        let mut n = at;
        // the longest common prefix, unless the root is written with an empty one
        if !(root && self.coin(3)) {
            'o: while n < e[0].0.len() {
                for x in e {
                    if x.0.len() <= n || x.0[n] != e[0].0[n] {
                        break 'o;
                    }
                }
                n += 1;
            }
        }
        let p = &e[0].0[at..n];
        if p.len() > 127 || (p.len() > 0 && self.coin(0)) {
            let id = self.put(p);
            b.push(0x81 + id.len() as u8);
            b.push(p[0]);
            b.extend_from_slice(&id);
        } else {
            b.push(p.len() as u8);
            b.extend_from_slice(p);
        }
        let mut e = e;
        if e[0].0.len() == n {
            let v = &e[0].1;
            if v.len() > 127 || self.coin(1) {
                let id = self.put(v);
                b.push(0x80 + id.len() as u8);
                b.extend_from_slice(&id);
            } else {
                b.push(v.len() as u8);
                b.extend_from_slice(v);
            }
            e = &e[1..];
        } else {
            b.push(0x80);
        }
        if e.is_empty() {
            b.push(0x80);
            return;
        }
        let mut c = vec![];
        let (mut size, mut i) = (0, 0);
        while i < e.len() {
            let mut j = i + 1;
            while j < e.len() && e[j].0[n] == e[i].0[n] {
                j += 1;
            }
            let l = c.len();
            self.node(&e[i..j], n, false, &mut c);
            let l = c.len() - l;
            size = if i == 0 || size == l { l } else { 1000 };
            i = j;
        }
        if size > 255 || self.coin(2) {
            size = 0;
        }
        let id = self.put(&c);
        b.push(0x81 + id.len() as u8);
        b.push(size as u8);
        b.extend_from_slice(&id);
    }
}
/// trees written by others are read. params: entries, id length, choices, what is done, shape
#[no_mangle]
pub fn h_foreign() {
    let s = shape(4);
    let live0 = live();
    {
        let mut m = s.content(param(0));
        assume(!m.0.is_empty());
        let store = Store::new(param(1));
        let mut b = vec![];
        let w = Writer { s: &store, choices: param(2) };
        w.node(&m.0, 0, true, &mut b);
        let id = w.put(&b);
        // a root with an empty prefix and one child is allowed, but not what the library makes
        let canonical = !(b[0] == 0 && b[1] == 0x80 && m.0.iter().all(|x| !x.0.is_empty() && x.0[0] == m.0[0].0[0]));
        let mut t = ok(RadixTree::try_load(store.clone(), Some(&id)), "loading succeeds");
        if canonical {
            check_att(&t, &m, "a tree written by the documentation holds its entries");
        } else {
            check(same(&att_content(&t), &m), "a tree written by the documentation holds its entries");
        }
        if param(3) > 0 {
            let q = s.probe();
            match pick(if canonical { 4 } else { 2 }) {
                0 => {
                    let g = ok(t.try_get(&q), "get succeeds");
                    match (&g, m.get(&q)) {
                        (None, None) => {}
                        (Some(v), Some(x)) => check(eq(&load(v, &store), x), "get"),
                        _ => check(false, "get finds the keys that are there"),
                    }
                }
                1 => {
                    let e = m.filter(|k, _| is_prefix(&q, k));
                    check(ok(t.try_has_prefix(&q), "has_prefix succeeds") == !e.0.is_empty(), "has_prefix");
                    let mut c = Map::new();
                    for x in ok(t.try_scan_prefix(&q), "scan_prefix succeeds") {
                        let (k, v) = ok(x, "iterating succeeds");
                        let k: &[u8] = k.as_ref();
                        c.0.push((k.to_vec(), load(&v, &store)));
                    }
                    check(same(&c, &e), "scan_prefix");
                }
                2 => {
                    let v = s.value();
                    ok(t.try_insert(&q, &v), "insert succeeds");
                    m.insert(&q, &v);
                    check_att(&t, &m, "insert into a tree written by the documentation");
                }
                _ => {
                    ok(t.try_remove(&q), "remove succeeds");
                    m.remove(&q);
                    check_att(&t, &m, "remove from a tree written by the documentation");
                }
            }
            let id = ok(t.try_reattach(), "reattaching succeeds");
            let d = decoded(&store, &id, false);
            check(same(&d.m, &m), "writing it again keeps the format");
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
