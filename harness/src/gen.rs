//! Arbitrary keys, values and contents.
use crate::model::*;
use crate::sym::*;
use radixdb::RadixTree;

/// the shape of keys: `pad` fixed bytes, then up to `max` arbitrary bytes (the number of
/// arbitrary bytes is a choice between `min` and `max`), then `tail` fixed bytes
#[derive(Clone, Copy)]
pub struct Shape {
    pub pad: usize,
    pub min: usize,
    pub max: usize,
    pub tail: usize,
    pub vlen: usize,
}
pub fn shape(p: usize) -> Shape {
    Shape { pad: param(p), min: param(p + 1), max: param(p + 2), tail: param(p + 3), vlen: param(p + 4) }
}
pub const SHAPE: usize = 5;

/// Deep trees: when `max` is over 100, content(n) is not n arbitrary keys but the n-th of the sets of
/// keys below, made of paths of max - 100 levels. Each level has `min` arbitrary bytes in ascending
/// order, each followed by `tail` fixed ones.
const DEEP: usize = 100;
impl Shape {
    pub fn levels(&self) -> Option<usize> {
        if self.max > DEEP {
            Some(self.max - DEEP)
        } else {
            None
        }
    }
    fn push_level(&self, k: &mut Bytes, b: u8) {
        k.push(b);
        for i in 0..self.tail {
            k.push(pad_byte(i).wrapping_add(3));
        }
    }
    #[inline(never)]
    fn deep_content(&self, levels: usize, which: usize) -> Map {
        let fan = self.min;
        let mut b = Vec::new();
        for l in 0..levels {
            for i in 0..fan {
                let x = byte();
                if i > 0 {
                    assume(b[l * fan + i - 1] < x);
                }
                b.push(x);
            }
        }
        let mut m = Map::new();
        self.deep_below(&b, levels, which, &mut Vec::new(), true, &mut m);
        m
    }
    fn deep_below(&self, b: &[u8], left: usize, which: usize, path: &mut Vec<usize>, first: bool, m: &mut Map) {
        let fan = self.min;
        let has = match which {
            // only leaves
            0 => left == 0,
            // every node
            1 => true,
            // leaves and the nodes above them
            2 => left <= 1,
            // the last path, with what hangs off it at each level
            3 => left == 0 || (!first && !path.is_empty()),
            // every second level
            _ => left % 2 == 0,
        };
        if has {
            let mut k = Vec::new();
            for i in 0..self.pad {
                k.push(pad_byte(i));
            }
            for (l, i) in path.iter().enumerate() {
                self.push_level(&mut k, b[l * fan + i]);
            }
            m.0.push((k, self.value()));
        }
        if left == 0 || (which == 3 && !first) {
            return;
        }
        for i in 0..fan {
            path.push(i);
            self.deep_below(b, left - 1, which, path, i + 1 == fan, m);
            path.pop();
        }
    }
    #[inline(never)]
    fn deep_key(&self, levels: usize) -> Bytes {
        let mut k = Vec::new();
        for i in 0..self.pad {
            k.push(pad_byte(i));
        }
        for _ in 0..pick(levels + 1) {
            self.push_level(&mut k, byte());
        }
        k
    }
    #[inline(never)]
    pub fn key(&self) -> Bytes {
        if let Some(l) = self.levels() {
            return self.deep_key(l);
        }
        let n = self.min + pick(self.max - self.min + 1);
        self.key_of(n)
    }
    pub fn key_of(&self, n: usize) -> Bytes {
        let mut k = Vec::with_capacity(self.pad + n + self.tail);
        for i in 0..self.pad {
            k.push(pad_byte(i));
        }
        for _ in 0..n {
            k.push(byte());
        }
        for i in 0..self.tail {
            k.push(pad_byte(i).wrapping_add(3));
        }
        k
    }
    /// a key for queries: also shorter than the padding
    #[inline(never)]
    pub fn probe(&self) -> Bytes {
        if let Some(l) = self.levels() {
            let mut k = self.deep_key(l + if self.tail == 0 { 1 } else { 0 });
            if self.tail > 0 && k.len() > self.tail && pick(2) == 1 {
                let n = k.len() - self.tail / 2;
                k.truncate(n);
            }
            return k;
        }
        if self.pad > 0 {
            match pick(3) {
                0 => {}
                1 => return self.key()[..self.pad.min(3)].to_vec(),
                _ => {
                    let mut k = self.key();
                    k[self.pad - 1] = byte();
                    return k;
                }
            }
        }
        let mut n = self.min + pick(self.max + 2 - self.min);
        if n > self.max && self.tail > 0 {
            n = self.max;
        }
        let mut k = self.key_of(n);
        if self.tail > 0 && pick(2) == 1 {
            k.truncate(self.pad + n + self.tail / 2);
        }
        k
    }
    #[inline(never)]
    pub fn value(&self) -> Bytes {
        value(self.vlen)
    }
    /// n entries with strictly increasing keys
    #[inline(never)]
    pub fn content(&self, n: usize) -> Map {
        if let Some(l) = self.levels() {
            return self.deep_content(l, n);
        }
        let mut m = Map::new();
        for i in 0..n {
            let k = self.key();
            if i > 0 {
                assume(lt(&m.0[i - 1].0, &k));
            }
            m.0.push((k, self.value()));
        }
        m
    }
}
fn pad_byte(i: usize) -> u8 {
    (b'a' as usize + i % 7) as u8
}
/// a value of the given length, the first two bytes arbitrary
#[inline(never)]
pub fn value(len: usize) -> Bytes {
    // a code for any of the ways to store a value
    let len = if len == 1001 { [0, 1, 9, 130][pick(4)] } else { len };
    let mut v = Vec::with_capacity(len);
    for i in 0..len {
        v.push(if i < 2 { byte() } else { 0x30 + (i % 10) as u8 });
    }
    v
}
pub fn tree(m: &Map) -> RadixTree {
    let mut t = RadixTree::default();
    for (k, v) in &m.0 {
        t.insert(k, v);
    }
    t
}
/// what a detached tree holds, through its iterator
#[inline(never)]
pub fn content_of(t: &RadixTree) -> Map {
    let mut m = Map::new();
    for (k, v) in t.iter() {
        let k: &[u8] = k.as_ref();
        let v: &[u8] = v.as_ref();
        m.0.push((k.to_vec(), v.to_vec()));
    }
    m
}
#[inline(never)]
pub fn observe_map(m: &Map) {
    observe(m.0.len() as u64);
    for (k, v) in &m.0 {
        observe_bytes(k);
        observe_bytes(v);
    }
}
/// the tree's iterator yields exactly the model's entries, in order
#[inline(never)]
pub fn check_content(t: &RadixTree, m: &Map, id: &'static str) {
    let c = content_of(t);
    observe_map(&c);
    check(same(&c, m), id);
    // not only the iterator: the tree is the one that these entries make
    check(*t == tree(m), "the tree equals the tree built from its entries");
    check(t.is_empty() == m.0.is_empty(), "a tree is empty iff it has no entries");
    let (f, l) = (t.first_value(), t.last_value());
    check(f.is_some() == !m.0.is_empty() && l.is_some() == !m.0.is_empty(), "first and last value are there iff there are entries");
    if let (Some(f), Some(l)) = (&f, &l) {
        check(eq(f.as_ref(), &m.0[0].1), "first value");
        check(eq(l.as_ref(), &m.0[m.0.len() - 1].1), "last value");
    }
}
