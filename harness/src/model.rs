//! The specification: a map from byte strings to byte strings, kept as a sorted vector.
use crate::sym::*;
pub type Bytes = Vec<u8>;

#[derive(Clone, Default)]
pub struct Map(pub Vec<(Bytes, Bytes)>);

impl Map {
    pub fn new() -> Self {
        Map(Vec::new())
    }
    /// position of the first key that is not less than `k`, and whether it is `k`
    fn pos(&self, k: &[u8]) -> (usize, bool) {
        let mut i = 0;
        while i < self.0.len() {
            if !lt(&self.0[i].0, k) {
                return (i, eq(&self.0[i].0, k));
            }
            i += 1;
        }
        (i, false)
    }
    pub fn insert(&mut self, k: &[u8], v: &[u8]) {
        let (i, f) = self.pos(k);
        if f {
            self.0[i].1 = v.to_vec();
        } else {
            self.0.insert(i, (k.to_vec(), v.to_vec()));
        }
    }
    pub fn remove(&mut self, k: &[u8]) {
        let (i, f) = self.pos(k);
        if f {
            self.0.remove(i);
        }
    }
    pub fn get(&self, k: &[u8]) -> Option<&Bytes> {
        let (i, f) = self.pos(k);
        if f {
            Some(&self.0[i].1)
        } else {
            None
        }
    }
    pub fn filter(&self, mut f: impl FnMut(&[u8], &[u8]) -> bool) -> Map {
        let mut r = Map::new();
        for (k, v) in &self.0 {
            if f(k, v) {
                r.0.push((k.clone(), v.clone()));
            }
        }
        r
    }
}
/// all keys of a and b in order, with what each side holds
pub fn join<'a>(a: &'a Map, b: &'a Map) -> Vec<(&'a [u8], Option<&'a Bytes>, Option<&'a Bytes>)> {
    let (mut i, mut j) = (0, 0);
    let mut r = Vec::new();
    loop {
        match (a.0.get(i), b.0.get(j)) {
            (None, None) => break,
            (Some(x), None) => {
                r.push((&x.0[..], Some(&x.1), None));
                i += 1;
            }
            (None, Some(y)) => {
                r.push((&y.0[..], None, Some(&y.1)));
                j += 1;
            }
            (Some(x), Some(y)) => {
                if lt(&x.0, &y.0) {
                    r.push((&x.0[..], Some(&x.1), None));
                    i += 1;
                } else if lt(&y.0, &x.0) {
                    r.push((&y.0[..], None, Some(&y.1)));
                    j += 1;
                } else {
                    r.push((&x.0[..], Some(&x.1), Some(&y.1)));
                    i += 1;
                    j += 1;
                }
            }
        }
    }
    r
}
/// p is a prefix of k
pub fn is_prefix(p: &[u8], k: &[u8]) -> bool {
    p.len() <= k.len() && eq(p, &k[..p.len()])
}
/// does a hold exactly the same entries as b (one condition, no path split on the bytes)
pub fn same(a: &Map, b: &Map) -> bool {
    if a.0.len() != b.0.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.0.len() {
        r = r & eq(&a.0[i].0, &b.0[i].0) & eq(&a.0[i].1, &b.0[i].1);
    }
    r
}
