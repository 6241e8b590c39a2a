//! byte strings
use crate::model::Bytes;
use crate::sym::*;
use radixdb::store::*;
use radixdb::*;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use std::sync::Arc;

fn bytes(n: usize) -> Bytes {
    (0..n).map(|_| byte()).collect()
}
/// a blob of the given bytes, made in one of the ways there are
#[inline(never)]
fn make(b: &[u8]) -> Blob<'static> {
    match pick(if b.len() == 3 { 6 } else { 5 }) {
        0 => Blob::copy_from_slice(b),
        1 => Blob::from_arc_vec(Arc::new(b.to_vec())),
        2 => Arc::new(b.to_vec()).into(),
        3 => Blob::new(b).to_owned(),
        4 => {
            // as a store that hands out parts of its memory
            let owner = Arc::new(b.to_vec());
            let data: &'static [u8] = unsafe { std::slice::from_raw_parts(owner.as_ptr(), owner.len()) };
            Blob::owned_new(data, Some(owner))
        }
        _ => Arc::new([b[0], b[1], b[2]]).into(),
    }
}
fn shows(b: &Blob, x: &[u8]) -> bool {
    let (r, d): (&[u8], &[u8]) = (b.as_ref(), b);
    let w: &[u8] = std::borrow::Borrow::borrow(b);
    (b.len() == x.len()) & (r.len() == x.len()) & (d.len() == x.len()) & (w.len() == x.len()) && eq(r, x) & eq(d, x) & eq(w, x)
}
fn bound(n: usize, far: usize) -> (Bound<usize>, usize, usize) {
    // the bound, its position as a start and its position as an end
    let i = pick(n);
    let i = if i + 1 == n { far } else { i };
    match pick(3) {
        0 => (Bound::Included(i), i, i.saturating_add(1)),
        1 => (Bound::Excluded(i), i.saturating_add(1), i),
        _ => (Bound::Unbounded, 0, far),
    }
}
/// slices of slices. params: length, slicings
#[no_mangle]
pub fn h_blob() {
    let live0 = live();
    {
        let b = bytes(param(0));
        let mut x = b.clone();
        let mut l = make(&b);
        drop(b);
        check(shows(&l, &x), "a blob shows the bytes that it was made from");
        for _ in 0..param(1) {
            match pick(4) {
                0 => {
                    // any range
                    let n = x.len();
                    let (s, s0, _) = bound(n + 4, usize::MAX);
                    let (e, _, e1) = bound(n + 4, usize::MAX);
                    let e1 = if let Bound::Unbounded = e { n } else { e1 };
                    let fits = s0 <= e1 && e1 <= n;
                    if !fits {
                        reach("end");
                        expect_panic();
                    }
                    let r = l.slice((s, e));
                    check(fits, "a slice outside of the blob is refused");
                    x = x[s0..e1].to_vec();
                    check(shows(&r, &x), "a slice of a blob shows that part of it");
                    if pick(2) == 1 {
                        l = r;
                    } else {
                        // also without the one that it was made from
                        let c = r.clone();
                        drop(r);
                        drop(std::mem::replace(&mut l, c));
                    }
                }
                1 => {
                    let (i, k) = (pick(x.len() + 1), pick(x.len() + 1));
                    if i > k {
                        continue;
                    }
                    let r = l.slice_ref(&l[i..k]);
                    x = x[i..k].to_vec();
                    check(shows(&r, &x), "a blob that refers to a part of another shows it");
                    l = r;
                }
                2 => {
                    // borrowed and made its own
                    let c = {
                        let t = l.to_vec();
                        Blob::new(&t).to_owned()
                    };
                    check(shows(&c, &x), "an owned copy shows the same bytes");
                    l = c;
                }
                _ => {
                    let c = l.clone().to_owned();
                    drop(l);
                    l = c;
                }
            }
            check(shows(&l, &x), "a blob shows its bytes for as long as it lives");
            observe_bytes(&l);
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
/// slices of a long blob, and what is left when the blob is gone. params: length
#[no_mangle]
pub fn h_blob_large() {
    let live0 = live();
    {
        let n = param(0);
        let mut b: Bytes = (0..n).map(|i| (i * 7) as u8).collect();
        b[0] = byte();
        b[n / 2] = byte();
        b[n - 1] = byte();
        let starts = [0, 1, n / 2, n - 20, n - 1, n];
        let lens = [0, 1, 8, 9, 16, 17, 100, n / 2, n - 1, n];
        let (i, k) = (starts[pick(starts.len())], lens[pick(lens.len())]);
        if i + k > n {
            return;
        }
        let l = if pick(2) == 0 { Blob::new(&b) } else { make(&b) };
        check(shows(&l, &b), "a blob shows the bytes that it was made from");
        let r = match pick(4) {
            0 => l.slice(i..i + k),
            1 => l.slice_ref(&l[i..i + k]),
            2 => l.slice(i..).slice(..k),
            _ => l.clone().to_owned().slice(i..i + k),
        };
        check(shows(&r, &b[i..i + k]), "a slice of a blob shows that part of it");
        if pick(2) == 0 {
            drop(l);
        }
        check(shows(&r, &b[i..i + k]), "a slice of a blob shows that part of it without the blob");
        let o = r.clone().to_owned();
        drop(r);
        check(shows(&o, &b[i..i + k]), "an owned copy shows the same bytes");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
/// a reference to memory that is not part of the blob. params: length
#[no_mangle]
pub fn h_blob_ref() {
    let live0 = live();
    {
        let n = param(0);
        // the blob is the middle of a larger piece
        let all = Blob::copy_from_slice(&bytes(n + 4));
        let l = all.slice(2..2 + n);
        let (i, k) = (pick(n + 5), pick(n + 5));
        assume(i <= k);
        let part = &all[i..k];
        let x = part.to_vec();
        let inside = i >= 2 && k <= 2 + n;
        if !inside && !x.is_empty() {
            reach("end");
            expect_panic();
        }
        let r = l.slice_ref(part);
        check(inside || x.is_empty(), "a part of other memory is refused");
        check(shows(&r, &x), "a blob that refers to a part of another shows it");
        check(shows(&Blob::empty(), &[]), "the empty blob");
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
fn hash<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
/// a hasher that keeps what it is given
#[derive(Default)]
struct Keep(Vec<u8>);
impl Hasher for Keep {
    fn finish(&self) -> u64 {
        0
    }
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
}
/// order, equality and hash of two blobs. params: longest of each, common bytes at the front
#[no_mangle]
pub fn h_blob_cmp() {
    let live0 = live();
    {
        let pad = param(2);
        let mut a = vec![7; pad];
        a.extend(bytes(pick(param(0) + 1)));
        let mut b = vec![7; pad];
        b.extend(bytes(pick(param(1) + 1)));
        let x = make(&a).slice(..);
        let y = Blob::new(&b);
        let same = a.len() == b.len() && eq(&a, &b);
        let less = lt(&a, &b);
        check((x == y) == same, "blobs are equal if their bytes are");
        check((y == x) == same, "equality is symmetric");
        let want = if less {
            std::cmp::Ordering::Less
        } else if same {
            std::cmp::Ordering::Equal
        } else {
            std::cmp::Ordering::Greater
        };
        check(x.partial_cmp(&y) == Some(want), "the order of blobs is the order of their bytes");
        check(y.partial_cmp(&x) == Some(want.reverse()), "the order is antisymmetric");
        check(x.cmp(&y.clone().to_owned()) == want, "the total order is the same");
        check((x < y) == less, "less is less");
        // what is hashed is what hashing the bytes hashes
        let (mut h, mut g) = (Keep::default(), Keep::default());
        x.hash(&mut h);
        a[..].hash(&mut g);
        check(h.0.len() == g.0.len() && eq(&h.0, &g.0), "hashing a blob is hashing its bytes");
        if param(0) < 2 {
            check(hash(&x) == hash(&&a[..]), "the hash of a blob is the hash of its bytes");
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
/// blobs made from the keys of an iterator and from values that were read. params: entries, shape
#[no_mangle]
pub fn h_blob_key() {
    let s = crate::gen::shape(1);
    let live0 = live();
    {
        let m = s.content(param(0));
        let t = crate::gen::tree(&m);
        let mut keys = vec![];
        let mut blobs = vec![];
        for (k, _) in t.iter() {
            blobs.push(k.to_owned_blob());
            if pick(2) == 1 {
                keys.push(k);
            }
        }
        drop(t);
        check(blobs.len() == m.0.len(), "as many keys as entries");
        for (b, (k, _)) in blobs.iter().zip(&m.0) {
            check(shows(b, k), "a blob of a key shows the key");
        }
        drop(keys);
        for (b, (k, _)) in blobs.iter().zip(&m.0) {
            check(shows(b, k), "a blob of a key shows the key when the key is gone");
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
