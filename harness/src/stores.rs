//! A store that numbers its blocks, counts accesses, and can be told to fail.
use crate::model::*;
use crate::sym::*;
use radixdb::node::*;
use radixdb::store::*;
use radixdb::*;
use std::cell::UnsafeCell;
use std::sync::Arc;

pub const NEVER: usize = usize::MAX;
pub struct Inner {
    pub blocks: Vec<Bytes>,
    pub idlen: usize,
    pub reads: usize,
    pub writes: usize,
    pub accesses: usize,
    pub fail_at: usize,
    pub failed: usize,
    /// fails from here on
    pub limit: usize,
    /// a read of something that was never written
    pub stray: usize,
}
#[derive(Clone)]
pub struct Store(Arc<Shared>);
struct Shared(UnsafeCell<Inner>);
unsafe impl Sync for Shared {}
unsafe impl Send for Shared {}
impl std::fmt::Debug for Store {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Store")
    }
}
#[derive(Debug)]
pub enum Error {
    /// the store was told to fail
    Fault,
    /// no such block
    Unknown,
    /// an error of the library
    Other,
}
impl From<NoError> for Error {
    fn from(e: NoError) -> Self {
        match e {}
    }
}
impl From<anyhow::Error> for Error {
    fn from(e: anyhow::Error) -> Self {
        drop(e);
        Error::Other
    }
}
impl Store {
    pub fn new(idlen: usize) -> Self {
        Store(Arc::new(Shared(UnsafeCell::new(Inner {
            blocks: Vec::new(),
            idlen,
            reads: 0,
            writes: 0,
            accesses: 0,
            fail_at: NEVER,
            failed: 0,
            limit: NEVER,
            stray: 0,
        }))))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn inner(&self) -> &mut Inner {
        unsafe { &mut *self.0 .0.get() }
    }
    pub fn id_of(&self, i: usize) -> Bytes {
        let n = self.inner().idlen;
        let mut id = vec![0xa5; n];
        id[n - 1] = (i + 1) as u8;
        if i >= 255 {
            id[n - 2] += ((i + 1) / 256) as u8;
        }
        id
    }
    pub fn index_of(&self, id: &[u8]) -> Option<usize> {
        let n = self.inner().idlen;
        if id.len() != n {
            return None;
        }
        let many = self.inner().blocks.len() > 255;
        for i in 0..n - 1 - many as usize {
            if id[i] != 0xa5 {
                return None;
            }
        }
        let mut k = id[n - 1] as usize;
        if many {
            k += 256 * id[n - 2].wrapping_sub(0xa5) as usize;
        }
        if k == 0 || k > self.inner().blocks.len() {
            return None;
        }
        Some(k - 1)
    }
    fn access(&self) -> Result<(), Error> {
        let s = self.inner();
        s.accesses += 1;
        if s.accesses - 1 == s.fail_at || s.accesses > s.limit {
            s.failed += 1;
            return Err(Error::Fault);
        }
        Ok(())
    }
}
impl BlobStore for Store {
    type Error = Error;
    fn read(&self, id: &[u8]) -> Result<Blob<'static>, Error> {
        self.access()?;
        self.inner().reads += 1;
        match self.index_of(id) {
            Some(i) => Ok(Blob::copy_from_slice(&self.inner().blocks[i])),
            None => {
                self.inner().stray += 1;
                Err(Error::Unknown)
            }
        }
    }
    fn write(&self, data: &[u8]) -> Result<Bytes, Error> {
        self.access()?;
        let s = self.inner();
        s.writes += 1;
        s.blocks.push(data.to_vec());
        assert!(s.blocks.len() < if s.idlen == 1 { 256 } else { 10000 });
        Ok(self.id_of(s.blocks.len() - 1))
    }
    fn sync(&self) -> Result<(), Error> {
        self.access()
    }
}
/// the operation was carried out; if not, that is a violation
pub fn ok<T, E>(r: Result<T, E>, id: &'static str) -> T {
    match r {
        Ok(x) => x,
        Err(e) => {
            std::mem::forget(e);
            check(false, id);
            assume(false);
            loop {}
        }
    }
}
#[inline(never)]
pub fn load<S: BlobStore>(v: &Value<S>, s: &S) -> Bytes {
    let b = ok(v.load(s), "a value can be read");
    let b: &[u8] = b.as_ref();
    b.to_vec()
}
/// what an attached tree holds, through its iterator
#[inline(never)]
pub fn att_content<S: BlobStore + Clone>(t: &RadixTree<S>) -> Map {
    let s = RadixTree::store(t).clone();
    let mut m = Map::new();
    for x in t.try_iter() {
        let (k, v) = ok(x, "iterating an attached tree succeeds");
        let k: &[u8] = k.as_ref();
        m.0.push((k.to_vec(), load(&v, &s)));
    }
    m
}
#[inline(never)]
pub fn check_att<S: BlobStore + Clone>(t: &RadixTree<S>, m: &Map, id: &'static str) {
    let c = att_content(t);
    crate::gen::observe_map(&c);
    check(same(&c, m), id);
    let s = RadixTree::store(t).clone();
    let f = ok(t.try_first_value(), "first_value succeeds");
    let l = ok(t.try_last_value(), "last_value succeeds");
    check(f.is_some() == !m.0.is_empty() && l.is_some() == !m.0.is_empty(), "first and last value are there iff there are entries");
    if let (Some(f), Some(l)) = (&f, &l) {
        check(eq(&load(f, &s), &m.0[0].1), "first value");
        check(eq(&load(l, &s), &m.0[m.0.len() - 1].1), "last value");
    }
    check(ok(t.try_detached(), "detaching succeeds") == crate::gen::tree(m), "the tree equals the tree built from its entries");
}
