//! the stores
use crate::file::{self, fs, Fault};
use crate::gen::*;
use crate::stores::ok;
use crate::sym::*;
use radixdb::store::*;
type Bytes = Vec<u8>;

/// a block of a given length: the first, second and last byte arbitrary
#[inline(never)]
pub fn block_of(n: usize) -> Bytes {
    let mut b = vec![0x11; n];
    for i in 0..n {
        b[i] = (i % 5) as u8 + 0x61;
    }
    if n > 0 {
        b[0] = byte();
        b[n - 1] = byte();
    }
    b
}
/// the blocks that have been accepted
pub struct Blocks(pub Vec<([u8; 8], Bytes)>);
impl Blocks {
    #[inline(never)]
    fn readable(&self, s: &PagedFileStore, id: &'static str) {
        for (k, b) in &self.0 {
            let r = ok(s.read(k), id);
            let r: &[u8] = r.as_ref();
            check(r.len() == b.len() && eq(r, b), id);
        }
    }
    fn last(&self) -> Option<[u8; 8]> {
        let f = fs();
        let before = ((f.hole_at + f.hole) as u64).wrapping_sub(4096).to_be_bytes();
        self.0.last().map(|x| x.0).or(if f.hole > 0 { Some(before) } else { None })
    }
    fn push(&mut self, id: &[u8], b: Bytes) {
        check(id.len() == 8, "an id has 8 bytes");
        let mut k = [0; 8];
        k.copy_from_slice(id);
        for (o, _) in &self.0 {
            check(*o != k, "a new id differs from the ids before");
        }
        observe(u64::from_be_bytes(k));
        self.0.push((k, b));
    }
}
#[inline(never)]
pub fn open(page: usize) -> PagedFileStore {
    ok(PagedFileStore::new(file::open(), page as u64), "the file opens")
}

/// the file goes on close to 2^k
#[inline(never)]
fn enlarge(page: usize, k: usize) {
    let f = fs();
    let n = (f.data.len() - 4096) as u64;
    // the size is kept here; if not, the file remains as it is
    if f.data[16..24] == n.to_be_bytes() {
        let hole = ((1 << k) / page - 1) * page;
        f.make_hole(hole);
        f.data[16..24].copy_from_slice(&(n + hole as u64).to_be_bytes());
    }
}

/// blocks of any size are read back, at once, later, and after reopening at any point
/// params: page size, blocks, sizes (0: any up to the page size, else that many: the smallest and
/// the largest), reopen (0: at the end, 1: any time), when not 0: after the first block the file
/// is continued at this power of two as if there were other blocks between
#[no_mangle]
pub fn h_paged() {
    let page = param(0);
    let live0 = live();
    {
        file::create();
        let mut s = open(page);
        check(s.last_id().is_none(), "a new store has no last block");
        let mut all = Blocks(vec![]);
        let mut last = None;
        let limit = page - 8;
        for i in 0..param(1) {
            if i == 1 && param(4) > 0 {
                drop(s);
                enlarge(page, param(4));
                s = open(page);
                if fs().hole > 0 {
                    last = Some((u64::from_be_bytes(last.unwrap_or_default()) + fs().hole as u64).to_be_bytes());
                }
            }
            let n = if param(2) == 0 {
                pick(limit + 2)
            } else {
                let k = pick(param(2));
                if k < param(2) / 2 {
                    k
                } else {
                    limit + 2 - (param(2) - k)
                }
            };
            if param(3) > 0 && pick(2) == 1 {
                drop(s);
                s = open(page);
                check(s.last_id() == last, "the last block after reopening");
            }
            let b = block_of(n);
            match s.write(&b) {
                Ok(id) => {
                    check(n <= limit, "a block that does not fit is refused");
                    let r = ok(s.read(&id), "a block can be read at once");
                    let r: &[u8] = r.as_ref();
                    check(r.len() == n && eq(r, &b), "a block is read back at once");
                    all.push(&id, b);
                    last = all.last();
                }
                Err(e) => {
                    drop(e);
                    check(n > limit, "a block that fits is accepted");
                }
            }
            check(s.last_id() == last, "the last block");
        }
        // a clone shows the same
        let c = s.clone();
        all.readable(&c, "a block is read back");
        check(c.last_id() == last, "the last block of a clone");
        drop(s);
        // blobs outlive the store
        let mut keep = vec![];
        for (k, _) in &all.0 {
            keep.push(ok(c.read(k), "a block is read back again"));
        }
        drop(c);
        let t = open(page);
        check(t.last_id() == last, "the last block after reopening");
        all.readable(&t, "a block is read back after reopening");
        let b = block_of(2.min(limit));
        let id = ok(t.write(&b), "writing after reopening");
        all.push(&id, b);
        all.readable(&t, "a block is read back after reopening and writing");
        for (i, k) in keep.iter().enumerate() {
            let k: &[u8] = k.as_ref();
            check(eq(k, &all.0[i].1), "a blob that was read stays what it was");
        }
        drop(t);
        drop(keep);
        check(fs().opened() == 0, "[C24] files and mappings are closed");
        file::delete();
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// a file that goes on close to 2^k; its first block is kept
#[inline(never)]
fn large(page: usize, k: usize) -> Blocks {
    let mut first = Blocks(vec![]);
    if k > 0 {
        let s = open(page);
        let b = block_of(3.min(page - 8));
        first.push(&ok(s.write(&b), "a block that fits is accepted"), b);
        drop(s);
        enlarge(page, k);
        // all of this is on the disk
        let image = fs().data.clone();
        fs().restore(image);
    }
    first
}
/// one of `kinds` sizes: the smallest and the largest that a block can have (0: any)
fn size(kinds: usize, limit: usize) -> usize {
    if kinds == 0 {
        return pick(limit + 1);
    }
    let k = pick(kinds);
    if k <= kinds / 2 {
        k.min(limit)
    } else {
        limit + 1 - (kinds - k)
    }
}
/// the file as it is after a crash: what was appended is there, and the store can be used
#[inline(never)]
fn recovered(page: usize, mut all: Blocks, inflight: Option<([u8; 8], Bytes)>, kinds: usize) {
    let s = open(page);
    all.readable(&s, "a block is read back after the crash");
    let last = s.last_id();
    if last != all.last() {
        match (&inflight, last) {
            (Some((id, b)), Some(l)) if *id == l => {
                let r = ok(s.read(id), "the last block after a crash can be read");
                check(eq(r.as_ref(), b), "the last block after a crash is complete");
            }
            _ => check(false, "the last block after a crash is one that was appended"),
        }
        all.0.push(inflight.unwrap());
    }
    let b = block_of(size(kinds, page - 8));
    let id = ok(s.write(&b), "appending after a crash");
    all.push(&id, b);
    all.readable(&s, "a block is read back after the crash and an append");
    check(s.last_id() == all.last(), "the last block after a crash and an append");
    drop(s);
    let s = open(page);
    check(s.last_id() == all.last(), "the last block after a crash, an append and reopening");
    all.readable(&s, "a block is read back after a crash, an append and reopening");
}

/// the process dies at any change of the file
/// params: page size, blocks, sizes, sizes after the crash, reopened before the last block or not,
/// when not 0: the file is large (as above), 1: the process dies a second time
#[no_mangle]
pub fn h_crash() {
    let page = param(0);
    let n = param(1);
    let live0 = live();
    {
        file::create();
        let first = large(page, param(5));
        fs().crash_at = fs().changes + pick(4 + 5 * n);
        fs().crash_cut = pick(4);
        let mut s = open(page);
        let mut all = Blocks(vec![]);
        let mut inflight = None;
        for i in 0..n {
            if fs().image.is_some() {
                break;
            }
            if param(4) == 1 && i + 1 == n {
                drop(s);
                s = open(page);
                if fs().image.is_some() {
                    break;
                }
            }
            let b = block_of(size(param(2), page - 8));
            let id = ok(s.write(&b), "a block that fits is accepted");
            if fs().image.is_some() {
                let mut k = [0; 8];
                k.copy_from_slice(&id);
                inflight = Some((k, b));
            } else {
                all.push(&id, b);
            }
        }
        drop(s);
        assume(fs().image.is_some());
        let image = fs().image.take().unwrap();
        fs().restore(image);
        if param(6) > 0 {
            fs().crash_at = fs().changes + pick(6);
            fs().crash_cut = pick(4);
            let s = open(page);
            all.readable(&s, "a block is read back after the crash");
            if let Some(x) = inflight.take() {
                if s.last_id() == Some(x.0) {
                    all.0.push(x);
                }
            }
            check(s.last_id() == all.last(), "the last block after a crash is one that was appended");
            if fs().image.is_none() {
                let b = block_of(size(param(3), page - 8));
                let id = ok(s.write(&b), "appending after a crash");
                if fs().image.is_some() {
                    let mut k = [0; 8];
                    k.copy_from_slice(&id);
                    inflight = Some((k, b));
                } else {
                    all.push(&id, b);
                }
            }
            drop(s);
            assume(fs().image.is_some());
            let image = fs().image.take().unwrap();
            fs().restore(image);
        }
        recovered(page, all, inflight, param(3));
        first.readable(&open(page), "the first block is read back after the crash");
        check(fs().opened() == 0, "[C24] files and mappings are closed");
        file::delete();
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// loss of power after a sync and more appends
/// params: page size, blocks before the sync, blocks after it, sizes before, sizes after
#[no_mangle]
pub fn h_power() {
    let page = param(0);
    let live0 = live();
    {
        file::create();
        let s = open(page);
        let mut all = Blocks(vec![]);
        for _ in 0..param(1) {
            let b = block_of(size(param(3), page - 8));
            let id = ok(s.write(&b), "a block that fits is accepted");
            all.push(&id, b);
        }
        ok(s.sync(), "sync succeeds");
        for _ in 0..param(2) {
            let b = block_of(size(param(4), page - 8));
            ok(s.write(&b), "a block that fits is accepted");
        }
        drop(s);
        let image = fs().power_loss();
        fs().restore(image);
        let s = open(page);
        all.readable(&s, "a block is read back after a loss of power");
        drop(s);
        file::delete();
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// appends, syncs that can fail, and reopening in any order, then a loss of power
/// params: page size, steps, sizes, calls that can fail, when not 0: the file is large
#[no_mangle]
pub fn h_sync() {
    let page = param(0);
    let live0 = live();
    {
        file::create();
        let first = large(page, param(4));
        let mut s = open(page);
        fs().fault_at = fs().calls + pick(param(3) + 1);
        fs().fault = [Fault::Fail, Fault::Part][pick(2)];
        let mut all = Blocks(vec![]);
        let mut safe = None;
        for i in 0..param(1) {
            let before = fs().faults;
            let failed = match if i == 0 { 0 } else { pick(3) } {
                0 => {
                    let b = block_of(size(param(2), page - 8));
                    match s.write(&b) {
                        Ok(id) => {
                            all.push(&id, b);
                            false
                        }
                        Err(e) => {
                            drop(e);
                            true
                        }
                    }
                }
                1 => match s.sync() {
                    Ok(()) => {
                        safe = Some(all.0.len());
                        false
                    }
                    Err(e) => {
                        drop(e);
                        true
                    }
                },
                _ => {
                    drop(s);
                    match PagedFileStore::new(file::open(), page as u64) {
                        Ok(x) => {
                            s = x;
                            false
                        }
                        Err(e) => {
                            drop(e);
                            s = open(page);
                            true
                        }
                    }
                }
            };
            check(!failed || fs().faults > before, "a call fails only if one of the system does");
        }
        // what was not said to be safe is not looked at
        assume(safe.is_some());
        all.0.truncate(safe.unwrap());
        drop(s);
        let image = fs().power_loss();
        fs().restore(image);
        let s = open(page);
        all.readable(&s, "a block is read back after a loss of power");
        first.readable(&s, "the first block is read back after a loss of power");
        drop(s);
        check(fs().opened() == 0, "[C24] files and mappings are closed");
        file::delete();
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// after a fault the last block is the last one that was accepted, or the one that was refused
/// but is complete
#[inline(never)]
fn last_ok(s: &PagedFileStore, all: &mut Blocks, refused: &Option<Bytes>) -> bool {
    match (s.last_id(), refused) {
        (None, _) => all.last().is_none(),
        (Some(l), _) if Some(l) == all.last() => true,
        (Some(l), Some(b)) => match s.read(&l) {
            Ok(x) => {
                let e = eq(x.as_ref(), b);
                all.0.push((l, b.clone()));
                e
            }
            Err(_) => false,
        },
        _ => false,
    }
}

/// a call to the system fails
/// params: page size, blocks, sizes, calls that can fail, kinds of faults, reads between, when not 0: the file is large
#[no_mangle]
pub fn h_fault() {
    let page = param(0);
    let n = param(1);
    let live0 = live();
    {
        file::create();
        let first = large(page, param(6));
        fs().fault_at = fs().calls + pick(param(3));
        fs().fault = [Fault::Fail, Fault::Part, Fault::Short, Fault::Intr][pick(param(4))];
        let mut all = Blocks(vec![]);
        let mut refused = None;
        let mut s = None;
        for i in 0..n + 2 {
            if s.is_none() {
                let before = fs().faults;
                match PagedFileStore::new(file::open(), page as u64) {
                    Ok(x) => s = Some(x),
                    Err(e) => {
                        drop(e);
                        check(fs().faults > before, "opening fails only if a call fails");
                        s = Some(open(page));
                    }
                }
                check(last_ok(s.as_ref().unwrap(), &mut all, &refused), "the last block after a fault and reopening");
            }
            let t = s.as_ref().unwrap();
            if i == n {
                let before = fs().faults;
                let r = t.sync();
                check(r.is_ok() || fs().faults > before, "syncing fails only if a call fails");
                drop(r);
                s = None;
                continue;
            }
            let b = block_of(size(param(2), page - 8));
            let before = fs().faults;
            let lost = fs().fault_at;
            match t.write(&b) {
                Ok(id) => all.push(&id, b),
                Err(e) => {
                    drop(e);
                    check(fs().faults > before, "appending fails only if a call fails");
                    refused = Some(b.clone());
                    if before < fs().faults && pick(2) == 1 {
                        // give up, and look at what is in the file
                        fs().fault_at = file::NEVER;
                        s = None;
                        let r = open(page);
                        all.readable(&r, "a block is read back after a fault and reopening");
                        check(last_ok(&r, &mut all, &refused), "the last block after a fault");
                        fs().fault_at = lost;
                        s = Some(r);
                    }
                }
            }
            if let Some(t) = &s {
                for j in 0..all.0.len() {
                    if param(5) == 0 && i + 1 < n {
                        break;
                    }
                    let before = fs().faults;
                    match t.read(&all.0[j].0) {
                        Ok(r) => check(eq(r.as_ref(), &all.0[j].1), "a block is read back after a fault"),
                        Err(e) => {
                            drop(e);
                            check(fs().faults > before, "reading fails only if a call fails");
                            let r = ok(t.read(&all.0[j].0), "a block is read back after a failed read");
                            check(eq(r.as_ref(), &all.0[j].1), "a block is read back after a failed read");
                        }
                    }
                }
            }
        }
        assume(fs().faults > 0);
        drop(s);
        let s = open(page);
        all.readable(&s, "a block is read back after a fault and reopening");
        first.readable(&s, "a block is read back after a fault and reopening");
        drop(s);
        check(fs().opened() == 0, "[C24] files and mappings are closed");
        file::delete();
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// the store in memory
/// params: appends, longest block
#[no_mangle]
pub fn h_mem() {
    let live0 = live();
    {
        let s = MemStore::default();
        let mut all: Vec<(Bytes, Bytes)> = vec![];
        check(s.count() == 0, "a new store is empty");
        let mut keep = vec![];
        for i in 0..param(0) {
            let b = block_of(pick(param(1) + 1));
            // through a clone or the store itself
            let id = if pick(2) == 0 { ok(s.write(&b), "appending succeeds") } else { ok(s.clone().write(&b), "appending succeeds") };
            observe_bytes(&id);
            for (o, _) in &all {
                check(!(o.len() == id.len() && eq(o, &id)), "a new id differs from the ids before");
            }
            all.push((id, b));
            check(s.count() == i + 1, "the number of blocks");
            keep.push(ok(s.read(&all[i].0), "a block is read back at once"));
            for (id, b) in &all {
                let r = ok(s.read(id), "a block is read back");
                check(r.len() == b.len() && eq(r.as_ref(), b), "a block is read back");
            }
        }
        ok(s.sync(), "sync succeeds");
        // an id that was never given out
        let mut x = vec![];
        for _ in 0..[0, 1, 7, 8, 9][pick(5)] {
            x.push(byte());
        }
        let mut known = false;
        for (id, b) in &all {
            if id.len() == x.len() && eq(id, &x) {
                known = true;
                let r = ok(s.read(&x), "a block is read back");
                check(eq(r.as_ref(), b), "a block is read back");
            }
        }
        if !known {
            let r = s.read(&x);
            check(r.is_err(), "reading an id that was never given out is an error");
        }
        drop(s);
        for (i, k) in keep.iter().enumerate() {
            check(eq(k.as_ref(), &all[i].1), "a blob that was read stays what it was");
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// any page size is refused or works, with blocks of any size
/// params: largest page size, blocks
#[no_mangle]
pub fn h_page_sizes() {
    let live0 = live();
    {
        let page = pick(param(0) + 1);
        file::create();
        match PagedFileStore::new(file::open(), page as u64) {
            Err(e) => {
                drop(e);
                check(page % 8 != 0 || page == 0, "page sizes that are divisible by 8 can be used");
            }
            Ok(s) => {
                let mut all = Blocks(vec![]);
                for _ in 0..param(1) {
                    let n = [0, 1, page / 2, page.saturating_sub(9), page.saturating_sub(8), page, page + 100][pick(7)];
                    let b = block_of(n);
                    match s.write(&b) {
                        Ok(id) => {
                            all.push(&id, b);
                            all.readable(&s, "a block is read back");
                        }
                        Err(e) => {
                            drop(e);
                            check(n + 8 > page, "a block that fits is accepted");
                        }
                    }
                }
                drop(s);
                let s = open(page);
                check(s.last_id() == all.last(), "the last block after reopening");
                all.readable(&s, "a block is read back after reopening");
            }
        }
        check(fs().opened() == 0, "[C24] files and mappings are closed");
        file::delete();
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// whatever id is given, reading from a store ends in an error or in some bytes
/// params: page size, blocks, size of a block
#[no_mangle]
pub fn h_ids() {
    let page = param(0);
    let live0 = live();
    {
        file::create();
        let s = open(page);
        let mut all = Blocks(vec![]);
        for _ in 0..param(1) {
            let mut b = vec![0; param(2)];
            for i in 0..b.len() {
                b[i] = byte();
            }
            let id = ok(s.write(&b), "a block that fits is accepted");
            all.push(&id, b);
        }
        let len = fs().data.len() as u64;
        let s = if pick(2) == 0 {
            s
        } else {
            drop(s);
            open(page)
        };
        let mut id = vec![];
        match pick(2) {
            0 => {
                // of another length
                for _ in 0..[0, 1, 7, 9][pick(4)] {
                    id.push(byte());
                }
            }
            _ => {
                let k = pick((len - 4096) as usize + 6 + 8);
                let x = if k < 6 { [u64::MAX, u64::MAX - 4095, u64::MAX - 4096, 1 << 63, 1 << 32, len][k] } else { k as u64 - 6 };
                id = x.to_be_bytes().to_vec();
            }
        }
        match s.read(&id) {
            Ok(r) => {
                let mut k = 0;
                for b in r.as_ref().iter() {
                    k ^= *b;
                }
                observe(k as u64);
            }
            Err(e) => drop(e),
        }
        // the store is as good as before
        all.readable(&s, "a block is read back after reading some other id");
        drop(s);
        file::delete();
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// more blocks in memory than some numbers can count; each is read back once
/// params: blocks
#[no_mangle]
pub fn h_mem_many() {
    let live0 = live();
    {
        let s = MemStore::default();
        let n = param(0);
        let mut ids: Vec<Bytes> = Vec::with_capacity(n);
        let mark = byte();
        let block = |i: usize| [mark, i as u8, (i >> 8) as u8, (i >> 16) as u8];
        for i in 0..n {
            ids.push(ok(s.write(&block(i)), "appending succeeds"));
        }
        check(s.count() == n, "the number of blocks");
        for i in 0..n {
            let r = ok(s.read(&ids[i]), "one of many blocks can be read");
            check(eq(r.as_ref(), &block(i)), "one of many blocks is read back");
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}

/// many blocks, of lengths that are fixed, read in any of three orders, before and after reopening
/// params: page size (0: the store in memory), blocks, multiplier of the lengths
#[no_mangle]
pub fn h_many() {
    let page = param(0);
    let n = param(1);
    let live0 = live();
    {
        let mut all: Vec<(Bytes, Bytes)> = vec![];
        let reopen = pick(3) * n / 3;
        let order = pick(3);
        let mark = byte();
        let block = |i: usize| {
            let len = i * param(2) % if page == 0 { 40 } else { page - 7 };
            let mut b = vec![i as u8; len];
            if len > 0 {
                b[0] = mark;
            }
            if len > 2 {
                b[len - 1] = (i / 256) as u8;
            }
            b
        };
        let read_all = |all: &Vec<(Bytes, Bytes)>, read: &dyn Fn(&[u8]) -> Option<Blob<'static>>| {
            for j in 0..all.len() {
                let j = match order {
                    0 => j,
                    1 => all.len() - 1 - j,
                    // near and far in turn
                    _ => if j % 2 == 0 { j / 2 } else { all.len() - 1 - j / 2 },
                };
                match read(&all[j].0) {
                    Some(r) => check(r.len() == all[j].1.len() && eq(r.as_ref(), &all[j].1), "one of many blocks is read back"),
                    None => check(false, "one of many blocks can be read"),
                }
            }
        };
        let mut ids = std::collections::BTreeSet::new();
        if page == 0 {
            let s = MemStore::default();
            for i in 0..n {
                let b = block(i);
                let id = ok(s.write(&b), "appending succeeds");
                check(ids.insert(id.clone()), "a new id differs from the ids before");
                all.push((id, b));
            }
            check(s.count() == n, "the number of blocks");
            read_all(&all, &|id| s.read(id).ok());
        } else {
            file::create();
            let mut s = open(page);
            for i in 0..n {
                if i == reopen {
                    drop(s);
                    s = open(page);
                }
                let b = block(i);
                let id = ok(s.write(&b), "a block that fits is accepted");
                check(ids.insert(id.clone()), "a new id differs from the ids before");
                all.push((id, b));
            }
            read_all(&all, &|id| s.read(id).ok());
            read_all(&all, &|id| s.read(id).ok());
            drop(s);
            let s = open(page);
            read_all(&all, &|id| s.read(id).ok());
            drop(s);
            check(fs().opened() == 0, "[C24] files and mappings are closed");
            file::delete();
        }
        reach("end");
    }
    check(live() == live0, "[C24] no memory is leaked");
}
