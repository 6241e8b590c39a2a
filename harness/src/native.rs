//! Native replay of models found by the solver.
//!   harness one NAME PARAMS.. : VALUES..          run one, verbose; exit 1 on a violation
//!   harness batch FILE                             compare every line's observations
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Barrier, Mutex};

struct Counting;
static LIVE: AtomicI64 = AtomicI64::new(0);
fn count(n: i64) {
    if COUNTS.with(|c| c.get()) {
        LIVE.fetch_add(n, Ordering::Relaxed);
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        count(1);
        let p = System.alloc(l);
        std::ptr::write_bytes(p, 0xCD, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        count(1);
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        count(-1);
        std::ptr::write_bytes(p, 0xDD, l.size());
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

struct Assume;
thread_local! {
    static PARAMS: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    static VALUES: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    static POS: Cell<usize> = const { Cell::new(0) };
    static OBS: RefCell<Vec<u64>> = const { RefCell::new(vec![]) };
    /// whether this thread's allocations are counted
    static COUNTS: Cell<bool> = const { Cell::new(false) };
    static EXPECT: Cell<bool> = const { Cell::new(false) };
}
static FAILED: Mutex<Vec<String>> = Mutex::new(vec![]);
static PANIC: Mutex<Option<String>> = Mutex::new(None);
fn next() -> u64 {
    let p = POS.with(|p| {
        let x = p.get();
        p.set(x + 1);
        x
    });
    VALUES.with(|v| v.borrow().get(p).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn __sym_u8() -> u8 {
    next() as u8
}
#[no_mangle]
extern "C" fn __sym_u64() -> u64 {
    next()
}
#[no_mangle]
extern "C" fn __sym_choice(n: u64) -> u64 {
    if n <= 1 {
        0
    } else {
        next() % n
    }
}
#[no_mangle]
extern "C" fn __sym_param(i: u64) -> u64 {
    PARAMS.with(|v| v.borrow().get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn __sym_concrete(x: u64) -> u64 {
    x
}
#[no_mangle]
extern "C-unwind" fn __sym_assume(c: bool) {
    if !c {
        std::panic::resume_unwind(Box::new(Assume));
    }
}
#[no_mangle]
extern "C" fn __sym_check(c: bool, id: *const u8, len: usize) {
    if !c {
        let s = unsafe { std::slice::from_raw_parts(id, len) };
        let s = String::from_utf8_lossy(s).into_owned();
        let live = LIVE.load(Ordering::Relaxed);
        FAILED.lock().unwrap().push(s);
        LIVE.store(live, Ordering::Relaxed);
    }
}
#[no_mangle]
extern "C" fn __sym_observe(x: u64) {
    OBS.with(|o| {
        let mut o = o.borrow_mut();
        if o.len() < o.capacity() {
            o.push(x)
        } else {
            let live = LIVE.load(Ordering::Relaxed);
            o.push(x);
            LIVE.store(live, Ordering::Relaxed);
        }
    })
}
#[no_mangle]
extern "C" fn __sym_reach(_: *const u8, _: usize) {}
#[no_mangle]
extern "C" fn __sym_expect_panic(c: bool) {
    EXPECT.with(|e| e.set(c));
}
#[no_mangle]
extern "C" fn __sym_live() -> u64 {
    LIVE.load(Ordering::Relaxed) as u64
}

type Job = extern "C-unwind" fn(*mut u8);
thread_local! {
    static JOBS: RefCell<Vec<(Job, usize)>> = const { RefCell::new(vec![]) };
}
#[no_mangle]
extern "C" fn __sym_spawn(f: Job, data: *mut u8, _: u64) {
    let c = COUNTS.with(|c| c.replace(false));
    JOBS.with(|j| j.borrow_mut().push((f, data as usize)));
    COUNTS.with(|x| x.set(c));
}
static SEED: AtomicU64 = AtomicU64::new(1);
#[no_mangle]
extern "C-unwind" fn __sym_join() {
    let c = COUNTS.with(|c| c.replace(false));
    let jobs = JOBS.with(|j| std::mem::take(&mut *j.borrow_mut()));
    let start = Barrier::new(jobs.len());
    let r: Vec<_> = std::thread::scope(|s| {
        let h: Vec<_> = jobs
            .iter()
            .map(|(f, x)| {
                let (f, x, start) = (*f, *x, &start);
                s.spawn(move || {
                    let r = SEED.fetch_add(0x9e3779b97f4a7c15, Ordering::Relaxed);
                    start.wait();
                    for _ in 0..(r >> 32) % 64 * ((r >> 20) % 16) {
                        std::hint::spin_loop();
                    }
                    f(x as *mut u8)
                })
            })
            .collect();
        h.into_iter().map(|h| h.join()).collect()
    });
    COUNTS.with(|x| x.set(c));
    for x in r {
        if let Err(e) = x {
            std::panic::resume_unwind(e);
        }
    }
}
static QUIET: AtomicBool = AtomicBool::new(false);
#[no_mangle]
extern "C" fn __sym_quiet(on: bool) {
    if on {
        while QUIET.swap(true, Ordering::Acquire) {
            std::thread::yield_now();
        }
    } else {
        QUIET.store(false, Ordering::Release);
    }
}

fn run(h: fn(), params: Vec<u64>, values: Vec<u64>) -> (Option<String>, Vec<String>, Vec<u64>, bool) {
    PARAMS.with(|p| *p.borrow_mut() = params);
    VALUES.with(|p| *p.borrow_mut() = values);
    POS.with(|p| p.set(0));
    OBS.with(|o| o.borrow_mut().clear());
    FAILED.lock().unwrap().clear();
    *PANIC.lock().unwrap() = None;
    EXPECT.with(|e| e.set(false));
    COUNTS.with(|c| c.set(true));
    let r = std::panic::catch_unwind(h);
    COUNTS.with(|c| c.set(false));
    let mut assumed = false;
    let ended = r.is_ok();
    let mut panic = None;
    if let Err(e) = r {
        if e.is::<Assume>() {
            assumed = true;
        } else if EXPECT.with(|e| e.get()) {
            // as it should be
        } else {
            panic = Some(PANIC.lock().unwrap().take().unwrap_or_default());
        }
    }
    if ended && EXPECT.with(|e| e.get()) {
        FAILED.lock().unwrap().push("expected panic did not happen".into());
    }
    (panic, FAILED.lock().unwrap().clone(), OBS.with(|o| o.borrow().clone()), assumed)
}
fn hash_obs(o: &[u64]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for x in o {
        for b in x.to_le_bytes() {
            h = (h ^ b as u64).wrapping_mul(0x100000001b3);
        }
    }
    h
}

pub fn main(table: &[(&str, fn())]) {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let l = i.location().map(|l| format!("{}:{}:{}", l.file(), l.line(), l.column())).unwrap_or_default();
        let m = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_default();
        let mut p = PANIC.lock().unwrap();
        if p.is_none() {
            *p = Some(format!("{} ({})", l, m))
        }
    }));
    OBS.with(|o| o.borrow_mut().reserve(1 << 16));
    let find = |n: &str| table.iter().find(|t| t.0 == n).map(|t| t.1).unwrap_or_else(|| panic!("no harness {}", n));
    if a.len() > 2 && a[1] == "one" {
        let sep = a.iter().position(|x| x == ":").unwrap();
        let params: Vec<u64> = a[3..sep].iter().map(|x| x.parse().unwrap()).collect();
        let values: Vec<u64> = a[sep + 1..].iter().map(|x| x.parse().unwrap()).collect();
        let h = find(&a[2]);
        let times: usize = std::env::var("REPEAT").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
        let mut r = run(h, params.clone(), values.clone());
        for _ in 1..times {
            if r.0.is_some() || !r.1.is_empty() {
                break;
            }
            r = run(h, params.clone(), values.clone());
        }
        let (panic, failed, obs, assumed) = r;
        println!("obs {:x}", hash_obs(&obs));
        if std::env::var("OBS").is_ok() {
            println!("{:?}", obs);
        }
        if assumed {
            println!("assumption not met");
        }
        for f in &failed {
            println!("FAILED check: {}", f);
        }
        if let Some(p) = &panic {
            println!("PANIC at {}", p);
        }
        std::process::exit(if panic.is_some() || !failed.is_empty() { 1 } else { 0 });
    }
    if a.len() > 2 && a[1] == "batch" {
        let mut n = 0u64;
        let mut bad = 0u64;
        for l in std::fs::read_to_string(&a[2]).unwrap().lines() {
            let mut it = l.split(" : ");
            let head = it.next().unwrap_or("");
            let vals = it.next().unwrap_or("");
            let want = it.next().unwrap_or("").trim();
            let mut hw = head.split_whitespace();
            let name = hw.next().unwrap();
            let params: Vec<u64> = hw.map(|x| x.parse().unwrap()).collect();
            let values: Vec<u64> = vals.split_whitespace().filter(|x| *x != ":").map(|x| x.parse().unwrap()).collect();
            let (panic, failed, obs, assumed) = run(find(name), params, values);
            n += 1;
            if panic.is_some() || !failed.is_empty() || assumed || format!("{:x}", hash_obs(&obs)) != want {
                bad += 1;
                if bad <= 5 {
                    println!("MISMATCH {} | panic {:?} failed {:?} assumed {} obs {:x}", l, panic, failed, assumed, hash_obs(&obs));
                }
            }
        }
        println!("replayed {} mismatches {}", n, bad);
        std::process::exit(if bad > 0 { 1 } else { 0 });
    }
    if a.len() > 1 && a[1] == "list" {
        for (n, _) in table {
            println!("{}", n);
        }
        return;
    }
    eprintln!("usage: harness one NAME PARAMS : VALUES | batch FILE | list");
    std::process::exit(2);
}
