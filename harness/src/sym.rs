//! The interface between harnesses and the symbolic executor (or the native replayer).
extern "C" {
    fn __sym_u8() -> u8;
    fn __sym_u64() -> u64;
    fn __sym_choice(n: u64) -> u64;
    fn __sym_param(i: u64) -> u64;
    fn __sym_concrete(x: u64) -> u64;
    fn __sym_check(c: bool, id: *const u8, len: usize);
    fn __sym_observe(x: u64);
    fn __sym_reach(id: *const u8, len: usize);
    fn __sym_live() -> u64;
    fn __sym_expect_panic(c: bool);
    fn __sym_spawn(f: extern "C-unwind" fn(*mut u8), data: *mut u8, limit: u64);
    fn __sym_quiet(on: bool);
}
extern "C-unwind" {
    fn __sym_assume(c: bool);
    fn __sym_join();
}
/// an arbitrary byte
#[inline(always)]
pub fn byte() -> u8 {
    unsafe { __sym_u8() }
}
#[inline(always)]
pub fn word() -> u64 {
    unsafe { __sym_u64() }
}
/// an arbitrary number below n, symbolic
#[inline(always)]
pub fn choice(n: usize) -> usize {
    unsafe { __sym_choice(n as u64) as usize }
}
/// an arbitrary number below n, one execution path per value
#[inline(always)]
pub fn pick(n: usize) -> usize {
    unsafe { __sym_concrete(__sym_choice(n as u64)) as usize }
}
/// a number of the configuration
#[inline(always)]
pub fn param(i: usize) -> usize {
    unsafe { __sym_param(i as u64) as usize }
}
#[inline(always)]
pub fn assume(c: bool) {
    unsafe { __sym_assume(c) }
}
/// the property: c holds here for every value
#[inline(always)]
pub fn check(c: bool, id: &'static str) {
    unsafe { __sym_check(c, id.as_ptr(), id.len()) }
}
#[inline(always)]
pub fn observe(x: u64) {
    unsafe { __sym_observe(x) }
}
#[inline(always)]
pub fn reach(id: &'static str) {
    unsafe { __sym_reach(id.as_ptr(), id.len()) }
}
/// live heap allocations
#[inline(always)]
pub fn live() -> u64 {
    unsafe { __sym_live() }
}
/// from here on the run must end in a panic
#[inline(always)]
pub fn expect_panic() {
    unsafe { __sym_expect_panic(true) }
}
#[inline(never)]
pub fn observe_bytes(x: &[u8]) {
    observe(x.len() as u64);
    for b in x {
        observe(*b as u64);
    }
}
extern "C" {
    fn memcmp(a: *const u8, b: *const u8, n: usize) -> i32;
    fn bcmp(a: *const u8, b: *const u8, n: usize) -> i32;
}
/// lexicographic order as one condition (no path split)
#[inline(never)]
pub fn lt(a: &[u8], b: &[u8]) -> bool {
    let c = unsafe { memcmp(a.as_ptr(), b.as_ptr(), a.len().min(b.len())) };
    (c < 0) | ((c == 0) & (a.len() < b.len()))
}
/// equality as one condition (no path split)
#[inline(never)]
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { bcmp(a.as_ptr(), b.as_ptr(), a.len()) } == 0
}

pub type Job<'a> = Box<dyn FnOnce() + Send + 'a>;
extern "C-unwind" fn run_job(p: *mut u8) {
    let f = unsafe { Box::from_raw(p as *mut Job<'static>) };
    (*f)()
}
/// runs all of them, each in a thread of its own, under every schedule with up to `limit`
/// preemptions; to be called once
pub fn par<'a>(jobs: Vec<Job<'a>>, limit: usize) {
    unsafe {
        for f in jobs {
            let f: Job<'static> = std::mem::transmute(f);
            __sym_spawn(run_job, Box::into_raw(Box::new(f)) as *mut u8, limit as u64);
        }
        __sym_join();
    }
}
/// what happens within is one step for the other threads (a call of the kernel)
pub struct Quiet(());
#[inline(always)]
pub fn quiet() -> Quiet {
    unsafe { __sym_quiet(true) }
    Quiet(())
}
impl Drop for Quiet {
    #[inline(always)]
    fn drop(&mut self) {
        unsafe { __sym_quiet(false) }
    }
}
