//! A file that is kept in memory: the system calls that std::fs::File and memmap make, for file
//! descriptors from FD0 on. It can take an image of what is left of the file if the process
//! dies, or the power fails, at any of its changes, and it can let any call fail.
//! (Natively, other descriptors are passed on to the system.)
use std::alloc::{alloc_zeroed, dealloc, Layout};
use std::ffi::c_void;
use std::fs::File;
use std::os::fd::FromRawFd;

pub const FD0: i32 = 1_000_000;
const FDS: usize = 4;
pub const NEVER: usize = usize::MAX;
const PAGE: usize = 4096;

pub enum Op {
    Write(usize, Vec<u8>),
    Len(usize),
}
struct Map {
    ptr: *mut u8,
    len: usize,
    cap: usize,
    off: usize,
}
#[derive(Clone, Copy, PartialEq)]
pub enum Fault {
    /// the call fails and does nothing
    Fail,
    /// a write or read does a part, and the next one fails
    Part,
    /// a write or read does a part
    Short,
    /// the call is interrupted by a signal
    Intr,
}
pub struct Fs {
    pub data: Vec<u8>,
    /// what was there at the last fsync, and the changes since
    pub durable: Vec<u8>,
    pub log: Vec<Op>,
    pos: [usize; FDS],
    open: [bool; FDS],
    maps: Vec<Map>,
    /// changes so far
    pub changes: usize,
    /// an image is taken at this change
    pub crash_at: usize,
    /// of the bytes of a longer write, this part arrives (of 4)
    pub crash_cut: usize,
    pub image: Option<Vec<u8>>,
    /// calls so far
    pub calls: usize,
    pub fault_at: usize,
    pub fault: Fault,
    pub faults: usize,
    parted: bool,
    pub fsyncs: usize,
    /// from this offset on, so many bytes are zero and are not kept; they cannot be written
    pub hole_at: usize,
    pub hole: usize,
    /// so many zeros at the end are not kept (only when the file is made much longer at once)
    pub tail: usize,
}
static mut FS: Option<Box<Fs>> = None;
#[allow(static_mut_refs)]
pub fn fs() -> &'static mut Fs {
    unsafe { FS.as_mut().unwrap() }
}
/// a new, empty file
#[allow(static_mut_refs)]
pub fn create() {
    unsafe {
        FS = Some(Box::new(Fs {
            data: Vec::new(),
            durable: Vec::new(),
            log: Vec::new(),
            pos: [0; FDS],
            open: [false; FDS],
            maps: Vec::new(),
            changes: 0,
            crash_at: NEVER,
            crash_cut: 0,
            image: None,
            calls: 0,
            fault_at: NEVER,
            fault: Fault::Fail,
            faults: 0,
            parted: false,
            fsyncs: 0,
            hole_at: 0,
            hole: 0,
            tail: 0,
        }))
    }
}
#[allow(static_mut_refs)]
pub fn delete() {
    unsafe { FS = None }
}
pub fn open() -> File {
    let f = fs();
    for i in 0..FDS {
        if !f.open[i] {
            f.open[i] = true;
            f.pos[i] = 0;
            return unsafe { File::from_raw_fd(FD0 + i as i32) };
        }
    }
    panic!("too many files");
}
impl Fs {
    /// the file is what it was in the image; all descriptors and mappings must be closed
    pub fn restore(&mut self, image: Vec<u8>) {
        assert!(self.maps.is_empty());
        self.durable = image.clone();
        self.data = image;
        self.log = Vec::new();
        self.tail = 0;
        self.crash_at = NEVER;
        self.fault_at = NEVER;
    }
    /// a long stretch of zeros from the present end of the file on
    pub fn make_hole(&mut self, n: usize) {
        assert!(self.maps.is_empty() && self.hole == 0);
        self.hole_at = self.data.len();
        self.hole = n;
    }
    pub fn len(&self) -> usize {
        self.data.len() + self.hole + self.tail
    }
    /// where an offset is in `data`
    fn real(&self, o: usize) -> Option<usize> {
        if o < self.hole_at || self.hole == 0 {
            Some(o)
        } else if o >= self.hole_at + self.hole {
            Some(o - self.hole)
        } else {
            None
        }
    }
    fn changed(&self, o: usize) -> usize {
        match self.real(o) {
            Some(o) => o,
            None => {
                crate::sym::check(false, "what was in the file before is not changed");
                loop {}
            }
        }
    }
    pub fn opened(&self) -> usize {
        self.open.iter().filter(|x| **x).count() + self.maps.len()
    }
    fn apply(data: &mut Vec<u8>, op: &Op) {
        match op {
            Op::Write(o, b) => {
                if data.len() < o + b.len() {
                    data.resize(o + b.len(), 0);
                }
                data[*o..*o + b.len()].copy_from_slice(b);
            }
            Op::Len(n) => data.resize(*n, 0),
        }
    }
    /// what can be left after a loss of power: any subset of the changes since the last fsync
    pub fn power_loss(&mut self) -> Vec<u8> {
        let mut d = self.durable.clone();
        for op in &self.log {
            match crate::sym::pick(if let Op::Write(_, b) = op { if b.len() > 8 { 3 } else { 2 } } else { 2 }) {
                0 => {}
                1 => Self::apply(&mut d, op),
                _ => {
                    if let Op::Write(o, b) = op {
                        Self::apply(&mut d, &Op::Write(*o, b[..b.len() / 2].to_vec()))
                    }
                }
            }
        }
        d
    }
    fn change(&mut self, op: Op) {
        if self.changes == self.crash_at {
            let mut d = self.data.clone();
            if let Op::Write(o, b) = &op {
                // writes of up to 8 bytes are all or nothing
                if b.len() > 8 {
                    let n = b.len() * self.crash_cut / 4;
                    Self::apply(&mut d, &Op::Write(*o, b[..n].to_vec()));
                }
            }
            self.image = Some(d);
        }
        self.changes += 1;
        Self::apply(&mut self.data, &op);
        if let Op::Write(o, b) = &op {
            for m in &self.maps {
                // (writes do not reach over the beginning of the hole)
                let o = if self.hole > 0 && *o >= self.hole_at { o + self.hole } else { *o };
                for i in 0..b.len() {
                    if o + i >= m.off && o + i < m.off + m.cap {
                        unsafe { *m.ptr.add(o + i - m.off) = b[i] }
                    }
                }
            }
        }
        self.log.push(op);
    }
    /// true: the call is to fail
    fn call(&mut self) -> Option<Fault> {
        let c = self.calls;
        self.calls += 1;
        if self.fault_at == NEVER {
            return None;
        }
        if c == self.fault_at || (c == self.fault_at + 1 && self.parted) {
            self.faults += 1;
            return Some(if c == self.fault_at { self.fault } else { Fault::Fail });
        }
        None
    }
}
extern "C" {
    fn __errno_location() -> *mut i32;
    #[cfg(feature = "native")]
    fn syscall(n: i64, ...) -> i64;
}
fn error(e: i32) -> isize {
    unsafe { *__errno_location() = e }
    -1
}
const EIO: i32 = 5;
const EINTR: i32 = 4;
const EINVAL: i32 = 22;
#[inline]
fn ours(fd: i32) -> bool {
    fd >= FD0
}
macro_rules! other {
    ($n:expr $(, $a:expr)*) => {{
        #[cfg(feature = "native")]
        {
            return syscall($n $(, $a)*) as _;
        }
        #[cfg(not(feature = "native"))]
        {
            return error(9) as _;
        }
    }};
}
macro_rules! simple_fault {
    ($f:expr) => {
        match $f.call() {
            Some(Fault::Fail) | Some(Fault::Part) => return error(EIO) as _,
            _ => {}
        }
    };
}
fn idx(fd: i32) -> usize {
    let i = (fd - FD0) as usize;
    assert!(i < FDS && fs().open[i]);
    i
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    if !ours(fd) {
        other!(8, fd as i64, off, whence as i64);
    }
    let _q = crate::sym::quiet();
    let i = idx(fd);
    let f = fs();
    simple_fault!(f);
    let p = match whence {
        0 => off,
        1 => f.pos[i] as i64 + off,
        _ => f.len() as i64 + off,
    };
    if p < 0 {
        return error(EINVAL) as i64;
    }
    f.pos[i] = p as usize;
    p
}
unsafe fn read_at(i: usize, pos: usize, buf: *mut u8, n: usize) -> isize {
    let f = fs();
    let _ = i;
    let mut n = n.min(f.len().saturating_sub(pos));
    if f.hole > 0 && pos < f.hole_at + f.hole {
        // as far as the hole, or within it
        n = n.min(if pos < f.hole_at { f.hole_at - pos } else { f.hole_at + f.hole - pos });
    }
    match f.call() {
        None => {}
        Some(Fault::Fail) => return error(EIO),
        Some(Fault::Intr) => return error(EINTR),
        Some(_) => {
            if n > 1 {
                n /= 2
            }
            f.parted = f.fault == Fault::Part;
        }
    }
    if n > 0 {
        match f.real(pos) {
            Some(pos) => {
                let k = n.min(f.data.len().saturating_sub(pos));
                if k > 0 {
                    std::ptr::copy_nonoverlapping(f.data.as_ptr().add(pos), buf, k)
                }
                std::ptr::write_bytes(buf.add(k), 0, n - k)
            }
            None => std::ptr::write_bytes(buf, 0, n),
        }
    }
    n as isize
}
unsafe fn write_at(i: usize, pos: usize, buf: *const u8, n: usize) -> isize {
    let f = fs();
    let _ = i;
    let mut n = n;
    match f.call() {
        None => {}
        Some(Fault::Fail) => return error(EIO),
        Some(Fault::Intr) => return error(EINTR),
        Some(_) => {
            // writes of up to 8 bytes are all or nothing
            if n > 8 {
                n /= 2
            }
            f.parted = f.fault == Fault::Part;
        }
    }
    let b = std::slice::from_raw_parts(buf, n).to_vec();
    let pos = f.changed(pos);
    f.change(Op::Write(pos, b));
    n as isize
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, buf: *mut u8, n: usize) -> isize {
    if !ours(fd) {
        other!(0, fd as i64, buf, n);
    }
    let _q = crate::sym::quiet();
    let i = idx(fd);
    let r = read_at(i, fs().pos[i], buf, n);
    if r > 0 {
        fs().pos[i] += r as usize;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, buf: *const u8, n: usize) -> isize {
    if !ours(fd) {
        other!(1, fd as i64, buf, n);
    }
    let _q = crate::sym::quiet();
    let i = idx(fd);
    let r = write_at(i, fs().pos[i], buf, n);
    if r > 0 {
        fs().pos[i] += r as usize;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: i32, buf: *mut u8, n: usize, off: i64) -> isize {
    if !ours(fd) {
        other!(17, fd as i64, buf, n, off);
    }
    let _q = crate::sym::quiet();
    read_at(idx(fd), off as usize, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: i32, buf: *const u8, n: usize, off: i64) -> isize {
    if !ours(fd) {
        other!(18, fd as i64, buf, n, off);
    }
    let _q = crate::sym::quiet();
    write_at(idx(fd), off as usize, buf, n)
}
#[repr(C)]
pub struct IoVec {
    base: *mut u8,
    len: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const IoVec, n: i32) -> isize {
    if !ours(fd) {
        other!(20, fd as i64, v, n as i64);
    }
    if n == 0 {
        return 0;
    }
    // as much as one of them
    let v = &*v;
    write(fd, v.base, v.len)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: i32, v: *const IoVec, n: i32) -> isize {
    if !ours(fd) {
        other!(19, fd as i64, v, n as i64);
    }
    if n == 0 {
        return 0;
    }
    let v = &*v;
    read(fd, v.base, v.len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: i32, n: i64) -> i32 {
    if !ours(fd) {
        other!(77, fd as i64, n);
    }
    let _q = crate::sym::quiet();
    idx(fd);
    let f = fs();
    simple_fault!(f);
    let n = f.changed(n as usize);
    if n > f.data.len() + (1 << 24) {
        f.tail = n - f.data.len();
        f.change(Op::Len(f.data.len()));
    } else {
        f.tail = 0;
        f.change(Op::Len(n));
    }
    0
}
unsafe fn do_fsync(fd: i32) -> i32 {
    idx(fd);
    let f = fs();
    simple_fault!(f);
    f.fsyncs += 1;
    f.durable = f.data.clone();
    f.log = Vec::new();
    0
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: i32) -> i32 {
    if !ours(fd) {
        other!(74, fd as i64);
    }
    let _q = crate::sym::quiet();
    do_fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: i32) -> i32 {
    if !ours(fd) {
        other!(75, fd as i64);
    }
    let _q = crate::sym::quiet();
    do_fsync(fd)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    if !ours(fd) {
        other!(3, fd as i64);
    }
    let _q = crate::sym::quiet();
    let i = idx(fd);
    fs().open[i] = false;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: i64) -> i32 {
    if !ours(fd) {
        other!(72, fd as i64, cmd as i64, arg);
    }
    let _q = crate::sym::quiet();
    // F_GETFD, F_GETFL
    if cmd == 3 {
        2
    } else {
        0
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(fd: i32, path: *const u8, flags: i32, mask: u32, out: *mut u8) -> i32 {
    if !ours(fd) {
        other!(332, fd as i64, path, flags as i64, mask as i64, out);
    }
    let _q = crate::sym::quiet();
    idx(fd);
    let f = fs();
    simple_fault!(f);
    std::ptr::write_bytes(out, 0, 256);
    // stx_mask, stx_mode, stx_size
    *(out as *mut u32) = 0x7ff;
    *(out.add(28) as *mut u16) = 0o100644;
    *(out.add(40) as *mut u64) = f.len() as u64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: i32, out: *mut u8) -> i32 {
    if !ours(fd) {
        other!(5, fd as i64, out);
    }
    let _q = crate::sym::quiet();
    idx(fd);
    let f = fs();
    simple_fault!(f);
    std::ptr::write_bytes(out, 0, 144);
    *(out.add(24) as *mut u32) = 0o100644;
    *(out.add(48) as *mut u64) = f.len() as u64;
    0
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void {
    if !ours(fd) {
        #[cfg(feature = "native")]
        {
            return syscall(9, addr, len, prot as i64, flags as i64, fd as i64, off) as *mut c_void;
        }
        #[cfg(not(feature = "native"))]
        return error(9) as *mut c_void;
    }
    let _q = crate::sym::quiet();
    idx(fd);
    let f = fs();
    simple_fault!(f);
    let off = off as usize;
    if len == 0 || off % PAGE != 0 {
        return error(EINVAL) as *mut c_void;
    }
    // what lies beyond the last page of the file must not be touched
    let end = (f.len() + PAGE - 1) / PAGE * PAGE;
    let cap = len.min(end.saturating_sub(off));
    let ptr = alloc_zeroed(Layout::from_size_align(cap.max(1), PAGE).unwrap());
    let n = cap.min((f.data.len() + f.hole).saturating_sub(off));
    if n > 0 && f.hole == 0 {
        std::ptr::copy_nonoverlapping(f.data.as_ptr().add(off), ptr, n);
    } else {
        // the part before the hole and the part after it
        if off < f.hole_at {
            std::ptr::copy_nonoverlapping(f.data.as_ptr().add(off), ptr, n.min(f.hole_at - off));
        }
        let end = f.hole_at + f.hole;
        if off + n > end {
            let a = end.saturating_sub(off);
            std::ptr::copy_nonoverlapping(f.data.as_ptr().add(off + a - f.hole), ptr.add(a), n - a);
        }
    }
    f.maps.push(Map { ptr, len, cap, off });
    ptr as *mut c_void
}
#[no_mangle]
pub unsafe extern "C" fn mmap(addr: *mut c_void, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut c_void {
    mmap64(addr, len, prot, flags, fd, off)
}
#[no_mangle]
#[allow(static_mut_refs)]
pub unsafe extern "C" fn munmap(addr: *mut c_void, len: usize) -> i32 {
    let q = crate::sym::quiet();
    if let Some(f) = FS.as_mut() {
        for i in 0..f.maps.len() {
            if f.maps[i].ptr == addr as *mut u8 {
                let m = f.maps.swap_remove(i);
                assert!(m.len == len);
                dealloc(m.ptr, Layout::from_size_align(m.cap.max(1), PAGE).unwrap());
                return 0;
            }
        }
    }
    drop(q);
    other!(11, addr, len)
}
