//! Functions the executor interprets itself: the harness interface (`__sym_*`), the C
//! library's allocator and memory functions, LLVM intrinsics, and panics.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum B {
    SymU8,
    SymU64,
    SymChoice,
    SymParam,
    SymConcrete,
    SymAssume,
    SymCheck,
    SymObserve,
    SymReach,
    SymLive,
    SymExpectPanic,
    SymSpawn,
    SymJoin,
    SymQuiet,
    /// the slow path of locking: parking_lot's mutex, its lock for readers and writers, and those of std
    Lock(L),
    Tls,
    Malloc,
    Calloc,
    Realloc,
    Free,
    PosixMemalign,
    Memcpy,
    Memset,
    Memcmp,
    Bcmp,
    Strlen,
    Errno,
    Sysconf,
    Syscall,
    /// returns zero and does nothing
    Zero,
    Panic,
    Abort,
    UMin,
    UMax,
    SMin,
    SMax,
    USubSat,
    UAddSat,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    Bswap,
    BitReverse,
    UAddO,
    USubO,
    UMulO,
    SAddO,
    SSubO,
    SMulO,
    Abs,
    Ucmp,
    Scmp,
    Ident,
    RedOr,
    RedAnd,
    RedAdd,
    RedXor,
    RedUMax,
    RedUMin,
    IsConstant,
    ObjectSize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum L {
    PlMutex,
    PlRead,
    PlWrite,
    StdMutex,
    StdRead,
    StdWrite,
}
fn lock(name: &str) -> Option<L> {
    let has = |a: &str, b: &str| name.contains(a) && name.contains(b);
    if has("11parking_lot9raw_mutex", "8RawMutex9lock_slow") {
        Some(L::PlMutex)
    } else if has("11parking_lot10raw_rwlock", "16lock_shared_slow") {
        Some(L::PlRead)
    } else if has("11parking_lot10raw_rwlock", "19lock_exclusive_slow") {
        Some(L::PlWrite)
    } else if has("5mutex5futex", "14lock_contended") {
        Some(L::StdMutex)
    } else if has("6rwlock5futex", "14read_contended") {
        Some(L::StdRead)
    } else if has("6rwlock5futex", "15write_contended") {
        Some(L::StdWrite)
    } else {
        None
    }
}

pub fn lookup(name: &str) -> Option<B> {
    use B::*;
    if let Some(n) = name.strip_prefix("llvm.") {
        let t = [
            ("umin.", UMin),
            ("umax.", UMax),
            ("smin.", SMin),
            ("smax.", SMax),
            ("usub.sat.", USubSat),
            ("uadd.sat.", UAddSat),
            ("ctlz.", Ctlz),
            ("cttz.", Cttz),
            ("ctpop.", Ctpop),
            ("fshl.", Fshl),
            ("fshr.", Fshr),
            ("bswap.", Bswap),
            ("bitreverse.", BitReverse),
            ("uadd.with.overflow.", UAddO),
            ("usub.with.overflow.", USubO),
            ("umul.with.overflow.", UMulO),
            ("sadd.with.overflow.", SAddO),
            ("ssub.with.overflow.", SSubO),
            ("smul.with.overflow.", SMulO),
            ("abs.", Abs),
            ("ucmp.", Ucmp),
            ("scmp.", Scmp),
            ("memcpy.", Memcpy),
            ("memmove.", Memcpy),
            ("memset.", Memset),
            ("threadlocal.address", Tls),
            ("expect.", Ident),
            ("ptrmask.", Ident),
            ("launder.", Ident),
            ("strip.", Ident),
            ("is.constant.", IsConstant),
            ("objectsize.", ObjectSize),
            ("vector.reduce.or.", RedOr),
            ("vector.reduce.and.", RedAnd),
            ("vector.reduce.add.", RedAdd),
            ("vector.reduce.xor.", RedXor),
            ("vector.reduce.umax.", RedUMax),
            ("vector.reduce.umin.", RedUMin),
            ("trap", Abort),
        ];
        for (p, b) in t {
            if n.starts_with(p) {
                return Some(b);
            }
        }
        return None;
    }
    if name.contains("9panicking9panic_fmt")
        || name.contains("9panicking19panic_nounwind_fmt")
    {
        return Some(Panic);
    }
    if let Some(l) = lock(name) {
        return Some(Lock(l));
    }
    Some(match name {
        "__sym_spawn" => SymSpawn,
        "__sym_join" => SymJoin,
        "__sym_quiet" => SymQuiet,
        "__sym_u8" => SymU8,
        "__sym_u64" => SymU64,
        "__sym_choice" => SymChoice,
        "__sym_param" => SymParam,
        "__sym_concrete" => SymConcrete,
        "__sym_assume" => SymAssume,
        "__sym_check" => SymCheck,
        "__sym_observe" => SymObserve,
        "__sym_reach" => SymReach,
        "__sym_live" => SymLive,
        "__sym_expect_panic" => SymExpectPanic,
        "malloc" => Malloc,
        "calloc" => Calloc,
        "realloc" => Realloc,
        "free" => Free,
        "posix_memalign" => PosixMemalign,
        "memcpy" | "memmove" => Memcpy,
        "memset" => Memset,
        "memcmp" => Memcmp,
        "bcmp" => Bcmp,
        "strlen" => Strlen,
        "__errno_location" => Errno,
        "sysconf" => Sysconf,
        "syscall" => Syscall,
        "getenv" | "__cxa_thread_atexit_impl" | "pthread_key_create" | "gnu_get_libc_version" | "dlsym"
        | "pthread_setspecific" | "sched_yield" => Zero,
        "abort" | "_exit" | "exit" => Abort,
        _ => return None,
    })
}
