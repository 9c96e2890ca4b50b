//! The environment the harness owns: operating-system randomness, futex waits, allocations and
//! writes made by controlled threads. Everything is a pass-through unless switched on.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicI32, AtomicI64, AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, Ordering::SeqCst};

unsafe fn raw(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let r: i64;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c,
        in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn errno(r: i64) -> i64 {
    if r < 0 && r > -4096 {
        *libc::__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}

// ---------------------------------------------------------------- randomness
pub static ENTROPY_ON: AtomicBool = AtomicBool::new(false);
pub static ENTROPY: AtomicPtr<Vec<u8>> = AtomicPtr::new(std::ptr::null_mut());
static ENTROPY_POS: AtomicUsize = AtomicUsize::new(0);
/// how the intercepted getrandom answers: 0 in full, 1 at most three bytes at a time, 2 interrupted every other call
pub static ENTROPY_MODE: AtomicUsize = AtomicUsize::new(0);
static ENTROPY_CALLS: AtomicUsize = AtomicUsize::new(0);
/// answers getrandom from `bytes` (cyclically) while f runs; returns f's result and the bytes handed out
pub fn with_entropy<T>(bytes: Vec<u8>, mode: usize, f: impl FnOnce() -> T) -> (T, usize) {
    ENTROPY.store(Box::into_raw(Box::new(bytes)), SeqCst);
    ENTROPY_POS.store(0, SeqCst);
    ENTROPY_CALLS.store(0, SeqCst);
    ENTROPY_MODE.store(mode, SeqCst);
    ENTROPY_ON.store(true, SeqCst);
    let r = f();
    ENTROPY_ON.store(false, SeqCst);
    (r, ENTROPY_POS.load(SeqCst))
}
unsafe fn fake_random(buf: *mut u8, len: usize) -> i64 {
    let v = &*ENTROPY.load(SeqCst);
    let call = ENTROPY_CALLS.fetch_add(1, SeqCst);
    let n = match ENTROPY_MODE.load(SeqCst) {
        1 => len.min(3),
        2 if call % 2 == 0 => return -(libc::EINTR as i64),
        _ => len,
    };
    for i in 0..n {
        *buf.add(i) = v[ENTROPY_POS.fetch_add(1, SeqCst) % v.len()];
    }
    n as i64
}

// ---------------------------------------------------------------- interposed symbols
#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if n == libc::SYS_getrandom && ENTROPY_ON.load(SeqCst) {
        return errno(fake_random(a as *mut u8, b as usize));
    }
    if n == libc::SYS_futex && controlled() {
        let op = (b as i32) & libc::FUTEX_CMD_MASK;
        if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
            return errno(futex_wait(a as *const AtomicU32, c as u32, d != 0));
        }
        let r = errno(raw(n, a, b, c, d, e, f));
        point();
        return r;
    }
    errno(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    if controlled() {
        spin_yield();
        return 0;
    }
    raw(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const libc::c_void, n: usize) -> isize {
    point();
    errno(raw(libc::SYS_write, fd as i64, p as i64, n as i64, 0, 0, 0)) as isize
}

/// Accesses to global variables, reported by the compiler's instrumentation of the library's crates
/// (tools/rustc-instrument.sh; only in the build for C28).
extern "C" {
    static __data_start: u8;
    static _end: u8;
}
pub static ACCESSES: AtomicU64 = AtomicU64::new(0);
#[inline(always)]
unsafe fn access(p: usize) {
    if (p >= &__data_start as *const u8 as usize && p < &_end as *const u8 as usize) || foreign(p) {
        ACCESSES.fetch_add(1, SeqCst);
        point();
    }
}
macro_rules! callbacks {
    ($($n:ident)*) => { $(#[no_mangle] pub unsafe extern "C" fn $n(p: usize) { access(p) })* };
}
callbacks!(__sanitizer_cov_load1 __sanitizer_cov_load2 __sanitizer_cov_load4 __sanitizer_cov_load8 __sanitizer_cov_load16
    __sanitizer_cov_store1 __sanitizer_cov_store2 __sanitizer_cov_store4 __sanitizer_cov_store8 __sanitizer_cov_store16);

/// Atomic operations of the library's crates (locks of the standard library are compiled into them)
macro_rules! atomics {
    ($t:ident $a:ident $load:ident $store:ident $exchange:ident $add:ident $sub:ident $and:ident $or:ident $xor:ident $nand:ident $cas:ident) => {
        #[no_mangle] pub unsafe extern "C" fn $load(p: *const std::sync::atomic::$a, _: i32) -> $t { atomic(); (*p).load(SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $store(p: *const std::sync::atomic::$a, v: $t, _: i32) { atomic(); (*p).store(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $exchange(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { atomic(); (*p).swap(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $add(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { atomic(); (*p).fetch_add(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $sub(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { atomic(); (*p).fetch_sub(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $and(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { atomic(); (*p).fetch_and(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $or(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { atomic(); (*p).fetch_or(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $xor(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { atomic(); (*p).fetch_xor(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $nand(p: *const std::sync::atomic::$a, v: $t, _: i32) -> $t { atomic(); (*p).fetch_nand(v, SeqCst) }
        #[no_mangle] pub unsafe extern "C" fn $cas(p: *const std::sync::atomic::$a, e: $t, v: $t, _: i32, _: i32) -> $t {
            atomic();
            match (*p).compare_exchange(e, v, SeqCst, SeqCst) { Ok(x) => x, Err(x) => x }
        }
    };
}
atomics!(u8 AtomicU8 __tsan_atomic8_load __tsan_atomic8_store __tsan_atomic8_exchange __tsan_atomic8_fetch_add __tsan_atomic8_fetch_sub __tsan_atomic8_fetch_and __tsan_atomic8_fetch_or __tsan_atomic8_fetch_xor __tsan_atomic8_fetch_nand __tsan_atomic8_compare_exchange_val);
atomics!(u16 AtomicU16 __tsan_atomic16_load __tsan_atomic16_store __tsan_atomic16_exchange __tsan_atomic16_fetch_add __tsan_atomic16_fetch_sub __tsan_atomic16_fetch_and __tsan_atomic16_fetch_or __tsan_atomic16_fetch_xor __tsan_atomic16_fetch_nand __tsan_atomic16_compare_exchange_val);
atomics!(u32 AtomicU32 __tsan_atomic32_load __tsan_atomic32_store __tsan_atomic32_exchange __tsan_atomic32_fetch_add __tsan_atomic32_fetch_sub __tsan_atomic32_fetch_and __tsan_atomic32_fetch_or __tsan_atomic32_fetch_xor __tsan_atomic32_fetch_nand __tsan_atomic32_compare_exchange_val);
atomics!(u64 AtomicU64 __tsan_atomic64_load __tsan_atomic64_store __tsan_atomic64_exchange __tsan_atomic64_fetch_add __tsan_atomic64_fetch_sub __tsan_atomic64_fetch_and __tsan_atomic64_fetch_or __tsan_atomic64_fetch_xor __tsan_atomic64_fetch_nand __tsan_atomic64_compare_exchange_val);
pub static ATOMICS: AtomicU64 = AtomicU64::new(0);
fn atomic() {
    ATOMICS.fetch_add(1, SeqCst);
    point();
}
#[no_mangle] pub extern "C" fn __tsan_init() {}
#[no_mangle] pub extern "C" fn __tsan_func_entry(_: usize) {}
#[no_mangle] pub extern "C" fn __tsan_func_exit() {}
#[no_mangle] pub extern "C" fn __tsan_atomic_thread_fence(_: i32) { atomic() }
#[no_mangle] pub extern "C" fn __tsan_atomic_signal_fence(_: i32) {}

pub static SHARED_ONLY: AtomicBool = AtomicBool::new(false);
fn alloc_point() {
    if !SHARED_ONLY.load(SeqCst) {
        point();
    }
}

// Each controlled thread allocates from a region of its own, so an access to heap memory which the
// other thread allocated (a shared buffer or cache) is recognised by its address.
const ARENA: usize = 4 << 30;
const MAX: usize = 3;
static ARENAS: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
static USED: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
fn make_arenas() {
    for a in &ARENAS {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), ARENA, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED);
        a.store(p as usize, SeqCst);
    }
}
fn in_arena(i: usize, p: usize) -> bool {
    let a = ARENAS[i].load(std::sync::atomic::Ordering::Relaxed);
    a != 0 && p >= a && p < a + ARENA
}
fn tid() -> i32 {
    TID.try_with(|t| t.get()).unwrap_or(-1)
}
fn foreign(p: usize) -> bool {
    let t = tid();
    t >= 0 && (0..MAX).any(|i| i != t as usize && in_arena(i, p))
}
unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    let t = tid();
    if t < 0 || ARENAS[t as usize].load(SeqCst) == 0 {
        return System.alloc(l);
    }
    let (a, u) = (ARENAS[t as usize].load(SeqCst), USED[t as usize].load(SeqCst));
    let start = (a + u + l.align() - 1) / l.align() * l.align();
    if start + l.size() > a + ARENA {
        return System.alloc(l);
    }
    USED[t as usize].store(start + l.size() - a, SeqCst);
    start as *mut u8
}

pub struct Alloc;
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        alloc_point();
        arena_alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        alloc_point();
        if !(0..MAX).any(|i| in_arena(i, p as usize)) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        alloc_point();
        if !(0..MAX).any(|i| in_arena(i, p as usize)) {
            return System.realloc(p, l, n);
        }
        let new = arena_alloc(Layout::from_size_align_unchecked(n, l.align()));
        std::ptr::copy_nonoverlapping(p, new, l.size().min(n));
        new
    }
}

// ---------------------------------------------------------------- scheduler
// Controlled threads of which exactly one runs at a time. A schedule is a list of preemptions: the
// thread and its local step number at which it is switched away from, and the thread which goes on.
// A thread which waits or ends is followed by the next one (in a circle) which can run.
thread_local! {
    static TID: Cell<i32> = const { Cell::new(-1) };
    static INSIDE: Cell<bool> = const { Cell::new(false) };
}
static TURN: AtomicI32 = AtomicI32::new(-1);
static FREE: AtomicBool = AtomicBool::new(false);
static DEAD: AtomicBool = AtomicBool::new(false);
static PROGRESS: AtomicU64 = AtomicU64::new(0);
static THREADS: AtomicUsize = AtomicUsize::new(0);
static DONE: [AtomicBool; MAX] = [const { AtomicBool::new(false) }; MAX];
// what a thread waits for: the futex and the value it must not have
static WAIT_AT: [AtomicUsize; MAX] = [const { AtomicUsize::new(0) }; MAX];
static WAIT_VALUE: [AtomicU32; MAX] = [const { AtomicU32::new(0) }; MAX];
pub static STEPS: [AtomicU64; MAX] = [const { AtomicU64::new(0) }; MAX];
// preemption k happens when thread PRE[k].0 makes its local step PRE[k].1; thread PRE[k].2 goes on
static PRE: [[AtomicI64; 3]; 4] = [const { [const { AtomicI64::new(-1) }; 3] }; 4];
static NEXT: AtomicUsize = AtomicUsize::new(0);
pub static SWITCHES: AtomicU64 = AtomicU64::new(0);

fn controlled() -> bool {
    TID.try_with(|t| t.get()).unwrap_or(-1) >= 0 && !FREE.load(SeqCst)
}
unsafe fn set_turn(t: i32) {
    TURN.store(t, SeqCst);
    raw(libc::SYS_futex, TURN.as_ptr() as i64, (libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG) as i64, 10, 0, 0, 0);
}
unsafe fn wait_turn(me: i32) {
    let mut seen = PROGRESS.load(SeqCst);
    let mut stale = 0;
    loop {
        let t = TURN.load(SeqCst);
        if t == me || FREE.load(SeqCst) {
            return;
        }
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 100_000_000 };
        raw(libc::SYS_futex, TURN.as_ptr() as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, t as i64, &ts as *const _ as i64, 0, 0);
        let p = PROGRESS.load(SeqCst);
        if p == seen {
            stale += 1;
            if stale > 100 {
                // the running thread makes no step for 10 s: it probably spins on something this
                // thread holds. Give up control (never a verdict by itself).
                FREE.store(true, SeqCst);
                return;
            }
        } else {
            stale = 0;
        }
        seen = p;
    }
}
unsafe fn switch(me: i32, to: i32) {
    SWITCHES.fetch_add(1, SeqCst);
    set_turn(to);
    wait_turn(me);
}
fn runnable(t: usize) -> bool {
    let a = WAIT_AT[t].load(SeqCst) as *const AtomicU32;
    !DONE[t].load(SeqCst) && (a.is_null() || unsafe { (*a).load(SeqCst) } != WAIT_VALUE[t].load(SeqCst))
}
/// another thread which can run: the wanted one, else the next one
fn other(me: i32, wanted: i64) -> Option<i32> {
    let n = THREADS.load(SeqCst);
    if wanted >= 0 && wanted != me as i64 && runnable(wanted as usize) {
        return Some(wanted as i32);
    }
    (1..n).map(|i| (me as usize + i) % n).find(|t| runnable(*t)).map(|t| t as i32)
}
#[inline]
pub fn point() {
    let me = match TID.try_with(|t| t.get()) {
        Ok(t) if t >= 0 => t,
        _ => return,
    };
    if FREE.load(SeqCst) || INSIDE.try_with(|i| i.replace(true)).unwrap_or(true) {
        return;
    }
    PROGRESS.fetch_add(1, SeqCst);
    let s = STEPS[me as usize].fetch_add(1, SeqCst) as i64;
    let k = NEXT.load(SeqCst);
    if k < 4 && PRE[k][0].load(SeqCst) == me as i64 && PRE[k][1].load(SeqCst) == s {
        NEXT.store(k + 1, SeqCst);
        if let Some(t) = other(me, PRE[k][2].load(SeqCst)) {
            unsafe { switch(me, t) };
        }
    }
    let _ = INSIDE.try_with(|i| i.set(false));
}
unsafe fn spin_yield() {
    let me = TID.with(|t| t.get());
    PROGRESS.fetch_add(1, SeqCst);
    if let Some(t) = other(me, -1) {
        switch(me, t);
    }
}
unsafe fn futex_wait(addr: *const AtomicU32, val: u32, timed: bool) -> i64 {
    let me = TID.with(|t| t.get()) as usize;
    if (*addr).load(SeqCst) != val {
        return -(libc::EAGAIN as i64);
    }
    PROGRESS.fetch_add(1, SeqCst);
    WAIT_VALUE[me].store(val, SeqCst);
    WAIT_AT[me].store(addr as usize, SeqCst);
    let mut n = 0;
    while (*addr).load(SeqCst) == val {
        if let Some(t) = other(me as i32, -1) {
            switch(me as i32, t);
            if timed && (*addr).load(SeqCst) == val && other(me as i32, -1).is_some() {
                // the time passes
                break;
            }
            continue;
        }
        // all others are finished or wait as well
        let ts = libc::timespec { tv_sec: 0, tv_nsec: 20_000_000 };
        raw(libc::SYS_futex, addr as i64, (libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG) as i64, val as i64, &ts as *const _ as i64, 0, 0);
        n += 1;
        if timed {
            break;
        }
        if n > 100 {
            DEAD.store(true, SeqCst);
            libc::_exit(77);
        }
    }
    WAIT_AT[me].store(0, SeqCst);
    if timed && (*addr).load(SeqCst) == val {
        return -(libc::ETIMEDOUT as i64);
    }
    0
}

pub struct Outcome {
    pub results: Vec<Vec<u8>>,
    pub steps: Vec<u64>,
    pub switches: u64,
    pub lost_control: bool,
}
/// Runs the bodies under the schedule in this (fresh, single-threaded) process.
pub fn run_threads(first: i32, pre: &[(i32, i64, i32)], body: fn(usize) -> Vec<u8>, args: &[usize]) -> Outcome {
    for (k, (t, s, to)) in pre.iter().enumerate() {
        PRE[k][0].store(*t as i64, SeqCst);
        PRE[k][1].store(*s, SeqCst);
        PRE[k][2].store(*to as i64, SeqCst);
    }
    assert!(args.len() <= MAX);
    THREADS.store(args.len(), SeqCst);
    TURN.store(-2, SeqCst);
    make_arenas();
    let hs: Vec<_> = (0..args.len())
        .map(|i| {
            let a = args[i];
            std::thread::Builder::new()
                .stack_size(4 << 20)
                .spawn(move || {
                    unsafe { wait_turn(i as i32) };
                    TID.with(|t| t.set(i as i32));
                    let r = body(a);
                    TID.with(|t| t.set(-1));
                    DONE[i].store(true, SeqCst);
                    let n = THREADS.load(SeqCst);
                    // one which can run, else one which then finds that nobody can
                    let next = other(i as i32, -1).or_else(|| (0..n).find(|t| !DONE[*t].load(SeqCst)).map(|t| t as i32));
                    unsafe { set_turn(next.unwrap_or(-3)) };
                    r
                })
                .unwrap()
        })
        .collect();
    unsafe { set_turn(first) };
    let results: Vec<Vec<u8>> = hs.into_iter().map(|h| h.join().unwrap_or_default()).collect();
    Outcome {
        results,
        steps: STEPS[..args.len()].iter().map(|s| s.load(SeqCst)).collect(),
        switches: SWITCHES.load(SeqCst),
        lost_control: FREE.load(SeqCst),
    }
}
