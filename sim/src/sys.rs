//! Interposed system interfaces: clock, randomness, futex, heap.
//!
//! Definitions in the executable take precedence over libc's, so the real code
//! (std, getrandom, rand, tokio) running on the simulation thread sees simulated
//! time and deterministic entropy.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, AtomicUsize, Ordering::*};

thread_local! {
    static IN_SIM: Cell<bool> = const { Cell::new(false) };
}

pub fn enter_sim(on: bool) {
    let _ = IN_SIM.try_with(|s| s.set(on));
}
pub fn in_sim() -> bool {
    IN_SIM.try_with(|s| s.get()).unwrap_or(false)
}

/// Offset of the wall clock against simulated time (ns); may make the clock stand before the epoch.
pub static WALL_OFFSET: AtomicI64 = AtomicI64::new(0);
/// When non-zero the wall clock is frozen at this value (ns).
pub static WALL_FROZEN: AtomicI64 = AtomicI64::new(i64::MIN);
/// When set the wall clock may jump whenever it is read.
pub static WALL_JUMPS: AtomicU64 = AtomicU64::new(0);
pub static WALL_READS: AtomicU64 = AtomicU64::new(0);
static ENTROPY: AtomicU64 = AtomicU64::new(0);

pub fn seed_entropy(s: u64) {
    ENTROPY.store(s, SeqCst);
}

pub fn splitmix(state: &mut u64) -> u64 {
    *state = state.wrapping_add(0x9E3779B97F4A7C15);
    let mut z = *state;
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
    z ^ (z >> 31)
}

#[inline]
unsafe fn raw6(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    let ret: i64;
    core::arch::asm!(
        "syscall",
        inlateout("rax") n => ret,
        in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f,
        lateout("rcx") _, lateout("r11") _,
        options(nostack)
    );
    ret
}

unsafe fn set_errno(ret: i64) -> i64 {
    if (-4095..0).contains(&ret) {
        *libc::__errno_location() = (-ret) as i32;
        -1
    } else {
        ret
    }
}

/// Hook for preemptive mode: called for FUTEX_WAIT/WAKE on a simulated thread.
pub type FutexHook = fn(op: i32, addr: usize, val: u32, has_timeout: bool) -> i64;
static FUTEX_HOOK: AtomicUsize = AtomicUsize::new(0);
pub fn set_futex_hook(h: Option<FutexHook>) {
    FUTEX_HOOK.store(h.map(|f| f as usize).unwrap_or(0), SeqCst);
}

#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut libc::timespec) -> i32 {
    if in_sim() {
        let sim = tokio::sim::now_ns() as i64;
        let ns = if clk == libc::CLOCK_REALTIME || clk == libc::CLOCK_REALTIME_COARSE {
            WALL_READS.fetch_add(1, Relaxed);
            if WALL_JUMPS.load(Relaxed) != 0 {
                crate::rt::wall_jump();
            }
            let fz = WALL_FROZEN.load(Relaxed);
            if fz != i64::MIN {
                fz
            } else {
                sim.wrapping_add(WALL_OFFSET.load(Relaxed))
            }
        } else {
            sim + 1_000_000_000_000
        };
        (*ts).tv_sec = ns.div_euclid(1_000_000_000);
        (*ts).tv_nsec = ns.rem_euclid(1_000_000_000);
        return 0;
    }
    set_errno(raw6(libc::SYS_clock_gettime, clk as i64, ts as i64, 0, 0, 0, 0)) as i32
}

#[no_mangle]
pub unsafe extern "C" fn sched_yield() -> i32 {
    #[cfg(feature = "mt")]
    if in_sim() && crate::mt::yielded() {
        return 0;
    }
    set_errno(raw6(libc::SYS_sched_yield, 0, 0, 0, 0, 0, 0)) as i32
}

unsafe fn fill(buf: *mut u8, len: usize) {
    let mut i = 0;
    while i < len {
        let mut s = ENTROPY.load(SeqCst);
        let v = splitmix(&mut s).to_le_bytes();
        ENTROPY.store(s, SeqCst);
        for b in v {
            if i < len {
                *buf.add(i) = b;
                i += 1;
            }
        }
    }
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut u8, len: usize, flags: u32) -> isize {
    if in_sim() {
        fill(buf, len);
        return len as isize;
    }
    set_errno(raw6(libc::SYS_getrandom, buf as i64, len as i64, flags as i64, 0, 0, 0)) as isize
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: i64, a: i64, b: i64, c: i64, d: i64, e: i64, f: i64) -> i64 {
    if in_sim() {
        if n == libc::SYS_getrandom {
            fill(a as *mut u8, b as usize);
            return b;
        }
        if n == libc::SYS_futex {
            let h = FUTEX_HOOK.load(SeqCst);
            if h != 0 {
                let h: FutexHook = std::mem::transmute(h);
                let _off = Uncounted::new();
                return set_errno(h(b as i32, a as usize, c as u32, d != 0));
            }
            let op = (b as i32) & 0x7f;
            if op == libc::FUTEX_WAIT || op == libc::FUTEX_WAIT_BITSET {
                // the only simulated thread would sleep for ever
                crate::rt::fatal("thread-deadlock", "everything waits for ever: no task can run and no timer is set, or a lock is held that nobody can release");
            }
        }
    }
    set_errno(raw6(n, a, b, c, d, e, f))
}

// ---------------------------------------------------------------- heap

thread_local! {
    static OFF: Cell<u32> = const { Cell::new(0) };
}

/// What is allocated while this exists belongs to the simulator and is not counted: it comes from a
/// heap of its own, so that it can be told apart when it is freed.
pub struct Uncounted(());
impl Uncounted {
    #[allow(clippy::new_without_default)]
    pub fn new() -> Uncounted {
        #[cfg(feature = "mt")]
        crate::mt::mask(1);
        let _ = OFF.try_with(|o| o.set(o.get() + 1));
        Uncounted(())
    }
}
impl Drop for Uncounted {
    fn drop(&mut self) {
        let _ = OFF.try_with(|o| o.set(o.get() - 1));
        #[cfg(feature = "mt")]
        crate::mt::mask(-1);
    }
}

const OWN_SIZE: usize = 4 << 30;
static OWN_BASE: AtomicUsize = AtomicUsize::new(0);
static OWN_LOCK: AtomicUsize = AtomicUsize::new(0);
static OWN_NEXT: AtomicUsize = AtomicUsize::new(0);
static OWN_FREE: [AtomicUsize; 32] = [const { AtomicUsize::new(0) }; 32];

/// Reserves the simulator's own heap.
pub fn map_own() {
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            OWN_SIZE,
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        OWN_BASE.store(p as usize, SeqCst);
    }
}

fn own(p: usize) -> bool {
    let b = OWN_BASE.load(Relaxed);
    b != 0 && p >= b && p < b + OWN_SIZE
}
fn class(l: &Layout) -> u32 {
    l.size().max(l.align()).max(16).next_power_of_two().trailing_zeros()
}
fn locked<R>(f: impl FnOnce() -> R) -> R {
    #[cfg(feature = "mt")]
    crate::mt::mask(1);
    while OWN_LOCK.compare_exchange(0, 1, SeqCst, SeqCst).is_err() {
        std::hint::spin_loop();
    }
    let r = f();
    OWN_LOCK.store(0, SeqCst);
    #[cfg(feature = "mt")]
    crate::mt::mask(-1);
    r
}
unsafe fn own_alloc(l: Layout) -> *mut u8 {
    if OWN_BASE.load(Relaxed) == 0 || l.align() > 4096 || OFF.try_with(|o| o.get()).unwrap_or(0) == 0 {
        return std::ptr::null_mut();
    }
    let c = class(&l);
    locked(|| {
        let head = OWN_FREE[c as usize].load(Relaxed);
        if head != 0 {
            OWN_FREE[c as usize].store(*(head as *const usize), Relaxed);
            return head as *mut u8;
        }
        let n = 1usize << c;
        let at = (OWN_NEXT.load(Relaxed) + n - 1) & !(n.min(4096) - 1);
        if at + n > OWN_SIZE {
            return std::ptr::null_mut();
        }
        OWN_NEXT.store(at + n, Relaxed);
        (OWN_BASE.load(Relaxed) + at) as *mut u8
    })
}
unsafe fn own_free(p: *mut u8, l: Layout) {
    let c = class(&l) as usize;
    locked(|| {
        *(p as *mut usize) = OWN_FREE[c].load(Relaxed);
        OWN_FREE[c].store(p as usize, Relaxed);
    })
}

pub struct Heap;
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static PEAK: AtomicUsize = AtomicUsize::new(0);
pub static BIGGEST: AtomicUsize = AtomicUsize::new(0);
/// Allocations above this size fail.
pub static REFUSE: AtomicUsize = AtomicUsize::new(usize::MAX);

fn grow(n: usize) {
    let l = LIVE.fetch_add(n, Relaxed) + n;
    PEAK.fetch_max(l, Relaxed);
    if in_sim() {
        BIGGEST.fetch_max(n, Relaxed);
    }
}

fn refused(n: usize) -> bool {
    if n > REFUSE.load(Relaxed) && in_sim() {
        crate::rt::note_refused(n);
        return true;
    }
    false
}

unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let o = own_alloc(l);
        if !o.is_null() {
            return o;
        }
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        grow(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let o = own_alloc(l);
        if !o.is_null() {
            o.write_bytes(0, l.size());
            return o;
        }
        if refused(l.size()) {
            return std::ptr::null_mut();
        }
        grow(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if own(p as usize) {
            return own_free(p, l);
        }
        LIVE.fetch_sub(l.size(), Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if own(p as usize) {
            // (stays where it is counted)
            let _off = Uncounted::new();
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                q.copy_from_nonoverlapping(p, l.size().min(n));
                own_free(p, l);
            }
            return q;
        }
        if refused(n) {
            return std::ptr::null_mut();
        }
        LIVE.fetch_sub(l.size(), Relaxed);
        grow(n);
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static HEAP: Heap = Heap;
