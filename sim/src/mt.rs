//! Simulated threads: real threads of which one runs at a time. The compiler's thread-sanitizer
//! instrumentation calls `mt.c` at every atomic (and plain) access; there, seeded decisions take the
//! baton away. Blocking system calls (futex) and wakers are simulated, too.

use crate::rt::{self, fatal, D};
use crate::slog;
use crate::sys::{self, Uncounted};
use std::future::Future;
use std::pin::pin;
use std::sync::atomic::{AtomicBool, Ordering::*};
use std::sync::Arc;
use std::task::{Context as Cx, Poll, Wake};

extern "C" {
    static mut mt_on: i32;
    static mut mt_plain: i32;
    static mut mt_left: i64;
    static mut mt_points: u64;
    fn mt_off(d: i32);
    fn mt_wait_turn(me: i32);
    fn mt_hand(to: i32);
    fn mt_switch(me: i32, to: i32);
}

pub fn mask(d: i32) {
    unsafe { mt_off(d) }
}

const MT: D = D(3);

#[derive(Clone, Copy, PartialEq)]
enum St {
    Run,
    /// the runtime waits for time to pass
    Idle,
    Futex(usize, bool),
    Flag,
    Done,
}

impl std::fmt::Debug for St {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(match self {
            St::Run => "run",
            St::Idle => "idle",
            St::Futex(..) => "futex",
            St::Flag => "wait",
            St::Done => "done",
        })
    }
}

struct Th {
    st: St,
    flag: bool,
}

struct Sched {
    th: Vec<Th>,
    cur: usize,
    gap: u32,
    timed_out: bool,
    woken: bool,
    switches: u64,
}

static mut S: Option<Sched> = None;

#[allow(static_mut_refs)]
fn s() -> &'static mut Sched {
    unsafe { S.as_mut().expect("no threads") }
}
#[allow(static_mut_refs)]
pub fn on() -> bool {
    unsafe { S.is_some() }
}

impl Sched {
    fn runnable(&self, but: Option<usize>) -> Vec<usize> {
        (0..self.th.len()).filter(|i| Some(*i) != but && self.th[*i].st == St::Run).collect()
    }
    fn next_gap(&mut self) {
        let g = MT.n(2 * self.gap + 1);
        unsafe { mt_left = if g == 0 { 20_000 } else { g as i64 } }
    }
    fn go(&mut self, to: usize) {
        let me = self.cur;
        self.switches += 1;
        slog!("thread {} -> {} at {} ({:?})", me, to, unsafe { mt_points }, self.th[me].st);
        self.cur = to;
        self.next_gap();
        if self.th[me].st == St::Done {
            unsafe { mt_hand(to as i32) }
        } else {
            unsafe { mt_switch(me as i32, to as i32) }
        }
    }
    /// The current thread cannot go on.
    fn leave(&mut self) {
        loop {
            let c = self.runnable(None);
            if !c.is_empty() {
                let to = c[MT.n(c.len() as u32) as usize];
                if to != self.cur {
                    self.go(to);
                }
                return;
            }
            // only now time passes
            if self.th[0].st == St::Idle {
                self.th[0].st = St::Run;
                continue;
            }
            if let Some(i) = self.th.iter().position(|t| matches!(t.st, St::Futex(_, true))) {
                self.th[i].st = St::Run;
                self.timed_out = true;
                continue;
            }
            fatal("thread-deadlock", "all threads wait for each other");
        }
    }
}

#[no_mangle]
extern "C" fn mt_preempt() {
    let _off = Uncounted::new();
    let s = s();
    let c = s.runnable(Some(s.cur));
    if c.is_empty() {
        return s.next_gap();
    }
    rt::stat("fault:preemption", 1);
    let to = c[MT.n(c.len() as u32) as usize];
    s.go(to);
}

/// sched_yield
pub fn yielded() -> bool {
    if !on() {
        return false;
    }
    mt_preempt();
    true
}

fn futex(op: i32, addr: usize, val: u32, timed: bool) -> i64 {
    let s = s();
    match op & 0x7f {
        libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
            if unsafe { (addr as *const u32).read_volatile() } != val {
                return -(libc::EAGAIN as i64);
            }
            rt::stat("probe:blocked threads", 1);
            let me = s.cur;
            s.th[me].st = St::Futex(addr, timed);
            s.timed_out = false;
            s.leave();
            s.th[me].st = St::Run;
            if timed && std::mem::take(&mut s.timed_out) {
                return -(libc::ETIMEDOUT as i64);
            }
            0
        }
        libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
            let mut n = 0;
            for t in &mut s.th {
                if n < val as i64 && matches!(t.st, St::Futex(a, _) if a == addr) {
                    t.st = St::Run;
                    n += 1;
                }
            }
            n
        }
        _ => -(libc::ENOSYS as i64),
    }
}

fn idle() {
    let _off = Uncounted::new();
    let s = s();
    if s.cur != 0 {
        return;
    }
    s.woken = false;
    while !s.woken {
        let c = s.runnable(Some(0));
        if c.is_empty() {
            return;
        }
        s.th[0].st = St::Idle;
        let to = c[MT.n(c.len() as u32) as usize];
        s.go(to);
        s.th[0].st = St::Run;
    }
}

fn unpark() {
    let _off = Uncounted::new();
    let s = s();
    s.woken = true;
    if s.th[0].st == St::Idle {
        s.th[0].st = St::Run;
    }
}

/// From now on there may be other threads.
#[allow(static_mut_refs)]
pub fn start() {
    let _off = Uncounted::new();
    let gap = *MT.pick(&[40u32, 3, 10, 200, 1000]);
    unsafe {
        mt_plain = MT.chance(30) as i32;
        S = Some(Sched { th: vec![Th { st: St::Run, flag: false }], cur: 0, gap: if mt_plain != 0 { gap * 8 } else { gap }, timed_out: false, woken: false, switches: 0 });
        sys::set_futex_hook(Some(futex));
        tokio::sim::set_thread_hooks(Some(tokio::sim::ThreadHooks { idle, unpark, mask }));
        s().next_gap();
        mt_off(-1);
        mt_on = 1;
    }
}

/// No other threads are left.
#[allow(static_mut_refs)]
pub fn stop() {
    let _off = Uncounted::new();
    unsafe {
        mt_on = 0;
        mt_off(1);
        slog!("threads {:?}", s().th.iter().map(|t| t.st).collect::<Vec<_>>());
        slog!("{} points, {} switches", mt_points, s().switches);
        rt::stat("probe:preemption points", mt_points);
        rt::stat("probe:thread switches", s().switches);
        sys::set_futex_hook(None);
        tokio::sim::set_thread_hooks(None);
        S = None;
    }
}

struct Ass<T>(T);
unsafe impl<T> Send for Ass<T> {}

/// Starts a thread; the future completes when it ended.
pub async fn thread(f: impl FnOnce() + 'static) {
    let (tx, rx) = tokio::sync::oneshot::channel::<()>();
    {
        let _off = Uncounted::new();
        let handle = tokio::runtime::Handle::current();
        let id = s().th.len();
        s().th.push(Th { st: St::Run, flag: false });
        let x = Ass((f, tx, handle));
        std::thread::Builder::new()
            .stack_size(8 << 20)
            .spawn(move || {
                let x = x;
                unsafe { mt_wait_turn(id as i32) };
                let Ass((f, tx, handle)) = x;
                sys::enter_sim(true);
                rt::host_for_thread();
                {
                    let _in = handle.enter();
                    unsafe { mt_off(-1) };
                    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
                    let _ = tx.send(());
                    unsafe { mt_off(1) };
                    let _ = r;
                }
                drop(handle);
                tokio::sim::install(None);
                sys::enter_sim(false);
                let s = s();
                s.th[id].st = St::Done;
                s.leave();
            })
            .expect("cannot start a thread");
    }
    let _ = rx.await;
}

struct W(usize, AtomicBool);
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.wake_by_ref()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        let _off = Uncounted::new();
        if !on() || self.1.load(SeqCst) {
            return;
        }
        let t = &mut s().th[self.0];
        t.flag = true;
        if t.st == St::Flag {
            t.st = St::Run;
        }
    }
}

/// Runs a future on this thread.
pub fn block_on<F: Future>(f: F) -> F::Output {
    let me = s().cur;
    let w = Arc::new(W(me, AtomicBool::new(false)));
    let waker = w.clone().into();
    let mut cx = Cx::from_waker(&waker);
    let mut f = pin!(f);
    loop {
        if let Poll::Ready(v) = f.as_mut().poll(&mut cx) {
            w.1.store(true, SeqCst);
            return v;
        }
        let _off = Uncounted::new();
        let s = s();
        if !s.th[me].flag {
            s.th[me].st = St::Flag;
            s.leave();
            s.th[me].st = St::Run;
        }
        s.th[me].flag = false;
    }
}
