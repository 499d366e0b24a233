//! One simulated run: decision streams, scheduler host, history, outcome.

use crate::sys::{self, splitmix};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::rc::Rc;
use std::sync::atomic::{AtomicPtr, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use tokio::sim::net::{Addr, Event, Plan};
use tokio::sim::Kind;

pub const CFG: u32 = 0;
pub const SCHED: u32 = 1;
pub const OPS: u32 = 1000;
pub const NET: u32 = 1_000_000;

/// A complete description of one execution.
#[derive(Clone, Debug, Default)]
pub struct Trace {
    pub scenario: String,
    pub seed: u64,
    pub streams: BTreeMap<u32, Vec<u32>>,
    /// Generate the schedule from this seed instead of reading it.
    pub sched_seed: Option<u64>,
    /// Everything is generated from `seed`.
    pub generate: bool,
    pub verbose: bool,
}

impl Trace {
    pub fn to_json(&self) -> Value {
        let mut s = serde_json::Map::new();
        for (k, v) in &self.streams {
            s.insert(k.to_string(), json!(v));
        }
        json!({"scenario": self.scenario, "seed": self.seed, "streams": s,
               "sched_seed": self.sched_seed, "generate": self.generate})
    }
    pub fn from_json(v: &Value) -> Option<Trace> {
        let mut t = Trace {
            scenario: v["scenario"].as_str()?.to_string(),
            seed: v["seed"].as_u64()?,
            sched_seed: v["sched_seed"].as_u64(),
            generate: v["generate"].as_bool().unwrap_or(false),
            ..Default::default()
        };
        for (k, x) in v["streams"].as_object()? {
            let vals = x.as_array()?.iter().map(|e| e.as_u64().unwrap_or(0) as u32).collect();
            t.streams.insert(k.parse().ok()?, vals);
        }
        Some(t)
    }
    pub fn weight(&self) -> (usize, usize, u64) {
        let ops = self.streams.keys().filter(|k| **k >= OPS && **k < NET).count();
        let n = self.streams.values().map(|v| v.iter().filter(|x| **x != 0).count()).sum();
        let s = self.streams.values().flat_map(|v| v.iter()).map(|x| *x as u64).sum();
        (ops, n, s)
    }
}

// ---------------------------------------------------------------- shared memory

const REC_MAX: usize = 3_000_000;
const RES_MAX: usize = 16 << 20;

#[repr(C)]
pub struct Shared {
    pub status: AtomicU32, // 0 running, 1 finished
    pub overflow: AtomicU32,
    pub n_rec: AtomicUsize,
    pub refused: AtomicUsize,
    pub res_len: AtomicUsize,
    pub polls: AtomicU64,
    pub sim_ns: AtomicU64,
    pub primary: [u8; 256],
    pub rec: [(u32, u32); REC_MAX],
    pub res: [u8; RES_MAX],
}

static SHARED: AtomicPtr<Shared> = AtomicPtr::new(std::ptr::null_mut());

pub fn map_shared() -> *mut Shared {
    sys::map_own();
    unsafe {
        let p = libc::mmap(
            std::ptr::null_mut(),
            std::mem::size_of::<Shared>(),
            libc::PROT_READ | libc::PROT_WRITE,
            libc::MAP_SHARED | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE,
            -1,
            0,
        );
        assert!(p != libc::MAP_FAILED);
        SHARED.store(p as *mut Shared, SeqCst);
        p as *mut Shared
    }
}

fn shared() -> &'static mut Shared {
    unsafe { &mut *SHARED.load(SeqCst) }
}

pub fn note_refused(n: usize) {
    shared().refused.fetch_max(n, SeqCst);
}

fn record(stream: u32, v: u32) {
    let s = shared();
    let i = s.n_rec.load(Relaxed);
    if i < REC_MAX {
        s.rec[i] = (stream, v);
        s.n_rec.store(i + 1, Relaxed);
    } else {
        s.overflow.store(1, Relaxed);
    }
}

// ---------------------------------------------------------------- streams

struct StreamSt {
    given: Vec<u32>,
    pos: usize,
    rng: Option<u64>,
}

pub struct Ctx {
    trace: Trace,
    streams: BTreeMap<u32, StreamSt>,
    pub viols: Vec<Viol>,
    pub known: Vec<(String, String)>,
    pub stats: BTreeMap<String, u64>,
    pub primary: Vec<String>,
    also: Vec<String>,
    digest: u64,
    sched_digest: u64,
    pub log: Vec<String>,
    log_n: usize,
    nontrivial: bool,
    harness_err: Option<String>,
    pub panics: Vec<String>,
    pub sample: Option<String>,
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub props: Vec<String>,
    pub class: String,
    pub msg: String,
}

/// Used by one thread at a time: the simulation thread, or the one that may run.
struct Global(RefCell<Option<Ctx>>);
unsafe impl Sync for Global {}
static CTX: Global = Global(RefCell::new(None));

pub fn ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> R {
    let _off = sys::Uncounted::new();
    // (the borrow has to end before the guard)
    let r = f(CTX.0.borrow_mut().as_mut().expect("no simulation context"));
    r
}
fn try_ctx<R>(f: impl FnOnce(&mut Ctx) -> R) -> Option<R> {
    if !sys::in_sim() {
        return None;
    }
    let _off = sys::Uncounted::new();
    let r = match CTX.0.try_borrow_mut() {
        Ok(mut g) => g.as_mut().map(f),
        Err(_) => None,
    };
    r
}

pub fn mix(a: u64, b: u64) -> u64 {
    let mut s = a ^ b.wrapping_mul(0xD6E8FEB86659FD93);
    splitmix(&mut s)
}

fn draw(stream: u32, n: u32) -> u32 {
    let _off = sys::Uncounted::new();
    if n <= 1 {
        return 0;
    }
    let v = ctx(|c| {
        let t = &c.trace;
        let gen = t.generate || (stream == SCHED && t.sched_seed.is_some());
        let seed = if stream == SCHED { t.sched_seed.unwrap_or(t.seed) } else { t.seed };
        let st = c.streams.entry(stream).or_insert_with(|| StreamSt {
            given: if gen { vec![] } else { t.streams.get(&stream).cloned().unwrap_or_default() },
            pos: 0,
            rng: if gen { Some(mix(seed, stream as u64 + 77)) } else { None },
        });
        if st.pos < st.given.len() {
            st.pos += 1;
            st.given[st.pos - 1] % n
        } else if let Some(r) = st.rng.as_mut() {
            (splitmix(r) % n as u64) as u32
        } else {
            0
        }
    });
    record(stream, v);
    v
}

/// A decision stream.
#[derive(Clone, Copy, Debug)]
pub struct D(pub u32);

#[allow(dead_code)]
impl D {
    /// below n
    pub fn n(&self, n: u32) -> u32 {
        draw(self.0, n)
    }
    /// lo..=hi
    pub fn range(&self, lo: u32, hi: u32) -> u32 {
        lo + draw(self.0, hi - lo + 1)
    }
    /// true with p percent
    pub fn chance(&self, p: u32) -> bool {
        // 0 is always "no"
        draw(self.0, 100) >= 100 - p.min(100)
    }
    pub fn pick<'a, T>(&self, xs: &'a [T]) -> &'a T {
        &xs[draw(self.0, xs.len() as u32) as usize]
    }
    /// index chosen with the given weights
    pub fn weighted(&self, w: &[u32]) -> usize {
        let total: u32 = w.iter().sum();
        let mut v = draw(self.0, total);
        for (i, x) in w.iter().enumerate() {
            if v < *x {
                return i;
            }
            v -= x;
        }
        w.len() - 1
    }
    /// a size, small ones likely, up to max
    pub fn size(&self, max: u32) -> u32 {
        match self.n(6) {
            0 => self.n(4).min(max),
            1 => {
                // around the usual limits
                let b = *self.pick(&[32u32, 256, 1024, 4096, 65536, 128, 512, 2048, 8192, 16384, 32768, 1008, 1000]);
                let b = if b <= max { b } else { 32 };
                (b + self.n(5)).saturating_sub(2).min(max)
            }
            2 => self.n(64).min(max),
            3 => self.n(max.min(1400) + 1),
            _ => self.n(max + 1),
        }
    }
    pub fn u64(&self) -> u64 {
        ((self.n(u32::MAX) as u64) << 32) | self.n(u32::MAX) as u64
    }
}

pub fn cfg() -> D {
    D(CFG)
}

/// The operations of this run: in generation mode about as many as drawn from lo..=hi,
/// in replay mode those present in the trace.
pub fn ops(lo: u32, hi: u32) -> Vec<D> {
    let _off = sys::Uncounted::new();
    let (gen, keys, seed) = ctx(|c| {
        let keys: Vec<u32> =
            c.trace.streams.keys().copied().filter(|k| *k >= OPS && *k < NET).collect();
        (c.trace.generate, keys, c.trace.seed)
    });
    let keys = if gen {
        let mut s = mix(seed, 4242);
        let n = lo + (splitmix(&mut s) % (hi - lo + 1) as u64) as u32;
        (0..n).map(|i| OPS + i).collect()
    } else {
        keys
    };
    for k in &keys {
        record(*k, 0); // presence
        // the recorded presence value is consumed on replay
        ctx(|c| {
            if !c.trace.generate {
                let given = c.trace.streams.get(k).cloned().unwrap_or_default();
                c.streams.insert(*k, StreamSt { given, pos: 1, rng: None });
            }
        });
    }
    keys.into_iter().map(D).collect()
}

pub fn verbose() -> bool {
    try_ctx(|c| c.trace.verbose).unwrap_or(false)
}

/// The wall clock is about to be read: it may jump, step back, freeze or go on.
pub fn wall_jump() {
    let _off = sys::Uncounted::new();
    let d = D(4);
    match d.weighted(&[70, 8, 8, 6, 3, 3, 2]) {
        1 => {
            // freeze or thaw
            let now = tokio::sim::now_ns() as i64 + sys::WALL_OFFSET.load(Relaxed);
            let f = sys::WALL_FROZEN.load(Relaxed);
            sys::WALL_FROZEN.store(if f == i64::MIN { now } else { i64::MIN }, Relaxed);
        }
        2 => {
            // some milliseconds back or ahead
            let x = (d.n(9) as i64 - 4) * 1_000_000;
            sys::WALL_OFFSET.fetch_add(x, Relaxed);
        }
        3 => {
            sys::WALL_OFFSET.fetch_add((d.n(5) as i64 - 2) * 1_000_000_000, Relaxed);
        }
        4 => {
            // where ids repeat
            sys::WALL_OFFSET.fetch_add((d.n(3) as i64 - 1) * 65_535_000_000_000, Relaxed);
        }
        5 => {
            sys::WALL_OFFSET.store(*d.pick(&[1_700_000_000_000_000_000i64, -1, 0, 1_999_999, -5_000_000_000_000, 4_000_000_000_000_000_000]), Relaxed);
        }
        6 => sys::WALL_OFFSET.store(d.u64() as i64 >> 2, Relaxed),
        _ => return,
    }
    stat("fault:clock jump", 1);
}

// ---------------------------------------------------------------- history

struct Fnv(u64);
impl std::fmt::Write for Fnv {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for b in s.bytes() {
            self.0 = (self.0 ^ b as u64).wrapping_mul(0x100000001b3);
        }
        Ok(())
    }
}

pub fn log_args(a: std::fmt::Arguments<'_>) {
    let _off = sys::Uncounted::new();
    let now = tokio::sim::now_ns();
    let _ = try_ctx(|c| {
        let mut h = Fnv(c.digest ^ now);
        let _ = h.write_fmt(a);
        c.digest = h.0;
        c.log_n += 1;
        if c.trace.verbose && c.log.len() < 200_000 {
            c.log.push(format!("[{:>10.3}ms] {}", now as f64 / 1e6, a));
        }
    });
}

#[macro_export]
macro_rules! slog {
    ($($t:tt)*) => { $crate::rt::log_args(format_args!($($t)*)) };
}

pub fn stat(k: &str, n: u64) {
    let _off = sys::Uncounted::new();
    let _ = try_ctx(|c| {
        if let Some(v) = c.stats.get_mut(k) {
            *v += n;
        } else {
            c.stats.insert(k.to_string(), n);
        }
    });
}

/// Reports a violation of the given properties.
pub fn viol(props: &[&str], class: &str, msg: impl Into<String>) {
    let msg = msg.into();
    slog!("VIOLATION {:?} {}: {}", props, class, msg);
    let _ = try_ctx(|c| {
        if c.viols.len() < 50 {
            c.viols.push(Viol {
                props: props.iter().map(|s| s.to_string()).chain(c.also.iter().cloned()).collect(),
                class: class.to_string(),
                msg,
            })
        }
    });
}

static CONTROL: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

/// Whether this is a control run: the same workload without what `also` is about.
pub fn control() -> bool {
    CONTROL.load(SeqCst)
}

pub fn set_control(on: bool) {
    CONTROL.store(on, SeqCst);
}

/// From now on every violation in this run counts against these properties as well, provided that
/// violations of its class do not occur in control runs.
pub fn also(props: &[&str]) {
    if control() {
        return;
    }
    let _ = try_ctx(|c| {
        for p in props {
            let p = format!("?{}", p);
            if !c.also.contains(&p) {
                c.also.push(p)
            }
        }
    });
}

/// Reports that a listed known finding showed.
pub fn known(id: &str, msg: impl Into<String>) {
    let msg = msg.into();
    slog!("known finding {}: {}", id, msg);
    let _ = try_ctx(|c| {
        if c.known.len() < 20 {
            c.known.push((id.to_string(), msg))
        }
    });
}

/// Properties that generic failures (panic, abort, livelock) of this run count against.
pub fn primary(props: &[&str]) {
    let s = props.join(",");
    let b = s.as_bytes();
    let sh = shared();
    sh.primary = [0; 256];
    sh.primary[..b.len()].copy_from_slice(b);
    ctx(|c| c.primary = props.iter().map(|s| s.to_string()).collect());
}

pub fn nontrivial() {
    let _ = try_ctx(|c| c.nontrivial = true);
}

#[allow(dead_code)]
pub fn sample(s: String) {
    let _off = sys::Uncounted::new();
    let _ = try_ctx(|c| c.sample = Some(s));
}

pub fn harness_error(msg: String) {
    let _ = try_ctx(|c| {
        if c.harness_err.is_none() {
            c.harness_err = Some(msg)
        }
    });
}

pub fn now_ms() -> u64 {
    tokio::sim::now_ns() / 1_000_000
}

fn primary_now() -> Vec<String> {
    let sh = shared();
    let n = sh.primary.iter().position(|b| *b == 0).unwrap_or(256);
    String::from_utf8_lossy(&sh.primary[..n])
        .split(',')
        .filter(|s| !s.is_empty())
        .map(|s| s.to_string())
        .collect()
}

/// Ends the run at once with a violation of the run's primary properties.
pub fn fatal(class: &str, msg: &str) -> ! {
    sys::enter_sim(false);
    let v = json!({
        "viol": [{"props": primary_now(), "class": class, "msg": msg}],
        "digest": 0u64, "sched": 0u64, "sim_ns": tokio::sim::now_ns(), "stats": {}, "known": [],
    });
    // log lines, if they can be had
    let mut v = v;
    if let Some(log) = try_ctx(|c| {
        c.log.push(format!("FATAL {}: {}", class, msg));
        c.log.clone()
    }) {
        v["log"] = json!(log);
    }
    write_result(&v);
    unsafe { libc::_exit(0) }
}

fn write_result(v: &Value) {
    let b = serde_json::to_vec(v).unwrap();
    let s = shared();
    if b.len() <= RES_MAX {
        s.res[..b.len()].copy_from_slice(&b);
        s.res_len.store(b.len(), SeqCst);
        s.status.store(1, SeqCst);
    }
}

fn finish() {
    let v = ctx(|c| {
        let panics = std::mem::take(&mut c.panics);
        for p in panics {
            let props = c.primary.clone();
            c.viols.push(Viol { props, class: "panic".into(), msg: p });
        }
        json!({
            "viol": c.viols.iter().map(|v| json!({"props": v.props, "class": v.class, "msg": v.msg})).collect::<Vec<_>>(),
            "known": c.known,
            "digest": c.digest,
            "sched": c.sched_digest,
            "nontrivial": c.nontrivial,
            "stats": c.stats,
            "events": c.log_n,
            "sim_ns": tokio::sim::now_ns(),
            "harness_err": c.harness_err,
            "sample": c.sample,
            "log": if c.trace.verbose { c.log.clone() } else { vec![] },
        })
    });
    shared().sim_ns.store(tokio::sim::now_ns(), SeqCst);
    write_result(&v);
}

// ---------------------------------------------------------------- host

enum Policy {
    Fifo,
    Random,
    /// mostly first in first out; percent of deviations
    Mostly(u32),
    Lifo,
    /// priorities, with the polls at which the running task is demoted
    Pct { prio: BTreeMap<u64, u64>, changes: BTreeSet<u64>, low: u64 },
    /// tasks with id % m == r run only when nothing else can (or with 1/32)
    Starve { m: u64, r: u64 },
}

struct HostSt {
    policy: Policy,
    rng: u64,
    polls: u64,
    gen: bool,
}

pub struct Host {
    st: RefCell<HostSt>,
    plan: RefCell<Option<PlanFn>>,
    max_polls: u64,
}

pub type PlanFn = Box<dyn FnMut(usize, &Addr) -> Plan>;

thread_local! {
    static CURHOST: RefCell<Option<Rc<Host>>> = const { RefCell::new(None) };
}

static HOST_PTR: AtomicPtr<Host> = AtomicPtr::new(std::ptr::null_mut());

/// The host for another simulated thread.
struct Proxy(&'static Host);
impl tokio::sim::Host for Proxy {
    fn pick(&self, ids: &[u64]) -> usize {
        self.0.pick(ids)
    }
    fn choose(&self, k: Kind, n: u32) -> u32 {
        self.0.choose(k, n)
    }
    fn plan(&self, conn: usize, addr: &Addr) -> Plan {
        self.0.plan(conn, addr)
    }
    fn event(&self, ev: Event) {
        self.0.event(ev)
    }
    fn poll(&self, id: u64) {
        self.0.poll(id)
    }
}
pub fn host_for_thread() {
    let h: &'static Host = unsafe { &*HOST_PTR.load(SeqCst) };
    tokio::sim::install(Some(Rc::new(Proxy(h))));
}

/// Decides how new connections behave.
pub fn set_plan(f: PlanFn) {
    CURHOST.with(|h| *h.borrow().as_ref().unwrap().plan.borrow_mut() = Some(f));
}

impl Host {
    fn new(gen: bool, seed: u64, max_polls: u64) -> Host {
        let mut s = mix(seed, 991);
        let policy = match splitmix(&mut s) % 10 {
            0 => Policy::Fifo,
            1 | 2 | 3 => Policy::Random,
            4 => Policy::Mostly(5),
            5 => Policy::Mostly(30),
            6 => Policy::Lifo,
            7 | 8 => {
                let d = 1 + splitmix(&mut s) % 6;
                let span = 20 << (splitmix(&mut s) % 9);
                let changes = (0..d).map(|_| splitmix(&mut s) % span).collect();
                Policy::Pct { prio: BTreeMap::new(), changes, low: 1 << 32 }
            }
            _ => {
                let m = 2 + splitmix(&mut s) % 4;
                Policy::Starve { m, r: splitmix(&mut s) % m }
            }
        };
        Host {
            st: RefCell::new(HostSt { policy, rng: s, polls: 0, gen }),
            plan: RefCell::new(None),
            max_polls,
        }
    }
}

impl tokio::sim::Host for Host {
    fn pick(&self, ids: &[u64]) -> usize {
        let _off = sys::Uncounted::new();
        let n = ids.len();
        let mut st = self.st.borrow_mut();
        let i = if st.gen {
            let st = &mut *st;
            let r = splitmix(&mut st.rng);
            let i = match &mut st.policy {
                Policy::Fifo => 0,
                Policy::Lifo => {
                    if r % 8 == 0 { (r >> 8) as usize % n } else { n - 1 }
                }
                Policy::Random => r as usize % n,
                Policy::Mostly(p) => {
                    if (r % 100) < *p as u64 { (r >> 8) as usize % n } else { 0 }
                }
                Policy::Pct { prio, changes, low } => {
                    let mut best = 0;
                    let mut bp = 0;
                    for (i, id) in ids.iter().enumerate() {
                        let p = *prio.entry(*id).or_insert_with(|| {
                            (1 << 33) + (splitmix(&mut st.rng) >> 20)
                        });
                        if p > bp {
                            bp = p;
                            best = i;
                        }
                    }
                    if changes.contains(&st.polls) {
                        *low -= 1;
                        prio.insert(ids[best], *low);
                    }
                    if r % 64 == 0 { (r >> 8) as usize % n } else { best }
                }
                Policy::Starve { m, r: rem } => {
                    let ok: Vec<usize> = (0..n).filter(|i| ids[*i] % *m != *rem).collect();
                    if ok.is_empty() || r % 32 == 0 {
                        (r >> 8) as usize % n
                    } else {
                        ok[(r >> 8) as usize % ok.len()]
                    }
                }
            };
            drop(st);
            record(SCHED, i as u32);
            i
        } else {
            drop(st);
            draw(SCHED, n as u32) as usize
        };
        let _ = try_ctx(|c| {
            c.sched_digest = (c.sched_digest ^ ids[i]).wrapping_mul(0x100000001b3) ^ n as u64;
        });
        i
    }

    fn choose(&self, _kind: Kind, n: u32) -> u32 {
        let _off = sys::Uncounted::new();
        let mut st = self.st.borrow_mut();
        if st.gen {
            let v = (splitmix(&mut st.rng) % n as u64) as u32;
            drop(st);
            record(SCHED, v);
            v
        } else {
            drop(st);
            draw(SCHED, n)
        }
    }

    fn plan(&self, conn: usize, addr: &Addr) -> Plan {
        let _off = sys::Uncounted::new();
        let mut p = self.plan.borrow_mut();
        match p.as_mut() {
            Some(f) => f(conn, addr),
            None => Plan::default(),
        }
    }

    fn event(&self, ev: Event) {
        let _off = sys::Uncounted::new();
        let k = match &ev {
            Event::Connected(_) => "net:connected",
            Event::ConnectFailed(_) => "fault:connect failed",
            Event::Accepted(_) => "net:accepted",
            Event::AcceptError(..) => "fault:accept error",
            Event::Written(_, _, n) => {
                stat("net:bytes", *n as u64);
                "net:writes"
            }
            Event::Read(..) => "net:reads",
            Event::Eof(..) => "net:eof",
            Event::Closed(..) => "net:closed",
            Event::Shutdown(..) => "net:shutdown",
            Event::CutDone(id, _, c) => {
                CUTS.lock().unwrap().insert(*id);
                match c {
                tokio::sim::net::Cut::Reset => "fault:reset",
                tokio::sim::net::Cut::Vanish => "fault:peer vanished",
                tokio::sim::net::Cut::HalfEof => "fault:half-close",
                tokio::sim::net::Cut::BlackHole => "fault:black hole",
                }
            }
            Event::Stalled(..) => "fault:stall",
            Event::Full(..) => "fault:back-pressure",
            Event::ShortRead(..) => "fault:short read",
            Event::ShortWrite(..) => "fault:short write",
            Event::Spurious(..) => "fault:spurious not-ready",
        };
        stat(k, 1);
        slog!("net {:?}", ev);
    }

    fn poll(&self, _id: u64) {
        let _off = sys::Uncounted::new();
        let mut st = self.st.borrow_mut();
        st.polls += 1;
        let p = st.polls;
        drop(st);
        if p > self.max_polls {
            fatal("livelock", &format!("still busy after {} task polls", p));
        }
        shared().polls.store(p, Relaxed);
    }
}

// ---------------------------------------------------------------- running

pub struct Scenario {
    pub name: &'static str,
    pub run: fn() -> std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>,
    pub max_polls: u64,
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        if !sys::in_sim() {
            eprintln!("{}", info);
            return;
        }
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        if msg.starts_with("SIMPANIC") {
            return;
        }
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        // the harness' own files have relative paths
        if loc.starts_with("src/") {
            harness_error(format!("harness panic at {}: {}", loc, msg));
        } else {
            let m = format!("panicked at {}: {}", loc, msg);
            slog!("PANIC {}", m);
            let _ = try_ctx(|c| {
                if c.panics.len() < 5 {
                    c.panics.push(m)
                }
            });
        }
    }));
}

extern "C" {
    fn setitimer(which: i32, new: *const libc::itimerval, old: *mut libc::itimerval) -> i32;
}

static CUTS: std::sync::Mutex<BTreeSet<usize>> = std::sync::Mutex::new(BTreeSet::new());

/// Did a cut take effect on this connection?
pub fn was_cut(conn: usize) -> bool {
    CUTS.lock().unwrap().contains(&conn)
}

/// Runs one simulation in the current (forked) process and never returns.
pub fn child(sc: &'static Scenario, trace: Trace) -> ! {
    unsafe {
        // runaway computation ends the run, whatever it is doing
        let secs = if trace.verbose { 60 } else { 15 };
        let it = libc::itimerval {
            it_interval: libc::timeval { tv_sec: 0, tv_usec: 0 },
            it_value: libc::timeval { tv_sec: secs, tv_usec: 0 },
        };
        setitimer(2 /* ITIMER_PROF */, &it, std::ptr::null_mut());
        // no core files
        let rl = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &rl);
    }
    install_panic_hook();
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || sim_thread(sc, trace))
        .unwrap();
    let _ = h.join();
    unsafe { libc::_exit(3) }
}

fn sim_thread(sc: &'static Scenario, trace: Trace) {
    let gen_sched = trace.generate || trace.sched_seed.is_some();
    let host = Rc::new(Host::new(
        gen_sched,
        trace.sched_seed.unwrap_or(trace.seed),
        sc.max_polls,
    ));
    sys::seed_entropy(mix(trace.seed, 31337));
    sys::WALL_OFFSET.store(1_700_000_000_000_000_000, SeqCst);
    tokio::sim::reset_clock();
    tokio::sim::net::reset();
    {
        *CTX.0.borrow_mut() = Some(Ctx {
            trace,
            streams: BTreeMap::new(),
            viols: vec![],
            known: vec![],
            stats: BTreeMap::new(),
            primary: vec![],
            also: vec![],
            digest: 0xcbf29ce484222325,
            sched_digest: 0,
            log: vec![],
            log_n: 0,
            nontrivial: false,
            harness_err: None,
            panics: vec![],
            sample: None,
        })
    }
    sys::enter_sim(true);
    // (never freed: other threads refer to it)
    let _: &'static Rc<Host> = Box::leak(Box::new(host.clone()));
    HOST_PTR.store(Rc::as_ptr(&host) as *mut Host, SeqCst);
    CURHOST.with(|h| *h.borrow_mut() = Some(host.clone()));
    tokio::sim::install(Some(host));
    // in some runs the wall clock jumps whenever it is read (ids.rs does that by itself)
    if !sc.name.contains("ids") && D(5).chance(12) {
        sys::WALL_JUMPS.store(1, SeqCst);
    }
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .build()
        .unwrap();
    let local = tokio::task::LocalSet::new();
    let _ = local;
    let fut = (sc.run)();
    struct Ass<T>(T);
    unsafe impl<T> Send for Ass<T> {}
    impl<T: std::future::Future> std::future::Future for Ass<T> {
        type Output = T::Output;
        fn poll(
            self: std::pin::Pin<&mut Self>,
            cx: &mut std::task::Context<'_>,
        ) -> std::task::Poll<T::Output> {
            unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
        }
    }
    let r = rt.block_on(async {
        // a spawned task, so that the scheduler decides about it as well
        tokio::spawn(Ass(fut)).await
    });
    if let Err(e) = r {
        harness_error(format!("scenario task failed: {:?}", e));
    }
    finish();
    unsafe { libc::_exit(0) }
}

#[derive(Clone, Debug)]
pub struct Outcome {
    pub viol: Vec<Viol>,
    pub v: Value,
    pub harness_err: Option<String>,
    pub overflow: bool,
}

/// Forks and runs; returns the outcome and (if asked) the recorded trace.
pub fn run_forked(sc: &'static Scenario, trace: &Trace, want_trace: bool) -> (Outcome, Option<Trace>) {
    let sh = shared();
    sh.status.store(0, SeqCst);
    sh.overflow.store(0, SeqCst);
    sh.n_rec.store(0, SeqCst);
    sh.refused.store(0, SeqCst);
    sh.res_len.store(0, SeqCst);
    sh.polls.store(0, SeqCst);
    sh.primary = [0; 256];
    let pid = unsafe { libc::fork() };
    assert!(pid >= 0, "fork failed");
    if pid == 0 {
        unsafe {
            libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
            // whatever the code under test prints is not ours
            let fd = libc::open(b"/dev/null\0".as_ptr() as *const _, libc::O_WRONLY);
            libc::dup2(fd, 1);
            if std::env::var_os("BROSIM_STDERR").is_none() {
                libc::dup2(fd, 2);
            }
        }
        child(sc, trace.clone());
    }
    let mut st = 0i32;
    unsafe {
        while libc::waitpid(pid, &mut st, 0) < 0 {}
    }
    let n = sh.res_len.load(SeqCst);
    let mut o = if sh.status.load(SeqCst) == 1 {
        let v: Value = serde_json::from_slice(&sh.res[..n]).unwrap_or(Value::Null);
        let viol = v["viol"]
            .as_array()
            .map(|a| {
                a.iter()
                    .map(|x| Viol {
                        props: x["props"]
                            .as_array()
                            .map(|p| p.iter().map(|s| s.as_str().unwrap_or("").to_string()).collect())
                            .unwrap_or_default(),
                        class: x["class"].as_str().unwrap_or("").to_string(),
                        msg: x["msg"].as_str().unwrap_or("").to_string(),
                    })
                    .collect()
            })
            .unwrap_or_default();
        let harness_err = v["harness_err"].as_str().map(|s| s.to_string());
        Outcome { viol, v, harness_err, overflow: false }
    } else {
        let refused = sh.refused.load(SeqCst);
        let (class, msg) = if libc::WIFSIGNALED(st) {
            let sig = libc::WTERMSIG(st);
            if sig == libc::SIGPROF {
                ("spin", format!("used all of its CPU time without finishing ({} polls)", sh.polls.load(SeqCst)))
            } else if refused > 0 {
                ("abort", format!("process aborted allocating {} bytes at once", refused))
            } else {
                ("abort", format!("process died with signal {}", sig))
            }
        } else {
            ("exit", format!("process exited with status {}", libc::WEXITSTATUS(st)))
        };
        let harness_err = if class == "exit" { Some(msg.clone()) } else { None };
        Outcome {
            viol: vec![Viol { props: primary_now(), class: class.into(), msg }],
            v: json!({"digest": 1, "sched": sh.n_rec.load(SeqCst) as u64, "stats": {}, "known": [], "sim_ns": 0}),
            harness_err,
            overflow: false,
        }
    };
    o.overflow = sh.overflow.load(SeqCst) != 0;
    let t = if want_trace {
        let mut streams: BTreeMap<u32, Vec<u32>> = BTreeMap::new();
        for i in 0..sh.n_rec.load(SeqCst) {
            let (s, v) = sh.rec[i];
            streams.entry(s).or_default().push(v);
        }
        Some(Trace {
            scenario: trace.scenario.clone(),
            seed: trace.seed,
            streams,
            sched_seed: None,
            generate: false,
            verbose: false,
        })
    } else {
        None
    };
    (o, t)
}
