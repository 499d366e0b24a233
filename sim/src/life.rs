//! Servers and clients over their life: serving on whatever peers do, set-up, stop and loss.

use crate::net::{self, KeySetup, NetCfg, Tp, T};
use crate::raw::{raw_connect, BoxIo};
use crate::rt::{self, cfg, nontrivial, ops, stat, viol, D};
use crate::with_transport;
use crate::slog;
use crate::world::{spawn, Ass};
use bromine::prelude::*;
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashMap};
use std::future::Future;
use std::io::ErrorKind;
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context as Cx, Poll};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sim::net::{self as sn, Cut};
use tokio::time::{timeout, Instant};

/// Virtual time within which everything that can proceed is over.
const STUCK: Duration = Duration::from_secs(400);

// ---------------------------------------------------------------- who opens which connection

#[derive(Clone, Debug, Default)]
struct ConnPlan {
    connect_err: Option<ErrorKind>,
    accept_err: Option<ErrorKind>,
    /// direction, byte, how
    cut: Option<(usize, u64, Cut)>,
    /// direction, byte, ms
    stall: Option<(usize, u64, u32)>,
}

thread_local! {
    static OWNER: Cell<Option<usize>> = const { Cell::new(None) };
    /// (op, number of its connection) -> behaviour
    static WANT: RefCell<HashMap<(usize, usize), ConnPlan>> = RefCell::new(HashMap::new());
    /// op -> its connections
    static CONNS: RefCell<BTreeMap<usize, Vec<usize>>> = RefCell::new(BTreeMap::new());
}

/// Connections opened by the future belong to the operation.
struct Owned<F>(usize, F);
impl<F: Future> Future for Owned<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<F::Output> {
        let old = OWNER.with(|o| o.replace(Some(self.0)));
        let r = unsafe { self.map_unchecked_mut(|s| &mut s.1) }.poll(cx);
        OWNER.with(|o| o.set(old));
        r
    }
}

fn want(op: usize, n: usize, p: ConnPlan) {
    WANT.with(|w| w.borrow_mut().insert((op, n), p));
}
fn conns(op: usize) -> Vec<usize> {
    CONNS.with(|c| c.borrow().get(&op).cloned().unwrap_or_default())
}

fn install(nc: NetCfg) {
    rt::set_plan(Box::new(move |conn, _| {
        let mut p = nc.plan(conn);
        if let Some(op) = OWNER.with(|o| o.get()) {
            let n = CONNS.with(|c| {
                let mut c = c.borrow_mut();
                let v = c.entry(op).or_default();
                v.push(conn);
                v.len() - 1
            });
            if let Some(w) = WANT.with(|w| w.borrow().get(&(op, n)).cloned()) {
                p.connect_err = w.connect_err;
                p.accept_err = w.accept_err;
                if let Some((d, at, how)) = w.cut {
                    p.dirs[d].cut_at = Some((at, how));
                }
                if let Some((d, at, ms)) = w.stall {
                    p.dirs[d].stall_at = Some((at, ms));
                }
            }
        }
        p
    }));
}

fn key_setup(d: D, t: T) -> KeySetup {
    KeySetup {
        base: d.u64(),
        clients: 3,
        server_allow: d.chance(40),
        client_allow: d.chance(50),
        ttl: if t.tcp() { if d.chance(40) { Some(d.range(1, 250)) } else { None } } else { None },
    }
}

fn encrypted(t: T) -> bool {
    t.encrypted()
}

/// Bytes the server sends until the key exchange is over (for the client).
const EXCHANGE: [u64; 2] = [32, 32 + 4 + 48];

// ---------------------------------------------------------------- the server everybody uses

fn num(ev: &Event) -> u64 {
    ev.data_raw().get(..8).map(|b| u64::from_be_bytes(b.try_into().unwrap())).unwrap_or(0)
}

fn payload(n: u64, extra: usize) -> BytePayload {
    let mut v = n.to_be_bytes().to_vec();
    v.resize(8 + extra, n as u8);
    BytePayload::new(v)
}

thread_local! {
    static HANDLED: RefCell<HashMap<(usize, u64), u64>> = RefCell::new(HashMap::new());
}

fn handled(side: usize, n: u64) -> u64 {
    HANDLED.with(|h| h.borrow().get(&(side, n)).copied().unwrap_or(0))
}
fn note(side: usize, n: u64) {
    slog!("side {} handles {}", side, n);
    HANDLED.with(|h| *h.borrow_mut().entry((side, n)).or_default() += 1);
}

thread_local! {
    /// server-side contexts of clients that said hello
    static PEERS: RefCell<HashMap<u64, Context>> = RefCell::new(HashMap::new());
}

fn serve_on<L: Tp>(keys: &KeySetup, addr: u16) -> IPCBuilder<L> {
    IPCBuilder::<L>::new()
        .address(L::addr(addr))
        .server_options(L::sopts(keys))
        .timeout(Duration::from_secs(5))
        .on("ping", |ctx, ev| {
            let n = num(&ev);
            note(0, n);
            Box::pin(async move { ctx.response(payload(n, 0)) })
        })
        .on("blob", |ctx, ev| {
            let n = num(&ev);
            Box::pin(async move { ctx.response(payload(n, (n & 0xffff) as usize)) })
        })
        .on("slow", |ctx, ev| {
            let n = num(&ev);
            Box::pin(async move {
                tokio::time::sleep(Duration::from_millis(n & 0xffff)).await;
                ctx.response(payload(n, 0))
            })
        })
        .on("forever", |_, _| Box::pin(std::future::pending()))
        .on("fail", |_, _| Box::pin(async { Err(IPCError::from("no")) }))
        .on("boom", |_, ev| {
            if num(&ev) % 3 == 0 {
                std::panic::panic_any("SIMPANIC at once".to_string());
            }
            Box::pin(async move {
                if num(&ev) % 3 == 1 {
                    tokio::task::yield_now().await;
                }
                std::panic::panic_any("SIMPANIC in a handler".to_string());
                #[allow(unreachable_code)]
                Ok(Response::empty())
            })
        })
        .on("many", |ctx, ev| {
            // low bits: number, next bits: ms between
            let n = num(&ev);
            Box::pin(async move {
                for i in 0..(n & 0xff) {
                    ctx.emit("item", payload(i, 0)).await?;
                    tokio::time::sleep(Duration::from_millis((n >> 8) & 0xfff)).await;
                }
                ctx.response(payload(n, 0))
            })
        })
        .on("hello", |ctx, ev| {
            let n = num(&ev);
            let mut c = ctx.clone();
            let _ = &mut c;
            PEERS.with(|p| p.borrow_mut().insert(n, c));
            Box::pin(async move { ctx.response(payload(n, 0)) })
        })
}

fn client_for<L: Tp>(keys: &KeySetup, addr: u16, own: usize, side: usize) -> IPCBuilder<L> {
    IPCBuilder::<L>::new()
        .address(L::addr(addr))
        .client_options(L::copts(keys, own))
        .timeout(Duration::from_secs(60))
        .on("note", move |_, ev| {
            note(side, num(&ev));
            Box::pin(async { Ok(Response::empty()) })
        })
        .on("item", move |_, ev| {
            note(side, num(&ev));
            Box::pin(async { Ok(Response::empty()) })
        })
}

thread_local! {
    static UNIQ: Cell<u64> = const { Cell::new(1) };
}
fn uniq() -> u64 {
    UNIQ.with(|u| {
        let n = u.get();
        u.set(n + 1);
        n << 24
    })
}

/// A ping that must be answered with the same number.
async fn ping(ctx: &Context) -> Result<(), String> {
    let n = uniq();
    match timeout(STUCK, ctx.emit("ping", payload(n, 0)).await_reply().with_timeout(STUCK / 2)).await {
        Ok(Ok(ev)) if num(&ev) == n => Ok(()),
        Ok(Ok(ev)) => Err(format!("answered with {:?} {:?}", ev.event_type(), ev.data_raw())),
        Ok(Err(e)) => Err(format!("failed: {}", e)),
        Err(_) => Err("neither answered nor failed".into()),
    }
}

async fn build<L: Tp>(b: IPCBuilder<L>) -> Result<Context, String> {
    match timeout(STUCK, b.build_client()).await {
        Ok(Ok(c)) => Ok(c),
        Ok(Err(e)) => Err(format!("failed: {}", e)),
        Err(_) => Err("neither succeeded nor failed".into()),
    }
}

// ---------------------------------------------------------------- C12

/// A new peer must be served.
async fn newcomer<L: Tp>(keys: &KeySetup, own: usize, what: &str) -> Option<Context> {
    let t0 = Instant::now();
    match build(client_for::<L>(keys, 0, own, 1)).await {
        Err(e) => {
            viol(&["C12"], "not-accepted", format!("{}: connecting {}", what, e));
            None
        }
        Ok(c) => match ping(&c).await {
            Err(e) => {
                viol(&["C12"], "not-served", format!("{}: a ping {}", what, e));
                None
            }
            Ok(()) => {
                slog!("{} served after {:?}", what, t0.elapsed());
                Some(c)
            }
        },
    }
}

thread_local! {
    /// raw connections that stay open
    static HELD: RefCell<Vec<BoxIo>> = RefCell::new(vec![]);
    static KEPT: RefCell<Vec<(usize, Context)>> = RefCell::new(vec![]);
}

fn hold(io: BoxIo) {
    HELD.with(|h| h.borrow_mut().push(io));
}

const ACCEPT_ERRS: [ErrorKind; 8] = [
    ErrorKind::ConnectionAborted,
    ErrorKind::Other,
    ErrorKind::ConnectionReset,
    ErrorKind::OutOfMemory,
    ErrorKind::Interrupted,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::TimedOut,
];

async fn peer<L: Tp>(i: usize, d: D, t: T, keys: KeySetup) {
    let kind = d.weighted(&[24, 8, 12, 10, 8, 10, 8, 8, 8, 10, 10, 10, 4]);
    let delay = if d.chance(50) { d.n(2000) } else { 0 };
    let own = d.range(1, 3) as usize;
    let burst = *d.pick(&[1u32, 2, 5, 20, 1, 1, 70, 1, 1, 150, 1, 2, 300, 600]);
    let seed = d.u64();
    tokio::time::sleep(Duration::from_millis(delay as u64)).await;
    slog!("peer {} is of kind {} (burst {})", i, kind, burst);
    stat(&format!("peer kind {}", kind), 1);
    match kind {
        0 => {
            if let Some(c) = newcomer::<L>(&keys, own, &format!("peer {}", i)).await {
                KEPT.with(|k| k.borrow_mut().push((i, c)));
            }
        }
        1 => {
            for _ in 0..burst {
                if let Ok(io) = raw_connect(t, 0).await {
                    if d.n(2) == 1 {
                        tokio::time::sleep(Duration::from_millis(d.n(50) as u64)).await;
                    }
                    drop(io);
                }
            }
        }
        2 => {
            for _ in 0..burst {
                if let Ok(io) = raw_connect(t, 0).await {
                    hold(io);
                }
            }
        }
        3 => {
            for _ in 0..burst.min(20) {
                if let Ok(mut io) = raw_connect(t, 0).await {
                    let mut b = crate::enc_bytes(seed, 80);
                    b.truncate(d.n(if encrypted(t) { 40 } else { 60 }) as usize);
                    if !encrypted(t) && d.n(2) == 1 {
                        // the start of a well-formed frame
                        let f = crate::codec::Frame::new(77, 0, None, None, "ping", vec![0; 60]).encode();
                        b = f[..b.len().min(f.len() - 1)].to_vec();
                    }
                    let _ = timeout(STUCK, io.write_all(&b)).await;
                    match d.n(3) {
                        0 => hold(io),
                        1 => {
                            let _ = timeout(STUCK, io.shutdown()).await;
                            hold(io)
                        }
                        _ => drop(io),
                    }
                }
            }
        }
        4 => {
            if let Ok(mut io) = raw_connect(t, 0).await {
                let b = crate::enc_bytes(seed, d.n(5000) as usize);
                let _ = timeout(Duration::from_secs(50), io.write_all(&b)).await;
                hold(io);
            }
        }
        5 => {
            let k = *d.pick(&ACCEPT_ERRS);
            if d.n(2) == 0 {
                // the connection is lost before it is accepted
                want(i, 0, ConnPlan { accept_err: Some(k), ..Default::default() });
                let r = timeout(STUCK, client_for::<L>(&keys, 0, own, 1).build_client()).await;
                if let Ok(Ok(c)) = r {
                    let _ = timeout(STUCK, c.emit("ping", payload(uniq(), 0)).await_reply().with_timeout(Duration::from_secs(2))).await;
                }
            } else {
                sn::accept_errors(&L::sim_addr(0), k, burst.min(100) as usize);
            }
        }
        6 | 7 => {
            if let Some(c) = newcomer::<L>(&keys, own, &format!("peer {}", i)).await {
                let n = if kind == 7 { *d.pick(&[1u32, 3, 20, 1, 300]) } else { burst.min(20) };
                for j in 0..n {
                    let name = if kind == 6 { "boom" } else { "forever" };
                    if let Err(_) = timeout(STUCK, c.emit(name, payload(j as u64, 0))).await {
                        viol(&["C12", "C21"], "emit-stuck", format!("peer {}: emitting {} does not complete", i, name));
                        return;
                    }
                }
                match ping(&c).await {
                    Err(e) => viol(if kind == 7 { &["C12", "C21"] } else { &["C12"] }, "not-served", format!("peer {}: a ping after {} {} handlers {}", i, n, if kind == 6 { "panicking" } else { "never-ending" }, e)),
                    Ok(()) => KEPT.with(|k| k.borrow_mut().push((i, c))),
                }
            }
        }
        8 => {
            if let Some(c) = newcomer::<L>(&keys, own, &format!("peer {}", i)).await {
                for x in conns(i) {
                    sn::stall(x, 1, Some(100_000_000));
                }
                for _ in 0..burst.min(20) {
                    let n = uniq() | d.n(50_000) as u64;
                    if timeout(Duration::from_secs(100), c.emit("blob", payload(n, 0))).await.is_err() {
                        break;
                    }
                }
                // (its own replies never arrive)
                std::mem::forget(c);
            }
        }
        9 | 11 => {
            let dir = d.n(2) as usize;
            let at = match d.n(3) {
                0 => d.n(100),
                1 => d.n(40),
                _ => d.n(3000),
            } as u64;
            let forever = d.n(2) == 0;
            if kind == 9 {
                want(i, 0, ConnPlan { cut: Some((dir, at, *d.pick(&[Cut::Vanish, Cut::Reset, Cut::HalfEof, Cut::BlackHole]))), ..Default::default() });
            } else {
                want(i, 0, ConnPlan { stall: Some((dir, at.min(100), if forever { 1_000_000_000 } else { d.range(1, 30_000) })), ..Default::default() });
            }
            let r = timeout(STUCK, client_for::<L>(&keys, 0, own, 1).build_client()).await;
            match r {
                Ok(Ok(c)) => {
                    for _ in 0..5 {
                        let n = uniq();
                        let r = timeout(STUCK, c.emit("ping", payload(n, 0)).await_reply().with_timeout(Duration::from_secs(399))).await;
                        let ok = matches!(&r, Ok(Ok(ev)) if num(ev) == n);
                        if kind == 11 && !forever && !ok {
                            viol(&["C12", "C21"], "not-served", format!("peer {}: a ping after a stall: {:?}", i, r.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))));
                            break;
                        }
                        if !ok {
                            break;
                        }
                    }
                    std::mem::forget(c);
                }
                r => {
                    if kind == 11 && !forever {
                        viol(&["C12", "C24"], "not-accepted", format!("peer {}: connecting over a connection that stalls for a while: {:?}", i, r.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))));
                    }
                }
            }
        }
        10 => {
            // refused again and again
            let t0 = Instant::now();
            for k in 0..*d.pick(&[1u32, 1, 1, 3, 40, 300]) {
                bad_peer::<L>(i, d, t, &keys, own, seed.wrapping_add(k as u64)).await;
                if t0.elapsed() > STUCK * 5 {
                    break;
                }
            }
        }
        _ => {
            if let Some(c) = newcomer::<L>(&keys, own, &format!("peer {}", i)).await {
                for _ in 0..burst.min(20) {
                    let _ = timeout(STUCK, c.emit("fail", payload(0, 0)).await_reply()).await;
                }
                KEPT.with(|k| k.borrow_mut().push((i, c)));
            }
        }
    }
}

/// Breaks the rules after a correct start.
async fn bad_peer<L: Tp>(i: usize, d: D, t: T, keys: &KeySetup, own: usize, seed: u64) {
    let Ok(mut io) = raw_connect(t, 0).await else { return };
    let n = uniq();
    let good = crate::codec::Frame::new(1 << 50 | i as u64, 0, None, None, "ping", n.to_be_bytes().to_vec()).encode();
    let mut bad = match d.n(4) {
        0 => crate::enc_bytes(seed, 50),
        1 => {
            let mut b = good.clone();
            b[d.n(10) as usize] ^= 1 << d.n(8);
            b
        }
        2 => vec![0xff; 40],
        _ => vec![0; 40],
    };
    if d.n(3) == 0 {
        bad.extend_from_slice(&good);
    }
    let lim = Duration::from_secs(100);
    #[cfg(feature = "full")]
    if encrypted(t) {
        use crate::enc::*;
        match d.n(6) {
            0 => {
                // degenerate or unknown key
                let k = if d.n(2) == 0 { low_order(d.n(5)) } else { *keys.public(60 + i).as_bytes() };
                let _ = timeout(lim, io.write_all(&k)).await;
                let _ = timeout(lim, io.write_all(&crate::enc_bytes(seed, d.n(100) as usize))).await;
            }
            1 => {
                let _ = timeout(STUCK, client_for::<L>(keys, 0, 70 + i, 1).build_client()).await;
            }
            k => {
                let s = keys.secret(own);
                if let Ok(Some(key)) = timeout(lim, raw_client_exchange(&mut io, &s)).await {
                    match k {
                        2 => {
                            let _ = timeout(lim, io.write_all(&bad)).await;
                        }
                        3 => {
                            let _ = timeout(lim, send_package(&mut io, &bad)).await;
                        }
                        4 => {
                            let _ = timeout(lim, send_package(&mut io, &seal(&key, 0, &bad))).await;
                        }
                        _ => {
                            let _ = timeout(lim, send_package(&mut io, &seal(&key, 0, &good))).await;
                            let _ = timeout(lim, send_package(&mut io, &seal(&key, 0, &good))).await;
                        }
                    }
                }
            }
        }
        hold(io);
        return;
    }
    let _ = (keys, own);
    let _ = timeout(lim, io.write_all(&good)).await;
    let _ = timeout(lim, io.write_all(&bad)).await;
    hold(io);
}

async fn serve_run<L: Tp>(t: T, nc: NetCfg) {
    let d = cfg();
    let keys = key_setup(d, t);
    install(nc);
    let server = {
        let b = serve_on::<L>(&keys, 0);
        spawn(async move { b.build_server().await.map_err(|e| e.to_string()) })
    };
    crate::mesh::wait_listening(&L::sim_addr(0)).await;
    let first = newcomer::<L>(&keys, 1, "the first peer").await;
    let canaries = d.n(4);
    let mut tasks = vec![];
    for (i, od) in ops(2, 12).into_iter().enumerate() {
        let k = keys.clone();
        tasks.push(spawn(Owned(i, async move { peer::<L>(i, od, t, k).await })));
    }
    for c in 0..canaries {
        tokio::time::sleep(Duration::from_millis(*d.pick(&[0u64, 1, 300, 700, 1500]))).await;
        if let Some(c) = newcomer::<L>(&keys, 1 + d.n(3) as usize, &format!("canary {}", c)).await {
            let _ = c.stop().await;
        }
        if let Some(f) = &first {
            if let Err(e) = ping(f).await {
                viol(&["C12"], "not-served", format!("the first peer is not served any more: a ping {}", e));
            }
        }
    }
    for x in tasks {
        if timeout(STUCK * 20, x).await.is_err() {
            rt::harness_error("an operation does not end".into());
            return;
        }
    }
    nontrivial();
    newcomer::<L>(&keys, 1, "the last peer").await;
    if let Some(f) = first {
        KEPT.with(|k| k.borrow_mut().push((999, f)));
    }
    for (i, c) in KEPT.with(|k| std::mem::take(&mut *k.borrow_mut())) {
        if let Err(e) = ping(&c).await {
            viol(&["C12"], "not-served", format!("peer {}, connected and well-behaved, is not served any more: a ping {}", i, e));
        }
    }
    if server.is_finished() {
        viol(&["C12"], "server-ended", format!("the server ended: {:?}", server.await.map_err(|e| e.to_string())));
    }
    if !sn::is_listening(&L::sim_addr(0)) {
        viol(&["C12"], "not-listening", "the server does not listen any more".to_string());
    }
}

fn net(d: D) -> (T, NetCfg) {
    let t = net::pick_transport(d);
    let mut nc = net::net_cfg(d);
    nc.stalls = 0;
    nc.cuts = 0;
    stat(&format!("probe:transport {:?}", t), 1);
    (t, nc)
}

pub async fn serve() {
    rt::primary(&["C12", "C10"]);
    crate::sys::REFUSE.store(16 << 20, std::sync::atomic::Ordering::SeqCst);
    let (t, nc) = net(cfg());
    with_transport!(t, serve_run(t, nc));
}

// ---------------------------------------------------------------- C24

/// After a failed set-up nothing may be left of it.
async fn gone(op: usize, what: &str) {
    tokio::time::sleep(Duration::from_millis(200)).await;
    for c in conns(op) {
        if let Some(i) = sn::info(c) {
            if i.alive[0] {
                viol(&["C24"], "left-behind", format!("{} failed, but its connection {} is still open", what, c));
            }
        }
    }
}

async fn setup_op<L: Tp>(i: usize, d: D, t: T, keys: KeySetup) {
    let kind = d.weighted(&[10, 6, 16, 26, 16, 10, 12]);
    let own = d.range(1, 3) as usize;
    let pool = if d.chance(55) { d.range(1, 5) as usize } else { 0 };
    let k = d.n(pool.max(1) as u32) as usize;
    stat(&format!("set-up kind {}", kind), 1);
    slog!("set-up {} kind {} pool {} fault at {}", i, kind, pool, k);
    enum R {
        One(Context),
        Pool(PooledContext),
    }
    let attempt = |b: IPCBuilder<L>| async move {
        if pool == 0 {
            timeout(STUCK, b.build_client()).await.map(|r| r.map(R::One))
        } else {
            timeout(STUCK, b.build_pooled_client(pool)).await.map(|r| r.map(R::Pool))
        }
    };
    let what = format!("set-up {} (kind {}, pool {}, fault at {})", i, kind, pool, k);
    // (the time limit is for replies, not for the set-up)
    let limit = Duration::from_millis(*D(207).pick(&[60_000u64, 60_000, 60_000, 1, 20, 0]));
    let base = |addr: u16| client_for::<L>(&keys, addr, own, 1).timeout(limit);
    // expected outcome: Some(true) success, Some(false) failure, None open
    let (b, expect): (IPCBuilder<L>, Option<bool>) = match kind {
        0 => {
            let mut b = IPCBuilder::<L>::new().client_options(L::copts(&keys, own));
            if d.chance(30) {
                b = b.server_options(L::sopts(&keys));
                match timeout(STUCK, b.build_server()).await {
                    Ok(Err(_)) => {}
                    r => viol(&["C24"], "no-address", format!("a server without an address: {:?}", r.map(|r| r.map_err(|e| e.to_string())))),
                }
                return;
            }
            (b, Some(false))
        }
        1 => {
            stat("refused", 1);
            (base(9), Some(false))
        }
        2 => {
            let e = *d.pick(&[ErrorKind::ConnectionRefused, ErrorKind::TimedOut, ErrorKind::NotFound, ErrorKind::PermissionDenied, ErrorKind::Other, ErrorKind::ConnectionReset]);
            want(i, k, ConnPlan { connect_err: Some(e), ..Default::default() });
            (base(0), Some(false))
        }
        3 if encrypted(t) => {
            let dir = d.n(2) as usize;
            let at = d.n(EXCHANGE[dir] as u32 + 4) as u64;
            let how = *d.pick(&[Cut::Vanish, Cut::Reset, Cut::HalfEof]);
            want(i, k, ConnPlan { cut: Some((dir, at, how)), ..Default::default() });
            // the client is through when it received everything; a cut of its own direction behind its
            // key and one that it did not notice yet are not failures
            let fails = at < EXCHANGE[dir];
            (base(0), if fails { Some(false) } else { None })
        }
        4 => {
            // a peer that is no server
            let n = d.range(0, 120) as usize;
            let seed = d.u64();
            let close = d.chance(80);
            let l = crate::raw::RawListener::bind(t, 100 + i as u16).await;
            spawn(Ass(async move {
                while let Ok(io) = l.accept().await {
                    let mut b = crate::enc_bytes(seed, n);
                    if n > 36 {
                        b[32..36].copy_from_slice(&((n as u32) - 36).to_be_bytes());
                    }
                    // reads and writes at the same time, as neither may wait for the other
                    let (mut r, mut w) = tokio::io::split(io);
                    let drain = spawn(Ass(async move {
                        let mut x = [0u8; 64];
                        while let Ok(1..) = r.read(&mut x).await {}
                    }));
                    spawn(Ass(async move {
                        let _ = w.write_all(&b).await;
                        if close {
                            drain.abort();
                        } else {
                            let _ = w.shutdown().await;
                            let _ = drain.await;
                        }
                    }));
                }
            }));
            (base(100 + i as u16), if encrypted(t) { Some(false) } else { None })
        }
        5 if t.tcp() => {
            let mut k2 = keys.clone();
            k2.ttl = Some(*d.pick(&[255u32, 256, 1000, u32::MAX - 1]));
            let b = client_for::<L>(&k2, 0, own, 1);
            (b, Some(false))
        }
        _ => (base(0), Some(true)),
    };
    let before = handled(0, 0);
    let _ = before;
    let t0 = Instant::now();
    let r = attempt(b).await;
    match r {
        Err(_) => viol(&["C24"], "hangs", format!("{} neither succeeded nor failed in {:?}", what, t0.elapsed())),
        Ok(Err(e)) => {
            slog!("{} failed: {}", what, e);
            if expect == Some(true) {
                viol(&["C24"], "fails", format!("{} failed without a reason: {}", what, e));
            }
            gone(i, &what).await;
        }
        Ok(Ok(r)) => {
            if expect == Some(false) {
                viol(&["C24"], "false-success", format!("{} succeeded although it could not be completed", what));
                return;
            }
            if kind == 3 && encrypted(t) {
                if let Some(c) = conns(i).get(k).and_then(|c| sn::info(*c)) {
                    if c.read[1] < EXCHANGE[1] {
                        viol(&["C24", "C13"], "false-success", format!("{} succeeded after {} bytes of the key exchange", what, c.read[1]));
                    }
                }
            }
            let cs = conns(i);
            let n = pool.max(1);
            if cs.len() != n {
                viol(&["C24", "C18"], "connections", format!("{} opened {} connections", what, cs.len()));
            }
            nontrivial();
            if expect == Some(true) {
                for c in &cs {
                    let x = sn::info(*c).unwrap();
                    let ttl = if t.tcp() { [keys.ttl.map(|t| t + 1), keys.ttl] } else { [None, None] };
                    if x.ttl[0] != ttl[0] {
                        viol(&["C24"], "ttl", format!("{}: the client socket has the ttl {:?} instead of {:?}", what, x.ttl[0], ttl[0]));
                    }
                }
                let bad = |e: String| viol(&["C24", "C18"], "not-working", format!("{}: a connection does not work: a ping {}", what, e));
                match &r {
                    R::One(c) => {
                        if let Err(e) = ping(c).await {
                            bad(e)
                        }
                    }
                    R::Pool(p) => {
                        let g: Vec<_> = (0..pool).map(|_| p.acquire()).collect();
                        for c in &g {
                            if let Err(e) = ping(c).await {
                                bad(e)
                            }
                        }
                    }
                }
                for c in &cs {
                    let x = sn::info(*c).unwrap();
                    if x.read[0] <= if encrypted(t) { EXCHANGE[0] } else { 0 } {
                        viol(&["C24", "C18"], "unused", format!("{}: connection {} was not used by any of the {} connections of the pool", what, c, pool));
                    }
                    if t.tcp() && x.ttl[1] != keys.ttl {
                        viol(&["C24"], "ttl", format!("{}: the server socket has the ttl {:?} instead of {:?}", what, x.ttl[1], keys.ttl));
                    }
                }
            }
            match r {
                R::One(c) => {
                    let _ = c.stop().await;
                }
                R::Pool(p) => {
                    let g: Vec<_> = (0..pool).map(|_| p.acquire()).collect();
                    for c in &g {
                        let _ = Context::clone(c).stop().await;
                    }
                    drop((g, p));
                    // nothing of a stopped pool stays open
                    tokio::time::sleep(Duration::from_millis(200)).await;
                    for c in &cs {
                        if sn::info(*c).map_or(false, |i| i.alive[0]) {
                            viol(&["C19"], "open-after-stop", format!("{}: connection {} is open after the pool was stopped", what, c));
                        }
                    }
                }
            }
        }
    }
}

async fn server_setups<L: Tp>(d: D, t: T, keys: &KeySetup) {
    // an address in use
    if d.chance(40) {
        match timeout(STUCK, serve_on::<L>(keys, 0).build_server()).await {
            Ok(Err(e)) => slog!("second server: {}", e),
            r => viol(&["C24"], "bound-twice", format!("a server on an address in use: {:?}", r.map(|r| r.map_err(|e| e.to_string())))),
        }
    }
    // a failing bind
    if d.chance(40) {
        let k = *d.pick(&[ErrorKind::PermissionDenied, ErrorKind::AddrNotAvailable, ErrorKind::Other, ErrorKind::AddrInUse, ErrorKind::NotFound]);
        sn::fail_bind(L::sim_addr(5), Some(k));
        match timeout(STUCK, serve_on::<L>(keys, 5).build_server()).await {
            Ok(Err(e)) => slog!("server that cannot bind: {}", e),
            r => viol(&["C24"], "unbound", format!("a server that cannot bind ({:?}): {:?}", k, r.map(|r| r.map_err(|e| e.to_string())))),
        }
    }
    if t.tcp() && d.chance(40) {
        let mut k2 = keys.clone();
        k2.ttl = Some(*d.pick(&[256u32, 0, 5000]));
        match timeout(STUCK, serve_on::<L>(&k2, 6).build_server()).await {
            Ok(Err(e)) => slog!("server with an invalid ttl: {}", e),
            r => viol(&["C24"], "ttl", format!("a server whose ttl cannot be set ({:?}): {:?}", k2.ttl, r.map(|r| r.map_err(|e| e.to_string())))),
        }
        if sn::is_listening(&L::sim_addr(6)) {
            viol(&["C24"], "left-behind", "a server failed to start, but its address is still bound".to_string());
        }
    }
    // a pool of nothing
    if d.chance(20) {
        match timeout(STUCK, Owned(777, client_for::<L>(keys, 0, 1, 1).build_pooled_client(0))).await {
            Ok(Err(_)) => {}
            r => viol(&["C24", "C18"], "empty-pool", format!("a pool without connections: {:?}", r.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
        }
        if !conns(777).is_empty() {
            viol(&["C24"], "connections", "a pool without connections connects".to_string());
        }
    }
}

async fn setup_run<L: Tp>(t: T, nc: NetCfg) {
    let d = cfg();
    let keys = key_setup(d, t);
    install(nc);
    {
        let b = serve_on::<L>(&keys, 0);
        spawn(async move {
            let r = b.build_server().await;
            viol(&["C12", "C24"], "server-ended", format!("the server ended: {:?}", r.map_err(|e| e.to_string())));
        });
    }
    crate::mesh::wait_listening(&L::sim_addr(0)).await;
    if t.tcp() && sn::listener_ttl(&L::sim_addr(0)) != keys.ttl {
        viol(&["C24"], "ttl", format!("the listener has the ttl {:?} instead of {:?}", sn::listener_ttl(&L::sim_addr(0)), keys.ttl));
    }
    server_setups::<L>(d, t, &keys).await;
    let together = d.chance(40);
    let mut tasks = vec![];
    for (i, od) in ops(1, 6).into_iter().enumerate() {
        let k = keys.clone();
        let h = spawn(Owned(i, async move { setup_op::<L>(i, od, t, k).await }));
        if together {
            tasks.push(h);
        } else {
            let _ = h.await;
        }
    }
    for x in tasks {
        let _ = x.await;
    }
    match build(client_for::<L>(&keys, 0, 1, 1)).await {
        Err(e) => viol(&["C12", "C24"], "not-accepted", format!("after all set-ups: connecting {}", e)),
        Ok(c) => {
            if let Err(e) = ping(&c).await {
                viol(&["C12", "C24"], "not-served", format!("after all set-ups: a ping {}", e));
            }
        }
    }
}

pub async fn setup() {
    rt::primary(&["C24"]);
    let (t, nc) = net(cfg());
    with_transport!(t, setup_run(t, nc));
}

// ---------------------------------------------------------------- C19

const SLACK: Duration = Duration::from_secs(20);

thread_local! {
    /// side -> time (ns) at which a handler of the client stopped it
    static STOPPED: RefCell<HashMap<usize, u64>> = RefCell::new(HashMap::new());
}

/// Stops must succeed at once.
async fn stop_now(c: &Context, what: &str) {
    let others: Vec<Context> = (0..*D(208).pick(&[0u32, 0, 1, 3, 17, 64, 130, 300])).map(|_| Context::clone(c)).collect();
    if others.len() > 60 {
        stat("probe:stops of contexts with many copies", 1);
    }
    match timeout(Duration::from_secs(1), Context::clone(c).stop()).await {
        Ok(Ok(())) => {}
        Ok(Err(e)) => viol(&["C19"], "stop-fails", format!("{}: stop failed: {}", what, e)),
        Err(_) => viol(&["C19"], "stop-hangs", format!("{}: stop does not return", what)),
    }
}

fn side_of(i: usize, k: usize) -> usize {
    10 + i * 10 + k
}

fn life_client<L: Tp>(keys: &KeySetup, own: usize, side: usize) -> IPCBuilder<L> {
    client_for::<L>(keys, 0, own, side)
        .on("cping", move |ctx, ev| {
            let n = num(&ev);
            note(side, n);
            Box::pin(async move { ctx.response(payload(n, 0)) })
        })
        .on("cslow", move |ctx, ev| {
            let n = num(&ev);
            note(side, n);
            Box::pin(async move {
                tokio::time::sleep(Duration::from_millis(n & 0xfff)).await;
                ctx.response(payload(n, 0))
            })
        })
        .on("cstop", move |ctx, ev| {
            let n = num(&ev);
            note(side, n);
            Box::pin(async move {
                stop_now(ctx, "stop in a handler").await;
                STOPPED.with(|s| {
                    s.borrow_mut().insert(side, 1);
                });
                Ok(Response::empty())
            })
        })
}

/// One operation pending on a connection while it ends.
/// (The other side of a stopped or half-dead connection may have to wait: then it is not `strict`.)
async fn pending_op(what: String, c: Context, d: D, from_server: bool, strict: bool) {
    let dl = Duration::from_millis(*d.pick(&[3000u64, 0, 1, 100, 9000, 30_000, 700]));
    let n = uniq();
    let late = |w: &str| strict.then(|| viol(&["C19", "C07"], "pending-stuck", format!("{}: {} with a deadline of {:?} has not resolved {:?} later", what, w, dl, SLACK))).unwrap_or(());
    let k = d.weighted(&[20, 12, 14, 8, 8, 10]);
    slog!("{}: pending {} (deadline {:?})", what, k, dl);
    match (k, from_server) {
        (0 | 1 | 5, _) => {
            let (name, n) = match (k, from_server) {
                (0, false) => ("slow", n | d.n(4000) as u64),
                (1, false) => ("forever", n),
                (_, false) => ("blob", n | d.n(20_000) as u64),
                (0, true) => ("cslow", n | d.n(4000) as u64),
                (_, true) => ("cping", n),
            };
            match timeout(dl + SLACK, c.emit(name, payload(n, 0)).await_reply().with_timeout(dl)).await {
                Err(_) => late("a request"),
                Ok(Ok(ev)) if num(&ev) != n => viol(&["C03"], "wrong-reply", format!("{}: {} {} is answered by {:?}", what, name, n, ev)),
                Ok(r) => slog!("{}: {} {:?}", what, name, r.map(|_| ()).map_err(|e| e.to_string())),
            }
        }
        (2 | 3, _) => {
            let (name, n) = match (k, from_server) {
                (2, false) => ("many", n | (d.n(30) as u64) | (*d.pick(&[10u64, 0, 200, 1000]) << 8)),
                (_, false) => ("forever", n),
                (_, true) => ("cslow", n | d.n(4000) as u64),
            };
            let mut s = match timeout(SLACK, c.emit(name, payload(n, 0)).stream_replies().with_timeout(dl)).await {
                Err(_) => return if strict { viol(&["C19"], "emit-stuck", format!("{}: emitting does not complete", what)) },
                Ok(Err(e)) => return slog!("{}: stream {}", what, e),
                Ok(Ok(s)) => s,
            };
            use futures::StreamExt;
            let mut items = 0;
            loop {
                match timeout(dl + SLACK, s.next()).await {
                    Err(_) => return late("a stream"),
                    Ok(None) => return slog!("{}: stream over after {}", what, items),
                    Ok(Some(Err(e))) => return slog!("{}: stream fails after {}: {}", what, items, e),
                    Ok(Some(Ok(_))) => items += 1,
                }
                if items > 300 {
                    return viol(&["C04"], "endless-stream", format!("{}: a stream of {} items", what, items));
                }
            }
        }
        _ => {
            for _ in 0..d.range(1, 20) {
                let n = uniq() | d.n(9000) as u64;
                let name = if from_server { "note" } else { "blob" };
                match timeout(SLACK, c.emit(name, payload(n, d.n(2) as usize * d.n(3000) as usize))).await {
                    Err(_) => return if strict { viol(&["C19"], "emit-stuck", format!("{}: emitting neither completes nor fails", what)) },
                    Ok(Err(e)) => slog!("{}: emit {}", what, e),
                    Ok(Ok(_)) => {}
                }
                if d.n(3) == 0 {
                    tokio::time::sleep(Duration::from_millis(d.n(900) as u64)).await;
                }
            }
        }
    }
}

async fn life_op<L: Tp>(i: usize, d: D, t: T, keys: KeySetup) {
    let pool = if d.chance(40) { d.range(1, 4) as usize } else { 0 };
    let members = pool.max(1);
    let k = d.n(members as u32) as usize;
    // stop, loss
    let stops = d.chance(60);
    let hold = d.chance(50);
    let own = d.range(1, 3) as usize;
    let how = *d.pick(&[Cut::Reset, Cut::Vanish, Cut::HalfEof, Cut::BlackHole]);
    let dir = d.n(2) as usize;
    let from = if encrypted(t) { EXCHANGE[dir] } else { 0 };
    let at = match d.n(3) {
        0 => d.n(120),
        1 => d.n(900),
        _ => d.n(9000),
    } as u64;
    if !stops {
        want(i, k, ConnPlan { cut: Some((dir, from + at, how)), ..Default::default() });
    }
    let delay = *d.pick(&[0u64, 1, 10, 300, 2000, 5000]);
    let what = format!("client {} ({}, member {} of {})", i, if stops { "stopped".into() } else { format!("{:?} of direction {} at {}", how, dir, from + at) }, k, members);
    slog!("{}", what);
    stat(if stops { "life: stop" } else { "life: loss" }, 1);
    // every member has the same handlers, so that only the single client has a side of its own
    let side = side_of(i, 0);
    let b = life_client::<L>(&keys, own, side);
    let (mut ctxs, pooled): (Vec<Context>, Option<PooledContext>) = if pool == 0 {
        match timeout(STUCK, b.build_client()).await {
            Ok(Ok(c)) => (vec![c], None),
            r => {
                if stops {
                    viol(&["C12", "C24"], "not-accepted", format!("{}: connecting: {:?}", what, r.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))));
                }
                return;
            }
        }
    } else {
        match timeout(STUCK, b.build_pooled_client(pool)).await {
            Ok(Ok(p)) => {
                let g: Vec<_> = (0..pool).map(|_| p.acquire()).collect();
                (g.iter().map(|g| Context::clone(g)).collect(), Some(p))
            }
            r => {
                if stops {
                    viol(&["C12", "C24"], "not-accepted", format!("{}: connecting: {:?}", what, r.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))));
                }
                return;
            }
        }
    };
    let cs = conns(i);
    if cs.len() != members {
        return viol(&["C24", "C18"], "connections", format!("{} has {} connections", what, cs.len()));
    }
    // the server's contexts of all members
    let mut far = vec![];
    for c in &ctxs {
        let n = uniq();
        let r = timeout(STUCK, c.emit("hello", payload(n, 0)).await_reply().with_timeout(Duration::from_secs(20))).await;
        let ctx = PEERS.with(|p| p.borrow_mut().remove(&n));
        if stops && (!matches!(r, Ok(Ok(_))) || ctx.is_none()) {
            viol(&["C19", "C12"], "not-served", format!("{}: hello: {:?}", what, r.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))));
        }
        far.push(ctx);
    }
    let far_k = far[k].take();
    // which of the contexts belongs to the member: pool guards come in the order of the connections
    let c = ctxs[k].clone();
    let mut tasks = vec![];
    for j in 0..d.range(0, 8) {
        let server = far_k.is_some() && d.chance(30);
        let x = if server { far_k.clone().unwrap() } else { c.clone() };
        let w = format!("{}, {}operation {}", what, if server { "server " } else { "" }, j);
        let seed = D(200 + (i as u32 * 40) + j);
        let strict = !server;
        tasks.push(spawn(Ass(async move { pending_op(w, x, seed, server, strict).await })));
    }
    if delay > 0 {
        tokio::time::sleep(Duration::from_millis(d.n(delay as u32 + 1) as u64)).await;
    } else {
        for _ in 0..d.n(6) {
            tokio::task::yield_now().await;
        }
    }
    let mut after = vec![];
    if stops {
        match d.weighted(&[30, 15, 20, 10]) {
            1 => {
                // from two clones at once
                let (x, w) = (c.clone(), what.clone());
                let h = spawn(Ass(async move { stop_now(&x, &w).await }));
                stop_now(&c, &what).await;
                let _ = h.await;
            }
            2 if far_k.is_some() => {
                // by a handler
                let f = far_k.clone().unwrap();
                if timeout(SLACK, f.emit("cstop", payload(uniq(), 0))).await.is_err() {
                    viol(&["C19"], "emit-stuck", format!("{}: emitting to it does not complete", what));
                }
                let mut waited = 0;
                while STOPPED.with(|s| !s.borrow().contains_key(&side)) {
                    tokio::time::sleep(Duration::from_millis(5)).await;
                    waited += 1;
                    if waited > 4000 {
                        return viol(&["C01", "C19"], "lost", format!("{}: an event to it did not arrive in {} ms", what, waited * 5));
                    }
                }
            }
            3 => {
                // an abandoned attempt before
                let mut s = Box::pin(Context::clone(&c).stop());
                let _ = futures::poll!(s.as_mut());
                drop(s);
                stop_now(&c, &what).await;
            }
            _ => stop_now(&c, &what).await,
        }
        slog!("{}: stopped now", what);
        tokio::time::sleep(Duration::from_millis(d.range(1, 3) as u64)).await;
        if hold {
            nontrivial();
        }
    } else {
        // until the loss happened, at least some of the traffic that causes it
        for _ in 0..d.range(1, 40) {
            let n = uniq() | d.n(600) as u64;
            let r = timeout(SLACK, c.emit("blob", payload(n, d.n(500) as usize))).await;
            match r {
                Err(_) => {
                    viol(&["C19"], "emit-stuck", format!("{}: emitting neither completes nor fails", what));
                    break;
                }
                Ok(Err(_)) => break,
                Ok(Ok(_)) => {}
            }
            if d.n(4) == 0 {
                tokio::time::sleep(Duration::from_millis(d.n(300) as u64)).await;
            }
            if rt::was_cut(cs[k]) {
                nontrivial();
                break;
            }
        }
        tokio::time::sleep(Duration::from_millis(200)).await;
    }
    if !hold {
        ctxs[k] = ctxs[(k + 1) % members].clone();
        if members == 1 {
            ctxs.clear();
        }
    }
    // the other side goes on
    // (a stopped client does not read any more, so that the other side may have to wait while it
    // holds the connection)
    let from_far = |f: Context, what: String, strict: bool| async move {
        let mut ns = vec![];
        for _ in 0..d.range(1, 5) {
            let n = uniq();
            ns.push(n);
            match d.n(3) {
                0 => {
                    let r = timeout(SLACK, f.emit("cping", payload(n, 0)).await_reply().with_timeout(Duration::from_secs(3))).await;
                    match r {
                        Err(_) if strict => viol(&["C19", "C07"], "pending-stuck", format!("{}: a request of the server neither resolves nor times out", what)),
                        Err(_) => break,
                        Ok(Ok(_)) if stops => viol(&["C19"], "answered-after-stop", format!("{}: it answered request {} of the server after it was stopped", what, n)),
                        _ => {}
                    }
                }
                _ => {
                    if timeout(SLACK, f.emit("note", payload(n, 0))).await.is_err() {
                        if strict {
                            viol(&["C19"], "emit-stuck", format!("{}: emitting to it neither completes nor fails", what));
                        }
                        break;
                    }
                }
            }
        }
        ns
    };
    if let (true, Some(f)) = (stops, &far_k) {
        after = from_far(f.clone(), what.clone(), false).await;
    }
    // later operations of the ended connection
    for j in 0..d.range(0, 3) {
        if hold {
            pending_op(format!("{}, later operation {}", what, j), c.clone(), d, false, true).await;
        }
    }
    let again = d.chance(60);
    if hold && (stops && again) {
        stop_now(&c, &format!("{}, again", what)).await;
    }
    if !stops && d.chance(60) {
        stop_now(&c, &format!("{}, after its loss", what)).await;
        if let Some(f) = &far_k {
            tokio::time::sleep(Duration::from_millis(2)).await;
            let ns = from_far(f.clone(), what.clone(), false).await;
            after.extend(ns);
        }
    }
    // the other members
    for (m, x) in ctxs.iter().enumerate() {
        if m != k && members > 1 {
            if let Err(e) = ping(x).await {
                viol(&["C19", "C18"], "others", format!("{}: a ping over member {} {}", what, m, e));
            }
            if let Some(f) = &far[m] {
                let n = uniq();
                match timeout(STUCK, f.emit("cping", payload(n, 0)).await_reply().with_timeout(STUCK / 2)).await {
                    Ok(Ok(ev)) if num(&ev) == n => {}
                    r => viol(&["C19", "C18"], "others", format!("{}: a request of the server to member {}: {:?}", what, m, r.map(|r| r.map(|_| ()).map_err(|e| e.to_string())))),
                }
            }
        }
    }
    for x in tasks {
        let _ = x.await;
    }
    // everything is dropped now
    for (m, x) in ctxs.iter().enumerate() {
        if m != k {
            stop_now(x, &what).await;
        }
    }
    let lost_both = !stops && rt::was_cut(cs[k]) && (matches!(how, Cut::Reset | Cut::Vanish) || (how == Cut::HalfEof && dir == 1));
    drop((c, ctxs, pooled));
    tokio::time::sleep(Duration::from_millis(5200)).await;
    for (m, x) in cs.iter().enumerate() {
        if !stops && m == k && !lost_both {
            continue;
        }
        let Some(info) = sn::info(*x) else { continue };
        if info.alive[0] {
            viol(&["C19"], "open-after-stop", format!("{}: connection {} of member {} is still open after it ended and its contexts were dropped", what, x, m));
        }
    }
    if let (true, Some(f)) = (stops || lost_both, &far_k) {
        after.extend(from_far(f.clone(), what.clone(), true).await);
    }
    for n in after {
        if handled(side, n) > 0 {
            viol(&["C19"], "handled-after-stop", format!("{}: an event ({}) sent after it was stopped was handled", what, n));
        }
    }
    drop((far, far_k));
}

async fn life_run<L: Tp>(t: T, nc: NetCfg) {
    let d = cfg();
    let keys = key_setup(d, t);
    install(nc);
    let server = {
        let b = serve_on::<L>(&keys, 0);
        spawn(async move { b.build_server().await.map_err(|e| e.to_string()) })
    };
    crate::mesh::wait_listening(&L::sim_addr(0)).await;
    let together = d.chance(60);
    let first = newcomer::<L>(&keys, 1, "the first peer").await;
    let mut tasks = vec![];
    for (i, od) in ops(1, 6).into_iter().enumerate() {
        let k = keys.clone();
        let h = spawn(Owned(i, async move { life_op::<L>(i, od, t, k).await }));
        if together {
            tasks.push(h);
        } else {
            let _ = h.await;
        }
    }
    for x in tasks {
        if let Some(f) = &first {
            if let Err(e) = ping(f).await {
                viol(&["C19", "C12"], "others", format!("the first peer is not served any more: a ping {}", e));
            }
        }
        let _ = x.await;
    }
    if let Some(f) = first {
        if let Err(e) = ping(&f).await {
            viol(&["C19", "C12"], "others", format!("the first peer is not served any more: a ping {}", e));
        }
    }
    newcomer::<L>(&keys, 1, "the last peer").await;
    if server.is_finished() {
        viol(&["C12"], "server-ended", format!("the server ended: {:?}", server.await.map_err(|e| e.to_string())));
    }
}

pub async fn life() {
    rt::primary(&["C19"]);
    let (t, nc) = net(cfg());
    with_transport!(t, life_run(t, nc));
}
