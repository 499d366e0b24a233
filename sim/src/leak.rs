//! C20: rounds of the same operations must not leave more and more memory behind.
//!
//! The harness itself must not grow: nothing is recorded per operation, connections are forgotten by
//! the network, decisions go to memory outside of the heap.

use crate::net::{self, KeySetup, Tp, T};
use crate::raw::raw_connect;
use crate::rt::{self, cfg, nontrivial, ops, sample, stat, viol, D};
use crate::sys;
use crate::with_transport;
use crate::slog;
use crate::world::{limited, spawn, Abandon, Ass};
use bromine::prelude::*;
use futures::StreamExt;
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::Ordering::Relaxed;
use std::task::{Context as Cx, Poll};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::sim::net::{self as sn, Cut};
use tokio::time::timeout;

const SLOTS: usize = 64;
const LONG: Duration = Duration::from_secs(1000);

thread_local! {
    static OWNER: Cell<Option<usize>> = const { Cell::new(None) };
    static CUT: RefCell<[Option<(usize, u64, Cut)>; SLOTS]> = const { RefCell::new([None; SLOTS]) };
    static FAIL: RefCell<[Option<std::io::ErrorKind>; SLOTS]> = const { RefCell::new([None; SLOTS]) };
    static LAST: RefCell<[usize; SLOTS]> = const { RefCell::new([usize::MAX; SLOTS]) };
    static FRESH: Cell<u64> = const { Cell::new(0) };
    static FAR: RefCell<Option<Context>> = const { RefCell::new(None) };
}

struct Owned<F>(usize, F);
impl<F: Future> Future for Owned<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<F::Output> {
        let old = OWNER.with(|o| o.replace(Some(self.0)));
        let r = unsafe { self.map_unchecked_mut(|s| &mut s.1) }.poll(cx);
        OWNER.with(|o| o.set(old));
        r
    }
}

#[derive(Clone, Copy, Debug)]
struct Op {
    kind: u32,
    a: u32,
    b: u32,
    size: usize,
    ms: u64,
    cut: Cut,
    seed: u64,
}

const KINDS: u32 = 37;

fn draw(d: D) -> Op {
    Op {
        kind: d.n(KINDS),
        a: d.n(12),
        b: d.range(1, 12),
        size: *d.pick(&[0usize, 10, 300, 3000]),
        ms: *d.pick(&[50u64, 0, 1, 400, 3000]),
        cut: *d.pick(&[Cut::Reset, Cut::Vanish, Cut::HalfEof]),
        seed: d.u64(),
    }
}

fn pay(n: u32, size: usize) -> BytePayload {
    let mut v = n.to_be_bytes().to_vec();
    v.resize(4 + size, 7);
    BytePayload::new(v)
}

/// Something that has not been used before.
fn fresh() -> u64 {
    FRESH.with(|f| {
        f.set(f.get() + 1);
        f.get()
    })
}

fn arg(ev: &Event) -> u32 {
    ev.data_raw().get(..4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).unwrap_or(0)
}

struct Bad;
impl IntoPayload for Bad {
    fn into_payload(self, _: &Context) -> IPCResult<bytes::Bytes> {
        Err(IPCError::from("not serialisable"))
    }
}

fn handlers<L: Tp>(b: IPCBuilder<L>) -> IPCBuilder<L> {
    b.on("ping", |ctx, ev| {
        let n = ev.data_raw().len().saturating_sub(4);
        Box::pin(async move { ctx.response(pay(0, n)) })
    })
    .on("fail", |_, _| Box::pin(async { Err(IPCError::from("no")) }))
    .on("slow", |ctx, ev| {
        let n = arg(&ev);
        Box::pin(async move {
            tokio::time::sleep(Duration::from_millis(n as u64)).await;
            ctx.response(pay(0, 0))
        })
    })
    .on("boom", |_, _| {
        Box::pin(async move {
            tokio::task::yield_now().await;
            std::panic::panic_any("SIMPANIC in a handler".to_string());
            #[allow(unreachable_code)]
            Ok(Response::empty())
        })
    })
    .on("many", |ctx, ev| {
        // low byte: number, others: ms between
        let n = arg(&ev);
        Box::pin(async move {
            for _ in 0..(n & 0xff) {
                ctx.emit("item", pay(0, 5)).await?;
                if n >> 8 > 0 {
                    tokio::time::sleep(Duration::from_millis((n >> 8) as u64)).await;
                }
            }
            Ok(Response::empty())
        })
    })
    .on("item", |_, _| Box::pin(async { Ok(Response::empty()) }))
    .on("chain", |ctx, ev| {
        // requests of the other side inside of a handler
        let n = arg(&ev);
        Box::pin(async move {
            if n % 3 == 0 {
                let _ = ctx.emit("ping", pay(0, 3)).await_reply().await?;
            } else if n % 3 == 1 {
                let mut s = ctx.emit("many", pay(4, 3)).stream_replies().await?;
                while let Some(Ok(_)) = s.next().await {}
            } else {
                let _ = ctx.emit("slow", pay(3000, 3)).await_reply().with_timeout(Duration::from_millis(100)).await?;
            }
            Ok(Response::empty())
        })
    })
    .on("wait", |ctx, ev| {
        // a request the other side answers late or not at all
        let n = arg(&ev);
        Box::pin(async move {
            if n % 2 == 0 {
                let _ = ctx.emit("slow", pay(n * 900, 3)).await_reply().await;
            } else if let Ok(mut s) = ctx.emit("many", pay(20 | 500 << 8, 3)).stream_replies().await {
                while let Some(Ok(_)) = s.next().await {}
            }
            Ok(Response::empty())
        })
    })
    .on("detach", |ctx, ev| {
        let n = arg(&ev);
        let c = ctx.clone();
        tokio::spawn(async move {
            tokio::time::sleep(Duration::from_millis(n as u64)).await;
            let _ = c.emit("item", pay(0, 2)).await_reply().with_timeout(Duration::from_millis(100)).await;
        });
        Box::pin(async { Ok(Response::empty()) })
    })
    .on("hello", |ctx, _| {
        FAR.with(|f| *f.borrow_mut() = Some(ctx.clone()));
        Box::pin(async { Ok(Response::empty()) })
    })
}

struct Env<L: Tp> {
    t: T,
    keys: KeySetup,
    c: Context,
    far: Context,
    pool: PooledContext,
    _l: std::marker::PhantomData<L>,
}

impl<L: Tp> Env<L> {
    fn client(&self, addr: u16, own: usize) -> IPCBuilder<L> {
        client::<L>(&self.keys, addr, own)
    }
}

fn client<L: Tp>(keys: &KeySetup, addr: u16, own: usize) -> IPCBuilder<L> {
    handlers(IPCBuilder::<L>::new().address(L::addr(addr)).client_options(L::copts(keys, own)).timeout(Duration::from_secs(5)))
        .namespace("space")
        .on("ping", |_, _| Box::pin(async { Ok(Response::empty()) }))
        .build()
}

/// One operation; whatever it does is over when a long time passed.
async fn once<L: Tp>(op: Op, slot: usize, e: &Env<L>) {
    let c: Context = match op.seed % 3 {
        0 => e.c.clone(),
        1 => e.far.clone(),
        _ => Context::clone(&e.pool.acquire()),
    };
    let dl = Duration::from_millis(op.ms);
    let size = op.size;
    match op.kind {
        0 => {
            let _ = c.emit("ping", pay(0, size)).await_reply().await;
        }
        1 => {
            let _ = c.emit("fail", pay(0, size)).await_reply().await;
        }
        2 => {
            let _ = c.emit("slow", pay(2000, 0)).await_reply().with_timeout(dl).await;
        }
        3 => {
            let _ = limited(c.emit("slow", pay(op.a * 7, size)).await_reply(), Some(Abandon::Polls(op.b))).await;
        }
        4 => {
            if let Ok(mut s) = c.emit("many", pay(op.a, size)).stream_replies().await {
                while let Some(Ok(_)) = s.next().await {}
            }
        }
        5 => {
            if let Ok(mut s) = c.emit("many", pay(op.a + op.b, size)).stream_replies().await {
                for _ in 0..op.b {
                    let _ = s.next().await;
                }
                let _ = limited(s.next(), Some(Abandon::Polls(1))).await;
            }
        }
        6 => {
            if let Ok(mut s) = c.emit("many", pay(op.b | 500 << 8, 0)).stream_replies().with_timeout(dl).await {
                while let Some(Ok(_)) = s.next().await {}
            }
        }
        7 => {
            let _ = c.emit("nobody", pay(0, size)).await_reply().await;
        }
        8 => {
            let _ = c.emit("ping", pay(0, size)).await;
        }
        9 => {
            let _ = c.emit("boom", pay(0, size)).await_reply().with_timeout(dl).await;
        }
        10 => {
            if let Ok(n) = e.client(0, 1).build_client().await {
                for _ in 0..op.a % 4 {
                    let _ = n.emit("ping", pay(0, size)).await_reply().await;
                }
                let _ = n.stop().await;
            }
        }
        11 => {
            if let Ok(mut io) = raw_connect(e.t, 0).await {
                let b = crate::enc_bytes(op.seed, op.a as usize * 9);
                let _ = timeout(LONG, io.write_all(&b)).await;
            }
        }
        12 | 13 => {
            let at = if op.a % 2 == 0 { 40 * op.b as u64 } else { 200 * op.b as u64 };
            CUT.with(|x| x.borrow_mut()[slot] = Some(((op.seed % 2) as usize, at, op.cut)));
            let r = timeout(LONG, e.client(0, 1).build_client()).await;
            CUT.with(|x| x.borrow_mut()[slot] = None);
            if let Ok(Ok(n)) = r {
                for i in 0..if op.kind == 12 { 2 } else { 6 + op.b } {
                    match (op.kind + i) % 3 {
                        0 => {
                            let _ = timeout(LONG, n.emit("ping", pay(0, size)).await_reply().with_timeout(dl)).await;
                        }
                        1 => {
                            if let Ok(Ok(mut s)) = timeout(LONG, n.emit("many", pay(3, size)).stream_replies().with_timeout(dl)).await {
                                while let Some(Ok(_)) = s.next().await {}
                            }
                        }
                        _ => {
                            let _ = timeout(LONG, n.emit("ping", pay(0, size))).await;
                        }
                    }
                }
                let _ = n.stop().await;
            }
        }
        14 => {
            let _ = limited(c.emit("ping", pay(0, size + 30)).await_reply(), Some(Abandon::Polls(op.b % 4 + 1))).await;
        }
        15 => {
            let f = e.far.clone();
            match op.a % 3 {
                0 => drop(f.emit("ping", pay(0, size)).await_reply().await),
                1 => drop(f.emit("slow", pay(1000, size)).await_reply().with_timeout(dl).await),
                _ => drop(limited(f.emit("slow", pay(100, size)).stream_replies(), Some(Abandon::Polls(op.b))).await),
            }
        }
        16 => {
            let _ = c.emit("chain", pay(op.a, size)).await_reply().await;
        }
        17 => {
            // replies to nothing
            if !e.t.encrypted() {
                if let Ok(mut io) = raw_connect(e.t, 0).await {
                    for i in 0..op.b as u64 {
                        let f = crate::codec::Frame::new(op.seed ^ i, (i % 4) as u8, Some(op.seed.rotate_left(i as u32)), None, "ping", vec![0; 20]).encode();
                        let _ = timeout(LONG, io.write_all(&f)).await;
                    }
                    let mut b = [0u8; 256];
                    let _ = timeout(Duration::from_secs(3), io.read(&mut b)).await;
                }
            }
        }
        18 => {
            if let Ok(mut io) = raw_connect(e.t, 0).await {
                let mut f = crate::codec::Frame::new(op.seed, 0, None, None, "ping", vec![0; 20]).encode();
                let n = f.len();
                f[(op.seed % n as u64) as usize] ^= 1 << (op.a % 8);
                let _ = timeout(LONG, io.write_all(&f)).await;
                if op.a % 2 == 0 {
                    let _ = timeout(LONG, io.shutdown()).await;
                    tokio::time::sleep(Duration::from_secs(2)).await;
                }
            }
        }
        19 => match op.a % 3 {
            0 => drop(c.emit("ping", Bad).await_reply().await),
            1 => drop(c.emit("ping", Bad).stream_replies().await),
            _ => drop(c.emit("ping", Bad).await),
        },
        20 => {
            let n = (op.b % 3 + 1) as usize;
            if let Ok(p) = e.client(0, 2).build_pooled_client(n).await {
                let mut g = vec![];
                for _ in 0..n + op.a as usize {
                    let x = p.acquire();
                    let _ = x.emit("ping", pay(0, size)).await_reply().await;
                    g.push(x.clone());
                    g.push(x);
                }
                for x in &g {
                    let _ = Context::clone(x).stop().await;
                }
            }
        }
        21 => {
            // set-ups that fail
            if op.a % 2 == 0 {
                let _ = e.client(9, 1).build_client().await;
            } else {
                FAIL.with(|x| x.borrow_mut()[slot] = Some(std::io::ErrorKind::ConnectionRefused));
                if let Ok(p) = e.client(0, 1).build_pooled_client(3).await {
                    let g: Vec<_> = (0..3).map(|_| p.acquire()).collect();
                    for x in &g {
                        let _ = Context::clone(x).stop().await;
                    }
                }
                FAIL.with(|x| x.borrow_mut()[slot] = None);
            }
        }
        22 => {
            // refused keys
            if let Ok(Ok(c)) = timeout(LONG, e.client(0, 50).build_client()).await {
                let _ = c.emit("ping", pay(0, 0)).await_reply().with_timeout(dl).await;
                let _ = c.stop().await;
            }
        }
        23 | 26 => {
            // stop with handlers and consumers at work
            if let Ok(n) = e.client(0, 1).build_client().await {
                let r = if op.kind == 23 {
                    let _ = n.emit("slow", pay(900, size)).await;
                    let _ = n.emit("detach", pay(900, size)).await;
                    None
                } else {
                    n.emit("many", pay(20 + op.a, size)).stream_replies().await.ok()
                };
                tokio::time::sleep(Duration::from_millis(op.ms)).await;
                let _ = n.stop().await;
                drop(r);
            }
        }
        24 => {
            let _ = c.emit_to("space", "ping", pay(0, size)).await_reply().await;
            let _ = c.emit_to("nowhere", "ping", pay(0, size)).await_reply().await;
        }
        25 => {
            let _ = c.emit("detach", pay(op.a * 100, size)).await_reply().await;
        }
        27 => {
            // futures and streams that are never polled
            drop(c.emit("ping", pay(0, size)));
            drop(c.emit("ping", pay(0, size)).await_reply());
            drop(c.emit("ping", pay(0, size)).stream_replies());
            drop(c.emit("many", pay(op.a, size)).stream_replies().await);
        }
        30 | 31 => {
            // the connection ends while the other side waits for answers
            if let Ok(n) = e.client(0, 1).build_client().await {
                let id = LAST.with(|l| l.borrow()[slot]);
                for i in 0..op.b % 4 + 1 {
                    let _ = timeout(LONG, n.emit("wait", pay(op.a + i, size))).await;
                }
                tokio::time::sleep(Duration::from_millis(op.ms)).await;
                if op.kind == 30 {
                    sn::cut(id, (op.seed % 2) as usize, op.cut);
                }
                let _ = n.stop().await;
            }
        }
        32 => {
            // names nobody has used before
            let n = format!("name{:08x}", fresh());
            match op.a % 4 {
                0 => drop(c.emit(&n, pay(0, size)).await),
                1 => drop(c.emit(&n, pay(0, size)).await_reply().await),
                2 => drop(c.emit_to("space", &n, pay(0, size)).await_reply().with_timeout(dl).await),
                _ => drop(limited(c.emit(&n, pay(0, size)).stream_replies(), Some(Abandon::Polls(op.b))).await),
            }
        }
        33 => {
            // spaces nobody has used before
            let n = format!("space{:08x}", fresh());
            if op.a % 2 == 0 {
                let _ = c.emit_to(&n, "ping", pay(0, size)).await;
            } else {
                let _ = c.emit_to(&n, "ping", pay(0, size)).await_reply().await;
            }
        }
        34 => {
            // a peer that has never been here
            let who = 100_000 + fresh() as usize;
            if let Ok(Ok(n)) = timeout(LONG, e.client(0, who).build_client()).await {
                let _ = n.emit("ping", pay(0, size)).await_reply().with_timeout(dl).await;
                let _ = n.stop().await;
            }
        }
        35 => {
            // contents that have never been sent
            let v = format!("value{:012x}", fresh());
            let p = TandemPayload::new(BytePayload::new(v.clone().into_bytes()), BytePayload::new(vec![1; size]));
            let _ = c.emit("ping", p).await_reply().await;
            let _ = c.emit("fail", BytePayload::new(v.into_bytes())).await_reply().await;
        }
        36 => {
            for _ in 0..300 {
                let g = e.pool.acquire();
                drop((g.clone(), g));
            }
        }
        28 => {
            let g = e.pool.acquire();
            let _ = g.emit("ping", pay(0, size)).await_reply().await;
            let p = e.pool.clone();
            let h = p.acquire();
            drop((p, g.clone(), h));
        }
        _ => {
            // the whole exchange goes wrong in the middle of a stream
            if let Ok(n) = e.client(0, 1).build_client().await {
                let id = LAST.with(|l| l.borrow()[slot]);
                if let Ok(mut s) = n.emit("many", pay(10 | 20 << 8, size)).stream_replies().with_timeout(dl).await {
                    for _ in 0..op.b {
                        let _ = s.next().await;
                    }
                    sn::cut(id, (op.seed % 2) as usize, op.cut);
                    while let Some(Ok(_)) = s.next().await {}
                }
                let _ = timeout(LONG, n.emit("ping", pay(0, size)).await_reply().with_timeout(dl)).await;
                let _ = n.stop().await;
            }
        }
    }
}

fn live() -> usize {
    sys::LIVE.load(Relaxed)
}

const ROUNDS: usize = 32;

async fn leak_run<L: Tp>(t: T) {
    let d = cfg();
    let mut nc = net::net_cfg(d);
    nc.stalls = 0;
    nc.cuts = 0;
    if nc.caps == 0 {
        nc.caps = 1;
    }
    let keys = KeySetup { base: d.u64(), clients: 3, server_allow: d.chance(40), client_allow: d.chance(50), ttl: None };
    let plans: Vec<_> = (0..4)
        .map(|i| {
            let mut p = nc.plan(i);
            p.dirs[0].tap = false;
            p.dirs[1].tap = false;
            p
        })
        .collect();
    rt::set_plan(Box::new(move |conn, _| {
        let mut p = plans[conn % 4].clone();
        if let Some(s) = OWNER.with(|o| o.get()) {
            LAST.with(|l| l.borrow_mut()[s] = conn);
            if let Some((dir, at, how)) = CUT.with(|c| c.borrow()[s]) {
                p.dirs[dir].cut_at = Some((at, how));
            }
            if conn % 2 == 1 {
                p.connect_err = FAIL.with(|c| c.borrow()[s]);
            }
        }
        p
    }));
    sn::forget_conns(true);
    let server = {
        let b = handlers(IPCBuilder::<L>::new().address(L::addr(0)).server_options(L::sopts(&keys)).timeout(Duration::from_secs(5)))
            .namespace("space")
            .on("ping", |_, _| Box::pin(async { Ok(Response::empty()) }))
            .build();
        spawn(async move { b.build_server().await.map_err(|e| e.to_string()) })
    };
    crate::mesh::wait_listening(&L::sim_addr(0)).await;
    let (Ok(c), Ok(pool)) = (client::<L>(&keys, 0, 1).build_client().await, client::<L>(&keys, 0, 2).build_pooled_client(2).await) else {
        return rt::harness_error("cannot connect".into());
    };
    let _ = c.emit("hello", pay(0, 0)).await_reply().await;
    let Some(far) = FAR.with(|f| f.borrow_mut().take()) else { return rt::harness_error("no context of the server".into()) };
    let e = Rc::new(Env::<L> { t, keys, c, far, pool, _l: std::marker::PhantomData });
    // few kinds, so that every one weighs
    let mut list = vec![];
    let mut pairs = vec![];
    for od in ops(1, 3) {
        let op = draw(od);
        let n = od.range(6, 12);
        slog!("{} x {:?}", n, op);
        stat(&format!("leak kind {}", op.kind), 1);
        pairs.push((n, op));
        for _ in 0..n {
            list.push(op);
        }
    }
    let together = d.chance(60);
    // warms all tables up: shards, queues, timers
    let warm = |n: usize| {
        let e = e.clone();
        async move {
            for _ in 0..n {
                let hs: Vec<_> = (0..12)
                    .map(|i| {
                        let e = e.clone();
                        spawn(Ass(async move {
                            let x: &Context = if i < 6 { &e.c } else { &e.far };
                            let _ = x.emit("slow", pay(i % 3 * 5, 5)).await_reply().await;
                            let _ = Context::clone(&e.pool.acquire()).emit("ping", pay(0, 5)).await_reply().await;
                        }))
                    })
                    .collect();
                for h in hs {
                    let _ = h.await;
                }
            }
        }
    };
    warm(40).await;
    // what the process held before does not matter
    let start = live().wrapping_sub(1 << 20);
    let mut m = [0usize; ROUNDS];
    for r in 0..ROUNDS {
        let mut hs = Vec::with_capacity(list.len());
        for (i, op) in list.iter().copied().enumerate() {
            let e = e.clone();
            let h = spawn(Owned(i, Ass(async move { once::<L>(op, i, &e).await })));
            if together {
                hs.push(h);
            } else if timeout(LONG * 10, h).await.is_err() {
                return rt::harness_error("an operation does not end".into());
            }
        }
        for h in hs {
            if timeout(LONG * 10, h).await.is_err() {
                return rt::harness_error("an operation does not end".into());
            }
        }
        // everything that is still under way ends
        tokio::time::sleep(Duration::from_secs(60)).await;
        m[r] = live().wrapping_sub(start);
    }
    nontrivial();
    let q = ROUNDS / 4;
    let before = *m[q..2 * q].iter().max().unwrap();
    let after = *m[3 * q..].iter().min().unwrap();
    let per_op = (after as f64 - before as f64) / (q * list.len()) as f64;
    stat("leak: rounds", ROUNDS as u64);
    stat("leak: operations", (ROUNDS * list.len()) as u64);
    sample(format!("{:?} of {:?}: {} bytes more", t, pairs, after as i64 - before as i64));
    if after > before + 2500 {
        viol(&["C20"], "grows", format!("the memory held at rest grows by {} bytes from rounds {}..{} to rounds {}..{}, about {:.0} bytes per operation, under rounds of {:?} over {:?}", after - before, q, 2 * q, 3 * q, ROUNDS, per_op, pairs, t));
    }
    if server.is_finished() {
        viol(&["C12"], "server-ended", format!("the server ended: {:?}", server.await.map_err(|e| e.to_string())));
    }
}

pub async fn leak() {
    rt::primary(&["C20"]);
    let t = net::pick_transport(cfg());
    with_transport!(t, leak_run(t));
}
