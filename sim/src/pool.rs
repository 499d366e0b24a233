//! Histories of acquire, clone and drop of pooled connections, from tasks and threads.

use crate::net::{self, KeySetup, NetCfg, Tp, T};
use crate::rt::{self, cfg, nontrivial, ops, stat, viol, D};
use crate::world::spawn;
use crate::{slog, wire, with_transport};
use bromine::prelude::*;
use std::collections::{BTreeMap, HashMap};
use std::sync::{Arc, Mutex};
use std::time::Duration;
use trait_bound_typemap::TypeMapKey;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// concurrent, nothing is given back
    Acquire,
    /// concurrent, everything
    Mix,
    /// one actor
    Alone,
}

#[derive(Clone, Debug)]
enum Ev {
    Start(Kind),
    End(Kind),
    Acq(usize),
    Clone(usize, usize),
    Drop(usize),
    /// copies of a guard, without marks of their own (or less of them)
    Many(usize, i64),
}

struct Guard {
    id: usize,
    g: PoolGuard<Context>,
}

#[derive(Default)]
struct St {
    log: Vec<Ev>,
    guards: usize,
    uid: u64,
    marks: u64,
    cbs: HashMap<u64, u64>,
    backs: Vec<u64>,
}

type Shared = Arc<Mutex<St>>;

struct DataKey;
impl TypeMapKey for DataKey {
    type Value = u64;
}

fn uid(s: &Shared) -> u64 {
    let mut s = s.lock().unwrap();
    s.uid += 1;
    s.uid
}

fn bytes(n: u64) -> BytePayload {
    BytePayload::new(n.to_be_bytes().to_vec())
}

fn num(ev: &bromine::event::Event) -> u64 {
    ev.payload::<BytePayload>().ok().and_then(|b| b.into_inner().try_into().ok()).map_or(0, u64::from_be_bytes)
}

/// Guards are told apart by the connection that carries their mark.
async fn mark(s: &Shared, g: &Guard) {
    let r = g.g.emit("mark", bytes(1_000_000 + g.id as u64)).await;
    if let Err(e) = r {
        viol(&["C18", "C01"], "emit-failed", format!("emitting through guard {} failed: {:?}", g.id, e));
    } else {
        s.lock().unwrap().marks += 1;
    }
}

async fn ask(s: &Shared, g: &Guard) {
    let n = uid(s);
    let want = n.wrapping_mul(31);
    match g.g.emit("ask", bytes(n)).await_reply().await {
        Ok(ev) if num(&ev) == want => stat("probe:requests through pooled connections", 1),
        Ok(ev) => viol(&["C18", "C03"], "foreign-reply", format!("request {} through guard {} got the reply {}, not {}", n, g.id, num(&ev), want)),
        Err(e) => viol(&["C18", "C03"], "no-reply", format!("request {} through guard {} failed: {:?}", n, g.id, e)),
    }
}

async fn back(s: &Shared, g: &Guard) {
    let n = uid(s);
    s.lock().unwrap().backs.push(n);
    if let Err(e) = g.g.emit("back", bytes(n)).await {
        viol(&["C18", "C01"], "emit-failed", format!("emitting through guard {} failed: {:?}", g.id, e));
    }
}

fn acquire(s: &Shared, p: &PooledContext) -> Guard {
    let g = p.acquire();
    let mut st = s.lock().unwrap();
    st.guards += 1;
    let id = st.guards;
    st.log.push(Ev::Acq(id));
    drop(st);
    slog!("guard {} acquired", id);
    Guard { id, g }
}

fn release(s: &Shared, g: Guard) {
    slog!("guard {} dropped", g.id);
    s.lock().unwrap().log.push(Ev::Drop(g.id));
    if D(205).chance(15) {
        // its owner panics
        stat("fault:guards dropped in a panic", 1);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
            let _g = g.g;
            std::panic::panic_any("SIMPANIC with a guard".to_string());
        }));
        drop(r);
        return;
    }
    drop(g.g);
}

/// Phases one after the other; in each, the actors share the pool.
async fn actor(s: Shared, pool: PooledRef, d: D, kind: Kind, mut held: Vec<Guard>, late: bool) -> Vec<Guard> {
    let n = if kind == Kind::Acquire { d.range(1, 6) } else { d.range(1, 10) };
    let mut clones: Vec<PooledContext> = vec![];
    let mut unmarked = vec![];
    for _ in 0..n {
        let what = if kind == Kind::Acquire { 0 } else { d.weighted(&[30, 15, 30, 8, 8, 6, 3]) };
        match what {
            1 if !held.is_empty() => {
                let i = d.n(held.len() as u32) as usize;
                let g = held[i].g.clone();
                let of = held[i].id;
                let mut st = s.lock().unwrap();
                st.guards += 1;
                let id = st.guards;
                st.log.push(Ev::Clone(id, of));
                drop(st);
                let g = Guard { id, g };
                mark(&s, &g).await;
                held.push(g);
            }
            2 if !held.is_empty() => {
                let i = d.n(held.len() as u32) as usize;
                release(&s, held.swap_remove(i));
            }
            3 if kind != Kind::Acquire => match d.n(3) {
                0 => {
                    clones.pop();
                }
                _ => clones.push(pool.get().clone()),
            },
            4 if !held.is_empty() => ask(&s, &held[d.n(held.len() as u32) as usize]).await,
            5 if !held.is_empty() => back(&s, &held[d.n(held.len() as u32) as usize]).await,
            6 => tokio::time::sleep(Duration::from_millis(d.n(20) as u64)).await,
            _ => {
                let g = match clones.last() {
                    Some(c) if d.n(2) == 0 => acquire(&s, c),
                    _ => acquire(&s, pool.get()),
                };
                if late {
                    unmarked.push(held.len());
                    held.push(g);
                    if kind != Kind::Acquire {
                        let i = unmarked.pop().unwrap();
                        mark(&s, &held[i]).await;
                    }
                } else {
                    mark(&s, &g).await;
                    held.push(g);
                }
            }
        }
    }
    for i in unmarked {
        mark(&s, &held[i]).await;
    }
    held
}

/// The pool, or a clone of it, as the actor sees it.
#[derive(Clone)]
struct PooledRef(Arc<PooledContext>);
impl PooledRef {
    fn get(&self) -> &PooledContext {
        &self.0
    }
}

async fn run<L: Tp>(nc: NetCfg, t: T, keys: KeySetup, n: usize, threads: bool)
where
    L::AddressType: 'static,
{
    let d = cfg();
    nc.install();
    let s: Shared = Arc::new(Mutex::new(St::default()));
    let sb = IPCBuilder::<L>::new()
        .address(L::addr(1))
        .server_options(L::sopts(&keys))
        .on("mark", |_, _| Box::pin(async { Ok(Response::empty()) }))
        .on("ask", |ctx, ev| {
            Box::pin(async move {
                let n = num(&ev);
                if n % 3 == 0 {
                    tokio::time::sleep(Duration::from_millis(n % 40)).await;
                }
                if n % 2 == 0 {
                    ctx.emit("answer", bytes(n.wrapping_mul(31))).await?;
                    Ok(Response::empty())
                } else {
                    ctx.response(bytes(n.wrapping_mul(31)))
                }
            })
        })
        .on("never", |_, _| Box::pin(futures::future::pending()))
        .on("back", |ctx, ev| {
            Box::pin(async move {
                ctx.clone().emit("cb", bytes(num(&ev))).await?;
                Ok(Response::empty())
            })
        });
    spawn(async move {
        let r = sb.build_server().await;
        viol(&["C12"], "server-ended", format!("build_server returned {:?}", r));
    });
    crate::mesh::wait_listening(&L::sim_addr(1)).await;
    let sc = s.clone();
    let timeout_ms = *d.pick(&[60_000u64, 1000, 300_000]);
    let cb = IPCBuilder::<L>::new()
        .address(L::addr(1))
        .timeout(Duration::from_millis(timeout_ms))
        .client_options(L::copts(&keys, 1))
        .insert::<DataKey>(4242)
        .on("cb", move |ctx, ev| {
            let s = sc.clone();
            Box::pin(async move {
                let v = *ctx.data.read().await.get::<DataKey>().unwrap_or(&0);
                if v != 4242 {
                    viol(&["C18", "C23"], "pool-data", format!("a handler of a pooled connection sees the data {}", v));
                }
                *s.lock().unwrap().cbs.entry(num(&ev)).or_insert(0) += 1;
                Ok(Response::empty())
            })
        });
    let before = tokio::sim::net::conn_count();
    let pool = match cb.build_pooled_client(n).await {
        Ok(p) => p,
        Err(e) => return viol(&["C18", "C24"], "build-failed", format!("pool of {}: {:?}", n, e)),
    };
    let conns: Vec<usize> = (before..tokio::sim::net::conn_count()).collect();
    if conns.len() != n {
        viol(&["C18", "C24"], "pool-size", format!("a pool of {} has {} connections", n, conns.len()));
    }
    let mut pool = PooledRef(Arc::new(pool));
    let mut held: Vec<Guard> = vec![];
    #[cfg(feature = "mt")]
    if threads {
        crate::mt::start();
    }
    // each operation stream is an actor of one phase; actors of the same phase run together
    let mut actors: BTreeMap<u32, Vec<D>> = BTreeMap::new();
    for od in ops(1, 14) {
        actors.entry((od.0 - rt::OPS) / 4).or_default().push(od);
    }
    let pd = D(202);
    let mut mixed = 0;
    for (_, ds) in actors {
        let mut kind = *pd.pick(&[Kind::Acquire, Kind::Mix, Kind::Alone]);
        if ds.len() == 1 && kind == Kind::Mix {
            kind = Kind::Alone;
        }
        if kind == Kind::Mix {
            mixed += 1;
        }
        let late = pd.n(2) == 0;
        s.lock().unwrap().log.push(Ev::Start(kind));
        if pd.chance(20) {
            // everything goes on with a clone of the pool
            pool = PooledRef(Arc::new(pool.get().clone()));
        }
        if kind == Kind::Alone {
            for od in ds {
                held = actor(s.clone(), pool.clone(), od, kind, held, late).await;
            }
        } else {
            let mut parts: Vec<Vec<Guard>> = ds.iter().map(|_| vec![]).collect();
            let k = parts.len();
            for (i, g) in held.drain(..).enumerate() {
                parts[i % k].push(g);
            }
            let out: Arc<Mutex<Vec<Guard>>> = Arc::new(Mutex::new(vec![]));
            let mut tasks = vec![];
            let begin = Arc::new(tokio::sync::Barrier::new(k));
            for (od, part) in ds.into_iter().zip(parts) {
                let (s, pool, out) = (s.clone(), pool.clone(), out.clone());
                let begin = begin.clone();
                let f = async move {
                    if kind == Kind::Acquire {
                        begin.wait().await;
                    }
                    let r = actor(s, pool, od, kind, part, late).await;
                    out.lock().unwrap().extend(r);
                };
                #[cfg(feature = "mt")]
                if threads {
                    tasks.push(spawn(crate::mt::thread(move || crate::mt::block_on(f))));
                    continue;
                }
                let _ = threads;
                tasks.push(spawn(f));
            }
            let lim = tokio::time::timeout(Duration::from_secs(10_000), futures::future::join_all(tasks)).await;
            if lim.is_err() {
                viol(&["C18", "C21"], "hang", "actors of a pool never finish");
                return;
            }
            held.append(&mut out.lock().unwrap());
            held.sort_by_key(|g| g.id);
        }
        s.lock().unwrap().log.push(Ev::End(kind));
    }
    // very many users of a few connections
    if pd.chance(15) {
        s.lock().unwrap().log.push(Ev::Start(Kind::Alone));
        let mut many: Vec<(usize, Vec<PoolGuard<Context>>)> = vec![];
        for _ in 0..pd.range(1, 3) {
            let g = acquire(&s, pool.get());
            mark(&s, &g).await;
            let k = *pd.pick(&[254usize, 127, 255, 256, 1000, 4095, 32767, 65535, 65536]);
            many.push((g.id, (0..k).map(|_| g.g.clone()).collect()));
            s.lock().unwrap().log.push(Ev::Many(g.id, k as i64));
            held.push(g);
            for _ in 0..pd.n(n as u32 + 2) {
                let g = acquire(&s, pool.get());
                mark(&s, &g).await;
                held.push(g);
            }
            stat("probe:many guards of a connection", 1);
        }
        while !many.is_empty() {
            let i = pd.n(many.len() as u32) as usize;
            let (id, gs) = &mut many[i];
            let keep = if gs.len() > 1 && pd.n(2) == 1 { pd.n(3) as usize } else { 0 };
            s.lock().unwrap().log.push(Ev::Many(*id, keep as i64 - gs.len() as i64));
            gs.truncate(keep);
            if keep == 0 {
                many.swap_remove(i);
            }
            let g = acquire(&s, pool.get());
            mark(&s, &g).await;
            held.push(g);
        }
        s.lock().unwrap().log.push(Ev::End(Kind::Alone));
    }
    // at last everything is given back and the pool has to be even
    s.lock().unwrap().log.push(Ev::Start(Kind::Alone));
    let keep = if held.is_empty() { 0 } else { pd.n(held.len() as u32 + 1) as usize };
    for g in held.drain(keep..) {
        release(&s, g);
    }
    for _ in 0..2 * n + 1 {
        let g = acquire(&s, pool.get());
        mark(&s, &g).await;
        held.push(g);
    }
    for i in 0..n.min(held.len()) {
        let i = held.len() - 1 - i;
        ask(&s, &held[i]).await;
        back(&s, &held[i]).await;
    }
    if pd.chance(30) {
        let t0 = tokio::sim::now_ns();
        let i = pd.n(held.len() as u32) as usize;
        let r = tokio::time::timeout(Duration::from_secs(100_000), held[i].g.emit("never", bytes(1)).await_reply()).await;
        let ms = (tokio::sim::now_ns() - t0) / 1_000_000;
        match r {
            Ok(Err(IPCError::Timeout)) if ms >= timeout_ms && ms < timeout_ms + 5000 => {}
            Ok(Err(e)) => viol(&["C18", "C07"], "pool-timeout", format!("a request through a pool with a time limit of {} ms ended with {:?} after {} ms", timeout_ms, e, ms)),
            Ok(Ok(_)) => viol(&["C18", "C03"], "pool-timeout", "a request that nobody answers got a reply"),
            Err(_) => viol(&["C18", "C07"], "pool-timeout", "a request through a pool has no time limit"),
        }
    }
    // guards outlive the pool
    drop(pool);
    if let Some(g) = held.last() {
        ask(&s, g).await;
    }
    s.lock().unwrap().log.push(Ev::End(Kind::Alone));
    tokio::time::sleep(Duration::from_secs(5)).await;
    #[cfg(feature = "mt")]
    if threads {
        crate::mt::stop();
    }
    check(&s, t, &keys, &conns);
    nontrivial();
    rt::sample(format!("{:?}, pool of {}, {} guards, {} phases with several actors, threads {}", t, n, s.lock().unwrap().guards, mixed, threads));
    drop(held);
}

fn check(s: &Shared, t: T, keys: &KeySetup, conns: &[usize]) {
    let st = s.lock().unwrap();
    let mut of: HashMap<usize, usize> = HashMap::new();
    for c in conns {
        let plain = match wire::plaintext(*c, t, keys, 1) {
            Some(p) => p,
            None => return viol(&["C18"], "undecodable", format!("the traffic of connection {} cannot be decoded", c)),
        };
        let (fs, _, e) = crate::codec::decode_all(&plain[0]);
        if let Some(e) = e {
            viol(&["C09"], "bad-frame", e.to_string());
        }
        for f in fs {
            if f.name == "mark" && f.data.len() == 8 {
                let u = u64::from_be_bytes(f.data[..].try_into().unwrap());
                if of.insert((u - 1_000_000) as usize, *c).is_some() {
                    viol(&["C01", "C18"], "duplicated", format!("the mark of guard {} was transmitted twice", u - 1_000_000));
                }
            }
        }
    }
    for (n, k) in &st.cbs {
        if *k != 1 || !st.backs.contains(n) {
            viol(&["C01", "C18"], "callback", format!("callback {} was handled {} times", n, k));
        }
    }
    for n in &st.backs {
        if !st.cbs.contains_key(n) {
            viol(&["C18", "C01"], "callback", format!("callback {} was never handled by the client", n));
        }
    }
    let mut counts: BTreeMap<usize, i64> = conns.iter().map(|c| (*c, 0)).collect();
    let mut kind = Kind::Alone;
    let mut at_start: Vec<i64> = vec![];
    let mut acquired = 0;
    let get = |g: &usize| -> Option<usize> {
        let r = of.get(g).copied();
        if r.is_none() {
            viol(&["C18", "C01"], "no-mark", format!("the mark of guard {} is on no connection", g));
        }
        r
    };
    for e in &st.log {
        match e {
            Ev::Start(k) => {
                kind = *k;
                acquired = 0;
                at_start = counts.values().copied().collect();
            }
            Ev::End(Kind::Acquire) => {
                stat("probe:concurrent acquisitions", acquired);
                for _ in 0..acquired {
                    let i = (0..at_start.len()).min_by_key(|i| at_start[*i]).unwrap();
                    at_start[i] += 1;
                }
                let mut is: Vec<i64> = counts.values().copied().collect();
                is.sort();
                at_start.sort();
                if is != at_start {
                    viol(&["C18"], "uneven", format!("after {} acquisitions without a release the connections are used {:?} times, not {:?}", acquired, is, at_start));
                }
            }
            Ev::End(_) => {}
            Ev::Acq(g) => {
                let c = match get(g) {
                    Some(c) => c,
                    None => return,
                };
                acquired += 1;
                let min = *counts.values().min().unwrap();
                if kind == Kind::Alone {
                    stat("probe:acquisitions", 1);
                    if counts[&c] != min {
                        viol(&["C18"], "not-least-used", format!("guard {} uses connection {} although it has {} users and another has {} ({:?})", g, c, counts[&c], min, counts));
                    }
                }
                *counts.get_mut(&c).unwrap() += 1;
            }
            Ev::Clone(g, o) => {
                let (c, co) = match (get(g), get(o)) {
                    (Some(a), Some(b)) => (a, b),
                    _ => return,
                };
                if c != co {
                    viol(&["C18"], "clone-elsewhere", format!("the clone of a guard of connection {} uses connection {}", co, c));
                }
                *counts.get_mut(&c).unwrap() += 1;
            }
            Ev::Many(g, k) => {
                if let Some(c) = get(g) {
                    *counts.get_mut(&c).unwrap() += k;
                }
            }
            Ev::Drop(g) => {
                if let Some(c) = get(g) {
                    *counts.get_mut(&c).unwrap() -= 1;
                }
            }
        }
    }
}

async fn go(threads: bool) {
    rt::primary(&["C18"]);
    let d = cfg();
    let t = net::pick_transport(d);
    let mut nc = net::net_cfg(d);
    if nc.caps == 0 && d.n(2) == 0 {
        nc.caps = 2;
    }
    let keys = KeySetup { base: d.u64(), clients: 1, server_allow: d.chance(50), client_allow: d.chance(50), ttl: None };
    let n = match d.n(20) {
        0 => *d.pick(&[16usize, 17, 33, 65, 128]),
        _ => *d.pick(&[2usize, 1, 3, 4, 5, 8]),
    };
    slog!("setup {:?} pool {} net {:?}", t, n, nc);
    with_transport!(t, run(nc, t, keys, n, threads))
}

pub async fn tasks() {
    go(false).await
}

#[cfg(feature = "mt")]
pub async fn threads() {
    go(true).await
}
