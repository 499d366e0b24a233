//! Identifiers of events under all clocks.

use crate::net::{self, KeySetup, NetCfg, Tp, T};
use crate::raw::RawListener;
use crate::rt::{self, cfg, nontrivial, ops, stat, viol, D};
use crate::sys;
use crate::world::spawn;
use crate::{slog, wire, with_transport};
use bromine::prelude::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::Ordering::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// Where the wall clock stands when the process starts, and what it does.
fn clock(d: D) {
    let at = match d.n(7) {
        0 => 1_700_000_000_000_000_000i64,
        1 => -1,
        2 => 0,
        3 => -(d.u64() as i64 >> 3),
        4 => d.u64() as i64 >> 2,
        5 => 65_535_000_000_000 * d.n(30_000) as i64 - 2_000_000,
        _ => 1_700_000_000_999_999_999,
    };
    let what = d.n(4);
    slog!("clock at {} ns, mode {}", at, what);
    match what {
        0 => sys::WALL_OFFSET.store(at, SeqCst),
        1 => {
            sys::WALL_FROZEN.store(at, SeqCst);
            stat("fault:frozen clock", 1);
        }
        _ => {
            sys::WALL_OFFSET.store(at, SeqCst);
            sys::WALL_JUMPS.store(1, SeqCst);
        }
    }
    if at < 0 {
        stat("fault:clock before the epoch", 1);
    }
}

type Ids = Arc<Mutex<Vec<(u64, u64)>>>;

async fn emit(ctx: &Context, ids: &Ids, d: D, key: u64) {
    let name = ["none", "some", "end"][(key % 3) as usize];
    let r = match d.n(5) {
        0 => ctx.emit(name, BytePayload::new(key.to_be_bytes().to_vec())).await_reply().await.map(|_| ()),
        1 => match ctx.emit(name, BytePayload::new(key.to_be_bytes().to_vec())).stream_replies().await {
            Ok(mut s) => {
                use futures::StreamExt;
                let mut r = Ok(());
                while let Some(x) = s.next().await {
                    if let Err(e) = x {
                        r = Err(e);
                    }
                }
                r
            }
            Err(e) => Err(e),
        },
        _ => ctx.emit(name, BytePayload::new(key.to_be_bytes().to_vec())).await.map(|id| ids.lock().unwrap().push((id, key))),
    };
    if let Err(e) = r {
        viol(&["C17", "C03"], "failed", format!("emission {} failed: {:?}", key, e));
    }
}

fn count<L: Tp>(b: IPCBuilder<L>) -> IPCBuilder<L> {
    b.on("none", |_, _| Box::pin(async { Ok(Response::empty()) })).on("some", |ctx, ev| {
        Box::pin(async move {
            let k = ev.payload::<BytePayload>()?.into_inner();
            for i in 0..k[7] % 4 {
                ctx.emit("end", BytePayload::new(vec![i])).await?;
            }
            Ok(Response::empty())
        })
    })
}

async fn run<L: Tp>(nc: NetCfg, t: T, keys: KeySetup, threads: bool)
where
    L::AddressType: 'static,
{
    let d = cfg();
    nc.install();
    clock(D(203));
    let servers = d.range(1, 2) as u16;
    for i in 1..=servers {
        let sb = count(IPCBuilder::<L>::new().address(L::addr(i)).timeout(Duration::from_secs(100_000)).server_options(L::sopts(&keys)));
        spawn(async move {
            let r = sb.build_server().await;
            viol(&["C12"], "server-ended", format!("build_server returned {:?}", r));
        });
        crate::mesh::wait_listening(&L::sim_addr(i)).await;
    }
    let mut ctxs = vec![];
    for c in 0..d.range(1, 3) {
        let cb = count(
            IPCBuilder::<L>::new()
                .address(L::addr(1 + c as u16 % servers))
                .timeout(Duration::from_secs(100_000))
                .client_options(L::copts(&keys, 1)),
        );
        match cb.build_client().await {
            Ok(x) => ctxs.push(x),
            Err(e) => return viol(&["C24", "C17"], "build-failed", format!("{:?}", e)),
        }
    }
    let ids: Ids = Arc::new(Mutex::new(vec![]));
    #[cfg(feature = "mt")]
    if threads {
        crate::mt::start();
    }
    let mut tasks = vec![];
    for od in ops(2, 10) {
        let ctx = ctxs[od.n(ctxs.len() as u32) as usize].clone();
        let ids = ids.clone();
        let base = (od.0 as u64) << 20;
        let f = async move {
            let n = od.range(1, if threads { 8 } else { 20 });
            for i in 0..n as u64 {
                if od.n(8) == 0 {
                    tokio::time::sleep(Duration::from_millis(od.n(1500) as u64)).await;
                }
                if od.n(4) == 0 {
                    let k = od.range(2, 6) as u64;
                    futures::future::join_all((0..k).map(|j| emit(&ctx, &ids, od, base + 100 * i + j))).await;
                } else {
                    emit(&ctx, &ids, od, base + 100 * i).await;
                }
            }
        };
        #[cfg(feature = "mt")]
        if threads {
            tasks.push(spawn(crate::mt::thread(move || crate::mt::block_on(f))));
            continue;
        }
        tasks.push(spawn(f));
    }
    let n = tasks.len();
    if tokio::time::timeout(Duration::from_secs(1_000_000), futures::future::join_all(tasks)).await.is_err() {
        viol(&["C17", "C21"], "hang", "emissions never finish");
    }
    tokio::time::sleep(Duration::from_secs(10)).await;
    #[cfg(feature = "mt")]
    if threads {
        crate::mt::stop();
    }
    let mut seen: HashMap<u64, (usize, usize, usize)> = HashMap::new();
    let mut of: HashMap<u64, u64> = HashMap::new();
    for c in 0..tokio::sim::net::conn_count() {
        let plain = match wire::plaintext(c, t, &keys, 1) {
            Some(p) => p,
            None => return viol(&["C16"], "undecodable", format!("the traffic of connection {} cannot be decoded", c)),
        };
        for dir in 0..2 {
            let (fs, _, e) = crate::codec::decode_all(&plain[dir]);
            if let Some(e) = e {
                viol(&["C09"], "bad-frame", e.to_string());
            }
            for (i, f) in fs.iter().enumerate() {
                stat("probe:ids compared", 1);
                if let Some(o) = seen.insert(f.id, (c, dir, i)) {
                    viol(&["C17"], "duplicate-id", format!("event {} of connection {} direction {} and event {} of connection {} direction {} share the id {:x}", o.2, o.0, o.1, i, c, dir, f.id));
                }
                if f.data.len() == 8 && f.ty == 0 {
                    of.insert(u64::from_be_bytes(f.data[..].try_into().unwrap()), f.id);
                }
            }
        }
    }
    for (id, key) in ids.lock().unwrap().iter() {
        if of.get(key) != Some(id) {
            viol(&["C01", "C17"], "other-id", format!("emission {} returned the id {:x}, transmitted was {:x?}", key, id, of.get(key)));
        }
    }
    let reads = sys::WALL_READS.load(SeqCst);
    if seen.len() > 1 {
        nontrivial();
    }
    rt::sample(format!("{:?}, {} actors, {} events, {} reads of the clock, threads {}", t, n, seen.len(), reads, threads));
    drop(ctxs);
}

async fn go(threads: bool) {
    rt::primary(&["C17"]);
    let d = cfg();
    let t = net::pick_transport(d);
    let mut nc = net::net_cfg(d);
    if nc.caps == 0 {
        nc.caps = 2;
    }
    let keys = KeySetup { base: d.u64(), clients: 1, server_allow: d.chance(50), client_allow: d.chance(50), ttl: None };
    with_transport!(t, run(nc, t, keys, threads))
}

pub async fn tasks() {
    go(false).await
}

#[cfg(feature = "mt")]
pub async fn threads() {
    go(true).await
}

/// Very many events.
pub async fn flood() {
    rt::primary(&["C17"]);
    let d = cfg();
    rt::set_plan(Box::new(|_, _| {
        let mut p = tokio::sim::net::Plan::default();
        for d in &mut p.dirs {
            d.cap = 1 << 20;
            d.tap = false;
        }
        p
    }));
    let l = RawListener::bind(T::Tcp, 1).await;
    spawn(async move {
        let mut s = match l.accept().await {
            Ok(s) => s,
            Err(_) => return,
        };
        use tokio::io::AsyncReadExt;
        let mut buf = vec![0u8; 1 << 20];
        while let Ok(n) = s.read(&mut buf).await {
            if n == 0 {
                break;
            }
        }
    });
    let ctx = match IPCBuilder::<tokio::net::TcpListener>::new().address(net::tcp_addr(1)).build_client().await {
        Ok(c) => c,
        Err(e) => return rt::harness_error(format!("{:?}", e)),
    };
    clock(D(203));
    let mut ids: HashSet<u64> = HashSet::new();
    let n = *d.pick(&[70_000u32, 140_000, 300_000]);
    let silent = *d.pick(&[1_100_000usize, 0, 2_200_000, 5_000_000, 17_000_000]);
    let mut made: Vec<u64> = Vec::with_capacity(silent);
    for _ in 0..silent {
        made.push(bromine::event::Event::initiator(None, String::new(), bytes::Bytes::new()).id());
    }
    made.sort_unstable();
    if let Some(p) = made.windows(2).find(|p| p[0] == p[1]) {
        return viol(&["C17"], "duplicate-id", format!("two of {} events have the id {:x}", silent, p[0]));
    }
    stat("probe:ids compared", silent as u64);
    let mut by: BTreeMap<u64, u32> = BTreeMap::new();
    for i in 0..n {
        if i % 20_000 == 19_999 {
            tokio::time::sleep(Duration::from_millis(1)).await;
        }
        match ctx.emit("x", BytePayload::new(vec![])).await {
            Ok(id) => {
                *by.entry(id >> 32).or_default() += 1;
                if !ids.insert(id) || made.binary_search(&id).is_ok() {
                    return viol(&["C17"], "duplicate-id", format!("the id {:x} of event {} was used before", id, i));
                }
            }
            Err(e) => return viol(&["C17", "C01"], "failed", format!("emission {} failed: {:?}", i, e)),
        }
    }
    stat("probe:ids compared", n as u64);
    nontrivial();
    rt::sample(format!("{} events, {} distinct times", n, by.len()));
}
