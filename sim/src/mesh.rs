//! Generic workload: one server, some clients (single or pooled), scripted handlers in both directions.

use crate::net::{self, KeySetup, NetCfg, Tp, T};
use crate::rt::{self, cfg, nontrivial, ops, stat, viol, D, OPS};
use crate::wire;
use crate::world::*;
use crate::{slog, with_transport};
use bromine::event::EventType;
use bromine::prelude::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;
use std::time::Duration;
use trait_bound_typemap::SendSyncTypeMap;

/// What a run may contain.
#[derive(Clone, Debug)]
pub struct Prof {
    pub cut: bool,
    pub short_timeouts: bool,
    pub abandon: bool,
    pub endless: bool,
    pub streams: u32,
    pub nested: u32,
    pub max_payload: u32,
    pub ops: (u32, u32),
    pub pool: u32,
    pub errors: u32,
    pub unregistered: bool,
    pub stop: bool,
    /// actors (and some handlers) run on threads of their own
    pub threads: bool,
}

const NAMES: &[&str] = &["a", "b", "c", "end"];

fn long_name() -> String {
    "L".repeat(600)
}

/// Names that look like others, or like nothing.
const ODD: &[&str] = &[
    " a", "a ", "A", "a\0", "a\n", "\ta", "a\u{301}", "\u{e1}", "n0/a", "n0:a", "n0.a", "aa", "*", "", "0", "end ", "END", "Error", "error ", "a b", "\u{feff}a", "r#a", "a*",
    // the beginnings of each other
    "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq",
    "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq",
    "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq",
    "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq",
];
const SPACES: &[&str] = &["n0", "n1", "a", "n€"];
const ODD_SPACES: &[&str] = &["N0", " n0", "n0 ", "n0\0", "n0/n1", "*", " ", "n", "n00", "default", "error", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq", "qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqq"];

struct Fill<const N: u32>;
impl<const N: u32> trait_bound_typemap::TypeMapKey for Fill<N> {
    type Value = u32;
}

/// Other values that are inserted together with those that are looked at.
fn fill(m: &mut SendSyncTypeMap, i: u32) {
    match i {
        0 => m.insert::<Fill<0>>(0),
        1 => m.insert::<Fill<1>>(1),
        2 => m.insert::<Fill<2>>(2),
        3 => m.insert::<Fill<3>>(3),
        4 => m.insert::<Fill<4>>(4),
        5 => m.insert::<Fill<5>>(5),
        6 => m.insert::<Fill<6>>(6),
        7 => m.insert::<Fill<7>>(7),
        _ => m.insert::<Fill<8>>(8),
    };
}

fn universe() -> Vec<(Option<String>, String)> {
    let mut v = vec![];
    for n in NAMES {
        v.push((None, n.to_string()));
    }
    v.push((None, "ü💥 x".to_string()));
    v.push((None, long_name()));
    for ns in SPACES {
        for n in ["a", "b", "c", "error"] {
            v.push((Some(ns.to_string()), n.to_string()));
        }
    }
    v
}

fn odd(d: D) -> (Option<String>, String) {
    let name = |d: D| if d.n(2) == 0 { d.pick(ODD).to_string() } else { NAMES[d.n(3) as usize].to_string() };
    match d.n(7) {
        4 => (Some(crate::world::near(d, *d.pick(&["n0", "n1", "a"]))), name(d)),
        5 => (Some(d.pick(SPACES).to_string()), crate::world::near(d, *d.pick(&["a", "b", "error"]))),
        6 => (None, crate::world::near(d, *d.pick(&["a", "b", "c", "error", "end"]))),
        0 | 1 => (None, d.pick(ODD).to_string()),
        2 => (Some(d.pick(SPACES).to_string()), d.pick(ODD).to_string()),
        _ => (Some(d.pick(ODD_SPACES).to_string()), name(d)),
    }
}

pub struct Gen<'a> {
    pub p: &'a Prof,
    pub d: D,
    pub base: u64,
    pub n: u64,
    pub left: i32,
    pub max: u32,
    pub allow_empty: Option<String>,
    /// handlers may wait for the other side while they hold the lock of their data
    pub hold: bool,
}

impl Gen<'_> {
    fn uid(&mut self) -> u64 {
        self.n += 1;
        self.base + self.n
    }

    fn addr(&mut self) -> (Option<String>, String) {
        let d = self.d;
        let u = universe();
        match d.n(10) {
            0..=5 => {
                // the common names
                let ns = match d.n(4) {
                    0 | 1 => None,
                    2 => Some("n0".to_string()),
                    _ => Some("n1".to_string()),
                };
                (ns, NAMES[d.n(3) as usize].to_string())
            }
            6 | 7 => d.pick(&u).clone(),
            8 => {
                if self.p.unregistered {
                    match d.n(5) {
                        0 => (Some("nope".into()), "a".into()),
                        1 => (Some("n0".into()), "nope".into()),
                        2 => (None, "nope".into()),
                        3 => (Some("".into()), "b".into()),
                        _ => (Some("nope".into()), "error".into()),
                    }
                } else {
                    (None, "a".into())
                }
            }
            _ => {
                if self.p.unregistered {
                    odd(d)
                } else {
                    (None, "b".into())
                }
            }
        }
    }

    fn form(&mut self) -> Form {
        match self.d.n(8) {
            0..=2 => Form::Raw,
            3 => Form::Ser,
            4 => Form::SerX(self.d.n(4) as u8),
            5 => Form::Tandem,
            6 => Form::Tandem2(self.d.n(4) as u8),
            _ => Form::ErrData,
        }
    }

    fn abandon(&mut self, mode: Mode) -> Option<Abandon> {
        if !self.p.abandon || !self.d.chance(35) {
            return None;
        }
        Some(match (self.d.n(4), mode) {
            (0, Mode::Stream) | (1, Mode::Stream) => Abandon::Items(self.d.n(12)),
            (0, _) | (1, _) => Abandon::Polls(self.d.range(1, 6)),
            (2, _) => Abandon::Ms(self.d.n(30)),
            _ => Abandon::Ms(self.d.n(1500)),
        })
    }

    pub fn spec(&mut self, depth: u32, mode: Mode, dispatched: bool) -> Spec {
        self.left -= 1;
        let (ns, name) = self.addr();
        let uid = self.uid();
        let max = if mode == Mode::Stream || depth > 1 { self.max.min(4000) } else { self.max };
        let mut s = Spec {
            uid,
            ns,
            name,
            form: self.form(),
            size: size_of(&self.d, max),
            mode,
            script: None,
            abandon: self.abandon(mode),
            timeout_ms: if mode != Mode::Fire && self.p.short_timeouts && self.d.chance(50) {
                Some(*self.d.pick(&[200u32, 1, 20, 1000, 5000]))
            } else {
                None
            },
            think: if mode == Mode::Stream { *self.d.pick(&[0u32, 0, 0, 1, 30, 400]) } else { 0 },
        };
        if depth == 0 && self.allow_empty.is_some() && self.d.chance(15) {
            s.form = Form::Empty;
            s.ns = None;
            s.name = self.allow_empty.take().unwrap();
            s.size = 0;
        }
        if dispatched {
            s.script = Some(Arc::new(self.script(depth, mode)));
        }
        s
    }

    fn fin(&mut self) -> Fin {
        let e = self.p.errors;
        if self.d.chance(e) {
            let u = self.uid();
            let size = if self.d.chance(80) { 0 } else { self.d.range(1, 3) };
            let size = if [0, 300, 5000, 70_000][size as usize] > self.max { 0 } else { size };
            return Fin::Err((self.d.n(8) + 8 * size) as u8, u);
        }
        if self.d.n(2) == 0 {
            Fin::Empty
        } else {
            let u = self.uid();
            let f = self.form();
            Fin::Pay(u, f, size_of(&self.d, self.max.min(8000)))
        }
    }

    /// Script of a handler for an event that was emitted with `mode`.
    fn script(&mut self, depth: u32, mode: Mode) -> Script {
        let mut acts = vec![];
        let n = match mode {
            Mode::Stream => {
                if self.d.chance(30) {
                    self.d.range(8, 40)
                } else {
                    self.d.n(8)
                }
            }
            _ => self.d.n(4),
        };
        // whatever a waiter may leave over is dispatched without further ado
        let sub = mode == Mode::Fire && depth < 2;
        for _ in 0..n {
            if self.hold && mode == Mode::Fire && self.left > 0 && self.d.chance(25) {
                let m = if self.d.n(2) == 0 { Mode::Stream } else { Mode::Req };
                let mut sp = self.spec(depth + 1, m, false);
                sp.think = 0;
                // the other side does not need anything of this one for its answer
                if sub {
                    let mut acts = vec![];
                    for _ in 0..self.d.n(if m == Mode::Stream { 20 } else { 3 }) {
                        match self.d.n(5) {
                            0 => acts.push(Act::Sleep(self.d.n(20))),
                            1 => acts.push(Act::Yield(self.d.range(1, 4))),
                            _ => acts.push(Act::Emit(self.spec(depth + 2, Mode::Fire, false))),
                        }
                    }
                    sp.script = Some(Arc::new(Script { acts, fin: self.fin() }));
                }
                let write = self.d.n(2) == 1;
                acts.push(Act::Held(write, sp));
                continue;
            }
            match self.d.n(12) {
                0 => acts.push(Act::Sleep(*self.d.pick(&[0u32, 1, 5, 50, 700, 9000]))),
                1 => acts.push(Act::Yield(self.d.range(1, 4))),
                2 => acts.push(Act::Inc(self.d.n(4))),
                3 => acts.push(Act::Look),
                4 if mode != Mode::Req => {
                    let k = self.d.range(2, 3);
                    let b = (0..k).map(|_| self.spec(depth + 1, Mode::Fire, sub && self.left > 0)).collect();
                    acts.push(Act::Burst(b));
                }
                5 if mode == Mode::Fire => {
                    let sp = self.spec(depth + 1, Mode::Fire, sub && self.left > 0);
                    let ms = *self.d.pick(&[0u32, 3, 1000]);
                    acts.push(Act::Detached(sp, ms));
                }
                6 if mode == Mode::Fire => acts.push(Act::Stash),
                7 if mode == Mode::Fire => {
                    let sp = self.spec(depth + 1, Mode::Fire, sub && self.left > 0);
                    acts.push(Act::Cross(sp));
                }
                _ => {
                    if self.left <= 0 {
                        continue;
                    }
                    let m = if mode == Mode::Fire && self.d.chance(self.p.nested) {
                        if self.d.n(3) == 0 { Mode::Stream } else { Mode::Req }
                    } else {
                        Mode::Fire
                    };
                    acts.push(Act::Emit(self.spec(depth + 1, m, sub)));
                }
            }
        }
        if self.p.endless && self.d.chance(10) {
            acts.push(Act::Forever);
        }
        let fin = if self.p.endless && self.d.chance(10) { Fin::Panic } else { self.fin() };
        Script { acts, fin }
    }
}

/// One client of the run.
struct Client {
    ctxs: Option<PooledContext>,
    single: Option<Context>,
    conns: Vec<usize>,
}

pub struct Setup {
    pub t: T,
    pub keys: KeySetup,
    pub clients: Vec<usize>,
    pub timeout_ms: u64,
}

fn handler_of(node: usize, reg: (Option<String>, String)) -> impl for<'a> Fn(&'a Context, Event) -> std::pin::Pin<Box<dyn std::future::Future<Output = IPCResult<Response>> + Send + 'a>> + Send + Sync + 'static {
    move |ctx, ev| handle(node, reg.clone(), ctx, ev)
}

/// Registers a node's handlers and data.
thread_local! {
    /// node and names of the handlers that are to be provided
    static PROVIDED: RefCell<(usize, Vec<String>)> = const { RefCell::new((0, vec![])) };
}

struct Provider<const I: usize>;
impl<const I: usize> NamespaceProvider for Provider<I> {
    fn name() -> &'static str {
        SPACES[I]
    }

    fn register(h: &mut EventHandler) {
        let (node, names) = PROVIDED.with(|p| p.borrow().clone());
        for n in names {
            h.on(&n, handler_of(node, (Some(SPACES[I].into()), n.clone())));
        }
    }
}

pub fn equip<L: Tp>(mut b: IPCBuilder<L>, node: usize, d: D, zs: bool) -> IPCBuilder<L> {
    let mut regs = BTreeSet::new();
    let own_err = d.chance(70);
    for (ns, name) in universe() {
        let p = if ns.is_none() { 85 } else { 75 };
        if ns.is_none() && !d.chance(100 - p) {
            b = b.on(&name, handler_of(node, (None, name.clone())));
            regs.insert((None, name));
        }
    }
    if zs {
        for i in 0..8 {
            let name = format!("z{}", i);
            b = b.on(&name, handler_of(node, (None, name.clone())));
            regs.insert((None, name));
        }
    }
    if own_err {
        b = b.on("error", handler_of(node, (None, "error".into())));
    }
    // the look-alikes of this node
    let (lo, step) = (d.n(5) as usize, d.range(1, 5) as usize);
    let odd_names: Vec<&str> = if d.chance(30) { vec![] } else { ODD.iter().copied().skip(lo).step_by(step).collect() };
    for name in &odd_names {
        b = b.on(name, handler_of(node, (None, name.to_string())));
        regs.insert((None, name.to_string()));
    }
    let odd_spaces: Vec<&str> = if d.chance(60) { vec![] } else { ODD_SPACES.iter().copied().skip(lo).step_by(step).collect() };
    // "error" has a default handler that is not ours
    for ns in SPACES.iter().copied().chain(odd_spaces) {
        if d.chance(20) {
            continue;
        }
        let mut names: Vec<&str> = ["a", "b", "c", "error"].into_iter().filter(|_| !d.chance(25)).collect();
        if d.chance(30) {
            names.extend(&odd_names);
        }
        let how = d.n(3);
        if let (2, Some(i)) = (how, SPACES.iter().position(|s| *s == ns)) {
            PROVIDED.with(|p| *p.borrow_mut() = (node, names.iter().map(|n| n.to_string()).collect()));
            b = b.add_namespace(match i {
                0 => Namespace::from_provider::<Provider<0>>(),
                1 => Namespace::from_provider::<Provider<1>>(),
                2 => Namespace::from_provider::<Provider<2>>(),
                _ => Namespace::from_provider::<Provider<3>>(),
            });
        } else if how == 0 {
            let mut nb = b.namespace(ns);
            for n in &names {
                nb = nb.on(n, handler_of(node, (Some(ns.into()), n.to_string())));
            }
            b = nb.build();
        } else {
            let mut h = EventHandler::new();
            for n in &names {
                h.on(n, handler_of(node, (Some(ns.into()), n.to_string())));
            }
            b = b.add_namespace(Namespace::new(ns, h));
        }
        for n in names {
            regs.insert((Some(ns.to_string()), n.to_string()));
        }
    }
    w(|w| {
        w.regs.push(regs);
        w.err_handler.push(own_err);
        w.shadow.push(1000 * node as u64);
    });
    b = match d.n(4) {
        3 => {
            let mut m = SendSyncTypeMap::new();
            m.insert::<MarkKey>(format!("node{}", node));
            m.insert::<CounterKey>(1000 * node as u64);
            for i in 0..D(225).n(10) {
                fill(&mut m, i);
            }
            b.insert_all(m)
        }
        2 => {
            let mut m = SendSyncTypeMap::new();
            m.insert::<MarkKey>(format!("node{}", node));
            b.insert::<CounterKey>(1000 * node as u64).insert_all(m)
        }
        _ => b.insert::<CounterKey>(1000 * node as u64).insert::<MarkKey>(format!("node{}", node)),
    };
    #[cfg(feature = "full")]
    {
        b = b.default_serializer(fmt(d.n(4) as u8));
    }
    b
}

pub async fn wait_listening(a: &tokio::sim::net::Addr) {
    for _ in 0..1000 {
        if tokio::sim::net::is_listening(a) {
            return;
        }
        tokio::task::yield_now().await;
    }
    rt::harness_error("server does not listen".into());
}

async fn mesh<L: Tp>(p: Prof, mut nc: NetCfg, s: Setup) -> ()
where
    L::AddressType: 'static,
{
    let d = cfg();
    nc.install();
    let k = s.clients.len();
    let mut sb = IPCBuilder::<L>::new()
        .address(L::addr(1))
        .timeout(Duration::from_millis(s.timeout_ms))
        .server_options(L::sopts(&s.keys));
    sb = equip(sb, 0, d, true);
    let srv = spawn(async move {
        let r = sb.build_server().await;
        slog!("server ended: {:?}", r);
        viol(&["C12"], "server-ended", format!("build_server returned {:?}", r));
    });
    wait_listening(&L::sim_addr(1)).await;
    let mut clients = vec![];
    for c in 1..=k {
        let mut cb = IPCBuilder::<L>::new()
            .address(L::addr(1))
            .timeout(Duration::from_millis(s.timeout_ms))
            .client_options(L::copts(&s.keys, c));
        cb = equip(cb, c, d, false);
        let before = tokio::sim::net::conn_count();
        let n = s.clients[c - 1];
        let mut cl = Client { ctxs: None, single: None, conns: vec![] };
        let fail = |e: IPCError| {
            if !p.cut {
                viol(&["C24", "C21"], "build-failed", format!("client {} cannot be built: {:?}", c, e));
            }
        };
        let r = tokio::time::timeout(Duration::from_secs(1000), async {
            if n == 0 {
                match cb.build_client().await {
                    Ok(x) => cl.single = Some(x),
                    Err(e) => fail(e),
                }
            } else {
                match cb.build_pooled_client(n).await {
                    Ok(x) => cl.ctxs = Some(x),
                    Err(e) => fail(e),
                }
            }
        })
        .await;
        if r.is_err() && !p.cut {
            viol(&["C24", "C21"], "build-hangs", format!("client {} is never built", c));
        }
        cl.conns = (before..tokio::sim::net::conn_count()).collect();
        slog!("client {} pool {} conns {:?}", c, n, cl.conns);
        clients.push(cl);
    }
    let conn_client: BTreeMap<usize, usize> =
        clients.iter().enumerate().flat_map(|(i, c)| c.conns.iter().map(move |x| (*x, i + 1))).collect();
    // from now on no connection is made
    nc.cuts = 0;
    let max = p.max_payload.min(nc.max_payload());
    let mut tasks = vec![];
    #[cfg(feature = "mt")]
    if p.threads {
        crate::mt::start();
    }
    // (a lock that is held for long delays whoever needs it)
    let hold = !p.cut && !p.short_timeouts && !p.endless && !p.stop && nc.stalls == 0 && D(222).chance(25);
    for od in ops(p.ops.0, p.ops.1) {
        let mut g = Gen {
            p: &p,
            d: od,
            base: (od.0 - OPS + 1) as u64 * 100_000,
            n: 0,
            left: 14,
            max,
            hold,
            allow_empty: if od.0 - OPS < 8 { Some(format!("z{}", od.0 - OPS)) } else { None },
        };
        let c = 1 + od.n(k as u32) as usize;
        let steps = od.range(1, 4);
        let mut list = vec![];
        for _ in 0..steps {
            let delay = match od.n(6) {
                0 => od.n(400),
                1 => od.n(6000),
                _ => 0,
            };
            let what = od.n(20);
            let mode = if od.chance(p.streams) {
                Mode::Stream
            } else if od.n(2) == 0 {
                Mode::Req
            } else {
                Mode::Fire
            };
            let sp = g.spec(0, mode, true);
            list.push((delay, what, sp));
        }
        let cl = &clients[c - 1];
        let pool = cl.ctxs.clone();
        let single = cl.single.clone();
        if pool.is_none() && single.is_none() {
            continue;
        }
        let fresh_guard = od.n(2) == 0;
        let actor = async move {
            let mut guard = pool.as_ref().map(|p| p.acquire());
            for (delay, what, sp) in list {
                if delay > 0 {
                    tokio::time::sleep(Duration::from_millis(delay as u64)).await;
                }
                if fresh_guard {
                    guard = pool.as_ref().map(|p| p.acquire());
                }
                let ctx: &Context = match &guard {
                    Some(g) => g,
                    None => single.as_ref().unwrap(),
                };
                match what {
                    0 => increment(ctx, c, 2).await,
                    1 => look(ctx, c).await,
                    _ => {}
                }
                perform(ctx, &sp, EmKind::Init, None, c, c, group(), false).await;
            }
        };
        #[cfg(feature = "mt")]
        if p.threads {
            tasks.push(spawn(crate::mt::thread(move || crate::mt::block_on(actor))));
            continue;
        }
        tasks.push(spawn(actor));
    }
    let n_ops = tasks.len();
    let all = futures::future::join_all(tasks);
    let stop_at = if p.stop { Some(d.n(3000)) } else { None };
    if let Some(ms) = stop_at {
        // one client stops in the middle
        let c = 1 + d.n(k as u32) as usize;
        let ctx = match (&clients[c - 1].single, &clients[c - 1].ctxs) {
            (Some(s), _) => Some(s.clone()),
            _ => None,
        };
        if let Some(ctx) = ctx {
            w(|w| {
                w.lossy.insert(c);
            });
            let twice = ctx.clone();
            spawn(async move {
                tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                if let Err(e) = ctx.stop().await {
                    viol(&["C19"], "stop-failed", format!("stop of client {}: {:?}", c, e));
                }
                for _ in 0..3 {
                    tokio::task::yield_now().await;
                }
                slog!("client {} stopped", c);
                w(|w| w.stopped.insert(c, tokio::sim::now_ns()));
                if let Err(e) = twice.stop().await {
                    viol(&["C19"], "stop-again", format!("second stop of client {}: {:?}", c, e));
                }
            });
        }
    }
    let limit = 100_000;
    match tokio::time::timeout(Duration::from_secs(limit), all).await {
        Ok(rs) => {
            for r in rs {
                if let Err(e) = r {
                    if e.is_panic() {
                        slog!("actor panicked");
                    }
                }
            }
        }
        Err(_) => {
            w(|w| {
                for e in &w.ems {
                    if e.st == St::Pending && e.kind == EmKind::Init {
                        let mut tags = vec!["C21"];
                        if w.lossy.contains(&e.client) || p.cut {
                            tags.push("C19");
                        }
                        if e.mode != Mode::Fire {
                            tags.push("C07");
                        }
                        viol(&tags, "hang", format!("emission {} never completes", e.label()));
                    }
                }
            });
        }
    }
    // let everything settle
    let quiet = s.timeout_ms / 1000 * 8 + 40_000;
    tokio::time::sleep(Duration::from_secs(quiet)).await;
    let lens = |_: ()| -> Vec<(usize, usize)> {
        (0..tokio::sim::net::conn_count())
            .map(|c| (tokio::sim::net::tap_len(c, 0), tokio::sim::net::tap_len(c, 1)))
            .collect()
    };
    let a = lens(());
    tokio::time::sleep(Duration::from_secs(50_000)).await;
    if a != lens(()) {
        viol(&["C06"], "not-silent", "traffic goes on although nothing is emitted any more");
    }
    if srv.is_finished() {
        viol(&["C12"], "server-ended", "the server ended");
    }
    #[cfg(feature = "mt")]
    if p.threads {
        crate::mt::stop();
    }
    // lossy connections
    for c in 0..tokio::sim::net::conn_count() {
        if let Some(i) = tokio::sim::net::info(c) {
            if i.rst || i.fin[0] || i.fin[1] || rt::was_cut(c) {
                if !p.cut && !w(|w| conn_client.get(&c).map_or(false, |x| w.lossy.contains(x))) {
                    viol(&["C01", "C21"], "connection-lost", format!("connection {} ended although nobody ended it", c));
                }
                if let Some(x) = conn_client.get(&c) {
                    w(|w| w.lossy.insert(*x));
                }
            }
        }
    }
    if p.cut {
        // a cut may have hit the set-up of a client as well; judge such clients as lossy
        for (i, c) in clients.iter().enumerate() {
            if c.single.is_none() && c.ctxs.is_none() {
                w(|w| w.lossy.insert(i + 1));
            }
        }
    }
    let ck = Check { p: &p, s: &s, short_default: s.timeout_ms < 20_000, conn_client: &conn_client };
    ck.all();
    if n_ops > 0 && w(|w| w.invs.len()) > 0 {
        nontrivial();
    }
    rt::sample(format!(
        "{:?}, clients {:?} (0 = single, n = pool of n), {} actors, {} emissions, {} handler runs, net {:?}",
        s.t, s.clients, n_ops, w(|w| w.ems.len()), w(|w| w.invs.len()), nc
    ));
    drop(clients);
}

// ---------------------------------------------------------------- oracle

#[derive(Clone, Copy, PartialEq, Debug)]
enum Disp {
    Yes,
    No,
    Maybe,
}

pub struct Check<'a> {
    p: &'a Prof,
    s: &'a Setup,
    short_default: bool,
    conn_client: &'a BTreeMap<usize, usize>,
}

fn has_forever(s: &Option<Arc<Script>>) -> bool {
    s.as_ref().map_or(false, |s| s.acts.iter().any(|a| matches!(a, Act::Forever)) || matches!(s.fin, Fin::Panic))
}

impl Check<'_> {
    fn lossy(&self, w: &World, e: &Em) -> bool {
        w.lossy.contains(&e.client)
    }

    fn to(&self, e: &Em) -> usize {
        if e.node == 0 {
            e.client
        } else {
            0
        }
    }

    fn registered(&self, w: &World, e: &Em) -> bool {
        let to = self.to(e);
        w.regs.get(to).map_or(false, |r| r.contains(&(e.nsn(), e.name.clone())))
            || (e.nsn().is_none() && e.name == "error" && w.err_handler.get(to).copied().unwrap_or(false))
    }

    /// Emitted events of a request, in groups.
    fn replies<'w>(&self, w: &'w World, e: &Em) -> Vec<Vec<&'w Em>> {
        let mut out: Vec<Vec<&Em>> = vec![];
        for c in w.ems.iter().filter(|c| c.parent == Some(e.idx) && c.kind == EmKind::Reply && !c.detached) {
            match out.last_mut() {
                Some(g) if g[0].group == c.group => g.push(c),
                _ => out.push(vec![c]),
            }
        }
        out
    }

    fn disp(&self, w: &World, e: &Em) -> Disp {
        let p = match e.parent {
            None => return Disp::Yes,
            Some(p) => &w.ems[p],
        };
        match p.mode {
            Mode::Fire => Disp::Yes,
            _ if p.st != St::Ok => Disp::Maybe,
            _ if e.detached => Disp::Maybe,
            Mode::Req => {
                let g = self.replies(w, p);
                if g.first().map_or(false, |g| g.len() == 1 && g[0].idx == e.idx && e.st == St::Ok) {
                    Disp::No
                } else {
                    Disp::Maybe
                }
            }
            Mode::Stream => Disp::No,
        }
    }

    fn fin_matches(&self, w: &World, e: &Em, g: &Got) -> bool {
        if !self.registered(w, e) {
            return matches!(g, Got::Event(i) if i.ty == EventType::End && i.data.is_empty());
        }
        let s = match &e.script {
            Some(s) => s,
            None => return matches!(g, Got::Event(i) if i.ty == EventType::End && i.data.is_empty()),
        };
        match &s.fin {
            Fin::Empty => matches!(g, Got::Event(i) if i.ty == EventType::End && i.data.is_empty()),
            Fin::Pay(uid, ..) => {
                let f = w.ems.iter().find(|x| x.kind == EmKind::Fin && x.uid == *uid);
                match (f, g) {
                    (Some(f), Got::Event(i)) => i.ty == EventType::End && Some(&i.data) == f.bytes.as_ref(),
                    _ => false,
                }
            }
            Fin::Err(k, uid) => {
                match g {
                    Got::Error(c, m) => *c == 500 && blames(m, *k, *uid),
                    Got::Event(i) => {
                        i.ty == EventType::Error
                            && crate::codec::parse_error(&i.data).map_or(false, |(c, m)| c == 500 && blames(&m, *k, *uid))
                    }
                    _ => false,
                }
            }
            Fin::Panic => false,
        }
    }

    fn reply_matches(&self, w: &World, e: &Em, c: &Em, g: &Got) -> bool {
        let _ = w;
        match g {
            Got::Event(i) => {
                i.ty == EventType::Response
                    && Some(&i.data) == c.bytes.as_ref()
                    && i.name == c.name
                    && i.ns == c.nsn()
                    && c.id.map_or(true, |id| id == i.id)
                    && e.id.map_or(true, |id| i.ref_id == Some(id))
            }
            _ => false,
        }
    }

    pub fn all(&self) {
        // ids of requests become known by what the peer saw
        w(|w| {
            let ids: Vec<(usize, u64)> = w.invs.iter().filter_map(|i| i.em.map(|e| (e, i.item.id))).collect();
            for (e, id) in ids {
                if w.ems[e].id.is_none() {
                    w.ems[e].id = Some(id);
                }
            }
        });
        w(|w| {
            let w = &*w;
            self.dispatches(w);
            self.requests(w);
            self.errors(w);
        });
        self.wire();
    }

    fn dispatches(&self, w: &World) {
        for i in &w.invs {
            if let Some(t) = w.stopped.get(&i.node) {
                // what was read before the stop may still be dispatched
                if i.node != 0 && i.item.t > *t + 1_000_000 {
                    viol(&["C19"], "handler-after-stop", format!("node {} ran handler {:?} after it had stopped", i.node, i.reg));
                }
            }
            if i.item.ty == EventType::End {
                viol(&["C06", "C02"], "end-dispatched", format!("handler {:?} of node {} invoked for a terminal event", i.reg, i.node));
                continue;
            }
            if i.item.ty == EventType::Error {
                if i.reg != (None, "error".to_string()) {
                    viol(&["C02", "C05"], "misrouted", format!("error event handled by {:?} of node {}", i.reg, i.node));
                }
                continue;
            }
            let e = match i.em {
                Some(e) => &w.ems[e],
                None => {
                    viol(&["C01", "C13"], "phantom", format!("handler {:?} of node {} invoked for an event nobody emitted ({} {} B)", i.reg, i.node, i.item.name, i.item.data.len()));
                    continue;
                }
            };
            if i.node != self.to(e) {
                viol(&["C01", "C03", "C18"], "wrong-node", format!("{} handled by node {}", e.label(), i.node));
            }
            if i.reg != (e.nsn(), e.name.clone()) {
                viol(&["C02"], "misrouted", format!("{} handled by {:?} of node {}", e.label(), i.reg, i.node));
            }
            let ty = if e.kind == EmKind::Init { EventType::Initiator } else { EventType::Response };
            if i.item.ty != ty || i.item.name != e.name || i.item.ns != e.nsn() {
                viol(&["C01"], "altered", format!("{} arrived as {:?}", e.label(), i.item));
            }
            if let Some(id) = e.id {
                if id != i.item.id {
                    viol(&["C01"], "altered-id", format!("{} has id {:x}, arrived with {:x}", e.label(), id, i.item.id));
                }
            }
            match e.parent.map(|p| &w.ems[p]) {
                None => {
                    if i.item.ref_id.is_some() {
                        viol(&["C01", "C03"], "altered-ref", format!("{} arrived with a reference", e.label()));
                    }
                }
                Some(p) => {
                    if p.id.is_some() && i.item.ref_id != p.id {
                        viol(&["C01", "C03"], "altered-ref", format!("{} references {:x?} instead of {:x?}", e.label(), i.item.ref_id, p.id));
                    }
                }
            }
            if i.dropped && !self.lossy(w, e) && !has_forever(&e.script) {
                viol(&["C01", "C21"], "handler-dropped", format!("handler for {} was dropped before it finished", e.label()));
            }
        }
        for e in w.ems.iter().filter(|e| e.kind != EmKind::Fin) {
            let n = w.invs.iter().filter(|i| i.em == Some(e.idx)).count();
            let reg = self.registered(w, e);
            let disp = self.disp(w, e);
            let pending_ok = e.st == St::Pending;
            let sure = match e.mode {
                Mode::Fire => e.st == St::Ok,
                _ => e.st == St::Ok,
            };
            if n > 1 {
                viol(&["C01"], "duplicate", format!("{} was dispatched {} times", e.label(), n));
            }
            if n > 0 && !reg {
                viol(&["C02"], "unregistered", format!("{} was handled although nothing is registered for it", e.label()));
            }
            if n > 0 && disp == Disp::No {
                viol(&["C03", "C04"], "reply-dispatched", format!("{} was consumed by the waiter and dispatched to a handler as well", e.label()));
            }
            if n == 0 && reg && sure && disp == Disp::Yes && !self.lossy(w, e) && !pending_ok {
                viol(&["C01"], "lost", format!("{} was emitted but never handled", e.label()));
            }
        }
    }

    fn requests(&self, w: &World) {
        for e in w.ems.iter().filter(|e| e.mode != Mode::Fire && e.kind != EmKind::Fin) {
            let reg = self.registered(w, e);
            let lossy = self.lossy(w, e);
            let groups = self.replies(w, e);
            let handled = w.invs.iter().filter(|i| i.em == Some(e.idx)).count();
            let timeout_fine = lossy
                || self.short_default
                || e.timeout_ms.is_some()
                || (reg && has_forever(&e.script));
            let mut tags: Vec<&str> = if handled == 0 && reg { vec!["C01", "C21"] } else if !reg { vec!["C02", "C06"] } else { vec!["C03", "C06", "C21"] };
            if e.mode == Mode::Stream && handled > 0 {
                tags.push("C04");
            }
            if handled > 0 && matches!(e.script.as_ref().map(|s| &s.fin), Some(Fin::Err(..))) {
                tags.push("C05");
            }
            match &e.st {
                St::Err(m) if !lossy => {
                    viol(&["C03", "C21", "C09"], "request-failed", format!("{} failed: {}", e.label(), m));
                    continue;
                }
                St::Timeout if !timeout_fine => {
                    viol(&tags, "unanswered", format!("{} timed out (handler runs: {})", e.label(), handled));
                    continue;
                }
                _ => {}
            }
            if let (St::Timeout, Some(ms)) = (&e.st, e.timeout_ms) {
                if e.t1 - e.t0 < ms as u64 * 1_000_000 {
                    viol(&["C07"], "early-timeout", format!("{} timed out after {} ms of {} ms", e.label(), (e.t1 - e.t0) / 1_000_000, ms));
                }
            }
            match e.mode {
                Mode::Req => {
                    let g = match e.got.first() {
                        Some(g @ (Got::Event(_) | Got::Error(..))) => g,
                        _ => continue,
                    };
                    let mut ok = false;
                    let mut sure = false;
                    if reg {
                        for grp in &groups {
                            ok |= grp.iter().any(|c| self.reply_matches(w, e, c, g));
                            if grp.iter().any(|c| c.st == St::Ok) {
                                sure = true;
                                break;
                            }
                        }
                    }
                    if !ok && !sure {
                        ok = self.fin_matches(w, e, g) && self.ref_ok(e, g);
                    }
                    if !ok {
                        let mut tags = vec!["C03"];
                        if !reg {
                            tags.extend(["C02", "C06"]);
                        }
                        if let Some(Fin::Err(..)) = e.script.as_ref().map(|s| &s.fin) {
                            tags.push("C05");
                        }
                        if matches!(g, Got::Error(..)) {
                            tags.push("C05");
                        }
                        viol(&tags, "wrong-reply", format!("{} was resolved with {}", e.label(), brief(g)));
                    }
                }
                Mode::Stream => self.stream(w, e, reg, &groups),
                Mode::Fire => {}
            }
        }
    }

    fn ref_ok(&self, e: &Em, g: &Got) -> bool {
        match (g, e.id) {
            (Got::Event(i), Some(id)) => i.ref_id == Some(id),
            _ => true,
        }
    }

    fn stream(&self, w: &World, e: &Em, reg: bool, groups: &[Vec<&Em>]) {
        let mut it = e.got.iter().peekable();
        let bad = |what: String| {
            let mut tags = vec!["C04"];
            if !reg {
                tags.extend(["C02", "C06"]);
            }
            if let Some(Fin::Err(..)) = e.script.as_ref().map(|s| &s.fin) {
                if reg {
                    tags.push("C05");
                }
            }
            viol(&tags, "stream-items", format!("stream of {}: {}; items {:?}", e.label(), what, e.got.iter().map(brief).collect::<Vec<_>>()));
        };
        let partial = e.st != St::Ok;
        if reg {
            for g in groups {
                let mut left: Vec<&&Em> = g.iter().collect();
                loop {
                    let cur = match it.peek() {
                        Some(c) => *c,
                        None => break,
                    };
                    match left.iter().position(|c| self.reply_matches(w, e, c, cur)) {
                        Some(p) => {
                            left.remove(p);
                            it.next();
                            if left.is_empty() {
                                break;
                            }
                        }
                        None => break,
                    }
                }
                let missing = left.iter().any(|c| c.st == St::Ok);
                if missing {
                    match it.peek() {
                        None if partial => return,
                        Some(Got::Timeout) | Some(Got::Fail(_)) if partial => return,
                        // after a loss the channel just stays silent until the deadline
                        x => {
                            bad(format!("a reply is missing or out of order; next is {:?}", x.map(|g| brief(g))));
                            return;
                        }
                    }
                }
            }
        }
        match it.next() {
            None if partial => return,
            Some(Got::Timeout) if partial => return,
            Some(g) if self.fin_matches(w, e, g) => {
                if !self.ref_ok(e, g) {
                    bad("terminal event of another request".into());
                }
            }
            g => {
                bad(format!("expected the final response, got {:?}", g.map(brief)));
                return;
            }
        }
        match it.next() {
            Some(Got::None) => {}
            None if partial => {}
            g => bad(format!("expected the end of the stream, got {:?}", g.map(brief))),
        }
    }

    fn errors(&self, w: &World) {
        // error reports that went to an error handler
        for i in w.invs.iter().filter(|i| i.item.ty == EventType::Error) {
            let src = w.ems.iter().find(|e| e.id.is_some() && e.id == i.item.ref_id);
            match (src, &i.err) {
                (Some(e), Some((code, msg))) => {
                    let ok = self.registered(w, e)
                        && match e.script.as_ref().map(|s| &s.fin) {
                            Some(Fin::Err(k, uid)) => *code == 500 && blames(msg, *k, *uid),
                            _ => false,
                        };
                    if !ok {
                        viol(&["C05"], "wrong-error", format!("{} was reported as failed: {} {}", e.label(), code, msg));
                    }
                    if e.node != i.node {
                        viol(&["C05"], "error-node", format!("failure of {} reported to node {}", e.label(), i.node));
                    }
                }
                _ => {
                    // a request's id is only known if it was handled
                    viol(&["C05"], "stray-error", format!("error report {:?} for nothing", i.err));
                }
            }
        }
        for e in w.ems.iter().filter(|e| e.mode == Mode::Fire && e.kind != EmKind::Fin && e.id.is_some()) {
            let n = w.invs.iter().filter(|i| i.item.ty == EventType::Error && i.item.ref_id == e.id).count();
            let h = w.invs.iter().find(|i| i.em == Some(e.idx));
            let fails = matches!(e.script.as_ref().map(|s| &s.fin), Some(Fin::Err(..)));
            let expect = h.map_or(false, |h| h.done) && fails && w.err_handler[e.node];
            if n > 1 || (n == 1 && !fails) {
                viol(&["C05"], "error-count", format!("{} error reports for {}", n, e.label()));
            }
            if n == 0 && expect && !self.lossy(w, e) {
                viol(&["C05"], "error-missing", format!("the failure of {} was not reported", e.label()));
            }
        }
    }

    /// No payload may be seen on an encrypted connection.
    fn clear(&self, conn: usize) {
        if !self.s.t.encrypted() {
            return;
        }
        let seen = w(|w| {
            let mut set = std::collections::HashSet::new();
            for b in w.by_bytes.keys().filter(|b| b.len() >= 12) {
                for at in [0, b.len() / 2 - 4, b.len() - 8] {
                    let x: [u8; 8] = b[at..at + 8].try_into().unwrap();
                    if x.iter().any(|y| *y != x[0]) {
                        set.insert(x);
                    }
                }
            }
            set
        });
        for dir in 0..2 {
            let tap = tokio::sim::net::tap(conn, dir);
            if let Some(x) = tap.windows(8).find(|x| seen.contains(*x)) {
                viol(&["C16"], "clear-text", format!("application data {:02x?} is on the wire of connection {} direction {} in clear", x, conn, dir));
            }
        }
    }

    /// What the bytes on the connections say.
    fn wire(&self) {
        for (conn, client) in self.conn_client {
            let lossy = w(|w| w.lossy.contains(client));
            self.clear(*conn);
            let plain = match wire::plaintext(*conn, self.s.t, &self.s.keys, *client) {
                Some(p) => p,
                None => {
                    stat("probe:wire not decodable", 1);
                    continue;
                }
            };
            let mut frames: [Vec<crate::codec::Frame>; 2] = [vec![], vec![]];
            for dir in 0..2 {
                let (f, used, e) = crate::codec::decode_all(&plain[dir]);
                if let Some(e) = e {
                    viol(&["C09"], "bad-frame", format!("connection {} direction {}: after {} bytes ({} frames): {}", conn, dir, used, f.len(), e));
                } else if used != plain[dir].len() && !lossy {
                    viol(&["C09", "C01"], "partial-frame", format!("connection {} direction {} ends in the middle of a frame", conn, dir));
                }
                stat("probe:frames on the wire", f.len() as u64);
                frames[dir] = f;
            }
            w(|w| {
                let mut ids = BTreeSet::new();
                let mut of: BTreeMap<usize, (usize, usize)> = BTreeMap::new();
                for dir in 0..2 {
                    for (pos, f) in frames[dir].iter().enumerate() {
                        if !ids.insert(f.id) {
                            viol(&["C17", "C09"], "duplicate-id", format!("two events with id {:x} on connection {}", f.id, conn));
                        }
                        if f.ver[0] != 0 {
                            viol(&["C09"], "layout", format!("version {:?}, {} extra header bytes", f.ver, f.ext.len()));
                        }
                        if f.ty >= crate::codec::END {
                            continue;
                        }
                        let em = if f.data.is_empty() { w.zname.get(&f.name) } else { w.by_bytes.get(&f.data) };
                        let e = match em {
                            Some(e) => &mut w.ems[*e],
                            None => {
                                viol(&["C09"], "unknown-frame", format!("frame {:?} {} B on connection {} encodes no emitted event", f.name, f.data.len(), conn));
                                continue;
                            }
                        };
                        if of.insert(e.idx, (dir, pos)).is_some() {
                            viol(&["C09", "C01"], "frame-twice", format!("{} was written twice", e.label()));
                        }
                        if e.id.is_some() && e.id != Some(f.id) {
                            viol(&["C01", "C09"], "altered-id", format!("{} has id {:x?} but {:x} on the wire", e.label(), e.id, f.id));
                        }
                        e.id = Some(f.id);
                        let ty = if e.kind == EmKind::Init { 0 } else { 1 };
                        if f.ty != ty || f.name != e.name || f.ns != e.nsn() {
                            viol(&["C09"], "frame-fields", format!("{} is encoded as {:?}", e.label(), (f.ty, &f.ns, &f.name)));
                        }
                        let d = if e.node == 0 { 1 } else { 0 };
                        if d != dir || e.client != *client {
                            viol(&["C09", "C18"], "wrong-wire", format!("{} appears on connection {} direction {}", e.label(), conn, dir));
                        }
                    }
                }
                for (e, (dir, pos)) in &of {
                    let e = &w.ems[*e];
                    if let Some(p) = e.parent {
                        let want = w.ems[p].id;
                        if want.is_some() && frames[*dir][*pos].ref_id != want {
                            viol(&["C03", "C09"], "frame-ref", format!("{} references {:x?} on the wire instead of {:x?}", e.label(), frames[*dir][*pos].ref_id, want));
                        }
                    } else if frames[*dir][*pos].ref_id.is_some() {
                        viol(&["C03", "C09"], "frame-ref", format!("{} has a reference on the wire", e.label()));
                    }
                }
                // answers
                let w = &*w;
                for dir in 0..2 {
                    let mut terms: BTreeMap<u64, Vec<usize>> = BTreeMap::new();
                    for (pos, f) in frames[1 - dir].iter().enumerate() {
                        if f.ty >= crate::codec::END {
                            match f.ref_id {
                                Some(r) => terms.entry(r).or_default().push(pos),
                                None => viol(&["C06", "C09"], "terminal-without-ref", "terminal event without reference"),
                            }
                        }
                    }
                    for f in &frames[dir] {
                        let t = terms.remove(&f.id).unwrap_or_default();
                        let (disp, answered, em) = if f.ty == crate::codec::END {
                            (Disp::No, false, None)
                        } else if f.ty == crate::codec::ERR {
                            // waiting requests consume it, otherwise the error handler gets it
                            let p = w.ems.iter().find(|e| e.id.is_some() && e.id == f.ref_id);
                            let d = match p {
                                Some(p) if p.mode == Mode::Fire => Disp::Yes,
                                Some(p) if p.st == St::Ok && p.mode == Mode::Stream => Disp::No,
                                Some(p) if p.st == St::Ok && matches!(p.got.first(), Some(Got::Error(..))) => Disp::No,
                                _ => Disp::Maybe,
                            };
                            (d, true, None)
                        } else {
                            let em = if f.data.is_empty() { w.zname.get(&f.name) } else { w.by_bytes.get(&f.data) };
                            let e = match em {
                                Some(e) => &w.ems[*e],
                                None => continue,
                            };
                            // a handler that writes to a stopped connection may wait for it
                            let across = !w.lossy.is_empty()
                                && e.script.as_ref().map_or(false, |s| s.acts.iter().any(|a| matches!(a, Act::Cross(_))));
                            let never = self.registered(w, e) && (has_forever(&e.script) || across);
                            (self.disp(w, e), !never, Some(e))
                        };
                        // a request consumes its own answer, but it is answered
                        let name = em.map(|e| e.label()).unwrap_or_else(|| format!("event {:x} of type {}", f.id, f.ty));
                        if t.len() > 1 {
                            viol(&["C06"], "two-terminals", format!("{} is answered by {} terminal events", name, t.len()));
                        }
                        match disp {
                            Disp::No if !t.is_empty() => {
                                viol(&["C06"], "answered", format!("{} is answered although it was not dispatched", name))
                            }
                            Disp::Yes if t.is_empty() && answered && !lossy => {
                                // was it transmitted at all by an abandoned emit? it is on the wire, so yes
                                viol(&["C06"], "no-terminal", format!("{} is never answered by a terminal event", name))
                            }
                            Disp::Maybe if !t.is_empty() => {}
                            _ => {}
                        }
                        if let (Some(e), Some(pos)) = (em, t.first()) {
                            let tf = &frames[1 - dir][*pos];
                            let g = match tf.ty {
                                crate::codec::ERR => {
                                    let (c, m) = crate::codec::parse_error(&tf.data).unwrap_or((0, String::new()));
                                    Got::Error(c, m)
                                }
                                _ => Got::Event(Item { id: tf.id, ty: EventType::End, ref_id: tf.ref_id, ns: None, name: tf.name.clone(), data: tf.data.clone(), t: 0 }),
                            };
                            if !self.fin_matches(w, e, &g) {
                                let mut tags = vec!["C06"];
                                if matches!(e.script.as_ref().map(|s| &s.fin), Some(Fin::Err(..))) || tf.ty == crate::codec::ERR {
                                    tags.push("C05");
                                }
                                viol(&tags, "wrong-terminal", format!("{} is answered by {}", name, brief(&g)));
                            }
                            if self.registered(w, e) {
                                for c in w.ems.iter().filter(|c| c.parent == Some(e.idx) && c.kind == EmKind::Reply && !c.detached) {
                                    if let Some((cd, cp)) = of.get(&c.idx) {
                                        if *cd == 1 - dir && cp > pos && c.st != St::Abandoned {
                                            viol(&["C06"], "reply-after-terminal", format!("{} was written after the terminal event of {}", c.label(), name));
                                        }
                                    }
                                }
                            }
                        }
                    }
                    if !terms.is_empty() {
                        viol(&["C06"], "stray-terminal", format!("terminal events for unknown events {:x?} on connection {}", terms.keys().collect::<Vec<_>>(), conn));
                    }
                }
            });
        }
        // every completed emission is on some wire
    }
}

// ---------------------------------------------------------------- profiles

fn setup(p: &Prof) -> (NetCfg, Setup) {
    let d = cfg();
    let t = net::pick_transport(d);
    let k = d.range(1, 3) as usize;
    let clients: Vec<usize> = (0..k).map(|_| if d.chance(p.pool) { *d.pick(&[1usize, 2, 3, 2, 3, 3, 1, 2, 6, 9]) } else { 0 }).collect();
    let mut nc = net::net_cfg(d);
    if d.chance(20) {
        nc.stalls = 30;
    }
    if !p.cut && !p.short_timeouts && D(221).chance(if p.abandon { 40 } else { 8 }) {
        nc.stalls = 60;
    }
    if p.cut {
        nc.cuts = 30;
    }
    let keys = KeySetup {
        base: d.u64(),
        clients: k,
        server_allow: d.chance(50),
        client_allow: d.chance(50),
        ttl: if d.chance(30) { Some(d.range(1, 250)) } else { None },
    };
    let timeout_ms = if p.short_timeouts && d.chance(60) { *d.pick(&[300u64, 1, 5000]) } else if p.cut { 30_000 } else { 3_000_000 };
    (nc, Setup { t, keys, clients, timeout_ms })
}

async fn go(p: Prof) {
    let p = if rt::control() { Prof { cut: false, stop: false, abandon: false, ..p } } else { p };
    if p.cut || p.stop {
        rt::also(&["C19"]);
    }
    let (nc, s) = setup(&p);
    let t = s.t;
    slog!("setup {:?} clients {:?} timeout {} net {:?}", t, s.clients, s.timeout_ms, nc);
    stat(&format!("probe:transport {:?}", t), 1);
    with_transport!(t, mesh(p, nc, s));
}

pub fn base_prof() -> Prof {
    Prof {
        cut: false,
        short_timeouts: false,
        abandon: false,
        endless: false,
        streams: 25,
        nested: 30,
        max_payload: 70_000,
        ops: (1, 8),
        pool: 35,
        errors: 25,
        unregistered: true,
        stop: false,
        threads: false,
    }
}

pub async fn plain() {
    rt::primary(&["C01", "C02", "C03", "C04", "C05", "C06", "C09", "C21", "C22", "C23", "C18"]);
    go(base_prof()).await
}

pub async fn streams() {
    rt::primary(&["C04", "C21"]);
    go(Prof { streams: 80, ops: (1, 5), ..base_prof() }).await
}

pub async fn crowd() {
    rt::primary(&["C01", "C21", "C03"]);
    go(Prof { ops: (10, 40), max_payload: 3000, nested: 60, ..base_prof() }).await
}

pub async fn cancel() {
    rt::primary(&["C08"]);
    go(Prof { abandon: true, ..base_prof() }).await
}

pub async fn timeouts() {
    rt::primary(&["C07", "C04", "C20"]);
    go(Prof { short_timeouts: true, ..base_prof() }).await
}

pub async fn cuts() {
    rt::primary(&["C19", "C01"]);
    go(Prof { cut: true, ..base_prof() }).await
}

pub async fn stops() {
    rt::primary(&["C19"]);
    go(Prof { stop: true, pool: 10, ..base_prof() }).await
}

pub async fn endless() {
    rt::primary(&["C21", "C12", "C05"]);
    go(Prof { endless: true, short_timeouts: true, ..base_prof() }).await
}

#[cfg(feature = "mt")]
pub async fn threads() {
    rt::primary(&["C01", "C03", "C05", "C18", "C21"]);
    let d = D(201);
    let (ops, streams) = *d.pick(&[((2, 8), 25), ((6, 16), 25), ((2, 6), 70), ((2, 8), 0)]);
    go(Prof { threads: true, ops, streams, abandon: d.chance(15), max_payload: *d.pick(&[300u32, 3000, 70_000]), ..base_prof() }).await
}
