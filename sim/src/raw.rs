//! Raw peers: an independent implementation of the binary layout talks to a real server or client.

use crate::codec::{self, Frame};
use crate::net::{self, KeySetup, Tp, T};
use crate::rt::{self, cfg, nontrivial, ops, stat, viol, D};
use crate::slog;
use crate::world::{item, raw as rawdata, spawn, Ass, Got, Item, Mode};
use bromine::error_event::ErrorEventData;
use bromine::event::EventType;
use bromine::prelude::*;
use bytes::Bytes;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::pin::Pin;
use std::rc::Rc;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt};
use tokio::net::{TcpListener, TcpStream, UnixListener, UnixStream};

pub trait Io: AsyncRead + AsyncWrite + Unpin {}
impl<X: AsyncRead + AsyncWrite + Unpin> Io for X {}
pub type BoxIo = Box<dyn Io>;

pub async fn raw_connect(t: T, n: u16) -> std::io::Result<BoxIo> {
    Ok(match t {
        t if t.tcp() => Box::new(TcpStream::connect(net::tcp_addr(n)).await?),
        _ => Box::new(UnixStream::connect(net::unix_addr(n)).await?),
    })
}

pub enum RawListener {
    Tcp(TcpListener),
    Unix(UnixListener),
}

impl RawListener {
    pub async fn bind(t: T, n: u16) -> RawListener {
        match t {
            t if t.tcp() => RawListener::Tcp(TcpListener::bind(net::tcp_addr(n)).await.unwrap()),
            _ => RawListener::Unix(UnixListener::bind(net::unix_addr(n)).unwrap()),
        }
    }
    pub async fn accept(&self) -> std::io::Result<BoxIo> {
        Ok(match self {
            RawListener::Tcp(l) => Box::new(l.accept().await?.0),
            RawListener::Unix(l) => Box::new(l.accept().await?.0),
        })
    }
}

type Reg = (Option<String>, String);

#[derive(Clone, Debug)]
struct RInv {
    reg: Reg,
    item: Item,
    err: Option<String>,
}

#[derive(Clone, Debug)]
struct Sent {
    f: Frame,
    /// time at which its last byte was written
    t: u64,
    /// sent after the first malformed byte (or the end) of the connection
    after_bad: bool,
}

#[derive(Default)]
struct RC {
    sim: usize,
    sent: Vec<Sent>,
    bytes: Vec<u8>,
    recv: Vec<(u64, Frame)>,
    recv_raw: Vec<u8>,
    recv_bad: Option<String>,
    eof: bool,
    bad: bool,
    shut: bool,
    write_failed: bool,
    w: Option<Rc<tokio::sync::Mutex<tokio::io::WriteHalf<BoxIo>>>>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum AnsKind {
    Reply,
    End,
    Error,
    BadError,
}

#[derive(Clone, Debug)]
struct Ans {
    delay: u32,
    kind: AnsKind,
    ns: Option<String>,
    name: String,
    size: usize,
    ext: usize,
    ver: [u8; 3],
}

struct RReq {
    conn: usize,
    uid: u64,
    mode: Mode,
    ns: Option<String>,
    name: String,
    data: Vec<u8>,
    timeout: u64,
    t0: u64,
    /// emission finished
    tw: Option<u64>,
    /// when the consumer began to wait for each item
    starts: Vec<u64>,
    plan: Vec<Ans>,
    /// written answers: time, frame
    answers: Vec<(u64, Frame)>,
    got: Vec<(u64, Got)>,
    /// must fail without writing anything
    impossible: bool,
    done: bool,
    polled_late: Option<u64>,
    broken: bool,
}

#[derive(Default)]
struct Raw {
    invs: Vec<RInv>,
    conns: Vec<RC>,
    reqs: Vec<RReq>,
    regs: BTreeSet<Reg>,
    own_err: bool,
    server: bool,
    stash: BTreeMap<u64, Context>,
    next_uid: u64,
    /// sizes that keep a run short
    max: usize,
    ping_fail: Option<String>,
    pings: u64,
    malformed: u64,
}

thread_local! {
    static RW: RefCell<Raw> = RefCell::new(Raw::default());
}
fn rw<R>(f: impl FnOnce(&mut Raw) -> R) -> R {
    RW.with(|w| f(&mut w.borrow_mut()))
}

fn uid() -> u64 {
    rw(|r| {
        r.next_uid += 1;
        0x7700_0000_0000_0000 + r.next_uid
    })
}

// ---------------------------------------------------------------- handlers of the real node

const EMPTY: u8 = 0;
const ECHO: u8 = 1;
const FAIL: u8 = 2;
const REPLIES: u8 = 3;
const SLOW: u8 = 4;
const STASH: u8 = 5;
const DECODE: u8 = 6;
const PANIC: u8 = 7;
const FOREVER: u8 = 8;

fn cmd(data: &[u8]) -> (u64, u8, u8) {
    if data.len() >= 10 && data[0] == 0x77 {
        (u64::from_be_bytes(data[..8].try_into().unwrap()), data[8], data[9])
    } else {
        (0, EMPTY, 0)
    }
}

/// what a failing handler says
fn boom(uid: u64, param: u8) -> String {
    format!("boom-{}-{}.", uid, "xyz456 ".repeat(param as usize * param as usize))
}

fn body(uid: u64, kind: u8, param: u8, size: usize) -> Vec<u8> {
    let mut v = uid.to_be_bytes().to_vec();
    v.push(kind);
    v.push(param);
    let extra = rawdata(uid ^ 99, size);
    if size > v.len() {
        v.extend_from_slice(&extra[v.len()..]);
    }
    v
}

fn rhandle<'a>(reg: Reg, ctx: &'a Context, ev: Event) -> Pin<Box<dyn std::future::Future<Output = IPCResult<Response>> + Send + 'a>> {
    Box::pin(Ass(async move {
        let it = item(&ev);
        slog!("real node: handler {:?} runs for {:x} {:?} {} B", reg, it.id, it.ty, it.data.len());
        stat("probe:handler invocations", 1);
        let err = if it.ty == EventType::Error {
            Some(format!("{:?}", ev.payload::<ErrorEventData>().map(|e| (e.code, e.message))))
        } else {
            None
        };
        rw(|r| r.invs.push(RInv { reg, item: it.clone(), err }));
        if it.ty == EventType::Error {
            let bad = ev.payload::<ErrorEventData>().map_or(false, |e| e.code == 666);
            return if bad { Err(IPCError::from("the error handler fails")) } else { Ok(Response::empty()) };
        }
        let (uid, kind, param) = cmd(&it.data);
        match kind {
            ECHO => ctx.response(BytePayload::new(it.data)),
            FAIL => Err(IPCError::Message(boom(uid, param))),
            REPLIES => {
                for i in 0..param {
                    ctx.emit("r", BytePayload::new(body(uid, EMPTY, i, 12))).await?;
                }
                Ok(Response::empty())
            }
            SLOW => {
                tokio::time::sleep(Duration::from_millis(param as u64 * 10)).await;
                ctx.response(BytePayload::new(it.data))
            }
            STASH => {
                rw(|r| r.stash.insert(uid, ctx.clone()));
                Ok(Response::empty())
            }
            DECODE => {
                decode_everything(&ev);
                decode_part(&ev, &it.data[10..]);
                Ok(Response::empty())
            }
            PANIC => panic!("SIMPANIC handler"),
            FOREVER => {
                futures::future::pending::<()>().await;
                unreachable!()
            }
            _ => Ok(Response::empty()),
        }
    }))
}

/// No decoding panics, aborts or takes more memory than there are bytes.
fn decode_everything(ev: &Event) {
    let _ = ev.payload::<BytePayload>();
    let _ = ev.payload::<ErrorEventData>();
    let _ = ev.payload::<TandemPayload<BytePayload, BytePayload>>();
    let _ = ev.payload::<TandemPayload<ErrorEventData, TandemPayload<BytePayload, ErrorEventData>>>();
    #[cfg(feature = "full")]
    {
        use crate::world::Val;
        let _ = ev.payload::<Val>();
        let _ = ev.payload::<Vec<u64>>();
        let _ = ev.payload::<String>();
        let _ = ev.payload::<Option<Vec<Vec<u8>>>>();
        let _ = ev.payload::<BTreeMap<String, u64>>();
        let _ = ev.payload::<SerdePayload<(u8, Vec<String>)>>();
        let _ = ev.payload::<TandemPayload<Val, Vec<String>>>();
        let _ = ev.payload::<TandemPayload<BytePayload, SerdePayload<String>>>();
    }
    stat("probe:hostile payloads decoded", 1);
}

/// The hostile part of a payload by itself.
fn decode_part(_ev: &Event, part: &[u8]) {
    let e = Event::initiator(None, "part".into(), Bytes::from(part.to_vec()));
    decode_everything(&e);
}

fn regs_of(d: D) -> (BTreeSet<Reg>, bool) {
    let mut regs = BTreeSet::new();
    for n in ["a", "b", "end", "ping", "hello", "ü", "", " a", "A"] {
        if n == "ping" || n == "hello" || !d.chance(20) {
            regs.insert((None, n.to_string()));
        }
    }
    for ns in ["n0", "n1", "N0", " "] {
        if d.chance(25) {
            continue;
        }
        for n in ["a", "b", "error", "a "] {
            if !d.chance(25) {
                regs.insert((Some(ns.to_string()), n.to_string()));
            }
        }
    }
    (regs, !d.chance(40))
}

fn with_regs<L: Tp>(mut b: IPCBuilder<L>, regs: &BTreeSet<Reg>, own_err: bool) -> IPCBuilder<L> {
    let mut nss: BTreeMap<String, EventHandler> = BTreeMap::new();
    for r in regs {
        let reg = r.clone();
        match &r.0 {
            None => b = b.on(&r.1, hnd(reg)),
            Some(ns) => nss.entry(ns.clone()).or_default().on(&r.1, hnd(reg)),
        }
    }
    for (n, h) in nss {
        b = b.add_namespace(Namespace::new(n, h));
    }
    if own_err {
        b = b.on("error", hnd((None, "error".into())));
    }
    b
}

fn hnd(reg: Reg) -> impl for<'a> Fn(&'a Context, Event) -> Pin<Box<dyn std::future::Future<Output = IPCResult<Response>> + Send + 'a>> + Send + Sync + 'static {
    move |ctx, ev| rhandle(reg.clone(), ctx, ev)
}

// ---------------------------------------------------------------- the raw side

/// Writes bytes, in pieces if asked to. The time of the last byte is returned.
async fn write_bytes(c: usize, b: &[u8], pieces: &[(usize, u32)]) -> bool {
    let w = match rw(|r| r.conns[c].w.clone()) {
        Some(w) => w,
        None => return false,
    };
    let mut w = w.lock().await;
    if rw(|r| r.conns[c].shut) {
        return false;
    }
    rw(|r| r.conns[c].bytes.extend_from_slice(b));
    let mut p = 0;
    for (at, ms) in pieces {
        let at = (*at).min(b.len()).max(p);
        if w.write_all(&b[p..at]).await.is_err() {
            rw(|r| r.conns[c].write_failed = true);
            return false;
        }
        p = at;
        if *ms > 0 {
            tokio::time::sleep(Duration::from_millis(*ms as u64)).await;
        } else {
            tokio::task::yield_now().await;
        }
    }
    if w.write_all(&b[p..]).await.is_err() || w.flush().await.is_err() {
        rw(|r| r.conns[c].write_failed = true);
        return false;
    }
    true
}

async fn send(c: usize, f: Frame, pieces: &[(usize, u32)]) -> bool {
    let b = f.encode();
    slog!("raw {} sends {:x} type {} ref {:x?} {:?}::{} {} B, ext {} ver {:?}", c, f.id, f.ty, f.ref_id, f.ns, f.name, f.data.len(), f.ext.len(), f.ver);
    let i = rw(|r| {
        let bad = r.conns[c].bad;
        r.conns[c].sent.push(Sent { f, t: u64::MAX, after_bad: bad });
        r.conns[c].sent.len() - 1
    });
    let ok = write_bytes(c, &b, pieces).await;
    let now = tokio::sim::now_ns();
    rw(|r| {
        let s = &mut r.conns[c].sent[i];
        s.t = now;
        s.after_bad |= !ok;
    });
    ok
}

fn add_conn(io: BoxIo, sim: usize) -> usize {
    let (mut r, wh) = tokio::io::split(io);
    let c = rw(|x| {
        x.conns.push(RC { sim, w: Some(Rc::new(tokio::sync::Mutex::new(wh))), ..Default::default() });
        x.conns.len() - 1
    });
    spawn(async move {
        let mut pending: Vec<u8> = vec![];
        let mut buf = vec![0u8; 4096];
        loop {
            let n = match r.read(&mut buf).await {
                Ok(0) | Err(_) => break,
                Ok(n) => n,
            };
            pending.extend_from_slice(&buf[..n]);
            rw(|x| x.conns[c].recv_raw.extend_from_slice(&buf[..n]));
            loop {
                match codec::decode_one(&pending) {
                    Ok(Some((f, n))) => {
                        pending.drain(..n);
                        received(c, f);
                    }
                    Ok(None) => break,
                    Err(e) => {
                        rw(|x| x.conns[c].recv_bad = Some(e));
                        return;
                    }
                }
            }
        }
        rw(|x| x.conns[c].eof = true);
        if !pending.is_empty() {
            rw(|x| x.conns[c].recv_bad = Some(format!("{} bytes of an incomplete frame at the end", pending.len())));
        }
        slog!("raw {} sees the end", c);
    });
    c
}

/// A frame from the real node: answered as planned.
fn received(c: usize, f: Frame) {
    slog!("raw {} receives {:x} type {} ref {:x?} {:?}::{} {} B", c, f.id, f.ty, f.ref_id, f.ns, f.name, f.data.len());
    let now = tokio::sim::now_ns();
    let (u, _, _) = cmd(&f.data);
    let plan = rw(|r| {
        r.conns[c].recv.push((now, f.clone()));
        r.reqs.iter().position(|q| q.uid == u && q.data == f.data && f.ty < codec::END).map(|i| (i, r.reqs[i].plan.clone()))
    });
    if let Some((i, plan)) = plan {
        if plan.is_empty() {
            return;
        }
        let id = f.id;
        // a peer of another connection answers what it was not asked
        let d = D(220);
        let others: Vec<usize> = rw(|r| (0..r.conns.len()).filter(|o| *o != c && r.conns[*o].w.is_some() && !r.conns[*o].shut).collect());
        // (the connections of a pool belong to one peer, and share their listeners)
        if rw(|r| r.server) && !others.is_empty() && d.n(4) == 0 {
            let o = *d.pick(&others);
            let u = uid();
            let (ns, name) = address(d);
            let mut g = Frame::new(u, codec::RESP, Some(id), ns.as_deref(), &name, body(u, *d.pick(&[EMPTY, ECHO]), 0, if d.n(6) == 0 { (*d.pick(&[65_536usize, 1 << 20, 70_000, 8192])).min(rw(|r| r.max)) } else { d.n(60) as usize }));
            match d.n(4) {
                0 => g.ty = codec::END,
                1 => {
                    g.ty = codec::ERR;
                    g.ns = None;
                    g.name = "error".into();
                    g.data = codec::error_payload(77, &format!("stray-{}", u));
                }
                _ => {}
            }
            stat("probe:answers from the peer of another connection", 1);
            spawn(async move {
                send(o, g, &[]).await;
            });
        }
        let max = rw(|r| r.max);
        spawn(async move {
            let t0 = tokio::sim::now_ns();
            for a in plan {
                let at = t0 + a.delay as u64 * 1_000_000;
                let now = tokio::sim::now_ns();
                if at > now {
                    tokio::time::sleep(Duration::from_nanos(at - now)).await;
                }
                let u = uid();
                let (ty, data) = match a.kind {
                    AnsKind::Reply if a.size == 0 => (codec::RESP, vec![]),
                    AnsKind::End if a.size == 0 => (codec::END, vec![]),
                    AnsKind::Reply => (codec::RESP, body(u, ECHO, 0, a.size.min(max))),
                    AnsKind::End => (codec::END, body(u, EMPTY, 0, a.size.min(max))),
                    AnsKind::Error => (codec::ERR, codec::error_payload(500, &format!("remote-{}", u))),
                    AnsKind::BadError => (codec::ERR, match u % 3 {
                        0 => vec![1, 2, 0xff, 0xff, 0xff, 0xff, 7],
                        1 => vec![],
                        _ => vec![0, 9, 0, 0, 0, 2, 0xc3, 0x28],
                    }),
                };
                let mut g = Frame::new(u ^ 0x1111_0000_0000_0000, ty, Some(id), a.ns.as_deref(), &a.name, data);
                g.ext = vec![0xAB; a.ext];
                g.ver = a.ver;
                // the order on the wire is the order of this list
                let ok = send(c, g.clone(), &[]).await;
                let now = tokio::sim::now_ns();
                if ok {
                    rw(|r| r.reqs[i].answers.push((now, g)));
                } else {
                    rw(|r| r.reqs[i].broken = true);
                }
            }
        });
    }
}

fn pieces(d: D, len: usize) -> Vec<(usize, u32)> {
    let n = *d.pick(&[0u32, 0, 1, 2, 5]);
    let mut v: Vec<(usize, u32)> = (0..n)
        .map(|_| {
            let at = if d.n(2) == 0 { d.n(40) as usize } else { d.n(len as u32 + 1) as usize };
            (at, *d.pick(&[0u32, 0, 1, 3, 200]))
        })
        .collect();
    v.sort();
    v
}

fn version(d: D) -> [u8; 3] {
    match d.n(4) {
        _ if rt::control() => [0, 9, 0],
        0 => [0, d.n(256) as u8, d.n(256) as u8],
        1 => [0, 9, d.n(256) as u8],
        _ => [0, 9, 0],
    }
}

fn ext(d: D) -> usize {
    match d.n(5) {
        _ if rt::control() => 0,
        0 => d.n(20) as usize,
        1 => d.n(300) as usize,
        _ => 0,
    }
}

fn address(d: D) -> Reg {
    match d.n(12) {
        10 => (Some(crate::world::near(d, *d.pick(&["n0", "n1"]))), d.pick(&["a", "b", "error"]).to_string()),
        11 => {
            let ns = if d.n(2) == 0 { None } else { Some("n0".into()) };
            (ns, crate::world::near(d, *d.pick(&["a", "b", "error", "end"])))
        }
        8 => (None, d.pick(&["a ", " a", "\ta", "A", "a\0", "aa", "b ", "ü\u{308}", "u\u{308}", "end "]).to_string()),
        9 => (Some(d.pick(&["n0 ", "N0", " ", "n0\0", "n", "*", "\u{feff}n0", "n0"]).to_string()), d.pick(&["a", "b", "a ", "A"]).to_string()),
        0 => (Some("n0".into()), "a".into()),
        1 => (Some("n1".into()), d.pick(&["a", "b", "error"]).to_string()),
        2 => (Some("nope".into()), d.pick(&["a", "error", "end"]).to_string()),
        3 => (None, d.pick(&["nope", "ü", "end", "", "ping"]).to_string()),
        4 => (Some("n0".into()), d.pick(&["b", "nope", "error"]).to_string()),
        5 => (None, "b".into()),
        _ => (None, "a".into()),
    }
}

fn fresh_id(d: D, u: u64) -> u64 {
    match d.n(5) {
        // an id this side has never seen
        0 => u,
        4 => *d.pick(&[0u64, u64::MAX, 1, 1 << 63, u32::MAX as u64]),
        1 => u & 0xffff,
        2 => u64::MAX - (u & 0xffff),
        // as the real node generates them
        _ => (1_700_000_000u64 % 65535) << 48 | (u & 0xfff) << 20 | 0xfff00 | (u & 0xff),
    }
}

fn hostile_payload(d: D) -> Vec<u8> {
    let n = d.range(0, 60) as usize;
    let fill = d.u64();
    let mut v = rawdata(fill, n.max(8));
    v.truncate(n);
    match d.n(9) {
        // error payload with an absurd length
        0 => [&[1u8, 2][..], &u32::MAX.to_be_bytes(), &v].concat(),
        // tandem
        1 => [&(1u64 << d.n(64)).to_be_bytes()[..], &v].concat(),
        2 => [&3u64.to_be_bytes()[..], b"abc", &u64::MAX.to_be_bytes(), &v].concat(),
        // formats
        3 => [&[1u8][..], &(1u64 << d.range(10, 63)).to_le_bytes(), &v].concat(),
        4 => [&[0u8, 0xdd][..], &u32::MAX.to_be_bytes(), &v].concat(),
        5 => [&[2u8, 0xff, 0xff, 0xff, 0xff, 0x0f][..], &v].concat(),
        6 => [&[3u8][..], b"[[[[{\"a\":", &v].concat(),
        7 => [&[d.n(256) as u8][..], &v].concat(),
        _ => v,
    }
}

/// Something that is not a frame. Returns the bytes.
fn malformed(d: D) -> Vec<u8> {
    let u = uid();
    let mut f = Frame::new(0x9d3f_5a71_c2e6_0000 | (u & 0xffff), codec::INIT, None, if d.n(2) == 0 { None } else { Some("n0") }, "a", body(u, ECHO, 0, 30));
    let b = f.encode();
    let hl = f.header().len();
    let put = |b: &[u8], at: usize, x: &[u8]| {
        let mut v = b.to_vec();
        v[at..at + x.len()].copy_from_slice(x);
        v
    };
    let nsl = f.ns.as_ref().map_or(0, |n| n.len());
    match d.n(24) {
        // unknown markers, with everything a lenient reader needs
        15 | 16 => {
            f.ref_id = Some(d.u64());
            put(&f.encode(), 22, &[*d.pick(&[1u8, 0x80, 0xfe, 0x7f, 2, 0x0f, 0xf0])])
        }
        17 => put(&b, 22, &[*d.pick(&[1u8, 0x80, 0xfe, 0x7f, 2, 0x0f, 0xf0])]),
        18 => {
            if d.n(2) == 0 {
                f.ref_id = Some(d.u64());
            }
            put(&f.encode(), 21, &[*d.pick(&[4u8, 0x80, 0xff, 0x10, 0x82])])
        }
        // not UTF-8 in different ways
        19 => {
            f.ns = Some("n0".into());
            f.name = "a\u{7f}bc".into();
            let b = f.encode();
            let (at, n) = if d.n(2) == 0 { (25, 2) } else { (29, 4) };
            let x: &[u8] = [&[0xc0u8, 0x80][..], &[0xe9], &[0x80], &[0xff, 0xfe], &[0xed, 0xa0, 0x80, 0x61], &[0xc3]][d.n(6) as usize];
            put(&b, at + n - x.len().min(n), &x[..x.len().min(n)])
        }
        // one byte short, or a field one byte longer than the header
        20 => b[..b.len() - 1].to_vec(),
        21 => put(&b, 25 + nsl, &2u16.to_be_bytes()),
        22 => put(&b, 8, &(hl as u16 - 1).to_be_bytes()),
        23 => {
            f.ver = [d.range(1, 255) as u8, 9, 0];
            f.encode()
        }
        0 => {
            let n = d.range(1, 200) as usize;
            rawdata(d.u64(), n.max(8))[..n].to_vec()
        }
        // truncated
        1 => b[..d.range(1, b.len() as u32 - 1) as usize].to_vec(),
        // header longer than everything
        2 => put(&b, 0, &((d.n(hl as u32)) as u64).to_be_bytes()),
        // absurd lengths
        3 => put(&b, 0, &u64::MAX.to_be_bytes()),
        4 => put(&b, 0, &(1u64 << d.range(22, 63)).to_be_bytes()),
        5 => {
            f.ver[0] = d.range(1, 255) as u8;
            f.encode()
        }
        6 => put(&b, 21, &[d.range(4, 255) as u8]),
        7 => put(&b, 22, &[d.range(1, 254) as u8]),
        // namespace or name beyond the header
        8 => put(&b, 23, &(d.range(hl as u32, 65535) as u16).to_be_bytes()),
        9 => put(&b, 25 + nsl, &(d.range(hl as u32, 65535) as u16).to_be_bytes()),
        // not UTF-8
        10 => put(&b, 10 + hl - 1, &[0xff]),
        // header shorter than its fields
        11 => put(&b, 8, &(d.n(hl as u32) as u16).to_be_bytes()),
        // header length zero
        12 => put(&b, 8, &0u16.to_be_bytes()),
        // a byte of the header altered
        13 => {
            let at = d.n(10 + hl as u32) as usize;
            let mut v = b.clone();
            v[at] ^= 1 << d.n(8);
            v
        }
        14 => put(&b, 8, &u16::MAX.to_be_bytes()),
        _ => vec![0; d.range(10, 60) as usize],
    }
}

#[derive(Clone, Copy)]
struct RProf {
    malformed: bool,
    real: u32,
    raw: u32,
    impossible: bool,
    bystander: bool,
    cruel: bool,
}

async fn raw_op(c: usize, od: D, p: RProf) {
    let steps = od.range(1, 4);
    for _ in 0..steps {
        match od.n(6) {
            0 => tokio::time::sleep(Duration::from_millis(od.n(50) as u64)).await,
            1 => tokio::time::sleep(Duration::from_millis(od.n(5000) as u64)).await,
            _ => {}
        }
        let u = uid();
        let (ns, name) = address(od);
        let size = if od.n(6) == 0 { od.size(20_000) as usize } else { od.n(60) as usize };
        let kind = *od.pick(&[EMPTY, ECHO, ECHO, FAIL, REPLIES, SLOW]);
        let param = match kind {
            REPLIES => od.n(5) as u8,
            SLOW => od.n(40) as u8,
            FAIL if od.chance(30) => od.n(60) as u8,
            _ => 0,
        };
        let mut f = Frame::new(fresh_id(od, u), codec::INIT, None, ns.as_deref(), &name, body(u, kind, param, size));
        match od.n(12) {
            // answers to nothing
            0 => {
                f.ty = codec::RESP;
                f.ref_id = Some(u ^ 0xabcdef);
            }
            1 => {
                f.ty = codec::END;
                f.ref_id = if od.n(2) == 0 { Some(u ^ 0xabcdef) } else { None };
            }
            2 => {
                f.ty = codec::ERR;
                f.ns = None;
                f.name = "error".into();
                f.ref_id = if od.n(2) == 0 { Some(u ^ 0xabcdef) } else { None };
                f.data = match od.n(3) {
                    0 => codec::error_payload(77, &format!("stray-{}", u)),
                    1 => codec::error_payload(666, &format!("stray-{}", u)),
                    _ => hostile_payload(od),
                };
            }
            3 => {
                // the id of one of the real node's requests
                let ids: Vec<u64> = rw(|r| r.conns[c].recv.iter().filter(|(_, f)| f.ty < codec::END).map(|(_, f)| f.id).collect());
                if !ids.is_empty() {
                    f.id = *od.pick(&ids);
                    stat("probe:peer event with the id of an own event", 1);
                }
            }
            4 => {
                f.data = [&body(u, DECODE, 0, 10)[..], &hostile_payload(od)].concat();
            }
            5 if p.cruel => {
                f.data = body(u, if od.n(2) == 0 { PANIC } else { FOREVER }, 0, 10);
            }
            _ => {}
        }
        if f.ty == codec::ERR {
            f.id = u;
        }
        // ids are unique among a peer's events
        if rw(|r| r.conns[c].sent.iter().any(|s| s.f.id == f.id)) {
            f.id = u;
        }
        f.ext = vec![0xEE; ext(od)];
        f.ver = version(od);
        let len = f.encode().len();
        let ps = pieces(od, len);
        if !send(c, f, &ps).await {
            return;
        }
    }
    if p.malformed && od.chance(35) {
        // the connection's last words; later ones are not meant to be understood
        let b = malformed(od);
        let w = rw(|r| r.conns[c].w.clone());
        let mark = async {
            if let Some(w) = w {
                // nothing else is being written
                let _g = w.lock().await;
                rw(|r| {
                    r.malformed += 1;
                    r.conns[c].bad = true;
                });
                stat("fault:malformed bytes", 1);
            }
        };
        mark.await;
        slog!("raw {} sends {} malformed bytes {:02x?}", c, b.len(), &b[..b.len().min(40)]);
        let ps = pieces(od, b.len());
        write_bytes(c, &b, &ps).await;
        if od.n(2) == 0 {
            let w = rw(|r| r.conns[c].w.clone());
            if let Some(w) = w {
                let mut g = w.lock().await;
                let _ = g.shutdown().await;
                rw(|r| r.conns[c].shut = true);
                slog!("raw {} ends its side", c);
            }
        }
    }
}

struct RPay {
    data: Vec<u8>,
    fail: bool,
}
impl IntoPayload for RPay {
    fn into_payload(self, _: &Context) -> IPCResult<Bytes> {
        if self.fail {
            return Err(IPCError::from("this payload cannot be encoded"));
        }
        Ok(Bytes::from(self.data))
    }
}

fn answers(od: D, t: u64) -> Vec<Ans> {
    let n = *od.pick(&[1u32, 1, 0, 2, 3, 6]);
    let mut v = vec![];
    let mut at = 0u64;
    for _ in 0..n {
        at += match od.n(9) {
            0 => t / 2,
            1 => t.saturating_sub(3),
            2 => t + 3,
            3 => t.saturating_sub(od.range(3, 40) as u64),
            4 => t * 2 + od.n(20) as u64,
            5 => od.n(30) as u64,
            _ => 0,
        };
        let (ns, name) = address(od);
        let kind = match od.n(8) {
            0 => AnsKind::End,
            1 => AnsKind::Error,
            2 if od.n(3) == 0 => AnsKind::BadError,
            _ => AnsKind::Reply,
        };
        let (ns, name) = match kind {
            AnsKind::Reply => (ns, name),
            AnsKind::End => (None, "end".into()),
            // (what it is called is up to the peer)
            AnsKind::Error if od.n(4) == 0 => (ns, if od.n(2) == 0 { name } else { "error".into() }),
            _ => (None, "error".into()),
        };
        v.push(Ans { delay: at as u32, kind, ns, name, size: match od.n(16) {
            0 | 1 => 0,
            2 => *od.pick(&[65_536usize, 70_000, 5000]),
            _ => od.n(200) as usize,
        }, ext: ext(od), ver: version(od) });
    }
    if od.n(3) > 0 {
        v.push(Ans { delay: at as u32, kind: AnsKind::End, ns: None, name: "end".into(), size: if od.n(8) == 0 { *od.pick(&[65_536usize, 66_000, 300]) } else { od.n(20) as usize }, ext: 0, ver: [0, 9, 0] });
    }
    v
}

async fn real_op(ctx: Context, c: usize, od: D, p: RProf, default_ms: u64) {
    let steps = od.range(1, 3);
    for _ in 0..steps {
        if od.n(3) == 0 {
            tokio::time::sleep(Duration::from_millis(od.n(400) as u64)).await;
        }
        let mode = *od.pick(&[Mode::Req, Mode::Req, Mode::Stream, Mode::Fire]);
        let explicit = if od.n(2) == 0 { None } else { Some(*od.pick(&[100u64, 20, 7, 1000, 30_000, 100_000, 0])) };
        let timeout = explicit.unwrap_or(default_ms);
        let u = uid();
        let mut ns = if od.n(3) == 0 { Some("peer".to_string()) } else { None };
        let mut name = "q".to_string();
        let mut impossible = false;
        let mut fail = false;
        let with_ref = c != usize::MAX && rw(|r| !r.stash.is_empty());
        if p.impossible && od.n(3) == 0 {
            // around the longest header
            let fixed = 17 + if with_ref { 8 } else { 0 };
            match od.n(6) {
                0 => fail = true,
                1 => {
                    name = "N".repeat(65535 - fixed + od.n(4) as usize);
                    ns = None;
                }
                2 => {
                    let k = od.range(1, 65000) as usize;
                    ns = Some("M".repeat(k));
                    name = "N".repeat(65535 - fixed - k + od.n(4) as usize);
                }
                3 => {
                    name = "N".repeat(65536 + od.n(100) as usize);
                }
                4 => {
                    ns = Some("M".repeat(65536 + od.n(3) as usize * 10));
                }
                _ => {
                    name = "N".repeat(*od.pick(&[131072usize, 65535, 65533, 70000]));
                }
            }
            impossible = fail || fixed + name.len() + ns.as_ref().map_or(0, |n| n.len()) > 65535;
            stat(if impossible { "probe:unrepresentable events" } else { "probe:longest headers" }, 1);
        }
        let size = if od.n(5) == 0 { od.size(30_000) as usize } else { od.n(100) as usize };
        let data = body(u, EMPTY, 1, size);
        let plan = if mode == Mode::Fire { vec![] } else { answers(od, timeout) };
        // a consumer that takes its time between the items (few enough to be queued)
        let think = if mode == Mode::Stream && plan.len() <= 5 && od.n(3) == 0 { 3 * timeout.min(3000) as u32 } else { 0 };
        let late = if mode == Mode::Req && od.n(8) == 0 { Some(od.n(3 * timeout.min(3000) as u32 + 1) as u64) } else { None };
        let i = rw(|r| {
            r.reqs.push(RReq {
                conn: c,
                uid: u,
                mode,
                ns: ns.clone(),
                name: name.clone(),
                data: data.clone(),
                timeout,
                t0: tokio::sim::now_ns(),
                tw: None,
                starts: vec![],
                plan,
                answers: vec![],
                got: vec![],
                impossible,
                done: false,
                polled_late: late,
                broken: false,
            });
            r.reqs.len() - 1
        });
        slog!("real node emits request {} {:?} timeout {} ({:?}) impossible {}", i, mode, timeout, explicit, impossible);
        let pay = RPay { data, fail };
        let meta = match &ns {
            None => ctx.emit(&name, pay),
            Some(n) => ctx.emit_to(n, &name, pay),
        };
        let got = |g: Got| {
            let now = tokio::sim::now_ns();
            slog!("request {} got {}", i, crate::world::brief(&g));
            rw(|r| r.reqs[i].got.push((now, g)));
        };
        let conv = |r: IPCResult<Event>| match r {
            Ok(ev) => Got::Event(item(&ev)),
            Err(IPCError::ErrorEvent(d)) => Got::Error(d.code, d.message),
            Err(IPCError::Timeout) => Got::Timeout,
            Err(e) => Got::Fail(format!("{:?}", e)),
        };
        match mode {
            Mode::Fire => match meta.await {
                Ok(_) => rw(|r| r.reqs[i].tw = Some(tokio::sim::now_ns())),
                Err(e) => got(Got::Fail(format!("{:?}", e))),
            },
            Mode::Req => {
                let mut m = meta.await_reply();
                if let Some(t) = explicit {
                    m = m.with_timeout(Duration::from_millis(t));
                }
                let r = match late {
                    None => m.await,
                    Some(ms) => {
                        // started, then left alone for a while
                        // (the deadline counts from the end of the emission, and a suspended
                        // emission would hold up all others)
                        let mut m = Box::pin(m);
                        let mut r = None;
                        let mut more = 4;
                        while more > 0 && r.is_none() {
                            if let std::task::Poll::Ready(x) = futures::poll!(m.as_mut()) {
                                r = Some(x);
                            }
                            if rw(|r| r.conns[c].recv.iter().any(|(_, f)| f.data == r.reqs[i].data) || r.conns[c].bad || r.conns[c].eof) {
                                more -= 1;
                            }
                            tokio::task::yield_now().await;
                        }
                        let now = tokio::sim::now_ns();
                        let idle = r.is_none();
                        rw(|r| r.reqs[i].polled_late = if idle { Some((now - r.reqs[i].t0) / 1_000_000 + ms) } else { None });
                        match r {
                            Some(r) => r,
                            None => {
                                tokio::time::sleep(Duration::from_millis(ms)).await;
                                m.await
                            }
                        }
                    }
                };
                got(conv(r));
            }
            Mode::Stream => {
                let mut m = meta.stream_replies();
                if let Some(t) = explicit {
                    m = m.with_timeout(Duration::from_millis(t));
                }
                match m.await {
                    Err(e) => got(Got::Fail(format!("{:?}", e))),
                    Ok(mut s) => {
                        rw(|r| r.reqs[i].tw = Some(tokio::sim::now_ns()));
                        use futures::StreamExt;
                        for k in 0..200 {
                            if think > 0 && od.n(3) > 0 {
                                stat("probe:consumer pauses", 1);
                                tokio::time::sleep(Duration::from_millis(od.n(think + 1) as u64)).await;
                            }
                            if k > 0 {
                                rw(|r| r.reqs[i].starts.push(tokio::sim::now_ns()));
                            } else {
                                rw(|r| r.reqs[i].starts = vec![tokio::sim::now_ns()]);
                            }
                            match s.next().await {
                                None => {
                                    got(Got::None);
                                    break;
                                }
                                Some(r) => got(conv(r)),
                            }
                        }
                        if !matches!(tokio::time::timeout(Duration::from_secs(2000), s.next()).await, Ok(None)) {
                            viol(&["C04"], "stream-revived", "an ended stream does not stay ended");
                        }
                    }
                }
            }
        }
        rw(|r| r.reqs[i].done = true);
    }
}

async fn run<L: Tp>(p: RProf, server: bool)
where
    L::AddressType: 'static,
{
    let d = cfg();
    let mut nc = net::net_cfg(d);
    nc.latency = 0;
    nc.jitter = 0;
    nc.install();
    let (regs, own_err) = regs_of(d);
    rw(|r| {
        r.regs = regs.clone();
        r.own_err = own_err;
        r.server = server;
        r.max = if nc.caps == 2 && nc.short <= 40 && nc.pend == 0 { 1 << 20 } else { 1500 };
    });
    let default_ms = *d.pick(&[3000u64, 50, 400, 60_000, 61_500, 200_000, 0]);
    crate::sys::REFUSE.store(16 << 20, std::sync::atomic::Ordering::SeqCst);
    let keys = KeySetup { base: d.u64(), clients: 1, server_allow: true, client_allow: true, ttl: None };
    let mut ctxs: Vec<(Context, usize)> = vec![];
    let mut srv = None;
    let k = if server || d.chance(45) { d.range(1, 3) as usize } else { 1 };
    let mut pool = None;
    let mut bystander = None;
    if server {
        let b = with_regs::<L>(IPCBuilder::new(), &regs, own_err)
            .address(L::addr(1))
            .timeout(Duration::from_millis(default_ms))
            .server_options(L::sopts(&keys));
        srv = Some(spawn(async move {
            let r = b.build_server().await;
            viol(&["C12"], "server-ended", format!("build_server returned {:?}", r));
        }));
        crate::mesh::wait_listening(&L::sim_addr(1)).await;
        if p.bystander && d.n(2) == 0 {
            let b = IPCBuilder::<L>::new().address(L::addr(1)).client_options(L::copts(&keys, 1));
            match b.build_client().await {
                Ok(c) => bystander = Some(c),
                Err(e) => viol(&["C12", "C24"], "build-failed", format!("{:?}", e)),
            }
        }
        for _ in 0..k {
            let n = tokio::sim::net::conn_count();
            let io = match raw_connect(L::T, 1).await {
                Ok(io) => io,
                Err(e) => {
                    viol(&["C12"], "refused", format!("a listening server refuses a peer: {:?}", e));
                    return;
                }
            };
            let c = add_conn(io, n);
            // gives us a context of the server side
            let u = uid();
            let ty = if D(223).n(3) == 0 { codec::RESP } else { codec::INIT };
            let f = Frame::new(u, ty, None, None, "hello", body(u, STASH, 0, 10));
            send(c, f, &[]).await;
            for _ in 0..2000 {
                if rw(|r| r.stash.contains_key(&u)) {
                    break;
                }
                tokio::time::sleep(Duration::from_millis(1)).await;
            }
            match rw(|r| r.stash.get(&u).cloned()) {
                Some(ctx) => ctxs.push((ctx, c)),
                None => viol(&["C11", "C01", "C12"], "hello-lost", "the first event of an independent peer was not handled"),
            }
        }
    } else {
        let l = RawListener::bind(L::T, 1).await;
        let b = with_regs::<L>(IPCBuilder::new(), &regs, own_err)
            .address(L::addr(1))
            .timeout(Duration::from_millis(default_ms))
            .client_options(L::copts(&keys, 1));
        let pooled = k > 1 || d.n(2) == 0;
        let h = spawn(async move {
            if pooled {
                b.build_pooled_client(k).await.map(|p| {
                    let g: Vec<_> = (0..k).map(|_| p.acquire()).collect();
                    (g.iter().map(|g| Context::clone(g)).collect::<Vec<_>>(), Some((p, g)))
                })
            } else {
                b.build_client().await.map(|c| (vec![c], None))
            }
        });
        for c in 0..k {
            match l.accept().await {
                Ok(io) => {
                    add_conn(io, c);
                }
                Err(e) => {
                    viol(&["C24"], "no-connect", format!("the client does not connect: {:?}", e));
                    return;
                }
            }
        }
        match h.await {
            Ok(Ok((cs, p))) => {
                pool = p;
                for ctx in cs {
                    // which connection is it?
                    let u = uid();
                    let data = body(u, EMPTY, 1, 10);
                    if let Err(e) = ctx.emit("q", RPay { data: data.clone(), fail: false }).await {
                        viol(&["C24", "C18", "C01"], "build-failed", format!("the first event of a client failed: {:?}", e));
                        return;
                    }
                    let mut c = None;
                    for _ in 0..5000 {
                        c = (0..k).find(|c| rw(|r| r.conns[*c].recv.iter().any(|(_, f)| f.data == data)));
                        if c.is_some() {
                            break;
                        }
                        tokio::time::sleep(Duration::from_millis(1)).await;
                    }
                    let Some(c) = c else {
                        viol(&["C01", "C11"], "lost", "the first event of a client does not arrive".to_string());
                        return;
                    };
                    if ctxs.iter().any(|x| x.1 == c) {
                        viol(&["C18"], "shared", "two contexts of a pool, acquired one after the other, use the same connection".to_string());
                    }
                    rw(|r| {
                        r.reqs.push(RReq {
                            conn: c,
                            uid: u,
                            mode: Mode::Fire,
                            ns: None,
                            name: "q".into(),
                            data,
                            timeout: default_ms,
                            t0: 0,
                            tw: Some(0),
                            starts: vec![],
                            plan: vec![],
                            answers: vec![],
                            got: vec![],
                            impossible: false,
                            done: true,
                            polled_late: None,
                            broken: false,
                        })
                    });
                    ctxs.push((ctx, c));
                }
            }
            r => viol(&["C24", "C11"], "build-failed", format!("client of a raw server: {:?}", r.map(|r| r.map(|_| ())))),
        }
    }
    let mut tasks = vec![];
    for od in ops(2, 10) {
        let real = od.chance(p.real);
        let c = od.n(k as u32) as usize;
        if real {
            if let Some((ctx, c)) = ctxs.iter().find(|x| x.1 == c).cloned() {
                tasks.push(spawn(real_op(ctx, c, od, p, default_ms)));
            }
        } else if c < rw(|r| r.conns.len()) {
            tasks.push(spawn(raw_op(c, od, p)));
        }
    }
    let stop_by = Rc::new(std::cell::Cell::new(false));
    let by = bystander.clone().map(|ctx| {
        let stop = stop_by.clone();
        spawn(async move {
            while !stop.get() {
                let r = ctx.emit("ping", BytePayload::new(body(1 | 0x7701_0000_0000_0000, ECHO, 0, 20))).await_reply().with_timeout(Duration::from_secs(5)).await;
                rw(|w| w.pings += 1);
                if let Err(e) = r {
                    rw(|w| w.ping_fail = Some(format!("{:?}", e)));
                }
                let n = rw(|w| w.pings);
                tokio::time::sleep(Duration::from_millis(37 << (n / 16).min(10))).await;
            }
        })
    });
    if tokio::time::timeout(Duration::from_secs(30_000), futures::future::join_all(tasks)).await.is_err() {
        rw(|r| {
            let mut n = 0;
            for q in r.reqs.iter().filter(|q| !q.done) {
                n += 1;
                viol(&["C07", "C21", "C03"], "hang", format!("request {:x} never completes", q.uid));
            }
            // nobody has to read on after malformed bytes
            if n == 0 && r.conns.iter().any(|c| !c.bad && c.w.as_ref().map_or(false, |w| w.try_lock().is_err())) {
                viol(&["C12", "C21", "C10"], "raw-blocked", "the real node stopped reading");
            }
        });
    }
    // late answers
    tokio::time::sleep(Duration::from_secs(1000 + default_ms / 1000 * 8)).await;
    stop_by.set(true);
    tokio::time::sleep(Duration::from_secs(60)).await;
    if by.as_ref().map_or(false, |b| !b.is_finished()) {
        viol(&["C12", "C10"], "bystander-hangs", "a request of another client hangs");
    }
    // everything still works: on every sound connection, and with a new one
    let n = rw(|r| r.conns.len());
    for c in 0..n {
        if !rw(|r| r.conns[c].bad) {
            let u = uid();
            let f = Frame::new(u, codec::INIT, None, None, "ping", body(u, ECHO, 0, 20));
            send(c, f, &[]).await;
        }
    }
    if server {
        if let Ok(io) = raw_connect(L::T, 1).await {
            let n = tokio::sim::net::conn_count() - 1;
            let c = add_conn(io, n);
            let u = uid();
            send(c, Frame::new(u, codec::INIT, None, None, "ping", body(u, ECHO, 0, 20)), &[]).await;
        }
        if let Some(ctx) = &bystander {
            if let Err(e) = ctx.emit("ping", BytePayload::new(body(2 | 0x7701_0000_0000_0000, ECHO, 0, 20))).await_reply().with_timeout(Duration::from_secs(5)).await {
                rw(|w| w.ping_fail = Some(format!("{:?}", e)));
            }
        }
    }
    tokio::time::sleep(Duration::from_secs(500)).await;
    if srv.as_ref().map_or(false, |s| s.is_finished()) {
        viol(&["C12", "C10"], "server-ended", "the server ended");
    }
    drop(pool);
    rw(|r| judge(r, server, own_err));
    rt::sample(format!(
        "{} against {} raw peers over {:?}: {} raw frames, {} requests of the real node, {} malformed, net {:?}",
        if server { "server" } else { "client" },
        n,
        L::T,
        rw(|r| r.conns.iter().map(|c| c.sent.len()).sum::<usize>()),
        rw(|r| r.reqs.len()),
        rw(|r| r.malformed),
        nc
    ));
    if rw(|r| !r.invs.is_empty() || !r.reqs.is_empty()) {
        nontrivial();
    }
}

// ---------------------------------------------------------------- oracle

fn ty_of(t: u8) -> EventType {
    match t {
        0 => EventType::Initiator,
        1 => EventType::Response,
        2 => EventType::End,
        _ => EventType::Error,
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum May {
    Must,
    May,
    Never,
}

const SLACK: u64 = 2_000_000;

fn judge(r: &mut Raw, server: bool, own_err: bool) {
    if let Some(e) = &r.ping_fail {
        viol(&["C10", "C12"], "bystander", format!("a request of an uninvolved client failed: {}", e));
    }
    stat("probe:bystander requests", r.pings);
    // ---- requests of the real node: what they got
    // answer frames that were consumed by a waiter, or may have been
    let mut fate: BTreeMap<(usize, u64), May> = BTreeMap::new(); // (conn, frame id) -> dispatched?
    for q in &r.reqs {
        let conn = &r.conns[q.conn];
        let seen: Vec<&(u64, Frame)> = conn.recv.iter().filter(|(_, f)| f.ty < codec::END && f.data == q.data).collect();
        let label = format!("request {:x} ({:?}, timeout {} ms)", q.uid, q.mode, q.timeout);
        if q.impossible {
            if !matches!(q.got.first(), Some((_, Got::Fail(_)))) {
                viol(&["C09"], "unrepresentable", format!("{} cannot be represented, but was not refused: {:?}", label, q.got.first()));
            }
            if !seen.is_empty() {
                viol(&["C09"], "unrepresentable-written", format!("{} cannot be represented, but was written", label));
            }
            continue;
        }
        let sound = !conn.bad;
        if seen.len() != 1 && sound {
            viol(&["C01", "C09", "C11"], "request-frames", format!("{} appears {} times on the wire", label, seen.len()));
        }
        if let Some((_, f)) = seen.first() {
            if f.ns != q.ns || f.name != q.name {
                viol(&["C09"], "frame-fields", format!("{} is encoded as {:?} {:?}", label, f.ns, f.name.len()));
            }
            if (f.ty == codec::INIT) != f.ref_id.is_none() || f.ref_id.is_some() != server {
                viol(&["C09", "C03"], "frame-ref", format!("{} has type {} and reference {:x?}", label, f.ty, f.ref_id));
            }
        }
        if !sound || q.broken {
            for (_, f) in &q.answers {
                fate.insert((q.conn, f.id), May::May);
            }
            // resolves, and does so by the deadline
            if q.mode == Mode::Req && q.got.is_empty() {
                viol(&["C07", "C19"], "unresolved", format!("{} is not resolved", label));
            }
            continue;
        }
        match q.mode {
            Mode::Fire => {
                if q.tw.is_none() {
                    viol(&["C09", "C21"], "emit-failed", format!("{} failed: {:?}", label, q.got));
                }
            }
            Mode::Req => {
                let (tr, g) = match q.got.first() {
                    Some(x) => x,
                    None => {
                        viol(&["C07", "C03"], "unresolved", format!("{} is not resolved", label));
                        continue;
                    }
                };
                let t0 = q.t0;
                let dl = t0 + q.timeout * 1_000_000;
                let first = q.answers.first();
                let resume = q.polled_late.map_or(0, |ms| t0 + ms * 1_000_000);
                let mut ok_time = true;
                let mut consumed = false;
                match first {
                    Some((ta, f)) if *ta + SLACK <= dl => {
                        consumed = true;
                        check_req(&label, g, f);
                        let want = (*ta).max(resume);
                        ok_time = *tr >= want && *tr <= want + SLACK;
                    }
                    Some((ta, _)) if *ta < dl + SLACK => {
                        fate.insert((q.conn, first.unwrap().1.id), May::May);
                    }
                    Some((ta, f)) if resume + SLACK > *ta && resume + SLACK > dl => {
                        // was not looked at before both happened; either is fine
                        if matches!(g, Got::Timeout) {
                            fate.insert((q.conn, f.id), May::May);
                        } else {
                            consumed = true;
                            check_req(&label, g, f);
                        }
                    }
                    _ => {
                        if !matches!(g, Got::Timeout) {
                            let mut t = vec!["C07", "C03"];
                            if matches!(g, Got::Fail(_)) {
                                t.push("C21");
                            }
                            viol(&t, "not-timed-out", format!("{} resolved with {} although no reply came in time", label, crate::world::brief(g)));
                        }
                        let want = dl.max(resume);
                        ok_time = *tr >= want && *tr <= want + SLACK;
                    }
                }
                if !ok_time {
                    viol(&["C07"], "wrong-time", format!("{} resolved {} ms after it began (first answer at {:?} ms, looked at from {} ms)", label, (*tr - t0) as f64 / 1e6, first.map(|f| (f.0 - t0) as f64 / 1e6), resume.saturating_sub(t0) / 1_000_000));
                }
                for (i, (ta, f)) in q.answers.iter().enumerate() {
                    if i == 0 && consumed {
                        fate.insert((q.conn, f.id), May::Never);
                    } else if *ta < *tr + SLACK || (resume > 0 && *ta < resume + SLACK) {
                        fate.insert((q.conn, f.id), May::May);
                    }
                }
            }
            Mode::Stream => {
                let mut p = match q.tw {
                    Some(t) => t,
                    None => {
                        viol(&["C04", "C21"], "stream-failed", format!("{}: {:?}", label, q.got));
                        continue;
                    }
                };
                let mut it = q.got.iter();
                let mut starts = q.starts.iter();
                let mut ended = false;
                let mut unsure = false;
                for (ta, f) in &q.answers {
                    if unsure {
                        fate.insert((q.conn, f.id), May::May);
                        continue;
                    }
                    if ended {
                        if *ta < p + SLACK {
                            fate.insert((q.conn, f.id), May::May);
                        }
                        continue;
                    }
                    p = starts.next().copied().unwrap_or(p);
                    let dl = p + q.timeout * 1_000_000;
                    if *ta + SLACK <= dl {
                        fate.insert((q.conn, f.id), May::Never);
                        match it.next() {
                            Some((t, g)) => {
                                if !item_is(g, f) {
                                    viol(&["C04", "C11"], "stream-items", format!("{}: expected frame {:x} of type {}, got {}", label, f.id, f.ty, crate::world::brief(g)));
                                    unsure = true;
                                    continue;
                                }
                                if *t < *ta || *t > (*ta).max(p) + SLACK {
                                    viol(&["C07", "C04"], "wrong-time", format!("{}: item of {} ms delivered at {} ms", label, ta / 1_000_000, t / 1_000_000));
                                }
                                p = *t;
                            }
                            None => {
                                viol(&["C04", "C11"], "stream-items", format!("{}: frame {:x} is missing", label, f.id));
                                unsure = true;
                                continue;
                            }
                        }
                        if f.ty >= codec::END {
                            ended = true;
                        }
                    } else if *ta < dl + SLACK {
                        unsure = true;
                        fate.insert((q.conn, f.id), May::May);
                    } else {
                        // timed out before
                        match it.next() {
                            Some((t, Got::Timeout)) if *t >= dl && *t <= dl + SLACK => {
                                p = *t;
                            }
                            g => {
                                viol(&["C07", "C04"], "stream-timeout", format!("{}: expected a timeout at {} ms, got {:?}", label, dl / 1_000_000, g.map(|g| (g.0 / 1_000_000, crate::world::brief(&g.1)))));
                                unsure = true;
                                fate.insert((q.conn, f.id), May::May);
                                continue;
                            }
                        }
                        ended = true;
                    }
                }
                if !unsure {
                    if !ended {
                        p = starts.next().copied().unwrap_or(p);
                        let dl = p + q.timeout * 1_000_000;
                        match it.next() {
                            Some((t, Got::Timeout)) if *t >= dl && *t <= dl + SLACK => {}
                            g => viol(&["C07", "C04"], "stream-timeout", format!("{}: expected a timeout at {} ms, got {:?}", label, dl / 1_000_000, g.map(|g| (g.0 / 1_000_000, crate::world::brief(&g.1))))),
                        }
                    }
                    match it.next() {
                        Some((_, Got::None)) => {}
                        g => viol(&["C04"], "stream-end", format!("{}: expected the end, got {:?}", label, g.map(|g| crate::world::brief(&g.1)))),
                    }
                }
            }
        }
    }
    // ---- frames of the raw peers: dispatch and answers
    for (c, conn) in r.conns.iter().enumerate() {
        let who = format!("raw peer {}", c);
        if let Some(e) = &conn.recv_bad {
            viol(&["C09"], "bad-frame", format!("{} received: {}", who, e));
        }
        if (conn.eof || conn.write_failed) && !conn.bad {
            viol(&["C01", "C11", "C12"], "connection-lost", format!("the connection of {} ended although it did nothing wrong", who));
            continue;
        }
        for (_, f) in &conn.recv {
            if f.ver[0] != 0 {
                viol(&["C09"], "layout", format!("version {:?}", f.ver));
            }
        }
        let mut ids = BTreeSet::new();
        for (_, f) in &conn.recv {
            if !ids.insert(f.id) {
                viol(&["C17", "C09"], "duplicate-id", format!("{} received two events with id {:x}", who, f.id));
            }
        }
        let mut explained: BTreeSet<u64> = BTreeSet::new();
        for s in &conn.sent {
            let f = &s.f;
            let reg: Reg = (f.ns.clone(), f.name.clone());
            let registered = r.regs.contains(&reg) || (own_err && reg == (None, "error".to_string()));
            let label = format!("frame {:x} of {} (type {} ref {:x?} {:?}::{} {} B, ver {:?}, ext {})", f.id, who, f.ty, f.ref_id, f.ns, f.name, f.data.len(), f.ver, f.ext.len());
            let mut fate = if f.ty == codec::END {
                May::Never
            } else if s.after_bad {
                May::May
            } else {
                fate.get(&(c, f.id)).copied().unwrap_or(May::Must)
            };
            if conn.bad && fate == May::Must && f.ref_id.is_some() && f.ref_id != Some(0) && r.reqs.iter().any(|q| q.answers.iter().any(|a| a.1.id == f.id)) {
                fate = May::May;
            }
            let mut n = 0;
            for i in r.invs.iter().filter(|i| i.item.id == f.id && i.item.data == f.data) {
                n += 1;
                if i.reg != reg {
                    viol(&["C02"], "misrouted", format!("{} was handled by {:?}", label, i.reg));
                }
                if i.item.ty != ty_of(f.ty) || i.item.ref_id != f.ref_id || i.item.ns != f.ns || i.item.name != f.name {
                    viol(&["C11", "C01"], "altered", format!("{} arrived as {:?}", label, i.item));
                }
                if f.ty == codec::ERR {
                    let want = codec::parse_error(&f.data).map(|(c, m)| format!("{:?}", Ok::<_, ()>((c, m))));
                    if let (Some(w), Some(e)) = (want, &i.err) {
                        if &w != e {
                            viol(&["C11", "C22"], "error-payload", format!("{} decodes to {}", label, e));
                        }
                    }
                }
            }
            if n > 1 {
                viol(&["C01"], "duplicate", format!("{} was dispatched {} times", label, n));
            }
            if n > 0 && !registered {
                viol(&["C02"], "unregistered", format!("{} was handled although nothing is registered for it", label));
            }
            if n > 0 && fate == May::Never {
                let t: &[&str] = if f.ty == codec::END { &["C06", "C02"] } else { &["C03"] };
                viol(t, "dispatched", format!("{} was dispatched", label));
            }
            if n == 0 && registered && fate == May::Must {
                let mut t = vec!["C11", "C01"];
                if conn.bad {
                    t.push("C10");
                }
                if f.ref_id.is_some() {
                    t.extend(["C07", "C02"]);
                }
                viol(&t, "lost", format!("{} was not handled", label));
            }
            // answers
            let terms: Vec<&Frame> = conn.recv.iter().map(|x| &x.1).filter(|a| a.ty >= codec::END && a.ref_id == Some(f.id)).collect();
            for t in &terms {
                explained.insert(t.id);
            }
            // one of ours may share its id with one of theirs, never with another of ours
            // (unless malformed bytes happened to become an event with the same id)
            let same = if conn.bad { codec::decode_all(&conn.bytes).0.iter().filter(|x| x.id == f.id).count() } else { 1 };
            if terms.len() > same.max(1) {
                viol(&["C06"], "two-terminals", format!("{} is answered by {} terminal events", label, terms.len()));
            }
            let (_, kind, param) = if f.ty == codec::ERR { (0, EMPTY, 0) } else { cmd(&f.data) };
            let endless = registered && (kind == PANIC || kind == FOREVER);
            if terms.is_empty() && fate == May::Must && !conn.bad && !endless {
                let mut t = vec!["C06", "C11"];
                if !registered {
                    t.push("C02");
                }
                viol(&t, "no-terminal", format!("{} is not answered", label));
            }
            if !terms.is_empty() && (fate == May::Never || (endless && registered)) {
                viol(&["C06"], "answered", format!("{} is answered", label));
            }
            if registered && fate == May::May && n != terms.len() && !conn.bad && !endless {
                viol(&["C06"], "answer-count", format!("{} was dispatched {} times and answered {} times", label, n, terms.len()));
            }
            let replies: Vec<&Frame> = conn.recv.iter().map(|x| &x.1).filter(|a| a.ty == codec::RESP && a.ref_id == Some(f.id) && a.name == "r").collect();
            if let Some(t) = terms.first() {
                let (want_ty, want): (u8, Option<Vec<u8>>) = match kind {
                    _ if !registered || f.ty == codec::ERR => (codec::END, Some(vec![])),
                    ECHO | SLOW => (codec::END, Some(f.data.clone())),
                    FAIL => (codec::ERR, None),
                    _ => (codec::END, Some(vec![])),
                };
                let mut ok = t.ty == want_ty && want.as_ref().map_or(true, |w| w == &t.data);
                if want_ty == codec::ERR {
                    ok &= codec::parse_error(&t.data).map_or(false, |(code, m)| code == 500 && m.contains(&boom(cmd(&f.data).0, cmd(&f.data).2)));
                }
                if !ok {
                    let mut tags = vec!["C06"];
                    if t.ty == codec::ERR || want_ty == codec::ERR {
                        tags.push("C05");
                    }
                    if !registered {
                        tags.push("C02");
                    }
                    viol(&tags, "wrong-terminal", format!("{} is answered by type {} with {} B", label, t.ty, t.data.len()));
                }
                if registered && kind == REPLIES {
                    let want: Vec<Vec<u8>> = (0..param).map(|i| body(cmd(&f.data).0, EMPTY, i, 12)).collect();
                    let have: Vec<Vec<u8>> = replies.iter().map(|x| x.data.clone()).collect();
                    if want != have {
                        viol(&["C04", "C01"], "replies", format!("{} has {} replies in the wrong order or number", label, have.len()));
                    }
                    let pt = conn.recv.iter().position(|x| x.1.id == t.id);
                    if replies.last().map_or(false, |l| conn.recv.iter().position(|x| x.1.id == l.id) > pt) {
                        viol(&["C06"], "reply-after-terminal", format!("{}: replies follow the terminal event", label));
                    }
                }
            }
        }
        // nothing else comes from the real node
        // (malformed bytes may turn out to be the beginning of a frame)
        let (whole, _, _) = codec::decode_all(&conn.bytes);
        for (_, f) in &conn.recv {
            if f.ty >= codec::END && !explained.contains(&f.id) && !(conn.bad && whole.iter().any(|w| Some(w.id) == f.ref_id)) {
                viol(&["C06"], "stray-terminal", format!("{} received a terminal event for {:x?}", who, f.ref_id));
            }
            if f.ty < codec::END && f.name != "r" && !r.reqs.iter().any(|q| q.data == f.data) {
                viol(&["C09"], "unknown-frame", format!("{} received {:?} which nobody emitted", who, f.name));
            }
        }
    }
    // no phantom: every invocation belongs to a well-formed frame that was sent
    // (a corrupted frame may happen to be well-formed; then it is what the bytes say)
    let mut byte_frames: Vec<Frame> = vec![];
    for conn in &r.conns {
        if conn.bad {
            let (f, _, _) = codec::decode_all(&conn.bytes);
            byte_frames.extend(f.into_iter().filter(|f| f.ver[0] == 0));
        }
    }
    for i in &r.invs {
        let is = |f: &Frame| f.id == i.item.id && f.data == i.item.data && ty_of(f.ty) == i.item.ty && f.name == i.item.name;
        let known = r.conns.iter().any(|c| c.sent.iter().any(|s| is(&s.f)))
            || byte_frames.iter().any(is)
            || i.reg.1 == "ping";
        if !known {
            viol(&["C10", "C01"], "phantom", format!("handler {:?} was invoked for {:?} which no well-formed frame carried", i.reg, i.item));
        }
    }
    let _ = server;
}

fn check_req(label: &str, g: &Got, f: &Frame) {
    let ok = match (g, f.ty) {
        (Got::Event(i), codec::RESP) | (Got::Event(i), codec::END) => {
            i.id == f.id && i.data == f.data && i.name == f.name && i.ns == f.ns && i.ref_id == f.ref_id && i.ty == ty_of(f.ty)
        }
        (Got::Error(c, m), codec::ERR) => codec::parse_error(&f.data).map_or(false, |x| x == (*c, m.clone())),
        // an undecodable error is still an error, not an answer
        (Got::Fail(_), codec::ERR) => codec::parse_error(&f.data).is_none(),
        _ => false,
    };
    if !ok {
        let mut t = vec!["C03", "C11"];
        if matches!(g, Got::Timeout) {
            t.push("C07");
        }
        if f.ty == codec::ERR {
            t.push("C05");
        }
        viol(&t, "wrong-reply", format!("{} was answered by {:x} (type {}, {} B) but resolved with {}", label, f.id, f.ty, f.data.len(), crate::world::brief(g)));
    }
}

fn item_is(g: &Got, f: &Frame) -> bool {
    match g {
        Got::Event(i) => i.id == f.id && i.data == f.data && i.name == f.name && i.ns == f.ns && i.ref_id == f.ref_id && i.ty == ty_of(f.ty),
        Got::Error(c, m) => f.ty == codec::ERR && codec::parse_error(&f.data).map_or(false, |x| x == (*c, m.clone())),
        _ => false,
    }
}

// ---------------------------------------------------------------- scenarios

async fn go(p: RProf) {
    rt::also(&[if p.malformed { "C10" } else { "C11" }]);
    let p = if rt::control() { RProf { malformed: false, cruel: false, ..p } } else { p };
    let d = cfg();
    let server = d.n(2) == 0;
    stat(if server { "probe:real server" } else { "probe:real client" }, 1);
    if d.n(3) == 0 {
        run::<UnixListener>(p, server).await
    } else {
        run::<TcpListener>(p, server).await
    }
}

/// Conforming independent peers.
pub async fn peers() {
    rt::primary(&["C11", "C02", "C03", "C06", "C09"]);
    go(RProf { malformed: false, real: 50, raw: 50, impossible: true, bystander: false, cruel: false }).await
}

/// Mostly requests with deadlines.
pub async fn deadlines() {
    rt::primary(&["C07", "C03", "C04"]);
    go(RProf { malformed: false, real: 80, raw: 20, impossible: false, bystander: false, cruel: false }).await
}

/// Hostile ones.
pub async fn hostile() {
    rt::primary(&["C10", "C12"]);
    go(RProf { malformed: true, real: 25, raw: 75, impossible: false, bystander: true, cruel: true }).await
}
