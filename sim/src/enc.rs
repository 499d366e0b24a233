//! The encryption layer: the stream itself, a man in the middle, and who gets in.

use crate::net::{self, KeySetup, NetCfg, T};
use crate::raw::{raw_connect, BoxIo, RawListener};
use crate::rt::{self, cfg, nontrivial, ops, stat, viol, D};
use crate::slog;
use crate::wire;
use crate::world::{limited, spawn, Abandon, Ass};
use bromine::prelude::*;
use bromine::protocol::encrypted::{EncryptedListener, EncryptedStream, EncryptionOptions, Keys};
use std::cell::RefCell;
use std::collections::{HashMap, HashSet};
use std::future::poll_fn;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, AsyncWriteExt, ReadBuf};
use tokio::net::{TcpListener, UnixListener};
use tokio::sim::net as sn;

/// Virtual time after which an operation that could proceed counts as stuck.
const STUCK: Duration = Duration::from_secs(200);

/// One direction of one connection.
#[derive(Default)]
pub struct Dir {
    accepted: Vec<u8>,
    /// given to a write that is pending
    offered: Vec<u8>,
    flushed: usize,
    received: usize,
    /// the writer shut the stream down successfully
    shut: bool,
    /// the writer is gone
    dropped: bool,
    writer_done: bool,
    write_err: bool,
    /// the reader saw the end
    ended: bool,
    /// nothing disturbs this direction
    sound: bool,
    label: String,
    /// when the reader stopped reading
    gave_up: Option<tokio::time::Instant>,
}
type Shared = Rc<RefCell<Dir>>;

pub fn bytes(seed: u64, n: usize) -> Vec<u8> {
    let mut s = seed ^ 0x5eed_0f_da7a;
    let mut out = Vec::with_capacity(n + 8);
    while out.len() < n {
        out.extend_from_slice(&crate::sys::splitmix(&mut s).to_le_bytes());
    }
    out.truncate(n);
    out
}

/// Checks newly received bytes against what was sent.
fn receive(sh: &Shared, got: &[u8], props: &[&str]) -> bool {
    let mut s = sh.borrow_mut();
    let at = s.received;
    let end = at + got.len();
    let ok = if end <= s.accepted.len() {
        s.accepted[at..end] == *got
    } else {
        let k = s.accepted.len().saturating_sub(at).min(got.len());
        let rest = &got[k..];
        at <= s.accepted.len() && s.accepted[at..] == got[..k] && s.offered.starts_with(rest)
    };
    slog!("{} received {} B at {}", s.label, got.len(), at);
    if !ok {
        let first = got.iter().enumerate().position(|(i, b)| s.accepted.get(at + i) != Some(b));
        viol(props, "not-a-prefix", format!("{}: {} bytes received at offset {} differ from what was written (first difference at {:?}, {} bytes accepted)", s.label, got.len(), at, first, s.accepted.len()));
    }
    s.received = end;
    ok
}

enum Wr {
    Done,
    Failed,
    Abandoned,
}

/// One poll_write loop with an exact account of what was accepted.
async fn write_once<W: AsyncWrite + Unpin>(w: &mut W, sh: &Shared, data: &[u8], vectored: bool, a: Option<Abandon>) -> Result<Option<usize>, Wr> {
    sh.borrow_mut().offered = data.to_vec();
    let cut = data.len() / 3;
    let f = poll_fn(|cx| {
        let r = if vectored {
            let bufs = [std::io::IoSlice::new(&[]), std::io::IoSlice::new(&data[..cut]), std::io::IoSlice::new(&data[cut..])];
            Pin::new(&mut *w).poll_write_vectored(cx, &bufs)
        } else {
            Pin::new(&mut *w).poll_write(cx, data)
        };
        if let Poll::Ready(Ok(n)) = &r {
            let mut s = sh.borrow_mut();
            s.accepted.extend_from_slice(&data[..*n]);
            s.offered.clear();
        }
        r
    });
    let r = tokio::time::timeout(STUCK, limited(f, a)).await;
    let mut s = sh.borrow_mut();
    s.offered.clear();
    match r {
        Ok(Some(Ok(n))) => {
            if n == 0 && !data.is_empty() {
                viol(&["C13"], "write-zero", format!("{}: a write of {} bytes accepted none", s.label, data.len()));
                return Err(Wr::Failed);
            }
            Ok(Some(n))
        }
        Ok(Some(Err(e))) => {
            slog!("{} write failed: {:?}", s.label, e.kind());
            s.write_err = true;
            if s.sound {
                viol(&["C13"], "write-error", format!("{}: a write failed with {:?} on a sound connection", s.label, e));
            }
            Err(Wr::Failed)
        }
        Ok(None) => Err(Wr::Abandoned),
        Err(_) => {
            if s.sound {
                viol(&["C13"], "write-stuck", format!("{}: a write of {} bytes does not complete although the transport flows", s.label, data.len()));
            }
            s.write_err = true;
            Err(Wr::Failed)
        }
    }
}

async fn flush<W: AsyncWrite + Unpin>(w: &mut W, sh: &Shared, a: Option<Abandon>) -> Wr {
    let upto = sh.borrow().accepted.len();
    let r = tokio::time::timeout(STUCK, limited(w.flush(), a)).await;
    let mut s = sh.borrow_mut();
    match r {
        Ok(Some(Ok(()))) => {
            if !s.write_err {
                s.flushed = upto;
            }
            Wr::Done
        }
        Ok(Some(Err(e))) => {
            slog!("{} flush failed: {:?}", s.label, e.kind());
            s.write_err = true;
            if s.sound && !s.shut {
                viol(&["C13"], "flush-error", format!("{}: a flush failed with {:?} on a sound connection", s.label, e));
            }
            Wr::Failed
        }
        Ok(None) => Wr::Abandoned,
        Err(_) => {
            s.write_err = true;
            if s.sound {
                viol(&["C13"], "flush-stuck", format!("{}: a flush does not complete although the transport flows", s.label));
            }
            Wr::Failed
        }
    }
}

async fn shutdown<W: AsyncWrite + Unpin>(w: &mut W, sh: &Shared, a: Option<Abandon>) -> Wr {
    let upto = sh.borrow().accepted.len();
    let r = tokio::time::timeout(STUCK, limited(w.shutdown(), a)).await;
    let mut s = sh.borrow_mut();
    match r {
        Ok(Some(Ok(()))) => {
            if !s.write_err {
                s.flushed = upto;
                s.shut = true;
            }
            Wr::Done
        }
        Ok(Some(Err(e))) => {
            slog!("{} shutdown failed: {:?}", s.label, e.kind());
            if s.sound && !s.shut && !s.write_err {
                viol(&["C13"], "shutdown-error", format!("{}: a shutdown failed with {:?} on a sound connection", s.label, e));
            }
            s.write_err = true;
            Wr::Failed
        }
        Ok(None) => Wr::Abandoned,
        Err(_) => {
            s.write_err = true;
            if s.sound {
                viol(&["C13"], "shutdown-stuck", format!("{}: a shutdown does not complete although the transport flows", s.label));
            }
            Wr::Failed
        }
    }
}

fn some_abandon(d: D, p: u32) -> Option<Abandon> {
    if d.chance(p) {
        Some(if d.n(2) == 0 { Abandon::Polls(d.range(1, 4)) } else { Abandon::Ms(d.range(0, 30)) })
    } else {
        None
    }
}

#[derive(Clone, Copy)]
struct WProf {
    max: u32,
    abandon: u32,
    /// 0 shutdown, 1 flush and stay, 2 drop
    ending: u32,
}

async fn writer<W: AsyncWrite + Unpin>(mut w: W, sh: Shared, steps: Vec<D>, end: D, p: WProf, mut seed: u64) -> Option<W> {
    'all: for d in steps {
        seed = seed.wrapping_add(0x9e37);
        match d.weighted(&[40, 10, 20, 8, 12]) {
            0 => {
                // everything
                let n = match d.n(4) {
                    0 => d.n(40),
                    1 => *d.pick(&[1023u32, 1024, 1025, 1007, 1008, 1009, 2048]),
                    _ => d.size(p.max),
                }
                .min(p.max.max(40)) as usize;
                let data = bytes(seed, n);
                let vectored = d.chance(15);
                let mut at = 0;
                if n == 0 {
                    let _ = write_once(&mut w, &sh, &[], false, None).await;
                }
                while at < n {
                    let a = some_abandon(d, p.abandon);
                    match write_once(&mut w, &sh, &data[at..], vectored, a).await {
                        Ok(Some(k)) => at += k,
                        Ok(None) => {}
                        Err(Wr::Abandoned) => {
                            stat("fault:abandoned write", 1);
                            break;
                        }
                        Err(_) => break 'all,
                    }
                }
            }
            1 => {
                let n = d.size(p.max) as usize;
                let a = some_abandon(d, p.abandon);
                match write_once(&mut w, &sh, &bytes(seed, n), false, a).await {
                    Err(Wr::Failed) => break 'all,
                    Err(_) => stat("fault:abandoned write", 1),
                    _ => {}
                }
            }
            2 => match flush(&mut w, &sh, some_abandon(d, p.abandon)).await {
                Wr::Failed => break 'all,
                Wr::Abandoned => stat("fault:abandoned flush", 1),
                Wr::Done => stat("op:flush", 1),
            },
            3 => {
                // flush twice
                for _ in 0..2 {
                    if let Wr::Failed = flush(&mut w, &sh, None).await {
                        break 'all;
                    }
                }
            }
            _ => {
                if d.n(2) == 0 {
                    tokio::task::yield_now().await
                } else {
                    tokio::time::sleep(Duration::from_millis(d.n(40) as u64)).await
                }
            }
        }
    }
    let failed = sh.borrow().write_err;
    if failed {
        // whatever follows fails or is swallowed, but does not panic
        stat("probe:use after write error", 1);
        let d = end;
        for _ in 0..d.range(1, 5) {
            match d.n(3) {
                0 => {
                    let _ = tokio::time::timeout(STUCK, w.write(&bytes(seed, d.n(3000) as usize))).await;
                }
                1 => {
                    let _ = tokio::time::timeout(STUCK, w.flush()).await;
                }
                _ => {
                    let _ = tokio::time::timeout(STUCK, w.shutdown()).await;
                }
            }
        }
        let mut s = sh.borrow_mut();
        s.writer_done = true;
        s.dropped = true;
        return None;
    }
    match p.ending {
        0 => {
            let mut tries = 0;
            loop {
                let a = if tries < 3 { some_abandon(end, p.abandon * 2) } else { None };
                match shutdown(&mut w, &sh, a).await {
                    Wr::Abandoned => {
                        stat("fault:abandoned shutdown", 1);
                        tries += 1
                    }
                    Wr::Done => {
                        stat("op:shutdown", 1);
                        break;
                    }
                    _ => break,
                }
            }
            if end.chance(30) {
                // again, and further use
                stat("probe:use after shutdown", 1);
                let _ = tokio::time::timeout(STUCK, w.shutdown()).await.map_err(|_| hung(&sh));
                let _ = tokio::time::timeout(STUCK, w.write(&bytes(seed ^ 1, end.n(3000) as usize))).await.map_err(|_| hung(&sh));
                let _ = tokio::time::timeout(STUCK, w.flush()).await.map_err(|_| hung(&sh));
                let _ = tokio::time::timeout(STUCK, w.shutdown()).await.map_err(|_| hung(&sh));
            }
            sh.borrow_mut().writer_done = true;
            Some(w)
        }
        1 => {
            let _ = flush(&mut w, &sh, None).await;
            sh.borrow_mut().writer_done = true;
            Some(w)
        }
        _ => {
            let mut s = sh.borrow_mut();
            s.writer_done = true;
            s.dropped = true;
            None
        }
    }
}

fn hung(sh: &Shared) {
    let s = sh.borrow();
    if s.sound {
        viol(&["C13"], "stuck-after-shutdown", format!("{}: an operation after shutdown neither fails nor completes", s.label));
    }
}

/// Reads until the end; what is read must be what was written.
async fn reader<R: AsyncRead + Unpin>(mut r: R, sh: Shared, d: D, abandon: u32, slow: u32) -> R {
    let mut idle = 0;
    loop {
        let size = match d.n(6) {
            0 => d.n(4) as usize,
            1 => d.range(1, 40) as usize,
            2 => d.range(1, 2000) as usize,
            3 => 1024,
            4 => 16,
            _ => 70_000,
        };
        let pre = if d.chance(20) { d.n(9) as usize } else { 0 };
        let a = some_abandon(d, abandon);
        let mut storage = vec![0xA5u8; size + pre];
        let res = {
            let mut rb = ReadBuf::new(&mut storage);
            rb.put_slice(&vec![0x5Au8; pre]);
            let f = poll_fn(|cx| Pin::new(&mut r).poll_read(cx, &mut rb));
            let res = tokio::time::timeout(STUCK, limited(f, a)).await;
            (res, rb.filled().len())
        };
        let (res, filled) = res;
        if storage[..pre].iter().any(|b| *b != 0x5A) || filled < pre {
            viol(&["C13"], "read-clobbers", format!("{}: a read changed the part of the buffer that was already filled", sh.borrow().label));
        }
        match res {
            Ok(Some(Ok(()))) => {
                idle = 0;
                let n = filled.saturating_sub(pre);
                if n == 0 && size > 0 {
                    slog!("{} end of file", sh.borrow().label);
                    sh.borrow_mut().ended = true;
                    break;
                }
                if n > 0 && !receive(&sh, &storage[pre..filled], &["C13", "C14"]) {
                    break;
                }
                nontrivial();
            }
            Ok(Some(Err(e))) => {
                slog!("{} read failed: {:?}", sh.borrow().label, e.kind());
                sh.borrow_mut().ended = true;
                break;
            }
            Ok(None) => {
                // an abandoned read
                stat("fault:abandoned read", 1);
                if filled > pre {
                    viol(&["C13"], "read-pending-filled", format!("{}: a pending read filled the buffer", sh.borrow().label));
                }
            }
            Err(_) => {
                let s = sh.borrow();
                if s.sound && s.received < s.flushed {
                    viol(&["C13"], "read-stuck", format!("{}: {} bytes were flushed but a read does not complete after {} bytes", s.label, s.flushed, s.received));
                    break;
                }
                if s.sound && s.shut {
                    viol(&["C13"], "eof-stuck", format!("{}: the stream was shut down but the reader never sees the end", s.label));
                    break;
                }
                idle += 1;
                if s.writer_done || idle > 20 {
                    break;
                }
            }
        }
        let done = {
            let s = sh.borrow();
            s.writer_done && !s.shut && !s.dropped && s.received >= s.accepted.len()
        };
        if done {
            break;
        }
        if slow > 0 && d.chance(slow) {
            tokio::time::sleep(Duration::from_millis(d.n(30) as u64)).await;
        }
    }
    if sh.borrow().ended {
        // the end is final
        for _ in 0..d.n(4) {
            let mut b = vec![0u8; 64];
            match tokio::time::timeout(STUCK, r.read(&mut b)).await {
                Ok(Ok(0)) | Ok(Err(_)) => {}
                Ok(Ok(n)) => {
                    if !receive(&sh, &b[..n], &["C13", "C14"]) {
                        break;
                    }
                    viol(&["C13"], "data-after-end", format!("{}: {} bytes were delivered after the end or an error", sh.borrow().label, n));
                }
                Err(_) => {
                    if sh.borrow().sound {
                        viol(&["C13"], "stuck-after-end", format!("{}: a read after the end does not complete", sh.borrow().label));
                    }
                    break;
                }
            }
        }
    }
    r
}

fn verdict(sh: &Shared) {
    let s = sh.borrow();
    slog!("{}: accepted {} flushed {} received {} shut {} dropped {} ended {}", s.label, s.accepted.len(), s.flushed, s.received, s.shut, s.dropped, s.ended);
    if !s.sound {
        return;
    }
    if s.received < s.flushed {
        viol(&["C13"], "lost", format!("{}: {} bytes were flushed but only {} arrived", s.label, s.flushed, s.received));
    }
    if s.ended && !s.shut && !s.dropped {
        viol(&["C13"], "early-end", format!("{}: the reader saw the end of a stream that is still open", s.label));
    }
}

// ---------------------------------------------------------------- audit of the traffic

/// What is known about the plain text of a connection.
pub struct Audit {
    pub conn: usize,
    pub plain: [Vec<u8>; 2],
    /// the plain text of the package of the handshake
    pub session: Option<[u8; 32]>,
}

/// Looks for repeated keystream and for plain text on the wire.
pub fn audit(list: &[Audit]) {
    // prefix of the keystream -> connection, direction, index (None: handshake)
    let mut seen: HashMap<[u8; 8], (usize, usize, Option<usize>)> = HashMap::new();
    let mut packages = 0u64;
    for a in list {
        for dir in 0..2 {
            let tap = sn::tap(a.conn, dir);
            clear_text(&a.plain[dir], &tap, a.conn, dir);
            if let Some(k) = &a.session {
                clear_text(k, &tap, a.conn, dir);
            }
            if tap.len() < 32 {
                continue;
            }
            let mut at = 0;
            let mut idx = 0;
            for (i, p) in wire::packages(&tap[32..]).into_iter().enumerate() {
                let hs = dir == 1 && i == 0;
                let n = p.len().saturating_sub(16);
                let pt: &[u8] = if hs {
                    match &a.session {
                        Some(k) => &k[..],
                        None => continue,
                    }
                } else {
                    let e = (at + n).min(a.plain[dir].len());
                    let s = &a.plain[dir][at.min(e)..e];
                    at += n;
                    s
                };
                let index = if hs { None } else { Some(idx) };
                if !hs {
                    idx += 1;
                }
                if pt.len() < 8 || n < 8 {
                    continue;
                }
                packages += 1;
                let mut ks = [0u8; 8];
                for j in 0..8 {
                    ks[j] = p[j] ^ pt[j];
                }
                if let Some((c2, d2, i2)) = seen.insert(ks, (a.conn, dir, index)) {
                    let what = |c: usize, d: usize, i: Option<usize>| match i {
                        None => format!("the key package of connection {}", c),
                        Some(i) => format!("package {} of connection {} direction {}", i, c, d),
                    };
                    let msg = format!("{} and {} are encrypted with the same keystream", what(c2, d2, i2), what(a.conn, dir, index));
                    if c2 == a.conn && d2 != dir && index.is_some() && index == i2 {
                        rt::known("D18", "both directions of a connection use the same key and nonces");
                    } else if index.is_none() && i2.is_none() && c2 != a.conn {
                        rt::known("D19", "every connection of the same two peers encrypts its session key with the same key and nonce");
                    } else {
                        viol(&["C16"], "keystream-reuse", msg);
                        return;
                    }
                }
            }
        }
    }
    stat("audited packages", packages);
}

pub fn clear_text(plain: &[u8], tap: &[u8], conn: usize, dir: usize) {
    if plain.len() < 8 || tap.len() < 8 {
        return;
    }
    let set: HashSet<&[u8]> = plain.windows(8).collect();
    // runs of one byte may be lengths
    if let Some(w) = tap.windows(8).find(|w| w.iter().any(|b| b != &w[0]) && set.contains(w)) {
        viol(&["C16"], "clear-text", format!("application data {:02x?} is on the wire of connection {} direction {} in clear", w, conn, dir));
    }
}

/// The session key, if it can be told.
fn session(conn: usize, keys: &KeySetup, client: usize) -> Option<[u8; 32]> {
    use chacha20poly1305::{aead::Aead, ChaCha20Poly1305, KeyInit, Nonce};
    let tap = sn::tap(conn, 1);
    if tap.len() < 32 {
        return None;
    }
    let shared = keys.secret(0).diffie_hellman(&keys.public(client));
    let hs = ChaCha20Poly1305::new(shared.as_bytes().into());
    let p = wire::packages(&tap[32..]);
    hs.decrypt(Nonce::from_slice(&wire::nonce(0)), &p.first()?[..]).ok()?.try_into().ok()
}

fn distinct_sessions(list: &[Audit]) {
    let mut seen: HashMap<[u8; 32], usize> = HashMap::new();
    for a in list {
        if let Some(k) = a.session {
            if let Some(c) = seen.insert(k, a.conn) {
                viol(&["C16"], "session-key-reuse", format!("connections {} and {} have the same session key", c, a.conn));
            }
            if k.windows(8).any(|w| w.iter().all(|b| *b == w[0])) {
                viol(&["C16"], "weak-session-key", format!("the session key of connection {} is not random: {:02x?}", a.conn, k));
            }
        }
    }
}

// ---------------------------------------------------------------- enc-stream

struct SCfg {
    nc: NetCfg,
    abandon: u32,
    conns: usize,
    keys: KeySetup,
}

fn key_setup(d: D, clients: usize) -> KeySetup {
    KeySetup { base: d.u64(), clients, server_allow: d.chance(25), client_allow: d.chance(25), ttl: None }
}

/// waits for the listener of the simulated address
async fn listening(t: T, n: u16) {
    let a = match t {
        t if t.tcp() => <TcpListener as net::Tp>::sim_addr(n),
        _ => <UnixListener as net::Tp>::sim_addr(n),
    };
    crate::mesh::wait_listening(&a).await
}

async fn pair<L: net::Tp>(l: &EncryptedListener<L>, keys: &KeySetup, client: usize, limit: Duration) -> Option<(EncryptedStream<L::Stream>, EncryptedStream<L::Stream>)>
where
    EncryptedListener<L>: AsyncStreamProtocolListener<Stream = EncryptedStream<L::Stream>>,
    EncryptedStream<L::Stream>: AsyncProtocolStream<AddressType = L::AddressType, StreamOptions = EncryptionOptions<<L::Stream as AsyncProtocolStream>::StreamOptions>>,
{
    let opts = EncryptionOptions { inner_options: L::copts(keys, client), keys: keys.client_keys(client) };
    let c = tokio::time::timeout(limit, <EncryptedStream<L::Stream> as AsyncProtocolStream>::protocol_connect(L::addr(0), opts));
    let s = tokio::time::timeout(limit, l.protocol_accept());
    let (c, s) = tokio::join!(c, s);
    match (c, s) {
        (Ok(Ok(c)), Ok(Ok((s, _)))) => Some((c, s)),
        (c, s) => {
            slog!("no pair: client {:?}, server {:?}", c.map(|r| r.map(|_| ()).map_err(|e| e.to_string())), s.map(|r| r.map(|_| ()).map_err(|e| e.to_string())));
            None
        }
    }
}

async fn stream_run<L: net::Tp>(c: SCfg)
where
    EncryptedListener<L>: AsyncStreamProtocolListener<Stream = EncryptedStream<L::Stream>, AddressType = L::AddressType, ListenerOptions = EncryptionOptions<L::ListenerOptions>>,
    EncryptedStream<L::Stream>: AsyncProtocolStream<AddressType = L::AddressType, StreamOptions = EncryptionOptions<<L::Stream as AsyncProtocolStream>::StreamOptions>>,
{
    let d = cfg();
    let opts = EncryptionOptions { inner_options: L::sopts(&c.keys), keys: c.keys.server_keys() };
    let l = match EncryptedListener::<L>::protocol_bind(L::addr(0), opts).await {
        Ok(l) => l,
        Err(e) => return rt::harness_error(format!("bind: {:?}", e)),
    };
    let mut audits = vec![];
    let all = ops(2, 36);
    for k in 0..c.conns {
        let client = 1 + d.n(c.keys.clients as u32) as usize;
        let before = sn::conn_count();
        let r = pair(&l, &c.keys, client, Duration::from_secs(600)).await;
        let Some((cs, ss)) = r else {
            if !(before..sn::conn_count()).any(rt::was_cut) && c.nc.cuts == 0 {
                viol(&["C13", "C15", "C24"], "no-connection", "the key exchange between two listed peers does not complete on a sound connection");
            }
            continue;
        };
        let conn = before;
        let sound = c.nc.cuts == 0;
        let mk = |from: &str, to: &str| {
            Rc::new(RefCell::new(Dir { sound, label: format!("conn {} {}->{}", k, from, to), ..Dir::default() }))
        };
        let (up, down) = (mk("client", "server"), mk("server", "client"));
        let wp = |d: D| WProf { max: c.nc.max_payload().min(20_000), abandon: c.abandon, ending: d.weighted(&[50, 30, 20]) as u32 };
        let seed = d.u64();
        let dsteps = |dir: usize| all.iter().enumerate().filter(|x| x.0 / 2 % c.conns == k && x.0 % 2 == dir).map(|x| *x.1).collect::<Vec<_>>();
        let slow = if d.chance(30) { d.range(1, 40) } else { 0 };
        let (d0, d1) = (D(200 + 4 * k as u32), D(201 + 4 * k as u32));
        let (e0, e1) = (D(202 + 4 * k as u32), D(203 + 4 * k as u32));
        macro_rules! go {
            ($cr:expr, $cw:expr, $sr:expr, $sw:expr) => {{
                let w0 = spawn({ let (w, s, p) = ($cw, up.clone(), wp(d0)); let st = dsteps(0); async move { Ass(writer(w, s, st, e0, p, seed).await) } });
                let w1 = spawn({ let (w, s, p) = ($sw, down.clone(), wp(d1)); let st = dsteps(1); async move { Ass(writer(w, s, st, e1, p, seed ^ 77).await) } });
                let r0 = spawn({ let (r, s) = ($sr, up.clone()); let ab = c.abandon; async move { Ass(reader(r, s, d0, ab, slow).await) } });
                let r1 = spawn({ let (r, s) = ($cr, down.clone()); let ab = c.abandon; async move { Ass(reader(r, s, d1, ab, slow).await) } });
                // the ends stay alive until all have finished
                let _ = (w0.await, w1.await, r0.await, r1.await);
            }};
        }
        match d.n(3) {
            0 => {
                let (cr, cw) = cs.protocol_into_split();
                let (sr, sw) = ss.protocol_into_split();
                go!(cr, cw, sr, sw)
            }
            1 => {
                let (cr, cw) = tokio::io::split(cs);
                let (sr, sw) = tokio::io::split(ss);
                // both halves keep the transport open: what is dropped is not closed
                go!(cr, cw, sr, sw)
            }
            _ => {
                let (cr, cw) = cs.protocol_into_split();
                let (sr, sw) = tokio::io::split(ss);
                go!(cr, cw, sr, sw)
            }
        }
        verdict(&up);
        verdict(&down);
        stat("bytes through the layer", (up.borrow().received + down.borrow().received) as u64);
        let plain = [up.borrow().accepted.clone(), down.borrow().accepted.clone()];
        audits.push(Audit { conn, plain, session: session(conn, &c.keys, client) });
    }
    audit(&audits);
    distinct_sessions(&audits);
}

fn stream_cfg(d: D) -> (T, SCfg) {
    let mut nc = net::net_cfg(d);
    if d.chance(20) {
        nc.stalls = 30;
    }
    if d.chance(25) {
        nc.cuts = 35;
    }
    nc.install();
    let clients = d.range(1, 2) as usize;
    let keys = key_setup(d, clients);
    let abandon = if d.chance(50) { *d.pick(&[8u32, 25, 50]) } else { 0 };
    let t = *d.pick(&[T::Tcp, T::Unix, T::Own, T::Tcp, T::Unix, T::Tcp]);
    (t, SCfg { nc, abandon, conns: d.range(1, 3) as usize, keys })
}

pub async fn stream() {
    rt::primary(&["C13"]);
    let (t, c) = stream_cfg(cfg());
    match t {
        T::Unix => stream_run::<UnixListener>(c).await,
        T::Own => stream_run::<crate::own::OwnListener>(c).await,
        _ => stream_run::<TcpListener>(c).await,
    }
}

/// More packages than a small counter can tell apart.
pub async fn long() {
    rt::primary(&["C13", "C16"]);
    let d = cfg();
    let keys = key_setup(d, 1);
    let n = *d.pick(&[700usize, 66_200]);
    let opts = EncryptionOptions { inner_options: Default::default(), keys: keys.server_keys() };
    let l = EncryptedListener::<TcpListener>::protocol_bind(net::tcp_addr(0), opts).await.unwrap();
    let Some((mut c, mut s)) = pair::<TcpListener>(&l, &keys, 1, STUCK).await else {
        return viol(&["C13"], "no-connection", "the key exchange does not complete");
    };
    let data = bytes(d.u64(), n * 8);
    let mut got = vec![0u8; n * 8];
    let up = d.n(2) == 0;
    let (w, r) = if up { (&mut c, &mut s) } else { (&mut s, &mut c) };
    let wr = async {
        for p in data.chunks(8) {
            if w.write_all(p).await.is_err() || w.flush().await.is_err() {
                return false;
            }
        }
        true
    };
    let r = tokio::time::timeout(STUCK, async { tokio::join!(wr, r.read_exact(&mut got)) }).await;
    match r {
        Ok((true, Ok(_))) if got == data => nontrivial(),
        Ok((true, Ok(_))) => viol(&["C13", "C14"], "not-a-prefix", "the data of a long connection arrives altered"),
        r => viol(&["C13"], "long-fails", format!("a connection of {} packages fails: {:?}", n, r.map(|x| (x.0, x.1.map_err(|e| e.to_string()))).map_err(|_| "stuck"))),
    }
    let mut plain = [vec![], vec![]];
    plain[if up { 0 } else { 1 }] = data;
    audit(&[Audit { conn: 0, plain, session: session(0, &keys, 1) }]);
    drop((c, s));
}

// ---------------------------------------------------------------- man in the middle

#[derive(Clone, Debug)]
enum Tamper {
    Flip(u32, u8),
    FlipLen(u32),
    Drop,
    Dup,
    Swap,
    Shorten(u32),
    Extend(u32),
    CutMid(u32),
    Inject(u32, u64),
    /// an earlier package of the same direction
    Replay(u32),
    /// a package of the same direction and index of an earlier connection
    Cross,
    /// an earlier package of the other direction, another index
    Reflect(u32),
    /// the package of the other direction with the same index (known finding D18)
    ReflectSame,
    Split(u32),
    Merge,
    Close,
    /// replaced by the package that was sent so many packages before
    Far(usize),
}

#[derive(Default)]
struct Mitm {
    /// packages seen so far: connection -> direction -> packages (without the handshake)
    seen: Vec<[Vec<Vec<u8>>; 2]>,
    tampered: Vec<[bool; 2]>,
    /// the position of the first package the receiver must refuse, and when all of it was sent
    wrong: Vec<[Option<(usize, Option<tokio::time::Instant>)>; 2]>,
    /// plain reflection was performed
    reflected_same: bool,
}

pub async fn read_package(r: &mut (impl AsyncRead + Unpin)) -> Option<Vec<u8>> {
    let n = r.read_u32().await.ok()? as usize;
    if n > 1 << 22 {
        return None;
    }
    let mut b = vec![0u8; n];
    r.read_exact(&mut b).await.ok()?;
    Some(b)
}

pub async fn send_package(w: &mut (impl AsyncWrite + Unpin), p: &[u8]) -> bool {
    w.write_u32(p.len() as u32).await.is_ok() && w.write_all(p).await.is_ok() && w.flush().await.is_ok()
}

/// A package that is not the genuine one for its position is about to be sent, or has been.
fn wrong(m: &Rc<RefCell<Mitm>>, conn: usize, dir: usize, at: usize, done: bool) {
    let mut m = m.borrow_mut();
    let w = &mut m.wrong[conn][dir];
    match w {
        None => *w = Some((at, None)),
        Some((a, t)) if *a == at && done && t.is_none() => *t = Some(tokio::time::Instant::now()),
        _ => {}
    }
}

/// Relays one direction and performs the tampering that is planned.
async fn relay(mut r: impl AsyncRead + Unpin, mut w: impl AsyncWrite + Unpin, m: Rc<RefCell<Mitm>>, conn: usize, dir: usize, mut plan: Vec<(usize, Tamper)>) {
    let mut idx = 0usize;
    // position of the next package at the receiver
    let mut sent = 0usize;
    let mut held: Option<Vec<u8>> = None;
    plan.sort_by_key(|p| p.0);
    let mut plan = std::collections::VecDeque::from(plan);
    loop {
        let Some(p) = read_package(&mut r).await else { break };
        m.borrow_mut().seen[conn][dir].push(p.clone());
        let mut out: Vec<Vec<u8>> = vec![p.clone()];
        let mut close = false;
        let mut touched = false;
        if plan.front().map_or(false, |x| x.0 == idx) {
            let t = plan.pop_front().unwrap().1;
            let before = |k: u32| {
                let m = m.borrow();
                let s = &m.seen[conn][dir];
                if s.len() > 1 {
                    Some(s[k as usize % (s.len() - 1)].clone())
                } else {
                    None
                }
            };
            stat(&format!("fault:mitm {}", format!("{:?}", t).split('(').next().unwrap()), 1);
            slog!("tamper conn {} dir {} package {}: {:?}", conn, dir, idx, t);
            match t {
                Tamper::Flip(at, bit) => {
                    if p.is_empty() {
                        out.clear()
                    } else {
                        let at = at as usize % p.len();
                        out[0][at] ^= 1 << (bit % 8);
                    }
                    touched = true;
                }
                Tamper::FlipLen(b) => {
                    // another length with the same bytes
                    let n = p.len() as u32 ^ (1 << (b % 32));
                    touched = true;
                    out.clear();
                    wrong(&m, conn, dir, sent, false);
                    if w.write_u32(n).await.is_err() || w.write_all(&p).await.is_err() {
                        break;
                    }
                }
                Tamper::Drop => {
                    out.clear();
                    touched = true;
                }
                Tamper::Dup => {
                    out.push(p.clone());
                    // the first one is genuine
                    touched = true;
                }
                Tamper::Swap => {
                    if held.is_none() {
                        held = Some(p.clone());
                        out.clear();
                    }
                    touched = true;
                }
                Tamper::Shorten(k) => {
                    let n = p.len().saturating_sub(1 + k as usize % p.len().max(1));
                    out[0].truncate(n);
                    touched = true;
                }
                Tamper::Extend(k) => {
                    out[0].extend(bytes(k as u64, 1 + k as usize % 40));
                    touched = true;
                }
                Tamper::CutMid(k) => {
                    let n = k as usize % p.len().max(1);
                    wrong(&m, conn, dir, sent, false);
                    let _ = w.write_u32(p.len() as u32).await;
                    let _ = w.write_all(&p[..n]).await;
                    out.clear();
                    close = true;
                    touched = true;
                }
                Tamper::Inject(n, seed) => {
                    out.insert(0, bytes(seed, n as usize));
                    touched = true;
                }
                Tamper::Replay(k) => {
                    if let Some(o) = before(k) {
                        out.insert(0, o);
                        touched = true;
                    }
                }
                Tamper::Far(k) => {
                    let o = idx.checked_sub(k).and_then(|i| m.borrow().seen[conn][dir].get(i).cloned());
                    if let Some(o) = o {
                        out[0] = o;
                        touched = true;
                    }
                }
                Tamper::Cross => {
                    let o = {
                        let m = m.borrow();
                        (0..conn).rev().find_map(|c| m.seen[c][dir].get(idx).cloned())
                    };
                    if let Some(o) = o {
                        out[0] = o;
                        touched = true;
                    }
                }
                Tamper::Reflect(k) => {
                    let o = {
                        let m = m.borrow();
                        let s = &m.seen[conn][1 - dir];
                        let k = if s.is_empty() { 0 } else { k as usize % s.len() };
                        if k != sent { s.get(k).cloned() } else { None }
                    };
                    if let Some(o) = o {
                        out[0] = o;
                        touched = true;
                    }
                }
                Tamper::ReflectSame => {
                    let o = m.borrow().seen[conn][1 - dir].get(sent).cloned();
                    if let Some(o) = o {
                        if o != p {
                            out[0] = o;
                            touched = true;
                            m.borrow_mut().reflected_same = true;
                        }
                    }
                }
                Tamper::Split(k) => {
                    let n = k as usize % p.len().max(1);
                    out = vec![p[..n].to_vec(), p[n..].to_vec()];
                    touched = true;
                }
                Tamper::Merge => {
                    if let Some(next) = read_package(&mut r).await {
                        m.borrow_mut().seen[conn][dir].push(next.clone());
                        idx += 1;
                        out[0].extend(next);
                        touched = true;
                    }
                }
                Tamper::Close => {
                    out.clear();
                    close = true;
                }
            }
        }
        if touched {
            m.borrow_mut().tampered[conn][dir] = true;
        }
        if let Some(h) = held.take() {
            if !out.is_empty() {
                out.push(h);
            } else {
                held = Some(h);
            }
        }
        let mut ok = true;
        for o in out {
            let bad = m.borrow().seen[conn][dir].get(sent) != Some(&o);
            if bad {
                wrong(&m, conn, dir, sent, false);
            }
            ok &= send_package(&mut w, &o).await;
            if bad && ok {
                wrong(&m, conn, dir, sent, true);
            }
            sent += 1;
        }
        idx += 1;
        if !ok || close {
            break;
        }
    }
    let _ = w.shutdown().await;
    // drain so that the sender is not blocked
    let mut b = [0u8; 4096];
    while let Ok(n) = r.read(&mut b).await {
        if n == 0 {
            break;
        }
    }
}

/// The man in the middle of the next connection.
async fn intercept(t: T, pl: &RawListener, m: Rc<RefCell<Mitm>>, k: usize, plans: [Vec<(usize, Tamper)>; 2], hs_tamper: Option<(u32, u32, u8)>) -> Option<()> {
    let mut c = pl.accept().await.ok()?;
    let mut s = raw_connect(t, 0).await.ok()?;
    let mut pk = [0u8; 32];
    c.read_exact(&mut pk).await.ok()?;
    let flip = |b: &mut [u8], which: u32| {
        if let Some((w, at, bit)) = hs_tamper {
            if w == which && !b.is_empty() {
                let at = at as usize % b.len();
                b[at] ^= 1 << bit;
                stat("fault:mitm handshake", 1);
            }
        }
    };
    flip(&mut pk, 0);
    s.write_all(&pk).await.ok()?;
    s.read_exact(&mut pk).await.ok()?;
    flip(&mut pk, 1);
    c.write_all(&pk).await.ok()?;
    let mut p = read_package(&mut s).await?;
    flip(&mut p, 2);
    if !send_package(&mut c, &p).await {
        return None;
    }
    let (cr, cw) = tokio::io::split(c);
    let (sr, sw) = tokio::io::split(s);
    let [p0, p1] = plans;
    let m2 = m.clone();
    spawn(relay(cr, sw, m2, k, 0, p0));
    spawn(relay(sr, cw, m, k, 1, p1));
    Some(())
}

/// Connection, direction, package and what happens to it.
fn tamper(d: D, same: bool) -> (usize, usize, usize, Tamper) {
    let t = match d.n(15) {
        0 => Tamper::Flip(if d.n(2) == 0 { d.n(20000) } else { u32::MAX - d.n(16) }, d.n(8) as u8),
        1 => Tamper::FlipLen(d.n(32)),
        2 => Tamper::Drop,
        3 => Tamper::Dup,
        4 => Tamper::Swap,
        5 => Tamper::Shorten(d.n(40)),
        6 => Tamper::Extend(d.n(1000)),
        7 => Tamper::CutMid(d.n(2000)),
        8 => Tamper::Inject(*d.pick(&[0u32, 1, 15, 16, 17, 64, 1040]), d.u64()),
        9 => Tamper::Replay(d.n(10)),
        10 => Tamper::Cross,
        11 => {
            if same {
                Tamper::ReflectSame
            } else {
                Tamper::Reflect(d.n(10))
            }
        }
        12 => Tamper::Split(d.n(2000)),
        13 => Tamper::Merge,
        _ => Tamper::Close,
    };
    (d.n(12) as usize, d.n(2) as usize, d.n(10) as usize, t)
}

/// Writes chunks that become packages of their own, and lives on.
async fn feeder<W: AsyncWrite + Unpin>(mut w: W, sh: Shared, d: D, seed: u64, many: u32) -> W {
    let n = if many > 0 { many } else { d.range(1, 12) };
    for k in 0..n {
        let data = bytes(seed + k as u64, 1 + if many > 0 { (k * 7 % 40) as usize } else { d.size(1500) as usize });
        let mut at = 0;
        let mut ok = true;
        while at < data.len() && ok {
            match write_once(&mut w, &sh, &data[at..], false, None).await {
                Ok(Some(k)) => at += k,
                _ => ok = false,
            }
        }
        if !ok || !matches!(flush(&mut w, &sh, None).await, Wr::Done) {
            break;
        }
        if many == 0 && d.chance(30) {
            tokio::time::sleep(Duration::from_millis(d.n(20) as u64)).await;
        }
    }
    if d.chance(50) {
        let _ = shutdown(&mut w, &sh, None).await;
    }
    sh.borrow_mut().writer_done = true;
    w
}

/// Reads on after errors: nothing but a prefix may ever be delivered.
async fn stubborn<R: AsyncRead + Unpin>(mut r: R, sh: Shared, d: D, reflect: Rc<RefCell<Mitm>>) {
    let mut errs = 0;
    loop {
        let mut b = vec![0u8; *d.pick(&[4096usize, 1, 100, 70_000])];
        match tokio::time::timeout(STUCK, r.read(&mut b)).await {
            Ok(Ok(0)) => errs += 1,
            Ok(Ok(n)) => {
                nontrivial();
                if reflect.borrow().reflected_same {
                    // (known finding) the reflected package is accepted
                    let s = sh.borrow();
                    let at = s.received;
                    if s.accepted.get(at..at + n) != Some(&b[..n]) {
                        rt::known("D18-reflect", "a package reflected to its sender at the same position is accepted");
                        return;
                    }
                    drop(s);
                    sh.borrow_mut().received += n;
                    continue;
                }
                if !receive(&sh, &b[..n], &["C14"]) {
                    return;
                }
                if errs > 0 {
                    // it is a prefix, so nothing is wrong with the data
                    stat("probe:data after an error", 1);
                }
            }
            Ok(Err(_)) => errs += 1,
            Err(_) => {
                if errs > 0 || sh.borrow().writer_done {
                    break;
                }
            }
        }
        if errs > 6 {
            break;
        }
    }
    sh.borrow_mut().ended = errs > 0;
    sh.borrow_mut().gave_up = Some(tokio::time::Instant::now());
}

async fn mitm_run<L: net::Tp>(t: T, replay: bool)
where
    EncryptedListener<L>: AsyncStreamProtocolListener<Stream = EncryptedStream<L::Stream>, AddressType = L::AddressType, ListenerOptions = EncryptionOptions<L::ListenerOptions>>,
    EncryptedStream<L::Stream>: AsyncProtocolStream<AddressType = L::AddressType, StreamOptions = EncryptionOptions<<L::Stream as AsyncProtocolStream>::StreamOptions>>,
{
    let d = cfg();
    let keys = key_setup(d, 1);
    let same = d.chance(4);
    let opts = EncryptionOptions { inner_options: L::sopts(&keys), keys: keys.server_keys() };
    let l = EncryptedListener::<L>::protocol_bind(L::addr(0), opts).await.unwrap();
    let pl = RawListener::bind(t, 1).await;
    let m = Rc::new(RefCell::new(Mitm { reflected_same: false, ..Mitm::default() }));
    // long connections, and attacks that reach back far
    let f = D(240);
    let far = if !replay && f.chance(4) { *f.pick(&[256usize, 128, 255, 257, 512, 64, 16]) } else { 0 };
    let many = if far > 0 { far as u32 + f.range(1, 40) } else { 0 };
    let conns = if far > 0 { 1 } else { d.range(1, 3) as usize };
    let mut plans: Vec<(usize, usize, usize, Tamper)> = ops(0, 6).into_iter().map(|d| tamper(d, same)).collect();
    if far > 0 {
        plans = vec![(0, f.n(2) as usize, far + f.n(20) as usize, Tamper::Far(far))];
    }
    for k in 0..conns {
        let (pd, fd) = (D(200 + 4 * k as u32), D(201 + 4 * k as u32));
        m.borrow_mut().seen.push(Default::default());
        m.borrow_mut().tampered.push([false; 2]);
        m.borrow_mut().wrong.push([None; 2]);
        let plan = |dir: usize| plans.iter().filter(|x| x.0 % conns == k && x.1 == dir).map(|x| (x.2, x.3.clone())).collect::<Vec<_>>();
        let plans = [plan(0), plan(1)];
        let hs_tamper = if d.chance(8) { Some((d.n(3), d.n(500), d.n(8) as u8)) } else { None };
        let proxy = intercept(t, &pl, m.clone(), k, plans, hs_tamper);
        let copts = EncryptionOptions { inner_options: L::copts(&keys, 1), keys: keys.client_keys(1) };
        let limit = Duration::from_secs(30);
        let c = tokio::time::timeout(limit, <EncryptedStream<L::Stream> as AsyncProtocolStream>::protocol_connect(L::addr(1), copts));
        let s = tokio::time::timeout(limit, l.protocol_accept());
        let (px, c, s) = tokio::join!(tokio::time::timeout(limit, proxy), c, s);
        let hs_ok = hs_tamper.is_none();
        if !hs_ok {
            // with an altered handshake the client must not get through; the server cannot know
            if matches!(&c, Ok(Ok(_))) {
                let (w, at, bit) = hs_tamper.unwrap();
                // the highest bit of a public key does not matter for the shared secret
                let benign = w < 2 && at % 32 == 31 && bit == 7;
                if !benign {
                    viol(&["C14", "C15"], "tampered-handshake", format!("the client completed a key exchange that was altered in transit (part {}, byte {}, bit {})", w, at, bit));
                }
            }
            nontrivial();
            continue;
        }
        let (Ok(Ok(c)), Ok(Ok((s, _)))) = (c, s) else {
            viol(&["C13", "C15"], "no-connection", format!("the relayed key exchange does not complete (proxy {:?})", px.is_ok()));
            continue;
        };
        let mk = |n: &str| Rc::new(RefCell::new(Dir { label: format!("conn {} {}", k, n), ..Dir::default() }));
        let (up, down) = (mk("up"), mk("down"));
        let (cr, cw) = c.protocol_into_split();
        let (sr, sw) = s.protocol_into_split();
        let seed = d.u64();
        let hs = [
            spawn({ let s = up.clone(); async move { Ass(Some(feeder(cw, s, fd, seed, many).await)); } }),
            spawn({ let s = down.clone(); async move { Ass(Some(feeder(sw, s, pd, seed ^ 0xff00, many).await)); } }),
            spawn({ let (s, m) = (up.clone(), m.clone()); async move { stubborn(sr, s, pd, m).await } }),
            spawn({ let (s, m) = (down.clone(), m.clone()); async move { stubborn(cr, s, fd, m).await } }),
        ];
        for h in hs {
            let _ = h.await;
        }
        for (dir, s) in [(0, &up), (1, &down)] {
            let s = s.borrow();
            let t = m.borrow().tampered[k][dir];
            let closed = m.borrow().seen[k][dir].len();
            slog!("{}: accepted {} flushed {} received {} tampered {} packages {}", s.label, s.accepted.len(), s.flushed, s.received, t, closed);
            if let Some((at, when)) = m.borrow().wrong[k][dir].filter(|_| !m.borrow().reflected_same) {
                // everything before the altered package at most
                let most: usize = m.borrow().seen[k][dir][..at].iter().map(|p| p.len().saturating_sub(16)).sum();
                if s.received > most {
                    viol(&["C14"], "tampered-accepted", format!("{}: {} bytes were delivered although package {}, after {} bytes, was altered in transit", s.label, s.received, at, most));
                }
                stat("probe:altered package", 1);
                if !s.ended && when.map_or(false, |w| s.gave_up.map_or(false, |g| g >= w + STUCK)) {
                    viol(&["C14"], "tampered-unnoticed", format!("{}: package {} was altered in transit and the connection does not fail", s.label, at));
                }
            }
        }
    }
    // the recording of a whole session, served to a client that connects again
    if replay {
        let tap = sn::tap(1, 1);
        let replays = async {
            let mut c = pl.accept().await.ok()?;
            let mut pk = [0u8; 32];
            c.read_exact(&mut pk).await.ok()?;
            c.write_all(&tap).await.ok()?;
            tokio::time::sleep(Duration::from_secs(5)).await;
            Some(())
        };
        let copts = EncryptionOptions { inner_options: L::copts(&keys, 1), keys: keys.client_keys(1) };
        let client = async {
            let c = tokio::time::timeout(Duration::from_secs(30), <EncryptedStream<L::Stream> as AsyncProtocolStream>::protocol_connect(L::addr(1), copts)).await;
            if let Ok(Ok(mut c)) = c {
                let mut b = vec![0u8; 64];
                if let Ok(Ok(n)) = tokio::time::timeout(Duration::from_secs(30), c.read(&mut b)).await {
                    if n > 0 {
                        rt::known("D20", "a client accepts the replay of everything the server sent in an earlier connection");
                    }
                }
            }
        };
        tokio::join!(replays, client);
    }
}

thread_local! {
    /// events handled by the server behind the man in the middle: client number, event, intact
    static HANDLED: RefCell<Vec<(usize, usize, bool)>> = RefCell::new(vec![]);
}

fn event_data(seed: u64, k: usize, i: usize, len: usize) -> Vec<u8> {
    let mut v = vec![k as u8, i as u8];
    v.extend(bytes(seed ^ ((k as u64) << 32 | i as u64), len));
    v
}

/// Real nodes with a man in the middle: what is handled is a prefix of what was emitted.
async fn mitm_ipc<L: net::Tp>(t: T)
where
    EncryptedListener<L>: net::Tp
        + AsyncStreamProtocolListener<Stream = EncryptedStream<L::Stream>, AddressType = L::AddressType, ListenerOptions = EncryptionOptions<L::ListenerOptions>>,
    EncryptedStream<L::Stream>: AsyncProtocolStream<AddressType = L::AddressType, StreamOptions = EncryptionOptions<<L::Stream as AsyncProtocolStream>::StreamOptions>>,
{
    let d = cfg();
    let keys = key_setup(d, 1);
    let seed = d.u64();
    let len = |i: usize| (seed >> (i % 50)) as usize % 1500;
    {
        let b = IPCBuilder::<EncryptedListener<L>>::new()
            .address(L::addr(0))
            .server_options(EncryptionOptions { inner_options: L::sopts(&keys), keys: keys.server_keys() })
            .on("ping", move |_, ev| {
                let b = ev.data_raw();
                let (k, i) = (b.first().copied().unwrap_or(255) as usize, b.get(1).copied().unwrap_or(255) as usize);
                let ok = b == &event_data(seed, k, i, (seed >> (i % 50)) as usize % 1500)[..];
                HANDLED.with(|h| h.borrow_mut().push((k, i, ok)));
                slog!("handled {} {} {}", k, i, ok);
                nontrivial();
                Box::pin(async move { Ok(Response::empty()) })
            });
        spawn(async move {
            let _ = b.build_server().await;
            viol(&["C12"], "server-ended", "the server ended");
        });
    }
    listening(t, 0).await;
    let pl = RawListener::bind(t, 1).await;
    let m = Rc::new(RefCell::new(Mitm::default()));
    let conns = d.range(1, 3) as usize;
    let plans: Vec<(usize, usize, usize, Tamper)> = ops(0, 5).into_iter().map(|d| tamper(d, false)).collect();
    let mut emitted: Vec<usize> = vec![];
    for k in 0..conns {
        m.borrow_mut().seen.push(Default::default());
        m.borrow_mut().tampered.push([false; 2]);
        m.borrow_mut().wrong.push([None; 2]);
        let plan = |dir: usize| plans.iter().filter(|x| x.0 % conns == k && x.1 == dir).map(|x| (x.2, x.3.clone())).collect::<Vec<_>>();
        let n = d.range(1, 10) as usize;
        let requests = d.chance(50);
        let opts = EncryptionOptions { inner_options: L::copts(&keys, 1), keys: keys.client_keys(1) };
        let c = tokio::time::timeout(STUCK, IPCBuilder::<EncryptedListener<L>>::new().address(L::addr(1)).client_options(opts).build_client());
        let (_, c) = tokio::join!(intercept(t, &pl, m.clone(), k, [plan(0), plan(1)], None), c);
        let Ok(Ok(ctx)) = c else {
            viol(&["C15", "C24"], "no-connection", "the relayed key exchange does not complete");
            emitted.push(0);
            continue;
        };
        emitted.push(n);
        for i in 0..n {
            let e = ctx.emit("ping", BytePayload::new(event_data(seed, k, i, len(i))));
            if requests {
                let r = tokio::time::timeout(STUCK, e.await_reply().with_timeout(Duration::from_secs(3))).await;
                match r {
                    Ok(Ok(ev)) => {
                        if !HANDLED.with(|h| h.borrow().contains(&(k, i, true))) || ev.data_raw().len() > 0 {
                            viol(&["C14", "C03"], "false-answer", format!("request {} of client {} was answered although it was not handled", i, k));
                        }
                    }
                    Ok(Err(_)) => {}
                    Err(_) => viol(&["C07", "C14"], "request-stuck", "a request on a connection that is tampered with never resolves".to_string()),
                }
            } else if tokio::time::timeout(STUCK, e).await.is_err() {
                viol(&["C14", "C19"], "emit-stuck", "an emit on a connection that is tampered with never completes".to_string());
            }
        }
        tokio::time::sleep(Duration::from_secs(1)).await;
        let _ = ctx.stop().await;
    }
    tokio::time::sleep(Duration::from_secs(1)).await;
    let h = HANDLED.with(|h| h.borrow().clone());
    for (k, n) in emitted.iter().enumerate() {
        let mut got: Vec<usize> = h.iter().filter(|x| x.0 == k).map(|x| x.1).collect();
        got.sort();
        let prefix = got.iter().enumerate().all(|(i, g)| i == *g) && got.len() <= *n;
        if !prefix {
            viol(&["C14", "C01"], "handled-not-prefix", format!("{} events were emitted by client {}, those handled are {:?}", n, k, got));
        }
        if !m.borrow().tampered[k][0] && !plans.iter().any(|p| p.0 % conns == k) && got.len() != *n {
            viol(&["C13", "C01"], "lost", format!("{} events were emitted by client {} on an undisturbed connection, {} were handled", n, k, got.len()));
        }
    }
    if h.iter().any(|x| !x.2 || x.0 >= conns) {
        viol(&["C14", "C01"], "altered", format!("altered events were handled: {:?}", h));
    }
}

pub async fn mitm_app() {
    rt::primary(&["C14", "C12", "C10"]);
    crate::sys::REFUSE.store(16 << 20, std::sync::atomic::Ordering::SeqCst);
    let d = cfg();
    let t = if d.n(3) == 0 { T::Unix } else { T::Tcp };
    let nc = NetCfg { caps: 2, latency: 0, jitter: 0, short: *d.pick(&[0u8, 40]), pend: 0, stalls: 0, cuts: 0 };
    nc.install();
    match t {
        T::Unix => mitm_ipc::<UnixListener>(t).await,
        _ => mitm_ipc::<TcpListener>(t).await,
    }
}

pub async fn mitm() {
    rt::primary(&["C14", "C10"]);
    crate::sys::REFUSE.store(16 << 20, std::sync::atomic::Ordering::SeqCst);
    let d = cfg();
    let t = if d.n(3) == 0 { T::Unix } else { T::Tcp };
    let nc = NetCfg { caps: 2, latency: 0, jitter: 0, short: *d.pick(&[0u8, 40]), pend: 0, stalls: 0, cuts: 0 };
    nc.install();
    let replay = d.chance(3);
    match t {
        T::Unix => mitm_run::<UnixListener>(t, replay).await,
        _ => mitm_run::<TcpListener>(t, replay).await,
    }
}

// ---------------------------------------------------------------- who gets in

thread_local! {
    static AUTH: RefCell<Auth> = RefCell::new(Auth { handled: HashMap::new() });
}

struct Auth {
    /// key of the peer (see `Peer`) -> handled pings
    handled: HashMap<u64, u64>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Who {
    /// a real client with a listed key
    Listed,
    /// a real client with an unlisted key
    Unlisted,
    /// an independent implementation with a listed key
    RawListed,
    /// an independent implementation with an unlisted key
    RawUnlisted,
    /// presents a listed key without owning it
    Impostor,
    /// degenerate public keys
    LowOrder,
    /// a key that differs from a listed one in a single byte
    Near,
    /// a real client that meets a false server
    FalseServer,
    /// a real client that meets an independent server
    RawServer,
}

pub fn low_order(k: u32) -> [u8; 32] {
    let mut b = [0u8; 32];
    match k {
        0 => {}
        1 => b[0] = 1,
        2 => b.copy_from_slice(&[0xe0, 0xeb, 0x7a, 0x7c, 0x3b, 0x41, 0xb8, 0xae, 0x16, 0x56, 0xe3, 0xfa, 0xf1, 0x9f, 0xc4, 0x6a, 0xda, 0x09, 0x8d, 0xeb, 0x9c, 0x32, 0xb1, 0xfd, 0x86, 0x62, 0x05, 0x16, 0x5f, 0x49, 0xb8, 0x00]),
        3 => {
            b = [0xff; 32];
            b[0] = 0xec;
            b[31] = 0x7f;
        }
        _ => {
            b = [0xff; 32];
            b[0] = 0xed;
            b[31] = 0x7f;
        }
    }
    b
}

/// The client side of the key exchange, implemented independently.
pub async fn raw_client_exchange(io: &mut BoxIo, secret: &x25519_dalek::StaticSecret) -> Option<[u8; 32]> {
    use chacha20poly1305::{aead::Aead, ChaCha20Poly1305, KeyInit, Nonce};
    let pk = x25519_dalek::PublicKey::from(secret);
    io.write_all(pk.as_bytes()).await.ok()?;
    let mut sp = [0u8; 32];
    io.read_exact(&mut sp).await.ok()?;
    let shared = secret.diffie_hellman(&sp.into());
    let p = read_package(io).await?;
    let hs = ChaCha20Poly1305::new(shared.as_bytes().into());
    hs.decrypt(Nonce::from_slice(&wire::nonce(0)), &p[..]).ok()?.try_into().ok()
}

pub fn seal(key: &[u8; 32], n: u64, data: &[u8]) -> Vec<u8> {
    use chacha20poly1305::{aead::Aead, ChaCha20Poly1305, KeyInit, Nonce};
    ChaCha20Poly1305::new(key.into()).encrypt(Nonce::from_slice(&wire::nonce(n)), data).unwrap()
}

pub fn open(key: &[u8; 32], n: u64, data: &[u8]) -> Option<Vec<u8>> {
    use chacha20poly1305::{aead::Aead, ChaCha20Poly1305, KeyInit, Nonce};
    ChaCha20Poly1305::new(key.into()).decrypt(Nonce::from_slice(&wire::nonce(n)), data).ok()
}

fn ping_frame(who: u64, id: u64) -> Vec<u8> {
    crate::codec::Frame::new(id, 0, None, None, "ping", who.to_be_bytes().to_vec()).encode()
}

/// The secrets that bromine makes up must be of no use to anybody else.
fn secrets() {
    let mut all: Vec<[u8; 32]> = (0..8).map(|_| bromine::utils::generate_secret().to_bytes()).collect();
    all.extend((0..8).map(|_| EncryptionOptions::<tcp::TcpOptions>::default().keys.secret.to_bytes()));
    for i in 0..32 {
        for (what, part) in [("generated", &all[..8]), ("default", &all[8..])] {
            if part.iter().all(|s| s[i] == part[0][i]) {
                return viol(&["C15", "C16"], "weak-secret", format!("byte {} of all {} secrets is {:#x}", i, what, part[0][i]));
            }
        }
    }
    let n = all.iter().collect::<std::collections::BTreeSet<_>>().len();
    if n != all.len() {
        viol(&["C15", "C16"], "weak-secret", format!("{} of {} secrets are different", n, all.len()));
    }
}

/// The servers a client knows: as they are; none; many; or only keys that are nearly the right one. Returns
/// whether the true server is among them.
fn known_servers(d: D, keys: &KeySetup, kk: &mut Keys) -> bool {
    if !d.chance(35) {
        return true;
    }
    let way = d.n(4);
    stat(&format!("probe:a client's list of servers, way {}", way), 1);
    match way {
        0 => {
            kk.known_peers = vec![];
            false
        }
        1 => {
            kk.known_peers = vec![];
            for _ in 0..d.range(1, 5) {
                let mut b = *keys.public(0).as_bytes();
                b[*d.pick(&[0usize, 31, 15, 1, 30])] ^= 1 << d.n(7);
                kk.known_peers.push(b.into());
            }
            false
        }
        2 => {
            kk.known_peers = (0..*d.pick(&[1usize, 2, 64, 257])).map(|i| keys.public(2000 + i)).collect();
            false
        }
        _ => {
            for i in 0..*d.pick(&[1usize, 15, 64, 256, 300]) {
                let at = d.n(kk.known_peers.len() as u32 + 1) as usize;
                kk.known_peers.insert(at, keys.public(2000 + i));
            }
            true
        }
    }
}

async fn auth_run<L: net::Tp>(t: T)
where
    EncryptedListener<L>: net::Tp
        + AsyncStreamProtocolListener<Stream = EncryptedStream<L::Stream>, AddressType = L::AddressType, ListenerOptions = EncryptionOptions<L::ListenerOptions>>,
    EncryptedStream<L::Stream>: AsyncProtocolStream<AddressType = L::AddressType, StreamOptions = EncryptionOptions<<L::Stream as AsyncProtocolStream>::StreamOptions>>,
{
    let d = cfg();
    let clients = d.range(1, 3) as usize;
    let mut keys = key_setup(d, clients);
    keys.server_allow = d.chance(25);
    keys.client_allow = d.chance(20);
    let allow = keys.server_allow;
    if D(242).chance(10) {
        secrets();
    }
    let mut sk: Keys = keys.server_keys();
    // keys nobody owns, next to the key of a peer that is not listed
    let stranger = 50usize;
    if !allow {
        for _ in 0..d.n(4) {
            let mut b = *keys.public(stranger).as_bytes();
            b[*d.pick(&[0usize, 31, 15, 1, 30])] ^= 1 << d.n(7);
            sk.known_peers.push(b.into());
        }
        if d.chance(10) {
            sk.known_peers = vec![];
        }
    }
    // many others are listed as well
    let md = D(241);
    if !allow && !sk.known_peers.is_empty() && md.chance(40) {
        let more = *md.pick(&[8usize, 1, 15, 33, 64, 127, 256, 300]);
        for i in 0..more {
            let at = md.n(sk.known_peers.len() as u32 + 1) as usize;
            sk.known_peers.insert(at, keys.public(1000 + i));
        }
        stat("probe:long lists of known peers", 1);
    }
    let nobody = !allow && sk.known_peers.is_empty();
    {
        let b = IPCBuilder::<EncryptedListener<L>>::new()
            .address(L::addr(0))
            .server_options(EncryptionOptions { inner_options: L::sopts(&keys), keys: sk })
            .on("ping", move |_, ev| {
                let who = ev.data_raw().try_into().map(u64::from_be_bytes).unwrap_or(u64::MAX);
                AUTH.with(|a| *a.borrow_mut().handled.entry(who).or_default() += 1);
                slog!("ping of peer {}", who);
                Box::pin(async move { Ok(Response::empty()) })
            });
        spawn(async move {
            let r = b.build_server().await;
            viol(&["C12", "C15"], "server-ended", format!("the server ended: {:?}", r.map_err(|e| e.to_string())));
        });
    }
    listening(t, 0).await;
    let fl = Rc::new(RawListener::bind(t, 1).await);
    let limit = Duration::from_secs(60);
    let mut recorded: Vec<usize> = vec![];
    let mut expect: Vec<(u64, Who, bool, bool)> = vec![];
    for (n, d) in ops(3, 9).into_iter().enumerate() {
        let me = n as u64 + 1;
        let who = *d.pick(&[Who::Listed, Who::Unlisted, Who::RawListed, Who::RawUnlisted, Who::Impostor, Who::LowOrder, Who::Near, Who::FalseServer, Who::RawServer, Who::Impostor]);
        stat(&format!("peer:{:?}", who), 1);
        let before = sn::conn_count();
        let c = 1 + d.n(clients as u32) as usize;
        match who {
            Who::Listed | Who::Unlisted | Who::Near => {
                let (own, listed) = match who {
                    Who::Listed => (c, !nobody),
                    Who::Unlisted => (60 + n, false),
                    _ => (stranger, false),
                };
                let mut kk = keys.client_keys(own);
                let knows = known_servers(D(243), &keys, &mut kk);
                let may = (allow || listed) && (keys.client_allow || knows);
                let opts = EncryptionOptions { inner_options: L::copts(&keys, 1), keys: kk };
                let r = tokio::time::timeout(limit, IPCBuilder::<EncryptedListener<L>>::new().address(L::addr(0)).client_options(opts).build_client()).await;
                let mut answered = false;
                let connected = matches!(&r, Ok(Ok(_)));
                if let Ok(Ok(ctx)) = &r {
                    let r = ctx.emit("ping", BytePayload::new(me.to_be_bytes().to_vec())).await_reply().with_timeout(Duration::from_secs(20)).await;
                    answered = r.is_ok();
                    slog!("{:?} {}: {:?}", who, me, r.map(|_| ()).map_err(|e| e.to_string()));
                }
                if may && !(connected && answered) {
                    viol(&["C15"], "listed-refused", format!("peer {} ({:?}), which may connect, is not served: connected {}, answered {}", me, who, connected, answered));
                }
                if !may && (connected || answered) {
                    viol(&["C15", "C24"], "unlisted-connected", format!("peer {} ({:?}) is not listed, or does not know the server, but its client was built (answered: {})", me, who, answered));
                }
                if r.is_err() {
                    viol(&["C15", "C24"], "hangs", format!("building the client of peer {} ({:?}) neither succeeds nor fails", me, who));
                }
                if may {
                    recorded.push(before);
                }
                expect.push((me, who, may, true));
                if let Ok(Ok(ctx)) = r {
                    let _ = ctx.stop().await;
                }
            }
            Who::RawListed | Who::RawUnlisted => {
                let own = if who == Who::RawListed { c } else { 70 + n };
                let may = allow || (who == Who::RawListed && !nobody);
                let Ok(mut io) = raw_connect(t, 0).await else { continue };
                let k = tokio::time::timeout(limit, raw_client_exchange(&mut io, &keys.secret(own))).await;
                let Ok(k) = k else {
                    viol(&["C15"], "hangs", format!("the key exchange of {:?} neither completes nor fails", who));
                    continue;
                };
                if let Some(k) = k {
                    if !may {
                        viol(&["C15"], "unlisted-accepted", format!("the server completed the key exchange with peer {} ({:?})", me, who));
                    }
                    let _ = send_package(&mut io, &seal(&k, 0, &ping_frame(me, 1 << 40 | me))).await;
                    let r = tokio::time::timeout(Duration::from_secs(20), read_package(&mut io)).await;
                    let ans = matches!(&r, Ok(Some(p)) if open(&k, 0, p).is_some());
                    if may && !ans {
                        viol(&["C15", "C11"], "listed-refused", format!("peer {} ({:?}), an independent implementation, is not answered", me, who));
                    }
                } else if may {
                    viol(&["C15"], "listed-refused", format!("the key exchange of peer {} ({:?}) fails", me, who));
                } else {
                    // talk nevertheless
                    let _ = send_package(&mut io, &seal(&[0; 32], 0, &ping_frame(me, 1 << 40 | me))).await;
                    let _ = io.write_all(&ping_frame(me, 1 << 41 | me)).await;
                    tokio::time::sleep(Duration::from_secs(1)).await;
                }
                expect.push((me, who, may, true));
            }
            Who::Impostor | Who::LowOrder => {
                let pk = if who == Who::Impostor { *keys.public(c).as_bytes() } else { low_order(d.n(5)) };
                let may = allow || (who == Who::Impostor && !nobody);
                let Ok(mut io) = raw_connect(t, 0).await else { continue };
                let _ = io.write_all(&pk).await;
                let mut sp = [0u8; 32];
                let got = matches!(tokio::time::timeout(Duration::from_secs(20), io.read_exact(&mut sp)).await, Ok(Ok(_)));
                let p = if got { tokio::time::timeout(Duration::from_secs(20), read_package(&mut io)).await.ok().flatten() } else { None };
                if !may && p.is_some() {
                    viol(&["C15"], "unlisted-accepted", format!("the server completed the key exchange with a peer that is not listed ({:?})", who));
                }
                // what a thief can try
                let mut tries: Vec<Vec<u8>> = vec![];
                let frame = ping_frame(me, 1 << 40 | me);
                for _ in 0..d.range(1, 4) {
                    match d.n(7) {
                        0 => tries.push(seal(&[0; 32], 0, &frame)),
                        1 => tries.push(seal(&pk, 0, &frame)),
                        2 => tries.push(seal(&sp, 0, &frame)),
                        3 => tries.push(frame.clone()),
                        4 => {
                            if let Some(p) = &p {
                                tries.push(p.clone())
                            }
                        }
                        5 => {
                            // what the owner sent earlier
                            if let Some(c) = recorded.last() {
                                if let Some(tap) = sn::tap(*c, 0).get(32..) {
                                    tries.extend(wire::packages(tap));
                                }
                            }
                        }
                        _ => tries.push(bytes(d.u64(), d.n(200) as usize)),
                    }
                }
                for x in &tries {
                    if d.n(2) == 0 {
                        let _ = send_package(&mut io, x).await;
                    } else {
                        let _ = io.write_all(x).await;
                    }
                }
                // and what it can read
                if let (Some(p), Who::Impostor) = (&p, who) {
                    for k in [[0u8; 32], pk, sp] {
                        if open(&k, 0, p).is_some() {
                            viol(&["C15", "C16"], "readable", "the session key can be read by an impostor".to_string());
                        }
                    }
                }
                tokio::time::sleep(Duration::from_secs(1)).await;
                // degenerate keys give a shared secret everybody knows; that peer is as good as its key
                if who == Who::LowOrder && allow {
                    continue;
                }
                expect.push((me, who, false, false));
            }
            Who::FalseServer | Who::RawServer => {
                let honest = who == Who::RawServer;
                let own = if honest { 0 } else { 90 + n };
                let stolen = !honest && d.n(2) == 0;
                let fl2 = fl.clone();
                let (ks, keys2) = (keys.secret(own), keys.clone());
                let rec = recorded.last().copied();
                let kind = d.n(6);
                let seed = d.u64();
                let srv = spawn(async move {
                    let mut io = fl2.accept().await.ok()?;
                    let mut pk = [0u8; 32];
                    io.read_exact(&mut pk).await.ok()?;
                    let show = if stolen { keys2.public(0) } else { x25519_dalek::PublicKey::from(&ks) };
                    io.write_all(show.as_bytes()).await.ok()?;
                    let shared = ks.diffie_hellman(&pk.into());
                    let session: [u8; 32] = bytes(seed, 32).try_into().unwrap();
                    let key_package = if stolen {
                        match kind {
                            0 => bytes(seed, 48),
                            1 => seal(shared.as_bytes(), 0, &session),
                            2 => seal(&[0; 32], 0, &session),
                            3 => vec![],
                            4 => session.to_vec(),
                            _ => {
                                // one of the later packages of the real server
                                let p = rec.map(|c| wire::packages(sn::tap(c, 1).get(32..).unwrap_or(&[]))).unwrap_or_default();
                                p.get(1).cloned().unwrap_or_else(|| bytes(seed, 48))
                            }
                        }
                    } else {
                        seal(shared.as_bytes(), 0, &session)
                    };
                    if !send_package(&mut io, &key_package).await {
                        return None;
                    }
                    let p = tokio::time::timeout(Duration::from_secs(30), read_package(&mut io)).await.ok()??;
                    for k in [session, [0; 32], *shared.as_bytes()] {
                        if let Some(x) = open(&k, 0, &p) {
                            let f = crate::codec::decode_one(&x).ok()??.0;
                            let end = crate::codec::Frame::new(77, crate::codec::END, Some(f.id), None, "end", vec![]).encode();
                            let _ = send_package(&mut io, &seal(&k, 0, &end)).await;
                            tokio::time::sleep(Duration::from_secs(30)).await;
                            return Some(x);
                        }
                    }
                    None
                });
                let mut kk = keys.client_keys(c);
                let knows = known_servers(D(243), &keys, &mut kk);
                let opts = EncryptionOptions { inner_options: L::copts(&keys, c), keys: kk };
                let r = tokio::time::timeout(limit, IPCBuilder::<EncryptedListener<L>>::new().address(L::addr(1)).client_options(opts).build_client()).await;
                let may = (honest && knows) || (keys.client_allow && !stolen);
                let built = matches!(&r, Ok(Ok(_)));
                let mut answered = false;
                if let Ok(Ok(ctx)) = r {
                    let r = ctx.emit("ping", BytePayload::new(me.to_be_bytes().to_vec())).await_reply().with_timeout(Duration::from_secs(20)).await;
                    answered = r.is_ok();
                    let _ = ctx.stop().await;
                } else if r.is_err() && !stolen {
                    viol(&["C15", "C24"], "hangs", "building a client neither succeeds nor fails although the server answered".to_string());
                }
                if may && !(built && answered) {
                    viol(&["C15", "C11"], "listed-refused", format!("a client does not work with a server it may connect to ({:?}, built {}, answered {})", who, built, answered));
                }
                if !may && built {
                    viol(&["C15", "C24"], "false-server", format!("a client completed the connection to a server that is not listed (key stolen: {}, way {})", stolen, kind));
                }
                let read = srv.await.ok().flatten();
                if !may && read.is_some() {
                    viol(&["C15", "C16"], "readable", "application data is readable by an impostor".to_string());
                }
            }
        }
    }
    tokio::time::sleep(Duration::from_secs(5)).await;
    nontrivial();
    let h = &AUTH.with(|a| a.borrow().handled.clone());
    for (me, who, may, sends) in &expect {
        let n = h.get(me).copied().unwrap_or(0);
        if !*may && n > 0 {
            viol(&["C15"], "dispatched", format!("{} events of peer {} ({:?}), which is not allowed, were handled", n, me, who));
        }
        if *may && *sends && n != 1 {
            viol(&["C15", "C01"], "listed-unserved", format!("the event of peer {} ({:?}) was handled {} times", me, who, n));
        }
    }
    for (who, n) in h {
        if !expect.iter().any(|e| e.0 == *who) && *who != 0 {
            // (peers that were left out above)
            slog!("{} events of peer {}", n, who);
        }
    }
}

pub async fn auth() {
    rt::primary(&["C15", "C12", "C10"]);
    crate::sys::REFUSE.store(16 << 20, std::sync::atomic::Ordering::SeqCst);
    let d = cfg();
    let t = *d.pick(&[T::Tcp, T::Unix, T::Own, T::Tcp, T::Unix, T::Tcp]);
    let nc = NetCfg { caps: d.n(3), latency: *d.pick(&[0u32, 20]), jitter: 0, short: *d.pick(&[0u8, 40]), pend: 0, stalls: 0, cuts: 0 };
    nc.install();
    match t {
        T::Own => auth_run::<crate::own::OwnListener>(t).await,
        T::Unix => auth_run::<UnixListener>(t).await,
        _ => auth_run::<TcpListener>(t).await,
    }
}
