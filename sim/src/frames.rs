//! The events and the transports of the library, used on their own: whoever has a stream can write events
//! to it and read them from it, and understands what others wrote in the specified layout.

use crate::codec::{self, Frame};
use crate::net::{self, KeySetup, Tp, T};
use crate::rt::{self, cfg, nontrivial, ops, stat, viol, D};
use crate::world::spawn;
use crate::{slog, with_transport};
use bromine::event::EventType;
use bromine::prelude::*;
use bromine::protocol::AsyncStreamProtocolListener;
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};
use tokio::time::timeout;

const LONG: Duration = Duration::from_secs(2000);

#[derive(Clone, Debug)]
enum Msg {
    /// made with the library
    Lib { ty: u8, ns: Option<String>, name: String, re: u64, size: usize },
    /// made by an independent implementation
    Own(Frame),
}

fn text(d: D, n: usize) -> String {
    match d.n(4) {
        0 => "n".repeat(n),
        1 => "é".repeat(n / 2),
        2 => "a\0\u{feff}\n".chars().cycle().take(n / 2).collect(),
        _ => (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect(),
    }
}

fn msg(d: D, max: u32) -> Msg {
    let name_len = *d.pick(&[1u32, 0, 3, 20, 255, 256, 1000, 5000]);
    let name = text(d, name_len.min(max) as usize);
    let ns = if d.n(2) == 0 { None } else { Some(text(d, 1 + (*d.pick(&[0u32, 5, 40, 254, 255, 256, 3000])).min(max) as usize)).filter(|s| !s.is_empty()) };
    let ty = d.n(4) as u8;
    let re = *d.pick(&[1u64, 0, u64::MAX, 1 << 63, 0xff00ff00ff00ff00]);
    let size = d.size(max) as usize;
    if d.n(2) == 0 {
        return Msg::Lib { ty, ns, name, re, size };
    }
    let mut f = Frame::new(d.u64(), ty, if d.n(2) == 0 { Some(re) } else { None }, ns.as_deref(), &name, crate::enc_bytes(re ^ size as u64, size));
    if d.n(2) == 1 {
        f.ver = [0, d.n(256) as u8, d.n(256) as u8];
    }
    if d.n(2) == 1 {
        let n = *d.pick(&[1usize, 2, 8, 100, 255, 256, 4000]);
        f.ext = crate::enc_bytes(n as u64, n);
    }
    Msg::Own(f)
}

/// A frame that is none.
fn broken(d: D) -> (Vec<u8>, &'static str) {
    let f = Frame::new(d.u64(), d.n(4) as u8, Some(7), Some("space"), "name", vec![5; d.n(40) as usize]);
    let mut b = f.encode();
    let put = |b: &mut Vec<u8>, at: usize, v: &[u8]| b[at..at + v.len()].copy_from_slice(v);
    let what = match d.n(9) {
        0 => {
            let n = d.n(f.header().len() as u32) as u64;
            put(&mut b, 0, &n.to_be_bytes());
            "total length below the header length"
        }
        1 => {
            let n = *d.pick(&[u64::MAX, u64::MAX - 9, 1 << 63, 1 << 40, (1 << 31) + 5, 1 << 30]);
            put(&mut b, 0, &n.to_be_bytes());
            "absurd total length"
        }
        2 => {
            b[10] = d.range(1, 255) as u8;
            "other major version"
        }
        3 => {
            b[21] = d.range(4, 255) as u8;
            "unknown type"
        }
        4 => {
            b[22] = d.range(1, 254) as u8;
            "unknown reference marker"
        }
        5 => {
            put(&mut b, 31, &(*d.pick(&[0xffffu16, 0x8000, 400])).to_be_bytes());
            "namespace beyond the header"
        }
        6 => {
            b[33 + d.n(5) as usize] = *d.pick(&[0xffu8, 0xc0, 0x80]);
            "namespace that is no text"
        }
        7 => {
            let n = *d.pick(&[0u16, 1, 10, 12, 20]);
            put(&mut b, 8, &n.to_be_bytes());
            "header that is too short"
        }
        _ => {
            let n = d.n(b.len() as u32) as usize;
            b.truncate(n);
            "truncated frame"
        }
    };
    (b, what)
}

fn shows(ev: &Event, f: &Frame) -> bool {
    ev.id() == f.id
        && u8::from(ev.event_type()) == f.ty
        && ev.reference_id() == f.ref_id
        && *ev.namespace() == f.ns
        && ev.name() == f.name
        && ev.data_raw() == f.data
}

fn build(m: &Msg) -> Option<(Vec<u8>, Frame)> {
    match m {
        Msg::Own(f) => Some((f.encode(), f.clone())),
        Msg::Lib { ty, ns, name, re, size } => {
            let data = crate::enc_bytes(*re, *size);
            let (ns2, name2, b) = (ns.clone(), name.clone(), bytes::Bytes::from(data.clone()));
            let (ev, re) = match ty {
                0 => (Event::initiator(ns2, name2, b), None),
                1 => (Event::response(ns2, name2, b, *re), Some(*re)),
                2 => (Event::end(ns2, name2, b, *re), Some(*re)),
                _ => (Event::error(ns2, name2, b, *re), Some(*re)),
            };
            let want = Frame::new(ev.id(), *ty, re, ns.as_deref(), name, data);
            if !shows(&ev, &want) {
                viol(&["C11", "C09"], "constructor", format!("an event that was created as {:?} is {:?}", brief(&want), (ev.event_type(), ev.reference_id(), ev.namespace(), ev.name(), ev.data_raw().len())));
            }
            let fits = want.header().len() <= u16::MAX as usize && name.len() <= u16::MAX as usize;
            match (ev.into_bytes(), fits) {
                (Ok(b), true) => {
                    match codec::decode_one(&b) {
                        Ok(Some((f, n))) if n == b.len() && f == want => {}
                        x => viol(&["C09", "C11"], "bad-frame", format!("{:?} is encoded as {} bytes, which are {:?}", brief(&want), b.len(), x.map(|o| o.map(|(f, n)| (brief(&f), n))))),
                    }
                    Some((b.to_vec(), want))
                }
                (Ok(_), false) => {
                    viol(&["C09"], "unrepresentable", format!("{:?} cannot be represented, but was encoded", brief(&want)));
                    None
                }
                (Err(_), false) => {
                    stat("probe:events that cannot be represented", 1);
                    None
                }
                (Err(e), true) => {
                    viol(&["C09"], "refused", format!("{:?} cannot be encoded: {:?}", brief(&want), e));
                    None
                }
            }
        }
    }
}

fn brief(f: &Frame) -> (u64, u8, Option<u64>, Option<usize>, usize, usize, [u8; 3], usize) {
    (f.id, f.ty, f.ref_id, f.ns.as_ref().map(|n| n.len()), f.name.len(), f.data.len(), f.ver, f.ext.len())
}

struct Side {
    frames: Vec<Frame>,
    bytes: Vec<u8>,
    bad: Option<&'static str>,
    steps: Vec<usize>,
}

fn side(d: D, max: u32) -> Side {
    let mut s = Side { frames: vec![], bytes: vec![], bad: None, steps: vec![] };
    for _ in 0..d.n(14) {
        let mut m = msg(d, max);
        if let (Msg::Lib { name, ns, .. }, true) = (&mut m, d.chance(8)) {
            // around and beyond what fits
            *name = "x".repeat(*d.pick(&[65_535usize, 65_536, 70_000, 65_000, 65_500]));
            if max < 5000 {
                name.push_str(&"y".repeat(70_000));
            }
            *ns = ns.take().filter(|_| d.n(2) == 0);
        }
        if let Some((b, f)) = build(&m) {
            s.bytes.extend_from_slice(&b);
            s.frames.push(f);
        }
    }
    if d.chance(40) {
        let (b, what) = broken(d);
        s.bad = if b.is_empty() { None } else { Some(what) };
        s.bytes.extend_from_slice(&b);
    }
    let mut left = s.bytes.len();
    while left > 0 {
        let n = if s.steps.len() > 200 { left } else { (*d.pick(&[70_000usize, 1, 7, 10, 100, 1023, 1024, 1025, 5000])).min(left) };
        s.steps.push(n);
        left -= n;
    }
    s
}

async fn writer<W: tokio::io::AsyncWrite + Unpin>(mut w: W, s: std::rc::Rc<Side>, pause: u32, conn: usize, dir: usize) -> W {
    let mut at = 0;
    for n in &s.steps {
        let r = timeout(LONG, async {
            w.write_all(&s.bytes[at..at + n]).await?;
            w.flush().await
        })
        .await;
        at += n;
        match r {
            Ok(Ok(())) => {}
            // the other side may have given up
            Ok(Err(e)) => {
                slog!("connection {} direction {}: writing fails: {:?}", conn, dir, e.kind());
                return w;
            }
            Err(_) if s.bad.is_some() || rt::was_cut(conn) => return w,
            Err(_) => {
                viol(&["C13", "C21"], "write-hangs", format!("connection {} direction {}: writing does not proceed", conn, dir));
                return w;
            }
        }
        if pause > 0 {
            tokio::time::sleep(Duration::from_millis((at as u32 % pause) as u64)).await;
        }
    }
    let _ = timeout(LONG, w.shutdown()).await;
    w
}

async fn reader<R: tokio::io::AsyncRead + Unpin>(r: &mut R, s: std::rc::Rc<Side>, own: bool, conn: usize, dir: usize, enc: bool) {
    let tags: &[&str] = if enc { &["C11", "C13", "C01"] } else { &["C11", "C09"] };
    if own {
        // an independent implementation reads
        let mut b = vec![];
        let mut buf = [0u8; 3000];
        loop {
            match timeout(LONG, r.read(&mut buf)).await {
                Ok(Ok(n)) if n > 0 => b.extend_from_slice(&buf[..n]),
                Ok(_) => break,
                Err(_) if rt::was_cut(conn) => break,
                Err(_) => return viol(tags, "read-hangs", format!("connection {} direction {}: no end of file", conn, dir)),
            }
        }
        let whole = b.len() == s.bytes.len();
        if b[..] != s.bytes[..b.len().min(s.bytes.len())] || !(whole || rt::was_cut(conn)) {
            viol(if enc { &["C13", "C01"] } else { &["C01"] }, "bytes", format!("connection {} direction {}: {} bytes arrived of {}", conn, dir, b.len(), s.bytes.len()));
        }
        return;
    }
    for (i, f) in s.frames.iter().enumerate() {
        match timeout(LONG, Event::from_async_read(r)).await {
            Ok(Ok(ev)) if shows(&ev, f) => stat("probe:events read", 1),
            Ok(Ok(ev)) => {
                return viol(tags, "misread", format!("connection {} direction {}: event {} {:?} was read as {:?}", conn, dir, i, brief(f), (ev.id(), ev.event_type(), ev.reference_id(), ev.namespace().as_ref().map(|n| n.len()), ev.name().len(), ev.data_raw().len())))
            }
            _ if rt::was_cut(conn) => return,
            Ok(Err(e)) => return viol(tags, "not-read", format!("connection {} direction {}: event {} {:?} cannot be read: {:?}", conn, dir, i, brief(f), e)),
            Err(_) => return viol(tags, "read-hangs", format!("connection {} direction {}: event {} {:?} is never read", conn, dir, i, brief(f))),
        }
    }
    match timeout(LONG, Event::from_async_read(r)).await {
        Ok(Err(e)) => {
            slog!("connection {} direction {}: {:?} after {} events, {:?}", conn, dir, s.bad, s.frames.len(), e);
            if let Some(w) = s.bad {
                stat(&format!("fault:{}", w), 1);
            }
        }
        Ok(Ok(ev)) => viol(&["C10", "C11"], "phantom", format!("connection {} direction {}: {} was read as {:?}", conn, dir, s.bad.unwrap_or("nothing"), (ev.id(), ev.event_type(), ev.name().len(), ev.data_raw().len()))),
        Err(_) if rt::was_cut(conn) => {}
        Err(_) => viol(&["C10", "C11"], "read-hangs", format!("connection {} direction {}: {} neither fails nor ends", conn, dir, s.bad.unwrap_or("end of file"))),
    }
}

async fn frames_run<L: Tp>(t: T)
where
    L::AddressType: 'static,
{
    let d = cfg();
    let mut nc = net::net_cfg(d);
    if d.chance(20) {
        nc.cuts = 40;
    }
    let max = nc.max_payload();
    nc.install();
    let keys = KeySetup { base: d.u64(), clients: 1, server_allow: d.chance(50), client_allow: d.chance(50), ttl: None };
    let enc = t.encrypted();
    let l = match L::protocol_bind(L::addr(1), L::sopts(&keys)).await {
        Ok(l) => l,
        Err(e) => return viol(&["C24"], "bind", format!("{:?}", e)),
    };
    let mut hs = vec![];
    for od in ops(1, 4) {
        let before = tokio::sim::net::conn_count();
        let c = spawn(<L::Stream as AsyncProtocolStream>::protocol_connect(L::addr(1), L::copts(&keys, 1)));
        let a = timeout(LONG, l.protocol_accept()).await;
        let c = timeout(LONG, c).await;
        let conn = before;
        let (c, a) = match (c, a) {
            (Ok(Ok(Ok(c))), Ok(Ok((a, _)))) => (c, a),
            (c, a) => {
                if !rt::was_cut(conn) {
                    viol(&["C24", "C13"], "no-connection", format!("connection {}: connecting {:?}, accepting {:?}", conn, c.map(|r| r.map(|r| r.map(|_| ()).map_err(|e| e.to_string())).map_err(|_| ())), a.map(|r| r.map(|_| ()).map_err(|e| e.to_string()))));
                }
                // (the listener may still hold a half finished exchange)
                continue;
            }
        };
        nontrivial();
        let (cr, cw) = c.protocol_into_split();
        let (ar, aw) = a.protocol_into_split();
        let up = std::rc::Rc::new(side(od, max));
        let down = std::rc::Rc::new(side(od, max));
        slog!("connection {}: {} and {} events, {} and {} bytes", conn, up.frames.len(), down.frames.len(), up.bytes.len(), down.bytes.len());
        let (p, q) = (*od.pick(&[0u32, 0, 5, 300]), *od.pick(&[0u32, 0, 5, 300]));
        let (o1, o2) = (od.chance(25), od.chance(25));
        // the halves are kept until all is over: whoever closes a socket with unread data resets it
        hs.push(spawn(async move {
            let (mut cr, mut ar) = (cr, ar);
            let r = futures::join!(
                writer(cw, up.clone(), p, conn, 0),
                writer(aw, down.clone(), q, conn, 1),
                reader(&mut ar, up.clone(), o1, conn, 0, enc),
                reader(&mut cr, down.clone(), o2, conn, 1, enc)
            );
            drop((r, cr, ar));
        }));
    }
    for h in hs {
        let _ = timeout(LONG * 50, h).await;
    }
}

pub async fn frames() {
    rt::primary(&["C09", "C10", "C11"]);
    crate::sys::REFUSE.store(16 << 20, std::sync::atomic::Ordering::SeqCst);
    let t = net::pick_transport(cfg());
    with_transport!(t, frames_run(t));
}
