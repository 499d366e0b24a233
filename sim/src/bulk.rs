//! Large numbers: requests in flight, replies of a stream, events, clients, bytes, time-outs.

use crate::net::{self, KeySetup, NetCfg, Tp, T};
use crate::rt::{self, cfg, nontrivial, stat, viol, D};
use crate::world::spawn;
use crate::{slog, with_transport};
use bromine::error_event::ErrorEventData;
use bromine::event::{Event, EventType};
use bromine::prelude::*;
use futures::future::join_all;
use futures::StreamExt;
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::Duration;
use trait_bound_typemap::TypeMapKey;

const LONG: Duration = Duration::from_secs(100_000);

/// Counts that are likely to be limits of something, and their neighbours.
const COUNTS: &[u32] = &[8, 1, 16, 32, 64, 100, 128, 256, 300, 500, 512, 1000, 1024, 2000, 4096];

fn count(d: D, max: u32) -> u32 {
    let c: Vec<u32> = COUNTS.iter().copied().filter(|c| *c <= max).collect();
    (*d.pick(&c) + d.n(3)).min(max)
}

struct HitsKey;
impl TypeMapKey for HitsKey {
    type Value = u64;
}

#[derive(Default)]
struct Tally {
    /// side and number of the event -> invocations
    seen: HashMap<(u8, u64), u64>,
    /// replies that reached no waiter
    stray: u64,
    errors: u64,
}

type Shared = Arc<Mutex<Tally>>;

/// Number n and then filler up to the size.
fn bytes(n: u64, size: usize) -> Vec<u8> {
    let mut v = Vec::with_capacity(size.max(8));
    v.extend_from_slice(&n.to_be_bytes());
    let mut x = n.wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    while v.len() < size {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        let b = x.to_le_bytes();
        let k = (size - v.len()).min(8);
        v.extend_from_slice(&b[..k]);
    }
    v
}

fn num(b: &[u8]) -> u64 {
    b.get(..8).map_or(u64::MAX, |b| u64::from_be_bytes(b.try_into().unwrap()))
}

fn word(b: &[u8], i: usize) -> u64 {
    num(b.get(8 * i..).unwrap_or_default())
}

/// The reply to the request n: other bytes, as long as those of the request.
fn answer(req: &[u8]) -> Vec<u8> {
    bytes(num(req).wrapping_mul(31).wrapping_add(7), req.len())
}

/// What a handler fails with: as long as its event.
fn failure(n: u64, size: usize) -> String {
    let s = if size > 100 { "0é".repeat(size / 3) } else { String::new() };
    format!("bulk failure {} {} last", n, s)
}

fn delay(n: u64, kind: u64) -> Duration {
    Duration::from_millis(match kind {
        0 => 0,
        1 => n.wrapping_mul(7919) % 50,
        2 => n.wrapping_mul(104_729) % 5000,
        // the first ones are the last ones to be answered
        _ => 10_000u64.saturating_sub(n % 10_000),
    })
}

/// Items that hold nothing.
fn hollow(n: u64, i: u64, size: u64) -> bool {
    n % 3 == 1 && size != 4 && i % 5 == 4
}

fn words(ws: &[u64]) -> Vec<u8> {
    ws.iter().flat_map(|w| w.to_be_bytes()).collect()
}

fn equip<L: Tp>(b: IPCBuilder<L>, s: &Shared, side: u8) -> IPCBuilder<L> {
    let (s1, s2, s3, s4) = (s.clone(), s.clone(), s.clone(), s.clone());
    let seen = move |s: &Shared, n: u64| *s.lock().unwrap().seen.entry((side, n)).or_insert(0) += 1;
    b.on("echo", move |ctx, ev| {
        let n = num(ev.data_raw());
        seen(&s1, n);
        Box::pin(async move {
            let kind = ev.data_raw().last().map_or(0, |b| (*b % 4) as u64);
            tokio::time::sleep(delay(n, kind)).await;
            if n % 5 == 0 {
                // as a reply in advance of the end
                ctx.emit("reply", BytePayload::new(answer(ev.data_raw()))).await?;
                return Ok(Response::empty());
            }
            if n % 7 == 0 {
                return Err(IPCError::from(failure(n, ev.data_raw().len())));
            }
            ctx.response(BytePayload::new(answer(ev.data_raw())))
        })
    })
    .on("note", move |ctx, ev| {
        seen(&s2, num(ev.data_raw()));
        let ok = ev.data_raw() == bytes(num(ev.data_raw()), ev.data_raw().len());
        if !ok {
            viol(&["C01", "C22"], "altered", format!("event {} of {} bytes was altered", num(ev.data_raw()), ev.data_raw().len()));
        }
        Box::pin(async move {
            let mut data = ctx.data.write().await;
            match data.get_mut::<HitsKey>() {
                Some(h) => *h += 1,
                None => viol(&["C23"], "no-data", "the data inserted at build time is not there"),
            }
            Ok(Response::empty())
        })
    })
    .on("items", move |ctx, ev| {
        seen(&s3, num(ev.data_raw()));
        Box::pin(async move {
            let (n, m, size, gap) = (num(ev.data_raw()), word(ev.data_raw(), 1), word(ev.data_raw(), 2), word(ev.data_raw(), 3));
            for i in 0..m {
                if gap > 0 && i % gap == 0 {
                    tokio::time::sleep(Duration::from_millis(1 + i % 30)).await;
                }
                let data = if hollow(n, i, size) { vec![] } else { [words(&[n, i]), bytes(i, size as usize)].concat() };
                ctx.emit("item", BytePayload::new(data)).await?;
            }
            ctx.response(BytePayload::new(words(&[n, m])))
        })
    })
    .on("typed", |ctx, ev| {
        // kind, number, size, and the payload proper
        let raw = ev.data_raw().len();
        let res = untyped(&ev);
        Box::pin(async move {
            match res {
                Ok((kind, n, size)) => ctx.response(typed(kind, n + 1, size)),
                Err(e) => {
                    viol(&["C22", "C01"], "altered", format!("a payload of {} bytes is not what was sent: {}", raw, e));
                    Err(IPCError::from("altered"))
                }
            }
        })
    })
    .on("later", |ctx, ev| {
        Box::pin(async move {
            tokio::time::sleep(Duration::from_millis(word(ev.data_raw(), 1))).await;
            ctx.response(BytePayload::new(answer(ev.data_raw())))
        })
    })
    .on("never", |_, _| Box::pin(futures::future::pending()))
    .on("reply", move |_, _| {
        s4.lock().unwrap().stray += 1;
        Box::pin(async { Ok(Response::empty()) })
    })
    .on("error", {
        let s = s.clone();
        move |_, ev| {
            s.lock().unwrap().errors += 1;
            if ev.payload::<ErrorEventData>().is_err() {
                viol(&["C05", "C22"], "error-payload", "the payload of an error event cannot be decoded");
            }
            Box::pin(async { Ok(Response::empty()) })
        }
    })
}

/// The same values in one of the forms of payloads.
struct Typed {
    kind: u64,
    n: u64,
    size: u64,
}

fn typed(kind: u64, n: u64, size: u64) -> Typed {
    Typed { kind, n, size }
}

#[cfg(feature = "full")]
type Value = (u64, String, Vec<u32>, Option<Vec<u8>>);

#[cfg(feature = "full")]
fn value(n: u64, size: u64) -> Value {
    let s = size as usize;
    let text: String = (0..s / 3).map(|i| ['a', 'é', '"', '\n', '€', 'z'][(n as usize + i) % 6]).collect();
    (n, text, (0..s / 12).map(|i| (i as u32).wrapping_mul(2654435761)).collect(), Some(bytes(n, s / 4)))
}

/// What comes before the payload proper.
type Head = TandemPayload<BytePayload, BytePayload>;

impl Typed {
    fn load(&self, ctx: &Context) -> IPCResult<bytes::Bytes> {
        let (n, s) = (self.n, self.size as usize);
        let raw = |k: u64, s: usize| BytePayload::new(bytes(n + k, s));
        match self.kind {
            0 => raw(0, s).into_payload(ctx),
            1 => TandemPayload::new(raw(0, s), raw(1, s / 2)).into_payload(ctx),
            2 => TandemPayload::new(TandemPayload::new(raw(0, s / 2), raw(1, 0)), raw(2, s)).into_payload(ctx),
            3 => ErrorEventData { code: (n % 65536) as u16, message: failure(n, s) }.into_payload(ctx),
            #[cfg(feature = "full")]
            4 => value(n, s as u64).into_payload(ctx),
            #[cfg(feature = "full")]
            k @ 5..=8 => SerdePayload::new(crate::world::fmt((k - 5) as u8), value(n, s as u64)).into_payload(ctx),
            #[cfg(feature = "full")]
            _ => TandemPayload::new(raw(0, s), TandemPayload::new(value(n, s as u64), raw(1, s / 3))).into_payload(ctx),
            #[cfg(not(feature = "full"))]
            _ => raw(0, s).into_payload(ctx),
        }
    }
    fn check(&self, b: &[u8]) -> Result<(), String> {
        let (n, s) = (self.n, self.size as usize);
        let raw = |k: u64, s: usize| bytes(n + k, s);
        let same = |what: &str, got: &[u8], want: &[u8]| if got == want { Ok(()) } else { Err(format!("{} of {} bytes is decoded to {} bytes", what, want.len(), got.len())) };
        let e = |e: IPCError| format!("{:?}", e).chars().take(200).collect::<String>();
        match self.kind {
            1 => {
                let (a, b) = TandemPayload::<BytePayload, BytePayload>::from_payload(b).map_err(e)?.into_inner();
                same("the first part", &a.into_inner(), &raw(0, s))?;
                same("the second part", &b.into_inner(), &raw(1, s / 2))
            }
            2 => {
                let (a, b) = TandemPayload::<TandemPayload<BytePayload, BytePayload>, BytePayload>::from_payload(b).map_err(e)?.into_inner();
                let (x, y) = a.into_inner();
                same("the first part", &x.into_inner(), &raw(0, s / 2))?;
                same("the second part", &y.into_inner(), &raw(1, 0))?;
                same("the third part", &b.into_inner(), &raw(2, s))
            }
            3 => {
                let d = ErrorEventData::from_payload(b).map_err(e)?;
                if d.code != (n % 65536) as u16 {
                    return Err(format!("code {}", d.code));
                }
                same("an error message", d.message.as_bytes(), failure(n, s).as_bytes())
            }
            #[cfg(feature = "full")]
            4..=8 => {
                if Value::from_payload(b).map_err(e)? == value(n, s as u64) {
                    Ok(())
                } else {
                    Err("another value".into())
                }
            }
            #[cfg(feature = "full")]
            9 => {
                let (a, b) = TandemPayload::<BytePayload, TandemPayload<Value, BytePayload>>::from_payload(b).map_err(e)?.into_inner();
                let (v, b) = b.into_inner();
                same("the first part", &a.into_inner(), &raw(0, s))?;
                same("the third part", &b.into_inner(), &raw(1, s / 3))?;
                if v == value(n, s as u64) {
                    Ok(())
                } else {
                    Err("another value".into())
                }
            }
            _ => same("a payload", &BytePayload::from_payload(b).map_err(e)?.into_inner(), &raw(0, s)),
        }
    }
}

impl IntoPayload for Typed {
    fn into_payload(self, ctx: &Context) -> IPCResult<bytes::Bytes> {
        let head = words(&[self.kind, self.n, self.size]);
        let load = self.load(ctx)?;
        TandemPayload::new(BytePayload::new(head), BytePayload::from(load)).into_payload(ctx)
    }
}

/// Decodes and checks a payload.
fn untyped(ev: &Event) -> Result<(u64, u64, u64), String> {
    let (h, b) = ev.payload::<Head>().map_err(|e| format!("{:?}", e))?.into_inner();
    let h = h.into_inner();
    let t = typed(num(&h), word(&h, 1), word(&h, 2));
    t.check(&b.into_bytes())?;
    Ok((t.kind, t.n, t.size))
}

async fn exchange(ctx: &Context, kind: u64, n: u64, size: u64) {
    match ctx.emit("typed", typed(kind, n, size)).await_reply().with_timeout(LONG).await {
        Err(e) => viol(&["C22", "C01", "C21"], "no-reply", format!("a payload of form {} and size {}: {:?}", kind, size, e).chars().take(300).collect::<String>()),
        Ok(ev) => match untyped(&ev) {
            Ok(x) if x == (kind, n + 1, size) => {}
            x => viol(&["C22", "C01"], "altered", format!("the reply {:?} to a payload of form {} and size {}", x, kind, size)),
        },
    }
}

/// All requests at once, each gets its own reply.
async fn requests(ctxs: &[Context], n0: u64, n: u32, size: usize, kind: u8) {
    let one = |i: u64| {
        let ctx = ctxs[i as usize % ctxs.len()].clone();
        async move {
            let mut b = bytes(n0 + i, size);
            let l = b.len();
            if l > 8 {
                b[l - 1] = kind;
            } else {
                b.push(kind);
            }
            let want = answer(&b);
            let sent = b.len();
            let r = ctx.emit("echo", BytePayload::new(b)).await_reply().with_timeout(LONG).await;
            let id = n0 + i;
            match r {
                Ok(ev) if id % 7 == 0 && id % 5 != 0 => {
                    viol(&["C05", "C03"], "no-error", format!("the failure of handler {} was reported as {:?} of {} bytes", id, ev.event_type(), ev.data_raw().len()))
                }
                Ok(ev) if ev.data_raw() == want => {}
                Ok(ev) => viol(&["C03", "C01", "C22"], "foreign-reply", format!("request {} got the reply {} ({} bytes)", id, num(ev.data_raw()), ev.data_raw().len())),
                Err(IPCError::ErrorEvent(e)) if id % 7 == 0 && id % 5 != 0 => {
                    let text = failure(id, sent);
                    if e.code != 500 || !e.message.contains(&text) {
                        let what: String = e.message.chars().take(60).collect();
                        viol(&["C05", "C03", "C22"], "foreign-error", format!("request {} got the error {} {:?} of {} B, expected {} B", id, e.code, what, e.message.len(), text.len()));
                    }
                }
                Err(e) => viol(&["C03", "C21", "C07"], "no-reply", format!("request {} of {} failed: {:?}", id, n, e)),
            }
        }
    };
    let all = join_all((0..n as u64).map(|i| spawn(one(i))));
    if tokio::time::timeout(LONG / 2, all).await.is_err() {
        viol(&["C21", "C03"], "hang", format!("{} concurrent requests never complete", n));
    }
    stat("probe:bulk requests", n as u64);
}

async fn stream(ctx: Context, n: u64, m: u64, size: u64, gap: u64, think: u64) {
    let req = ctx.emit("items", BytePayload::new(words(&[n, m, size, gap]))).stream_replies().with_timeout(LONG / 4).await;
    let mut st = match req {
        Ok(s) => s,
        Err(e) => return viol(&["C04", "C21"], "stream-failed", format!("stream {} failed: {:?}", n, e)),
    };
    for i in 0..m {
        if think > 0 && i % think == 0 {
            tokio::time::sleep(Duration::from_millis(1 + i % 25)).await;
        }
        match st.next().await {
            Some(Ok(ev)) if hollow(n, i, size) && ev.data_raw().is_empty() && ev.event_type() == EventType::Response => {}
            Some(Ok(ev)) if word(ev.data_raw(), 0) == n && word(ev.data_raw(), 1) == i && ev.event_type() == EventType::Response && !hollow(n, i, size) => {
                if ev.data_raw()[16..] != bytes(i, size as usize)[..] {
                    viol(&["C04", "C01"], "altered", format!("item {} of stream {} was altered", i, n));
                }
            }
            Some(Ok(ev)) => return viol(&["C04"], "wrong-item", format!("item {} of {} of stream {} is {:?} ({}, {})", i, m, n, ev.event_type(), word(ev.data_raw(), 0), word(ev.data_raw(), 1))),
            Some(Err(e)) => return viol(&["C04", "C07", "C21"], "item-error", format!("item {} of {} of stream {} is the error {:?}", i, m, n, e)),
            None => return viol(&["C04"], "early-end", format!("stream {} of {} items ended after {}", n, m, i)),
        }
    }
    match st.next().await {
        Some(Ok(ev)) if ev.event_type() == EventType::End && ev.data_raw() == words(&[n, m]) => {}
        Some(Ok(ev)) => viol(&["C04"], "wrong-end", format!("stream {} ends with {:?} of {} bytes", n, ev.event_type(), ev.data_raw().len())),
        Some(Err(e)) => viol(&["C04", "C07"], "wrong-end", format!("stream {} ends with {:?}", n, e)),
        None => viol(&["C04"], "no-end", format!("stream {} has no end event", n)),
    }
    if let Some(x) = st.next().await {
        viol(&["C04"], "after-end", format!("stream {} goes on with {:?} after its end", n, x.map(|e: Event| e.event_type())));
    }
}

async fn streams(ctxs: &[Context], n0: u64, k: u32, m: u64, size: u64, gap: u64, think: u64) {
    let all = join_all((0..k as u64).map(|i| spawn(stream(ctxs[i as usize % ctxs.len()].clone(), n0 + i, m, size, gap, think))));
    if tokio::time::timeout(LONG, all).await.is_err() {
        viol(&["C21", "C04"], "hang", format!("{} concurrent streams of {} items never complete", k, m));
    }
    stat("probe:bulk stream items", k as u64 * m);
}

async fn notes(ctxs: &[Context], n0: u64, n: u32, size: usize, tasks: u32) {
    let all = join_all((0..tasks as u64).map(|t| {
        let ctxs = ctxs.to_vec();
        spawn(async move {
            let mut i = t;
            while i < n as u64 {
                let r = ctxs[i as usize % ctxs.len()].emit("note", BytePayload::new(bytes(n0 + i, size))).await;
                if let Err(e) = r {
                    viol(&["C01", "C21", "C17"], "emit-failed", format!("emitting event {} of {} failed: {:?}", i, n, e));
                }
                i += tasks as u64;
            }
        })
    }));
    if tokio::time::timeout(LONG, all).await.is_err() {
        viol(&["C21", "C01"], "hang", format!("emitting {} events never completes", n));
    }
    stat("probe:bulk events", n as u64);
}

/// Uses up as many event ids as a counter of that width has, but for a few.
fn jump(bits: u32, less: u32) {
    let id = || Event::initiator(None, String::new(), Default::default()).id() as u32;
    let to = id().wrapping_add((1u32 << bits).saturating_sub(less).max(1));
    while id() != to {}
    slog!("ids jump by 2^{} - {}", bits, less);
    stat("probe:jumps of the id counter", 1);
}

/// Time limits at the ends of the range.
async fn extreme(ctx: &Context, d: D, n0: u64) {
    let lim = *d.pick(&[Duration::MAX, Duration::ZERO, Duration::from_nanos(1), Duration::from_secs(u64::MAX), Duration::from_secs(1 << 40), Duration::from_millis(u32::MAX as u64 + 1), Duration::from_secs(u32::MAX as u64 + 1), Duration::from_millis(1)]);
    let n = n0 * 35 + 1;
    let mut b = bytes(n, 20);
    b[19] = 2;
    let mut takes = delay(n, 2);
    let t0 = tokio::sim::now_ns();
    let streamed = d.n(2) == 1;
    let mut name = *d.pick(&["echo", "echo", "never", "later"]);
    if name == "later" && n0 > 1 {
        name = "echo";
    }
    if name == "later" {
        // handlers take their time (tokio confuses timers when some are set for years and a run goes on for
        // more than twelve days)
        takes = Duration::from_secs(*d.pick(&[90_000u64, 31, 61, 301, 3601, 43_201, 300_000]));
        b = words(&[n, takes.as_millis() as u64]);
    }
    let want = answer(&b);
    let r = async {
        let e = ctx.emit(name, BytePayload::new(b));
        if streamed {
            let mut s = e.stream_replies().with_timeout(lim).await?;
            s.next().await.unwrap_or(Err(IPCError::Message("ended".into())))
        } else {
            e.await_reply().with_timeout(lim).await
        }
    };
    let r = tokio::time::timeout(Duration::from_secs(100_000) + takes, r).await;
    let ms = (tokio::sim::now_ns() - t0) / 1_000_000;
    slog!("limit {:?} {} streamed {}: {:?} after {} ms", lim, name, streamed, r.as_ref().map(|r| r.as_ref().map(|e| e.event_type()).map_err(|e| e.to_string())).map_err(|_| "none"), ms);
    let short = lim < Duration::from_secs(1);
    match r {
        // this is a long time
        Err(_) if name == "never" && !short => {}
        Ok(Ok(ev)) if name != "never" && ev.data_raw() == want => {}
        Ok(Err(IPCError::Timeout)) if short && ms < 5000 => {}
        Err(_) => viol(&["C07", "C21"], "no-timeout", format!("a request with the time limit {:?} (reply after {:?}) never resolves", lim, takes)),
        Ok(Ok(ev)) => viol(&["C03", "C07", "C06"], "foreign-reply", format!("a request for {} got {:?} ({} bytes) after {} ms", name, ev.event_type(), ev.data_raw().len(), ms)),
        Ok(Err(e)) => viol(&["C07", "C06"], "wrong-timeout", format!("a request with the time limit {:?} (reply after {:?}) resolved with {:?} after {} ms", lim, takes, e, ms)),
    }
    stat("fault:extreme time limits", 1);
}

/// A consumer that waits for something else on the same connection between the items of its stream.
async fn lockstep(ctx: &Context, d: D, n0: u64) {
    let m = *d.pick(&[3u64, 1, 5, 6, 7, 8, 9, 10, 12, 20, 40]);
    let lim = Duration::from_secs(20);
    let open = |n: u64| {
        let ctx = ctx.clone();
        async move {
            let r = ctx.emit("items", BytePayload::new(words(&[n, m, 4, 0]))).stream_replies().with_timeout(lim).await;
            r.map_err(|e| viol(&["C04", "C21"], "stream-failed", format!("stream {} failed: {:?}", n, e))).ok()
        }
    };
    let zip = d.n(2) == 1;
    let (mut a, mut b) = match (open(n0).await, if zip { open(n0 + 1).await } else { None }) {
        (Some(a), b) => (a, b),
        _ => return,
    };
    if zip && b.is_none() {
        return;
    }
    let known = |what: &str, i: u64| {
        // 8 replies are buffered by a stream, one more by the reader of the connection
        if m + 1 - i > 8 {
            rt::known("D21", format!("{} between two items of a stream with {} outstanding replies timed out", what, m + 1 - i));
            true
        } else {
            viol(&["C21", "C04", "C07"], "lockstep", format!("{} between two items of a stream with only {} outstanding replies timed out", what, m + 1 - i));
            false
        }
    };
    for i in 0..=m {
        match a.next().await {
            Some(Ok(ev)) if i == m && ev.event_type() == EventType::End => {}
            Some(Ok(ev)) if i < m && word(ev.data_raw(), 1) == i => {}
            Some(Err(IPCError::Timeout)) if zip => {
                known("waiting for another stream", i);
                return;
            }
            x => return viol(&["C04", "C21"], "wrong-item", format!("item {} of {} of stream {} is {:?}", i, m, n0, x.map(|r| r.map(|e| e.event_type())))),
        }
        if let Some(b) = b.as_mut() {
            match b.next().await {
                Some(Ok(ev)) if i == m && ev.event_type() == EventType::End => {}
                Some(Ok(ev)) if i < m && word(ev.data_raw(), 1) == i => {}
                Some(Err(IPCError::Timeout)) => {
                    known("waiting for another stream", i + 1);
                    return;
                }
                x => return viol(&["C04", "C21"], "wrong-item", format!("item {} of {} of stream {} is {:?}", i, m, n0 + 1, x.map(|r| r.map(|e| e.event_type())))),
            }
        } else if d.n(3) == 0 {
            let req = bytes(5 * (n0 + i), 12);
            let want = answer(&req);
            match ctx.emit("echo", BytePayload::new([&req[..11], &[0][..]].concat())).await_reply().with_timeout(lim).await {
                Ok(ev) if ev.data_raw()[..8] == want[..8] => stat("probe:requests between items", 1),
                Ok(ev) => viol(&["C03"], "foreign-reply", format!("{} bytes", ev.data_raw().len())),
                Err(IPCError::Timeout) => {
                    if !known("a request", i + 1) {
                        return;
                    }
                }
                Err(e) => viol(&["C21", "C03"], "no-reply", format!("a request between two items failed: {:?}", e)),
            }
        }
    }
}

/// Is dropped when it was polled so many times.
struct Abandoned<F> {
    fut: std::pin::Pin<Box<F>>,
    left: u32,
}

impl<F: std::future::Future> std::future::Future for Abandoned<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        if self.left == 0 {
            return std::task::Poll::Ready(None);
        }
        self.left -= 1;
        let r = self.fut.as_mut().poll(cx);
        if r.is_pending() && self.left == 0 {
            cx.waker().wake_by_ref();
        }
        r.map(Some)
    }
}

/// Large events among many small ones on the same connection; some of the large ones are given up. Returns how
/// many of the events 5000.. are to be handled.
async fn mixed(c: &Context, d: D) -> u64 {
    let one = [c.clone()];
    let size = |d: D| *d.pick(&[4_300_000usize, 100_000, 65_537, 300_000, 1 << 20, 2_200_000, 5_000_000, 9_000_000]) + d.n(40) as usize;
    let large: Vec<usize> = (0..d.range(1, 3)).map(|_| size(d)).collect();
    let left: Vec<(usize, u32)> = (0..d.n(3)).map(|_| (size(d), d.range(1, 40))).collect();
    let (k, small) = (large.len() as u64, d.range(1, 120));
    stat("fault:large sends given up", left.len() as u64);
    let mut jobs = vec![];
    for (i, n) in large.into_iter().enumerate() {
        let one = one.clone();
        jobs.push(spawn(async move { notes(&one, 5000 + i as u64, 1, n, 1).await }));
    }
    for (i, (n, polls)) in left.into_iter().enumerate() {
        let c = c.clone();
        jobs.push(spawn(async move {
            let fut = Box::pin(async move { c.emit("note", BytePayload::new(bytes(20_000 + i as u64, n))).await });
            let r = Abandoned { fut, left: polls }.await;
            slog!("large event {} given up: {}", i, r.is_none());
        }));
    }
    let (o1, o2, o3) = (one.clone(), one.clone(), one.clone());
    let (nr, ns, items) = (d.n(30), d.n(3), d.range(1, 60) as u64);
    jobs.push(spawn(async move { notes(&o1, 6000, small, 20, 4).await }));
    jobs.push(spawn(async move { requests(&o2, 1000, nr, 40, 1).await }));
    jobs.push(spawn(async move { streams(&o3, 3000, ns, items, 10, 3, 0).await }));
    if tokio::time::timeout(LONG, join_all(jobs)).await.is_err() {
        viol(&["C21", "C08", "C09"], "hang", "large and small events never complete".to_string());
    }
    k + small as u64
}

/// The bytes on every connection are whole frames, and those of the notes are the notes.
fn wire_check(t: T, keys: &KeySetup) {
    let n = tokio::sim::net::conn_count();
    let total: usize = (0..n).map(|c| tokio::sim::net::tap(c, 0).len() + tokio::sim::net::tap(c, 1).len()).sum();
    if total > 80_000_000 || n > 40 {
        return;
    }
    stat("probe:bulk bytes read on the wire", total as u64);
    for c in 0..n {
        let Some(plain) = crate::wire::plaintext(c, t, keys, 1) else { continue };
        for dir in 0..2 {
            let (f, used, e) = crate::codec::decode_all(&plain[dir]);
            if let Some(e) = e {
                viol(&["C09", "C01", "C08"], "bad-frame", format!("connection {} direction {}: after {} bytes ({} frames): {}", c, dir, used, f.len(), e));
            } else if used != plain[dir].len() {
                viol(&["C09", "C01", "C08"], "partial-frame", format!("connection {} direction {} ends in the middle of a frame", c, dir));
            }
            for f in f {
                if f.name == "note" && f.data != bytes(num(&f.data), f.data.len()) {
                    viol(&["C09", "C01"], "altered-frame", format!("the frame of event {} ({} B) does not hold what was emitted", num(&f.data), f.data.len()));
                }
            }
        }
    }
}

async fn run<L: Tp>(nc: NetCfg, t: T, keys: KeySetup, shape: u32)
where
    L::AddressType: 'static,
{
    let d = cfg();
    nc.install();
    let s: Shared = Default::default();
    let given = Arc::new(Mutex::new(None::<Context>));
    let g2 = given.clone();
    let sb = equip(IPCBuilder::<L>::new().address(L::addr(1)).server_options(L::sopts(&keys)).insert::<HitsKey>(0), &s, 0).on("hello", move |ctx, _| {
        // a context of the server, with which it acts on its own
        *g2.lock().unwrap() = Some(ctx.clone());
        Box::pin(async { Ok(Response::empty()) })
    })
    .on("hits", |ctx, _| {
        Box::pin(async move {
            let n = *ctx.data.read().await.get::<HitsKey>().unwrap_or(&u64::MAX);
            ctx.response(BytePayload::new(words(&[n])))
        })
    });
    spawn(async move {
        let r = sb.build_server().await;
        viol(&["C12"], "server-ended", format!("build_server returned {:?}", r));
    });
    crate::mesh::wait_listening(&L::sim_addr(1)).await;
    if shape == 6 {
        // peers that connect and then say (nearly) nothing
        let n = count(d, 600);
        let mut idle = vec![];
        for i in 0..n {
            if let Ok(mut c) = crate::raw::raw_connect(t, 1).await {
                if i % 3 == 1 {
                    let _ = tokio::io::AsyncWriteExt::write_all(&mut c, &[9; 31][..]).await;
                }
                idle.push(c);
            }
        }
        slog!("{} idle peers", n);
        stat("fault:idle peers", n as u64);
        std::mem::forget(idle);
    }
    let clients = match shape {
        4 => count(d, 300),
        5 => 1,
        _ => *d.pick(&[1u32, 1, 2, 5]),
    };
    let pool = if shape == 5 { count(d, 300) } else { 0 };
    let mut ctxs: Vec<Context> = vec![];
    let mut guards = vec![];
    let mut keep: Vec<PooledContext> = vec![];
    for c in 0..clients as usize {
        let b = equip(IPCBuilder::<L>::new().address(L::addr(1)).client_options(L::copts(&keys, 1)).insert::<HitsKey>(0), &s, 1);
        if pool > 0 {
            let r = tokio::time::timeout(LONG, b.build_pooled_client(pool as usize)).await;
            let p = match r {
                Ok(Ok(p)) => p,
                r => return viol(&["C18", "C24", "C12"], "build-failed", format!("a pool of {}: {:?}", pool, r.map(|r| r.err()))),
            };
            let before = tokio::sim::net::conn_count();
            if before < pool as usize {
                viol(&["C18", "C24"], "pool-size", format!("a pool of {} has {} connections", pool, before));
            }
            for _ in 0..pool {
                let g = p.acquire();
                ctxs.push((*g).clone());
                guards.push(g);
            }
            keep.push(p);
            continue;
        }
        match tokio::time::timeout(Duration::from_secs(100), b.build_client()).await {
            Ok(Ok(x)) => ctxs.push(x),
            Ok(Err(e)) => return viol(&["C24", "C12"], "build-failed", format!("client {} of {}: {:?}", c, clients, e)),
            Err(_) => return viol(&["C24", "C12", "C21"], "build-hangs", format!("client {} of {} never gets its connection (shape {})", c, clients, shape)),
        }
    }
    nontrivial();
    if let Err(e) = ctxs[0].emit("hello", BytePayload::new(vec![])).await {
        viol(&["C01"], "emit-failed", format!("{:?}", e));
    }
    tokio::time::sleep(Duration::from_secs(100)).await;
    let back = given.lock().unwrap().clone();
    let (target, who) = match (back, d.n(4)) {
        (Some(b), 3) if shape < 4 => (vec![b], 1u8),
        _ => (ctxs.clone(), 0u8),
    };
    let big = nc.caps == 2;
    let mut expected = 0u64;
    match shape {
        0 => requests(&target, 1000, count(d, if big { 2000 } else { 300 }), *d.pick(&[16, 8, 40, 700]), d.n(4) as u8).await,
        1 => {
            let size = *d.pick(&[100_000usize, 65_520, 65_536, 1 << 20, (1 << 20) + 1, 3_000_000, (1 << 24) + 17, 24_000_000]);
            let k = if size > 2_000_000 { d.range(1, 2) } else { d.range(1, 6) };
            requests(&target, 1000, k, size + d.n(40) as usize, 0).await;
            notes(&target, 5000, k, size, 2).await;
            expected += k as u64;
        }
        2 => {
            let m = count(d, if big { 2000 } else { 300 }) as u64;
            streams(&target, 1000, d.range(1, 3), m, *d.pick(&[0, 10, 1000]), *d.pick(&[0, 1, 7]), *d.pick(&[0, 1, 9])).await
        }
        3 => {
            let n = count(d, if big { 4096 } else { 500 });
            notes(&target, 1000, n, *d.pick(&[8, 30, 1000, 1030]), *d.pick(&[1, 4, 50, 500])).await;
            expected += n as u64;
        }
        4 | 5 => {
            let n = ctxs.len() as u32 * d.range(1, 2);
            requests(&ctxs, 1000, n, 20, 1).await;
            notes(&ctxs, 5000, n, 20, 3).await;
            expected += n as u64;
            // some leave, in any way
            let mut rest = vec![];
            for (i, c) in std::mem::take(&mut ctxs).into_iter().enumerate() {
                if i % 3 == 1 && shape == 4 {
                    if i % 2 == 0 {
                        let _ = c.stop().await;
                    }
                } else {
                    rest.push(c);
                }
            }
            ctxs = rest;
            requests(&ctxs, 10_000, ctxs.len() as u32, 20, 1).await;
        }
        6 => {
            requests(&ctxs, 1000, 3, 20, 1).await;
        }
        7 => {
            let k = count(d, if big { 300 } else { 40 });
            streams(&target, 1000, k, d.range(1, 30) as u64, 10, *d.pick(&[0, 1, 3]), *d.pick(&[0, 1])).await
        }
        10 => {
            // requests in flight whose ids only differ in the higher bits
            let k = d.range(1, 60);
            let (slow, fast) = if d.n(2) == 0 { (3, 0) } else { (2, 3) };
            for round in 0..d.range(1, 2) as u64 {
                let bits = *d.pick(&[16u32, 8, 12, 15, 16, 17, 18, 10]);
                let less = d.n(2 * k + 20);
                let n0 = 1000 + 1000 * round;
                tokio::join!(requests(&target, n0, k, 20, slow), async {
                    tokio::time::sleep(Duration::from_millis(200)).await;
                    jump(bits, less);
                    requests(&target, n0 + 500, k, 20, fast).await
                });
            }
        }
        11 => {
            // payloads of any form, up to large ones
            for i in 0..d.range(1, 6) as u64 {
                let size = *d.pick(&[300u32, 0, 65_536, 1 << 20, 3_000_000, 9_000_000]) + d.n(40);
                exchange(&target[i as usize % target.len()], d.n(10) as u64, 1000 + 10 * i, size as u64).await;
            }
        }
        13 => {
            // handlers that never end
            let k = count(d, 4096);
            let never = [target[0].clone()];
            let tasks = *d.pick(&[1u32, 7]);
            let all = join_all((0..tasks).map(|t| {
                let c = never[0].clone();
                spawn(async move {
                    let mut i = t;
                    while i < k {
                        if let Err(e) = c.emit("never", BytePayload::new(vec![1; 8])).await {
                            viol(&["C21", "C06"], "emit-failed", format!("event {} for a handler that never ends: {:?}", i, e));
                        }
                        i += tasks;
                    }
                })
            }));
            if tokio::time::timeout(LONG, all).await.is_err() {
                viol(&["C21", "C06"], "hang", format!("emitting {} events to handlers that never end does not complete", k));
            }
            stat("fault:handlers that never end", k as u64);
            requests(&target, 1000, 10, 40, 1).await;
            streams(&target, 3000, 2, 20, 10, 3, 0).await;
        }
        12 => expected += mixed(&target[0], d).await,
        9 => {
            // (the time limits of this shape are not long)
            for i in 0..d.range(1, 3) as u64 {
                lockstep(&target[0], d, 1000 + 100 * i).await;
            }
        }
        _ => {
            for i in 0..d.range(1, 6) as u64 {
                extreme(&target[0], d, i + 1).await;
            }
        }
    }
    // a last request shows that nothing is stuck
    requests(&ctxs[..1], 100_001, 1, 20, 0).await;
    tokio::time::sleep(Duration::from_secs(1000)).await;
    let st = s.lock().unwrap();
    let mut notes_seen = 0;
    let mut given_up = 0;
    for ((side, n), k) in &st.seen {
        if *k != 1 {
            viol(&["C01"], "twice", format!("event {} was handled {} times by side {}", n, k, side));
        }
        if *side != who && *n < 100_000 && shape < 4 {
            viol(&["C01", "C02"], "wrong-side", format!("event {} was handled by the side that emitted it", n));
        }
        if (*n >= 5000 && *n < 10_000 && [1, 4, 5, 12].contains(&shape)) || (shape == 3 && *n < 100_000) {
            notes_seen += 1;
        }
        given_up += (20_000..30_000).contains(n) as u64;
    }
    if notes_seen != expected {
        viol(&["C01"], "lost", format!("{} of {} events were handled", notes_seen, expected));
    }
    drop(st);
    // (what was given up is sent or not)
    expected += if shape == 12 { given_up } else { 0 };
    if shape != 6 && shape != 4 {
        wire_check(t, &keys);
    }
    if who == 0 {
        let r = ctxs[0].emit("hits", BytePayload::new(vec![])).await_reply().with_timeout(LONG).await;
        match r {
            Ok(ev) if num(ev.data_raw()) == expected => {}
            Ok(ev) => viol(&["C23"], "lost-update", format!("{} handlers added 1 and the data holds {}", expected, num(ev.data_raw()))),
            Err(e) => viol(&["C03", "C21"], "no-reply", format!("{:?}", e)),
        }
    } else {
        let n = *ctxs[0].data.read().await.get::<HitsKey>().unwrap_or(&0);
        if n != expected {
            viol(&["C23"], "lost-update", format!("{} handlers added 1 and the data holds {}", expected, n));
        }
    }
    rt::sample(format!("{:?}, shape {}, {} clients, pool {}", t, shape, clients, pool));
    drop(guards);
    drop(keep);
}

pub async fn bulk() {
    rt::primary(&["C01", "C03", "C04", "C09", "C12", "C18", "C21", "C22", "C23", "C07"]);
    let d = cfg();
    let t = net::pick_transport(d);
    let shape = d.n(14);
    let mut nc = net::net_cfg(d);
    if [1, 4, 5, 6, 9, 11, 12, 13].contains(&shape) {
        nc.caps = 2;
        nc.short = 0;
        nc.pend = 0;
    } else if nc.caps == 0 {
        nc.caps = 1;
    }
    let keys = KeySetup { base: d.u64(), clients: 1, server_allow: d.chance(50), client_allow: d.chance(50), ttl: None };
    slog!("setup {:?} shape {} net {:?}", t, shape, nc);
    with_transport!(t, run(nc, t, keys, shape))
}
