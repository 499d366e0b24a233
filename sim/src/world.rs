//! Shared vocabulary of the workloads: payloads, scripts, emission and invocation records.

use crate::rt::{self, viol, D};
use crate::slog;
use bromine::error_event::ErrorEventData;
use bromine::event::EventType;
use bromine::prelude::*;
use bytes::Bytes;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::future::Future;
use std::pin::Pin;
use std::sync::Arc;
use std::time::Duration;
use trait_bound_typemap::TypeMapKey;

// ---------------------------------------------------------------- payloads

/// A serialisable value; every field derives from the uid.
#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub struct Val {
    pub uid: u64,
    pub text: String,
    pub list: Vec<(u8, i32)>,
    pub opt: Option<String>,
    pub kind: Kind,
    pub map: BTreeMap<String, u16>,
}

#[derive(Clone, Debug, PartialEq)]
#[cfg_attr(feature = "full", derive(serde::Serialize, serde::Deserialize))]
pub enum Kind {
    Unit,
    New(i64),
    Tup(u8, String),
    Rec { a: bool, b: Option<u32> },
}

pub fn val(uid: u64, size: usize) -> Val {
    let k = (size % 4096) as usize;
    Val {
        uid,
        text: (0..k / 3).map(|i| ['a', 'ß', '€', '😀', '"', '\\', '\0'][(uid as usize + i) % 7]).collect(),
        list: (0..(k / 8).min(300)).map(|i| (i as u8, (uid as i32).wrapping_mul(i as i32 - 77))).collect(),
        opt: if uid % 3 == 0 { None } else { Some(format!("o{}", uid)) },
        kind: match uid % 4 {
            0 => Kind::Unit,
            1 => Kind::New(-(uid as i64)),
            2 => Kind::Tup(uid as u8, format!("t{}", uid)),
            _ => Kind::Rec { a: uid % 2 == 0, b: Some(uid as u32) },
        },
        map: (0..(uid % 4)).map(|i| (format!("k{}", i), i as u16)).collect(),
    }
}

pub fn raw(uid: u64, size: usize) -> Vec<u8> {
    let mut v = uid.to_be_bytes().to_vec();
    let mut s = uid ^ 0x5555;
    // high-entropy filler: an altered byte cannot go unnoticed
    while v.len() < size {
        let x = crate::sys::splitmix(&mut s).to_le_bytes();
        let n = (size - v.len()).min(8);
        v.extend_from_slice(&x[..n]);
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Form {
    Raw,
    /// only with a reserved name
    Empty,
    /// serialised with the emitter's default format
    Ser,
    /// serialised with this format
    SerX(u8),
    /// raw and default-serialised
    Tandem,
    /// nested tandem with an explicit format
    Tandem2(u8),
    /// an error payload as ordinary data
    ErrData,
}

/// A payload whose encoded bytes are recorded when the event is built.
pub struct Pay {
    pub em: usize,
    pub uid: u64,
    pub form: Form,
    pub size: usize,
}

#[cfg(feature = "full")]
pub fn fmt(n: u8) -> DynamicSerializer {
    [DynamicSerializer::Messagepack, DynamicSerializer::Bincode, DynamicSerializer::Postcard, DynamicSerializer::Json][n as usize % 4]
}

pub fn err_text(uid: u64, size: usize) -> String {
    // nothing of a message may be trimmed
    let (pre, post) = [("", ""), ("", ""), (" \t", " \n"), ("\0\u{feff}", "\r\n\0")][uid as usize % 4];
    format!("{}e{}:{}{}", pre, uid, "é".repeat(size / 2), post)
}

impl IntoPayload for Pay {
    fn into_payload(self, ctx: &Context) -> IPCResult<Bytes> {
        let (uid, n) = (self.uid, self.size);
        let r = BytePayload::new(raw(uid, n));
        let b = match self.form {
            Form::Raw => r.into_payload(ctx),
            Form::Empty => BytePayload::new(vec![]).into_payload(ctx),
            Form::ErrData => {
                ErrorEventData { code: (uid % 60000) as u16, message: err_text(uid, n) }.into_payload(ctx)
            }
            #[cfg(feature = "full")]
            Form::Ser if uid % 3 == 0 => ctx.create_serde_payload(val(uid, n)).into_payload(ctx),
            #[cfg(feature = "full")]
            Form::Ser => val(uid, n).into_payload(ctx),
            #[cfg(feature = "full")]
            Form::SerX(f) => SerdePayload::new(fmt(f), val(uid, n)).into_payload(ctx),
            #[cfg(feature = "full")]
            Form::Tandem => TandemPayload::new(r, val(uid, n)).into_payload(ctx),
            #[cfg(feature = "full")]
            Form::Tandem2(f) => TandemPayload::new(
                TandemPayload::new(SerdePayload::new(fmt(f), val(uid, n)), r),
                BytePayload::new(vec![]),
            )
            .into_payload(ctx),
            #[cfg(not(feature = "full"))]
            Form::Ser | Form::SerX(_) => r.into_payload(ctx),
            #[cfg(not(feature = "full"))]
            Form::Tandem | Form::Tandem2(_) => {
                TandemPayload::new(r, BytePayload::new(raw(uid + 1, n))).into_payload(ctx)
            }
        }?;
        if self.em != usize::MAX {
            let bytes = b.to_vec();
            w(|w| {
                if self.form != Form::Empty {
                    w.by_bytes.insert(bytes.clone(), self.em);
                }
                w.ems[self.em].bytes = Some(bytes);
            });
        }
        Ok(b)
    }
}

/// Does the event's payload decode to what was emitted?
pub fn check_payload(ev: &Event, e: &Em) {
    let (uid, n) = (e.uid, e.size);
    let bad = |what: String| {
        viol(&["C22"], "payload-value", format!("payload of {} ({:?}) decoded wrongly: {}", e.label(), e.form, what));
    };
    macro_rules! expect {
        ($r:expr, $v:expr) => {
            match $r {
                Ok(v) if v == $v => {}
                Ok(_) => bad("different value".into()),
                Err(e) => bad(format!("{:?}", e)),
            }
        };
    }
    let r = raw(uid, n);
    match e.form {
        Form::Raw => expect!(ev.payload::<BytePayload>().map(|b| b.into_inner()), r),
        Form::Empty => expect!(ev.payload::<BytePayload>().map(|b| b.into_inner()), Vec::<u8>::new()),
        Form::ErrData => {
            expect!(ev.payload::<ErrorEventData>().map(|x| (x.code, x.message)), ((uid % 60000) as u16, err_text(uid, n)))
        }
        #[cfg(feature = "full")]
        Form::Ser | Form::SerX(_) => {
            expect!(ev.payload::<Val>(), val(uid, n));
            expect!(ev.payload::<SerdePayload<Val>>().map(|s| s.data()), val(uid, n));
        }
        #[cfg(feature = "full")]
        Form::Tandem => expect!(
            ev.payload::<TandemPayload<BytePayload, Val>>().map(|t| {
                let (a, b) = t.into_inner();
                (a.into_inner(), b)
            }),
            (r, val(uid, n))
        ),
        #[cfg(feature = "full")]
        Form::Tandem2(_) => expect!(
            ev.payload::<TandemPayload<TandemPayload<Val, BytePayload>, BytePayload>>().map(|t| {
                let (a, b) = t.into_inner();
                let (c, d) = a.into_inner();
                (c, d.into_inner(), b.into_inner())
            }),
            (val(uid, n), r, vec![])
        ),
        #[cfg(not(feature = "full"))]
        Form::Ser | Form::SerX(_) => expect!(ev.payload::<BytePayload>().map(|b| b.into_inner()), r),
        #[cfg(not(feature = "full"))]
        Form::Tandem | Form::Tandem2(_) => expect!(
            ev.payload::<TandemPayload<BytePayload, BytePayload>>().map(|t| {
                let (a, b) = t.into_inner();
                (a.into_inner(), b.into_inner())
            }),
            (r, raw(uid + 1, n))
        ),
    }
    // decoding as something else may fail, but never panics
    match uid % 5 {
        0 => drop(ev.payload::<ErrorEventData>()),
        1 => drop(ev.payload::<TandemPayload<BytePayload, BytePayload>>()),
        #[cfg(feature = "full")]
        2 => drop(ev.payload::<Vec<String>>()),
        #[cfg(feature = "full")]
        3 => drop(ev.payload::<TandemPayload<Val, SerdePayload<u64>>>()),
        _ => {}
    }
}

// ---------------------------------------------------------------- scripts

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Fire,
    Req,
    Stream,
}

#[derive(Clone, Copy, Debug)]
pub enum Abandon {
    Polls(u32),
    Ms(u32),
    /// a stream after so many items
    Items(u32),
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub uid: u64,
    pub ns: Option<String>,
    pub name: String,
    pub form: Form,
    pub size: usize,
    pub mode: Mode,
    pub script: Option<Arc<Script>>,
    pub abandon: Option<Abandon>,
    pub timeout_ms: Option<u32>,
    /// ms between items of a stream
    pub think: u32,
}

#[derive(Clone, Debug)]
pub enum Act {
    Emit(Spec),
    Burst(Vec<Spec>),
    Sleep(u32),
    Yield(u32),
    Inc(u32),
    Look,
    Detached(Spec, u32),
    Stash,
    Cross(Spec),
    /// a request with the lock of the data held (for writing)
    Held(bool, Spec),
    /// never comes back
    Forever,
}

#[derive(Clone, Debug)]
pub enum Fin {
    Empty,
    Pay(u64, Form, usize),
    Err(u8, u64),
    Panic,
}

#[derive(Clone, Debug)]
pub struct Script {
    pub acts: Vec<Act>,
    pub fin: Fin,
}

pub fn handler_error(kind: u8, uid: u64) -> (IPCError, String) {
    let filler = ["", "é€ß-".repeat(40).as_str(), "0123456789".repeat(460).as_str(), "q".repeat(68_000).as_str()][(kind / 8 % 4) as usize].to_string();
    let key = format!("boom-{}-{}{}", uid, filler, if filler.is_empty() { "" } else { "-last" });
    let e = match kind % 8 {
        0 => IPCError::Message(key.clone()),
        1 => IPCError::from(key.as_str()),
        2 => IPCError::from(std::io::Error::new(std::io::ErrorKind::Other, key.clone())),
        3 => IPCError::from(ErrorEventData { code: 77, message: key.clone() }),
        4 => IPCError::BuildError(key.clone()),
        5 => IPCError::UnsupportedVersion(key.clone()),
        // the text is surrounded by what has to be escaped or could be trimmed
        6 => IPCError::Message(format!(" \t\"{}\"\r\n\0 ", key)),
        // what the library itself reports
        _ => {
            match uid % 6 {
                0 => IPCError::SendError,
                1 => IPCError::Timeout,
                2 => IPCError::CorruptedEvent,
                3 => IPCError::InvalidState,
                4 => IPCError::from(std::io::Error::from(std::io::ErrorKind::ConnectionReset)),
                _ => IPCError::from(std::io::Error::from(std::io::ErrorKind::UnexpectedEof)),
            }
        }
    };
    (e, key)
}

/// Does the message contain the handler's error?
pub fn blames(msg: &str, kind: u8, uid: u64) -> bool {
    let (e, key) = handler_error(kind, uid);
    if kind % 8 == 7 {
        msg.contains(&format!("{:?}", e)) || msg.contains(&format!("{}", e))
    } else {
        msg.contains(&key)
    }
}

// ---------------------------------------------------------------- records

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum EmKind {
    Init,
    Reply,
    /// final response
    Fin,
}

#[derive(Clone, Debug, PartialEq)]
pub enum St {
    Pending,
    Ok,
    Err(String),
    Timeout,
    Abandoned,
}

#[derive(Clone, Debug)]
pub struct Item {
    pub id: u64,
    pub ty: EventType,
    pub ref_id: Option<u64>,
    pub ns: Option<String>,
    pub name: String,
    pub data: Vec<u8>,
    pub t: u64,
}

pub fn item(ev: &Event) -> Item {
    Item {
        id: ev.id(),
        ty: ev.event_type(),
        ref_id: ev.reference_id(),
        ns: ev.namespace().clone(),
        name: ev.name().to_string(),
        data: ev.data_raw().to_vec(),
        t: tokio::sim::now_ns(),
    }
}

/// What a waiter got.
#[derive(Clone, Debug)]
pub enum Got {
    Event(Item),
    Error(u16, String),
    Timeout,
    Fail(String),
    /// stream said end
    None,
}

#[derive(Clone, Debug)]
pub struct Em {
    pub idx: usize,
    pub uid: u64,
    pub kind: EmKind,
    pub parent: Option<usize>,
    pub node: usize,
    /// client whose connection carries it
    pub client: usize,
    pub ns: Option<String>,
    pub name: String,
    pub form: Form,
    pub size: usize,
    pub mode: Mode,
    pub bytes: Option<Vec<u8>>,
    pub st: St,
    pub id: Option<u64>,
    pub group: u64,
    pub detached: bool,
    pub script: Option<Arc<Script>>,
    pub got: Vec<Got>,
    pub t0: u64,
    pub t1: u64,
    pub timeout_ms: Option<u32>,
    pub items_wanted: Option<u32>,
}

impl Em {
    pub fn label(&self) -> String {
        format!(
            "#{}({:?} by node {} of client {} {}{} {:?} uid {} {} B)",
            self.idx,
            self.kind,
            self.node,
            self.client,
            self.ns.as_ref().map(|n| format!("{}::", n)).unwrap_or_default(),
            if self.name.len() > 20 { "<long>" } else { &self.name },
            self.mode,
            self.uid,
            self.size
        )
    }
    /// the namespace as it can be represented
    pub fn nsn(&self) -> Option<String> {
        self.ns.clone().filter(|n| !n.is_empty())
    }
}

#[derive(Clone, Debug)]
pub struct Inv {
    pub node: usize,
    pub reg: (Option<String>, String),
    pub em: Option<usize>,
    pub item: Item,
    /// error payload, for the error handler
    pub err: Option<(u16, String)>,
    pub done: bool,
    pub dropped: bool,
}

#[derive(Default)]
pub struct World {
    pub ems: Vec<Em>,
    pub by_bytes: HashMap<Vec<u8>, usize>,
    pub invs: Vec<Inv>,
    /// handlers registered per node
    pub regs: Vec<BTreeSet<(Option<String>, String)>>,
    /// own error handler per node
    pub err_handler: Vec<bool>,
    pub zname: HashMap<String, usize>,
    /// server-side contexts kept by handlers
    pub stash: Vec<(Context, usize, usize)>,
    pub shadow: Vec<u64>,
    pub groups: u64,
    /// per node: true when something happened that excuses lost events
    pub lossy: BTreeSet<usize>,
    /// clients that were stopped, with the time at which stop had returned
    pub stopped: BTreeMap<usize, u64>,
    pub forever: u64,
}

/// Used by one thread at a time.
struct Global(RefCell<Option<World>>);
unsafe impl Sync for Global {}
static WORLD: Global = Global(RefCell::new(None));

pub fn w<R>(f: impl FnOnce(&mut World) -> R) -> R {
    let _off = crate::sys::Uncounted::new();
    let r = f(WORLD.0.borrow_mut().get_or_insert_with(World::default));
    r
}

pub struct CounterKey;
impl TypeMapKey for CounterKey {
    type Value = u64;
}
pub struct MarkKey;
impl TypeMapKey for MarkKey {
    type Value = String;
}

/// Which node a handler belongs to is known by the handler; which client's connection it serves, by the event.
pub fn new_em(spec: &Spec, kind: EmKind, parent: Option<usize>, node: usize, client: usize, group: u64, detached: bool) -> usize {
    w(|w| {
        let idx = w.ems.len();
        w.ems.push(Em {
            idx,
            uid: spec.uid,
            kind,
            parent,
            node,
            client,
            ns: spec.ns.clone(),
            name: spec.name.clone(),
            form: spec.form,
            size: spec.size,
            mode: spec.mode,
            bytes: None,
            st: St::Pending,
            id: None,
            group,
            detached,
            script: spec.script.clone(),
            got: vec![],
            t0: tokio::sim::now_ns(),
            t1: 0,
            timeout_ms: spec.timeout_ms,
            items_wanted: match spec.abandon {
                Some(Abandon::Items(n)) => Some(n),
                _ => None,
            },
        });
        if spec.form == Form::Empty {
            w.zname.insert(spec.name.clone(), idx);
        }
        idx
    })
}

pub fn group() -> u64 {
    w(|w| {
        w.groups += 1;
        w.groups
    })
}

/// Drops a future after some polls, or after some time.
struct Limited<F> {
    f: Option<Pin<Box<F>>>,
    polls: u32,
}
impl<F: Future> Future for Limited<F> {
    type Output = Option<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
        let r = self.f.as_mut().unwrap().as_mut().poll(cx);
        match r {
            std::task::Poll::Ready(v) => std::task::Poll::Ready(Some(v)),
            std::task::Poll::Pending => {
                if self.polls <= 1 {
                    self.f = None;
                    return std::task::Poll::Ready(None);
                }
                self.polls -= 1;
                std::task::Poll::Pending
            }
        }
    }
}

pub async fn limited<F: Future>(f: F, a: Option<Abandon>) -> Option<F::Output> {
    match a {
        None | Some(Abandon::Items(_)) => Some(f.await),
        Some(Abandon::Polls(n)) => Limited { f: Some(Box::pin(f)), polls: n.max(1) }.await,
        Some(Abandon::Ms(ms)) => {
            let f = Box::pin(f);
            tokio::select! {
                biased;
                _ = tokio::time::sleep(Duration::from_millis(ms as u64)) => None,
                r = f => Some(r),
            }
        }
    }
}

fn outcome(r: IPCResult<Event>) -> Got {
    match r {
        Ok(ev) => Got::Event(item(&ev)),
        Err(IPCError::ErrorEvent(d)) => Got::Error(d.code, d.message),
        Err(IPCError::Timeout) => Got::Timeout,
        Err(e) => Got::Fail(format!("{:?}", e)),
    }
}

fn abandoned() -> St {
    rt::also(&["C08"]);
    St::Abandoned
}

/// Performs one emission and records what came of it.
pub async fn perform(ctx: &Context, spec: &Spec, kind: EmKind, parent: Option<usize>, node: usize, client: usize, group: u64, detached: bool) -> usize {
    let sp = (rt::control() && spec.abandon.is_some()).then(|| Spec { abandon: None, ..spec.clone() });
    let spec = sp.as_ref().unwrap_or(spec);
    let em = new_em(spec, kind, parent, node, client, group, detached);
    slog!("emit #{} node {} parent {:?} {:?}::{} {:?} {:?} {} B", em, node, parent, spec.ns, spec.name, spec.mode, spec.form, spec.size);
    let pay = Pay { em, uid: spec.uid, form: spec.form, size: spec.size };
    let meta = match &spec.ns {
        None => ctx.emit(&spec.name, pay),
        Some(n) => ctx.emit_to(n, &spec.name, pay),
    };
    let to = spec.timeout_ms.map(|m| Duration::from_millis(m as u64));
    let mut st;
    match spec.mode {
        Mode::Fire => match limited(meta, spec.abandon).await {
            None => st = abandoned(),
            Some(Ok(id)) => {
                w(|w| w.ems[em].id = Some(id));
                st = St::Ok;
            }
            Some(Err(e)) => st = St::Err(format!("{:?}", e)),
        },
        Mode::Req => {
            let mut m = meta.await_reply();
            if let Some(t) = to {
                m = m.with_timeout(t);
            }
            let r = limited(m, spec.abandon).await;
            if let Some(Ok(ev)) = &r {
                verify_reply(em, ev);
            }
            match r.map(outcome) {
                None => st = abandoned(),
                Some(g) => {
                    st = match &g {
                        Got::Event(_) | Got::Error(..) => St::Ok,
                        Got::Timeout => St::Timeout,
                        Got::Fail(s) => St::Err(s.clone()),
                        Got::None => unreachable!(),
                    };
                    slog!("reply to #{}: {:?}", em, brief(&g));
                    w(|w| w.ems[em].got.push(g));
                }
            }
        }
        Mode::Stream => {
            let mut m = meta.stream_replies();
            if let Some(t) = to {
                m = m.with_timeout(t);
            }
            match limited(m, spec.abandon).await {
                None => st = abandoned(),
                Some(Err(e)) => st = St::Err(format!("{:?}", e)),
                Some(Ok(mut s)) => {
                    st = St::Ok;
                    let mut n = 0u32;
                    loop {
                        if let Some(Abandon::Items(k)) = spec.abandon {
                            if n >= k {
                                st = abandoned();
                                break;
                            }
                        }
                        use futures::StreamExt;
                        let r = match spec.abandon {
                            Some(Abandon::Ms(ms)) if n > 0 => {
                                match limited(s.next(), Some(Abandon::Ms(ms))).await {
                                    Some(r) => r,
                                    None => {
                                        st = abandoned();
                                        break;
                                    }
                                }
                            }
                            _ => s.next().await,
                        };
                        if let Some(Ok(ev)) = &r {
                            verify_reply(em, ev);
                        }
                        let g = match r {
                            None => Got::None,
                            Some(r) => outcome(r),
                        };
                        slog!("stream item of #{}: {:?}", em, brief(&g));
                        let end = matches!(g, Got::None);
                        let timeout = matches!(g, Got::Timeout);
                        w(|w| w.ems[em].got.push(g));
                        if timeout {
                            st = St::Timeout;
                        }
                        n += 1;
                        if end {
                            break;
                        }
                        if n > 4000 {
                            viol(&["C04"], "endless-stream", format!("stream of #{} yields items without end", em));
                            break;
                        }
                        if spec.think > 0 {
                            tokio::time::sleep(Duration::from_millis(spec.think as u64)).await;
                        }
                    }
                    if st != St::Abandoned {
                        // an ended stream stays ended
                        use futures::StreamExt;
                        for _ in 0..2 {
                            match tokio::time::timeout(Duration::from_secs(5000), s.next()).await {
                                Ok(None) => {}
                                Ok(Some(r)) => viol(&["C04"], "stream-revived", format!("ended stream of #{} yields {:?}", em, brief(&outcome(r)))),
                                Err(_) => viol(&["C04"], "stream-hangs", format!("ended stream of #{} hangs when polled again", em)),
                            }
                        }
                    }
                }
            }
        }
    }
    let now = tokio::sim::now_ns();
    slog!("done #{} {:?}", em, st);
    w(|w| {
        w.ems[em].st = st;
        w.ems[em].t1 = now;
    });
    em
}

pub fn brief(g: &Got) -> String {
    match g {
        Got::Event(i) => format!("{:?} {:x} {} {} B", i.ty, i.id, &i.name[..i.name.len().min(20)], i.data.len()),
        Got::Error(c, m) => format!("error {} {}", c, m.chars().take(60).collect::<String>()),
        g => format!("{:?}", g),
    }
}

fn verify_reply(_em: usize, ev: &Event) {
    if ev.event_type() == EventType::Error {
        return;
    }
    let src = w(|w| w.by_bytes.get(ev.data_raw()).map(|i| w.ems[*i].clone()));
    if let Some(e) = src {
        check_payload(ev, &e);
    }
}

// ---------------------------------------------------------------- handlers

struct InvGuard(usize);
impl Drop for InvGuard {
    fn drop(&mut self) {
        w(|w| {
            if !w.invs[self.0].done {
                w.invs[self.0].dropped = true;
            }
        });
    }
}

/// `scenario futures` use thread-local state only, so moving them is fine.
pub struct Ass<T>(pub T);
unsafe impl<T> Send for Ass<T> {}
impl<T: Future> Future for Ass<T> {
    type Output = T::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<T::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

pub fn spawn<F: Future + 'static>(f: F) -> tokio::task::JoinHandle<F::Output>
where
    F::Output: Send + 'static,
{
    tokio::spawn(Ass(f))
}

/// The one handler behind every registration.
pub fn handle<'a>(
    node: usize,
    reg: (Option<String>, String),
    ctx: &'a Context,
    ev: Event,
) -> Pin<Box<dyn Future<Output = IPCResult<Response>> + Send + 'a>> {
    Box::pin(Ass(handle_inner(node, reg, ctx, ev)))
}

async fn handle_inner(node: usize, reg: (Option<String>, String), ctx: &Context, ev: Event) -> IPCResult<Response> {
    let it = item(&ev);
    let is_err = it.ty == EventType::Error;
    let em = w(|w| {
        if is_err {
            None
        } else if it.data.is_empty() {
            w.zname.get(&it.name).copied()
        } else {
            w.by_bytes.get(&it.data).copied()
        }
    });
    let err = if is_err { ev.payload::<ErrorEventData>().ok().map(|d| (d.code, d.message)) } else { None };
    slog!("node {} handler {:?} runs for {:x} {:?} ref {:x?} em {:?}", node, reg, it.id, it.ty, it.ref_id, em);
    rt::stat("probe:handler invocations", 1);
    let inv = w(|w| {
        w.invs.push(Inv { node, reg, em, item: it.clone(), err, done: false, dropped: false });
        w.invs.len() - 1
    });
    let guard = InvGuard(inv);
    let r = match em {
        Some(e) => {
            let e = w(|w| w.ems[e].clone());
            check_payload(&ev, &e);
            drop(ev);
            match e.script.clone() {
                #[cfg(feature = "mt")]
                Some(s) if crate::mt::on() && e.uid % 3 == 0 => crate::threads::offload(ctx, s, e.idx, node, e.client).await,
                Some(s) => run_script(ctx, &s, e.idx, node, e.client).await,
                None => Ok(Response::empty()),
            }
        }
        None => Ok(Response::empty()),
    };
    w(|w| w.invs[guard.0].done = true);
    r
}

pub async fn run_script(ctx: &Context, s: &Script, parent: usize, node: usize, client: usize) -> IPCResult<Response> {
    for a in &s.acts {
        match a {
            Act::Emit(sp) => {
                perform(ctx, sp, EmKind::Reply, Some(parent), node, client, group(), false).await;
            }
            Act::Burst(sps) => {
                let g = group();
                let futs: Vec<_> =
                    sps.iter().map(|sp| perform(ctx, sp, EmKind::Reply, Some(parent), node, client, g, false)).collect();
                futures::future::join_all(futs).await;
            }
            Act::Sleep(ms) => tokio::time::sleep(Duration::from_millis(*ms as u64)).await,
            Act::Yield(n) => {
                for _ in 0..*n {
                    tokio::task::yield_now().await;
                }
            }
            Act::Inc(n) => increment(ctx, node, *n).await,
            Act::Look => look(ctx, node).await,
            Act::Detached(sp, ms) => {
                let ctx = ctx.clone();
                let sp = sp.clone();
                let ms = *ms;
                spawn(async move {
                    if ms > 0 {
                        tokio::time::sleep(Duration::from_millis(ms as u64)).await;
                    }
                    perform(&ctx, &sp, EmKind::Reply, Some(parent), node, client, group(), true).await;
                });
            }
            Act::Stash => {
                let c = ctx.clone();
                w(|w| {
                    if node == 0 && w.stash.len() < 8 {
                        w.stash.push((c, parent, client))
                    }
                });
            }
            Act::Cross(sp) => {
                let s = w(|w| {
                    if node == 0 {
                        w.stash.last().map(|s| (s.0.clone(), s.1, s.2))
                    } else {
                        None
                    }
                });
                if let Some((c, p, cl)) = s {
                    rt::stat("probe:emit through another connection's context", 1);
                    perform(&c, sp, EmKind::Reply, Some(p), node, cl, group(), true).await;
                }
            }
            Act::Held(write, sp) => {
                let (mut a, mut b) = (None, None);
                if *write {
                    a = Some(ctx.data.write().await);
                } else {
                    b = Some(ctx.data.read().await);
                }
                perform(ctx, sp, EmKind::Reply, Some(parent), node, client, group(), false).await;
                rt::stat("probe:requests with the data locked", 1);
                drop((a, b));
            }
            Act::Forever => {
                w(|w| w.forever += 1);
                futures::future::pending::<()>().await;
            }
        }
    }
    match &s.fin {
        Fin::Empty => Ok(Response::empty()),
        Fin::Pay(uid, form, size) => {
            let sp = Spec {
                uid: *uid,
                ns: None,
                name: "end".into(),
                form: *form,
                size: *size,
                mode: Mode::Fire,
                script: None,
                abandon: None,
                timeout_ms: None,
                think: 0,
            };
            let em = new_em(&sp, EmKind::Fin, Some(parent), node, client, u64::MAX, false);
            ctx.response(Pay { em, uid: *uid, form: *form, size: *size })
        }
        Fin::Err(k, uid) => Err(handler_error(*k, *uid).0),
        Fin::Panic => panic!("SIMPANIC handler"),
    }
}

/// Read-modify-write under the lock, with suspension points inside.
pub async fn increment(ctx: &Context, node: usize, yields: u32) {
    let mut d = ctx.data.write().await;
    let v = *d.get::<CounterKey>().unwrap_or(&u64::MAX);
    let expect = w(|w| w.shadow[node]);
    if v != expect {
        viol(&["C23"], "data-value", format!("node {} sees counter {} instead of {}", node, v, expect));
    }
    for _ in 0..yields {
        tokio::task::yield_now().await;
    }
    if let Some(x) = d.get_mut::<CounterKey>() {
        *x = v.wrapping_add(1);
    }
    w(|w| w.shadow[node] = expect + 1);
    rt::stat("probe:context data updates", 1);
}

pub async fn look(ctx: &Context, node: usize) {
    let d = ctx.data.read().await;
    let v = *d.get::<CounterKey>().unwrap_or(&u64::MAX);
    let m = d.get::<MarkKey>().cloned().unwrap_or_default();
    let expect = w(|w| w.shadow[node]);
    if v != expect || m != format!("node{}", node) {
        viol(&["C23"], "data-value", format!("node {} sees counter {} (expected {}) and mark {:?}", node, v, expect, m));
    }
}

pub fn size_of(d: &D, max: u32) -> usize {
    (d.size(max) as usize).max(8)
}

/// A name that is made of another one, as somebody who parses names might read it.
pub fn near(d: crate::rt::D, s: &str) -> String {
    let sep = *d.pick(&[".", ":", "::", "/", "\\", "-", "_", "#", "?", "@", " ", "\0", "+", ",", "|", "*", "%", "$", "\n", "="]);
    let other = *d.pick(&["x", "", "a", "n0", "n1", "b", "0", "error"]);
    match d.n(7) {
        0 | 1 => format!("{}{}{}", s, sep, other),
        2 | 3 => format!("{}{}{}", other, sep, s),
        4 => s.to_uppercase(),
        5 => s.chars().take(s.chars().count().saturating_sub(1)).collect(),
        _ => format!("{}{}", s, s),
    }
}
