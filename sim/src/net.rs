//! Transports and connection behaviours.

use crate::rt::{self, D, NET};
use bromine::prelude::*;
use bromine::protocol::tcp::TcpOptions;
use std::path::PathBuf;
use tokio::net::{TcpListener, UnixListener};
use tokio::sim::net::{Addr, Cut, DirPlan, Plan};

#[cfg(feature = "full")]
use bromine::protocol::encrypted::{EncryptedListener, EncryptionOptions, Keys};
#[cfg(feature = "full")]
use x25519_dalek::{PublicKey, StaticSecret};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum T {
    Tcp,
    Unix,
    EncTcp,
    EncUnix,
    /// a transport of the user's own, on top of TCP
    Own,
}

impl T {
    /// uses the addresses and options of TCP
    pub fn tcp(self) -> bool {
        matches!(self, T::Tcp | T::EncTcp | T::Own)
    }
    pub fn encrypted(self) -> bool {
        matches!(self, T::EncTcp | T::EncUnix)
    }
}

pub fn pick_transport(d: D) -> T {
    let t = match d.weighted(&[36, 18, 24, 14, 8]) {
        4 => T::Own,
        0 => T::Tcp,
        1 => T::Unix,
        2 => T::EncTcp,
        _ => T::EncUnix,
    };
    if cfg!(feature = "full") {
        t
    } else {
        match t {
            T::EncTcp => T::Tcp,
            T::EncUnix => T::Unix,
            t => t,
        }
    }
}

pub fn tcp_addr(n: u16) -> std::net::SocketAddr {
    format!("127.0.0.1:{}", 2000 + n).parse().unwrap()
}
pub fn unix_addr(n: u16) -> PathBuf {
    format!("/sim/sock{}", n).into()
}

/// A transport the workloads can be instantiated with.
pub trait Tp: AsyncStreamProtocolListener + 'static {
    const T: T;
    fn addr(n: u16) -> Self::AddressType;
    fn sim_addr(n: u16) -> Addr;
    /// server options; secret number 0, known clients
    fn sopts(k: &KeySetup) -> Self::ListenerOptions;
    /// options of client c
    fn copts(k: &KeySetup, c: usize) -> <Self::Stream as AsyncProtocolStream>::StreamOptions;
}

#[derive(Clone, Debug)]
pub struct KeySetup {
    pub base: u64,
    pub clients: usize,
    pub server_allow: bool,
    pub client_allow: bool,
    pub ttl: Option<u32>,
}

impl KeySetup {
    pub fn secret_bytes(&self, i: usize) -> [u8; 32] {
        let mut s = self.base.wrapping_add(i as u64 * 7919);
        let mut b = [0u8; 32];
        for c in b.chunks_mut(8) {
            c.copy_from_slice(&crate::sys::splitmix(&mut s).to_le_bytes());
        }
        b
    }
    #[cfg(feature = "full")]
    pub fn secret(&self, i: usize) -> StaticSecret {
        StaticSecret::from(self.secret_bytes(i))
    }
    #[cfg(feature = "full")]
    pub fn public(&self, i: usize) -> PublicKey {
        PublicKey::from(&self.secret(i))
    }
    /// The keys among those of others, who never connect (also where the list is of no importance).
    #[cfg(feature = "full")]
    fn among(&self, salt: u64, mut keys: Vec<PublicKey>) -> Vec<PublicKey> {
        let mut s = self.base ^ salt;
        let mut n = |k: u64| crate::sys::splitmix(&mut s) % k;
        if n(8) == 7 {
            for _ in 0..[1, 2, 8, 16, 33, 65, 129, 300][n(8) as usize] {
                let mut b = [0u8; 32];
                b.fill_with(|| n(256) as u8);
                keys.insert(n(keys.len() as u64 + 1) as usize, b.into());
            }
        }
        keys
    }

    #[cfg(feature = "full")]
    pub fn server_keys(&self) -> Keys {
        Keys {
            secret: self.secret(0),
            known_peers: self.among(0, if self.server_allow { vec![] } else { (1..=self.clients).map(|i| self.public(i)).collect() }),
            allow_unknown: self.server_allow,
        }
    }
    #[cfg(feature = "full")]
    pub fn client_keys(&self, c: usize) -> Keys {
        Keys {
            secret: self.secret(c),
            known_peers: self.among(1, if self.client_allow { vec![] } else { vec![self.public(0)] }),
            allow_unknown: self.client_allow,
        }
    }
}

impl Tp for TcpListener {
    const T: T = T::Tcp;
    fn addr(n: u16) -> std::net::SocketAddr {
        tcp_addr(n)
    }
    fn sim_addr(n: u16) -> Addr {
        Addr::Tcp(tcp_addr(n))
    }
    fn sopts(k: &KeySetup) -> TcpOptions {
        TcpOptions { ttl: k.ttl }
    }
    fn copts(k: &KeySetup, _: usize) -> TcpOptions {
        TcpOptions { ttl: k.ttl.map(|t| t + 1) }
    }
}

impl Tp for UnixListener {
    const T: T = T::Unix;
    fn addr(n: u16) -> PathBuf {
        unix_addr(n)
    }
    fn sim_addr(n: u16) -> Addr {
        Addr::Unix(Some(unix_addr(n)))
    }
    fn sopts(_: &KeySetup) -> Self::ListenerOptions {
        Default::default()
    }
    fn copts(_: &KeySetup, _: usize) -> <Self::Stream as AsyncProtocolStream>::StreamOptions {
        Default::default()
    }
}

#[cfg(feature = "full")]
impl Tp for EncryptedListener<TcpListener> {
    const T: T = T::EncTcp;
    fn addr(n: u16) -> std::net::SocketAddr {
        tcp_addr(n)
    }
    fn sim_addr(n: u16) -> Addr {
        Addr::Tcp(tcp_addr(n))
    }
    fn sopts(k: &KeySetup) -> EncryptionOptions<TcpOptions> {
        EncryptionOptions { inner_options: TcpListener::sopts(k), keys: k.server_keys() }
    }
    fn copts(k: &KeySetup, c: usize) -> EncryptionOptions<TcpOptions> {
        EncryptionOptions { inner_options: TcpListener::copts(k, c), keys: k.client_keys(c) }
    }
}

#[cfg(feature = "full")]
impl Tp for EncryptedListener<UnixListener> {
    const T: T = T::EncUnix;
    fn addr(n: u16) -> PathBuf {
        unix_addr(n)
    }
    fn sim_addr(n: u16) -> Addr {
        Addr::Unix(Some(unix_addr(n)))
    }
    fn sopts(k: &KeySetup) -> Self::ListenerOptions {
        EncryptionOptions { inner_options: Default::default(), keys: k.server_keys() }
    }
    fn copts(k: &KeySetup, c: usize) -> <Self::Stream as AsyncProtocolStream>::StreamOptions {
        EncryptionOptions { inner_options: Default::default(), keys: k.client_keys(c) }
    }
}

/// Calls a generic async function with the transport chosen at run time.
#[macro_export]
macro_rules! with_transport {
    ($t:expr, $f:ident ( $($a:expr),* )) => {
        match $t {
            $crate::net::T::Tcp => $f::<tokio::net::TcpListener>($($a),*).await,
            $crate::net::T::Own => $f::<$crate::own::OwnListener>($($a),*).await,
            $crate::net::T::Unix => $f::<tokio::net::UnixListener>($($a),*).await,
            #[cfg(feature = "full")]
            $crate::net::T::EncTcp => {
                $f::<bromine::protocol::encrypted::EncryptedListener<tokio::net::TcpListener>>($($a),*).await
            }
            #[cfg(feature = "full")]
            $crate::net::T::EncUnix => {
                $f::<bromine::protocol::encrypted::EncryptedListener<tokio::net::UnixListener>>($($a),*).await
            }
            #[cfg(not(feature = "full"))]
            _ => unreachable!(),
        }
    };
}

/// Knobs shared by the connections of a run.
#[derive(Clone, Copy, Debug)]
pub struct NetCfg {
    /// 0: tiny buffers, 1: small, 2: normal
    pub caps: u32,
    pub latency: u32,
    pub jitter: u32,
    pub short: u8,
    pub pend: u8,
    /// percent of connections that stall for a while; beyond 50 also for minutes
    pub stalls: u32,
    /// percent of connections that are cut
    pub cuts: u32,
}

pub fn net_cfg(d: D) -> NetCfg {
    let caps = d.weighted(&[50, 25, 25]) as u32;
    let caps = 2 - caps; // 0 decides for normal buffers
    let latency = if caps == 2 && d.chance(40) { d.range(1, 40) } else { 0 };
    let jitter = if latency > 0 && d.chance(50) { d.range(0, 30) } else { 0 };
    let short = if d.chance(40) { *d.pick(&[8u8, 40, 128, 220]) } else { 0 };
    let pend = if d.chance(25) { *d.pick(&[8u8, 40, 128]) } else { 0 };
    NetCfg { caps, latency, jitter, short, pend, stalls: 0, cuts: 0 }
}

impl NetCfg {
    /// payload sizes that keep a run short
    pub fn max_payload(&self) -> u32 {
        match self.caps {
            0 => 700,
            1 => 6000,
            _ => 70_000,
        }
    }
    pub fn dir(&self, d: D) -> DirPlan {
        let cap = match self.caps {
            0 => *d.pick(&[16u32, 1, 3, 7, 29, 61]),
            1 => *d.pick(&[512u32, 128, 1024, 1500]),
            _ => *d.pick(&[65536u32, 4096, 8192, 1 << 20]),
        };
        let lat = if self.latency > 0 { d.n(self.latency + 1) } else { 0 };
        let pick = |p: u8| if p > 0 && d.chance(70) { p } else { 0 };
        // zero is the plain behaviour
        DirPlan {
            cap: cap as usize,
            latency_ms: lat,
            jitter_ms: self.jitter,
            short_read: pick(self.short),
            short_write: pick(self.short),
            pend_read: pick(self.pend),
            pend_write: pick(self.pend),
            cut_at: if self.cuts > 0 && d.chance(self.cuts) {
                let at = match d.n(4) {
                    0 => d.n(150),
                    1 => d.n(1200),
                    2 => d.n(8000),
                    _ => d.n(60000),
                };
                let how = *d.pick(&[Cut::Reset, Cut::Vanish, Cut::HalfEof, Cut::BlackHole]);
                Some((at as u64, how))
            } else {
                None
            },
            stall_at: if self.stalls > 0 && d.chance(self.stalls) {
                // beyond 50 also for longer than anybody would care to wait
                let at = d.n(4000) as u64;
                Some((at, if self.stalls > 50 && d.n(2) == 0 { d.range(9000, 200_000) } else { d.range(1, 9000) }))
            } else {
                None
            },
            tap: true,
        }
    }
    pub fn plan(&self, conn: usize) -> Plan {
        let d = D(NET + conn as u32);
        Plan {
            dirs: [self.dir(d), self.dir(d)],
            connect_ms: if self.latency > 0 { d.n(30) } else { 0 },
            connect_err: None,
            accept_err: None,
        }
    }
    pub fn install(self) {
        rt::set_plan(Box::new(move |conn, _| self.plan(conn)));
    }
}
