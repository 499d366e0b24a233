//! A transport as a user of the crate may write one: what is written stays in a buffer until it is flushed (as
//! with buffered, compressing or TLS streams). Its options and addresses are those of TCP.

use crate::net::{tcp_addr, KeySetup, Tp, T};
use crate::rt::{stat, D};
use async_trait::async_trait;
use bromine::prelude::*;
#[cfg(feature = "full")]
use bromine::protocol::encrypted::{EncryptedListener, EncryptionOptions};
use bromine::protocol::tcp::TcpOptions;
use std::io;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{ready, Context as Cx, Poll};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::net::tcp::{OwnedReadHalf, OwnedWriteHalf};
use tokio::net::{TcpListener, TcpStream};
use tokio::sim::net::Addr;

pub struct OwnListener(TcpListener);

pub struct OwnStream {
    r: OwnedReadHalf,
    w: OwnWrite,
}

pub struct OwnWrite {
    w: OwnedWriteHalf,
    buf: Vec<u8>,
    limit: usize,
    /// how much of the buffer is written
    sent: usize,
    /// bytes so far; small buffers are for short runs
    total: usize,
}

fn own(s: TcpStream) -> OwnStream {
    let (r, w) = s.into_split();
    stat("probe:connections of a buffering transport", 1);
    let limit = *D(224).pick(&[8192usize, 1, 64, 65_536, 1 << 22]);
    OwnStream { r, w: OwnWrite { w, buf: vec![], limit, sent: 0, total: 0 } }
}

impl OwnWrite {
    fn drain(&mut self, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        let OwnWrite { w, buf, sent, .. } = self;
        while *sent < buf.len() {
            let n = ready!(Pin::new(&mut *w).poll_write(cx, &buf[*sent..]))?;
            if n == 0 {
                return Poll::Ready(Err(io::ErrorKind::WriteZero.into()));
            }
            *sent += n;
        }
        buf.clear();
        *sent = 0;
        Poll::Ready(Ok(()))
    }
}

impl AsyncWrite for OwnWrite {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Cx<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.sent > 0 || self.buf.len() >= self.limit {
            ready!(self.drain(cx))?;
        }
        let n = b.len().min(self.limit - self.buf.len().min(self.limit));
        self.buf.extend_from_slice(&b[..n]);
        self.total += n;
        if self.total > 200_000 {
            self.limit = self.limit.max(65_536);
        }
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        ready!(self.drain(cx))?;
        Pin::new(&mut self.w).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        ready!(self.drain(cx))?;
        Pin::new(&mut self.w).poll_shutdown(cx)
    }
}

impl AsyncWrite for OwnStream {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Cx<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut self.w).poll_write(cx, b)
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.w).poll_flush(cx)
    }
    fn poll_shutdown(mut self: Pin<&mut Self>, cx: &mut Cx<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.w).poll_shutdown(cx)
    }
}

impl AsyncRead for OwnStream {
    fn poll_read(mut self: Pin<&mut Self>, cx: &mut Cx<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut self.r).poll_read(cx, b)
    }
}

#[async_trait]
impl AsyncStreamProtocolListener for OwnListener {
    type AddressType = SocketAddr;
    type RemoteAddressType = SocketAddr;
    type Stream = OwnStream;
    type ListenerOptions = TcpOptions;

    async fn protocol_bind(address: SocketAddr, options: TcpOptions) -> IPCResult<Self> {
        let l = TcpListener::bind(address).await?;
        if let Some(ttl) = options.ttl {
            l.set_ttl(ttl)?;
        }
        Ok(OwnListener(l))
    }

    async fn protocol_accept(&self) -> IPCResult<(OwnStream, SocketAddr)> {
        let (s, a) = self.0.accept().await?;
        Ok((own(s), a))
    }
}

impl AsyncProtocolStreamSplit for OwnStream {
    type OwnedSplitReadHalf = OwnedReadHalf;
    type OwnedSplitWriteHalf = OwnWrite;

    fn protocol_into_split(self) -> (OwnedReadHalf, OwnWrite) {
        (self.r, self.w)
    }
}

#[async_trait]
impl AsyncProtocolStream for OwnStream {
    type AddressType = SocketAddr;
    type StreamOptions = TcpOptions;

    async fn protocol_connect(address: SocketAddr, options: TcpOptions) -> IPCResult<Self> {
        let s = TcpStream::connect(address).await?;
        if let Some(ttl) = options.ttl {
            s.set_ttl(ttl)?;
        }
        Ok(own(s))
    }
}

impl Tp for OwnListener {
    const T: T = T::Own;
    fn addr(n: u16) -> SocketAddr {
        tcp_addr(n)
    }
    fn sim_addr(n: u16) -> Addr {
        Addr::Tcp(tcp_addr(n))
    }
    fn sopts(k: &KeySetup) -> TcpOptions {
        TcpOptions { ttl: k.ttl }
    }
    fn copts(k: &KeySetup, _: usize) -> TcpOptions {
        TcpOptions { ttl: k.ttl.map(|t| t + 1) }
    }
}

#[cfg(feature = "full")]
impl Tp for EncryptedListener<OwnListener> {
    const T: T = T::EncTcp;
    fn addr(n: u16) -> SocketAddr {
        tcp_addr(n)
    }
    fn sim_addr(n: u16) -> Addr {
        Addr::Tcp(tcp_addr(n))
    }
    fn sopts(k: &KeySetup) -> EncryptionOptions<TcpOptions> {
        EncryptionOptions { inner_options: OwnListener::sopts(k), keys: k.server_keys() }
    }
    fn copts(k: &KeySetup, c: usize) -> EncryptionOptions<TcpOptions> {
        EncryptionOptions { inner_options: OwnListener::copts(k, c), keys: k.client_keys(c) }
    }
}
