//! Local stream sockets over the simulator's byte streams.
use crate::io::{AsyncRead, AsyncWrite, ReadBuf};
use crate::net::unix::split::{split, ReadHalf, WriteHalf};
use crate::net::unix::split_owned::{split_owned, OwnedReadHalf, OwnedWriteHalf};
use crate::net::unix::{SocketAddr, UCred};

use std::future::poll_fn;
use std::io;
use std::path::Path;
use std::pin::Pin;
use std::task::{Context, Poll};

/// A simulated Unix stream socket.
#[derive(Debug)]
pub struct UnixStream {
    pub(crate) io: simcore::net::Stream,
}

impl UnixStream {
    /// Connects to the socket named by `path` on the current node.
    pub async fn connect<P>(path: P) -> io::Result<UnixStream>
    where
        P: AsRef<Path>,
    {
        let path = path.as_ref().to_string_lossy().to_string();
        let io = simcore::net::unix_connect(simcore::current_node(), &path)?;
        Ok(UnixStream { io })
    }

    /// Wraps a simulated stream.
    pub fn from_sim(io: simcore::net::Stream) -> UnixStream {
        UnixStream { io }
    }

    /// Creates an unnamed pair of connected sockets.
    pub fn pair() -> io::Result<(UnixStream, UnixStream)> {
        let p = simcore::current_proc();
        let n = simcore::current_node();
        let (a, b) = simcore::net::pair([p, p], [n, n]);
        Ok((UnixStream { io: a }, UnixStream { io: b }))
    }

    /// Address of this side.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        SocketAddr::unnamed()
    }

    /// Address of the other side.
    pub fn peer_addr(&self) -> io::Result<SocketAddr> {
        SocketAddr::unnamed()
    }

    /// Credentials of the other side.
    pub fn peer_cred(&self) -> io::Result<UCred> {
        Err(io::ErrorKind::Unsupported.into())
    }

    /// Pending error.
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }

    /// Splits into borrowed halves.
    pub fn split<'a>(&'a mut self) -> (ReadHalf<'a>, WriteHalf<'a>) {
        split(self)
    }

    /// Splits into owned halves.
    pub fn into_split(self) -> (OwnedReadHalf, OwnedWriteHalf) {
        split_owned(self)
    }

    /// Waits until a read would not block (conservatively: at once).
    pub async fn readable(&self) -> io::Result<()> {
        poll_fn(|cx| self.io.poll_readable(cx)).await
    }

    /// Waits until a write would not block (conservatively: at once).
    pub async fn writable(&self) -> io::Result<()> {
        Ok(())
    }

    /// Reads without waiting.
    pub fn try_read(&self, buf: &mut [u8]) -> io::Result<usize> {
        let w = futures_noop();
        match self.io.poll_read(&mut Context::from_waker(&w), buf) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }

    /// Writes without waiting.
    pub fn try_write(&self, buf: &[u8]) -> io::Result<usize> {
        let w = futures_noop();
        match self.io.poll_write(&mut Context::from_waker(&w), buf) {
            Poll::Ready(r) => r,
            Poll::Pending => Err(io::ErrorKind::WouldBlock.into()),
        }
    }

    pub(crate) fn poll_read_priv(
        &self,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        let b = buf.initialize_unfilled();
        match self.io.poll_read(cx, b) {
            Poll::Ready(Ok(n)) => {
                buf.advance(n);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }

    pub(crate) fn poll_write_priv(
        &self,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        self.io.poll_write(cx, buf)
    }

    pub(crate) fn shutdown_write(&self) {
        self.io.shutdown();
    }
}

fn futures_noop() -> std::task::Waker {
    use std::task::{RawWaker, RawWakerVTable, Waker};
    fn clone(_: *const ()) -> RawWaker {
        RawWaker::new(std::ptr::null(), &VTABLE)
    }
    fn noop(_: *const ()) {}
    static VTABLE: RawWakerVTable = RawWakerVTable::new(clone, noop, noop, noop);
    unsafe { Waker::from_raw(clone(std::ptr::null())) }
}

impl AsyncRead for UnixStream {
    fn poll_read(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &mut ReadBuf<'_>,
    ) -> Poll<io::Result<()>> {
        self.poll_read_priv(cx, buf)
    }
}

impl AsyncWrite for UnixStream {
    fn poll_write(
        self: Pin<&mut Self>,
        cx: &mut Context<'_>,
        buf: &[u8],
    ) -> Poll<io::Result<usize>> {
        self.poll_write_priv(cx, buf)
    }

    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }

    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.shutdown_write();
        Poll::Ready(Ok(()))
    }
}
