//! Local listening sockets of the simulator.
use crate::net::unix::{SocketAddr, UnixStream};

use std::future::poll_fn;
use std::io;
use std::path::Path;
use std::task::{Context, Poll};

/// A simulated listening socket.
#[derive(Debug)]
pub struct UnixListener {
    key: (u32, String),
}

impl UnixListener {
    /// Creates the socket file and listens on it.
    #[track_caller]
    pub fn bind<P>(path: P) -> io::Result<UnixListener>
    where
        P: AsRef<Path>,
    {
        let path = path.as_ref();
        // The socket shows up as a file, and binding to an existing name fails.
        std::fs::OpenOptions::new()
            .write(true)
            .create_new(true)
            .open(path)
            .map_err(|e| {
                if e.kind() == io::ErrorKind::AlreadyExists {
                    io::ErrorKind::AddrInUse.into()
                } else {
                    e
                }
            })?;
        let key = simcore::net::unix_listen(&path.to_string_lossy())?;
        Ok(UnixListener { key })
    }

    /// Address listened on.
    pub fn local_addr(&self) -> io::Result<SocketAddr> {
        SocketAddr::unnamed()
    }

    /// Pending error.
    pub fn take_error(&self) -> io::Result<Option<io::Error>> {
        Ok(None)
    }

    /// Accepts a connection.
    pub async fn accept(&self) -> io::Result<(UnixStream, SocketAddr)> {
        poll_fn(|cx| self.poll_accept(cx)).await
    }

    /// Polls for a connection.
    pub fn poll_accept(&self, cx: &mut Context<'_>) -> Poll<io::Result<(UnixStream, SocketAddr)>> {
        match simcore::net::unix_poll_accept(&self.key, cx) {
            Poll::Ready(Ok(io)) => {
                Poll::Ready(SocketAddr::unnamed().map(|a| (UnixStream { io }, a)))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}

impl Drop for UnixListener {
    fn drop(&mut self) {
        simcore::net::unix_unlisten(&self.key);
    }
}
