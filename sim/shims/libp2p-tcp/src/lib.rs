//! The TCP transport over the simulator's network.
use futures::future::{BoxFuture, FutureExt, Ready};
use libp2p_core::multiaddr::{Multiaddr, Protocol};
use libp2p_core::transport::{DialOpts, ListenerId, TransportError, TransportEvent};
use std::collections::VecDeque;
use std::future::poll_fn;
use std::io;
use std::net::{IpAddr, Ipv4Addr};
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug, Default)]
pub struct Config;

impl Config {
    pub fn new() -> Self {
        Self
    }
    pub fn ttl(self, _value: u32) -> Self {
        self
    }
    pub fn nodelay(self, _value: bool) -> Self {
        self
    }
    pub fn listen_backlog(self, _backlog: u32) -> Self {
        self
    }
    pub fn port_reuse(self, _port_reuse: bool) -> Self {
        self
    }
}

pub mod tokio {
    pub use super::{TcpStream, Transport};
}

pub struct TcpStream {
    io: simcore::net::Stream,
}

impl futures::AsyncRead for TcpStream {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        self.io.poll_read(cx, buf)
    }
}

impl futures::AsyncWrite for TcpStream {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        self.io.poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.io.shutdown();
        Poll::Ready(Ok(()))
    }
}

fn node_ip(node: u32) -> Ipv4Addr {
    Ipv4Addr::new(10, 0, 0, node as u8)
}

fn to_addr(addr: &Multiaddr) -> Option<(Ipv4Addr, u16)> {
    let mut it = addr.iter();
    let ip = match it.next()? {
        Protocol::Ip4(ip) => ip,
        _ => return None,
    };
    let port = match it.next()? {
        Protocol::Tcp(p) => p,
        _ => return None,
    };
    match it.next() {
        None | Some(Protocol::P2p(_)) => Some((ip, port)),
        _ => None,
    }
}

fn from_addr(ip: Ipv4Addr, port: u16) -> Multiaddr {
    Multiaddr::empty().with(IpAddr::V4(ip).into()).with(Protocol::Tcp(port))
}

struct ListenStream {
    id: ListenerId,
    addr: simcore::net::Addr,
}

impl Drop for ListenStream {
    fn drop(&mut self) {
        simcore::net::tcp_unlisten(self.addr);
    }
}

type Event = TransportEvent<Ready<Result<TcpStream, io::Error>>, io::Error>;

#[derive(Default)]
pub struct Transport {
    listeners: Vec<ListenStream>,
    pending: VecDeque<Event>,
    waker: Option<Waker>,
}

impl Transport {
    pub fn new(_config: Config) -> Self {
        Self::default()
    }
}

impl libp2p_core::Transport for Transport {
    type Output = TcpStream;
    type Error = io::Error;
    type Dial = BoxFuture<'static, Result<TcpStream, io::Error>>;
    type ListenerUpgrade = Ready<Result<TcpStream, io::Error>>;

    fn listen_on(&mut self, id: ListenerId, addr: Multiaddr) -> Result<(), TransportError<io::Error>> {
        let Some((ip, port)) = to_addr(&addr) else {
            return Err(TransportError::MultiaddrNotSupported(addr));
        };
        let bound = simcore::net::tcp_listen(port).map_err(TransportError::Other)?;
        let ips = if ip.is_unspecified() {
            vec![Ipv4Addr::LOCALHOST, node_ip(bound.0)]
        } else {
            vec![ip]
        };
        for ip in ips {
            self.pending.push_back(TransportEvent::NewAddress {
                listener_id: id,
                listen_addr: from_addr(ip, bound.1),
            });
        }
        self.listeners.push(ListenStream { id, addr: bound });
        if let Some(w) = self.waker.take() {
            w.wake();
        }
        Ok(())
    }

    fn remove_listener(&mut self, id: ListenerId) -> bool {
        let n = self.listeners.len();
        self.listeners.retain(|l| l.id != id);
        let removed = n != self.listeners.len();
        if removed {
            self.pending.push_back(TransportEvent::ListenerClosed { listener_id: id, reason: Ok(()) });
            if let Some(w) = self.waker.take() {
                w.wake();
            }
        }
        removed
    }

    fn dial(&mut self, addr: Multiaddr, _opts: DialOpts) -> Result<Self::Dial, TransportError<io::Error>> {
        let Some((ip, port)) = to_addr(&addr) else {
            return Err(TransportError::MultiaddrNotSupported(addr));
        };
        if port == 0 || ip.is_unspecified() {
            return Err(TransportError::MultiaddrNotSupported(addr));
        }
        Ok(async move {
            let node = if ip.is_loopback() {
                simcore::current_node()
            } else {
                u32::from(ip.octets()[3])
            };
            let (at, stream, err) = simcore::net::tcp_connect((node, port));
            poll_fn(|cx| {
                if simcore::now() >= at {
                    return Poll::Ready(());
                }
                simcore::timer_at(at, cx.waker().clone());
                Poll::Pending
            })
            .await;
            match stream {
                Some(io) => Ok(TcpStream { io }),
                None => Err(err.into()),
            }
        }
        .boxed())
    }

    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Event> {
        if let Some(event) = self.pending.pop_front() {
            return Poll::Ready(event);
        }
        for l in &self.listeners {
            match simcore::net::tcp_poll_accept(l.addr, cx) {
                Poll::Ready(Ok((io, from))) => {
                    return Poll::Ready(TransportEvent::Incoming {
                        listener_id: l.id,
                        upgrade: futures::future::ready(Ok(TcpStream { io })),
                        local_addr: from_addr(node_ip(l.addr.0), l.addr.1),
                        send_back_addr: from_addr(node_ip(from.0), from.1),
                    });
                }
                Poll::Ready(Err(error)) => {
                    return Poll::Ready(TransportEvent::ListenerError { listener_id: l.id, error });
                }
                Poll::Pending => {}
            }
        }
        self.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
