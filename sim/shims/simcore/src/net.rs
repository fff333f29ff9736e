//! Simulated byte streams: TCP connections between nodes and local sockets within a node.
use crate::{logf, note, sim, timer_at, ProcId, MS};
use std::collections::{BTreeMap, VecDeque};
use std::io;
use std::task::{Context, Poll, Waker};

pub type Addr = (u32, u16); // node, port

#[derive(Clone, Debug)]
pub struct NetKnobs {
    pub latency_min: u64,
    pub latency_max: u64,
    /// Capacity of a connection's buffer per direction.
    pub tcp_cap: usize,
    pub unix_cap: usize,
    /// Probability (per mille) that a read returns less than is there, and the maximum then.
    pub short_read: u64,
    pub short_read_max: u64,
    pub short_write: u64,
    /// Probability (per mille) that a written piece is delayed by up to `spike` more.
    pub spike_chance: u64,
    pub spike: u64,
    pub unix_latency_max: u64,
}

impl Default for NetKnobs {
    fn default() -> Self {
        Self {
            latency_min: MS / 10,
            latency_max: MS,
            tcp_cap: 128 * 1024,
            unix_cap: 200 * 1024,
            short_read: 0,
            short_read_max: 16,
            short_write: 0,
            spike_chance: 0,
            spike: 0,
            unix_latency_max: MS / 5,
        }
    }
}

#[derive(Default)]
struct Pipe {
    chunks: VecDeque<(u64, VecDeque<u8>)>,
    queued: usize,
    last_at: u64,
    /// Writer is done; the reader sees the end after the data, not before this time.
    fin: Option<u64>,
    /// Reader is gone.
    reader_gone: bool,
    /// Both directions are dead with an error.
    reset: bool,
    read_wakers: Vec<Waker>,
    write_wakers: Vec<Waker>,
    /// Reading is suspended by the simulated process on the reading side.
    pub total: u64,
}

impl Pipe {
    fn wake_read(&mut self) {
        for w in self.read_wakers.drain(..) {
            w.wake();
        }
    }
    fn wake_write(&mut self) {
        for w in self.write_wakers.drain(..) {
            w.wake();
        }
    }
}

struct Conn {
    pipes: [Pipe; 2], // pipes[s]: written by side s, read by side 1 - s
    procs: [ProcId; 2],
    nodes: [u32; 2],
    tcp: bool,
    open_handles: [u32; 2],
    /// Data of this connection goes nowhere for good (peer vanished without a word).
    blackhole: bool,
}

struct Listener {
    proc: ProcId,
    queue: VecDeque<(u64, usize)>, // visible at, connection
    wakers: Vec<Waker>,
}

#[derive(Default)]
pub struct Net {
    pub knobs: NetKnobs,
    conns: Vec<Conn>,
    tcp_listeners: BTreeMap<Addr, Listener>,
    unix_listeners: BTreeMap<(u32, String), Listener>,
    /// Pairs of nodes that cannot reach each other at present.
    cut: Vec<(u32, u32)>,
    heal_wakers: Vec<Waker>,
    next_port: u16,
    stdin: BTreeMap<ProcId, Stream>,
    stdout: BTreeMap<ProcId, Stream>,
    pub bytes_tcp: u64,
    pub bytes_unix: u64,
    pub tcp_conns: u64,
}

impl Net {
    pub fn is_whole(&self) -> bool {
        self.cut.is_empty()
    }
    pub fn is_cut(&self, a: u32, b: u32) -> bool {
        self.cut.contains(&(a.min(b), a.max(b)))
    }
}

pub fn set_cut(a: u32, b: u32, v: bool) {
    let n = &mut sim().net;
    let k = (a.min(b), a.max(b));
    n.cut.retain(|x| *x != k);
    if v {
        n.cut.push(k);
    } else {
        for w in std::mem::take(&mut n.heal_wakers) {
            w.wake();
        }
    }
    note(&[30, a.into(), b.into(), v.into()]);
}

fn latency(tcp: bool) -> u64 {
    let s = sim();
    let k = &s.net.knobs;
    if !tcp {
        return if k.unix_latency_max > 0 { s.net_rng.below(k.unix_latency_max) } else { 0 };
    }
    let mut l = k.latency_min + s.net_rng.below(k.latency_max.saturating_sub(k.latency_min) + 1);
    if k.spike_chance > 0 && s.net_rng.chance(k.spike_chance) {
        l += s.net_rng.below(k.spike + 1);
        *s.counters.entry("net_delay_spikes").or_insert(0) += 1;
    }
    l
}

/// One end of a simulated connection. Cloning is explicit via `dup`.
#[derive(Debug)]
pub struct Stream {
    conn: usize,
    side: usize,
}

fn new_conn(procs: [ProcId; 2], nodes: [u32; 2], tcp: bool) -> usize {
    let s = sim();
    s.net.conns.push(Conn {
        pipes: [Pipe::default(), Pipe::default()],
        procs,
        nodes,
        tcp,
        open_handles: [1, 1],
        blackhole: false,
    });
    if tcp {
        s.net.tcp_conns += 1;
    }
    s.net.conns.len() - 1
}

impl Stream {
    pub fn id(&self) -> usize {
        self.conn
    }

    pub fn dup(&self) -> Stream {
        sim().net.conns[self.conn].open_handles[self.side] += 1;
        Stream { conn: self.conn, side: self.side }
    }

    pub fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>> {
        let s = sim();
        let now = s.now;
        let (tcp, cut, me_dead) = {
            let c = &s.net.conns[self.conn];
            let p = c.procs[self.side];
            (
                c.tcp,
                c.tcp && s.net.is_cut(c.nodes[0], c.nodes[1]),
                p != 0 && !crate::is_alive(p),
            )
        };
        if me_dead {
            return Poll::Pending;
        }
        if buf.is_empty() {
            return Poll::Ready(Ok(0));
        }
        let c = &mut s.net.conns[self.conn];
        let pipe = &mut c.pipes[1 - self.side];
        if pipe.reset {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if c.blackhole && pipe.chunks.is_empty() {
            pipe.read_wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        if cut {
            pipe.read_wakers.push(cx.waker().clone());
            s.net.heal_wakers.push(cx.waker().clone());
            return Poll::Pending;
        }
        let mut want = buf.len();
        if pipe.chunks.front().is_some_and(|c| c.0 <= now) {
            let k = &s.net.knobs;
            if k.short_read > 0 && s.net_rng.chance(k.short_read) {
                want = want.min(s.net_rng.range(1, k.short_read_max) as usize);
                *s.counters.entry("short_reads").or_insert(0) += 1;
            }
            let mut n = 0;
            while n < want {
                let Some((at, data)) = pipe.chunks.front_mut() else { break };
                if *at > now {
                    break;
                }
                let take = data.len().min(want - n);
                for b in data.drain(..take) {
                    buf[n] = b;
                    n += 1;
                }
                if data.is_empty() {
                    pipe.chunks.pop_front();
                }
            }
            pipe.queued -= n;
            pipe.wake_write();
            note(&[20, self.conn as u64, self.side as u64, n as u64]);
            crate::note_bytes(&buf[..n]);
            if tcp {
                s.net.bytes_tcp += n as u64;
            } else {
                s.net.bytes_unix += n as u64;
            }
            return Poll::Ready(Ok(n));
        }
        if let Some((at, _)) = pipe.chunks.front() {
            timer_at(*at, cx.waker().clone());
        } else if let Some(at) = pipe.fin {
            if at <= now {
                return Poll::Ready(Ok(0));
            }
            timer_at(at, cx.waker().clone());
        }
        pipe.read_wakers.push(cx.waker().clone());
        Poll::Pending
    }

    pub fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let s = sim();
        let c = &mut s.net.conns[self.conn];
        let tcp = c.tcp;
        if c.procs[self.side] != 0 && !crate::is_alive(c.procs[self.side]) {
            return Poll::Ready(Ok(buf.len()));
        }
        let blackhole = c.blackhole;
        let pipe = &mut c.pipes[self.side];
        if pipe.reset {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if pipe.fin.is_some() || (pipe.reader_gone && !blackhole) {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let cap = if tcp { s.net.knobs.tcp_cap } else { s.net.knobs.unix_cap };
        if pipe.queued >= cap {
            pipe.write_wakers.push(cx.waker().clone());
            *s.counters.entry("backpressure").or_insert(0) += 1;
            return Poll::Pending;
        }
        let mut n = buf.len().min(cap - pipe.queued);
        if n > 1 && s.net.knobs.short_write > 0 && s.net_rng.chance(s.net.knobs.short_write) {
            n = s.net_rng.range(1, n as u64) as usize;
            *s.counters.entry("short_writes_net").or_insert(0) += 1;
        }
        let at = (s.now + latency(tcp)).max(pipe.last_at);
        pipe.last_at = at;
        pipe.chunks.push_back((at, buf[..n].iter().copied().collect()));
        pipe.queued += n;
        pipe.total += n as u64;
        pipe.wake_read();
        note(&[21, self.conn as u64, self.side as u64, n as u64, at]);
        Poll::Ready(Ok(n))
    }

    /// Ready as soon as a read would return something.
    pub fn poll_readable(&self, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let s = sim();
        let now = s.now;
        let pipe = &mut s.net.conns[self.conn].pipes[1 - self.side];
        if pipe.reset
            || pipe.chunks.front().is_some_and(|c| c.0 <= now)
            || (pipe.chunks.is_empty() && pipe.fin.is_some_and(|t| t <= now))
        {
            return Poll::Ready(Ok(()));
        }
        if let Some((at, _)) = pipe.chunks.front() {
            timer_at(*at, cx.waker().clone());
        } else if let Some(at) = pipe.fin {
            timer_at(at, cx.waker().clone());
        }
        pipe.read_wakers.push(cx.waker().clone());
        Poll::Pending
    }

    /// Writes regardless of the capacity (a blocking write that always finds room).
    pub fn force_write(&self, buf: &[u8]) -> io::Result<usize> {
        let s = sim();
        let c = &mut s.net.conns[self.conn];
        if c.procs[self.side] != 0 && !crate::is_alive(c.procs[self.side]) {
            return Ok(buf.len());
        }
        let at = (s.now + latency(c.tcp)).max(c.pipes[self.side].last_at);
        let pipe = &mut c.pipes[self.side];
        if pipe.fin.is_some() || pipe.reader_gone || pipe.reset {
            return Err(io::ErrorKind::BrokenPipe.into());
        }
        pipe.last_at = at;
        pipe.chunks.push_back((at, buf.iter().copied().collect()));
        pipe.queued += buf.len();
        pipe.total += buf.len() as u64;
        pipe.wake_read();
        note(&[24, self.conn as u64, self.side as u64, buf.len() as u64]);
        Ok(buf.len())
    }

    /// Everything that was written by the other side and not yet read.
    pub fn on_the_way(&self) -> Vec<u8> {
        let pipe = &sim().net.conns[self.conn].pipes[1 - self.side];
        pipe.chunks.iter().flat_map(|c| c.1.iter().copied()).collect()
    }

    /// No more data from this side; the other one sees the end after reading everything.
    pub fn shutdown(&self) {
        let s = sim();
        let c = &mut s.net.conns[self.conn];
        if c.procs[self.side] != 0 && !crate::is_alive(c.procs[self.side]) {
            return;
        }
        let at = (s.now + latency(c.tcp)).max(c.pipes[self.side].last_at);
        let p = &mut c.pipes[self.side];
        if p.fin.is_none() {
            p.fin = Some(at);
            p.wake_read();
        }
    }

    pub fn peer_closed(&self) -> bool {
        let c = &sim().net.conns[self.conn];
        c.pipes[1 - self.side].fin.is_some() || c.pipes[1 - self.side].reset
    }
}

impl Drop for Stream {
    fn drop(&mut self) {
        if !crate::enabled() {
            return;
        }
        let s = sim();
        let c = &mut s.net.conns[self.conn];
        c.open_handles[self.side] -= 1;
        if c.open_handles[self.side] == 0
            && (c.procs[self.side] == 0 || crate::is_alive(c.procs[self.side]))
        {
            close_side(self.conn, self.side);
        }
    }
}

fn close_side(conn: usize, side: usize) {
    let s = sim();
    let at = {
        let c = &s.net.conns[conn];
        (s.now + latency(c.tcp)).max(c.pipes[side].last_at)
    };
    let c = &mut s.net.conns[conn];
    let out = &mut c.pipes[side];
    if out.fin.is_none() {
        out.fin = Some(at);
    }
    out.wake_read();
    out.wake_write();
    let inn = &mut c.pipes[1 - side];
    inn.reader_gone = true;
    inn.wake_write();
    inn.wake_read();
    note(&[22, conn as u64, side as u64]);
}

pub fn close_proc(p: ProcId, silent: bool) {
    let s = sim();
    for i in 0..s.net.conns.len() {
        for side in 0..2 {
            if s.net.conns[i].procs[side] == p {
                if silent && s.net.conns[i].tcp {
                    s.net.conns[i].blackhole = true;
                } else {
                    close_side(i, side);
                }
            }
        }
    }
    let s = sim();
    let gone: Vec<usize> = s
        .net
        .tcp_listeners
        .values()
        .chain(s.net.unix_listeners.values())
        .filter(|l| l.proc == p)
        .flat_map(|l| l.queue.iter().map(|q| q.1))
        .collect();
    s.net.tcp_listeners.retain(|_, l| l.proc != p);
    s.net.unix_listeners.retain(|_, l| l.proc != p);
    for c in gone {
        reset_conn(c);
    }
}

pub fn reset_conn(i: usize) {
    let c = &mut sim().net.conns[i];
    for p in &mut c.pipes {
        p.reset = true;
        p.wake_read();
        p.wake_write();
    }
    note(&[23, i as u64]);
}

/// Resets all TCP connections between two nodes. Returns how many were alive.
pub fn reset_between(a: u32, b: u32) -> u64 {
    let n = sim().net.conns.len();
    let mut k = 0;
    for i in 0..n {
        let c = &sim().net.conns[i];
        if c.tcp
            && (c.nodes == [a, b] || c.nodes == [b, a])
            && !c.pipes[0].reset
            && !(c.pipes[0].fin.is_some() && c.pipes[1].fin.is_some())
        {
            reset_conn(i);
            k += 1;
        }
    }
    k
}

/// Number of TCP connections between two nodes on which both sides are still open.
pub fn live_between(a: u32, b: u32) -> usize {
    sim()
        .net
        .conns
        .iter()
        .filter(|c| {
            c.tcp
                && (c.nodes == [a, b] || c.nodes == [b, a])
                && !c.blackhole
                && c.pipes.iter().all(|p| !p.reset && p.fin.is_none() && !p.reader_gone)
        })
        .count()
}

/// Bytes that were written and not yet read, on connections that still work.
pub fn in_flight() -> usize {
    sim()
        .net
        .conns
        .iter()
        .filter(|c| !c.blackhole)
        .flat_map(|c| c.pipes.iter())
        .filter(|p| !p.reset && !p.reader_gone)
        .map(|p| p.queued)
        .sum()
}

pub fn bytes_between(a: u32, b: u32) -> u64 {
    sim()
        .net
        .conns
        .iter()
        .filter(|c| c.tcp && (c.nodes == [a, b] || c.nodes == [b, a]))
        .map(|c| c.pipes[0].total + c.pipes[1].total)
        .sum()
}

// ---------------------------------------------------------------- listeners

pub fn tcp_listen(port: u16) -> io::Result<Addr> {
    if crate::in_dead_proc() {
        return Err(io::ErrorKind::PermissionDenied.into());
    }
    let s = sim();
    let node = crate::current_node();
    let port = if port == 0 {
        s.net.next_port += 1;
        40000 + s.net.next_port
    } else {
        port
    };
    if s.net.tcp_listeners.contains_key(&(node, port)) {
        return Err(io::ErrorKind::AddrInUse.into());
    }
    s.net.tcp_listeners.insert(
        (node, port),
        Listener { proc: crate::current_proc(), queue: VecDeque::new(), wakers: vec![] },
    );
    Ok((node, port))
}

pub fn tcp_unlisten(a: Addr) {
    if crate::enabled() && sim().net.tcp_listeners.get(&a).is_some_and(|l| l.proc == crate::current_proc()) {
        sim().net.tcp_listeners.remove(&a);
    }
}

/// Starts connecting; the result is known at the returned time.
pub fn tcp_connect(to: Addr) -> (u64, Option<Stream>, io::ErrorKind) {
    let s = sim();
    let from = crate::current_node();
    let t = s.now + latency(true);
    if crate::in_dead_proc() {
        return (t, None, io::ErrorKind::PermissionDenied);
    }
    if s.net.is_cut(from, to.0) {
        return (s.now + 20_000 * MS, None, io::ErrorKind::TimedOut);
    }
    let Some(lp) = s.net.tcp_listeners.get(&to).map(|l| l.proc) else {
        return (t, None, io::ErrorKind::ConnectionRefused);
    };
    let c = new_conn([crate::current_proc(), lp], [from, to.0], true);
    let l = sim().net.tcp_listeners.get_mut(&to).unwrap();
    l.queue.push_back((t, c));
    for w in l.wakers.drain(..) {
        timer_at(t, w);
    }
    (t + MS / 10, Some(Stream { conn: c, side: 0 }), io::ErrorKind::Other)
}

pub fn tcp_poll_accept(a: Addr, cx: &mut Context<'_>) -> Poll<io::Result<(Stream, Addr)>> {
    let s = sim();
    let now = s.now;
    let Some(l) = s.net.tcp_listeners.get_mut(&a) else { return Poll::Pending };
    match l.queue.front() {
        Some((at, _)) if *at <= now => {
            let (_, c) = l.queue.pop_front().unwrap();
            let node = s.net.conns[c].nodes[0];
            Poll::Ready(Ok((Stream { conn: c, side: 1 }, (node, 30000 + c as u16))))
        }
        Some((at, _)) => {
            timer_at(*at, cx.waker().clone());
            Poll::Pending
        }
        None => {
            l.wakers.push(cx.waker().clone());
            Poll::Pending
        }
    }
}

pub fn unix_listen(path: &str) -> io::Result<(u32, String)> {
    if crate::in_dead_proc() {
        return Err(io::ErrorKind::PermissionDenied.into());
    }
    let s = sim();
    let node = crate::current_node();
    let key = (node, path.to_string());
    s.net.unix_listeners.insert(
        key.clone(),
        Listener { proc: crate::current_proc(), queue: VecDeque::new(), wakers: vec![] },
    );
    logf(|| format!("node {node} listens on {path}"));
    Ok(key)
}

pub fn unix_unlisten(key: &(u32, String)) {
    if crate::enabled() && sim().net.unix_listeners.get(key).is_some_and(|l| l.proc == crate::current_proc()) {
        sim().net.unix_listeners.remove(key);
    }
}

pub fn unix_is_listening(node: u32, path: &str) -> bool {
    sim().net.unix_listeners.contains_key(&(node, path.to_string()))
}

/// Connects to a local socket on `node`. `proc` is the connecting process.
pub fn unix_connect(node: u32, path: &str) -> io::Result<Stream> {
    if crate::in_dead_proc() {
        return Err(io::ErrorKind::PermissionDenied.into());
    }
    let s = sim();
    let key = (node, path.to_string());
    let Some(lp) = s.net.unix_listeners.get(&key).map(|l| l.proc) else {
        return Err(io::ErrorKind::ConnectionRefused.into());
    };
    let c = new_conn([crate::current_proc(), lp], [node, node], false);
    let l = sim().net.unix_listeners.get_mut(&key).unwrap();
    l.queue.push_back((0, c));
    for w in l.wakers.drain(..) {
        w.wake();
    }
    Ok(Stream { conn: c, side: 0 })
}

pub fn unix_poll_accept(key: &(u32, String), cx: &mut Context<'_>) -> Poll<io::Result<Stream>> {
    let Some(l) = sim().net.unix_listeners.get_mut(key) else { return Poll::Pending };
    match l.queue.pop_front() {
        Some((_, c)) => Poll::Ready(Ok(Stream { conn: c, side: 1 })),
        None => {
            l.wakers.push(cx.waker().clone());
            Poll::Pending
        }
    }
}

/// A connected pair that belongs to no listener (standard input and output of a program).
pub fn pair(procs: [ProcId; 2], nodes: [u32; 2]) -> (Stream, Stream) {
    let c = new_conn(procs, nodes, false);
    (Stream { conn: c, side: 0 }, Stream { conn: c, side: 1 })
}

/// Gives a proc its standard input and output; returns the other ends (to write to, to read from).
pub fn set_stdio(p: ProcId) -> (Stream, Stream) {
    let (a_in, p_in) = pair([0, p], [0, 0]);
    let (p_out, a_out) = pair([p, 0], [0, 0]);
    let n = &mut sim().net;
    n.stdin.insert(p, p_in);
    n.stdout.insert(p, p_out);
    (a_in, a_out)
}

pub fn take_stdin() -> Option<Stream> {
    if !crate::active() {
        return None;
    }
    sim().net.stdin.remove(&crate::current_proc())
}

pub fn take_stdout() -> Option<Stream> {
    if !crate::active() {
        return None;
    }
    sim().net.stdout.remove(&crate::current_proc())
}

pub fn tcp_is_listening(node: u32) -> bool {
    sim().net.tcp_listeners.keys().any(|a| a.0 == node)
}
