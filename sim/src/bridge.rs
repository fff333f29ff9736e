//! The program between an editor and the daemon (P15).
use crate::gen::Builder;
use crate::plan::{Act, NodeSpec, Plan};
use crate::world::*;
use simcore::net::{self, Stream};
use simcore::rng::Rng;
use simcore::{sim, ProcId, MS};
use std::collections::VecDeque;
use std::future::poll_fn;
use std::task::{Poll, Waker};

pub fn p15(seed: u64) -> Plan {
    let mut b = Builder::new("P15", seed);
    b.plan.scenario = "bridge".into();
    b.plan.nodes.push(NodeSpec { peer: None, secret: None, files: vec![] });
    // One kind of header throughout, or all kinds.
    let style = if b.g.chance(400) { Some(b.g.below(2)) } else { None };
    let sizes = b.g.below(4);
    let act = |b: &mut Builder, what: &str, r: u64, text: &str| {
        let w = if b.g.chance(400) { 0 } else { b.pause() };
        b.step(w, Act::Special { what: what.into(), node: 1, r, text: text.into() });
    };
    for _ in 0..b.g.range(1, 30) {
        let r = b.g.next() >> 16;
        match b.g.below(20) {
            0..=8 => {
                let s = style.unwrap_or(b.g.below(4));
                act(&mut b, "editor says", r, &format!("{s} {sizes}"));
            }
            9..=15 => act(&mut b, "daemon says", r, &format!("0 {sizes}")),
            16 => act(&mut b, "editor stalls", r & 1, ""),
            17 => act(&mut b, "daemon stalls", r & 1, ""),
            _ => act(&mut b, "look", 0, ""),
        }
    }
    if b.g.chance(300) {
        let who = *b.g.pick(&["editor stalls", "daemon stalls"]);
        act(&mut b, who, 1, "");
        for _ in 0..b.g.range(1, 6) {
            let r = b.g.next() >> 16;
            let s = style.unwrap_or(b.g.below(4));
            if who == "editor stalls" || b.g.chance(300) {
                act(&mut b, "daemon says", r, &format!("0 {sizes}"));
            } else {
                act(&mut b, "editor says", r, &format!("{s} {sizes}"));
            }
        }
    }
    for _ in 0..b.g.range(1, 2) {
        let who = *b.g.pick(&["editor closes", "daemon closes"]);
        let half = b.g.chance(200);
        let r = b.g.next() >> 16;
        act(&mut b, who, r, if half { "half" } else { "" });
    }
    b.plan
}

#[derive(Default)]
struct Side {
    stream: Option<Stream>,
    /// Pieces to write and the pause before each; None: close. The flag says that a message is
    /// complete with this piece.
    out: VecDeque<(u64, Option<(Vec<u8>, bool)>)>,
    out_waker: Option<Waker>,
    in_waker: Option<Waker>,
    /// Messages in the order in which they are sent, and how many have been sent completely.
    said: Vec<String>,
    sent: usize,
    /// The beginning of one more message, sent before closing.
    half: bool,
    closing: bool,
    closed: bool,
    /// Everything that had been sent the other way was there when this side closed.
    had_all: bool,
    stalled: bool,
    heard: Vec<u8>,
}

#[derive(Default)]
struct Bridge {
    proc: ProcId,
    daemon_proc: ProcId,
    editor_in: Side,
    daemon: Side,
    editor_out: Option<Stream>,
    over: bool,
}

static mut BRIDGE: Option<Bridge> = None;
#[allow(static_mut_refs)]
fn br() -> &'static mut Bridge {
    unsafe { BRIDGE.get_or_insert_with(Bridge::default) }
}

/// A message of the kind that is sent, made from a number.
fn body(r: u64, sizes: u64) -> String {
    let mut g = Rng::new(r);
    let most = match (sizes, g.below(20)) {
        (0, _) => 20,
        (_, 0..=13) => 120,
        (1, _) => 800,
        (2, _) => 9000,
        (_, 14..=17) => 9000,
        _ => 90_000,
    };
    let n = g.range(1, most) as usize;
    let mut t = format!("{{\"jsonrpc\":\"2.0\",\"id\":{r},\"x\":\"");
    let extra: &[&str] = &[
        "Content-Length: 3", "\\r\\n\\r\\n", "\\n\\n", "ü", "🥕", "𝒳", "\u{2028}", "\u{85}", "\\\"", "a", "Content-Length: ", "\t", "漢字", "é",
        "\r", "}{", "Content-Type: x",
    ];
    let most = t.len() + n;
    while t.len() < most {
        let p: &str = g.pick(extra);
        t.push_str(p);
        if n > 2000 {
            let fill = g.range(1, 300) as usize;
            t.extend(std::iter::repeat('x').take(fill));
        }
    }
    t.push_str("\"}");
    t
}

fn framed(text: &str, style: u64) -> Vec<u8> {
    let n = text.len();
    let ct = "Content-Type: application/vscode-jsonrpc; charset=utf-8";
    match style {
        1 => format!("Content-Length: {n}\n\n{text}"),
        2 => format!("{ct}\r\nContent-Length: {n}\r\n\r\n{text}"),
        3 => format!("Content-Length: {n}\r\n{ct}\r\n\r\n{text}"),
        _ => format!("Content-Length: {n}\r\n\r\n{text}"),
    }
    .into_bytes()
}

/// Splits bytes at random places, with pauses in between.
fn pieces(bytes: &[u8], r: u64, whole: bool) -> Vec<(u64, Option<(Vec<u8>, bool)>)> {
    let mut g = Rng::new(r ^ 0x9e37);
    let cuts = match g.below(6) {
        0..=1 => 0,
        2..=3 => g.range(1, 3),
        4 => g.range(3, 12),
        _ => 40,
    };
    // Most cuts fall into the beginning, where the header is.
    let mut at: Vec<usize> = (0..cuts)
        .map(|_| {
            let most = if g.chance(600) { bytes.len().min(90) } else { bytes.len() };
            g.below(most as u64) as usize
        })
        .filter(|c| *c > 0)
        .collect();
    at.sort_unstable();
    at.dedup();
    at.push(bytes.len());
    let mut from = 0;
    let mut out = vec![];
    for a in at {
        let wait = match g.below(4) {
            0..=1 => 0,
            2 => g.below(2 * MS),
            _ => g.below(200 * MS),
        };
        out.push((if from == 0 { 0 } else { wait }, Some((bytes[from..a].to_vec(), whole && a == bytes.len()))));
        from = a;
    }
    out
}

type Sel = fn() -> &'static mut Side;
fn editor_side() -> &'static mut Side {
    &mut br().editor_in
}
fn daemon_side() -> &'static mut Side {
    &mut br().daemon
}

async fn write_loop(side: Sel) {
    loop {
        let (pause, piece) = poll_fn(|cx| match side().out.pop_front() {
            Some(p) => Poll::Ready(p),
            None => {
                side().out_waker = Some(cx.waker().clone());
                Poll::Pending
            }
        })
        .await;
        if pause > 0 {
            tokio::time::sleep(std::time::Duration::from_nanos(pause)).await;
        }
        let Some((bytes, whole)) = piece else {
            let b = br();
            if std::ptr::eq(side(), &b.daemon) {
                b.daemon.had_all = lines(&b.daemon.heard).0.len() == b.editor_in.said.len();
                hist(|| "the daemon's side is closed".into());
            } else {
                hist(|| "the editor's side is closed".into());
            }
            side().closed = true;
            // A daemon that is gone reads nothing any more either.
            if std::ptr::eq(side(), &b.daemon) {
                side().stream = None;
                simcore::kill(b.daemon_proc, "closed", false);
            } else if let Some(s) = &side().stream {
                s.shutdown();
            }
            return;
        };
        let mut done = 0;
        while done < bytes.len() {
            let n = poll_fn(|cx| match &side().stream {
                Some(s) => s.poll_write(cx, &bytes[done..]),
                None => Poll::Pending,
            })
            .await;
            match n {
                Ok(n) => done += n,
                Err(_) => return,
            }
        }
        if whole {
            side().sent += 1;
        }
    }
}

/// Reads what arrives at the daemon, or from standard output.
async fn read_loop(s: Stream, side: Sel) {
    let mut buf = vec![0u8; 32 * 1024];
    loop {
        let n = poll_fn(|cx| {
            if side().stalled {
                side().in_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            s.poll_read(cx, &mut buf)
        })
        .await;
        match n {
            Ok(n) if n > 0 => side().heard.extend_from_slice(&buf[..n]),
            _ => return,
        }
    }
}

/// Complete lines, and what is left.
fn lines(bytes: &[u8]) -> (Vec<Vec<u8>>, Vec<u8>) {
    let mut v: Vec<Vec<u8>> = bytes.split(|b| *b == b'\n').map(<[u8]>::to_vec).collect();
    let rest = v.pop().unwrap_or_default();
    (v, rest)
}

/// Complete messages with headers, and what is left.
fn frames(bytes: &[u8]) -> Result<(Vec<Vec<u8>>, Vec<u8>), String> {
    let mut v = vec![];
    let mut rest = bytes;
    loop {
        let Some(end) = rest.windows(4).position(|w| w == b"\r\n\r\n") else { break };
        let head = String::from_utf8_lossy(&rest[..end]).to_string();
        let mut len = None;
        for l in head.split("\r\n") {
            match l.split_once(':') {
                Some((k, x)) if k.eq_ignore_ascii_case("content-length") => len = x.trim().parse::<usize>().ok(),
                Some(_) => {}
                None => return Err(format!("a line of a header reads {l:?}")),
            }
        }
        let Some(len) = len else { return Err(format!("a header without a length: {head:?}")) };
        if rest.len() < end + 4 + len {
            break;
        }
        v.push(rest[end + 4..end + 4 + len].to_vec());
        rest = &rest[end + 4 + len..];
    }
    Ok((v, rest.to_vec()))
}

fn short(b: &[u8]) -> String {
    let t = String::from_utf8_lossy(b);
    if t.chars().count() > 70 {
        format!("{}… ({} bytes)", t.chars().take(70).collect::<String>(), b.len())
    } else {
        format!("{t} ({} bytes)", b.len())
    }
}

/// What arrived is what was sent, up to some point; at least `due` of it.
fn compare(whom: &str, got: &[Vec<u8>], said: &[String], sent: usize, due: bool, half: bool) {
    for (i, g) in got.iter().enumerate() {
        let last_half = half && i + 1 == got.len() && i == sent;
        match said.get(i) {
            Some(s) if s.as_bytes() == &g[..] => {}
            Some(s) if last_half && s.as_bytes().starts_with(g) => {}
            Some(s) => {
                let what = if said.iter().take(i).any(|x| x.as_bytes() == &g[..]) {
                    "arrived twice"
                } else if said.iter().skip(i).any(|x| x.as_bytes() == &g[..]) {
                    "arrived though an earlier one did not"
                } else {
                    "is not what was sent"
                };
                violation("changed", format!("message {} {whom} {what}: {} instead of {}", i + 1, short(g), short(s.as_bytes())));
                return;
            }
            None => {
                violation("invented", format!("message {} {whom} was never sent: {}", i + 1, short(g)));
                return;
            }
        }
    }
    if due && got.len() < sent {
        violation("lost", format!("of {sent} messages {whom} only {} arrived; the first one missing is {}", got.len(), short(said[got.len()].as_bytes())));
    }
    for _ in 0..got.len() {
        probe("messages passed on");
    }
}

fn judge(end: bool) {
    let b = br();
    let mut to_daemon = b.daemon.heard.clone();
    let mut to_editor = b.editor_in.heard.clone();
    if end {
        // What it has written is on its way, whatever becomes of the program.
        if let Some(s) = &b.daemon.stream {
            to_daemon.extend(s.on_the_way());
        }
        if let Some(s) = &b.editor_out {
            to_editor.extend(s.on_the_way());
        }
    }
    let quiet = !b.editor_in.closed && !b.daemon.closed;
    let (e, d) = (b.editor_in.closed, b.daemon.closed);
    let (got, _) = lines(&to_daemon);
    let due = if end { e && !d } else { !b.daemon.stalled };
    compare("to the daemon", &got, &b.editor_in.said, b.editor_in.sent, due, b.editor_in.half);
    match frames(&to_editor) {
        Err(e) => violation("garbled", format!("what the editor reads is not understood: {e}")),
        Ok((got, _)) => {
            let due = if end { d && !e && b.daemon.had_all } else { !b.editor_in.stalled };
            compare("to the editor", &got, &b.daemon.said, b.daemon.sent, due, b.daemon.half);
        }
    }
    if end && quiet {
        violation("ended", "the program ended though neither side was closed".into());
    }
}

/// The program has ended.
pub fn ended(why: &str) {
    let b = br();
    b.over = true;
    hist(|| format!("the bridge ends: {why}"));
    shape(&[70, u64::from(b.editor_in.closed), u64::from(b.daemon.closed)]);
    probe("bridge ended");
    judge(true);
}

fn start() {
    let node = 1;
    let root = w().root(node);
    let d = simcore::new_proc(node, 1, &root, vec![]);
    let key = simcore::with_proc(d, || net::unix_listen(SOCKET)).unwrap();
    let p = simcore::new_proc(node, 2, &root, vec!["/run/u".into()]);
    let (stdin, stdout) = net::set_stdio(p);
    let b = br();
    b.proc = p;
    b.daemon_proc = d;
    b.editor_in.stream = Some(stdin);
    b.editor_out = Some(stdout.dup());
    tokio::spawn(write_loop(editor_side));
    tokio::spawn(read_loop(stdout, editor_side));
    tokio::spawn(async move {
        let s = poll_fn(|cx| net::unix_poll_accept(&key, cx)).await.unwrap();
        br().daemon.stream = Some(s.dup());
        tokio::spawn(write_loop(daemon_side));
        read_loop(s, daemon_side).await;
    });
    simcore::with_proc(p, || {
        tokio::spawn(async move {
            let r = crate::jsonrpc_forwarder::connection(std::path::Path::new(SOCKET)).await;
            crate::run::bridge_over(&format!("it returns {:?}", r.map_err(|e| e.to_string())));
        });
    });
}

fn put(side: &mut Side, p: Vec<(u64, Option<(Vec<u8>, bool)>)>) {
    side.out.extend(p);
    if let Some(wk) = side.out_waker.take() {
        wk.wake();
    }
}

pub fn act(what: &str, r: u64, text: &str) -> bool {
    let b = br();
    let (who, verb) = what.split_once(' ').unwrap_or((what, ""));
    let is_editor = who == "editor";
    if !is_editor && who != "daemon" {
        return false;
    }
    let side = if is_editor { &mut b.editor_in } else { &mut b.daemon };
    let mut t = text.split(' ').map(|x| x.parse::<u64>().unwrap_or(0));
    let (style, sizes) = (t.next().unwrap_or(0), t.next().unwrap_or(0));
    match verb {
        "says" => {
            if side.closing {
                return true;
            }
            let m = body(r, sizes);
            hist(|| format!("{who} says {} (header {style})", short(m.as_bytes())));
            shape(&[71, u64::from(is_editor), style, m.len() as u64 / 64]);
            let bytes = if is_editor { framed(&m, style) } else { format!("{m}\n").into_bytes() };
            put(side, pieces(&bytes, r, true));
            side.said.push(m);
        }
        "stalls" => {
            // A program that is gone neither reads nor doesn't.
            if side.closed && !is_editor {
                return true;
            }
            side.stalled = r == 1;
            hist(|| format!("{who} {}", if r == 1 { "stops reading" } else { "reads again" }));
            shape(&[72, u64::from(is_editor), r]);
            if let Some(wk) = side.in_waker.take() {
                wk.wake();
            }
        }
        "closes" => {
            if side.closing {
                return true;
            }
            side.closing = true;
            hist(|| format!("{who} closes {}", if text == "half" { "in the middle of a message" } else { "" }));
            shape(&[73, u64::from(is_editor)]);
            if text == "half" {
                let m = body(r, 1);
                let bytes = if is_editor { framed(&m, r % 4) } else { format!("{m}\n").into_bytes() };
                let mut g = Rng::new(r);
                let n = g.range(1, bytes.len() as u64 - 1) as usize;
                put(side, pieces(&bytes[..n], r, false));
                side.said.push(m);
                side.half = true;
            }
            put(side, vec![(0, None)]);
        }
        _ => return false,
    }
    true
}

/// Nothing is under way and both sides read.
pub fn look() {
    let b = br();
    if !b.over && b.editor_in.out.is_empty() && b.daemon.out.is_empty() && !b.editor_in.closing && !b.daemon.closing {
        judge(false);
    }
}

pub async fn run() {
    start();
    while br().daemon.stream.is_none() {
        pause_ms(1).await;
    }
    let steps = w().plan.steps.clone();
    run_steps(&steps).await;
    for who in ["editor stalls", "daemon stalls"] {
        act(who, 0, "");
    }
    settle(60_000).await;
    look();
    if !br().editor_in.closing && !br().daemon.closing {
        act("editor closes", 0, "");
        settle(5000).await;
    }
    settle(5000).await;
    // Ending the program ends the run.
    let b = br();
    if sim().procs[b.proc as usize].panic.is_some() {
        violation("died", format!("the program died: {}", sim().procs[b.proc as usize].panic.clone().unwrap_or_default()));
    } else {
        violation("goes on", "the program goes on though a side has closed".into());
    }
}
