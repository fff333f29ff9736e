//! Names and links that lead out of the project (P10), used by a peer that is not an Ethersync
//! daemon, by editors and by programs on the same computer.
use crate::gen::{collab, Builder, Mix};
use crate::plan::{Act, Plan, Step};
use crate::world::*;
use automerge::sync::{Message, State, SyncDoc};
use automerge::transaction::Transactable;
use automerge::{AutoCommit, ObjType, ReadDoc, ROOT};
use futures::{AsyncReadExt, AsyncWriteExt, StreamExt};
use libp2p::core::transport::upgrade::Version;
use libp2p::core::ConnectedPoint;
use libp2p::{identity::Keypair, noise, pnet, tcp, yamux, StreamProtocol, Transport};
use serde::{Deserialize, Serialize};
use simcore::rng::Rng;
use std::collections::BTreeMap;
use std::os::unix::fs::PermissionsExt;
use std::path::Path;
use std::time::Duration;
use tokio::sync::mpsc;

const PROTOCOL: StreamProtocol = StreamProtocol::new("/ethersync");
/// Where the hostile peer lives.
const EVIL: u32 = 9;

#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "k", rename_all = "snake_case")]
pub enum Evil {
    Put { name: String, text: String },
    Append { name: String, text: String },
    Cut { name: String },
    Delete { name: String },
    Cursor { name: String },
}

/// What is around the project on every computer: (path, marker).
const AROUND: &[&str] = &[
    "/home/u/outside/canary.txt",
    "/home/u/outside/sub/deep",
    "/home/u/canary",
    "/home/u/projectx/file",
    "/home/u/project.txt",
    "/etc/passwd",
    "/canary",
];

/// Links in the project: path, target.
const LINKS: &[(&str, &str)] = &[
    ("link-dir", "../outside"),
    ("link-file", "../outside/canary.txt"),
    ("link-dangling", "../outside/new-file"),
    ("link-dangling-dir", "../new-dir/x"),
    ("dir/link-dir", "../../outside"),
    ("dir/link-up", "../.."),
    ("chain", "link-dir"),
    ("chain-file", "link-file"),
    ("up", ".."),
    ("here", "."),
    ("loop", "loop"),
    ("in-dir", "inner"),
    ("in-file", "inner/target"),
    ("in-dangling", "inner/nothing"),
    ("similar", "../projectx"),
];

/// With these, the watcher gets to know the same directory by several names.
const BACK: &[&str] = &["dir/link-up", "up", "here", "in-dir"];

const NAMES: &[&str] = &[
    "../outside/canary.txt", "../canary", "../outside/new", "../new-dir/new", "/etc/passwd", "/home/u/outside/canary.txt", "/new",
    "../../../etc/passwd", "../../../../../../etc/passwd", "link-dir/canary.txt", "link-dir/new", "link-dir/new-dir/x", "link-dir/../x", "link-file",
    "link-dangling", "link-dangling/x", "link-dangling-dir", "link-dangling-dir/y", "chain/canary.txt", "chain/sub/deep", "chain/new", "chain-file",
    "up/canary", "up/new", "here/../canary", "here/inner/target", "here/up/canary", "loop", "loop/x", "..", ".", "", "/", "../projectx/file",
    "../projectx/new", "../project", "../project/ok", "../project.txt", "inner", "inner/", "inner/target/x", "inner/target/../../../canary",
    "new/../../canary", "inner/..", "inner/../..", "link-dir", "up", "here", "in-dir/ok", "in-dir/../../canary", "in-file", "in-dangling", "dir/link-dir/canary.txt",
    "dir/link-dir/new", "dir/link-up/canary", "dir/link-up/new", "similar/file", "similar/new", "x\u{0}y", "\u{0}", "../x\u{0}", "new\n../x", "inner\\..\\..\\x",
    ".ethersync/../../canary", "~/canary", "~", "$HOME/canary", "file:///etc/passwd", "%2e%2e/canary", "..%2fcanary", "././../canary", "..//canary",
    "inner/./../../canary", "...", ".../x", "LONG", "DEEP", ".ethersync-temporary~", "link-dir/.ethersync-temporary~",
];

fn name(g: &mut Rng) -> String {
    let mut s = g.pick(NAMES).to_string();
    if s == "LONG" {
        s = "n".repeat(300);
    }
    if s == "DEEP" {
        s = format!("{}../../canary", "d/../".repeat(40));
    }
    match g.below(12) {
        0 => format!("./{s}"),
        1 => format!("inner/../{s}"),
        2 => format!("{PROJECT}/{s}"),
        3 => format!("//{s}"),
        4 => format!("../project/{s}"),
        5 => format!("here/{s}"),
        6 => s.replace('/', "//"),
        _ => s,
    }
}

pub fn p10(seed: u64) -> Plan {
    let mut b = Builder::new("P10", seed);
    b.plan.scenario = "names and links".into();
    let m = Mix {
        nodes: (1, 3),
        actions: (3, 20),
        edit: 20,
        open: 8,
        close: 4,
        save: 2,
        fs_edit: 6,
        fs_create: 3,
        settle: 3,
        restart: 2,
        disconnect: 1,
        cut: 1,
        reset: 1,
        look: 3,
        ..Mix::zero()
    };
    collab(&mut b, &m);
    let n = b.plan.nodes.len() as u64;
    let special = |what: &str, node: u32, text: String| Act::Special { what: what.into(), node, r: 0, text };
    b.plan.nodes[0].files.push(("inner/target".into(), "t".into()));
    // Some links are there from the start, others turn up while the daemon runs.
    let mut first = vec![];
    let mut later = vec![];
    let mut in_circles = false;
    for node in 1..=n as u32 {
        let many = *b.g.pick(&[0, 200, 600, 1000]);
        // With several ways back to the project, there is no end of names for each file.
        let mut back = b.g.chance(300);
        for (path, target) in LINKS {
            if !b.g.chance(many) {
                continue;
            }
            if BACK.contains(path) {
                if !back {
                    continue;
                }
                back = false;
                in_circles = true;
            }
            let act = special("link", node, format!("{path} {target}"));
            if b.g.chance(500) {
                first.push(Step { wait: 0, act });
            } else {
                later.push(act);
            }
        }
    }
    if in_circles {
        b.plan.scenario = "circles".into();
    }
    let evil_at = b.g.range(1, n) as u32;
    let evil = b.g.chance(800);
    let mut known: Vec<String> = vec![];
    let eds: Vec<u32> = b.plan.steps.iter().filter_map(|s| if let Act::Connect { ed, .. } = s.act { Some(ed) } else { None }).collect();
    for _ in 0..b.g.below(6) {
        let node = b.g.range(1, n) as u32;
        let p = b.g.pick(AROUND).to_string();
        later.push(special("around", node, p));
    }
    for i in (1..later.len()).rev() {
        let j = b.g.below(i as u64 + 1) as usize;
        later.swap(i, j);
    }
    let links = std::mem::take(&mut later);
    for _ in 0..b.g.range(3, 30) {
        let s = if !known.is_empty() && b.g.chance(400) { b.g.pick(&known).clone() } else { name(&mut b.g) };
        if evil && b.g.chance(700) {
            let text = b.text(8);
            let e = match b.g.below(10) {
                0..=5 => Evil::Put { name: s.clone(), text },
                6 => Evil::Append { name: s.clone(), text },
                7 => Evil::Cut { name: s.clone() },
                8 => Evil::Delete { name: s.clone() },
                _ => Evil::Cursor { name: s.clone() },
            };
            known.push(s);
            later.push(special("evil", evil_at, serde_json::to_string(&e).unwrap()));
        } else if !eds.is_empty() {
            let ed = *b.g.pick(&eds);
            let uri = match b.g.below(6) {
                0 => s.clone(),
                1 => format!("file://{s}"),
                _ => format!("file://{PROJECT}/{s}"),
            };
            let uri = serde_json::to_string(&uri).unwrap();
            let t = b.src.next(&mut b.g);
            let r = r#"{"start":{"line":0,"character":0},"end":{"line":0,"character":0}}"#;
            let edit = format!(r#"{{"jsonrpc":"2.0","id":$ID,"method":"edit","params":{{"uri":{uri},"revision":0,"delta":[{{"range":{r},"replacement":"{t}"}}]}}}}"#);
            let plain = |m: &str| format!(r#"{{"jsonrpc":"2.0","id":$ID,"method":"{m}","params":{{"uri":{uri}}}}}"#);
            let cursor = format!(r#"{{"jsonrpc":"2.0","id":$ID,"method":"cursor","params":{{"uri":{uri},"ranges":[{r}]}}}}"#);
            let lines: Vec<String> = match b.g.below(8) {
                0..=1 => vec![plain("open"), edit],
                2 => vec![plain("open"), edit, plain("close")],
                3 => vec![edit],
                4 => vec![plain("close")],
                5 => vec![cursor],
                _ => vec![plain("open")],
            };
            known.push(s);
            for l in lines {
                later.push(Act::Raw { ed, line: l, expect: "any".into() });
            }
        }
    }
    for act in links {
        let at = b.g.below(later.len() as u64 + 1) as usize;
        later.insert(at, act);
    }
    let start = b.plan.steps.iter().position(|s| matches!(s.act, Act::Connect { .. })).unwrap_or(b.plan.steps.len() - 1) + 1;
    let mut at = start;
    let per = b.plan.steps.len().saturating_sub(start) / (later.len() + 1) + 1;
    for act in later {
        let wait = b.pause();
        let end = (at + per * 2).min(b.plan.steps.len());
        at = b.g.range(at as u64, end.max(at) as u64) as usize;
        b.plan.steps.insert(at, Step { wait, act });
        at += 1;
    }
    b.plan.steps.splice(0..0, first);
    b.plan
}

// ------------------------------------------------------------------ surroundings

/// Puts files around the project, each with characters that are nowhere else.
pub fn prepare() {
    let ws = w();
    let mut g = Rng::new(ws.plan.seed);
    ws.model.remove("inner/target");
    for id in 1..=ws.nodes.len() as u32 {
        for p in AROUND {
            change_around(id, p, &mut g);
        }
        let _ = std::fs::create_dir_all(ws.real(id, "inner"));
    }
}

fn change_around(id: u32, p: &str, g: &mut Rng) {
    let ws = w();
    let text: String = (0..3).map(|_| loop {
        let c = ws.src.next(g);
        if c as u32 >= 0x4E00 {
            break c;
        }
    }).collect();
    for c in text.chars() {
        ws.secrets.insert(c, (id, p.to_string()));
    }
    write_whole(&format!("{}{p}", ws.root(id)), text.as_bytes(), "");
    let t = surroundings(id);
    ws.notes.insert(format!("around {id}"), t);
}

/// A program changes a file outside the project.
pub fn around(node: u32, p: &str) {
    nothing_outside();
    hist(|| format!("node {node}: a program changes {p}"));
    shape(&[43, node.into()]);
    let mut g = Rng::new(simcore::sim().now);
    change_around(node, p, &mut g);
}

/// Everything outside the project and the socket directory, as text.
fn surroundings(id: u32) -> String {
    fn walk(dir: &Path, root: &str, out: &mut BTreeMap<String, String>) {
        let Ok(rd) = std::fs::read_dir(dir) else { return };
        for e in rd.flatten() {
            let p = e.path();
            let rel = p.to_string_lossy()[root.len()..].to_string();
            if [PROJECT, "/run/u", "/tmp"].contains(&rel.as_str()) {
                continue;
            }
            let Ok(m) = std::fs::symlink_metadata(&p) else { continue };
            let what = if m.is_dir() {
                walk(&p, root, out);
                "directory".to_string()
            } else if m.is_symlink() {
                format!("link to {:?}", std::fs::read_link(&p))
            } else {
                format!("{:?}", String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()))
            };
            out.insert(rel, format!("{what} {:o}", m.permissions().mode()));
        }
    }
    let root = w().root(id);
    let mut out = BTreeMap::new();
    walk(Path::new(&root), &root, &mut out);
    out.into_iter().map(|(k, v)| format!("{k}: {v}\n")).collect()
}

pub fn link(node: u32, text: &str) {
    let Some((path, target)) = text.split_once(' ') else { return };
    let p = w().real(node, path);
    if std::fs::symlink_metadata(&p).is_ok() {
        return;
    }
    hist(|| format!("node {node}: link {path} to {target}"));
    shape(&[41, node.into()]);
    probe("links made");
    let _ = std::fs::create_dir_all(Path::new(&p).parent().unwrap());
    let _ = std::os::unix::fs::symlink(target, p);
}

// ------------------------------------------------------------------ judging

pub fn nothing_outside() {
    let ws = w();
    for op in &simcore::sim().fs_log {
        let Some(to) = &op.escaped else { continue };
        if op.op == "open-read" {
            if ws.nodes.iter().any(|n| AROUND.iter().any(|a| *to == format!("{}{a}", ws.root(n.id)))) {
                violation("read outside", format!("the daemon read {} ({})", op.path, to));
                return;
            }
            continue;
        }
        violation("changed outside", format!("{} {} {} leads to {}", op.op, op.path, op.path2, to));
        return;
    }
    for id in 1..=ws.nodes.len() as u32 {
        let now = surroundings(id);
        let before = &ws.notes[&format!("around {id}")];
        if now != *before {
            let diff: Vec<&str> = now.lines().filter(|l| !before.contains(l)).chain(before.lines().filter(|l| !now.contains(l))).collect();
            violation("different outside", format!("node {id}: {diff:?}"));
            return;
        }
        probe("surroundings compared");
    }
    crate::secrecy::nothing_private_out();
    for id in 1..=ws.nodes.len() as u32 {
        for (path, text) in crate::secrecy::everything(Path::new(&ws.real(id, ""))) {
            if let Some((home, f)) = text.chars().find_map(|c| ws.secrets.get(&c)) {
                violation("text from outside", format!("text of {f} at node {home} is in {path}"));
                return;
            }
        }
    }
}

// ------------------------------------------------------------------ the hostile peer

pub fn evil(node: u32, text: &str) {
    let Ok(e) = serde_json::from_str::<Evil>(text) else { return };
    let ws = w();
    hist(|| format!("hostile peer: {e:?}"));
    shape(&[42, node.into()]);
    probe("changes by the hostile peer");
    if ws.evil.is_none() {
        let (tx, rx) = mpsc::unbounded_channel();
        ws.evil = Some(tx);
        let secret = ws.nodes[node as usize - 1].spec.secret.clone().unwrap_or_default();
        let root = format!("{}/n{EVIL}", ws.scratch);
        let p = simcore::new_proc(EVIL, 77, &root, vec![]);
        simcore::with_proc(p, || tokio::spawn(live(node, secret, rx)));
    }
    let _ = ws.evil.as_ref().unwrap().send(e);
}

async fn live(node: u32, secret: String, rx: mpsc::UnboundedReceiver<Evil>) {
    let mut key = [0u8; 32];
    pbkdf2::pbkdf2_hmac::<sha2::Sha256>(secret.as_bytes(), b"ethersync", 1000, &mut key);
    let psk = pnet::PreSharedKey::new(key);
    let mut swarm = libp2p::SwarmBuilder::with_existing_identity(Keypair::generate_ed25519())
        .with_tokio()
        .with_other_transport(|keypair| {
            let transport = tcp::tokio::Transport::new(tcp::Config::new())
                .and_then(move |socket, _| pnet::PnetConfig::new(psk).handshake(socket));
            Ok(transport
                .upgrade(Version::V1Lazy)
                .authenticate(noise::Config::new(keypair)?)
                .multiplex(yamux::Config::default()))
        })
        .unwrap()
        .with_behaviour(|_| libp2p_stream::Behaviour::new())
        .unwrap()
        .with_swarm_config(|c| c.with_idle_connection_timeout(Duration::from_secs(3600)))
        .build();
    let addr: libp2p::Multiaddr = format!("/ip4/10.0.0.{node}/tcp/{PORT}").parse().unwrap();
    let rx = std::sync::Arc::new(tokio::sync::Mutex::new(rx));
    let _ = swarm.dial(addr.clone());
    let mut again = tokio::time::interval(Duration::from_secs(1));
    loop {
        tokio::select! {
            event = swarm.next() => match event.expect("goes on") {
                libp2p::swarm::SwarmEvent::ConnectionEstablished { peer_id, endpoint: ConnectedPoint::Dialer { .. }, .. } => {
                    let mut control = swarm.behaviour().new_control();
                    let rx = rx.clone();
                    tokio::spawn(async move {
                        if let Ok(stream) = control.open_stream(peer_id, PROTOCOL).await {
                            let _ = talk(stream, rx).await;
                        }
                    });
                }
                _ => {}
            },
            _ = again.tick() => {
                if swarm.connected_peers().next().is_none() {
                    let _ = swarm.dial(addr.clone());
                }
            }
        }
    }
}

async fn talk(stream: libp2p::Stream, rx: std::sync::Arc<tokio::sync::Mutex<mpsc::UnboundedReceiver<Evil>>>) -> anyhow::Result<()> {
    let (mut reader, mut writer) = stream.split();
    let (tx, mut incoming) = mpsc::unbounded_channel();
    tokio::spawn(async move {
        loop {
            let mut len = [0; 4];
            if reader.read_exact(&mut len).await.is_err() {
                break;
            }
            let mut buf = vec![0; u32::from_be_bytes(len) as usize];
            if reader.read_exact(&mut buf).await.is_err() || tx.send(buf).is_err() {
                break;
            }
        }
    });
    let mut rx = rx.lock().await;
    let mut doc = AutoCommit::new();
    let mut state = State::new();
    loop {
        while let Some(m) = doc.sync().generate_sync_message(&mut state) {
            let m = m.encode();
            writer.write_all(&(m.len() as u32).to_be_bytes()).await?;
            writer.write_all(&m).await?;
            writer.flush().await?;
        }
        let ready = doc.get(ROOT, "files")?.is_some();
        tokio::select! {
            m = incoming.recv() => {
                let Some(m) = m else { return Ok(()) };
                doc.sync().receive_sync_message(&mut state, Message::decode(&m)?)?;
            }
            e = rx.recv(), if ready => {
                let Some(e) = e else { return Ok(()) };
                let r = apply(&mut doc, e);
                hist(|| format!("hostile peer: done, {r:?}"));
                doc.commit();
            }
        }
    }
}

fn apply(doc: &mut AutoCommit, e: Evil) -> anyhow::Result<()> {
    let files = doc.get(ROOT, "files")?.map(|x| x.1).unwrap_or(ROOT);
    let old = |doc: &AutoCommit, name: &str| -> anyhow::Result<Option<automerge::ObjId>> {
        Ok(doc.get(&files, name)?.map(|x| x.1))
    };
    match e {
        Evil::Put { name, text } => {
            let t = doc.put_object(&files, &name, ObjType::Text)?;
            doc.splice_text(&t, 0, 0, &text)?;
        }
        Evil::Append { name, text } => {
            let t = match old(doc, &name)? {
                Some(t) => t,
                None => doc.put_object(&files, &name, ObjType::Text)?,
            };
            let n = doc.length(&t);
            doc.splice_text(&t, n, 0, &text)?;
        }
        Evil::Cut { name } => {
            if let Some(t) = old(doc, &name)? {
                let n = doc.length(&t);
                doc.splice_text(&t, 0, (n / 2) as isize, "")?;
            }
        }
        Evil::Delete { name } => {
            if old(doc, &name)?.is_some() {
                doc.delete(&files, &name)?;
            }
        }
        Evil::Cursor { name } => {
            let states = match doc.get(ROOT, "states")? {
                Some(x) => x.1,
                None => doc.put_object(ROOT, "states", ObjType::Map)?,
            };
            let t = doc.put_object(&states, "evil-0", ObjType::Text)?;
            let r = serde_json::json!({"cursor_id": "evil-0", "name": "evil", "file_path": name, "ranges": []});
            doc.splice_text(&t, 0, 0, &r.to_string())?;
        }
    }
    Ok(())
}
