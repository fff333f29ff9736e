//! The private key and the editor socket (P18).
use crate::gen::Builder;
use crate::plan::{Act, NodeSpec, Plan};
use crate::world::*;
use std::os::unix::fs::PermissionsExt;

const MODES: &[u64] = &[
    0o600, 0o600, 0o400, 0o700, 0o640, 0o604, 0o620, 0o602, 0o610, 0o601, 0o644, 0o660, 0o606, 0o666, 0o777, 0o755, 0o670, 0o607,
];
const DIR_MODES: &[u64] = &[0o700, 0o700, 0o500, 0o1700, 0o710, 0o701, 0o720, 0o702, 0o740, 0o704, 0o750, 0o705, 0o755, 0o770, 0o777, 0o1777];

pub fn p18(seed: u64) -> Plan {
    let mut b = Builder::new("P18", seed);
    let fallback = b.g.chance(400);
    let umask = *b.g.pick(&[0o000, 0o000, 0o002, 0o022, 0o077]);
    b.plan.scenario = format!("{} {umask}", if fallback { "fallback" } else { "runtime" });
    let text = b.text(10);
    b.plan.nodes.push(NodeSpec { peer: None, secret: Some("s3cret".into()), files: vec![("a".into(), text)] });
    b.plan.nodes.push(NodeSpec { peer: Some(1), secret: Some("s3cret".into()), files: vec![] });
    let look = |b: &mut Builder| b.step(1000, Act::Special { what: "look".into(), node: 0, r: 0, text: String::new() });
    // Somebody else may have made the directory already.
    for node in 1..=2 {
        if b.g.chance(if fallback { 250 } else { 150 }) {
            let r = *b.g.pick(DIR_MODES);
            b.step(0, Act::Special { what: "mode".into(), node, r, text: "dir".into() });
        }
    }
    for _ in 0..b.g.range(3, 9) {
        let node = b.g.range(1, 2) as u32;
        if b.g.chance(500) {
            let (path, most) = *b.g.pick(&[("/.ethersync/key", 7), ("/.ethersync/key", 7), ("/.ethersync/", 12), ("/tmp/", 4), ("", 20)]);
            let nth = b.g.range(1, most);
            let kind = b.g.pick(&["crash", "crash", "crash", "torn", "short", "errno"]).to_string();
            let arg = *b.g.pick(&[0, 300, 500, 999, 1000]);
            let errno = *b.g.pick(&[libc::EIO, libc::ENOSPC, libc::EACCES]);
            b.step(0, Act::FsFault { node, nth, path: path.into(), kind, arg, errno });
        }
        let w = b.pause();
        b.step(w, Act::Start { node });
        if b.g.chance(700) {
            look(&mut b);
        }
        let w = b.pause();
        let silent = b.g.chance(300);
        b.step(w, Act::Kill { node, silent });
        if b.g.chance(500) {
            let r = *b.g.pick(MODES);
            b.step(0, Act::Special { what: "mode".into(), node, r, text: "key".into() });
        }
        if b.g.chance(300) {
            let r = *b.g.pick(DIR_MODES);
            b.step(0, Act::Special { what: "mode".into(), node, r, text: "dir".into() });
        }
        if b.g.chance(300) {
            b.step(0, Act::Special { what: "modes right".into(), node, r: 0, text: String::new() });
        }
    }
    b.plan
}

pub fn umask() -> Option<u32> {
    let p = &w().plan;
    if p.property != "P18" {
        return None;
    }
    p.scenario.split(' ').nth(1).and_then(|x| x.parse().ok())
}

/// Does the run use the place for the socket that is used when the system offers none?
pub fn fallback() -> bool {
    let p = &w().plan;
    p.property == "P18" && p.scenario.starts_with("fallback")
}

fn socket_dir(node: u32) -> String {
    format!("{}{}", w().root(node), if fallback() { "/tmp/ethersync-u" } else { "/run/u" })
}

fn socket() -> &'static str {
    if fallback() {
        "/tmp/ethersync-u/ethersync"
    } else {
        SOCKET
    }
}

fn mode_of(path: &str) -> Option<u32> {
    std::fs::symlink_metadata(path).ok().map(|m| m.permissions().mode() & 0o7777)
}

/// The user changes permissions while the daemon does not run.
pub fn set_mode(node: u32, mode: u64, what: &str) {
    let ws = w();
    if ws.alive(node) {
        return;
    }
    let path = if what == "key" { ws.real(node, ".ethersync/key") } else { socket_dir(node) };
    if what == "dir" && fallback() {
        let _ = std::fs::create_dir_all(&path);
    }
    if what == "key" && mode & 0o77 != 0 && std::fs::metadata(&path).is_ok() {
        ws.node(node).key_opened = true;
    } else if what == "key" {
        ws.node(node).key_opened = false;
    }
    if std::fs::set_permissions(&path, std::fs::Permissions::from_mode(mode as u32)).is_ok() {
        hist(|| format!("node {node}: permissions of {} are {mode:o} now", if what == "key" { "the key" } else { "the socket's directory" }));
        shape(&[50, node.into(), mode]);
    }
}

pub fn modes_right(node: u32) {
    set_mode(node, 0o600, "key");
    if mode_of(&socket_dir(node)).is_some() {
        set_mode(node, 0o700, "dir");
    }
}

/// What the daemon finds when it starts: permissions of the key and of the socket's directory.
pub fn found(node: u32) -> (Option<u32>, Option<u32>) {
    (mode_of(&w().real(node, ".ethersync/key")), mode_of(&socket_dir(node)))
}

pub fn look() {
    let ws = w();
    for id in 1..=ws.nodes.len() as u32 {
        // The key must be private from the moment there is anything in it.
        for name in std::fs::read_dir(ws.real(id, ".ethersync")).into_iter().flatten().flatten() {
            let f = name.file_name().to_string_lossy().to_string();
            let p = name.path();
            let Ok(content) = std::fs::read(&p) else { continue };
            let holds_key = f.starts_with("key") || ws.nodes[id as usize - 1].key.as_ref().is_some_and(|k| content.windows(k.len()).any(|x| x == &k[..]));
            let by_user = f == "key" && ws.nodes[id as usize - 1].key_opened;
            let mode = mode_of(&p.to_string_lossy()).unwrap_or(0);
            if holds_key && !content.is_empty() {
                if mode & 0o77 != 0 && !by_user {
                    violation("key readable by others", format!("the key of node {id} has permissions {mode:o} ({f})"));
                }
                probe("permissions of keys looked at");
            }
        }
        let n = &mut ws.nodes[id as usize - 1];
        if n.proc.is_none() {
            continue;
        }
        let tcp = simcore::net::tcp_is_listening(id) || (1..=2).any(|m| m != id && simcore::net::live_between(id, m) > 0);
        let unix = simcore::net::unix_is_listening(id, socket());
        let (key, dir) = n.found;
        if key.is_some_and(|m| m & 0o77 != 0) {
            probe("starts with a key that others can access");
            if tcp {
                violation("loose key used", format!("node {id} uses a key with permissions {:o}", key.unwrap()));
            }
        }
        // If it makes the directory itself, nobody else may have access.
        let dir_now = mode_of(&socket_dir(id)).unwrap_or(0);
        if (dir.is_some_and(|m| m & 0o77 != 0) || (dir.is_none() && dir_now & 0o77 != 0)) && unix {
            violation("socket for everybody", format!("node {id} offers its socket in a directory with permissions {dir_now:o}"));
        }
        if dir.is_some_and(|m| m & 0o77 != 0) {
            probe("starts with a socket directory that others can access");
        }
        let good = key.is_none_or(|m| m == 0o600) && dir.is_none_or(|m| m == 0o700);
        if good && n.wanted && !n.disk_trouble && !(tcp && unix) {
            violation("not there", format!("node {id} has private key and directory, but does not offer its services"));
        }
        if tcp && unix && !n.disk_trouble {
            let now = std::fs::read(w().real(id, ".ethersync/key")).unwrap_or_default();
            if n.key.is_none() {
                match libp2p_identity::Keypair::from_protobuf_encoding(&now) {
                    Ok(k) => n.identity = Some(k.public().to_peer_id().to_string()),
                    Err(e) => violation("bad key", format!("the key of node {id} can't be read: {e}")),
                }
                n.key = Some(now);
                probe("identities noted");
            }
        }
    }
    for n in &ws.nodes {
        let now = std::fs::read(ws.real(n.id, ".ethersync/key")).ok();
        if n.key.is_some() {
            if now != n.key {
                violation("key changed", format!("the private key of node {} is another one", n.id));
            }
            probe("private keys compared");
        }
    }
}
