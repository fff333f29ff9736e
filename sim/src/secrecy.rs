//! What must not get around: ignored files (P09) and anything at all without the right secret (P11).
use crate::gen::{collab, Builder, Mix, HOWS};
use crate::plan::{Act, NodeSpec, Plan, Step};
use crate::world::*;
use automerge::{AutoCommit, ObjType, ReadDoc, Value as AmValue};
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::path::Path;

/// Characters that are tracked and can't be anywhere by accident.
fn telling(c: char) -> bool {
    c as u32 >= 0x4E00 && crate::text::tracked(c)
}

/// What a user or program does with files that are ignored.
#[derive(Clone, Debug, Serialize, Deserialize)]
#[serde(tag = "k", rename_all = "snake_case")]
enum Hidden {
    Write { file: String, text: String, how: String },
    Remove { file: String },
    /// One ignored name to another.
    Rename { from: String, to: String },
    /// A shared file gets an ignored name.
    Hide { from: String, to: String },
    /// An ignored file gets a name that is not ignored.
    Show { from: String, to: String },
    /// A directory with files in it is moved into the project.
    MoveIn { dir: String, files: Vec<(String, String)> },
    Link { path: String, to: String },
}

/// Names that are ignored everywhere.
const ALWAYS: &[&str] = &[
    ".git/new", ".git/hooks/h", ".ethersync/notes", ".ethersync/sub/n", "a~", "dir/b~", "vendor/.git/config", "sub/.ethersync/x",
    "private/a", "private/sub/b", "sub/private/c", "a.bak", "sub/b.bak", "top.txt", "dir/deep", "dir/sub/deep", "dir/.hidden~",
    "sub/x.bak/y",
];
/// Names that are ignored where there is a Git repository.
const GIT: &[&str] = &[
    "1.log", "sub/2.log", "build/out", "build/sub/out", "dir/3.tmp", "dir/local", "dir/localx/y", "excluded", "sub/excluded/z",
    "doc/a/b/x", "doc/x", "sub/.log", "ü.log",
];
/// Names that look similar, but are not ignored anywhere.
const OPEN: &[&str] = &[
    "keep.log", "sub/top.txt", "sub/build/out", "dir/sub/4.tmp", "local", "deep", "privatex", "a.baks", "sub/x.logx", ".hidden",
    "tilde~x", "sub/.gitx", "ethersync",
];

fn ignore_files(git: bool) -> Vec<(String, String)> {
    let mut v = vec![
        (".ignore".to_string(), "private/\n*.bak\n/top.txt\n".to_string()),
        ("dir/.ignore".to_string(), "deep\n".to_string()),
    ];
    if git {
        v.push((".git/HEAD".into(), "ref: refs/heads/main\n".into()));
        v.push((".git/info/exclude".into(), "excluded\n".into()));
        v.push((".gitignore".into(), "# comment\n*.log\n!keep.log\n/build/\ndir/*.tmp\ndoc/**/x\n".into()));
        v.push(("dir/.gitignore".into(), "local*\n".into()));
    }
    v
}

pub fn p09(seed: u64) -> Plan {
    let mut b = Builder::new("P09", seed);
    let git = b.g.chance(650);
    b.plan.scenario = if git { "with git".into() } else { "without git".into() };
    let m = Mix {
        nodes: (2, 3),
        actions: (5, 25),
        edit: 20,
        open: 8,
        close: 3,
        save: 2,
        fs_edit: 8,
        fs_create: 3,
        fs_remove: 2,
        fs_rename: 2,
        settle: 4,
        restart: 2,
        disconnect: 1,
        look: 2,
        ..Mix::zero()
    };
    collab(&mut b, &m);
    // The ignore files stay.
    b.plan.steps.retain(|s| !matches!(&s.act, Act::FsRemove { file, .. } if file == "dir"));
    let n = b.plan.nodes.len() as u64;
    let mut names: Vec<String> = ALWAYS.iter().map(|s| s.to_string()).collect();
    if git {
        names.extend(GIT.iter().map(|s| s.to_string()));
    }
    // Each name is used on one computer only.
    let mut home: BTreeMap<String, u64> = BTreeMap::new();
    for f in &names {
        let at = b.g.range(1, n);
        home.insert(f.clone(), at);
    }
    for i in 0..n as usize {
        let mut files = ignore_files(git);
        for f in &names {
            if home[f] == i as u64 + 1 && !f.starts_with(".ethersync") && b.g.chance(250) {
                let t = b.text(12);
                files.push((f.clone(), t));
            }
        }
        b.plan.nodes[i].files.extend(files);
    }
    let shared: Vec<String> = b.plan.nodes[0].files.iter().map(|f| f.0.clone()).filter(|f| !is_ignore_file(f) && !names.contains(f)).collect();
    let mut open_names: Vec<String> = OPEN.iter().map(|s| s.to_string()).collect();
    let start = b.plan.steps.iter().position(|s| matches!(s.act, Act::Connect { .. })).unwrap_or(0) + 1;
    let eds: Vec<u32> = b.plan.steps.iter().filter_map(|s| if let Act::Connect { ed, .. } = s.act { Some(ed) } else { None }).collect();
    let p = crate::world::PROJECT;
    for _ in 0..b.g.range(5, 30) {
        let f = b.g.pick(&names).clone();
        let mut node = home[&f] as u32;
        let near: Vec<String> = names.iter().filter(|x| home[*x] == u64::from(node) && **x != f).cloned().collect();
        let mut list = vec![];
        let mut act = None;
        match b.g.below(20) {
            0..=6 => {
                let text = b.text(12);
                let how = b.g.pick(HOWS).to_string();
                act = Some(Hidden::Write { file: f, text, how });
            }
            7..=8 => act = Some(Hidden::Remove { file: f }),
            9..=10 if !near.is_empty() => act = Some(Hidden::Rename { from: f, to: b.g.pick(&near).clone() }),
            11..=12 => {
                let from = b.g.pick(&shared).clone();
                act = Some(Hidden::Hide { from, to: f });
            }
            13 if !open_names.is_empty() => {
                let i = b.g.below(open_names.len() as u64) as usize;
                act = Some(Hidden::Show { from: f, to: open_names.swap_remove(i) });
            }
            14 => {
                let k = b.g.below(1000);
                let dir = format!("in{k}");
                node = b.g.range(1, n) as u32;
                let mut files = vec![];
                for x in ["a.bak", "private/x", "sub/private/y", ".git/config", "s~", ".own/secret", "open", "sub/open2"] {
                    if b.g.chance(500) {
                        let t = b.text(8);
                        files.push((x.to_string(), t));
                    }
                }
                files.push((".own/.ignore".into(), "secret\n".into()));
                act = Some(Hidden::MoveIn { dir, files });
            }
            15 => {
                let k = b.g.below(1000);
                let to = if b.g.chance(300) { f.rsplit_once('/').map_or(f.clone(), |x| x.0.to_string()) } else { f };
                act = Some(Hidden::Link { path: format!("link{k}"), to });
            }
            16..=18 if !eds.is_empty() => {
                let ed = *b.g.pick(&eds);
                let open = |u: &str| format!(r#"{{"jsonrpc":"2.0","id":$ID,"method":"open","params":{{"uri":"file://{p}/{u}"}}}}"#);
                let u = match b.g.below(5) {
                    0 => format!("./{f}"),
                    1 => format!("dir/../{f}"),
                    2 => f.replace('/', "//"),
                    _ => f.clone(),
                };
                let line = if b.g.chance(700) { open(&u) } else {
                    let t = b.src.next(&mut b.g);
                    format!(r#"{{"jsonrpc":"2.0","id":$ID,"method":"edit","params":{{"uri":"file://{p}/{u}","revision":0,"delta":[{{"range":{{"start":{{"line":0,"character":0}},"end":{{"line":0,"character":0}}}},"replacement":"{t}"}}]}}}}"#)
                };
                list.push(Act::Raw { ed, line, expect: "error".into() });
            }
            _ => list.push(Act::Special { what: "look".into(), node: 0, r: 0, text: String::new() }),
        }
        if let Some(h) = act {
            list.push(Act::Special { what: "hidden".into(), node, r: 0, text: serde_json::to_string(&h).unwrap() });
        }
        let at = b.g.range(start as u64, b.plan.steps.len() as u64) as usize;
        for act in list {
            let wait = b.pause();
            b.plan.steps.insert(at, Step { wait, act });
        }
    }
    b.plan
}

fn is_ignore_file(f: &str) -> bool {
    f.starts_with(".git/") || f.ends_with(".ignore") || f.ends_with(".gitignore")
}

/// To be called before anything runs: what is private from the start.
pub fn note_private() {
    let ws = w();
    let names: BTreeSet<String> = ALWAYS.iter().chain(GIT.iter()).map(|s| s.to_string()).collect();
    for n in &ws.nodes {
        for (f, t) in &n.spec.files {
            if names.contains(f) {
                ws.private.insert(f.clone());
                for c in t.chars().filter(|c| telling(*c)) {
                    ws.secrets.insert(c, (n.id, f.clone()));
                }
            }
        }
    }
}

pub async fn hidden(node: u32, text: &str) {
    let ws = w();
    let Ok(h) = serde_json::from_str::<Hidden>(text) else { return };
    let keep = |f: &str, t: &str| {
        let ws = w();
        ws.private.insert(f.to_string());
        for c in t.chars().filter(|c| telling(*c)) {
            ws.secrets.insert(c, (node, f.to_string()));
        }
    };
    let real = |f: &str| w().real(node, f);
    shape(&[40, node.into()]);
    match h {
        Hidden::Write { file, text, how } => {
            hist(|| format!("node {node}: a program writes {file}, which is ignored ({how}): {text:?}"));
            if Path::new(&real(&file)).is_dir() {
                return;
            }
            keep(&file, &text);
            save_as(&real(&file), text.as_bytes(), &how).await;
        }
        Hidden::Remove { file } => {
            hist(|| format!("node {node}: a program deletes {file}, which is ignored"));
            let _ = std::fs::remove_file(real(&file));
        }
        Hidden::Rename { from, to } => {
            hist(|| format!("node {node}: a program renames {from} to {to}, both ignored"));
            keep(&to, "");
            if let Some(d) = Path::new(&real(&to)).parent() {
                let _ = std::fs::create_dir_all(d);
            }
            let _ = std::fs::rename(real(&from), real(&to));
        }
        Hidden::Hide { from, to } => {
            if ws.opening(0, &from) || !ws.free_for(node, &from) || !Path::new(&real(&from)).is_file() {
                return;
            }
            hist(|| format!("node {node}: a program renames {from} to {to}, which is ignored"));
            keep(&to, "");
            if let Some(d) = Path::new(&real(&to)).parent() {
                let _ = std::fs::create_dir_all(d);
            }
            if std::fs::rename(real(&from), real(&to)).is_ok() {
                probe("shared files that became private");
                w().removed_by(node, &from);
            }
        }
        Hidden::Show { from, to } => {
            if !Path::new(&real(&from)).is_file() || Path::new(&real(&to)).exists() {
                return;
            }
            let text = ws.read(node, &from).unwrap_or_default();
            hist(|| format!("node {node}: a program renames {from} to {to}, which is not ignored"));
            for c in text.chars() {
                ws.secrets.remove(&c);
            }
            if let Some(d) = Path::new(&real(&to)).parent() {
                let _ = std::fs::create_dir_all(d);
            }
            if std::fs::rename(real(&from), real(&to)).is_ok() {
                probe("private files that became shared");
                w().changed_by(node, &to, Some(text));
            }
        }
        Hidden::MoveIn { dir, files } => {
            if Path::new(&real(&dir)).exists() {
                return;
            }
            hist(|| format!("node {node}: directory {dir} moved into the project: {files:?}"));
            let tmp = format!("{}/moved", ws.scratch);
            let _ = std::fs::remove_dir_all(&tmp);
            for (f, t) in &files {
                write_whole(&format!("{tmp}/{f}"), t.as_bytes(), "");
                let open = f == "open" || f == "sub/open2" || f == ".own/.ignore";
                if !open {
                    keep(&format!("{dir}/{f}"), t);
                }
            }
            let _ = std::fs::rename(&tmp, real(&dir));
        }
        Hidden::Link { path, to } => {
            if std::fs::symlink_metadata(real(&path)).is_ok() {
                return;
            }
            hist(|| format!("node {node}: link {path} to {to}"));
            let _ = std::os::unix::fs::symlink(format!("{PROJECT}/{to}").replacen(PROJECT, &real("").trim_end_matches('/').to_string(), 1), real(&path));
        }
    }
}

/// Everything below the directory, also what is not shared, as text.
pub fn everything(dir: &Path) -> Vec<(String, String)> {
    let mut out = vec![];
    let Ok(rd) = std::fs::read_dir(dir) else { return out };
    for e in rd.flatten() {
        let Ok(ft) = e.file_type() else { continue };
        if ft.is_dir() {
            out.extend(everything(&e.path()));
        } else if ft.is_file() && !["doc", "key"].contains(&&*e.file_name().to_string_lossy()) {
            let b = std::fs::read(e.path()).unwrap_or_default();
            out.push((e.path().to_string_lossy().to_string(), String::from_utf8_lossy(&b).to_string()));
        }
    }
    out
}

/// The shared document as the daemon of the node has last saved it: names and texts.
pub fn saved_document(node: u32) -> Option<BTreeMap<String, String>> {
    let bytes = std::fs::read(w().real(node, ".ethersync/doc")).ok()?;
    let doc = AutoCommit::load(&bytes).ok()?;
    let mut out = BTreeMap::new();
    for map in doc.keys(automerge::ROOT).collect::<Vec<_>>() {
        let Ok(Some((AmValue::Object(ObjType::Map), id))) = doc.get(automerge::ROOT, &map) else { continue };
        for k in doc.keys(&id).collect::<Vec<_>>() {
            for (v, t) in doc.get_all(&id, &k).unwrap_or_default() {
                let text = match v {
                    AmValue::Object(ObjType::Text) => doc.text(&t).unwrap_or_default(),
                    v => format!("{v:?}"),
                };
                out.entry(k.clone()).or_insert_with(String::new).push_str(&text);
            }
        }
    }
    Some(out)
}

/// Nothing of what is ignored on one computer is in the shared document or on another computer.
pub fn nothing_private_out() {
    let ws = w();
    for n in 1..=ws.nodes.len() as u32 {
        for (path, text) in everything(Path::new(&ws.real(n, ""))) {
            for c in text.chars() {
                if let Some((home, f)) = ws.secrets.get(&c) {
                    if *home != n {
                        violation("private text elsewhere", format!("{c:?}, which was only in the ignored file {f} of node {home}, is in {path}"));
                        return;
                    }
                }
            }
        }
        probe("computers searched for private texts");
        let Some(doc) = saved_document(n) else { continue };
        for (f, text) in &doc {
            if ws.private.contains(f) {
                violation("private file in document", format!("the ignored file {f} is in the document of node {n}"));
                return;
            }
            if let Some((c, (home, of))) = text.chars().find_map(|c| ws.secrets.get(&c).map(|x| (c, x))) {
                violation("private text in document", format!("{c:?}, which was only in the ignored file {of} of node {home}, is in the document of node {n} as part of {f}"));
                return;
            }
        }
        probe("documents searched for private texts");
    }
    for (id, e) in &ws.editors {
        for (f, b) in &e.bufs {
            if let Some((home, of)) = b.text.iter().find_map(|c| ws.secrets.get(c)) {
                violation("private text in editor", format!("editor {id} has text of the ignored file {of} of node {home} in {f}"));
                return;
            }
        }
    }
}

/// What is not ignored is the same everywhere.
pub fn open_files_equal() {
    let ws = w();
    let tree = |n: u32| -> BTreeMap<String, String> {
        let real = w().real(n, "");
        w().tree(n).into_iter().filter(|(f, _)| !ws.private.contains(f) && !Path::new(&format!("{real}{f}")).is_symlink()).collect()
    };
    let first = tree(1);
    for n in 2..=ws.nodes.len() as u32 {
        let other = tree(n);
        for f in first.keys().chain(other.keys()).collect::<BTreeSet<_>>() {
            let (a, b) = (first.get(f), other.get(f));
            if a != b {
                violation("different", format!("{f} is {a:?} at node 1 and {b:?} at node {n}"));
                return;
            }
        }
        probe("directories compared");
    }
}

// ------------------------------------------------------------------ secrets

pub fn p11(seed: u64) -> Plan {
    let mut b = Builder::new("P11", seed);
    b.plan.scenario = "secrets".into();
    let n = b.g.range(2, 5);
    let base: String = match b.g.below(5) {
        0 => "s".into(),
        1 => "correct horse battery staple".into(),
        2 => "pässwörd-🔑".into(),
        3 => (0..b.g.range(60, 200)).map(|i| char::from(b'a' + (i % 26) as u8)).collect(),
        _ => "Abcdefgh1234".into(),
    };
    let count = b.g.range(1, 2);
    for i in 1..=n {
        let secret = if i == 1 {
            if b.g.chance(150) { None } else { Some(base.clone()) }
        } else if b.g.chance(450) {
            b.plan.nodes[0].secret.clone()
        } else {
            other_secret(&mut b, &base)
        };
        let peer = match i {
            1 => None,
            2 => Some(1),
            _ if b.g.chance(250) => Some(b.g.range(2, i - 1) as u32),
            _ if b.g.chance(120) => None,
            _ => Some(1),
        };
        let files = if peer.is_none() { (0..count).map(|k| (format!("f{i}-{k}"), b.text(12))).collect() } else { vec![] };
        b.plan.nodes.push(NodeSpec { peer, secret, files });
    }
    let n = n as u32;
    let mut order: Vec<u32> = (1..=n).collect();
    if b.g.chance(200) {
        order.swap(0, 1);
    }
    for i in order {
        let w = b.pause();
        b.step(w, Act::Start { node: i });
    }
    b.step(0, Act::Settle { ms: 2000 });
    for e in 1..=n {
        if b.g.chance(600) {
            b.step(0, Act::Connect { ed: e, node: e });
        }
    }
    let mut names: Vec<(u32, String)> = vec![];
    for i in 1..=n {
        for f in b.plan.nodes[i as usize - 1].files.clone() {
            names.push((i, f.0));
        }
    }
    for k in 0..b.g.range(6, 30) {
        let wait = b.pause();
        let node = b.g.range(1, n.into()) as u32;
        let r = b.g.next();
        match b.g.below(20) {
            0..=4 => {
                let f = format!("w{node}-{k}");
                names.push((node, f.clone()));
                let text = b.text(10);
                b.step(wait, Act::FsWrite { node, file: f, text, how: "plain".into() });
            }
            5..=8 if !names.is_empty() => {
                let (_, f) = b.g.pick(&names).clone();
                b.step(wait, Act::FsEdit { node, file: f, r, how: "plain".into() });
            }
            9..=13 if !names.is_empty() => {
                let (_, f) = b.g.pick(&names).clone();
                b.step(wait, Act::Open { ed: node, file: f.clone() });
                b.step(10_000, Act::Edit { ed: node, file: f, r });
            }
            14 if !names.is_empty() => {
                let (_, f) = b.g.pick(&names).clone();
                b.step(wait, Act::FsRemove { node, file: f });
            }
            15..=16 => {
                let silent = b.g.chance(300);
                b.step(wait, Act::Kill { node, silent });
                let p = b.pause();
                b.step(p, Act::Start { node });
            }
            17 => {
                let x = b.g.range(1, n.into()) as u32;
                if x != node {
                    b.step(wait, Act::Reset { a: node, b: x });
                }
            }
            18 => b.step(wait, Act::Special { what: "reconnect".into(), node: 0, r: 0, text: String::new() }),
            _ => b.step(wait, Act::Special { what: "look".into(), node: 0, r: 0, text: String::new() }),
        }
    }
    b.plan
}

fn other_secret(b: &mut Builder, base: &str) -> Option<String> {
    let mut c: Vec<char> = base.chars().collect();
    let last = c.len() - 1;
    match b.g.below(8) {
        0 => return None,
        1 => {
            c.pop();
            if c.is_empty() {
                c.push('t');
            }
        }
        2 => c.push('x'),
        3 => c[last] = if c[last] == 'y' { 'z' } else { 'y' },
        4 => c[0] = if c[0] == 'q' { 'r' } else { 'q' },
        5 => {
            c = base.to_uppercase().chars().collect();
            if c.iter().collect::<String>() == base {
                c.push('u');
            }
        }
        6 => c = c.iter().rev().chain(['w'].iter()).copied().collect(),
        _ => {
            let m = last / 2;
            c[m] = if c[m] == 'k' { 'j' } else { 'k' };
        }
    }
    Some(c.into_iter().collect())
}

/// Nodes that can hear of each other, through others if need be: the group of each node.
pub fn groups() -> Vec<u32> {
    let ws = w();
    let mut g: Vec<u32> = (0..=ws.nodes.len() as u32).collect();
    for _ in 0..ws.nodes.len() {
        for n in &ws.nodes {
            if let Some(h) = n.spec.peer {
                if ws.same_secret(n.id) {
                    let m = g[n.id as usize].min(g[h as usize]);
                    g[n.id as usize] = m;
                    g[h as usize] = m;
                }
            }
        }
    }
    g
}

/// The node a file comes from, if the scenario says so in the name.
pub fn owner(f: &str) -> Option<u32> {
    if w().plan.property != "P11" {
        return None;
    }
    f.trim_start_matches(['f', 'w']).split('-').next().and_then(|x| x.parse().ok())
}

/// Nothing written within one group is known in another.
pub fn groups_apart() {
    let ws = w();
    let g = groups();
    let mut from: BTreeMap<char, (u32, String)> = BTreeMap::new();
    for n in &ws.nodes {
        for (f, t) in &n.spec.files {
            from.extend(t.chars().filter(|c| telling(*c)).map(|c| (c, (n.id, f.clone()))));
        }
    }
    for op in &ws.ops {
        from.extend(op.inserted.iter().filter(|c| telling(**c)).map(|c| (*c, (op.node, op.file.clone()))));
    }
    for n in 1..=ws.nodes.len() as u32 {
        let docs = saved_document(n).unwrap_or_default();
        let texts = everything(Path::new(&ws.real(n, ""))).into_iter().chain(docs);
        for (path, text) in texts {
            for c in text.chars() {
                if let Some((o, f)) = from.get(&c) {
                    if g[*o as usize] != g[n as usize] {
                        violation("known without the secret", format!("{c:?}, written to {f} at node {o}, is known at node {n} ({path})"));
                        return;
                    }
                }
            }
        }
        for f in ws.tree(n).into_keys() {
            if owner(&f).is_some_and(|o| g[o as usize] != g[n as usize]) {
                violation("known without the secret", format!("file {f} is there at node {n}"));
                return;
            }
        }
        probe("computers searched for others' texts");
    }
}

/// Within a group, everybody has the same files.
pub fn groups_equal() {
    let ws = w();
    let g = groups();
    for n in 1..=ws.nodes.len() as u32 {
        let first = (1..n).find(|m| g[*m as usize] == g[n as usize]);
        let Some(m) = first else { continue };
        let (a, b) = (ws.tree(m), ws.tree(n));
        for f in a.keys().chain(b.keys()).collect::<BTreeSet<_>>() {
            if a.get(f) != b.get(f) {
                violation("different", format!("{f} is {:?} at node {m} and {:?} at node {n}", a.get(f), b.get(f)));
                return;
            }
        }
        probe("directories compared");
    }
}
