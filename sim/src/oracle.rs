//! Judgements over the state at the end of a run and over what was recorded on the way.
use crate::text::tracked;
use crate::world::*;
use std::collections::{BTreeMap, BTreeSet};

pub fn first_difference(a: &str, b: &str) -> String {
    let (x, y): (Vec<char>, Vec<char>) = (a.chars().collect(), b.chars().collect());
    let i = x.iter().zip(&y).take_while(|(p, q)| p == q).count();
    format!("at character {i}: {} / {}", show(&x[i..]), show(&y[i..]))
}

/// All project directories hold the same files with the same contents.
pub fn trees_equal() {
    let ws = w();
    let first = ws.tree(1);
    for n in 2..=ws.nodes.len() as u32 {
        let t = ws.tree(n);
        for (f, c) in &first {
            match t.get(f) {
                None => violation("missing file", format!("{f} exists at node 1 but not at node {n}")),
                Some(d) if d != c => violation(
                    "different content",
                    format!("{f} differs between node 1 and node {n} {}", first_difference(c, d)),
                ),
                _ => {}
            }
        }
        for f in t.keys() {
            if !first.contains_key(f) {
                violation("missing file", format!("{f} exists at node {n} but not at node 1"));
            }
        }
    }
}

/// Open buffers of the same file hold the same text, and the same as on disk where nobody has it open.
pub fn buffers_agree() {
    let ws = w();
    let mut seen: BTreeMap<String, (String, String)> = BTreeMap::new();
    let mut texts: Vec<(String, String, String)> = vec![];
    for (id, e) in &ws.editors {
        if !e.connected {
            continue;
        }
        for (f, b) in &e.bufs {
            if b.broken {
                continue;
            }
            if b.state != BufState::Open {
                violation("no answer", format!("editor {id} still waits for the answer to its request to open {f}"));
                continue;
            }
            texts.push((f.clone(), format!("editor {id}"), b.text.iter().collect()));
        }
    }
    let open: BTreeSet<String> = texts.iter().map(|t| t.0.clone()).collect();
    for f in open {
        for n in 1..=ws.nodes.len() as u32 {
            if !ws.held(n, &f) {
                texts.push((f.clone(), format!("the disk of node {n}"), ws.read(n, &f).unwrap_or_else(|| "(missing)".into())));
            }
        }
    }
    for (f, who, t) in texts {
        if let Some((other, u)) = seen.get(&f) {
            if *u != t {
                violation("texts differ", format!("{f}: {other} and {who} differ {}", first_difference(u, &t)));
            } else {
                probe("buffers compared");
            }
        } else {
            seen.insert(f, (who, t));
        }
    }
    // What the editors showed in the end must still be there after they close.
    for (f, (_, t)) in seen {
        ws.notes.insert(format!("buffer {f}"), t);
    }
}

pub fn last_buffers_on_disk() {
    let ws = w();
    for (k, t) in &ws.notes {
        let Some(f) = k.strip_prefix("buffer ") else { continue };
        for n in 1..=ws.nodes.len() as u32 {
            let d = ws.read(n, f).unwrap_or_else(|| "(missing)".into());
            if d != *t {
                violation(
                    "disk differs from buffer",
                    format!("{f}: the disk of node {n} differs from what the editors showed {}", first_difference(&d, t)),
                );
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Fate {
    Present,
    Absent,
    Maybe,
}

/// All requests were answered.
pub fn all_answered() {
    for (id, e) in &w().editors {
        if !e.connected {
            continue;
        }
        if let Some(p) = e.pending.front() {
            violation("no answer", format!("editor {id} still waits for the answer to {} {}", p.what, p.file));
        } else {
            probe("editors without open requests in the end");
        }
    }
}

/// The private keys of the daemons never change once they have been used.
pub fn keys_kept() {
    let ws = w();
    for n in &mut ws.nodes {
        let now = std::fs::read(format!("{}/n{}{PROJECT}/.ethersync/key", ws.scratch, n.id)).ok();
        match (&n.key, now) {
            (Some(a), b) if b.as_ref() != Some(a) => {
                violation("key changed", format!("the private key of node {} is another one", n.id));
            }
            (None, b) => n.key = b,
            _ => probe("private keys compared"),
        }
    }
}

/// Nothing exists that nobody created.
pub fn no_stray_files() {
    let ws = w();
    let mut known: BTreeSet<String> = ws.last_change.keys().cloned().collect();
    for n in &ws.nodes {
        known.extend(n.spec.files.iter().map(|f| f.0.clone()));
    }
    for s in &ws.plan.steps {
        if let crate::plan::Act::Open { file, .. } = &s.act {
            known.insert(file.clone());
        }
    }
    for n in 1..=ws.nodes.len() as u32 {
        for f in ws.tree(n).keys() {
            if !known.contains(f) {
                violation("stray file", format!("{f} exists at node {n}, but nobody created it"));
            }
        }
    }
}

/// Files that say which others are ignored, not part of what is judged.
pub fn plumbing(f: &str) -> bool {
    f.split('/').any(|p| p.starts_with(".git") || p == ".ignore" || p.ends_with(".log"))
}

/// Every inserted character that nobody deleted is there exactly once and in its place.
pub fn edits_all_there() {
    let ws = w();
    let mut fate: BTreeMap<char, Fate> = BTreeMap::new();
    let mut origin: BTreeMap<char, (usize, String)> = BTreeMap::new();
    for n in &ws.nodes {
        for (f, t) in n.spec.files.iter().filter(|f| !plumbing(&f.0) && !f.1.starts_with("latin1:")) {
            for c in t.chars().filter(|c| tracked(*c)) {
                fate.insert(c, Fate::Present);
                origin.insert(c, (usize::MAX, f.clone()));
            }
        }
    }
    // Texts that were moved to another file are deleted in one place and inserted in another.
    for (i, op) in ws.ops.iter().enumerate() {
        for c in &op.deleted {
            let f = fate.entry(*c).or_insert(Fate::Absent);
            if op.doubtful {
                if *f == Fate::Present {
                    *f = Fate::Maybe;
                }
            } else {
                *f = Fate::Absent;
            }
        }
        for c in op.inserted.iter().filter(|c| tracked(**c)) {
            fate.insert(*c, if op.doubtful { Fate::Maybe } else { Fate::Present });
            origin.insert(*c, (i, op.file.clone()));
        }
    }
    let who = |c: char| match origin.get(&c) {
        Some((usize::MAX, f)) => format!("in {f} from the start"),
        Some((i, f)) => format!("inserted into {f} by {} at {:.3} s", ws.ops[*i].who, ws.ops[*i].at as f64 / 1e9),
        None => "inserted by nobody".into(),
    };
    for n in 1..=ws.nodes.len() as u32 {
        let tree = ws.tree(n);
        let mut place: BTreeMap<char, Vec<(String, usize)>> = BTreeMap::new();
        for (f, t) in tree.iter().filter(|f| !plumbing(f.0)) {
            for (i, c) in t.chars().enumerate() {
                if tracked(c) {
                    place.entry(c).or_default().push((f.clone(), i));
                }
            }
        }
        for (c, f) in &fate {
            let k = place.get(c).map_or(0, Vec::len);
            match f {
                Fate::Present if k == 0 => violation("lost", format!("node {n}: {c:?} ({}) is gone", who(*c))),
                Fate::Absent if k > 0 => {
                    violation("undeleted", format!("node {n}: {c:?} ({}) was deleted but is there", who(*c)));
                }
                _ if k > 1 => violation("duplicated", format!("node {n}: {c:?} ({}) is there {k} times", who(*c))),
                _ => {}
            }
            if k == 1 && place[c][0].0 != origin[c].1 {
                violation("wrong file", format!("node {n}: {c:?} ({}) is in {}", who(*c), place[c][0].0));
            }
        }
        for c in place.keys() {
            if !fate.contains_key(c) {
                violation("garbage", format!("node {n}: {c:?} was never inserted by anybody"));
            }
        }
        let at = |c: char| place.get(&c).filter(|v| v.len() == 1).map(|v| v[0].1);
        for op in &ws.ops {
            let mine: Vec<(char, usize)> =
                op.inserted.iter().filter(|c| tracked(**c)).filter_map(|c| at(*c).map(|p| (*c, p))).collect();
            if mine.is_empty() {
                continue;
            }
            for k in 1..mine.len() {
                if mine[k].1 < mine[k - 1].1 {
                    violation(
                        "out of order",
                        format!("node {n}: {:?} stands before {:?}, both {}", mine[k].0, mine[k - 1].0, who(mine[k].0)),
                    );
                }
            }
            if let Some(p) = op.left.and_then(at) {
                if p > mine[0].1 {
                    violation("misplaced", format!("node {n}: {:?} ({}) stands before {:?}, it was put behind it", mine[0].0, who(mine[0].0), op.left.unwrap()));
                }
            }
            if let Some(p) = op.right.and_then(at) {
                if p < mine[mine.len() - 1].1 {
                    violation("misplaced", format!("node {n}: {:?} ({}) stands behind {:?}, it was put before it", mine[mine.len() - 1].0, who(mine[0].0), op.right.unwrap()));
                }
            }
        }
        probe("final texts judged");
    }
}

/// Files whose content is certain hold it at every node; `only_calm` leaves out those that changed
/// a moment ago.
pub fn model_everywhere(only_calm: bool) {
    let ws = w();
    if only_calm && !ws.calm() {
        return;
    }
    let groups = crate::secrecy::groups();
    for (f, want) in &ws.model {
        if (only_calm && ws.recent(f)) || ws.held(0, f) {
            continue;
        }
        for n in 1..=ws.nodes.len() as u32 {
            if crate::secrecy::owner(f).is_some_and(|o| groups[o as usize] != groups[n as usize]) {
                continue;
            }
            let have = ws.read(n, f);
            match (want, &have) {
                (None, Some(_)) => violation("file is back", format!("{f} was deleted, but it exists at node {n}")),
                (Some(_), None) => violation("file is gone", format!("{f} should exist, but not so at node {n}")),
                (Some(a), Some(b)) if a != b => violation(
                    "wrong content",
                    format!("{f} at node {n} is not what was written {}", first_difference(a, b)),
                ),
                _ => probe("files compared with the model"),
            }
        }
    }
}

/// Daemons did not write to files while an editor had them open.
pub fn held_files_untouched() {
    let ws = w();
    for op in &simcore::sim().fs_log {
        let Some(node) = ws.nodes.iter().find(|n| {
            sim_node(op.proc) == n.id
        }) else {
            continue;
        };
        if !["open-truncate", "open-create", "open-write", "write", "write-part", "ftruncate", "truncate", "rename"]
            .contains(&op.op)
        {
            continue;
        }
        let prefix = format!("{PROJECT}/");
        for p in [&op.path, &op.path2] {
            let Some(f) = p.strip_prefix(&prefix) else { continue };
            for h in &ws.holds {
                if h.node == node.id && h.file == f && h.from < op.at && h.to.is_none_or(|t| op.at < t) {
                    violation(
                        "wrote to an open file",
                        format!("node {}: {} of {f} at {:.3} s, but editor {} has had it open since {:.3} s", node.id, op.op, op.at as f64 / 1e9, h.ed, h.from as f64 / 1e9),
                    );
                    return;
                }
            }
        }
    }
}

fn sim_node(p: simcore::ProcId) -> u32 {
    simcore::sim().procs[p as usize].node
}

/// What programs wrote to files that were open did not get around.
pub fn foreign_nowhere(finally: bool) {
    let ws = w();
    let mut texts: Vec<(String, String, String)> = vec![];
    for n in 1..=ws.nodes.len() as u32 {
        for (f, t) in ws.tree(n) {
            if ws.foreign.values().any(|g| *g == f) && !finally && ws.foreign_at.contains(&(n, f.clone())) {
                continue;
            }
            texts.push((format!("the disk of node {n}"), f, t));
        }
    }
    for (id, e) in &ws.editors {
        for (f, b) in &e.bufs {
            if e.connected && b.loaded && !b.broken {
                texts.push((format!("editor {id}"), f.clone(), b.text.iter().collect()));
            }
        }
    }
    for (who, f, t) in texts {
        if let Some(c) = t.chars().find(|c| ws.foreign.contains_key(c)) {
            violation(
                "change of an open file got around",
                format!("{who} has {c:?} in {f}, which a program wrote to {} while it was open in an editor", ws.foreign[&c]),
            );
            return;
        }
    }
}

/// Files that editors have let go of hold the text the editors last had.
pub fn let_go_on_disk() {
    let ws = w();
    for (n, f, t, since) in &ws.let_go {
        if ws.ops[*since..].iter().any(|o| o.file == *f) || ws.recent(f) || ws.held(*n, f) || ws.dead.contains(f) {
            continue;
        }
        let d = ws.read(*n, f).unwrap_or_else(|| "(missing)".into());
        if d != *t {
            violation(
                "not written after closing",
                format!("{f} at node {n}: the last editor let go of it, but the disk differs from what it had {}", first_difference(&d, t)),
            );
        } else {
            probe("files looked at after their editor let go");
        }
    }
}

/// Every deletion by a daemon goes back to somebody's deletion.
pub fn removals_justified() {
    let ws = w();
    let prefix = format!("{PROJECT}/");
    for op in &simcore::sim().fs_log {
        if op.op != "unlink" || op.result < 0 {
            continue;
        }
        let Some(f) = op.path.strip_prefix(&prefix) else { continue };
        if f.starts_with(".ethersync/") || !ws.nodes.iter().any(|n| n.id == sim_node(op.proc)) {
            continue;
        }
        if !ws.removed.iter().any(|(t, _, g)| *t <= op.at && g == f) {
            violation(
                "deleted on its own",
                format!("node {}: the daemon deletes {f} at {:.3} s, which nobody deleted", sim_node(op.proc), op.at as f64 / 1e9),
            );
            return;
        }
    }
}

/// Files that were deleted are gone everywhere, files that nobody ever deleted are there.
pub fn deleted_and_kept() {
    let ws = w();
    let mut names: BTreeSet<String> = ws.last_change.keys().cloned().collect();
    for n in &ws.nodes {
        names.extend(n.spec.files.iter().map(|f| f.0.clone()));
    }
    for f in names {
        for n in 1..=ws.nodes.len() as u32 {
            let there = ws.read(n, &f).is_some();
            if ws.dead.contains(&f) && there {
                violation("file is back", format!("{f} was deleted, but it exists at node {n}"));
            } else if ws.model.get(&f).is_some_and(Option::is_some) && !there {
                violation("file is gone", format!("{f} should exist, but not so at node {n}"));
            } else {
                probe("presence of a file judged");
            }
        }
    }
}

/// Those who have no trouble themselves are up to date and served, whatever the others do.
pub fn others_fine() {
    let ws = w();
    let fine = |id: u32| {
        let n = &ws.nodes[id as usize - 1];
        n.proc.is_some_and(|p| simcore::is_alive(p) && !simcore::sim().procs[p as usize].stalled)
    };
    // Everybody who can reach the first node through others without trouble.
    let mut group: Vec<u32> = vec![];
    for id in 1..=ws.nodes.len() as u32 {
        let joined = match ws.nodes[id as usize - 1].spec.peer {
            None => true,
            Some(h) => {
                group.contains(&h) && simcore::net::live_between(id, h) > 0 && !simcore::sim().net.is_cut(id, h)
            }
        };
        if fine(id) && joined {
            group.push(id);
        }
    }
    for (id, e) in ws.editors.iter().filter(|(_, e)| e.connected && !e.stalled && fine(e.node)) {
        if let Some(p) = e.pending.front() {
            violation("no answer", format!("editor {id} waits for the answer to its request {} {}", p.what, p.file));
        }
        probe("editors found to be served in spite of trouble");
    }
    let mut texts: BTreeMap<String, (String, String)> = BTreeMap::new();
    let mut compare = |f: &str, who: String, t: String| {
        if let Some((other, u)) = texts.get(f) {
            probe("texts compared in spite of trouble");
            if *u != t {
                violation("left behind", format!("{f}: {other} and {who} differ {}", first_difference(u, &t)));
            }
        } else {
            texts.insert(f.to_string(), (who, t));
        }
    };
    for (id, e) in ws.editors.iter().filter(|(_, e)| e.connected && !e.stalled && group.contains(&e.node)) {
        for (f, b) in e.bufs.iter().filter(|(_, b)| !b.broken && b.state == BufState::Open) {
            compare(f, format!("editor {id}"), b.text.iter().collect());
        }
    }
    let names: BTreeSet<String> = group.iter().flat_map(|n| ws.tree(*n).into_keys()).collect();
    for f in names {
        for n in &group {
            if !ws.held(*n, &f) {
                compare(&f, format!("the disk of node {n}"), ws.read(*n, &f).unwrap_or_else(|| "(missing)".into()));
            }
        }
    }
}

/// Nobody is told about themselves or about positions that nobody reported.
pub fn cursors_true() {
    let ws = w();
    let mut who: BTreeMap<String, BTreeSet<u32>> = BTreeMap::new();
    let logs: Vec<(u32, u32, &Vec<(String, String, String)>)> = ws
        .old_cursor_logs
        .iter()
        .map(|(e, g, l)| (*e, *g, l))
        .chain(ws.editors.iter().map(|(e, x)| (*e, x.gen, &x.cursor_log)))
        .collect();
    for (ed, _, log) in &logs {
        for (id, u, r) in log.iter().filter(|x| x.2 != "[]") {
            let Some(from) = ws.cursors_told.get(&(u.clone(), r.clone())) else {
                violation("made-up cursor", format!("editor {ed} was told about a cursor at {u} {r}, which nobody reported"));
                return;
            };
            let all = who.entry(id.clone()).or_insert_with(|| from.clone());
            all.retain(|g| from.contains(g));
            if all.is_empty() {
                violation("mixed-up cursors", format!("editor {ed} was told positions of different editors as those of {id}"));
                return;
            }
        }
    }
    for (ed, gen, log) in &logs {
        for (id, u, r) in *log {
            if who.get(id).is_some_and(|a| a.len() == 1 && a.contains(gen)) {
                violation("own cursor", format!("editor {ed} was told about its own cursor: {u} {r}"));
                return;
            }
            probe("cursor messages judged");
        }
    }
}

/// The last word about everybody's cursor is the position they last reported.
pub fn cursors_current() {
    let ws = w();
    let quiet = quiet_ns();
    for (ed, e) in ws.editors.iter().filter(|(_, e)| e.connected) {
        let mut told: Vec<(String, String)> =
            e.cursors.values().filter(|c| c.1 != "[]").map(|c| (c.0.clone(), c.1.clone())).collect();
        let mut early: Vec<(String, String)> = vec![];
        for (other, o) in ws.editors.iter().filter(|(i, o)| o.connected && *i != ed) {
            let Some(c) = o.own_cursor.clone().filter(|c| c.1 != "[]") else { continue };
            if o.cursor_at < e.connected_at + quiet {
                early.push(c);
            } else if let Some(i) = told.iter().position(|t| *t == c) {
                told.swap_remove(i);
                probe("cursors found to be current");
            } else {
                violation("outdated cursor", format!("editor {ed} does not know that the cursor of editor {other} is at {} {}", c.0, c.1));
            }
        }
        for t in told {
            if !early.contains(&t) {
                violation("leftover cursor", format!("editor {ed} still knows a cursor at {} {}, where nobody is", t.0, t.1));
            }
        }
    }
}
