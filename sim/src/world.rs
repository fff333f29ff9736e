//! Carries out a plan: real daemons in simulated processes, modelled editors, other programs.
use crate::interpose;
use crate::plan::{Act, NodeSpec, Plan, Step};
use crate::text::{self, Source};
use ethersync::daemon::Daemon;
use ethersync::peer::PeerConnectionInfo;
use serde_json::{json, Value};
use simcore::net::Stream;
use simcore::rng::Rng;
use simcore::{sim, FsFault, FsFaultKind, ProcId, MS, SEC};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::future::poll_fn;
use std::path::Path;
use std::task::{Poll, Waker};
use std::time::Duration;

pub const PROJECT: &str = "/home/u/project";
pub const SOCKET: &str = "/run/u/ethersync";
pub const PORT: u16 = 4242;

#[derive(Clone, Debug)]
pub struct Violation {
    /// Class of the violation; minimisation keeps it.
    pub kind: String,
    pub text: String,
}

pub struct Node {
    pub id: u32,
    pub spec: NodeSpec,
    pub proc: Option<ProcId>,
    pub starts: u32,
    /// The daemon is supposed to run.
    pub wanted: bool,
    pub pending_faults: Vec<FsFault>,
    pub disk_full: bool,
    pub wall_offset: i64,
    pub init_next: bool,
    /// Deaths that a fault asked for, by process.
    pub excused: BTreeSet<ProcId>,
    /// When the daemon was last killed or crashed.
    pub died_at: u64,
    /// The disk did or will fail the running daemon.
    pub disk_trouble: bool,
    /// The private key it had first.
    pub key: Option<Vec<u8>>,
    pub identity: Option<String>,
    /// Permissions of key and socket directory when the daemon was last started.
    pub found: (Option<u32>, Option<u32>),
    /// The user made the key accessible for others.
    pub key_opened: bool,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BufState {
    Opening,
    Open,
}

pub struct Buf {
    pub text: Vec<char>,
    pub erev: u64,
    pub drev: u64,
    pub state: BufState,
    pub loaded: bool,
    /// Revision the last edit was based on.
    pub sent_rev: u64,
    /// The reference cannot tell any more what this buffer should hold.
    pub broken: bool,
}

#[derive(Clone, Debug)]
pub struct Pending {
    pub id: u64,
    pub what: String,
    pub file: String,
    pub expect: String,
    pub op: Option<usize>,
}

#[derive(Clone, Debug)]
pub struct Answer {
    pub id: Option<u64>,
    pub ok: bool,
    pub text: String,
    pub what: String,
    pub file: String,
    pub expect: String,
}

pub struct Editor {
    pub node: u32,
    pub gen: u32,
    pub proc: ProcId,
    pub connected: bool,
    pub stream: Option<Stream>,
    pub out: VecDeque<u8>,
    pub out_waker: Option<Waker>,
    pub in_waker: Option<Waker>,
    pub stalled: bool,
    pub next_id: u64,
    pub pending: VecDeque<Pending>,
    pub bufs: BTreeMap<String, Buf>,
    pub answers: Vec<Answer>,
    pub got_edits: u64,
    pub ignored_edits: u64,
    /// Last cursor heard of, by user id: (file, ranges as text, when)
    pub cursors: BTreeMap<String, (String, String, u64)>,
    pub own_cursor: Option<(String, String)>,
    pub cursor_at: u64,
    /// Everything this editor was told about cursors: who, file, ranges.
    pub cursor_log: Vec<(String, String, String)>,
    pub connected_at: u64,
    pub closed_by_daemon: bool,
    /// Changes sent as notifications that the daemon may not have seen yet: (id of the next request, op).
    pub quiet: Vec<(u64, usize)>,
}

/// One change made by a participant.
#[derive(Clone, Debug)]
pub struct Op {
    pub at: u64,
    pub who: String,
    pub node: u32,
    pub file: String,
    pub inserted: Vec<char>,
    pub deleted: Vec<char>,
    pub left: Option<char>,
    pub right: Option<char>,
    pub acked: bool,
    /// Nothing is promised about this change (its daemon died, it was never confirmed).
    pub doubtful: bool,
}

pub struct WorldState {
    pub plan: Plan,
    pub scratch: String,
    pub nodes: Vec<Node>,
    pub editors: BTreeMap<u32, Editor>,
    pub violations: Vec<Violation>,
    pub hist: Vec<String>,
    pub keep_hist: bool,
    pub src: Source,
    pub ops: Vec<Op>,
    pub last_change: BTreeMap<String, u64>,
    pub last_trouble: u64,
    /// Files that other programs must leave alone until then.
    pub busy: BTreeMap<String, u64>,
    pub shape: u64,
    pub faults_on: bool,
    pub gen: u32,
    pub opts: Opts,
    pub probes: BTreeMap<&'static str, u64>,
    pub pristine_broken: BTreeSet<String>,
    pub notes: BTreeMap<String, String>,
    /// Who changed the file last: a program on this node, or 0 for an editor.
    pub author: BTreeMap<String, u32>,
    /// What each file should be in the end (None: it should not exist), where that is certain.
    pub model: BTreeMap<String, Option<String>>,
    /// Files of which only some things are certain.
    pub soft: BTreeSet<String>,
    /// Files that were deleted and that nobody touches any more.
    pub dead: BTreeSet<String>,
    pub holds: Vec<Hold>,
    /// Deletions by programs and users: when, where, what.
    pub removed: Vec<(u64, u32, String)>,
    /// Characters written to files that were open in an editor: nobody else may see them.
    pub foreign: BTreeMap<char, String>,
    /// What the disk should hold after an editor let go of a file: (node, file, text, changes before).
    pub let_go: Vec<(u32, String, String, usize)>,
    pub epochs: BTreeMap<String, Epoch>,
    /// Where `foreign` texts may be on disk.
    pub foreign_at: BTreeSet<(u32, String)>,
    pub strangers: Vec<Stream>,
    pub evil: Option<tokio::sync::mpsc::UnboundedSender<crate::hostile::Evil>>,
    /// Characters that are only in ignored files, and where.
    pub secrets: BTreeMap<char, (u32, String)>,
    pub private: BTreeSet<String>,
    /// Which editors (by connection) have reported a cursor position.
    pub cursors_told: BTreeMap<(String, String), BTreeSet<u32>>,
    /// What former editors were told about cursors.
    pub old_cursor_logs: Vec<(u32, u32, Vec<(String, String, String)>)>,
}

/// A time during which an editor was sure to have a file open.
#[derive(Clone, Debug)]
pub struct Hold {
    pub ed: u32,
    pub node: u32,
    pub file: String,
    pub from: u64,
    pub to: Option<u64>,
}

/// What the scenario allows and looks at.
#[derive(Clone, Debug, Default)]
pub struct Opts {
    /// A daemon that dies without having been killed is a violation (nearly always on).
    pub panics_ok: bool,
    /// Violations of the editor protocol towards an editor are reported.
    pub check_buffers: bool,
    pub check_answers: bool,
    /// Keep changes by other programs apart from everything else that happens to the file.
    pub fs_exclusive: bool,
    /// Restarts and kills are only carried out once things are quiet and editors are closed.
    pub calm_restarts: bool,
    /// Programs also change files that are open in an editor on the same computer; such changes
    /// must not get around.
    pub fs_while_open: bool,
    /// Files may be deleted although editors elsewhere have them open.
    pub remove_while_open: bool,
    /// Daemons are killed at any moment, except shortly after a change to a file that still exists.
    pub rash_kills: bool,
    /// Several participants change files while they can't hear of each other; what each of them
    /// may do between two meetings is limited to what can be merged.
    pub epochs: bool,
    /// Daemons die at any point, also from disk faults, as long as no editor has files open there.
    pub crashes: bool,
    /// Before a daemon is killed, the editors there close their files, and changes get around.
    pub leave_first: bool,
}

/// What happened to a file since everybody was last up to date.
#[derive(Clone, Debug, Default)]
pub struct Epoch {
    /// Changed by a program while the daemon there was off.
    pub off: BTreeSet<u32>,
    /// Changed by a program while the daemon there was running.
    pub program: Option<u32>,
    /// Changed by editors on these nodes.
    pub edited: BTreeSet<u32>,
    /// Created, renamed or removed: nobody else may do anything.
    pub whole: Option<u32>,
}

impl Epoch {
    pub fn free_to_open(&self, node: u32) -> bool {
        self.whole.is_none() && self.program.is_none() && !self.off.contains(&node)
    }
    pub fn untouched(&self) -> bool {
        self.off.is_empty() && self.program.is_none() && self.edited.is_empty() && self.whole.is_none()
    }
}

static mut WORLD: Option<Box<WorldState>> = None;

#[allow(static_mut_refs)]
pub fn w() -> &'static mut WorldState {
    unsafe { WORLD.as_mut().expect("no world") }
}

pub fn install(plan: Plan, scratch: &str, opts: Opts, keep_hist: bool) {
    let plan_texts = plan.texts();
    let nodes = plan
        .nodes
        .iter()
        .enumerate()
        .map(|(i, s)| Node {
            id: i as u32 + 1,
            spec: s.clone(),
            proc: None,
            starts: 0,
            wanted: false,
            pending_faults: vec![],
            disk_full: false,
            wall_offset: 0,
            init_next: false,
            excused: BTreeSet::new(),
            died_at: 0,
            disk_trouble: false,
            key: None,
            identity: None,
            found: (None, None),
            key_opened: false,
        })
        .collect();
    let mut wst = WorldState {
        plan,
        scratch: scratch.to_string(),
        nodes,
        editors: BTreeMap::new(),
        violations: vec![],
        hist: vec![],
        keep_hist,
        src: Source::after(&plan_texts),
        ops: vec![],
        last_change: BTreeMap::new(),
        last_trouble: 0,
        busy: BTreeMap::new(),
        shape: 0xcbf29ce484222325,
        faults_on: false,
        gen: 0,
        opts,
        probes: BTreeMap::new(),
        pristine_broken: BTreeSet::new(),
        notes: BTreeMap::new(),
        author: BTreeMap::new(),
        model: BTreeMap::new(),
        soft: BTreeSet::new(),
        dead: BTreeSet::new(),
        holds: vec![],
        removed: vec![],
        foreign: BTreeMap::new(),
        let_go: vec![],
        epochs: BTreeMap::new(),
        foreign_at: BTreeSet::new(),
        strangers: vec![],
        evil: None,
        secrets: BTreeMap::new(),
        private: BTreeSet::new(),
        cursors_told: BTreeMap::new(),
        old_cursor_logs: vec![],
    };
    for n in &wst.plan.nodes {
        for (f, t) in &n.files {
            wst.model.insert(f.clone(), Some(t.clone()));
            wst.author.insert(f.clone(), 1);
        }
    }
    wst.keep_hist = keep_hist;
    unsafe {
        WORLD = Some(Box::new(wst));
    }
}

// ------------------------------------------------------------------ recording

pub fn hist(f: impl FnOnce() -> String) {
    let ws = w();
    if ws.keep_hist {
        let t = sim().now as f64 / 1e9;
        ws.hist.push(format!("{t:>11.6} {}", f()));
    }
    let _ = ws;
}

/// Folds an event into the shape of the run (what happened in which order, without times).
pub fn shape(words: &[u64]) {
    let ws = w();
    for x in words {
        ws.shape = (ws.shape ^ x).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(23);
    }
}

pub fn probe(name: &'static str) {
    *w().probes.entry(name).or_insert(0) += 1;
}

pub fn violation(kind: &str, text: String) {
    let ws = w();
    hist(|| format!("!! {kind}: {text}"));
    if ws.violations.len() < 20 {
        ws.violations.push(Violation { kind: kind.to_string(), text });
    }
}

pub fn show(t: &[char]) -> String {
    let s: String = t.iter().take(120).collect();
    format!("{s:?}{}", if t.len() > 120 { format!("… ({} chars)", t.len()) } else { String::new() })
}

// ------------------------------------------------------------------ files

impl WorldState {
    pub fn root(&self, node: u32) -> String {
        format!("{}/n{node}", self.scratch)
    }
    pub fn real(&self, node: u32, file: &str) -> String {
        format!("{}/n{node}{PROJECT}/{file}", self.scratch)
    }
    pub fn node(&mut self, id: u32) -> &mut Node {
        &mut self.nodes[id as usize - 1]
    }
    pub fn alive(&self, id: u32) -> bool {
        self.nodes[id as usize - 1].proc.is_some_and(simcore::is_alive)
    }
    pub fn read(&self, node: u32, file: &str) -> Option<String> {
        std::fs::read(self.real(node, file)).ok().map(|b| String::from_utf8_lossy(&b).to_string())
    }
    /// All regular files of the project except what is never shared: path -> content.
    pub fn tree(&self, node: u32) -> BTreeMap<String, String> {
        let mut out = BTreeMap::new();
        let base = format!("{}{PROJECT}", self.root(node));
        fn walk(dir: &Path, base: &str, out: &mut BTreeMap<String, String>) {
            let Ok(rd) = std::fs::read_dir(dir) else { return };
            for e in rd.flatten() {
                let p = e.path();
                let name = e.file_name().to_string_lossy().to_string();
                let Ok(ft) = e.file_type() else { continue };
                if ft.is_dir() {
                    if name == ".ethersync" || name == ".git" {
                        continue;
                    }
                    walk(&p, base, out);
                } else if ft.is_file() && !name.ends_with('~') {
                    let rel = p.to_string_lossy()[base.len() + 1..].to_string();
                    let c = std::fs::read(&p).unwrap_or_default();
                    out.insert(rel, String::from_utf8_lossy(&c).to_string());
                }
            }
        }
        walk(Path::new(&base), &base, &mut out);
        out
    }
    /// Is an editor about to open the file? It reads the file itself, so that a program changing it
    /// right now would give the editor another text than the daemon.
    pub fn opening(&self, node: u32, file: &str) -> bool {
        self.editors.values().any(|e| {
            e.connected
                && (node == 0 || e.node == node)
                && e.bufs.iter().any(|(f, b)| {
                    b.state == BufState::Opening && (f == file || f.starts_with(&format!("{file}/")))
                })
        })
    }
    /// Can everybody hear of everything right now, and has been able to for a while?
    pub fn calm(&self) -> bool {
        sim().net.is_whole()
            && simcore::net::in_flight() == 0
            && sim().now >= self.last_trouble + news_ms() * MS
            && self.nodes.iter().all(|n| {
                n.spec.peer.is_none_or(|h| !self.same_secret(n.id) || simcore::net::live_between(n.id, h) > 0)
                    && n.proc.is_some_and(|p| simcore::is_alive(p) && !sim().procs[p as usize].stalled)
            })
    }
    /// Was the node given the same secret as the one it wants to join?
    pub fn same_secret(&self, id: u32) -> bool {
        let s = |i: u32| self.nodes[i as usize - 1].spec.secret.clone();
        self.nodes[id as usize - 1].spec.peer.is_none_or(|h| s(h) == s(id))
    }
    /// Was the file changed by anybody so recently that the change may still be on its way?
    pub fn recent(&self, file: &str) -> bool {
        self.last_change.get(file).is_some_and(|t| sim().now < *t + news_ms() * MS)
    }
    /// May a program on this node change the file now without anybody else interfering?
    pub fn free_for(&self, node: u32, file: &str) -> bool {
        if self.opts.epochs {
            return !self.held(node, file);
        }
        // A joining daemon takes no notice of what is there when it starts for the first time.
        let n = &self.nodes[node as usize - 1];
        if self.opts.crashes && n.spec.peer.is_some() && !Path::new(&self.real(node, ".ethersync/doc")).exists() {
            return false;
        }
        if self.author.get(file).is_none() && self.opts.crashes {
            return !self.held(0, file);
        }
        // Where writing failed, the disk is behind.
        let behind = n.disk_trouble;
        !self.held(0, file) && (self.author.get(file) == Some(&node) || (!self.recent(file) && !behind && self.calm()))
    }
    /// All files at or below a path on a node.
    pub fn files_under(&self, node: u32, path: &str) -> Vec<String> {
        if self.read(node, path).is_some() {
            return vec![path.to_string()];
        }
        let dir = format!("{path}/");
        self.tree(node).into_keys().filter(|f| f.starts_with(&dir)).collect()
    }
    /// May an editor on this node change the file? Remembers that it does.
    pub fn epoch_edit(&mut self, node: u32, file: &str) -> bool {
        let x = self.epochs.entry(file.to_string()).or_default();
        if !x.free_to_open(node) {
            return false;
        }
        x.edited.insert(node);
        true
    }
    /// May a program on this node change the content of the file? Remembers that it does.
    pub fn epoch_change(&mut self, node: u32, file: &str) -> bool {
        let off = !self.alive(node);
        if self.held(node, file) {
            return false;
        }
        let x = self.epochs.entry(file.to_string()).or_default();
        if x.whole.is_some() || x.off.contains(&node) {
            return false;
        }
        if off {
            x.off.insert(node);
        } else {
            // What was changed while a daemon was off must not arrive just now.
            let nodes = &self.nodes;
            let up = |n: &u32| nodes[*n as usize - 1].proc.is_some_and(simcore::is_alive);
            if x.program.is_some() || !x.edited.is_empty() || x.off.iter().any(up) {
                return false;
            }
            x.program = Some(node);
        }
        true
    }
    /// May a program on this node create, rename or remove these files? Remembers that it does.
    pub fn epoch_whole(&mut self, node: u32, files: &[String]) -> bool {
        if files.iter().any(|f| self.held(0, f) || !self.epochs.get(f).is_none_or(Epoch::untouched)) {
            return false;
        }
        for f in files {
            self.epochs.entry(f.clone()).or_default().whole = Some(node);
        }
        true
    }
    /// Everybody is up to date.
    pub fn new_epoch(&mut self) {
        self.epochs.clear();
    }
    /// A program on this node has set the content of the file.
    pub fn changed_by(&mut self, node: u32, file: &str, content: Option<String>) {
        self.last_change.insert(file.to_string(), sim().now);
        self.pristine_broken.insert(file.to_string());
        self.author.insert(file.to_string(), node);
        let alone = !self.opts.epochs
            || self.epochs.get(file).is_none_or(|x| {
                x.edited.is_empty() && x.off.iter().chain(x.program.iter()).all(|n| *n == node)
            });
        if self.opts.fs_exclusive && alone {
            self.model.insert(file.to_string(), content);
        } else {
            self.unsure(file);
        }
    }
    pub fn removed_by(&mut self, node: u32, file: &str) {
        let old: Vec<char> = self.read(node, file).unwrap_or_default().chars().collect();
        record_op(format!("program on node {node}"), node, file, &old, 0, old.len(), &[], true);
        self.removed.push((sim().now, node, file.to_string()));
        self.dead.insert(file.to_string());
        self.changed_by(node, file, None);
    }
    /// Nobody can tell any more what exactly the file should be.
    pub fn unsure(&mut self, file: &str) {
        self.model.remove(file);
        self.soft.insert(file.to_string());
    }
    /// Does an editor on the node have the file open, and does the daemon know?
    pub fn held_for_sure(&self, node: u32, file: &str) -> bool {
        self.holds.iter().any(|h| h.node == node && h.file == file && h.to.is_none())
    }
    /// Is the file open in some connected editor (on this node, or anywhere with node 0)?
    pub fn held(&self, node: u32, file: &str) -> bool {
        self.editors
            .values()
            .any(|e| e.connected && (node == 0 || e.node == node) && e.bufs.contains_key(file))
    }
}

pub fn write_whole(path: &str, content: &[u8], how: &str) {
    if let Some(d) = Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    match how {
        "rename" => {
            let p = Path::new(path);
            let tmp = p.with_file_name(format!(
                ".{}.tmp~",
                p.file_name().unwrap().to_string_lossy()
            ));
            let _ = std::fs::write(&tmp, content);
            let _ = std::fs::rename(&tmp, path);
        }
        "outside" => {
            // Written elsewhere on the same file system and moved in.
            let tmp = format!("{}/outside.tmp", w().scratch);
            let _ = std::fs::write(&tmp, content);
            let _ = std::fs::rename(&tmp, path);
        }
        "recreate" => {
            let _ = std::fs::remove_file(path);
            let _ = std::fs::write(path, content);
        }
        _ => {
            let _ = std::fs::write(path, content);
        }
    }
}

// ------------------------------------------------------------------ daemons

pub fn prepare_dirs() {
    let ws = w();
    for n in &ws.nodes {
        let root = ws.root(n.id);
        let dir = format!("{root}{PROJECT}/.ethersync");
        std::fs::create_dir_all(&dir).unwrap();
        std::fs::create_dir_all(format!("{root}/tmp")).unwrap();
        let run = format!("{root}/run/u");
        std::fs::create_dir_all(&run).unwrap();
        use std::os::unix::fs::PermissionsExt;
        std::fs::set_permissions(&run, std::fs::Permissions::from_mode(0o700)).unwrap();
        for (f, c) in &n.spec.files {
            write_whole(&ws.real(n.id, f), &bytes_of(c), "");
        }
        if let Some(s) = &n.spec.secret {
            std::fs::write(format!("{dir}/config"), format!("secret = {s}\n")).unwrap();
        }
    }
}

/// Contents which are not text are written down as Latin-1.
pub fn bytes_of(text: &str) -> Vec<u8> {
    match text.strip_prefix("latin1:") {
        Some(l) => l.chars().map(|c| c as u32 as u8).collect(),
        None => text.as_bytes().to_vec(),
    }
}

pub fn start_node(id: u32) {
    let ws = w();
    if ws.alive(id) {
        return;
    }
    let root = ws.root(id);
    let seed = ws.plan.seed;
    let n = ws.node(id);
    if let Some(p) = n.proc {
        interpose::reap(p);
    }
    n.starts += 1;
    let p = simcore::new_proc(
        id,
        simcore::rng::mix(seed, u64::from(id) * 1000 + u64::from(n.starts)),
        &root,
        vec![PROJECT.into(), "/run/u".into(), "/tmp".into()],
    );
    n.found = crate::identity::found(id);
    n.proc = Some(p);
    n.wanted = true;
    n.disk_trouble = n.disk_full || !n.pending_faults.is_empty();
    let pr = &mut sim().procs[p as usize];
    pr.fs_faults = std::mem::take(&mut n.pending_faults);
    pr.disk_full = n.disk_full;
    pr.wall_offset_ns = n.wall_offset;
    let peer = n.spec.peer.map(|q| {
        let whom = ws.nodes[q as usize - 1].identity.as_ref().map_or(String::new(), |i| format!("/p2p/{i}"));
        format!("/ip4/10.0.0.{q}/tcp/{PORT}{whom}")
    });
    let n = ws.node(id);
    let init = std::mem::take(&mut n.init_next);
    hist(|| format!("node {id}: daemon started (process {p})"));
    shape(&[1, id.into()]);
    simcore::with_proc(p, || {
        tokio::spawn(async move {
            // The same steps as the daemon's main function.
            let dir = Path::new(PROJECT).canonicalize().expect("project directory");
            let mut info = PeerConnectionInfo {
                peer,
                port: Some(PORT),
                passphrase: None,
            };
            let config = dir.join(".ethersync").join("config");
            if let Some(c) = PeerConnectionInfo::from_config_file(&config) {
                info = info.takes_precedence_over(c);
            }
            let socket = if crate::identity::fallback() {
                ethersync::editor::get_socket_path(Path::new("ethersync"))
            } else {
                SOCKET.into()
            };
            let d = Daemon::new(info, &socket, &dir, init);
            std::future::pending::<()>().await;
            drop(d);
        })
    });
}

pub fn kill_node(id: u32, silent: bool) {
    let ws = w();
    let now = sim().now;
    let n = ws.node(id);
    n.wanted = false;
    n.died_at = now;
    if let Some(p) = n.proc {
        if simcore::is_alive(p) {
            hist(|| format!("node {id}: daemon killed{}", if silent { " (without a word to its peers)" } else { "" }));
            shape(&[2, id.into()]);
            n.excused.insert(p);
            simcore::kill(p, "killed", silent);
            simcore::count(if silent { "crash_silent" } else { "crash" });
        }
        interpose::reap(p);
    }
}

/// Notices daemons that died on their own. Returns true if one did.
pub fn notice_deaths() -> bool {
    let ws = w();
    let mut any = false;
    for i in 0..ws.nodes.len() {
        let n = &mut ws.nodes[i];
        let Some(p) = n.proc else { continue };
        if simcore::is_alive(p) || n.excused.contains(&p) || !n.wanted {
            continue;
        }
        let id = n.id;
        let pr = &sim().procs[p as usize];
        let simcore::Status::Dead(why) = pr.status.clone() else { continue };
        n.wanted = false;
        n.died_at = sim().now;
        n.excused.insert(p);
        interpose::reap(p);
        any = true;
        hist(|| format!("node {id}: daemon died: {why}"));
        shape(&[3, id.into()]);
        if pr.panic.is_some() {
            if n.disk_trouble && ws.opts.crashes {
                probe("daemons that gave up because of disk trouble");
            } else if !ws.opts.panics_ok {
                violation(&died_kind(&why), format!("the daemon of node {id} died: {why}"));
            }
        }
    }
    any
}

// ------------------------------------------------------------------ editors

pub fn connect_editor(ed: u32, node: u32) -> bool {
    let ws = w();
    if ws.editors.get(&ed).is_some_and(|e| e.connected) {
        return false;
    }
    if !ws.alive(node) {
        return false;
    }
    // Each editor is a process of its own, without files.
    let root = ws.root(node);
    let proc = simcore::new_proc(node, u64::from(ed), &root, vec![]);
    let Ok(stream) = simcore::with_proc(proc, || simcore::net::unix_connect(node, SOCKET)) else {
        return false;
    };
    if let Some(old) = ws.editors.get_mut(&ed) {
        ws.old_cursor_logs.push((ed, old.gen, std::mem::take(&mut old.cursor_log)));
    }
    ws.gen += 1;
    let gen = ws.gen;
    let rd = stream.dup();
    let wr = stream.dup();
    ws.editors.insert(
        ed,
        Editor {
            node,
            gen,
            proc,
            connected: true,
            stream: Some(stream),
            out: VecDeque::new(),
            out_waker: None,
            in_waker: None,
            stalled: false,
            next_id: 1,
            pending: VecDeque::new(),
            bufs: BTreeMap::new(),
            answers: vec![],
            got_edits: 0,
            ignored_edits: 0,
            cursors: BTreeMap::new(),
            own_cursor: None,
            cursor_at: 0,
            cursor_log: vec![],
            connected_at: sim().now,
            closed_by_daemon: false,
            quiet: vec![],
        },
    );
    hist(|| format!("editor {ed}: connects to node {node}"));
    shape(&[4, ed.into(), node.into()]);
    tokio::spawn(read_loop(ed, gen, rd));
    tokio::spawn(write_loop(ed, gen, wr));
    true
}

fn editor(ed: u32, gen: u32) -> Option<&'static mut Editor> {
    w().editors.get_mut(&ed).filter(|e| e.gen == gen)
}

async fn read_loop(ed: u32, gen: u32, s: Stream) {
    let mut line: Vec<u8> = vec![];
    let mut buf = vec![0u8; 64 * 1024];
    loop {
        let n = poll_fn(|cx| {
            let Some(e) = editor(ed, gen) else { return Poll::Ready(0) };
            if !e.connected {
                return Poll::Ready(0);
            }
            if e.stalled {
                e.in_waker = Some(cx.waker().clone());
                return Poll::Pending;
            }
            e.in_waker = Some(cx.waker().clone());
            match s.poll_read(cx, &mut buf) {
                Poll::Ready(Ok(n)) => Poll::Ready(n),
                Poll::Ready(Err(_)) => Poll::Ready(0),
                Poll::Pending => Poll::Pending,
            }
        })
        .await;
        if n == 0 {
            break;
        }
        for b in &buf[..n] {
            if *b == b'\n' {
                let l = String::from_utf8_lossy(&line).to_string();
                line.clear();
                if editor(ed, gen).is_some_and(|e| e.connected) {
                    on_line(ed, &l);
                }
            } else {
                line.push(*b);
            }
        }
    }
    if let Some(e) = editor(ed, gen) {
        if e.connected {
            e.closed_by_daemon = true;
            hist(|| format!("editor {ed}: the daemon closed the connection"));
            let node = e.node;
            if w().opts.check_answers && w().alive(node) {
                violation("connection closed", format!("the daemon of node {node} closed the connection of editor {ed}"));
            }
            drop_editor(ed);
        }
    }
}

async fn write_loop(ed: u32, gen: u32, s: Stream) {
    loop {
        let ok = poll_fn(|cx| {
            let Some(e) = editor(ed, gen) else { return Poll::Ready(false) };
            if !e.connected && e.out.is_empty() {
                return Poll::Ready(false);
            }
            e.out_waker = Some(cx.waker().clone());
            if e.out.is_empty() {
                return Poll::Pending;
            }
            let (a, _) = e.out.as_slices();
            match s.poll_write(cx, a) {
                Poll::Ready(Ok(n)) => {
                    e.out.drain(..n);
                    Poll::Ready(true)
                }
                Poll::Ready(Err(_)) => Poll::Ready(false),
                Poll::Pending => Poll::Pending,
            }
        })
        .await;
        if !ok {
            return;
        }
    }
}

fn send_bytes(ed: u32, bytes: &[u8]) {
    let e = w().editors.get_mut(&ed).unwrap();
    e.out.extend(bytes);
    if let Some(wk) = e.out_waker.take() {
        wk.wake();
    }
}

pub fn uri(file: &str) -> String {
    format!("file://{PROJECT}/{file}")
}

pub fn request(ed: u32, method: &str, params: Value, what: &str, file: &str, expect: &str, op: Option<usize>) {
    let e = w().editors.get_mut(&ed).unwrap();
    let id = e.next_id;
    e.next_id += 1;
    e.pending.push_back(Pending {
        id,
        what: what.into(),
        file: file.into(),
        expect: expect.into(),
        op,
    });
    let msg = json!({"jsonrpc": "2.0", "id": id, "method": method, "params": params});
    send_bytes(ed, format!("{msg}\n").as_bytes());
}

pub fn send_line(ed: u32, line: &str) {
    send_bytes(ed, format!("{line}\n").as_bytes());
}

/// The editor is gone: its process ended or the connection was closed.
pub fn drop_editor(ed: u32) {
    let ws = w();
    let Some(e) = ws.editors.get_mut(&ed) else { return };
    if !e.connected {
        return;
    }
    e.connected = false;
    e.stream = None;
    let files: Vec<String> = e.bufs.keys().cloned().collect();
    for file in files {
        let_go(ed, &file);
    }
    let e = ws.editors.get_mut(&ed).unwrap();
    e.out.clear();
    for p in e.pending.drain(..) {
        if let Some(o) = p.op {
            ws.ops[o].doubtful = true;
        }
    }
    for (_, o) in e.quiet.drain(..) {
        ws.ops[o].doubtful = true;
    }
    if let Some(wk) = e.in_waker.take() {
        wk.wake();
    }
    if let Some(wk) = e.out_waker.take() {
        wk.wake();
    }
    let p = e.proc;
    simcore::kill(p, "editor ended", false);
    shape(&[5, ed.into()]);
}

/// The editor does not have the file open any more.
fn let_go(ed: u32, file: &str) {
    let ws = w();
    let now = sim().now;
    for h in ws.holds.iter_mut().filter(|h| h.ed == ed && h.file == file && h.to.is_none()) {
        h.to = Some(now);
    }
    let e = &ws.editors[&ed];
    let node = e.node;
    if let Some(b) = e.bufs.get(file) {
        let settled = !ws.recent(file) && e.pending.iter().all(|p| p.op.is_none());
        if b.state == BufState::Open && !b.broken && settled && !ws.dead.contains(file) && ws.calm() {
            let text = b.text.iter().collect();
            ws.let_go.push((node, file.to_string(), text, ws.ops.len()));
        }
    }
    // The daemon still has to hear of it.
    ws.last_change.insert(file.to_string(), now);
    ws.author.insert(file.to_string(), 0);
}

fn load_buffer(ed: u32, file: &str) {
    let ws = w();
    let node = ws.editors[&ed].node;
    let text: Vec<char> = ws.read(node, file).unwrap_or_default().chars().collect();
    let b = ws.editors.get_mut(&ed).unwrap().bufs.get_mut(file).unwrap();
    b.text = text;
    b.loaded = true;
    b.erev = 0;
    b.drev = 0;
    b.sent_rev = 0;
}

fn on_line(ed: u32, line: &str) {
    let Ok(v) = serde_json::from_str::<Value>(line) else {
        violation("not json", format!("editor {ed} received a line that is not JSON: {line:?}"));
        return;
    };
    if let Some(m) = v.get("method").and_then(Value::as_str) {
        let params = v["params"].clone();
        match m {
            "edit" => on_edit(ed, &params),
            "cursor" => on_cursor(ed, &params),
            other => violation("unknown method", format!("editor {ed} received method {other:?}")),
        }
        return;
    }
    on_answer(ed, &v);
}

fn on_answer(ed: u32, v: &Value) {
    let ws = w();
    let e = ws.editors.get_mut(&ed).unwrap();
    let id = v.get("id").and_then(Value::as_u64);
    let ok = v.get("result").is_some();
    hist(|| format!("editor {ed}: answer {v}"));
    let expected = e.pending.front().cloned();
    let text = v.to_string();
    let Some(p) = expected else {
        if ws.opts.check_answers {
            violation("surplus answer", format!("editor {ed} got an answer nobody waits for: {text}"));
        }
        return;
    };
    let matches = if p.expect == "null-error" { id.is_none() } else { id == Some(p.id) };
    if !matches {
        if ws.opts.check_answers {
            violation(
                "wrong answer",
                format!("editor {ed} waits for the answer to request {} ({} {}), but got {text}", p.id, p.what, p.file),
            );
        }
        return;
    }
    e.pending.pop_front();
    if let Some(id) = id {
        e.quiet.retain(|(next, _)| *next > id);
    }
    e.answers.push(Answer {
        id,
        ok,
        text: text.clone(),
        what: p.what.clone(),
        file: p.file.clone(),
        expect: p.expect.clone(),
    });
    shape(&[6, ed.into(), u64::from(ok)]);
    if ws.opts.check_answers {
        if ok == v.get("error").is_some() {
            violation("malformed answer", format!("editor {ed} got an answer with neither or both of result and error: {text}"));
        }
        match p.expect.as_str() {
            "ok" if !ok && ws.opts.check_buffers => violation("refused", format!("editor {ed}: {} {} was refused: {text}", p.what, p.file)),
            "error" | "null-error" if ok => {
                violation("not refused", format!("editor {ed}: {} {} was accepted: {text}", p.what, p.file));
            }
            _ => {}
        }
    }
    if let Some(o) = p.op {
        if ok {
            ws.ops[o].acked = true;
        } else {
            ws.ops[o].doubtful = true;
            if p.expect == "ok" && ws.opts.check_buffers {
                violation("edit refused", format!("editor {ed}: edit of {} was refused: {text}", p.file));
            }
        }
    }
    match p.what.as_str() {
        "open" => {
            let e = ws.editors.get_mut(&ed).unwrap();
            if ok {
                if let Some(b) = e.bufs.get_mut(&p.file) {
                    if b.state == BufState::Opening {
                        b.state = BufState::Open;
                        ws.holds.push(Hold { ed, node: e.node, file: p.file.clone(), from: sim().now, to: None });
                        if !b.loaded {
                            load_buffer(ed, &p.file);
                        }
                    }
                }
            } else {
                e.bufs.remove(&p.file);
            }
        }
        _ => {}
    }
}

fn on_edit(ed: u32, params: &Value) {
    let ws = w();
    let u = params["uri"].as_str().unwrap_or("").to_string();
    let prefix = format!("file://{PROJECT}/");
    let Some(file) = u.strip_prefix(&prefix).map(str::to_string) else {
        violation("bad uri", format!("editor {ed} got an edit for {u:?}"));
        return;
    };
    let e = ws.editors.get_mut(&ed).unwrap();
    e.got_edits += 1;
    let Some(b) = e.bufs.get_mut(&file) else {
        hist(|| format!("editor {ed}: edit for {file}, which it does not have open"));
        return;
    };
    if !b.loaded {
        load_buffer(ed, &file);
    }
    let e = ws.editors.get_mut(&ed).unwrap();
    let b = e.bufs.get_mut(&file).unwrap();
    if b.broken {
        return;
    }
    let rev = params["revision"].as_u64();
    if rev != Some(b.erev) {
        e.ignored_edits += 1;
        probe("edits ignored because the user typed meanwhile");
        shape(&[7, ed.into(), 0]);
        hist(|| format!("editor {ed}: ignores {} (revision {rev:?}, has {})", params["delta"], e.bufs[&file].erev));
        if rev.is_none_or(|r| r > e.bufs[&file].erev) && ws.opts.check_buffers {
            violation("revision from the future", format!("editor {ed}: edit of {file} for revision {rev:?}, but only {} edits were made", e.bufs[&file].erev));
        }
        return;
    }
    let mut parts = vec![];
    for op in params["delta"].as_array().cloned().unwrap_or_default() {
        let g = |a: &str, b: &str| op["range"][a][b].as_u64().unwrap_or(u64::MAX >> 1) as usize;
        let s = text::offset(&b.text, g("start", "line"), g("start", "character"));
        let t = text::offset(&b.text, g("end", "line"), g("end", "character"));
        let (Some(s), Some(t)) = (s, t) else {
            b.broken = true;
            if ws.opts.check_buffers {
                violation(
                    "edit does not fit",
                    format!("editor {ed}: edit {op} of {file} does not fit the buffer {}", show(&b.text)),
                );
            }
            return;
        };
        let (s, t) = (s.min(t), s.max(t));
        parts.push((s, t, op["replacement"].as_str().unwrap_or("").chars().collect::<Vec<char>>()));
    }
    for i in 1..parts.len() {
        if parts[i].0 < parts[i - 1].1 {
            if ws.opts.check_buffers {
                violation("overlapping edit", format!("editor {ed}: overlapping ranges in {} for {file}", params["delta"]));
            }
            b.broken = true;
            return;
        }
    }
    for (s, t, r) in parts.into_iter().rev() {
        b.text.splice(s..t, r);
    }
    b.drev += 1;
    shape(&[7, ed.into(), 1]);
    probe("edits from others applied to a buffer");
    hist(|| format!("editor {ed}: applies {} to {file} -> {}", params["delta"], show(&w().editors[&ed].bufs[&file].text)));
}

fn on_cursor(ed: u32, params: &Value) {
    let now = sim().now;
    let e = w().editors.get_mut(&ed).unwrap();
    let id = params["userid"].as_str().unwrap_or("").to_string();
    let u = params["uri"].as_str().unwrap_or("").to_string();
    let r = params["ranges"].to_string();
    hist(|| format!("editor {ed}: cursor of {id}: {u} {r}"));
    shape(&[8, ed.into()]);
    e.cursor_log.push((id.clone(), u.clone(), r.clone()));
    e.cursors.insert(id, (u, r, now));
}

/// A change of a text: (start, end, replacement).
pub fn random_change(text: &[char], g: &mut Rng, src: &mut Source) -> (usize, usize, Vec<char>) {
    let n = text.len() as u64;
    let kind = g.below(100);
    let at = g.below(n + 1) as usize;
    match kind {
        0..=44 => {
            let len = g.range(1, 5);
            (at, at, src.text(g, len, true))
        }
        45..=54 => {
            let len = g.range(1, 3);
            (text.len(), text.len(), src.text(g, len, true))
        }
        55..=59 => {
            let len = g.range(1, 3);
            (0, 0, src.text(g, len, true))
        }
        60..=84 if n > 0 => {
            let a = g.below(n) as usize;
            let b = (a + g.range(1, 6) as usize).min(text.len());
            (a, b, vec![])
        }
        85..=97 if n > 0 => {
            let a = g.below(n) as usize;
            let b = (a + g.range(1, 4) as usize).min(text.len());
            let len = g.range(1, 4);
            (a, b, src.text(g, len, true))
        }
        98 if n > 0 => (0, text.len(), vec![]),
        99 => {
            let len = g.range(100, 600);
            (at, at, src.text(g, len, true))
        }
        _ => {
            let len = g.range(1, 4);
            (at, at, src.text(g, len, true))
        }
    }
}

fn neighbour(text: &[char]) -> Option<char> {
    text.first().copied().filter(|c| text::tracked(*c))
}

#[allow(clippy::too_many_arguments)]
pub fn record_op(who: String, node: u32, file: &str, old: &[char], s: usize, t: usize, ins: &[char], acked: bool) -> usize {
    let ws = w();
    ws.last_change.insert(file.to_string(), sim().now);
    ws.pristine_broken.insert(file.to_string());
    ws.ops.push(Op {
        at: sim().now,
        who,
        node,
        file: file.to_string(),
        inserted: ins.to_vec(),
        deleted: old[s..t].iter().copied().filter(|c| text::tracked(*c)).collect(),
        left: if s > 0 { neighbour(&old[s - 1..]) } else { None },
        right: neighbour(&old[t..]),
        acked,
        doubtful: false,
    });
    ws.ops.len() - 1
}

fn act_edit(ed: u32, file: &str, r: u64, quiet: bool) {
    let ws = w();
    let Some(e) = ws.editors.get_mut(&ed) else { return };
    if !e.connected {
        return;
    }
    let Some(b) = e.bufs.get_mut(file) else { return };
    if b.state != BufState::Open || b.broken || (ws.opts.fs_exclusive && ws.dead.contains(file)) {
        return;
    }
    let node = e.node;
    if ws.opts.epochs && !ws.epoch_edit(node, file) {
        return;
    }
    let e = ws.editors.get_mut(&ed).unwrap();
    let b = e.bufs.get_mut(file).unwrap();
    if ws.busy.get(file).is_some_and(|t| *t > sim().now) {
        return;
    }
    let mut g = Rng::new(r);
    let old = b.text.clone();
    let (s, t, ins) = random_change(&old, &mut g, &mut ws.src);
    if s == t && ins.is_empty() {
        return;
    }
    let (sl, sc) = text::pos(&old, s);
    let (tl, tc) = text::pos(&old, t);
    b.text.splice(s..t, ins.iter().copied());
    let rev = b.drev;
    b.erev += 1;
    b.sent_rev = rev;
    let node = e.node;
    let op = record_op(format!("editor {ed}"), node, file, &old, s, t, &ins, false);
    ws.author.insert(file.to_string(), 0);
    ws.unsure(file);
    // Some editors give selections backwards.
    let rep: String = ins.iter().collect();
    let delta = json!([{ "range": {"start": {"line": sl, "character": sc}, "end": {"line": tl, "character": tc}}, "replacement": rep }]);
    hist(|| format!("editor {ed}: user edit of {file} at revision {rev}: {delta} -> {}", show(&w().editors[&ed].bufs[file].text)));
    shape(&[9, ed.into()]);
    let params = json!({"uri": uri(file), "revision": rev, "delta": delta});
    if quiet {
        let e = w().editors.get_mut(&ed).unwrap();
        e.quiet.push((e.next_id, op));
        send_line(ed, &json!({"jsonrpc": "2.0", "method": "edit", "params": params}).to_string());
    } else {
        request(ed, "edit", params, "edit", file, "ok", Some(op));
    }
}

/// An edit that must be refused.
fn act_bad(ed: u32, file: &str, r: u64, kind: &str) {
    let ws = w();
    let alone = ws.nodes.len() == 1 && ws.editors.len() == 1;
    let Some(e) = ws.editors.get_mut(&ed) else { return };
    if !e.connected {
        return;
    }
    let mut g = Rng::new(r);
    let whole = |l: usize, c: usize| json!([{ "range": {"start": {"line": l, "character": c}, "end": {"line": l, "character": c}}, "replacement": "9" }]);
    let (rev, delta) = match e.bufs.get(file) {
        None => (0, whole(0, 0)),
        Some(_) if kind == "not open" => return,
        Some(b) if b.state != BufState::Open || b.broken => return,
        Some(b) => {
            let lines: Vec<usize> = b.text.split(|c| *c == '\n').map(<[char]>::len).collect();
            match kind {
                // Where others can edit, some more edits may be on their way.
                "future" if alone => (b.drev + g.range(1, 3), whole(0, 0)),
                "future" => (b.drev + g.range(10_000, 11_000) + 1_000_000 * g.below(2), whole(0, 0)),
                "old" if b.sent_rev > 0 => (g.below(b.sent_rev), whole(0, 0)),
                "old" => return,
                "line" => (b.drev, whole(lines.len() + g.below(3) as usize, 0)),
                "end" => {
                    let mut d = whole(0, 0);
                    d[0]["range"]["end"] = json!({"line": lines.len() + 5, "character": 0});
                    (b.drev, d)
                }
                "character" => {
                    let l = g.below(lines.len() as u64) as usize;
                    (b.drev, whole(l, lines[l] + 2 + g.below(50) as usize))
                }
                "several" => {
                    let one = whole(0, 0)[0].clone();
                    (b.drev, json!([one, one]))
                }
                _ => return,
            }
        }
    };
    probe("edits that must be refused");
    hist(|| format!("editor {ed}: bad edit of {file} ({kind}): revision {rev}, {delta}"));
    request(ed, "edit", json!({"uri": uri(file), "revision": rev, "delta": delta}), "bad edit", file, "error", None);
}

// ------------------------------------------------------------------ steps

pub async fn pause_us(us: u64) {
    if us > 0 {
        tokio::time::sleep(Duration::from_micros(us)).await;
    }
}

pub async fn pause_ms(ms: u64) {
    pause_us(ms * 1000).await;
}

/// An upper bound for how long news take in this world, in ms.
pub fn news_ms() -> u64 {
    let wd = &w().plan.world;
    let hop = wd.latency_max_us + if wd.spike_chance > 0 { wd.spike_us } else { 0 };
    (hop * 12 + wd.unix_latency_max_us * 4 + wd.watch_delay_max_us * 3) / 1000 + 3000
}

/// Waits until everything that is on its way has had time to arrive.
pub async fn settle(extra_ms: u64) {
    pause_ms(extra_ms).await;
    for _ in 0..60 {
        let n = &sim().net;
        let before = n.bytes_tcp + n.bytes_unix;
        pause_ms(news_ms()).await;
        let n = &sim().net;
        if before == n.bytes_tcp + n.bytes_unix {
            break;
        }
    }
}

pub async fn run_steps(steps: &[Step]) {
    for (i, st) in steps.iter().enumerate() {
        pause_us(st.wait).await;
        notice_deaths();
        if w().violations.iter().any(|v| v.kind.starts_with("daemon died")) {
            return;
        }
        do_step(i, &st.act).await;
    }
    notice_deaths();
}

pub fn fault_from(nth: u64, path: &str, kind: &str, arg: u32, errno: i32) -> FsFault {
    let kind = match kind {
        "crash" => FsFaultKind::Crash { permille: arg },
        "short" => FsFaultKind::Short { permille: arg },
        "torn" => FsFaultKind::Torn { permille: arg, errno },
        _ => FsFaultKind::Errno(errno),
    };
    FsFault { nth, path: path.to_string(), kind, seen: 0, fired: false }
}

async fn do_step(_i: usize, act: &Act) {
    let ws = w();
    if matches!(
        act,
        Act::Start { .. } | Act::Kill { .. } | Act::Cut { .. } | Act::Reset { .. } | Act::Stall { .. } | Act::DiskFull { .. }
    ) {
        ws.last_trouble = sim().now;
    }
    match act {
        Act::Start { node } => {
            if ws.opts.epochs && ws.epochs.values().any(|x| x.program.is_some()) {
                // Let the running daemons notice the changes first.
                settle(0).await;
            }
            start_node(*node);
        }
        Act::Kill { node, silent } => {
            if ws.opts.calm_restarts {
                leave_editors(*node).await;
                settle(3000).await;
            }
            if ws.opts.rash_kills {
                let ids: Vec<u32> =
                    ws.editors.iter().filter(|(_, e)| e.connected && e.node == *node).map(|(i, _)| *i).collect();
                // What is open can be older on disk until the daemon hears that the editor is gone.
                let held: BTreeSet<String> = ids.iter().flat_map(|i| ws.editors[i].bufs.keys().cloned()).collect();
                for ed in ids {
                    drop_editor(ed);
                }
                for _ in 0..100 {
                    let fresh =
                        ws.last_change.keys().any(|f| (!ws.dead.contains(f) || held.contains(f)) && ws.recent(f));
                    if !fresh {
                        break;
                    }
                    pause_ms(200).await;
                }
            }
            if ws.opts.crashes || (ws.opts.leave_first && ws.alive(*node)) {
                leave_editors(*node).await;
            }
            kill_node(*node, *silent);
        }
        Act::Connect { ed, node } => {
            if ws.opts.crashes && ws.nodes[*node as usize - 1].disk_trouble {
                return;
            }
            connect_editor(*ed, *node);
        }
        Act::Disconnect { ed } => {
            hist(|| format!("editor {ed}: disconnects"));
            simcore::count("editor_disconnect");
            drop_editor(*ed);
        }
        Act::Open { ed, file } => {
            let Some(e) = ws.editors.get(ed) else { return };
            if !e.connected || e.bufs.contains_key(file) {
                return;
            }
            if ws.busy.get(file).is_some_and(|t| *t > sim().now) {
                return;
            }
            if (ws.opts.fs_exclusive && ws.dead.contains(file))
                || ((ws.opts.remove_while_open || ws.opts.epochs || ws.opts.leave_first || ["P10", "P11"].contains(&ws.plan.property.as_str())) && ws.read(e.node, file).is_none())
                || (ws.opts.epochs && !ws.epochs.get(file).is_none_or(|x| x.free_to_open(e.node)))
            {
                return;
            }
            if ws.opts.crashes && ws.author.get(file) != Some(&0) && (ws.recent(file) || !ws.calm()) {
                return;
            }
            // Edits that were on their way when the editor closed the file would be taken for edits
            // of the newly opened one; the protocol has no means to tell them apart.
            if e.pending.iter().any(|p| p.what == "close" && p.file == *file) {
                return;
            }
            // Opening a file twice on one computer is only supported while the disk is up to date.
            if ws.held(e.node, file) && ws.pristine_broken.contains(file) {
                return;
            }
            hist(|| format!("editor {ed}: opens {file}"));
            shape(&[10, (*ed).into()]);
            let exists = ws.read(ws.editors[ed].node, file).is_some();
            let e = ws.editors.get_mut(ed).unwrap();
            e.bufs.insert(
                file.clone(),
                Buf { text: vec![], erev: 0, drev: 0, state: BufState::Opening, loaded: false, sent_rev: 0, broken: false },
            );
            let _ = exists;
            request(*ed, "open", json!({"uri": uri(file)}), "open", file, "ok", None);
        }
        Act::Close { ed, file } => {
            let Some(e) = ws.editors.get_mut(ed) else { return };
            if !e.connected || e.bufs.get(file).is_none_or(|b| b.state != BufState::Open) {
                return;
            }
            let_go(*ed, file);
            let e = ws.editors.get_mut(ed).unwrap();
            e.bufs.remove(file);
            hist(|| format!("editor {ed}: closes {file}"));
            shape(&[11, (*ed).into()]);
            request(*ed, "close", json!({"uri": uri(file)}), "close", file, "ok", None);
        }
        Act::Edit { ed, file, r } => act_edit(*ed, file, *r, false),
        Act::Bad { ed, file, r, kind } if kind == "quiet" => act_edit(*ed, file, *r, true),
        Act::Bad { ed, file, r, kind } => act_bad(*ed, file, *r, kind),
        Act::Save { ed, file } => {
            let Some(e) = ws.editors.get(ed) else { return };
            if !e.connected || e.bufs.get(file).is_none_or(|b| b.state != BufState::Open) {
                return;
            }
            if ws.opts.fs_exclusive && ws.dead.contains(file) {
                return;
            }
            let t: String = e.bufs[file].text.iter().collect();
            hist(|| format!("editor {ed}: saves {file}"));
            write_whole(&ws.real(e.node, file), t.as_bytes(), "");
        }
        Act::Cursor { ed, file, r } => {
            let Some(e) = ws.editors.get_mut(ed) else { return };
            if !e.connected || e.bufs.get(file).is_none_or(|b| b.state != BufState::Open || b.broken) {
                return;
            }
            let mut g = Rng::new(*r);
            let t = &e.bufs[file].text;
            let mut ranges = vec![];
            for _ in 0..g.range(1, 2) {
                let a = g.below(t.len() as u64 + 1) as usize;
                let b = if g.chance(500) { a } else { g.below(t.len() as u64 + 1) as usize };
                let (al, ac) = text::pos(t, a);
                let (bl, bc) = text::pos(t, b);
                ranges.push(json!({"start": {"line": al, "character": ac}, "end": {"line": bl, "character": bc}}));
            }
            let ranges = Value::Array(ranges);
            let told = (uri(file), ranges.to_string());
            e.own_cursor = Some(told.clone());
            e.cursor_at = sim().now;
            ws.cursors_told.entry(told).or_default().insert(e.gen);
            hist(|| format!("editor {ed}: cursor {file} {ranges}"));
            request(*ed, "cursor", json!({"uri": uri(file), "ranges": ranges}), "cursor", file, "ok", None);
        }
        Act::EdStall { ed, on } => {
            let Some(e) = ws.editors.get_mut(ed) else { return };
            e.stalled = *on;
            if *on {
                simcore::count("editor_stall");
            }
            hist(|| format!("editor {ed}: {} reading", if *on { "stops" } else { "resumes" }));
            if let Some(wk) = e.in_waker.take() {
                wk.wake();
            }
        }
        Act::Raw { ed, line, expect } => {
            let Some(e) = ws.editors.get_mut(ed) else { return };
            if !e.connected {
                return;
            }
            let id = e.next_id;
            let mut line = line.clone();
            if line.contains("$ID") {
                line = line.replace("$ID", &id.to_string());
                e.next_id += 1;
            }
            hist(|| format!("editor {ed}: sends {line:?}"));
            shape(&[19, (*ed).into()]);
            if expect != "none" {
                e.pending.push_back(Pending { id, what: "raw".into(), file: line.clone(), expect: expect.clone(), op: None });
            }
            if expect == "error" || expect == "null-error" {
                probe("requests that must be refused");
            }
            if let Some(l) = line.strip_prefix("latin1:") {
                let mut bytes: Vec<u8> = l.chars().map(|c| c as u32 as u8).collect();
                bytes.push(b'\n');
                send_bytes(*ed, &bytes);
            } else {
                send_line(*ed, &line);
            }
        }
        Act::FsEdit { node, file, r, how } => {
            let while_open = ws.opts.fs_while_open && ws.held_for_sure(*node, file);
            if ws.opening(*node, file) {
                return;
            }
            let mut how = how.as_str();
            if how == "pieces" && (ws.recent(file) || !ws.calm()) && ws.author.get(file) != Some(node) {
                // Half-written files that the daemon writes as well can end up as anything.
                how = "plain";
            }
            // With these, the text is gone for a moment, which is a change of its own.
            if (while_open || ws.opts.epochs) && ["pieces", "recreate-slow", "backup"].contains(&how) {
                how = "plain";
            }
            if ws.opts.fs_exclusive && !while_open {
                if !ws.free_for(*node, file) {
                    return;
                }
                ws.busy.insert(file.clone(), sim().now + news_ms() * MS);
            }
            let old: Vec<char> = match ws.read(*node, file) {
                Some(t) => t.chars().collect(),
                None => return,
            };
            if ws.opts.epochs && !ws.epoch_change(*node, file) {
                return;
            }
            let mut g = Rng::new(*r);
            let (s, t, ins) = random_change(&old, &mut g, &mut ws.src);
            let mut new = old.clone();
            new.splice(s..t, ins.iter().copied());
            let text: String = new.iter().collect();
            shape(&[12, (*node).into()]);
            if while_open {
                hist(|| format!("node {node}: a program changes {file}, which is open in an editor, ({how}) to {}", show(&new)));
                probe("changes by programs to files that are open");
                ws.pristine_broken.insert(file.clone());
                ws.foreign_at.insert((*node, file.clone()));
                for c in ins.iter().filter(|c| text::tracked(**c)) {
                    ws.foreign.insert(*c, file.clone());
                }
            } else {
                record_op(format!("program on node {node}"), *node, file, &old, s, t, &ins, true);
                hist(|| format!("node {node}: a program changes {file} ({how}) to {}", show(&new)));
                ws.changed_by(*node, file, Some(text.clone()));
                if ["recreate", "recreate-slow", "backup"].contains(&how) {
                    ws.removed.push((sim().now, *node, file.clone()));
                }
            }
            save_as(&ws.real(*node, file), text.as_bytes(), how).await;
        }
        Act::FsWrite { node, file, text, how } => {
            if ws.opening(*node, file) || (ws.opts.fs_exclusive && !ws.free_for(*node, file)) {
                return;
            }
            if ws.opts.epochs && !ws.epoch_whole(*node, std::slice::from_ref(file)) {
                return;
            }
            hist(|| format!("node {node}: a program writes {file} ({how}): {text:?}"));
            shape(&[12, (*node).into()]);
            let old: Vec<char> = ws.read(*node, file).unwrap_or_default().chars().collect();
            let new: Vec<char> = text.chars().collect();
            record_op(format!("program on node {node}"), *node, file, &old, 0, old.len(), &new, true);
            ws.dead.remove(file);
            ws.changed_by(*node, file, Some(text.clone()));
            save_as(&ws.real(*node, file), text.as_bytes(), how).await;
        }
        Act::FsRemove { node, file } => {
            let files = ws.files_under(*node, file);
            if files.iter().any(|f| ws.opening(*node, f) || (ws.opts.fs_exclusive && ws.opening(0, f))) {
                return;
            }
            let while_open = ws.opts.fs_while_open && ws.held_for_sure(*node, file);
            if ws.opts.fs_exclusive && !while_open {
                let ok = |f: &String| {
                    if ws.opts.remove_while_open {
                        !ws.held(*node, f) && (ws.author.get(f) == Some(node) || (!ws.recent(f) && ws.calm()))
                    } else {
                        ws.free_for(*node, f)
                    }
                };
                if !files.iter().all(ok) {
                    return;
                }
            }
            if (ws.opts.fs_while_open && !while_open) || (ws.opts.epochs && !ws.epoch_whole(*node, &files)) {
                return;
            }
            if while_open {
                ws.pristine_broken.insert(file.clone());
            }
            hist(|| format!("node {node}: a program deletes {file}"));
            shape(&[13, (*node).into()]);
            for f in &files {
                if !while_open {
                    ws.removed_by(*node, f);
                }
            }
            let p = ws.real(*node, file);
            if std::fs::symlink_metadata(&p).is_ok_and(|m| m.is_dir()) {
                let _ = std::fs::remove_dir_all(p);
            } else {
                let _ = std::fs::remove_file(p);
            }
        }
        Act::FsRename { node, from, to } => {
            let files = ws.files_under(*node, from);
            let moved = |f: &String| format!("{to}{}", &f[from.len()..]);
            if files.iter().any(|f| ws.opening(*node, f) || ws.opening(*node, &moved(f))) {
                return;
            }
            if ws.opts.fs_exclusive
                && (!files.iter().all(|f| ws.free_for(*node, f) && ws.free_for(*node, &moved(f)))
                    || std::fs::symlink_metadata(ws.real(*node, to)).is_ok())
            {
                return;
            }
            let both: Vec<String> = files.iter().cloned().chain(files.iter().map(&moved)).collect();
            if ws.opts.epochs && !ws.epoch_whole(*node, &both) {
                return;
            }
            hist(|| format!("node {node}: a program renames {from} to {to}"));
            shape(&[14, (*node).into()]);
            for f in &files {
                let text = ws.read(*node, f).unwrap_or_default();
                ws.removed_by(*node, f);
                let chars: Vec<char> = text.chars().collect();
                record_op(format!("program on node {node}"), *node, &moved(f), &[], 0, 0, &chars, true);
                ws.dead.remove(&moved(f));
                ws.changed_by(*node, &moved(f), Some(text));
            }
            let b = ws.real(*node, to);
            let _ = std::fs::create_dir_all(Path::new(&b).parent().unwrap());
            let _ = std::fs::rename(ws.real(*node, from), b);
        }
        Act::FsMoveOut { node, path } => {
            let files = ws.files_under(*node, path);
            if files.iter().any(|f| ws.opening(*node, f))
                || (ws.opts.fs_exclusive && !files.iter().all(|f| ws.free_for(*node, f)))
            {
                return;
            }
            if ws.opts.epochs && !ws.epoch_whole(*node, &files) {
                return;
            }
            hist(|| format!("node {node}: a program moves {path} out of the project"));
            shape(&[17, (*node).into()]);
            for f in &files {
                ws.removed_by(*node, f);
            }
            ws.gen += 1;
            let _ = std::fs::rename(ws.real(*node, path), format!("{}/moved-out-{}", ws.scratch, ws.gen));
        }
        Act::FsMoveIn { node, path, files } => {
            let names: Vec<String> = files.iter().map(|f| format!("{path}/{}", f.0)).collect();
            if names.iter().any(|f| ws.opening(*node, f))
                || (ws.opts.fs_exclusive && !names.iter().all(|f| ws.free_for(*node, f)))
                || std::fs::symlink_metadata(ws.real(*node, path)).is_ok()
            {
                return;
            }
            if ws.opts.epochs && !ws.epoch_whole(*node, &names) {
                return;
            }
            hist(|| format!("node {node}: a program moves a directory into the project as {path}: {files:?}"));
            shape(&[18, (*node).into()]);
            ws.gen += 1;
            let tmp = format!("{}/moved-in-{}", ws.scratch, ws.gen);
            let _ = std::fs::create_dir_all(&tmp);
            for ((f, t), full) in files.iter().zip(&names) {
                write_whole(&format!("{tmp}/{f}"), t.as_bytes(), "");
                let chars: Vec<char> = t.chars().collect();
                record_op(format!("program on node {node}"), *node, full, &[], 0, 0, &chars, true);
                ws.dead.remove(full);
                ws.changed_by(*node, full, Some(t.clone()));
            }
            let b = ws.real(*node, path);
            let _ = std::fs::create_dir_all(Path::new(&b).parent().unwrap());
            let _ = std::fs::rename(&tmp, b);
        }
        Act::FsTouch { node, file } => {
            if ws.opening(*node, file) {
                return;
            }
            hist(|| format!("node {node}: a program touches {file}"));
            use std::os::unix::fs::PermissionsExt;
            let p = ws.real(*node, file);
            let _ = std::fs::set_permissions(&p, std::fs::Permissions::from_mode(0o640));
            if let Ok(f) = std::fs::OpenOptions::new().append(true).open(&p) {
                let _ = f.set_modified(std::time::SystemTime::UNIX_EPOCH + Duration::from_secs(1_000_000_000));
            }
        }
        Act::FsMkdir { node, path } => {
            hist(|| format!("node {node}: a program creates directory {path}"));
            let _ = std::fs::create_dir_all(ws.real(*node, path));
        }
        Act::FsLink { node, path, target } => {
            hist(|| format!("node {node}: a program links {path} to {target}"));
            let p = ws.real(*node, path);
            let _ = std::fs::create_dir_all(Path::new(&p).parent().unwrap());
            let _ = std::os::unix::fs::symlink(target, p);
        }
        Act::Cut { a, b, on } => {
            hist(|| format!("network between {a} and {b} {}", if *on { "is cut" } else { "works again" }));
            if *on {
                simcore::count("partition");
            }
            shape(&[15, (*a).into(), (*b).into()]);
            simcore::net::set_cut(*a, *b, *on);
        }
        Act::Reset { a, b } => {
            let n = simcore::net::reset_between(*a, *b);
            hist(|| format!("{n} connection(s) between {a} and {b} reset"));
            shape(&[16, (*a).into(), (*b).into()]);
            simcore::count_n("connection_reset", n);
        }
        Act::Stall { node, on } => {
            if let Some(p) = ws.nodes[*node as usize - 1].proc {
                if simcore::is_alive(p) {
                    hist(|| format!("node {node}: daemon {}", if *on { "is suspended" } else { "goes on" }));
                    if *on {
                        simcore::count("node_stall");
                    }
                    simcore::set_stalled(p, *on);
                }
            }
        }
        Act::ClockJump { node, ms } => {
            let n = ws.node(*node);
            n.wall_offset += ms * 1_000_000;
            simcore::count("clock_jump");
            if let Some(p) = n.proc {
                sim().procs[p as usize].wall_offset_ns = n.wall_offset;
            }
        }
        Act::DiskFull { node, on } => {
            if ws.opts.crashes {
                leave_editors(*node).await;
            }
            let n = ws.node(*node);
            n.disk_trouble |= *on;
            n.disk_full = *on;
            if let Some(p) = n.proc {
                sim().procs[p as usize].disk_full = *on;
            }
            hist(|| format!("node {node}: disk {}", if *on { "is full" } else { "has room again" }));
        }
        Act::FsFault { node, nth, path, kind, arg, errno } => {
            if ws.opts.crashes {
                leave_editors(*node).await;
            }
            let f = fault_from(*nth, path, kind, *arg, *errno);
            hist(|| format!("node {node}: fault armed: {kind} at operation {nth} on {path:?}"));
            let n = ws.node(*node);
            match n.proc {
                Some(p) if simcore::is_alive(p) => {
                    n.disk_trouble = true;
                    sim().procs[p as usize].fs_faults.push(f);
                }
                _ => n.pending_faults.push(f),
            }
        }
        Act::Settle { ms } => {
            settle(*ms).await;
        }
        Act::Special { .. } => crate::props::special(act).await,
    }
}

/// Ways in which programs save files.
pub async fn save_as(path: &str, content: &[u8], how: &str) {
    if let Some(d) = Path::new(path).parent() {
        let _ = std::fs::create_dir_all(d);
    }
    match how {
        "pieces" => {
            use std::io::Write;
            let Ok(mut f) = std::fs::File::create(path) else { return };
            let third = (content.len() / 3).max(1);
            for c in content.chunks(third) {
                pause_us(300).await;
                let _ = f.write_all(c);
            }
        }
        "append" => {
            // Only meaningful if the new content extends the old one; otherwise plain.
            let old = std::fs::read(path).unwrap_or_default();
            if content.starts_with(&old) {
                use std::io::Write;
                if let Ok(mut f) = std::fs::OpenOptions::new().append(true).open(path) {
                    let _ = f.write_all(&content[old.len()..]);
                    return;
                }
            }
            write_whole(path, content, "");
        }
        "recreate-slow" => {
            let _ = std::fs::remove_file(path);
            pause_us(700).await;
            write_whole(path, content, "");
        }
        "backup" => {
            // Like vim with backupcopy=no: old file renamed to a backup, new one written, backup removed.
            let bak = format!("{path}~");
            let _ = std::fs::rename(path, &bak);
            pause_us(200).await;
            let _ = std::fs::write(path, content);
            let _ = std::fs::remove_file(&bak);
        }
        _ => write_whole(path, content, how),
    }
}

/// All editors on the node (0: everywhere) close their files and disconnect.
pub async fn leave_editors(node: u32) {
    let ws = w();
    let ids: Vec<u32> = ws
        .editors
        .iter()
        .filter(|(_, e)| e.connected && (node == 0 || e.node == node))
        .map(|(i, _)| *i)
        .collect();
    if ids.is_empty() {
        return;
    }
    settle(0).await;
    for ed in &ids {
        let files: Vec<String> = ws.editors[ed].bufs.keys().cloned().collect();
        for file in files {
            Box::pin(do_step(0, &Act::Close { ed: *ed, file })).await;
        }
    }
    settle(0).await;
    for ed in &ids {
        drop_editor(*ed);
    }
    pause_ms(500).await;
}

/// Ends all trouble: network whole, nobody stalled, disks fine.
pub fn end_trouble() {
    let ws = w();
    ws.last_trouble = sim().now;
    let n = ws.nodes.len() as u32;
    for a in 1..=n {
        for b in a + 1..=n {
            simcore::net::set_cut(a, b, false);
        }
    }
    for nd in &mut ws.nodes {
        nd.disk_full = false;
        nd.pending_faults.clear();
        if let Some(p) = nd.proc {
            sim().procs[p as usize].disk_full = false;
            sim().procs[p as usize].fs_faults.clear();
            if simcore::is_alive(p) {
                simcore::set_stalled(p, false);
            }
        }
    }
    let ids: Vec<u32> = ws.editors.keys().copied().collect();
    for ed in ids {
        let e = ws.editors.get_mut(&ed).unwrap();
        if e.stalled {
            e.stalled = false;
            if let Some(wk) = e.in_waker.take() {
                wk.wake();
            }
        }
    }
    hist(|| "all trouble ends".to_string());
}

/// Brings every node up and connects every joining daemon to its host (a daemon dials only
/// when it starts).
pub async fn everybody_connected() {
    let ws = w();
    notice_deaths();
    let n = ws.nodes.len() as u32;
    for id in 1..=n {
        if ws.nodes[id as usize - 1].spec.peer.is_none() {
            start_node(id);
        }
    }
    pause_ms(500).await;
    for id in 1..=n {
        let Some(host) = ws.nodes[id as usize - 1].spec.peer else { continue };
        if ws.alive(id) && (simcore::net::live_between(id, host) > 0 || !ws.same_secret(id)) {
            continue;
        }
        if ws.alive(id) {
            leave_editors(id).await;
            pause_ms(3000).await;
            kill_node(id, false);
            pause_ms(50).await;
        }
        start_node(id);
        pause_ms(300).await;
    }
}

pub fn quiet_ns() -> u64 {
    news_ms() * MS + 5 * SEC
}

/// Deaths are told apart by the place that gave up.
fn died_kind(why: &str) -> String {
    let place = why
        .split("panicked at ")
        .nth(1)
        .and_then(|t| t.lines().next())
        .map(|l| l.trim_end_matches(':').rsplit('/').next().unwrap_or("").to_string())
        .unwrap_or_default();
    format!("daemon died {place}")
}

/// A program writes a text too large to fit into the buffers on the way.
pub fn big(node: u32, r: u64, file: &str) {
    let ws = w();
    if !ws.alive(node) {
        return;
    }
    let mut g = Rng::new(r);
    let n = g.range(600, 900);
    let text: String = (0..n).map(|_| char::from_u32(0xAC00 + g.below(11_000) as u32).unwrap()).collect();
    hist(|| format!("node {node}: a program writes {n} characters to {file}"));
    ws.last_change.insert(file.to_string(), sim().now);
    ws.author.insert(file.to_string(), node);
    write_whole(&ws.real(node, file), text.as_bytes(), "");
}

/// Somebody connects to the daemon's port who doesn't speak its language, or stops half-way.
pub fn stranger(node: u32, r: u64, how: &str) {
    let ws = w();
    let mut g = Rng::new(r);
    let p = simcore::new_proc(90, r, "/nowhere", vec![]);
    let (_, Some(s), _) = simcore::with_proc(p, || simcore::net::tcp_connect((node, PORT))) else { return };
    let n = *g.pick(&[0u64, 1, 23, 24, 25, 100, 5000]);
    let mut bytes = vec![0u8; n as usize];
    g.fill(&mut bytes);
    hist(|| format!("node {node}: a stranger connects, sends {n} bytes, {how}"));
    simcore::count("stranger");
    shape(&[20, node.into(), n]);
    let _ = s.force_write(&bytes);
    match how {
        "close" => drop(s),
        "reset" => simcore::net::reset_conn(s.id()),
        _ => ws.strangers.push(s),
    }
}
