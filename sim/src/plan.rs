//! What a run does: a list of steps with delays, plus the knobs of the simulated world.
//! A plan together with the code under test determines the execution completely.
use serde::{Deserialize, Serialize};
use simcore::rng::{mix, Rng};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
#[serde(tag = "do", rename_all = "snake_case")]
pub enum Act {
    Start { node: u32 },
    /// The daemon's process ends. With `silent`, its peers are not told (power loss).
    Kill { node: u32, silent: bool },
    Connect { ed: u32, node: u32 },
    Disconnect { ed: u32 },
    Open { ed: u32, file: String },
    Close { ed: u32, file: String },
    Edit { ed: u32, file: String, r: u64 },
    /// The user saves the buffer from within the editor.
    Save { ed: u32, file: String },
    Cursor { ed: u32, file: String, r: u64 },
    /// The editor stops (or resumes) reading from its socket.
    EdStall { ed: u32, on: bool },
    /// Raw line sent by an editor; `expect` says what kind of answer is due.
    Raw { ed: u32, line: String, expect: String },
    /// An edit that can't be carried out, or (kind "quiet") a good one sent as a notification.
    Bad { ed: u32, file: String, r: u64, kind: String },
    /// Another program changes the file in one go.
    FsEdit { node: u32, file: String, r: u64, how: String },
    /// Another program sets the whole content.
    FsWrite { node: u32, file: String, text: String, how: String },
    FsRemove { node: u32, file: String },
    FsRename { node: u32, from: String, to: String },
    FsMkdir { node: u32, path: String },
    /// A directory or file is moved to a place outside the project.
    FsMoveOut { node: u32, path: String },
    /// A directory with files in it is moved into the project.
    FsMoveIn { node: u32, path: String, files: Vec<(String, String)> },
    /// Time stamps and permissions change, the content does not.
    FsTouch { node: u32, file: String },
    FsLink { node: u32, path: String, target: String },
    Cut { a: u32, b: u32, on: bool },
    Reset { a: u32, b: u32 },
    Stall { node: u32, on: bool },
    ClockJump { node: u32, ms: i64 },
    DiskFull { node: u32, on: bool },
    /// Arms a fault for the next start of the node (or now, if it runs).
    FsFault { node: u32, nth: u64, path: String, kind: String, arg: u32, errno: i32 },
    /// Waits until everything has had time to arrive.
    Settle { ms: u64 },
    /// Property-specific action.
    Special { what: String, node: u32, r: u64, text: String },
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Step {
    /// Pause before this step, in microseconds.
    pub wait: u64,
    #[serde(flatten)]
    pub act: Act,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct World {
    pub latency_max_us: u64,
    pub unix_latency_max_us: u64,
    pub watch_delay_max_us: u64,
    pub tcp_cap: usize,
    pub unix_cap: usize,
    pub short_read: u64,
    pub short_read_max: u64,
    pub short_write: u64,
    pub spike_chance: u64,
    pub spike_us: u64,
    pub sched_policy: u32,
}

impl World {
    pub fn calm() -> Self {
        Self {
            latency_max_us: 1000,
            unix_latency_max_us: 200,
            watch_delay_max_us: 0,
            tcp_cap: 128 * 1024,
            unix_cap: 200 * 1024,
            short_read: 0,
            short_read_max: 16,
            short_write: 0,
            spike_chance: 0,
            spike_us: 0,
            sched_policy: 0,
        }
    }

    /// Every run draws its own mix of trouble.
    pub fn swarm(g: &mut Rng) -> Self {
        let mut w = Self::calm();
        w.latency_max_us = *g.pick(&[300, 1000, 5000, 50_000, 400_000]);
        w.unix_latency_max_us = *g.pick(&[0, 200, 2000, 30_000, 300_000]);
        w.watch_delay_max_us = *g.pick(&[0, 0, 500, 20_000, 500_000]);
        w.sched_policy = g.below(4) as u32;
        if g.chance(300) {
            w.short_read = *g.pick(&[50, 300, 900]);
            w.short_read_max = *g.pick(&[1, 3, 16, 200]);
        }
        if g.chance(300) {
            w.short_write = *g.pick(&[50, 500]);
        }
        if g.chance(300) {
            w.spike_chance = *g.pick(&[20, 200]);
            w.spike_us = *g.pick(&[10_000, 800_000, 2_000_000]);
        }
        if g.chance(200) {
            w.tcp_cap = *g.pick(&[256, 2048, 16 * 1024]);
        }
        if g.chance(150) {
            w.unix_cap = *g.pick(&[512, 4096]);
        }
        w
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct NodeSpec {
    /// Node this one joins; None for a host.
    pub peer: Option<u32>,
    pub secret: Option<String>,
    /// Files in the directory before the first start.
    pub files: Vec<(String, String)>,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub property: String,
    pub seed: u64,
    pub scenario: String,
    pub world: World,
    pub nodes: Vec<NodeSpec>,
    pub steps: Vec<Step>,
}

pub fn rng_for(property: &str, seed: u64) -> Rng {
    let mut h = 1469598103934665603u64;
    for b in property.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(1099511628211);
    }
    Rng::new(mix(h, seed))
}

impl Plan {
    /// All texts that occur in the plan.
    pub fn texts(&self) -> Vec<String> {
        let mut out: Vec<String> =
            self.nodes.iter().flat_map(|n| n.files.iter().map(|f| f.1.clone())).collect();
        for s in &self.steps {
            match &s.act {
                Act::FsWrite { text, .. } => out.push(text.clone()),
                Act::Special { text, .. } => out.push(text.clone()),
                Act::Raw { line, .. } => out.push(line.chars().filter(|c| !c.is_ascii()).collect()),
                Act::FsMoveIn { files, .. } => out.extend(files.iter().map(|f| f.1.clone())),
                _ => {}
            }
        }
        out
    }
}
