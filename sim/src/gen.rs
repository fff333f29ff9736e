//! Generators: from a seed to a plan.
use crate::plan::{rng_for, Act, NodeSpec, Plan, Step, World};
use crate::text::Source;
use simcore::rng::Rng;

pub const NAMES: &[&str] = &["a.txt", "b", "dir/c.md", "dir/sub/d.txt", "with space.txt", "ümlaut.txt", "e.rs"];

/// How much of everything.
#[derive(Clone, Debug)]
pub struct Mix {
    pub nodes: (u64, u64),
    pub actions: (u64, u64),
    pub edit: u64,
    pub open: u64,
    pub close: u64,
    pub save: u64,
    pub cursor: u64,
    pub fs_edit: u64,
    pub fs_create: u64,
    pub fs_remove: u64,
    pub fs_rename: u64,
    pub cut: u64,
    pub reset: u64,
    pub stall: u64,
    pub ed_stall: u64,
    pub restart: u64,
    pub disconnect: u64,
    pub settle: u64,
    pub clock: u64,
    pub look: u64,
    pub fs_again: u64,
    pub flood: u64,
}

impl Mix {
    pub fn zero() -> Self {
        Self {
            nodes: (2, 3),
            actions: (8, 50),
            edit: 0,
            open: 0,
            close: 0,
            save: 0,
            cursor: 0,
            fs_edit: 0,
            fs_create: 0,
            fs_remove: 0,
            fs_rename: 0,
            cut: 0,
            reset: 0,
            stall: 0,
            ed_stall: 0,
            restart: 0,
            disconnect: 0,
            settle: 0,
            clock: 0,
            look: 0,
            fs_again: 0,
            flood: 0,
        }
    }
}

pub struct Builder {
    pub g: Rng,
    pub plan: Plan,
    pub src: Source,
}

pub const HOWS: &[&str] = &["plain", "pieces", "append", "rename", "outside", "recreate", "recreate-slow", "backup"];

impl Builder {
    pub fn new(property: &str, seed: u64) -> Self {
        let mut g = rng_for(property, seed);
        let world = if g.chance(120) { World::calm() } else { World::swarm(&mut g) };
        Self {
            g,
            src: Source::default(),
            plan: Plan { property: property.into(), seed, scenario: String::new(), world, nodes: vec![], steps: vec![] },
        }
    }

    pub fn text(&mut self, max: u64) -> String {
        let n = if self.g.chance(100) { 0 } else { self.g.range(1, max) };
        let mut t: String = self.src.text(&mut self.g, n, true).into_iter().collect();
        if self.g.chance(600) {
            t.push('\n');
        }
        t
    }

    pub fn step(&mut self, wait: u64, act: Act) {
        self.plan.steps.push(Step { wait, act });
    }

    /// A pause of one of several magnitudes, in microseconds.
    pub fn pause(&mut self) -> u64 {
        match self.g.below(10) {
            0..=2 => 0,
            3..=4 => self.g.below(300),
            5..=6 => self.g.below(20_000),
            7..=8 => self.g.below(400_000),
            _ => self.g.below(2_500_000),
        }
    }

    /// A host with some files and joining nodes without any.
    pub fn nodes(&mut self, n: u64, max_files: u64) -> Vec<String> {
        let count = self.g.range(1, max_files);
        let mut names: Vec<String> = NAMES.iter().map(|s| s.to_string()).collect();
        for i in (1..names.len()).rev() {
            let j = self.g.below(i as u64 + 1) as usize;
            names.swap(i, j);
        }
        let files: Vec<(String, String)> =
            names.iter().take(count as usize).map(|f| (f.clone(), self.text(30))).collect();
        let present = files.iter().map(|f| f.0.clone()).collect();
        self.plan.nodes.push(NodeSpec { peer: None, secret: Some("s3cret".into()), files });
        for i in 2..=n {
            let peer = if i > 2 && self.g.chance(250) { self.g.range(2, i - 1) } else { 1 };
            self.plan.nodes.push(NodeSpec { peer: Some(peer as u32), secret: Some("s3cret".into()), files: vec![] });
        }
        present
    }

    pub fn start_all(&mut self) {
        for i in 1..=self.plan.nodes.len() as u32 {
            let wait = if i == 1 { 0 } else { 200_000 + self.g.below(400_000) };
            self.step(wait, Act::Start { node: i });
        }
        self.step(0, Act::Settle { ms: 2000 });
    }
}

/// Work on shared files with everything the mix asks for.
pub fn collab(b: &mut Builder, m: &Mix) {
    let n = b.g.range(m.nodes.0, m.nodes.1);
    let mut files = b.nodes(n, 3);
    b.start_all();
    let n = n as u32;
    // Which kinds of trouble this run has (swarm testing).
    let on = |b: &mut Builder, x: u64| if b.g.chance(600) { x } else { 0 };
    let weights: Vec<(u64, &str)> = vec![
        (m.edit, "edit"),
        (m.open, "open"),
        (on(b, m.close), "close"),
        (on(b, m.save), "save"),
        (on(b, m.cursor), "cursor"),
        (on(b, m.fs_edit), "fs_edit"),
        (on(b, m.fs_create), "fs_create"),
        (on(b, m.fs_remove), "fs_remove"),
        (on(b, m.fs_rename), "fs_rename"),
        (on(b, m.cut), "cut"),
        (on(b, m.reset), "reset"),
        (on(b, m.stall), "stall"),
        (on(b, m.ed_stall), "ed_stall"),
        (on(b, m.restart), "restart"),
        (on(b, m.disconnect), "disconnect"),
        (on(b, m.settle), "settle"),
        (on(b, m.clock), "clock"),
        (m.look, "look"),
        (on(b, m.fs_again), "fs_again"),
        (on(b, m.flood), "flood"),
    ];
    let total: u64 = weights.iter().map(|x| x.0).sum();
    let editors: Vec<(u32, u32)> = (0..b.g.range(1, u64::from(n) + 1))
        .map(|i| (i as u32 + 1, if i < u64::from(n) { (i as u32) + 1 } else { b.g.range(1, n.into()) as u32 }))
        .collect();
    if m.open > 0 {
        for (e, nd) in &editors {
            let p = b.pause();
            b.step(p, Act::Connect { ed: *e, node: *nd });
            for f in files.clone() {
                if b.g.chance(600) {
                    b.step(0, Act::Open { ed: *e, file: f });
                }
            }
        }
        if b.g.chance(700) {
            b.step(0, Act::Settle { ms: 0 });
        }
    }
    let steps = b.g.range(m.actions.0, m.actions.1);
    let burst = b.g.chance(300);
    for _ in 0..steps {
        let mut k = b.g.below(total.max(1));
        let mut what = "settle";
        for (wgt, name) in &weights {
            if k < *wgt {
                what = name;
                break;
            }
            k -= wgt;
        }
        let wait = if burst && b.g.chance(800) { b.g.below(3000) } else { b.pause() };
        let (ed, ed_node) = *b.g.pick(&editors);
        let file = b.g.pick(&files).clone();
        let node = b.g.range(1, n.into()) as u32;
        let r = b.g.next();
        match what {
            "edit" => b.step(wait, Act::Edit { ed, file, r }),
            "open" => {
                b.step(wait, Act::Connect { ed, node: ed_node });
                b.step(0, Act::Open { ed, file });
            }
            "close" => b.step(wait, Act::Close { ed, file }),
            "save" => b.step(wait, Act::Save { ed, file }),
            "cursor" => b.step(wait, Act::Cursor { ed, file, r }),
            "fs_edit" => {
                let how = b.g.pick(HOWS).to_string();
                b.step(wait, Act::FsEdit { node, file, r, how });
            }
            "fs_create" => {
                let f = NAMES[b.g.below(NAMES.len() as u64) as usize].to_string();
                if !files.contains(&f) {
                    files.push(f.clone());
                    let text = b.text(20);
                    let how = b.g.pick(&["plain", "pieces", "outside"]).to_string();
                    b.step(wait, Act::FsWrite { node, file: f, text, how });
                }
            }
            "fs_remove" => {
                let whole = match file.rsplit_once('/') {
                    Some((dir, _)) if b.g.chance(400) => dir.to_string(),
                    _ => file,
                };
                b.step(wait, Act::FsRemove { node, file: whole });
            }
            "flood" => {
                // Much happens while one daemon doesn't take anything.
                b.plan.world.tcp_cap = b.plan.world.tcp_cap.min(*b.g.pick(&[256, 1024, 4096]));
                b.step(wait, Act::Stall { node, on: true });
                let slow = *b.g.pick(&[300, 3000, 30_000]);
                for _ in 0..b.g.range(30, 90) {
                    let r2 = b.g.next();
                    let w2 = b.g.below(slow);
                    let at = if m.edit > 0 && b.g.chance(950) { None } else { Some(b.g.range(1, n.into()) as u32) };
                    let f = b.g.pick(&files).clone();
                    match at {
                        Some(at) if m.fs_edit > 0 => b.step(w2, Act::FsEdit { node: at, file: f, r: r2, how: "plain".into() }),
                        Some(_) => {}
                        None => {
                            let e2 = if b.g.chance(700) { ed } else { b.g.pick(&editors).0 };
                            b.step(w2, Act::Edit { ed: e2, file: f, r: r2 });
                        }
                    }
                }
                let len = *b.g.pick(&[2_000, 1_000_000, 6_000_000]);
                b.step(len, Act::Stall { node, on: false });
            }
            "fs_again" => {
                let text = b.text(20);
                b.step(wait, Act::FsWrite { node, file, text, how: "plain".into() });
            }
            "look" => b.step(wait, Act::Special { what: "look".into(), node: 0, r: 0, text: String::new() }),
            "fs_rename" => {
                let to = NAMES[b.g.below(NAMES.len() as u64) as usize].to_string();
                if !files.contains(&to) {
                    files.push(to.clone());
                    b.step(wait, Act::FsRename { node, from: file, to });
                }
            }
            "cut" | "stall" | "ed_stall" => {
                let len = *b.g.pick(&[2_000, 50_000, 1_000_000, 6_000_000]);
                let other = b.g.range(1, n.into()) as u32;
                let (x, y) = match what {
                    "cut" if node != other => (
                        Act::Cut { a: node, b: other, on: true },
                        Act::Cut { a: node, b: other, on: false },
                    ),
                    "cut" => continue,
                    "stall" => (Act::Stall { node, on: true }, Act::Stall { node, on: false }),
                    _ => (Act::EdStall { ed, on: true }, Act::EdStall { ed, on: false }),
                };
                b.step(wait, x);
                // Something happens in between.
                for _ in 0..b.g.below(4) {
                    let f = b.g.pick(&files).clone();
                    let (e2, _) = *b.g.pick(&editors);
                    let r2 = b.g.next();
                    if m.edit > 0 {
                        let w2 = b.g.below(len);
                        b.step(w2, Act::Edit { ed: e2, file: f, r: r2 });
                    }
                }
                b.step(len, y);
            }
            "reset" => {
                let other = b.plan.nodes[node as usize - 1].peer;
                if let Some(o) = other {
                    b.step(wait, Act::Reset { a: node, b: o });
                    if b.g.chance(500) {
                        let p = b.pause();
                        b.step(p, Act::Special { what: "reconnect".into(), node: 0, r: 0, text: String::new() });
                    }
                }
            }
            "restart" => {
                let silent = b.g.chance(300);
                b.step(wait, Act::Kill { node, silent });
                let p = b.pause();
                b.step(p, Act::Start { node });
                if b.g.chance(700) {
                    let p = b.pause();
                    b.step(p, Act::Special { what: "reconnect".into(), node: 0, r: 0, text: String::new() });
                }
            }
            "disconnect" => b.step(wait, Act::Disconnect { ed }),
            "clock" => {
                let ms = *b.g.pick(&[-3_600_000i64, -5_000, 5_000, 86_400_000]);
                b.step(wait, Act::ClockJump { node, ms });
            }
            _ => b.step(wait, Act::Settle { ms: 0 }),
        }
    }
}

pub fn p01(seed: u64) -> Plan {
    let mut b = Builder::new("P01", seed);
    let kind = b.g.below(3);
    let mut m = Mix { nodes: (2, 4), open: 6, close: 3, settle: 2, cut: 2, reset: 1, stall: 2, clock: 1, flood: 1, ..Mix::zero() };
    match kind {
        0 => {
            b.plan.scenario = "editors".into();
            m.edit = 40;
            m.restart = 1;
        }
        1 => {
            b.plan.scenario = "programs".into();
            m.open = 0;
            m.close = 0;
            m.fs_edit = 20;
            m.fs_create = 6;
            m.fs_remove = 3;
            m.fs_rename = 2;
            m.restart = 1;
        }
        _ => {
            b.plan.scenario = "mixed".into();
            m.edit = 25;
            m.save = 3;
            m.fs_edit = 10;
            m.fs_create = 4;
            m.fs_remove = 2;
            m.cursor = 2;
        }
    }
    collab(&mut b, &m);
    b.plan
}

pub fn p02(seed: u64) -> Plan {
    let mut b = Builder::new("P02", seed);
    b.plan.scenario = "editors".into();
    let m = Mix {
        nodes: (1, 3),
        actions: (8, 80),
        edit: 60,
        open: 4,
        close: 3,
        save: 2,
        cursor: 2,
        fs_edit: 2,
        cut: 2,
        stall: 2,
        ed_stall: 3,
        settle: 2,
        disconnect: 1,
        ..Mix::zero()
    };
    collab(&mut b, &m);
    b.plan
}

pub fn p03(seed: u64) -> Plan {
    let mut b = Builder::new("P03", seed);
    b.plan.scenario = "edits".into();
    let m = Mix {
        nodes: (2, 3),
        actions: (8, 60),
        edit: 50,
        open: 6,
        close: 4,
        save: 3,
        fs_edit: 5,
        cut: 2,
        reset: 2,
        stall: 2,
        settle: 2,
        restart: 2,
        flood: 1,
        ..Mix::zero()
    };
    collab(&mut b, &m);
    b.plan
}

pub fn p04(seed: u64) -> Plan {
    let mut b = Builder::new("P04", seed);
    b.plan.scenario = "open files".into();
    let m = Mix {
        nodes: (1, 3),
        actions: (8, 50),
        edit: 35,
        open: 12,
        close: 8,
        save: 3,
        fs_edit: 14,
        fs_remove: 2,
        disconnect: 4,
        cut: 2,
        stall: 2,
        ed_stall: 1,
        settle: 2,
        look: 5,
        ..Mix::zero()
    };
    collab(&mut b, &m);
    b.plan
}

const DIRS: &[&str] = &["dir", "dir/sub", "new", "new/deep/er", "x"];

/// Other programs work in the project, while editors work on files of their own.
pub fn p05(seed: u64) -> Plan {
    let mut b = Builder::new("P05", seed);
    b.plan.scenario = "programs".into();
    let n = b.g.range(2, 3);
    let mut files = b.nodes(n, 4);
    let n = n as u32;
    let mine = "typed.txt".to_string();
    let text = b.text(20);
    b.plan.nodes[0].files.push((mine.clone(), text));
    b.start_all();
    let editors = b.g.below(3) as u32;
    for e in 1..=editors {
        let node = b.g.range(1, n.into()) as u32;
        b.step(0, Act::Connect { ed: e, node });
        b.step(0, Act::Open { ed: e, file: mine.clone() });
    }
    let mut fresh = 0;
    // Mostly one program at work at a time, sometimes everywhere.
    let mut at = b.g.range(1, n.into()) as u32;
    let trouble = b.g.chance(500);
    for _ in 0..b.g.range(5, 30) {
        if b.g.chance(200) {
            at = b.g.range(1, n.into()) as u32;
        }
        let wait = b.pause();
        let file = b.g.pick(&files).clone();
        let node = at;
        let r = b.g.next();
        let mut name = |b: &mut Builder| {
            fresh += 1;
            let f = *b.g.pick(&["f", "x.txt", "späti.md", ".hidden", "a b"]);
            if b.g.chance(400) {
                format!("{fresh}{f}")
            } else {
                format!("{}/{fresh}{f}", b.g.pick(DIRS))
            }
        };
        match b.g.below(100) {
            0..=29 => {
                let how = b.g.pick(HOWS).to_string();
                b.step(wait, Act::FsEdit { node, file, r, how });
            }
            30..=36 => {
                let how = b.g.pick(HOWS).to_string();
                let text = b.text(25);
                b.step(wait, Act::FsWrite { node, file, text, how });
            }
            37..=51 => {
                let f = name(&mut b);
                files.push(f.clone());
                let how = b.g.pick(&["plain", "plain", "pieces", "outside", "rename"]).to_string();
                let text = b.text(25);
                b.step(wait, Act::FsWrite { node, file: f, text, how });
            }
            52..=58 => b.step(wait, Act::FsRemove { node, file }),
            59..=61 => {
                let d = b.g.pick(DIRS).to_string();
                b.step(wait, Act::FsRemove { node, file: d });
            }
            62..=69 => {
                let to = name(&mut b);
                files.push(to.clone());
                b.step(wait, Act::FsRename { node, from: file, to });
            }
            70..=73 => {
                let from = b.g.pick(DIRS).to_string();
                let to = format!("moved{}", b.g.below(3));
                b.step(wait, Act::FsRename { node, from, to });
            }
            74..=76 => {
                let path = if b.g.chance(500) { file } else { b.g.pick(DIRS).to_string() };
                b.step(wait, Act::FsMoveOut { node, path });
            }
            77..=80 => {
                let path = format!("in{}", b.g.below(4));
                let list: Vec<(String, String)> = (0..b.g.range(1, 3))
                    .map(|i| (b.g.pick(&["", "s/", "s/t/"]).to_string() + &format!("f{i}"), b.text(15)))
                    .collect();
                for (f, _) in &list {
                    files.push(format!("{path}/{f}"));
                }
                b.step(wait, Act::FsMoveIn { node, path, files: list });
            }
            81..=83 => b.step(wait, Act::FsTouch { node, file }),
            84..=85 => {
                let path = b.g.pick(DIRS).to_string();
                b.step(wait, Act::FsMkdir { node, path });
            }
            86..=91 if editors > 0 => {
                let ed = b.g.range(1, editors.into()) as u32;
                for _ in 0..b.g.range(1, 4) {
                    let r = b.g.next();
                    b.step(0, Act::Edit { ed, file: mine.clone(), r });
                }
            }
            92..=95 if trouble => {
                let node = b.g.range(1, n.into()) as u32;
                let len = *b.g.pick(&[2_000, 300_000, 2_000_000]);
                b.step(wait, Act::Stall { node, on: true });
                let how = b.g.pick(HOWS).to_string();
                let w2 = b.g.below(len);
                b.step(w2, Act::FsEdit { node: at, file, r, how });
                b.step(len, Act::Stall { node, on: false });
            }
            _ => b.step(wait, Act::Special { what: "look".into(), node: 0, r: 0, text: String::new() }),
        }
    }
    b.plan
}

/// Daemons are switched off, files change on all sides, they meet again.
pub fn p06(seed: u64) -> Plan {
    let mut b = Builder::new("P06", seed);
    b.plan.scenario = "off and on".into();
    let n = b.g.range(2, 3);
    let mut files = b.nodes(n, 4);
    let n = n as u32;
    b.start_all();
    let mut fresh = 0;
    let special = |what: &str| Act::Special { what: what.into(), node: 0, r: 0, text: String::new() };
    for _ in 0..b.g.range(1, 3) {
        // Some work together.
        if b.g.chance(500) {
            b.step(0, Act::Connect { ed: 9, node: 1 });
            let f = b.g.pick(&files).clone();
            b.step(0, Act::Open { ed: 9, file: f.clone() });
            b.step(0, Act::Settle { ms: 0 });
            for _ in 0..b.g.range(1, 3) {
                let r = b.g.next();
                b.step(1000, Act::Edit { ed: 9, file: f.clone(), r });
            }
            if b.g.chance(700) {
                b.step(0, special("meet"));
            }
        }
        let mut off: Vec<u32> = vec![];
        for k in 1..=n {
            if b.g.chance(500) || (k == n && off.is_empty()) {
                off.push(k);
            }
        }
        for k in &off {
            let silent = b.g.chance(200);
            let p = b.pause();
            b.step(p, Act::Kill { node: *k, silent });
        }
        for ed in 1..=n {
            if !off.contains(&ed) && b.g.chance(600) {
                b.step(0, Act::Connect { ed, node: ed });
                for f in files.clone() {
                    if b.g.chance(400) {
                        b.step(0, Act::Open { ed, file: f });
                    }
                }
                b.step(0, Act::Settle { ms: 0 });
            }
        }
        for _ in 0..b.g.range(0, 9) {
            let wait = b.pause();
            let file = b.g.pick(&files).clone();
            let node = b.g.range(1, n.into()) as u32;
            let r = b.g.next();
            match b.g.below(100) {
                0..=34 => {
                    let how = b.g.pick(HOWS).to_string();
                    b.step(wait, Act::FsEdit { node, file, r, how });
                }
                35..=59 => b.step(wait, Act::Edit { ed: node, file, r }),
                60..=71 => {
                    fresh += 1;
                    let f = if b.g.chance(500) { format!("n{fresh}") } else { format!("{}/n{fresh}", b.g.pick(DIRS)) };
                    files.push(f.clone());
                    let text = b.text(20);
                    b.step(wait, Act::FsWrite { node, file: f, text, how: "plain".into() });
                }
                72..=81 => b.step(wait, Act::FsRemove { node, file }),
                82..=89 => {
                    fresh += 1;
                    let to = format!("r{fresh}");
                    files.push(to.clone());
                    b.step(wait, Act::FsRename { node, from: file, to });
                }
                90..=92 => {
                    let path = b.g.pick(DIRS).to_string();
                    b.step(wait, Act::FsMoveOut { node, path });
                }
                93..=95 => b.step(wait, Act::FsTouch { node, file }),
                _ => {
                    // On and off again without anybody else around.
                    let k = *b.g.pick(&off);
                    b.step(wait, Act::Start { node: k });
                    b.step(0, Act::Settle { ms: 1000 });
                    b.step(0, Act::Kill { node: k, silent: false });
                }
            }
        }
        let mut order = off.clone();
        if b.g.chance(500) {
            order.reverse();
        }
        for k in order {
            let p = b.pause();
            b.step(p, Act::Start { node: k });
        }
        b.step(0, special("meet"));
    }
    b.plan
}

pub fn p08(seed: u64) -> Plan {
    let mut b = Builder::new("P08", seed);
    b.plan.scenario = "deletions".into();
    let m = Mix {
        nodes: (2, 3),
        actions: (6, 40),
        edit: 12,
        open: 8,
        close: 6,
        fs_edit: 6,
        fs_create: 5,
        fs_again: 5,
        fs_remove: 20,
        fs_rename: 4,
        disconnect: 2,
        cut: 2,
        reset: 2,
        stall: 3,
        restart: 4,
        settle: 4,
        clock: 1,
        look: 2,
        ..Mix::zero()
    };
    collab(&mut b, &m);
    b.plan
}

/// A daemon dies again and again, at any file operation, by a full or failing disk, or by a kill.
pub fn p07(seed: u64) -> Plan {
    let mut b = Builder::new("P07", seed);
    b.plan.scenario = "crashes".into();
    let n = b.g.range(2, 3);
    let mut files = b.nodes(n, 3);
    let n = n as u32;
    let v = b.g.range(1, n.into()) as u32;
    let special = |what: &str| Act::Special { what: what.into(), node: 0, r: 0, text: String::new() };
    let mut fresh = 0;
    let fault = |b: &mut Builder, early: bool| {
        let nth = if b.g.chance(500) { b.g.below(12) } else { b.g.below(if early { 60 } else { 120 }) };
        let path = b.g.pick(&["", "", "", "/.ethersync/", "/.ethersync/doc", "/.ethersync/key"]).to_string();
        let kind = b.g.pick(&["crash", "crash", "crash", "crash", "errno", "torn", "short"]).to_string();
        let errno = *b.g.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT]);
        let arg = *b.g.pick(&[0, 1, 300, 500, 999]);
        Act::FsFault { node: v, nth, path, kind, arg, errno }
    };
    if b.g.chance(250) {
        let f = fault(&mut b, true);
        b.step(0, f);
        for i in 1..=n {
            b.step(300_000, Act::Start { node: i });
        }
        for _ in 0..b.g.below(3) {
            let p = b.pause();
            b.step(p, Act::Kill { node: v, silent: false });
            b.step(0, Act::Start { node: v });
        }
        b.step(1_500_000, special("meet"));
    } else {
        b.start_all();
    }
    for _ in 0..b.g.range(1, 3) {
        for ed in 1..=n {
            if b.g.chance(500) {
                b.step(0, Act::Connect { ed, node: ed });
                for f in files.clone() {
                    if b.g.chance(500) {
                        b.step(0, Act::Open { ed, file: f });
                    }
                }
            }
        }
        b.step(0, Act::Settle { ms: 0 });
        if b.g.chance(700) {
            let f = fault(&mut b, false);
            b.step(0, f);
        } else if b.g.chance(200) {
            b.step(0, Act::DiskFull { node: v, on: true });
        }
        let mut off = false;
        for _ in 0..b.g.range(2, 18) {
            let wait = b.pause();
            let file = b.g.pick(&files).clone();
            let node = b.g.range(1, n.into()) as u32;
            let r = b.g.next();
            match b.g.below(100) {
                0..=39 => b.step(wait, Act::Edit { ed: node, file, r }),
                40..=59 => {
                    let how = b.g.pick(&["plain", "append", "rename", "outside"]).to_string();
                    b.step(wait, Act::FsEdit { node, file, r, how });
                }
                60..=71 => {
                    fresh += 1;
                    let f = if b.g.chance(500) { format!("n{fresh}") } else { format!("{}/n{fresh}", b.g.pick(DIRS)) };
                    files.push(f.clone());
                    let text = b.text(20);
                    b.step(wait, Act::FsWrite { node, file: f, text, how: "plain".into() });
                }
                72..=79 => b.step(wait, Act::FsRemove { node, file }),
                80..=84 => {
                    fresh += 1;
                    let to = format!("r{fresh}");
                    files.push(to.clone());
                    b.step(wait, Act::FsRename { node, from: file, to });
                }
                85..=89 => b.step(wait, Act::Close { ed: node, file }),
                90..=94 if !off => {
                    off = true;
                    let silent = b.g.chance(300);
                    b.step(wait, Act::Kill { node: v, silent });
                }
                _ => {
                    off = false;
                    if b.g.chance(300) {
                        let f = fault(&mut b, true);
                        b.step(wait, f);
                    }
                    b.step(wait, Act::Start { node: v });
                    if b.g.chance(500) {
                        let p = b.pause();
                        b.step(p, special("reconnect"));
                    }
                }
            }
        }
        if b.g.chance(600) {
            let silent = b.g.chance(300);
            let p = b.pause();
            b.step(p, Act::Kill { node: v, silent });
            if b.g.chance(400) {
                let f = fault(&mut b, true);
                b.step(0, f);
                b.step(0, Act::Start { node: v });
                let p = b.pause();
                b.step(p, Act::Kill { node: v, silent: false });
            }
        }
        b.step(0, special("recover"));
    }
    b.plan
}

/// Good and bad requests from several editors at once.
pub fn p12(seed: u64) -> Plan {
    let mut b = Builder::new("P12", seed);
    b.plan.scenario = "requests".into();
    let m = Mix {
        nodes: (1, 2),
        actions: (8, 40),
        edit: 30,
        open: 8,
        close: 6,
        cursor: 6,
        fs_edit: 2,
        stall: 1,
        ed_stall: 2,
        settle: 2,
        disconnect: 1,
        ..Mix::zero()
    };
    collab(&mut b, &m);
    let p = crate::world::PROJECT;
    let first = b.plan.nodes[0].files[0].0.clone();
    for n in &mut b.plan.nodes {
        n.files.push((".git/HEAD".into(), "0".into()));
        n.files.push((".gitignore".into(), "*.log\n/out/\n".into()));
        n.files.push(("1.log".into(), "0".into()));
        n.files.push(("out/1".into(), "0".into()));
        n.files.push(("bin".into(), "latin1:0\u{ff}\u{0}\u{c3}".into()));
    }
    let start = b.plan.steps.iter().position(|s| matches!(s.act, Act::Connect { .. })).unwrap_or(0) + 1;
    let eds: Vec<u32> = b.plan.steps.iter().filter_map(|s| if let Act::Connect { ed, .. } = s.act { Some(ed) } else { None }).collect();
    let files: Vec<String> = b.plan.steps.iter().filter_map(|s| if let Act::Edit { file, .. } = &s.act { Some(file.clone()) } else { None }).collect();
    for _ in 0..b.g.range(3, 25) {
        let ed = *b.g.pick(&eds);
        let r = b.g.next();
        let act = if b.g.chance(450) && !files.is_empty() {
            let kind = b.g.pick(&["future", "old", "old", "line", "character", "end", "several", "not open", "quiet", "quiet", "quiet"]).to_string();
            Act::Bad { ed, file: b.g.pick(&files).clone(), r, kind }
        } else {
            let open = |uri: String| (format!(r#"{{"jsonrpc":"2.0","id":$ID,"method":"open","params":{{"uri":"{uri}"}}}}"#), "error");
            let method = |m: &str, params: &str| (format!(r#"{{"jsonrpc":"2.0","id":$ID,"method":"{m}","params":{params}}}"#), "error");
            let u = format!("file://{p}/{first}");
            let all: Vec<(String, &str)> = vec![
                (String::new(), "null-error"),
                ("{".into(), "null-error"),
                ("nonsense".into(), "null-error"),
                ("[]".into(), "null-error"),
                ("[1,2]".into(), "null-error"),
                ("42".into(), "null-error"),
                ("null".into(), "null-error"),
                ("\"open\"".into(), "null-error"),
                ("{}".into(), "null-error"),
                (r#"{"jsonrpc":"2.0","id":1,"method":"open","params":{"uri":"fi"#.into(), "null-error"),
                ("latin1:\u{ff}\u{fe}".into(), "null-error"),
                ("latin1:{\"jsonrpc\":\"2.0\",\"id\":7,\"method\":\"close\",\"params\":{\"uri\":\"\u{c3}\"}}".into(), "null-error"),
                ("[".repeat(300), "null-error"),
                (format!(r#"{{"jsonrpc":"2.0","id":"x","method":"open","params":{{"uri":"{u}"}}}}"#), "null-error"),
                (format!(r#"{{"jsonrpc":"2.0","id":-1,"method":"close","params":{{"uri":"{u}"}}}}"#), "null-error"),
                (format!(r#"{{"jsonrpc":"2.0","id":1.5,"method":"close","params":{{"uri":"{u}"}}}}"#), "null-error"),
                method("nope", "{}"),
                method("Open", &format!(r#"{{"uri":"{u}"}}"#)),
                method("open", "{}"),
                method("open", r#"{"uri":5}"#),
                method("open", "[]"),
                method("close", "null"),
                method("edit", &format!(r#"{{"uri":"{u}"}}"#)),
                method("edit", &format!(r#"{{"uri":"{u}","revision":-1,"delta":[]}}"#)),
                method("edit", &format!(r#"{{"uri":"{u}","revision":0.5,"delta":[]}}"#)),
                method("edit", &format!(r#"{{"uri":"{u}","revision":0,"delta":[{{}}]}}"#)),
                method("edit", &format!(r#"{{"uri":"{u}","revision":0,"delta":"x"}}"#)),
                method("edit", &format!(r#"{{"uri":"{u}","revision":0,"delta":[{{"range":{{"start":{{"line":-1,"character":0}},"end":{{"line":0,"character":0}}}},"replacement":""}}]}}"#)),
                method("cursor", &format!(r#"{{"uri":"{u}","ranges":5}}"#)),
                method("cursor", r#"{"uri":"file:///elsewhere/x","ranges":[]}"#),
                method("close", r#"{"uri":"file:///elsewhere/x"}"#),
                method("edit", r#"{"uri":"file:///elsewhere/x","revision":0,"delta":[]}"#),
                (r#"{"jsonrpc":"2.0","id":$ID}"#.into(), "error"),
                (r#"{"jsonrpc":"2.0","id":$ID,"method":5,"params":{}}"#.into(), "error"),
                open("file:///home/u/other/x".into()),
                open("file:///nowhere/at/all".into()),
                open("file:///".into()),
                open("file://".into()),
                open(String::new()),
                open("http://example.org/x".into()),
                open(format!("{p}/{first}")),
                open(format!("file://{p}")),
                open(format!("file://{p}/")),
                open(format!("file://{p}/.")),
                open(format!("file://{p}/../x")),
                open(format!("file://{p}/../../../x")),
                open(format!("file://{p}2/x")),
                open(format!("file://{p}/{first}/below")),
                open(format!("file://{p}/missing/x")),
                open(format!("file://{p}/missing/sub/../x")),
                open(format!("file://{p}/out")),
                open(format!("file://{p}/.git/HEAD")),
                open(format!("file://{p}/.git/new")),
                open(format!("file://{p}/.ethersync/key")),
                open(format!("file://{p}/.ethersync/new")),
                open(format!("file://{p}/1.log")),
                open(format!("file://{p}/2.log")),
                open(format!("file://{p}/out/1")),
                open(format!("file://{p}/out/2")),
                open(format!("file://{p}/3~")),
                (r#"{"jsonrpc":"2.0","method":"edit","params":{"uri":"file:///elsewhere/x","revision":0,"delta":[]}}"#.into(), "none"),
                (format!(r#"{{"jsonrpc":"2.0","method":"open","params":{{"uri":"file://{p}/1.log"}}}}"#), "none"),
                (format!(r#"{{"jsonrpc":"2.0","method":"cursor","params":{{"uri":"{u}","ranges":[]}}}}"#), "none"),
                (format!(r#"{{"jsonrpc":"2.0","id":$ID,"method":"close","params":{{"uri":"file://{p}/1.log"}}}}"#), "any"),
            ];
            let (line, expect) = b.g.pick(&all).clone();
            if b.g.chance(300) {
                // A file that can't be opened, and the editor going on as if it could.
                let f = *b.g.pick(&["1.log", "2.log", "out/1", "out/2", ".git/HEAD", ".git/new", ".ethersync/key", "3~", "bin", "out", "missing/x"]);
                let u = format!("file://{p}/{f}");
                let mut list = vec![open(u.clone())];
                for _ in 0..b.g.range(1, 3) {
                    list.push(match b.g.below(3) {
                        0 => open(u.clone()),
                        _ => method("edit", &format!(r#"{{"uri":"{u}","revision":0,"delta":[{{"range":{{"start":{{"line":0,"character":0}},"end":{{"line":0,"character":0}}}},"replacement":"1"}}]}}"#)),
                    });
                }
                let at = b.g.range(start as u64, b.plan.steps.len() as u64) as usize;
                for (line, expect) in list.into_iter().rev() {
                    let wait = b.pause();
                    b.plan.steps.insert(at, Step { wait, act: Act::Raw { ed, line, expect: expect.into() } });
                }
                continue;
            }
            Act::Raw { ed, line, expect: expect.into() }
        };
        let at = b.g.range(start as u64, b.plan.steps.len() as u64) as usize;
        let wait = b.pause();
        b.plan.steps.insert(at, Step { wait, act });
    }
    b.plan
}

/// Editors and peers that stop reading, vanish or never finish connecting, while others work.
pub fn p13(seed: u64) -> Plan {
    let mut b = Builder::new("P13", seed);
    let big = b.g.chance(30);
    let n = if big { 2 } else { b.g.range(1, 4) };
    let files = b.nodes(n, 3);
    let n = n as u32;
    let special = |what: &str| Act::Special { what: what.into(), node: 0, r: 0, text: String::new() };
    b.plan.world.unix_cap = *b.g.pick(&[512, 512, 4096, 64 * 1024]);
    b.plan.scenario = if big { "much to tell".into() } else { "stalls".into() };
    if big {
        let w = &mut b.plan.world;
        w.short_read = 0;
        w.short_write = 0;
        w.latency_max_us = *b.g.pick(&[5_000, 200_000, 400_000]);
        w.tcp_cap = 1 << 20;
    } else if b.g.chance(300) {
        b.plan.world.tcp_cap = *b.g.pick(&[256, 1024, 4096]);
    }
    // Some join later.
    let late: Vec<u32> = (2..=n).filter(|_| b.g.chance(300)).collect();
    for i in 1..=n {
        if !late.contains(&i) || big {
            b.step(if i == 1 { 0 } else { 300_000 }, Act::Start { node: i });
        }
    }
    b.step(0, Act::Settle { ms: 2000 });
    let editors: Vec<(u32, u32)> =
        (0..b.g.range(2, u64::from(n) + 2)).map(|i| (i as u32 + 1, if i < u64::from(n) { i as u32 + 1 } else { b.g.range(1, n.into()) as u32 })).collect();
    for (e, nd) in &editors {
        if late.contains(nd) {
            continue;
        }
        b.step(0, Act::Connect { ed: *e, node: *nd });
        for f in &files {
            if b.g.chance(800) {
                b.step(0, Act::Open { ed: *e, file: f.clone() });
            }
        }
    }
    b.step(0, Act::Settle { ms: 0 });
    let work = |b: &mut Builder, k: u64| {
        for _ in 0..k {
            let (e, _) = *b.g.pick(&editors);
            let f = b.g.pick(&files).clone();
            let r = b.g.next();
            let w = if b.g.chance(600) { b.g.below(3000) } else { b.pause() };
            match b.g.below(20) {
                0 => b.step(w, Act::Cursor { ed: e, file: f, r }),
                1 => b.step(w, Act::Close { ed: e, file: f }),
                2..=3 => b.step(w, Act::Open { ed: e, file: f }),
                _ => b.step(w, Act::Edit { ed: e, file: f, r }),
            }
        }
    };
    if big {
        // Both sides have more to send than fits into the queues and buffers between them.
        b.step(0, Act::Start { node: 2 });
        b.step(0, Act::Settle { ms: 2000 });
        let cut = b.g.chance(300);
        if cut {
            b.step(0, Act::Cut { a: 1, b: 2, on: true });
        }
        for k in 0..b.g.range(150, 250) {
            for node in 1..=2 {
                let r = b.g.next();
                let w = b.g.below(1000);
                b.step(w, Act::Special { what: "big".into(), node, r, text: format!("big{node}-{k}") });
            }
        }
        if cut {
            b.step(1_000_000, Act::Cut { a: 1, b: 2, on: false });
        }
        work(&mut b, 5);
        b.step(0, special("others"));
        return b.plan;
    }
    for _ in 0..b.g.range(1, 5) {
        let few = b.g.below(8);
        work(&mut b, few);
        let (ed, ed_node) = *b.g.pick(&editors);
        let node = b.g.range(1, n.into()) as u32;
        let w = b.pause();
        let mut undo: Option<Act> = None;
        match b.g.below(100) {
            0..=29 => {
                b.step(w, Act::EdStall { ed, on: true });
                undo = Some(Act::EdStall { ed, on: false });
            }
            30..=44 => {
                b.step(w, Act::Stall { node, on: true });
                undo = Some(Act::Stall { node, on: false });
            }
            45..=59 => {
                let silent = b.g.chance(600);
                b.step(w, Act::Kill { node, silent });
                undo = Some(Act::Start { node });
            }
            60..=69 => {
                b.step(w, Act::Disconnect { ed });
                undo = Some(Act::Connect { ed, node: ed_node });
            }
            70..=79 if !late.is_empty() => {
                // Somebody comes, and maybe goes right away.
                let node = *b.g.pick(&late);
                b.step(w, Act::Start { node });
                if b.g.chance(600) {
                    let p = b.pause();
                    let silent = b.g.chance(500);
                    b.step(p, Act::Kill { node, silent });
                    undo = Some(Act::Start { node });
                }
            }
            80..=89 => {
                for _ in 0..b.g.range(1, 3) {
                    let r = b.g.next();
                    let text = b.g.pick(&["stay", "close", "reset", "close"]).to_string();
                    let node = b.g.range(1, n.into()) as u32;
                    b.step(w, Act::Special { what: "stranger".into(), node, r, text });
                }
            }
            _ => {
                let other = b.g.range(1, n.into()) as u32;
                if other != node {
                    b.step(w, Act::Cut { a: node, b: other, on: true });
                    undo = Some(Act::Cut { a: node, b: other, on: false });
                }
            }
        }
        let much = b.g.below(40);
        work(&mut b, much);
        if b.g.chance(800) {
            b.step(0, special("others"));
        }
        if let Some(u) = undo {
            let p = b.pause();
            b.step(p, u);
            if b.g.chance(500) {
                b.step(0, Act::Connect { ed, node: ed_node });
                for f in &files {
                    b.step(0, Act::Open { ed, file: f.clone() });
                }
            }
        }
    }
    b.plan
}

/// Cursors move while files are edited, editors come and go.
pub fn p14(seed: u64) -> Plan {
    let mut b = Builder::new("P14", seed);
    b.plan.scenario = "cursors".into();
    let m = Mix {
        nodes: (1, 3),
        actions: (10, 60),
        edit: 15,
        open: 10,
        close: 3,
        cursor: 45,
        fs_edit: 2,
        cut: 3,
        stall: 3,
        ed_stall: 2,
        settle: 2,
        disconnect: 4,
        clock: 1,
        look: 4,
        ..Mix::zero()
    };
    collab(&mut b, &m);
    if b.g.chance(400) {
        // Quickly one after the other, and the last thing before an editor leaves.
        let files: Vec<String> = b.plan.nodes[0].files.iter().map(|f| f.0.clone()).collect();
        for _ in 0..b.g.range(2, 20) {
            let ed = b.g.range(1, 3) as u32;
            let file = b.g.pick(&files).clone();
            let r = b.g.next();
            let w = b.g.below(2000);
            b.step(w, Act::Cursor { ed, file, r });
        }
        if b.g.chance(500) {
            b.step(0, Act::Disconnect { ed: 1 });
        }
    }
    b.plan
}
