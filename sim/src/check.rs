//! Command line: search, minimise, replay, evidence.
use crate::plan::{Plan, World};
use crate::run::{self, Outcome};
use crate::{plan, props};
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};
use simcore::rng::mix;
use std::collections::{BTreeMap, BTreeSet};
use std::time::{Duration, Instant};

const PAR: usize = 8;

#[derive(Serialize, Deserialize)]
struct Replay {
    property: String,
    kind: String,
    violation: String,
    hash: String,
    plan: Plan,
    history: Vec<String>,
}

fn opt(args: &[String], name: &str) -> Option<String> {
    args.iter().position(|a| a == name).and_then(|i| args.get(i + 1)).cloned()
}

fn num(args: &[String], name: &str, default: u64) -> u64 {
    opt(args, name).map_or(default, |v| v.parse().expect("number expected"))
}

pub fn seed_of(base: u64, i: u64) -> u64 {
    mix(base, i) >> 1
}

pub fn cli(args: &[String]) -> i32 {
    match args.first().map(String::as_str) {
        Some("check") => check(&args[1..]),
        Some("replay") => replay(&args[1]),
        Some("run") => run_one(&args[1..]),
        Some("determinism") => determinism(&args[1..]),
        Some("minimise") => {
            let text = std::fs::read_to_string(&args[1]).unwrap();
            let r: Replay = serde_json::from_str(&text).unwrap();
            let (p, o) = minimise(&r.plan, &r.kind, Duration::from_secs(120));
            print_run(&p, &o);
            1
        }
        _ => {
            eprintln!("usage: ethersim check|replay|run|determinism …");
            2
        }
    }
}

fn print_run(p: &Plan, o: &Outcome) {
    for l in &o.log {
        println!("{l}");
    }
    for l in &o.hist {
        println!("{l}");
    }
    println!("world {}", serde_json::to_string(&p.world).unwrap());
    println!(
        "hash {:016x} shape {:016x} steps {} events {} simulated {:.1} s, wall {} ms",
        o.hash, o.shape, o.steps, o.events, o.sim_ns as f64 / 1e9, o.wall_ns / 1_000_000
    );
    println!("counters {:?}\nprobes {:?}", o.counters, o.probes);
    if let Some(b) = &o.broken {
        println!("BROKEN {b}");
    }
    for (k, t) in &o.violations {
        println!("violation [{k}] {t}");
    }
}

fn run_one(args: &[String]) -> i32 {
    let prop = opt(args, "--property").expect("--property");
    let seed = num(args, "--seed", 1);
    let p = match opt(args, "--index") {
        Some(i) => props::generate(&prop, seed_of(seed, i.parse().unwrap())),
        None => props::generate(&prop, seed),
    };
    if args.iter().any(|a| a == "--plan") {
        println!("{}", serde_json::to_string_pretty(&p).unwrap());
    }
    let mut p = p;
    let mut o = run::one(&p, true, args.iter().any(|a| a == "--log"));
    if let (true, Some(kind)) = (args.iter().any(|a| a == "--minimise"), o.kind().map(str::to_string)) {
        p = minimise(&p, &kind, Duration::from_secs(60)).0;
        o = run::one(&p, true, args.iter().any(|a| a == "--log"));
    }
    print_run(&p, &o);
    i32::from(!o.violations.is_empty())
}

fn replay(path: &str) -> i32 {
    let text = std::fs::read_to_string(path).expect("cannot read the replay file");
    let r: Replay = serde_json::from_str(&text).expect("not a replay file");
    let o = run::one(&r.plan, true, false);
    print_run(&r.plan, &o);
    if o.kind() == Some(r.kind.as_str()) && format!("{:016x}", o.hash) == r.hash {
        println!("reproduced exactly");
        println!("VIOLATION property={} replay={path}", r.property);
        1
    } else if !o.violations.is_empty() {
        println!("a violation, but not the recorded execution (the code differs)");
        println!("VIOLATION property={} replay={path}", r.property);
        1
    } else {
        println!("no violation");
        0
    }
}

/// Same plans twice, in different processes with different parallelism: hashes must agree.
fn determinism(args: &[String]) -> i32 {
    let n = num(args, "--runs", 200);
    let base = num(args, "--seed", 1);
    let mut bad = 0;
    for prop in opt(args, "--property").map_or(props::ALL.to_vec().iter().map(|s| s.to_string()).collect(), |p| vec![p]) {
        let plans: Vec<Plan> = (0..n).map(|i| props::generate(&prop, seed_of(base, i))).collect();
        let a = run::many(&plans, PAR);
        let b = run::many(&plans, 3);
        for i in 0..plans.len() {
            if a[i].hash != b[i].hash || a[i].violations != b[i].violations {
                bad += 1;
                println!("{prop} run {i} differs: {:x} {:x}", a[i].hash, b[i].hash);
            }
        }
        println!("{prop}: {n} plans run twice, {} distinct hashes", a.iter().map(|o| o.hash).collect::<BTreeSet<_>>().len());
    }
    i32::from(bad > 0)
}

/// Smaller plan with the same kind of violation.
fn minimise(p: &Plan, kind: &str, budget: Duration) -> (Plan, Outcome) {
    let t0 = Instant::now();
    let fails = |o: &Outcome| o.violations.iter().any(|v| v.0 == kind) && o.kind() == Some(kind);
    let mut best = p.clone();
    let mut k = best.steps.len().div_ceil(2).max(1);
    while t0.elapsed() < budget {
        let n = best.steps.len();
        let mut cands = vec![];
        let mut i = 0;
        while i < n {
            let mut c = best.clone();
            let end = (i + k).min(n);
            // The time of the removed steps passes all the same for the first candidates.
            c.steps.drain(i..end);
            cands.push(c);
            i += k;
        }
        let mut hit = None;
        run::pool(
            PAR,
            false,
            false,
            |i| cands.get(i).cloned(),
            |i, o| {
                if fails(&o) && hit.is_none_or(|h| i < h) {
                    hit = Some(i);
                    return false;
                }
                true
            },
        );
        if let Some(i) = hit {
            best = cands.swap_remove(i);
            k = k.min(best.steps.len().max(1));
        } else if k == 1 {
            break;
        } else {
            k = k.div_ceil(2);
        }
    }
    // Calmer world, shorter pauses.
    let calm = World::calm();
    let mut cands = vec![];
    {
        let mut c = best.clone();
        c.world = calm.clone();
        cands.push(c);
        macro_rules! knob {
            ($($f:ident),*) => {$(
                let mut c = best.clone();
                if c.world.$f != calm.$f { c.world.$f = calm.$f.clone(); cands.push(c); }
            )*};
        }
        knob!(latency_max_us, unix_latency_max_us, watch_delay_max_us, tcp_cap, unix_cap, short_read, short_write, spike_chance, sched_policy);
    }
    for c in cands {
        if t0.elapsed() > budget {
            break;
        }
        let mut d = best.clone();
        // Apply the same reduction on top of what has been reached.
        let (a, b0) = (&c.world, &p.world);
        macro_rules! merge {
            ($($f:ident),*) => {$( if a.$f != b0.$f { d.world.$f = a.$f.clone(); } )*};
        }
        merge!(latency_max_us, unix_latency_max_us, watch_delay_max_us, tcp_cap, unix_cap, short_read, short_write, spike_chance, sched_policy);
        if d != best && fails(&run::one(&d, false, false)) {
            best = d;
        }
    }
    let o = run::one(&best, true, false);
    (best, o)
}

fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

#[derive(Deserialize)]
struct Known {
    property: String,
    what: String,
    kind: String,
    plan: Plan,
}

fn known_findings(prop: &str) -> Vec<Known> {
    let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.json", verif_dir())) else { return vec![] };
    let v: Value = serde_json::from_str(&t).expect("known_findings.json is not valid");
    v["findings"]
        .as_array()
        .map(|a| a.iter().map(|x| serde_json::from_value::<Known>(x.clone()).expect("finding")).collect::<Vec<_>>())
        .unwrap_or_default()
        .into_iter()
        .filter(|k| k.property == prop)
        .collect()
}

fn check(args: &[String]) -> i32 {
    let t0 = Instant::now();
    let prop = opt(args, "--property").expect("--property");
    let tier = opt(args, "--tier").unwrap_or_else(|| "quick".into());
    let base = num(args, "--seed", 1);
    let (def_runs, def_secs) = props::budget(&prop, &tier);
    let runs = num(args, "--runs", def_runs);
    let secs = num(args, "--seconds", def_secs);
    let deadline = Duration::from_secs(secs);

    let mut known_seen = 0;
    for k in known_findings(&prop) {
        let o = run::one(&k.plan, false, false);
        if o.violations.iter().any(|v| v.0 == k.kind) {
            println!("KNOWN-FINDING: property={prop} {}", k.what);
            known_seen += 1;
        }
    }

    let mut total = Totals::default();
    let mut failure: Option<(u64, Outcome)> = None;
    let mut broken: Vec<(u64, String)> = vec![];
    let keep_going = args.iter().any(|a| a == "--keep-going");
    let mut kinds: BTreeMap<String, Vec<u64>> = BTreeMap::new();
    run::pool(
        PAR,
        false,
        false,
        |i| {
            if i as u64 >= runs || t0.elapsed() > deadline {
                return None;
            }
            Some(props::generate(&prop, seed_of(base, i as u64)))
        },
        |i, o| {
            if let Some(b) = &o.broken {
                broken.push((i as u64, b.clone()));
                return broken.len() < 20;
            }
            total.add(i as u64, &o);
            if let Some(k) = o.kind() {
                kinds.entry(k.to_string()).or_default().push(i as u64);
                if failure.as_ref().is_none_or(|f| (i as u64) < f.0) {
                    failure = Some((i as u64, o));
                }
                return keep_going;
            }
            true
        },
    );
    let search_wall = t0.elapsed();
    // A sample of runs again: the same seed must give the same execution.
    let again: Vec<u64> = total.hashes.keys().copied().take(16).collect();
    let plans: Vec<Plan> = again.iter().map(|i| props::generate(&prop, seed_of(base, *i))).collect();
    let repeat = run::many(&plans, 5);
    let diverged = again.iter().zip(&repeat).filter(|(i, o)| total.hashes[i] != o.hash).count();

    let mut code = 0;
    let mut replay_path = String::new();
    let mut min_info = json!(null);
    if keep_going {
        for (k, v) in &kinds {
            println!("{k}: {} runs, first {:?}", v.len(), &v[..v.len().min(8)]);
        }
    }
    if let Some((i, o)) = &failure {
        let seed = seed_of(base, *i);
        let p = props::generate(&prop, seed);
        let kind = o.kind().unwrap().to_string();
        println!("run {i} (seed {seed}): [{kind}] {}", o.violations[0].1);
        let (mp, mo) = if args.iter().any(|a| a == "--no-minimise") {
            (p.clone(), run::one(&p, true, false))
        } else {
            minimise(&p, &kind, Duration::from_secs(num(args, "--minimise-seconds", 90)))
        };
        let dir = format!("{}/replays", verif_dir());
        let _ = std::fs::create_dir_all(&dir);
        replay_path = format!("{dir}/{prop}-{seed}.json");
        let first = mo.violations.first().cloned().unwrap_or_default();
        let r = Replay {
            property: prop.clone(),
            kind: kind.clone(),
            violation: first.1.clone(),
            hash: format!("{:016x}", mo.hash),
            plan: mp.clone(),
            history: mo.hist.clone(),
        };
        std::fs::write(&replay_path, serde_json::to_string_pretty(&r).unwrap()).unwrap();
        min_info = json!({"steps_before": p.steps.len(), "steps_after": mp.steps.len(), "kind": kind});
        println!("minimised from {} to {} steps:", p.steps.len(), mp.steps.len());
        for l in &mo.hist {
            println!("  {l}");
        }
        println!("  [{}] {}", first.0, first.1);
        println!("VIOLATION property={prop} replay={replay_path}");
        code = 1;
    } else if !broken.is_empty() && (broken.len() > 3 || total.n == 0) {
        println!("{} runs ended without a result, e.g. run {}: {}", broken.len(), broken[0].0, broken[0].1);
        code = 2;
    }
    let ev = json!({
        "property": prop,
        "tier": tier,
        "seed": base,
        "level": "exploration",
        "coverage": {
            "evaluations": total.n,
            "distinct_nontrivial": total.shapes.len(),
            "rule": "one evaluation is one complete simulated execution judged by the property's oracle; two executions count as distinct when their sequences of observable events (who did or received what, in which order, times and contents left out) differ; executions without any event after start-up do not count",
            "samples": total.samples,
            "distinct_executions": total.hashes.values().collect::<BTreeSet<_>>().len(),
            "simulated_seconds": total.sim_ns / 1_000_000_000,
            "scheduling_decisions": total.steps,
            "runs_per_hour": (total.n as f64 / search_wall.as_secs_f64().max(0.001) * 3600.0) as u64,
            "faults_injected": total.counters,
            "rare_conditions_reached": total.probes,
            "repeated_runs": again.len(),
            "repeated_runs_that_differed": diverged,
            "runs_without_result": broken.len(),
            "scenarios": total.scenarios,
            "known_findings_reproduced": known_seen,
            "minimisation": min_info,
            "replay": replay_path,
            "real_components": props::real_components(&prop),
            "stubbed_components": props::stub_components(&prop),
        },
        "assumptions": props::assumptions(&prop),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": i32::from(failure.is_some()),
    });
    let dir = format!("{}/evidence", verif_dir());
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{dir}/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).unwrap();
    println!(
        "{prop}: {} runs, {} distinct, {} simulated s, {:.1} s, {} diverged on repetition, {} broken",
        total.n,
        total.shapes.len(),
        total.sim_ns / 1_000_000_000,
        t0.elapsed().as_secs_f64(),
        diverged,
        broken.len()
    );
    code
}

#[derive(Default)]
struct Totals {
    n: u64,
    steps: u64,
    sim_ns: u64,
    shapes: BTreeSet<u64>,
    hashes: BTreeMap<u64, u64>,
    counters: BTreeMap<String, u64>,
    probes: BTreeMap<String, u64>,
    scenarios: BTreeMap<String, u64>,
    samples: Vec<Value>,
}

impl Totals {
    fn add(&mut self, i: u64, o: &Outcome) {
        self.n += 1;
        self.steps += o.steps;
        self.sim_ns += o.sim_ns;
        self.shapes.insert(o.shape);
        self.hashes.insert(i, o.hash);
        for (k, v) in &o.counters {
            *self.counters.entry(k.clone()).or_insert(0) += v;
        }
        for (k, v) in &o.probes {
            *self.probes.entry(k.clone()).or_insert(0) += v;
        }
        if self.samples.len() < 5 {
            self.samples.push(json!({"run": i, "hash": format!("{:016x}", o.hash), "events": o.events, "simulated_s": o.sim_ns as f64 / 1e9}));
        }
    }
}

#[allow(unused)]
fn unused(_: plan::Step) {}
