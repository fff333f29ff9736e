//! Runs plans: one child process per run, results come back through a pipe.
use crate::plan::Plan;
use crate::world::{self, Violation};
use crate::{interpose, props};
use serde::{Deserialize, Serialize};
use simcore::{raw, sim};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicI32, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct Outcome {
    pub violations: Vec<(String, String)>,
    pub hash: u64,
    pub shape: u64,
    pub steps: u64,
    pub events: u64,
    pub sim_ns: u64,
    pub counters: BTreeMap<String, u64>,
    pub probes: BTreeMap<String, u64>,
    pub hist: Vec<String>,
    pub log: Vec<String>,
    /// The child ended without a result.
    pub broken: Option<String>,
    pub wall_ns: u64,
}

impl Outcome {
    pub fn kind(&self) -> Option<&str> {
        self.violations.first().map(|v| v.0.as_str())
    }
}

pub fn scratch_base() -> String {
    static BASE: std::sync::OnceLock<String> = std::sync::OnceLock::new();
    BASE.get_or_init(|| {
        let pid = std::process::id();
        for d in ["/dev/shm", "/tmp"] {
            let p = format!("{d}/ethersim-{pid}");
            let _ = std::fs::remove_dir_all(&p);
            if std::fs::create_dir_all(&p).is_ok() && std::fs::write(format!("{p}/probe"), "x").is_ok() {
                return p;
            }
        }
        panic!("no scratch directory");
    })
    .clone()
}

pub fn remove_scratch() {
    let _ = std::fs::remove_dir_all(scratch_base());
}

static OUT_FD: AtomicI32 = AtomicI32::new(-1);
static mut WALL0: u64 = 0;

fn finish_child(extra: Option<Violation>) -> ! {
    let s = sim();
    let ws = world::w();
    let _g = simcore::enter_proc(0);
    let wall = raw::real_monotonic_ns() - unsafe { WALL0 };
    let mut violations: Vec<(String, String)> =
        ws.violations.iter().map(|v| (v.kind.clone(), v.text.clone())).collect();
    if let Some(v) = extra {
        violations.push((v.kind, v.text));
    }
    let o = Outcome {
        violations,
        hash: s.hash,
        shape: ws.shape,
        steps: s.steps,
        events: s.events,
        sim_ns: s.now,
        counters: s.counters.iter().map(|(k, v)| ((*k).to_string(), *v)).collect(),
        probes: ws.probes.iter().map(|(k, v)| ((*k).to_string(), *v)).collect(),
        hist: std::mem::take(&mut ws.hist),
        log: std::mem::take(&mut s.log),
        broken: None,
        wall_ns: wall,
    };
    simcore::stop();
    let text = serde_json::to_vec(&o).unwrap();
    raw::write_all(OUT_FD.load(Ordering::SeqCst), &text);
    raw::exit_group(0)
}

fn on_stuck(why: &str) -> ! {
    finish_child(Some(Violation {
        kind: format!("stuck: {why}"),
        text: format!("the simulation did not come to an end: {why}"),
    }))
}

fn on_exit(proc: u32, code: i32) -> ! {
    #[cfg(feature = "bridge")]
    if world::w().plan.property == "P15" {
        bridge_over(&format!("exit({code})"));
    }
    // A daemon process called exit: nothing of it runs any more.
    finish_child(Some(Violation { kind: "exit".into(), text: format!("process {proc} called exit({code})") }))
}

/// The program between editor and daemon has ended, and the run with it.
#[cfg(feature = "bridge")]
pub fn bridge_over(why: &str) -> ! {
    crate::bridge::ended(why);
    finish_child(None)
}

fn child(plan: Plan, scratch: String, keep: bool, log: bool) -> ! {
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || {
            unsafe {
                interpose::SCRATCH = scratch.clone();
                interpose::ON_EXIT = Some(on_exit);
                WALL0 = raw::real_monotonic_ns();
            }
            let wd = plan.world.clone();
            let limits = props::limits(&plan);
            simcore::start(
                plan.seed,
                simcore::Knobs {
                    sched_policy: wd.sched_policy,
                    watch_delay_max: wd.watch_delay_max_us * 1000,
                    log,
                    max_steps: limits.0,
                    max_time: limits.1,
                    ..Default::default()
                },
            );
            sim().on_stuck = Some(on_stuck);
            let k = &mut sim().net.knobs;
            k.latency_max = wd.latency_max_us * 1000;
            k.unix_latency_max = wd.unix_latency_max_us * 1000;
            k.tcp_cap = wd.tcp_cap;
            k.unix_cap = wd.unix_cap;
            k.short_read = wd.short_read;
            k.short_read_max = wd.short_read_max;
            k.short_write = wd.short_write;
            k.spike_chance = wd.spike_chance;
            k.spike = wd.spike_us * 1000;
            std::panic::set_hook(Box::new(move |i| {
                let p = simcore::current_proc();
                if p == 0 {
                    raw::write_all(2, format!("harness panic: {i}\n").as_bytes());
                    raw::exit_group(98);
                }
                simcore::proc_panicked(i.to_string());
            }));
            let opts = props::opts(&plan);
            world::install(plan, &scratch, opts, keep);
            if let Some(m) = crate::identity::umask() {
                unsafe { libc::umask(m) };
                if crate::identity::fallback() {
                    std::env::remove_var("XDG_RUNTIME_DIR");
                    std::env::set_var("USER", "u");
                }
            }
            let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
            rt.block_on(async {
                world::prepare_dirs();
                props::run().await;
            });
            finish_child(None);
        })
        .unwrap();
    let _ = h.join();
    raw::exit_group(96)
}

struct Slot {
    pid: i32,
    fd: i32,
    data: Vec<u8>,
    job: usize,
    dir: String,
    since: std::time::Instant,
}

/// Runs jobs in up to `par` children. `next` hands out plans until it returns None; `done` gets
/// the outcome and may stop the whole thing by returning false.
pub fn pool(
    par: usize,
    keep: bool,
    log: bool,
    mut next: impl FnMut(usize) -> Option<Plan>,
    mut done: impl FnMut(usize, Outcome) -> bool,
) {
    let base = scratch_base();
    let mut slots: Vec<Option<Slot>> = (0..par).map(|_| None).collect();
    let mut job = 0;
    let mut exhausted = false;
    let mut stop = false;
    loop {
        for (k, s) in slots.iter_mut().enumerate() {
            if s.is_some() || exhausted || stop {
                continue;
            }
            let Some(plan) = next(job) else {
                exhausted = true;
                break;
            };
            let dir = format!("{base}/s{k}");
            let _ = std::fs::remove_dir_all(&dir);
            std::fs::create_dir_all(&dir).unwrap();
            let mut fds = [0i32; 2];
            unsafe {
                assert_eq!(libc::pipe2(fds.as_mut_ptr(), libc::O_CLOEXEC), 0);
                let pid = libc::fork();
                assert!(pid >= 0, "fork failed");
                if pid == 0 {
                    libc::close(fds[0]);
                    let lim = libc::rlimit { rlim_cur: 60, rlim_max: 62 };
                    libc::setrlimit(libc::RLIMIT_CPU, &lim);
                    let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
                    libc::setrlimit(libc::RLIMIT_CORE, &core);
                    let mem = libc::rlimit { rlim_cur: 6 << 30, rlim_max: 6 << 30 };
                    libc::setrlimit(libc::RLIMIT_AS, &mem);
                    libc::prctl(libc::PR_SET_PDEATHSIG, libc::SIGKILL);
                    OUT_FD.store(fds[1], Ordering::SeqCst);
                    child(plan, dir, keep, log);
                }
                libc::close(fds[1]);
                *s = Some(Slot { pid, fd: fds[0], data: vec![], job, dir, since: std::time::Instant::now() });
            }
            job += 1;
        }
        if slots.iter().all(Option::is_none) {
            return;
        }
        let mut pfds: Vec<libc::pollfd> = slots
            .iter()
            .flatten()
            .map(|s| libc::pollfd { fd: s.fd, events: libc::POLLIN, revents: 0 })
            .collect();
        unsafe {
            libc::poll(pfds.as_mut_ptr(), pfds.len() as u64, 1000);
        }
        for s in slots.iter_mut() {
            let Some(sl) = s else { continue };
            let ready = pfds.iter().any(|p| p.fd == sl.fd && p.revents != 0);
            let late = sl.since.elapsed().as_secs() > 240;
            if late {
                unsafe {
                    libc::kill(sl.pid, libc::SIGKILL);
                }
            }
            if !ready && !late {
                continue;
            }
            let mut buf = [0u8; 65536];
            let n = unsafe { libc::read(sl.fd, buf.as_mut_ptr().cast(), buf.len()) };
            if n > 0 {
                sl.data.extend_from_slice(&buf[..n as usize]);
                continue;
            }
            let mut st = 0i32;
            unsafe {
                libc::close(sl.fd);
                libc::waitpid(sl.pid, &mut st, 0);
            }
            let o = match serde_json::from_slice::<Outcome>(&sl.data) {
                Ok(o) => o,
                Err(_) => {
                    let sig = st & 0x7f;
                    let code = (st >> 8) & 0xff;
                    let mut o = Outcome::default();
                    if sig == libc::SIGXCPU {
                        o.violations.push((
                            "spins".into(),
                            "some code kept a processor busy for a minute without letting anything else run".into(),
                        ));
                    } else {
                        o.broken = Some(format!("child ended without a result: signal {sig}, exit code {code}, late {late}"));
                    }
                    o
                }
            };
            let j = sl.job;
            let dir = sl.dir.clone();
            *s = None;
            let _ = std::fs::remove_dir_all(&dir);
            if !done(j, o) {
                stop = true;
            }
        }
        if stop {
            for s in slots.iter_mut().flatten() {
                unsafe {
                    libc::kill(s.pid, libc::SIGKILL);
                    libc::close(s.fd);
                    let mut st = 0;
                    libc::waitpid(s.pid, &mut st, 0);
                }
            }
            return;
        }
    }
}

pub fn one(plan: &Plan, keep: bool, log: bool) -> Outcome {
    let mut p = Some(plan.clone());
    let mut out = Outcome::default();
    pool(1, keep, log, |_| p.take(), |_, o| {
        out = o;
        true
    });
    out
}

pub fn many(plans: &[Plan], par: usize) -> Vec<Outcome> {
    let mut out: Vec<Outcome> = plans.iter().map(|_| Outcome::default()).collect();
    pool(par, false, false, |i| plans.get(i).cloned(), |i, o| {
        out[i] = o;
        true
    });
    out
}
