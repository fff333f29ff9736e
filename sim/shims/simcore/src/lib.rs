//! Core of the simulator: virtual clock, seeded choices, lockstep threads, simulated
//! processes ("procs") and byte streams. Only the holder of the execution token (the main
//! simulation thread, or the one lockstep thread it handed the token to) touches the state.

pub mod net;
pub mod raw;
pub mod rng;

use rng::Rng;
use std::cell::{Cell, UnsafeCell};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicBool, AtomicU32, Ordering};
use std::task::Waker;

pub type ProcId = u32;

#[derive(Clone, Debug, PartialEq)]
pub enum Status {
    Running,
    /// The process is gone; the text says why.
    Dead(String),
}

#[derive(Clone, Debug, PartialEq)]
pub enum FsFaultKind {
    /// The process dies before the operation; a write is carried out up to `permille` of its length.
    Crash { permille: u32 },
    /// The operation fails with this errno and has no effect.
    Errno(i32),
    /// A write is cut to `permille` of its length (at least one byte) and reports that.
    Short { permille: u32 },
    /// A write is cut to `permille` of its length, the rest fails with this errno.
    Torn { permille: u32, errno: i32 },
}

#[derive(Clone, Debug)]
pub struct FsFault {
    /// Fires at the n-th (0-based) state-changing file operation of the proc that matches.
    pub nth: u64,
    /// Only operations whose virtual path contains this text count.
    pub path: String,
    pub kind: FsFaultKind,
    pub seen: u64,
    pub fired: bool,
}

#[derive(Clone, Debug)]
pub struct FsOp {
    pub at: u64,
    pub proc: ProcId,
    pub op: &'static str,
    pub path: String,
    pub path2: String,
    pub result: i64,
    /// Real path after resolving links, when it lies outside the proc's project.
    pub escaped: Option<String>,
}

pub struct Proc {
    pub node: u32,
    pub status: Status,
    pub panic: Option<String>,
    pub stalled: bool,
    stalled_wakers: Vec<Waker>,
    rng: Rng,
    /// Real directory that is this proc's "/".
    pub root: String,
    /// Virtual path prefixes the proc may touch.
    pub allowed: Vec<String>,
    pub wall_offset_ns: i64,
    pub fs_faults: Vec<FsFault>,
    pub disk_full: bool,
    pub fs_ops: u64,
    pub on_death: Vec<Waker>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum TState {
    Runnable,
    Futex(usize, u64),
    Epoll(i32, u64),
    Sleep(u64),
    Done,
}

struct LThread {
    proc: ProcId,
    state: TState,
    /// Not before this time, once ready (watcher latency).
    ready_at: u64,
    timed_out: bool,
    sem: Box<AtomicU32>,
    pthread: u64,
}

#[derive(Clone, Debug)]
pub struct Knobs {
    /// 0 uniform, 1 mostly first-in-first-out, 2 mostly last-in-first-out, 3 mostly same index
    pub sched_policy: u32,
    /// Extra delay for a thread that becomes ready through epoll (file notifications), in ns.
    pub watch_delay_max: u64,
    /// Virtual cost of one scheduling step, in ns.
    pub step_ns: u64,
    pub max_steps: u64,
    pub max_time: u64,
    pub log: bool,
}

impl Default for Knobs {
    fn default() -> Self {
        Self {
            sched_policy: 0,
            watch_delay_max: 0,
            step_ns: 2_000,
            max_steps: 3_000_000,
            max_time: 100_000 * SEC,
            log: false,
        }
    }
}

pub const SEC: u64 = 1_000_000_000;
pub const MS: u64 = 1_000_000;
/// Where the virtual clocks start.
pub const MONO_BASE: u64 = 1_000 * SEC;
pub const WALL_BASE: u64 = 1_700_000_000 * SEC;
pub const NEVER: u64 = u64::MAX;

pub struct Sim {
    pub now: u64,
    pub knobs: Knobs,
    pub sched: Rng,
    pub net_rng: Rng,
    pub fs_rng: Rng,
    pub harness_rng: Rng,
    pub procs: Vec<Proc>,
    threads: Vec<LThread>,
    main_sem: Box<AtomicU32>,
    main_futex: Option<usize>,
    main_woken: bool,
    timers: BTreeMap<(u64, u64), Waker>,
    timer_seq: u64,
    dirty: bool,
    pub steps: u64,
    pub hash: u64,
    pub events: u64,
    pub log: Vec<String>,
    pub net: net::Net,
    pub fs_log: Vec<FsOp>,
    pub counters: BTreeMap<&'static str, u64>,
    /// Set when the run cannot go on (deadlock, step limit).
    pub stuck: Option<String>,
    pub on_stuck: Option<fn(&str) -> !>,
}

struct Global(UnsafeCell<Option<Box<Sim>>>);
unsafe impl Sync for Global {}
static SIM: Global = Global(UnsafeCell::new(None));
static ENABLED: AtomicBool = AtomicBool::new(false);

thread_local! {
    static CUR_PROC: Cell<ProcId> = const { Cell::new(0) };
    /// 0: not part of the simulation, 1: main simulation thread, n + 2: lockstep thread n
    static CUR_THREAD: Cell<u32> = const { Cell::new(0) };
    static IN_CORE: Cell<bool> = const { Cell::new(false) };
}

#[inline]
pub fn enabled() -> bool {
    ENABLED.load(Ordering::Relaxed)
}

/// True on a thread that takes part in the simulation.
#[inline]
pub fn active() -> bool {
    enabled() && CUR_THREAD.with(|c| c.get()) != 0
}

#[allow(clippy::mut_from_ref)]
pub fn sim() -> &'static mut Sim {
    unsafe { (*SIM.0.get()).as_mut().expect("simulation not started") }
}

pub fn start(seed: u64, knobs: Knobs) {
    let s = Sim {
        now: 0,
        knobs,
        sched: Rng::new(rng::mix(seed, 1)),
        net_rng: Rng::new(rng::mix(seed, 2)),
        fs_rng: Rng::new(rng::mix(seed, 3)),
        harness_rng: Rng::new(rng::mix(seed, 4)),
        procs: vec![Proc {
            node: 0,
            status: Status::Running,
            panic: None,
            stalled: false,
            stalled_wakers: vec![],
            rng: Rng::new(rng::mix(seed, 5)),
            root: String::new(),
            allowed: vec![],
            wall_offset_ns: 0,
            fs_faults: vec![],
            disk_full: false,
            fs_ops: 0,
            on_death: vec![],
        }],
        threads: vec![],
        main_sem: Box::new(AtomicU32::new(0)),
        main_futex: None,
        main_woken: false,
        timers: BTreeMap::new(),
        timer_seq: 0,
        dirty: true,
        steps: 0,
        hash: 0xcbf2_9ce4_8422_2325,
        events: 0,
        log: vec![],
        net: net::Net::default(),
        fs_log: vec![],
        counters: BTreeMap::new(),
        stuck: None,
        on_stuck: None,
    };
    unsafe {
        *SIM.0.get() = Some(Box::new(s));
    }
    CUR_THREAD.with(|c| c.set(1));
    ENABLED.store(true, Ordering::SeqCst);
}

pub fn stop() {
    ENABLED.store(false, Ordering::SeqCst);
    CUR_THREAD.with(|c| c.set(0));
}

pub fn now() -> u64 {
    sim().now
}

pub fn current_proc() -> ProcId {
    CUR_PROC.with(|c| c.get())
}

pub fn current_node() -> u32 {
    if !enabled() {
        return 0;
    }
    sim().procs[current_proc() as usize].node
}

pub struct ProcGuard(ProcId);
impl Drop for ProcGuard {
    fn drop(&mut self) {
        CUR_PROC.with(|c| c.set(self.0));
    }
}

pub fn enter_proc(p: ProcId) -> ProcGuard {
    let old = CUR_PROC.with(|c| c.replace(p));
    ProcGuard(old)
}

pub fn with_proc<R>(p: ProcId, f: impl FnOnce() -> R) -> R {
    let _g = enter_proc(p);
    f()
}

pub fn new_proc(node: u32, seed: u64, root: &str, allowed: Vec<String>) -> ProcId {
    let s = sim();
    let id = s.procs.len() as ProcId;
    s.procs.push(Proc {
        node,
        status: Status::Running,
        panic: None,
        stalled: false,
        stalled_wakers: vec![],
        rng: Rng::new(rng::mix(seed, 1000)),
        root: root.to_string(),
        allowed,
        wall_offset_ns: 0,
        fs_faults: vec![],
        disk_full: false,
        fs_ops: 0,
        on_death: vec![],
    });
    id
}

/// Is code running in a process that is already dead? Its effects must be suppressed.
pub fn in_dead_proc() -> bool {
    if !active() {
        return false;
    }
    let p = current_proc();
    p != 0 && sim().procs[p as usize].status != Status::Running
}

pub enum Enter {
    Run,
    Blocked,
}

/// Asked before polling a task of `p`. A dead proc's tasks never run again.
pub fn may_run(p: ProcId, waker: &Waker) -> Enter {
    if p == 0 || !enabled() {
        return Enter::Run;
    }
    let pr = &mut sim().procs[p as usize];
    if pr.status != Status::Running {
        return Enter::Blocked;
    }
    if pr.stalled {
        pr.stalled_wakers.push(waker.clone());
        return Enter::Blocked;
    }
    Enter::Run
}

pub fn is_alive(p: ProcId) -> bool {
    p == 0 || sim().procs[p as usize].status == Status::Running
}

pub fn set_stalled(p: ProcId, v: bool) {
    let pr = &mut sim().procs[p as usize];
    pr.stalled = v;
    if !v {
        for w in std::mem::take(&mut pr.stalled_wakers) {
            w.wake();
        }
    }
    note(&[40, p as u64, v as u64]);
}

/// The process ends here and now. What it has done so far stays; nothing more happens.
/// With `silent`, the other side of its connections never hears about it.
pub fn kill(p: ProcId, why: &str, silent: bool) {
    let s = sim();
    if p == 0 || s.procs[p as usize].status != Status::Running {
        return;
    }
    s.procs[p as usize].status = Status::Dead(why.to_string());
    let wakers = std::mem::take(&mut s.procs[p as usize].on_death);
    note(&[41, p as u64, silent as u64]);
    logf(|| format!("proc {p} dies: {why}"));
    net::close_proc(p, silent);
    for w in wakers {
        w.wake();
    }
}

pub fn proc_panicked(msg: String) {
    if !active() {
        return;
    }
    let p = current_proc();
    if p == 0 {
        return;
    }
    let pr = &mut sim().procs[p as usize];
    if pr.status == Status::Running {
        pr.panic = Some(msg.clone());
        kill(p, &format!("panic: {msg}"), false);
    }
}

pub fn count(name: &'static str) {
    count_n(name, 1);
}

pub fn count_n(name: &'static str, n: u64) {
    *sim().counters.entry(name).or_insert(0) += n;
}

/// Mixes words into the execution hash. Two executions are the same iff their hashes are.
pub fn note(words: &[u64]) {
    let s = sim();
    s.events += 1;
    for w in words {
        s.hash = (s.hash ^ w).wrapping_mul(0x0000_0100_0000_01B3).rotate_left(29);
    }
}

pub fn note_bytes(b: &[u8]) {
    let s = sim();
    for x in b {
        s.hash = (s.hash ^ u64::from(*x)).wrapping_mul(0x0000_0100_0000_01B3);
    }
}

pub fn logf(f: impl FnOnce() -> String) {
    let s = sim();
    if s.knobs.log {
        let t = format!("[{:>12.6}] {}", s.now as f64 / 1e9, f());
        s.log.push(t);
    }
}

pub fn fill_random(buf: &mut [u8]) {
    let p = current_proc() as usize;
    sim().procs[p].rng.fill(buf);
}

// ---------------------------------------------------------------- time

pub fn timer_at(at: u64, w: Waker) {
    let s = sim();
    s.timer_seq += 1;
    s.timers.insert((at, s.timer_seq), w);
}

fn fire_timers() {
    loop {
        let s = sim();
        match s.timers.first_key_value() {
            Some((&(at, seq), _)) if at <= s.now => {
                let w = s.timers.remove(&(at, seq)).unwrap();
                w.wake();
            }
            _ => return,
        }
    }
}

fn stuck(why: &str) -> ! {
    let s = sim();
    s.stuck = Some(why.to_string());
    if let Some(f) = s.on_stuck {
        f(why)
    }
    raw::write_all(2, format!("simulation stuck: {why}\n").as_bytes());
    raw::exit_group(97)
}

/// Moves the clock; every wait in the simulation goes through here.
fn advance_to(t: u64) {
    let s = sim();
    if t > s.now {
        s.now = t;
    }
    if s.now > s.knobs.max_time {
        stuck("time limit");
    }
}

// ---------------------------------------------------------------- lockstep threads

pub fn mark_dirty() {
    if enabled() {
        sim().dirty = true;
    }
}

fn refresh_threads() {
    let s = sim();
    let now = s.now;
    let dirty = std::mem::take(&mut s.dirty);
    for i in 0..s.threads.len() {
        let delay_max = s.knobs.watch_delay_max;
        let t = &mut s.threads[i];
        match t.state {
            TState::Futex(_, d) | TState::Sleep(d) if d <= now => {
                t.timed_out = true;
                t.state = TState::Runnable;
                t.ready_at = now;
            }
            TState::Epoll(fd, d) => {
                if d <= now {
                    t.timed_out = true;
                    t.state = TState::Runnable;
                    t.ready_at = now;
                } else if dirty && raw::readable(fd) {
                    t.state = TState::Runnable;
                    t.ready_at = if delay_max > 0 {
                        now + s.fs_rng.below(delay_max)
                    } else {
                        now
                    };
                }
            }
            _ => {}
        }
    }
}

fn thread_may_run(t: &LThread) -> bool {
    let s = sim();
    if t.state != TState::Runnable || t.ready_at > s.now {
        return false;
    }
    let p = &s.procs[t.proc as usize];
    p.status == Status::Running && !p.stalled
}

fn runnable_threads() -> Vec<usize> {
    let s = sim();
    (0..s.threads.len()).filter(|&i| thread_may_run(&s.threads[i])).collect()
}

fn next_thread_deadline() -> u64 {
    let s = sim();
    let mut d = NEVER;
    for t in &s.threads {
        let p = &s.procs[t.proc as usize];
        if p.status != Status::Running || p.stalled {
            continue;
        }
        d = d.min(match t.state {
            TState::Futex(_, d) | TState::Sleep(d) | TState::Epoll(_, d) => d,
            TState::Runnable => t.ready_at,
            TState::Done => NEVER,
        });
    }
    d
}

fn run_thread(i: usize) {
    let s = sim();
    note(&[10, i as u64]);
    s.main_sem.store(0, Ordering::SeqCst);
    let sem: *const AtomicU32 = &*s.threads[i].sem;
    unsafe {
        (*sem).store(1, Ordering::SeqCst);
        raw::futex_wake(&*sem);
    }
    let msem: *const AtomicU32 = &*s.main_sem;
    unsafe {
        while (*msem).load(Ordering::SeqCst) == 0 {
            raw::futex_wait(&*msem, 0);
        }
    }
    sim().dirty = true;
}

fn give_back_token() {
    let msem: *const AtomicU32 = &*sim().main_sem;
    unsafe {
        (*msem).store(1, Ordering::SeqCst);
        raw::futex_wake(&*msem);
    }
}

/// Called on a lockstep thread: waits until the scheduler picks it again.
fn block_thread(id: usize, st: TState) -> bool {
    let sem: *const AtomicU32 = {
        let t = &mut sim().threads[id];
        t.state = st;
        t.timed_out = false;
        t.sem.store(0, Ordering::SeqCst);
        &*t.sem
    };
    give_back_token();
    unsafe {
        while (*sem).load(Ordering::SeqCst) == 0 {
            raw::futex_wait(&*sem, 0);
        }
    }
    let t = &mut sim().threads[id];
    t.state = TState::Runnable;
    t.timed_out
}

/// Registers a new lockstep thread of the current proc; returns its index.
pub fn thread_register() -> usize {
    let s = sim();
    s.threads.push(LThread {
        proc: current_proc(),
        state: TState::Runnable,
        ready_at: s.now,
        timed_out: false,
        sem: Box::new(AtomicU32::new(0)),
        pthread: 0,
    });
    s.threads.len() - 1
}

pub fn thread_set_pthread(i: usize, h: u64) {
    sim().threads[i].pthread = h;
}

pub fn thread_sem(i: usize) -> *const AtomicU32 {
    &*sim().threads[i].sem
}

/// First thing a new lockstep thread does.
pub fn thread_begin(i: usize, proc: ProcId, sem: *const AtomicU32) {
    unsafe {
        while (*sem).load(Ordering::SeqCst) == 0 {
            raw::futex_wait(&*sem, 0);
        }
    }
    CUR_PROC.with(|c| c.set(proc));
    CUR_THREAD.with(|c| c.set(i as u32 + 2));
}

/// Last thing a lockstep thread does.
pub fn thread_end(i: usize) {
    sim().threads[i].state = TState::Done;
    CUR_THREAD.with(|c| c.set(0));
    CUR_PROC.with(|c| c.set(0));
    give_back_token();
}

/// Some(done) if `h` is a lockstep thread.
pub fn thread_join_wait(h: u64) {
    loop {
        let s = sim();
        let Some(i) = s.threads.iter().position(|t| t.pthread == h) else { return };
        if s.threads[i].state == TState::Done {
            return;
        }
        wait_step(NEVER, "join");
    }
}

/// The current thread cannot go on: let others run or time pass, once.
fn wait_step(deadline: u64, what: &str) {
    let me = CUR_THREAD.with(|c| c.get());
    if me >= 2 {
        let now = sim().now;
        block_thread((me - 2) as usize, TState::Sleep((now + MS).min(deadline)));
        return;
    }
    let s = sim();
    s.steps += 1;
    s.now += s.knobs.step_ns;
    if s.steps > s.knobs.max_steps {
        stuck("step limit");
    }
    fire_timers();
    refresh_threads();
    let r = runnable_threads();
    if !r.is_empty() {
        let k = s.sched.below(r.len() as u64) as usize;
        run_thread(r[k]);
        return;
    }
    if s.main_woken && s.main_futex.is_some() {
        return;
    }
    let next = s
        .timers
        .first_key_value()
        .map_or(NEVER, |(k, _)| k.0)
        .min(next_thread_deadline())
        .min(deadline);
    if next == NEVER {
        stuck(&format!("deadlock: nothing can happen any more ({what})"));
    }
    advance_to(next);
    note(&[11, sim().now]);
    fire_timers();
}

/// Emulates FUTEX_WAIT with an absolute deadline in simulation time. Returns true on timeout.
pub fn futex_wait(addr: usize, expected: u32, deadline: u64) -> Result<bool, ()> {
    let cur = || unsafe { (*(addr as *const AtomicU32)).load(Ordering::SeqCst) };
    if cur() != expected {
        return Err(());
    }
    let me = CUR_THREAD.with(|c| c.get());
    if me >= 2 {
        return Ok(block_thread((me - 2) as usize, TState::Futex(addr, deadline)));
    }
    sim().main_futex = Some(addr);
    sim().main_woken = false;
    let r = loop {
        if sim().main_woken || cur() != expected {
            break false;
        }
        if sim().now >= deadline {
            break true;
        }
        wait_step(deadline, "main thread waits");
    };
    sim().main_futex = None;
    Ok(r)
}

pub fn main_parked() -> bool {
    sim().main_futex.is_some()
}

pub fn futex_wake(addr: usize, n: u32) -> u32 {
    let s = sim();
    let mut woken = 0;
    for t in s.threads.iter_mut() {
        if woken >= n {
            return woken;
        }
        if let TState::Futex(a, _) = t.state {
            if a == addr {
                t.state = TState::Runnable;
                t.ready_at = s.now;
                woken += 1;
            }
        }
    }
    if woken < n && s.main_futex == Some(addr) {
        s.main_woken = true;
        woken += 1;
    }
    woken
}

pub fn epoll_block(epfd: i32, deadline: u64) -> bool {
    let me = CUR_THREAD.with(|c| c.get());
    sim().dirty = true;
    if me >= 2 {
        return block_thread((me - 2) as usize, TState::Epoll(epfd, deadline));
    }
    if sim().now >= deadline {
        return true;
    }
    wait_step(deadline, "main thread polls");
    false
}

pub fn sleep_until(deadline: u64) {
    let me = CUR_THREAD.with(|c| c.get());
    if me >= 2 {
        block_thread((me - 2) as usize, TState::Sleep(deadline));
    } else {
        advance_to(deadline);
    }
}

// ---------------------------------------------------------------- scheduler

pub enum Pick {
    Task(usize),
    Again,
    Nothing,
}

/// Decides what runs next: one of `n` ready tasks or a lockstep thread.
pub fn pick(n: usize) -> Pick {
    let s = sim();
    s.steps += 1;
    if s.steps > s.knobs.max_steps {
        stuck("step limit");
    }
    s.now += s.knobs.step_ns;
    fire_timers();
    refresh_threads();
    let r = runnable_threads();
    let total = n + r.len();
    if total == 0 {
        return Pick::Nothing;
    }
    let k = if total == 1 {
        0
    } else {
        match s.knobs.sched_policy {
            1 if !s.sched.chance(150) => 0,
            2 if !s.sched.chance(300) => total - 1,
            3 => s.sched.below(total.min(2) as u64) as usize,
            _ => s.sched.below(total as u64) as usize,
        }
    };
    if k < n {
        note(&[1, k as u64, n as u64]);
        Pick::Task(k)
    } else {
        run_thread(r[k - n]);
        Pick::Again
    }
}

/// Seeded replacement for a runtime-internal random number below n.
pub fn runtime_random(n: u32) -> u32 {
    sim().sched.below(u64::from(n.max(1))) as u32
}
