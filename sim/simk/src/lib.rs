//! Simulation kernel: cooperative scheduling of real OS threads, virtual time, simulated processes, pipes, fault
//! decisions and their recording.
//!
//! Exactly one simulated thread runs at a time. Every operation of a simulated primitive calls [`point`], where the
//! kernel decides who runs next. All decisions go through [`Kernel::decide`], which either draws them from the seed
//! or replays them from a trace; decision 0 always means "nothing unusual" (stay on the current thread, no fault).

use std::{
    cell::{Cell, UnsafeCell},
    collections::{BTreeMap, BTreeSet, VecDeque},
    sync::{
        Arc, Condvar, Mutex,
        atomic::{AtomicBool, AtomicU64, Ordering},
    },
    thread::Thread,
};

pub mod rng;
pub use rng::Rng;

pub type Tid = usize;
pub type Pid = u32;

/// The host process.
pub const HOST: Pid = 100;
/// Whom the threads that act for the operating system belong to.
pub const KERNEL: Pid = 1;

thread_local! {
    static CUR: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Scheduling policy of one run.
#[derive(Clone, Debug)]
pub enum Policy {
    /// At each point switch with this probability (per mille) to a uniformly chosen other thread.
    Random(u32),
    /// Priorities with a few random change points.
    Pct { changes: u32, horizon: u64 },
    /// Priorities, plus a random switch with this probability (per mille).
    Mixed { changes: u32, horizon: u64, p: u32 },
}

#[derive(Clone, Debug)]
pub struct Config {
    pub seed: u64,
    pub policy: Policy,
    /// Per mille probability, at a point, of advancing the clock to the next timer although someone can run.
    pub leap: u32,
    /// Per million probability, at a point, of freezing the running thread for a while.
    pub stall: u32,
    /// Fault probabilities per site, in 1/10000.
    pub faults: BTreeMap<&'static str, u32>,
    pub max_steps: u64,
    /// Replayed decisions: sparse index -> value. `None`: draw from the seed.
    pub replay: Option<BTreeMap<u64, u32>>,
    pub pipe_capacity: usize,
    pub parallelism: usize,
    pub scratch: String,
    pub trace: bool,
}

impl Default for Config {
    fn default() -> Self {
        Self {
            seed: 0,
            policy: Policy::Random(300),
            leap: 0,
            stall: 0,
            faults: BTreeMap::new(),
            max_steps: 2_000_000,
            replay: None,
            pipe_capacity: 65536,
            parallelism: 4,
            scratch: "/dev/shm/revmc-sim".into(),
            trace: false,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum State {
    Runnable,
    /// Waiting for any of the keys, or for the deadline.
    Blocked { keys: Vec<u64>, deadline: Option<u64> },
    /// Not to be scheduled before the deadline (injected stall).
    Frozen { until: u64 },
    Finished,
}

struct Parker {
    go: AtomicBool,
    thread: Mutex<Option<Thread>>,
}

pub struct Th {
    pub name: String,
    pub pid: Pid,
    state: State,
    parker: Arc<Parker>,
    prio: u64,
    timed_out: bool,
    pub park_token: bool,
    pub site: &'static str,
    /// Key woken when the thread finishes.
    pub done_key: u64,
    /// Runs outside the scheduler's fault injection (harness threads).
    pub no_stall: bool,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum ProcState {
    Running,
    Stopped,
    /// Exited with this wait status, not reaped.
    Zombie(i32),
    Reaped,
}

pub struct Proc {
    pub pid: Pid,
    pub parent: Pid,
    pub pgid: Pid,
    pub state: ProcState,
    pub env: BTreeMap<String, String>,
    pub exe: String,
    pub stdin: Option<u64>,
    pub stdout: Option<u64>,
    pub key: u64,
    pub rlimit_as: Option<u64>,
    pub affinity: Option<Vec<usize>>,
    /// Times this process was stopped while it had work, etc. are derived from the log.
    pub spawned_at: u64,
    pub exited_at: u64,
    pub stopped_since: u64,
}

pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub readers: u32,
    pub writers: u32,
    pub reader_pid: Pid,
    pub writer_pid: Pid,
    pub key: u64,
    pub total: u64,
    /// Remaining bytes after which the stream is corrupted or cut (fault).
    pub sabotage: Option<(u64, Sabotage)>,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Sabotage {
    /// Flip bits in everything from there on.
    Garbage,
    /// Flip bits in one byte.
    OneByte,
    /// Kill the writer.
    Cut,
    /// The writer hangs there.
    Hang,
}

#[derive(Clone, Debug)]
pub enum End {
    Done,
    Deadlock(Vec<String>),
    StepLimit(Vec<String>),
    /// A violation recorded by [`fail`] ended the run.
    Failed,
}

#[derive(Clone, Debug)]
pub struct Failure {
    /// Property-neutral class, such as "code.use_after_free".
    pub kind: String,
    pub detail: String,
    pub time: u64,
    pub step: u64,
}

pub struct Kernel {
    pub cfg: Config,
    rng: Rng,
    pub now: u64,
    pub steps: u64,
    pub decisions: u64,
    pub nonzero: BTreeMap<u64, u32>,
    pub threads: Vec<Th>,
    pub procs: BTreeMap<Pid, Proc>,
    pub pipes: BTreeMap<u64, Pipe>,
    next_key: u64,
    next_pid: Pid,
    pub faults_on: bool,
    pub fault_counts: BTreeMap<String, u64>,
    pub switches: u64,
    pub sched_hash: u64,
    pub edges: BTreeSet<(&'static str, &'static str)>,
    change_points: Vec<u64>,
    pub failures: Vec<Failure>,
    pub panics: Vec<(String, String)>,
    pub log: Vec<String>,
    end: Option<End>,
    /// While set, only this thread runs; if it would block, that is recorded instead.
    solo: Option<Tid>,
    pub solo_blocked: Option<&'static str>,
    /// Where the other live threads were when a solo operation had to wait.
    pub solo_sites: Vec<(Pid, &'static str)>,
    /// Scratch values for the harness.
    pub calm: bool,
    pub counters: BTreeMap<&'static str, u64>,
    pub spawn_hook: Option<fn(&ProcSpawn) -> SpawnResult>,
}

/// What the harness decides about a spawned command.
pub struct ProcSpawn {
    pub program: String,
    pub args: Vec<String>,
    pub env: BTreeMap<String, String>,
}

pub enum SpawnResult {
    /// Run this function as the main thread of the process; its return value is the exit code.
    Main(Box<dyn FnOnce() -> i32 + Send>),
    Error(i32),
}

struct Global(UnsafeCell<Option<Box<Kernel>>>);
unsafe impl Sync for Global {}
static K: Global = Global(UnsafeCell::new(None));
static RUN: (Mutex<Option<End>>, Condvar) = (Mutex::new(None), Condvar::new());
static OBJ: AtomicU64 = AtomicU64::new(1);

/// The kernel. Only valid on the thread that holds the baton (or on the controller between runs).
#[allow(clippy::mut_from_ref)]
pub fn k() -> &'static mut Kernel {
    unsafe { (*K.0.get()).as_deref_mut().expect("no simulation") }
}

pub fn active() -> bool {
    CUR.get() != usize::MAX
}

pub fn cur() -> Tid {
    CUR.get()
}

pub fn cur_pid() -> Pid {
    if active() { k().threads[cur()].pid } else { HOST }
}

/// Lazily assigned identity of a simulated object.
pub struct ObjId(AtomicU64);
impl ObjId {
    pub const fn new() -> Self {
        Self(AtomicU64::new(0))
    }
    pub fn get(&self) -> u64 {
        let v = self.0.load(Ordering::Relaxed);
        if v != 0 {
            return v;
        }
        let v = new_key();
        self.0.store(v, Ordering::Relaxed);
        v
    }
}
impl Default for ObjId {
    fn default() -> Self {
        Self::new()
    }
}

pub fn new_key() -> u64 {
    // Never reset: keys of a leaked earlier run must not collide with the current one's. Keys never influence
    // decisions, only identity does.
    OBJ.fetch_add(1, Ordering::Relaxed)
}

impl Kernel {
    fn new(cfg: Config) -> Self {
        let mut rng = Rng::new(cfg.seed ^ 0x5eed_5c4e_d01e);
        let change_points = match &cfg.policy {
            Policy::Random(_) => vec![],
            Policy::Pct { changes, horizon } | Policy::Mixed { changes, horizon, .. } => {
                let mut v: Vec<u64> = (0..*changes).map(|_| rng.below(*horizon)).collect();
                v.sort();
                v
            }
        };
        let procs = BTreeMap::from([(KERNEL, "/sim/init"), (HOST, "/sim/host")].map(|(pid, exe)| {
            (pid, Proc {
                pid,
                parent: pid.min(KERNEL),
                pgid: pid,
                state: ProcState::Running,
                env: BTreeMap::new(),
                exe: exe.into(),
                stdin: None,
                stdout: None,
                key: new_key(),
                rlimit_as: None,
                affinity: None,
                spawned_at: 0,
                exited_at: 0,
                stopped_since: 0,
            })
        }));
        Self {
            rng,
            now: 1_000_000_000,
            steps: 0,
            decisions: 0,
            nonzero: BTreeMap::new(),
            threads: vec![],
            procs,
            pipes: BTreeMap::new(),
            next_key: 1,
            next_pid: HOST + 1,
            faults_on: true,
            fault_counts: BTreeMap::new(),
            switches: 0,
            sched_hash: 0xcbf29ce484222325,
            edges: BTreeSet::new(),
            change_points,
            failures: vec![],
            panics: vec![],
            log: vec![],
            end: None,
            solo: None,
            solo_blocked: None,
            solo_sites: vec![],
            calm: false,
            counters: BTreeMap::new(),
            spawn_hook: None,
            cfg,
        }
    }

    /// Draws a decision in `0..n`: 0 with probability `1 - p` (per mille), otherwise uniform over the rest.
    fn decide(&mut self, n: usize, p: u32) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.decisions;
        self.decisions += 1;
        let v = match &self.cfg.replay {
            Some(r) => {
                // Keep the generator in step so that recording and replaying draw the same auxiliary values.
                (*r.get(&i).unwrap_or(&0) as usize).min(n - 1)
            }
            None => {
                if p < 1000 && self.rng.below(1000) >= p as u64 {
                    0
                } else if p >= 1000 {
                    self.rng.below(n as u64) as usize
                } else {
                    1 + self.rng.below(n as u64 - 1) as usize
                }
            }
        };
        if v != 0 {
            self.nonzero.insert(i, v as u32);
        }
        v
    }

    /// As [`Self::decide`], with a probability in parts per million.
    fn decide_ppm(&mut self, n: usize, ppm: u32) -> usize {
        if n <= 1 || ppm == 0 {
            return 0;
        }
        let i = self.decisions;
        self.decisions += 1;
        let v = match &self.cfg.replay {
            Some(r) => (*r.get(&i).unwrap_or(&0) as usize).min(n - 1),
            None => {
                if self.rng.below(1_000_000) >= ppm as u64 {
                    0
                } else {
                    1 + self.rng.below(n as u64 - 1) as usize
                }
            }
        };
        if v != 0 {
            self.nonzero.insert(i, v as u32);
        }
        v
    }

    /// Forces a recorded value (for decisions the policy makes itself).
    fn record(&mut self, n: usize, drawn: impl FnOnce(&mut Rng) -> usize) -> usize {
        if n <= 1 {
            return 0;
        }
        let i = self.decisions;
        self.decisions += 1;
        let v = match &self.cfg.replay {
            Some(r) => (*r.get(&i).unwrap_or(&0) as usize).min(n - 1),
            None => drawn(&mut self.rng),
        };
        if v != 0 {
            self.nonzero.insert(i, v as u32);
        }
        v
    }

    fn schedulable(&self, t: &Th) -> bool {
        t.state == State::Runnable && self.procs[&t.pid].state == ProcState::Running
    }

    /// Wakes threads whose deadline has passed.
    fn fire_timers(&mut self) {
        let (now, calm) = (self.now, self.calm);
        for t in &mut self.threads {
            match &t.state {
                State::Blocked { deadline: Some(d), .. } if *d <= now => {
                    t.timed_out = true;
                    t.state = State::Runnable;
                }
                State::Frozen { until } if *until <= now || calm => t.state = State::Runnable,
                _ => {}
            }
        }
    }

    fn next_deadline(&self) -> Option<u64> {
        self.threads
            .iter()
            .filter_map(|t| {
                let d = match &t.state {
                    State::Blocked { deadline: Some(d), .. } => *d,
                    State::Frozen { until } => *until,
                    _ => return None,
                };
                // A timer of a stopped process does not drive the clock.
                (self.procs[&t.pid].state == ProcState::Running && d > self.now).then_some(d)
            })
            .min()
    }

    /// Chooses the next thread to run. `me` may or may not be runnable.
    fn pick(&mut self, me: Tid, force_other: bool) -> Option<Tid> {
        loop {
            self.fire_timers();
            let mut cands: Vec<Tid> = Vec::new();
            let me_ok = me != usize::MAX && self.schedulable(&self.threads[me]);
            if me_ok && !force_other {
                cands.push(me);
            }
            for (i, t) in self.threads.iter().enumerate() {
                if i != me && self.schedulable(t) {
                    cands.push(i);
                }
            }
            if me_ok && force_other {
                cands.push(me);
            }
            if cands.is_empty() {
                match self.next_deadline() {
                    Some(d) => {
                        self.now = d;
                        continue;
                    }
                    None => return None,
                }
            }
            // The operating system itself is not that slow.
            let kernel_busy = || self.threads.iter().any(|t| t.pid == KERNEL && t.state != State::Finished);
            if self.cfg.leap > 0 && self.faults_on && !self.calm && self.next_deadline().is_some() && !kernel_busy() {
                let leap = self.cfg.leap;
                if self.decide(2, leap) == 1 {
                    self.now = self.next_deadline().unwrap();
                    *self.fault_counts.entry("clock_leap".into()).or_default() += 1;
                    continue;
                }
            }
            let n = cands.len();
            let policy = if self.calm { Policy::Random(250) } else { self.cfg.policy.clone() };
            let stay = me_ok && !force_other;
            let v = match policy {
                Policy::Random(p) => self.record(n, |r| {
                    if stay && r.below(1000) >= p as u64 {
                        0
                    } else if stay {
                        1 + r.below(n as u64 - 1) as usize
                    } else if force_other && me_ok && n > 1 {
                        r.below(n as u64 - 1) as usize
                    } else {
                        r.below(n as u64) as usize
                    }
                }),
                Policy::Pct { .. } | Policy::Mixed { .. } => {
                    while self.change_points.first().is_some_and(|c| *c <= self.steps) {
                        self.change_points.remove(0);
                        if me != usize::MAX {
                            // Drop the running thread to the lowest priority.
                            let lo = self.threads.iter().map(|t| t.prio).min().unwrap_or(1);
                            self.threads[me].prio = lo.saturating_sub(1);
                        }
                    }
                    let p = if let Policy::Mixed { p, .. } = policy { p } else { 0 };
                    let best = (0..n).max_by_key(|i| (self.threads[cands[*i]].prio, n - i)).unwrap();
                    self.record(n, |r| {
                        if p > 0 && r.below(1000) < p as u64 { r.below(n as u64) as usize } else { best }
                    })
                }
            };
            return Some(cands[v]);
        }
    }

    pub fn blocked_report(&self) -> Vec<String> {
        self.threads
            .iter()
            .filter(|t| t.state != State::Finished)
            .map(|t| {
                format!(
                    "pid {} thread {:?} at {} ({})",
                    t.pid,
                    t.name,
                    t.site,
                    match (&t.state, &self.procs[&t.pid].state) {
                        (_, ProcState::Stopped) => "process stopped",
                        (State::Runnable, _) => "runnable",
                        (State::Blocked { deadline: None, .. }, _) => "blocked",
                        (State::Blocked { .. }, _) => "blocked with timeout",
                        (State::Frozen { .. }, _) => "stalled",
                        (State::Finished, _) => "finished",
                    }
                )
            })
            .collect()
    }

    pub fn tlog(&mut self, s: impl FnOnce() -> String) {
        if self.cfg.trace {
            let who = if active() { format!("{}/{}", self.threads[cur()].pid, self.threads[cur()].name) } else { "-".into() };
            eprintln!("[{:>12} ns #{:>6}] {:<28} {}", self.now - 1_000_000_000, self.steps, who, s());
        }
    }
}

fn hash_step(h: u64, v: u64) -> u64 {
    (h ^ v).wrapping_mul(0x100000001b3).rotate_left(5)
}

fn park_until_go(p: &Parker) {
    while !p.go.swap(false, Ordering::Acquire) {
        std::thread::park();
    }
}

fn hand_over(next: Tid) {
    let p = k().threads[next].parker.clone();
    p.go.store(true, Ordering::Release);
    let t = p.thread.lock().unwrap().clone();
    if let Some(t) = t {
        t.unpark();
    }
}

/// Stops this OS thread for good (its simulated thread is dead or the run is over).
fn park_forever() -> ! {
    loop {
        std::thread::park();
    }
}

fn finish_run(end: End) {
    k().end = Some(end.clone());
    *RUN.0.lock().unwrap() = Some(end);
    RUN.1.notify_all();
}

/// Ends the run at once, from the running thread, which never continues.
pub fn end_run(end: End) -> ! {
    finish_run(end);
    park_forever()
}

/// Records a violation class. The run goes on unless `fatal`.
pub fn fail(kind: &str, detail: impl Into<String>) {
    let k = k();
    if k.failures.len() < 16 {
        let f = Failure { kind: kind.into(), detail: detail.into(), time: k.now, step: k.steps };
        k.tlog(|| format!("FAIL {} {}", f.kind, f.detail));
        k.failures.push(f);
    }
}

pub fn fail_fatal(kind: &str, detail: impl Into<String>) -> ! {
    fail(kind, detail);
    end_run(End::Failed)
}

fn switch_from(me: Tid, force_other: bool) {
    let kk = k();
    match kk.pick(me, force_other) {
        None => {
            let r = kk.blocked_report();
            end_run(End::Deadlock(r));
        }
        Some(next) if next == me => {}
        Some(next) => {
            kk.switches += 1;
            kk.sched_hash = hash_step(kk.sched_hash, (next as u64) << 32 | kk.steps & 0xffff_ffff);
            let e = (kk.threads[me].site, kk.threads[next].site);
            kk.edges.insert(e);
            let p = kk.threads[me].parker.clone();
            hand_over(next);
            park_until_go(&p);
        }
    }
}

fn step(site: &'static str) {
    let me = cur();
    let kk = k();
    kk.steps += 1;
    kk.now += 500;
    kk.threads[me].site = site;
    if kk.steps > kk.cfg.max_steps {
        let r = kk.blocked_report();
        end_run(End::StepLimit(r));
    }
}

/// A scheduling point: the operation named `site` is about to happen.
pub fn point(site: &'static str) {
    if !active() {
        return;
    }
    step(site);
    let me = cur();
    let kk = k();
    if kk.solo == Some(me) {
        return;
    }
    if kk.cfg.stall > 0 && kk.faults_on && !kk.calm && !kk.threads[me].no_stall {
        let ppm = kk.cfg.stall;
        let v = kk.decide_ppm(9, ppm);
        if v > 0 {
            // 20us, 200us, ... up to 200 s.
            let dur = 20_000u64 * 10u64.pow((v - 1) as u32);
            kk.threads[me].state = State::Frozen { until: kk.now + dur };
            *kk.fault_counts.entry("thread_stall".into()).or_default() += 1;
        }
    }
    switch_from(me, false);
}

/// Gives others a chance to run first.
pub fn yield_now() {
    if !active() {
        return;
    }
    step("yield");
    if k().solo == Some(cur()) {
        return;
    }
    switch_from(cur(), true);
}

/// Blocks until one of the keys is woken or the deadline passes. Returns whether it timed out. The caller
/// re-checks its condition.
pub fn block_on(site: &'static str, keys: &[u64], deadline: Option<u64>) -> bool {
    if !active() {
        panic!("blocking simulated operation {site} outside the simulation");
    }
    step(site);
    let me = cur();
    let kk = k();
    if kk.solo == Some(me) {
        // The operation would wait for someone else.
        kk.solo_blocked.get_or_insert(site);
        kk.solo_sites = kk
            .threads
            .iter()
            .enumerate()
            .filter(|(i, t)| *i != me && t.state != State::Finished)
            .map(|(_, t)| (t.pid, t.site))
            .collect();
        kk.solo = None;
    }
    kk.threads[me].timed_out = false;
    kk.threads[me].state = State::Blocked { keys: keys.to_vec(), deadline };
    switch_from(me, false);
    let kk = k();
    std::mem::take(&mut kk.threads[me].timed_out)
}

/// Makes every thread waiting on the key runnable.
pub fn wake(key: u64) {
    if unsafe { (*K.0.get()).is_none() } {
        return;
    }
    for t in &mut k().threads {
        if let State::Blocked { keys, .. } = &t.state
            && keys.contains(&key)
        {
            t.timed_out = false;
            t.state = State::Runnable;
        }
    }
}

/// Wakes one (chosen) thread waiting on the key.
pub fn wake_one(key: u64) {
    let kk = k();
    let w: Vec<Tid> = kk
        .threads
        .iter()
        .enumerate()
        .filter(|(_, t)| matches!(&t.state, State::Blocked { keys, .. } if keys.contains(&key)))
        .map(|(i, _)| i)
        .collect();
    if w.is_empty() {
        return;
    }
    let v = kk.decide(w.len(), 400);
    kk.threads[w[v]].timed_out = false;
    kk.threads[w[v]].state = State::Runnable;
}

pub fn now() -> u64 {
    if unsafe { (*K.0.get()).is_none() } { 1_000_000_000 } else { k().now }
}

pub fn sleep_ns(ns: u64) {
    if !active() {
        return;
    }
    let d = k().now.saturating_add(ns);
    let key = k().threads[cur()].done_key;
    while k().now < d {
        block_on("sleep", &[key], Some(d));
    }
}

/// A fault decision: 0 is no fault, otherwise one of `1..n`.
pub fn fault(site: &'static str, n: usize) -> usize {
    if !active() {
        return 0;
    }
    let kk = k();
    if !kk.faults_on {
        return 0;
    }
    let p = *kk.cfg.faults.get(site).unwrap_or(&0);
    if p == 0 {
        return 0;
    }
    let v = kk.decide_ppm(n, p * 100);
    if v > 0 {
        *kk.fault_counts.entry(format!("{site}:{v}")).or_default() += 1;
        kk.tlog(|| format!("fault {site}:{v}"));
    }
    v
}

impl Kernel {
    /// How often a fault of this site was injected.
    pub fn fault_count(&self, site: &str) -> u64 {
        self.fault_counts.iter().filter(|(k, _)| k.split(':').next() == Some(site)).map(|(_, v)| *v).sum()
    }
}

/// A recorded, unweighted choice in `0..n` (0 is the default in a minimised trace).
pub fn choose(n: usize) -> usize {
    if !active() {
        return 0;
    }
    k().decide(n, 1000)
}

/// Runs `f` with every other thread frozen. Returns the site at which `f` would have had to wait, if any; in that
/// case the others were let go on from there.
pub fn solo<R>(f: impl FnOnce() -> R) -> (R, Option<&'static str>) {
    let kk = k();
    kk.solo = Some(cur());
    kk.solo_blocked = None;
    let r = f();
    let kk = k();
    kk.solo = None;
    (r, kk.solo_blocked.take())
}

// --- threads ---

struct ExitGuard;
impl Drop for ExitGuard {
    fn drop(&mut self) {
        thread_exited();
    }
}

thread_local! {
    // Registered first, so destroyed last: every other thread-local destructor runs with the baton held.
    static GUARD: UnsafeCell<Option<ExitGuard>> = const { UnsafeCell::new(None) };
}

fn thread_exited() {
    let me = CUR.get();
    if me == usize::MAX {
        return;
    }
    let kk = k();
    kk.threads[me].state = State::Finished;
    let key = kk.threads[me].done_key;
    wake(key);
    let pid = kk.threads[me].pid;
    // The last thread of a process takes the process with it only through its main thread; see `spawn_process`.
    let _ = pid;
    if kk.end.is_some() {
        return;
    }
    CUR.set(usize::MAX);
    if me == 0 {
        finish_run(End::Done);
        return;
    }
    match kk.pick(usize::MAX, false) {
        None => {
            let r = kk.blocked_report();
            finish_run(End::Deadlock(r));
        }
        Some(next) => {
            kk.switches += 1;
            kk.sched_hash = hash_step(kk.sched_hash, (next as u64) << 32 | kk.steps & 0xffff_ffff);
            hand_over(next);
        }
    }
}

pub fn is_finished(t: Tid) -> bool {
    k().threads[t].state == State::Finished
}

/// Spawns a simulated thread of the given process.
pub fn spawn_thread(name: String, pid: Pid, f: Box<dyn FnOnce() + Send>) -> Tid {
    let kk = k();
    let tid = kk.threads.len();
    let parker = Arc::new(Parker { go: AtomicBool::new(false), thread: Mutex::new(None) });
    let prio = 1_000_000 + kk.rng.below(1_000_000);
    kk.threads.push(Th {
        name,
        pid,
        state: State::Runnable,
        parker: parker.clone(),
        prio,
        timed_out: false,
        park_token: false,
        site: "start",
        done_key: new_key(),
        no_stall: false,
    });
    let h = std::thread::Builder::new()
        .stack_size(16 << 20)
        .spawn(move || {
            GUARD.with(|g| unsafe { *g.get() = Some(ExitGuard) });
            park_until_go(&parker);
            CUR.set(tid);
            f();
        })
        .expect("cannot spawn an OS thread");
    *kk.threads[tid].parker.thread.lock().unwrap() = Some(h.thread().clone());
    // The baton may have been... it cannot: we hold it.
    tid
}

pub struct RunResult {
    pub end: End,
    pub kernel: Box<Kernel>,
}

/// Runs `root` as thread 0 of the host process until it ends. Threads left over stay parked for ever.
pub fn run(cfg: Config, root: Box<dyn FnOnce() + Send>) -> RunResult {
    assert!(!active());
    let kernel = Box::new(Kernel::new(cfg));
    unsafe { *K.0.get() = Some(kernel) };
    *RUN.0.lock().unwrap() = None;
    let t = spawn_thread("root".into(), HOST, root);
    k().threads[t].no_stall = true;
    hand_over(t);
    let mut g = RUN.0.lock().unwrap();
    while g.is_none() {
        g = RUN.1.wait(g).unwrap();
    }
    let end = g.take().unwrap();
    drop(g);
    let kernel = unsafe { (*K.0.get()).take().unwrap() };
    RunResult { end, kernel }
}

// --- processes ---

pub fn new_pid() -> Pid {
    let kk = k();
    let p = kk.next_pid;
    kk.next_pid += 1;
    p
}

pub fn new_pipe(reader_pid: Pid, writer_pid: Pid) -> u64 {
    let kk = k();
    let id = kk.next_key;
    kk.next_key += 1;
    let cap = kk.cfg.pipe_capacity;
    kk.pipes.insert(id, Pipe {
        buf: VecDeque::new(),
        cap,
        readers: 1,
        writers: 1,
        reader_pid,
        writer_pid,
        key: new_key(),
        total: 0,
        sabotage: None,
    });
    id
}

fn epipe() -> std::io::Error {
    std::io::Error::from_raw_os_error(32)
}

pub fn pipe_read(id: u64, out: &mut [u8]) -> std::io::Result<usize> {
    point("pipe.read");
    if out.is_empty() {
        return Ok(0);
    }
    loop {
        let kk = k();
        let p = kk.pipes.get_mut(&id).unwrap();
        if !p.buf.is_empty() {
            let n = p.buf.len().min(out.len());
            let key = p.key;
            // Short reads.
            let v = fault("pipe.short_read", 4);
            let n = if v > 0 { n.min(1 << (v * 2)) } else { n };
            let p = k().pipes.get_mut(&id).unwrap();
            for b in out[..n].iter_mut() {
                *b = p.buf.pop_front().unwrap();
            }
            wake(key);
            return Ok(n);
        }
        if p.writers == 0 {
            return Ok(0);
        }
        let key = p.key;
        block_on("pipe.read.wait", &[key], None);
    }
}

pub fn pipe_write(id: u64, data: &[u8]) -> std::io::Result<usize> {
    point("pipe.write");
    if data.is_empty() {
        return Ok(0);
    }
    loop {
        let kk = k();
        let p = kk.pipes.get_mut(&id).unwrap();
        if p.readers == 0 {
            return Err(epipe());
        }
        let room = p.cap - p.buf.len();
        if room > 0 {
            let mut n = room.min(data.len());
            let v = fault("pipe.short_write", 4);
            if v > 0 {
                n = n.min(1 << (v * 2));
            }
            let p = k().pipes.get_mut(&id).unwrap();
            let key = p.key;
            let mut sab = None;
            for &b in &data[..n] {
                let mut b = b;
                match p.sabotage {
                    Some((at, kind)) if p.total >= at => match kind {
                        Sabotage::Garbage => b ^= 0x5a ^ (p.total as u8),
                        Sabotage::OneByte => {
                            b ^= 0x41;
                            p.sabotage = None;
                        }
                        Sabotage::Cut | Sabotage::Hang => {
                            sab = Some(kind);
                            break;
                        }
                    },
                    _ => {}
                }
                p.buf.push_back(b);
                p.total += 1;
            }
            let wpid = p.writer_pid;
            wake(key);
            match sab {
                Some(Sabotage::Cut) => {
                    kill_process(wpid, 9);
                    die();
                }
                Some(Sabotage::Hang) => {
                    // Never returns to the caller; a kill ends it.
                    loop {
                        let key = new_key();
                        block_on("sabotage.hang", &[key], None);
                    }
                }
                _ => {}
            }
            return Ok(n);
        }
        let key = p.key;
        block_on("pipe.write.wait", &[key], None);
    }
}

pub fn pipe_close(id: u64, writer: bool) {
    if unsafe { (*K.0.get()).is_none() } {
        return;
    }
    // A handle left over from an earlier run refers to nothing here.
    if let Some(p) = k().pipes.get_mut(&id) {
        if writer {
            p.writers = 0;
        } else {
            p.readers = 0;
        }
        let key = p.key;
        wake(key);
    }
}

/// Starts a process whose main thread runs `f`; returning from it exits the process.
pub fn start_process(pid: Pid, name: &str, f: Box<dyn FnOnce() -> i32 + Send>) {
    spawn_thread(format!("{name}-main"), pid, Box::new(move || {
        let code = match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
            Ok(c) => c,
            Err(_) => 101,
        };
        exit_process(code);
    }));
}

/// `exit(2)` of the calling process.
pub fn exit_process(code: i32) -> ! {
    point("exit");
    let pid = cur_pid();
    if pid == HOST {
        fail_fatal("host.exit", format!("the host process called exit({code})"));
    }
    terminate(pid, (code & 0xff) << 8);
    die()
}

/// The calling thread's process is gone: never return.
fn die() -> ! {
    let me = cur();
    let kk = k();
    kk.threads[me].state = State::Finished;
    match kk.pick(me, false) {
        None => {
            let r = kk.blocked_report();
            end_run(End::Deadlock(r));
        }
        Some(next) => {
            kk.switches += 1;
            hand_over(next);
        }
    }
    park_forever()
}

/// Ends the calling thread if its process was ended meanwhile.
pub fn check_alive() {
    let kk = k();
    if matches!(kk.procs[&cur_pid()].state, ProcState::Zombie(_) | ProcState::Reaped) {
        die();
    }
}

fn terminate(pid: Pid, status: i32) {
    let kk = k();
    let now = kk.now;
    let p = kk.procs.get_mut(&pid).unwrap();
    if matches!(p.state, ProcState::Zombie(_) | ProcState::Reaped) {
        return;
    }
    p.state = ProcState::Zombie(status);
    p.exited_at = now;
    let key = p.key;
    for t in &mut kk.threads {
        if t.pid == pid && t.state != State::Finished {
            t.state = State::Finished;
        }
    }
    let pipes: Vec<(u64, bool, bool)> =
        kk.pipes.iter().map(|(id, p)| (*id, p.reader_pid == pid, p.writer_pid == pid)).filter(|x| x.1 || x.2).collect();
    for (id, reader, writer) in pipes {
        if reader {
            pipe_close(id, false);
        }
        if writer {
            pipe_close(id, true);
        }
    }
    wake(key);
    kk.tlog(|| format!("process {pid} terminated, status {status:#x}"));
}

/// Kills the process with a signal. If it is the caller's own process the caller must `die`.
pub fn kill_process(pid: Pid, sig: i32) {
    terminate(pid, sig);
}

/// Kills another process, which takes a moment to die of it.
pub fn kill_soon(pid: Pid, sig: i32) -> bool {
    let kk = k();
    if pid == cur_pid() || !matches!(kk.procs.get(&pid).map(|p| &p.state), Some(ProcState::Running | ProcState::Stopped)) {
        return signal(pid, sig);
    }
    let delay = [0, 20_000, 400_000, 4_000_000][choose(4)];
    if delay == 0 {
        return signal(pid, sig);
    }
    let t = spawn_thread(format!("kill-{pid}"), KERNEL, Box::new(move || {
        sleep_ns(delay);
        signal(pid, sig);
        die()
    }));
    kk.threads[t].no_stall = true;
    true
}

/// Sends a signal; returns false when there is no such live process.
pub fn signal(pid: Pid, sig: i32) -> bool {
    let kk = k();
    let now = kk.now;
    kk.tlog(|| format!("signal {sig} to {pid}"));
    let Some(p) = kk.procs.get_mut(&pid) else { return false };
    match p.state {
        ProcState::Reaped => return false,
        ProcState::Zombie(_) => return true,
        _ => {}
    }
    match sig {
        9 | 15 | 6 | 11 | 2 => {
            if pid == cur_pid() {
                kill_process(pid, sig);
                die();
            }
            kill_process(pid, sig)
        }
        19 | 20 => {
            if p.state != ProcState::Stopped {
                p.state = ProcState::Stopped;
                p.stopped_since = now;
            }
        }
        18 => p.state = ProcState::Running,
        0 => {}
        _ => {}
    }
    true
}
