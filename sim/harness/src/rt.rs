//! The runtime under several clients: every kind of request, every fault, all the oracles at once.

use crate::{
    Scenario, Spec, exec,
    gen_::pick,
    world::{self, Contract, MS, SEC, g, ms},
};
use alloy_primitives::Bytes;
use revm_context_interface::cfg::GasParams;
use revm_primitives::hardfork::SpecId;
use revmc_runtime::runtime::{
    AotRequest, CompilationKind, CompiledProgram, InterpretReason, JitBackend, JitMode, LookupDecision, LookupRequest, ProgramKind,
    RuntimeCacheKey, RuntimeTuning,
};
use simk::{ProcState, Rng};
use std::{
    cell::UnsafeCell,
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};

#[derive(Clone, Debug)]
pub struct Key {
    pub c: usize,
    pub con: Contract,
    pub spec: SpecId,
}

impl Key {
    pub fn rt(&self) -> RuntimeCacheKey {
        RuntimeCacheKey { code_hash: self.con.hash, spec_id: self.spec }
    }
    pub fn req(&self) -> LookupRequest {
        LookupRequest { key: self.rt(), code: self.con.code.clone() }
    }
}

#[derive(Clone, Debug)]
pub enum Op {
    Lookup(usize, u32),
    Get(usize),
    Tracked(usize),
    Compile(usize),
    Sync(usize),
    Blocking(usize),
    Aot(Vec<usize>),
    Clear(u8),
    Pause,
    Resume,
    Stats,
    Hold(usize),
    ExecHeld,
    DropHeld,
    Sleep(u64),
    Enable(bool),
    Handle,
    Ineligible(u8),
    Barrier,
    KillHelper(bool),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum ReqKind {
    Explicit,
    Miss,
}

/// What the clients did. Only touched by the thread that holds the baton.
#[derive(Default)]
pub struct Hist {
    /// Requests and observed misses: start, contract, kind.
    pub reqs: Vec<(u64, usize, ReqKind)>,
    pub hits: u64,
    pub misses: u64,
    pub tracked_hits: u64,
    pub tracked_misses: u64,
    /// Clears of resident programs: start, whether persisted artifacts were cleared too.
    pub clears: Vec<(u64, bool)>,
    /// Clears whose call has returned (a prefix is not implied: see `sent`).
    pub sent: BTreeSet<usize>,
    /// Clears known to be processed.
    pub processed: BTreeSet<usize>,
    pub persisted_clears: u64,
    pub ineligible: BTreeSet<alloy_primitives::B256>,
    pub max_pending: u64,
    pub syncs: u64,
    /// What was requested of either kind, if `kinds`: completely.
    pub kinds: bool,
    pub jit_asked: BTreeSet<usize>,
    pub aot_asked: BTreeSet<usize>,
}
struct Cell(UnsafeCell<Option<Box<Hist>>>);
unsafe impl Sync for Cell {}
static H: Cell = Cell(UnsafeCell::new(None));
pub fn h() -> &'static mut Hist {
    unsafe { (*H.0.get()).as_deref_mut().unwrap() }
}
pub fn reset() {
    unsafe { *H.0.get() = Some(Box::default()) };
}

/// What the run is like, for the oracles.
#[derive(Clone, Debug)]
pub struct Env {
    pub keys: Vec<Key>,
    pub gp: Option<GasParams>,
    pub tuning: RuntimeTuning,
    pub oop: bool,
    pub aot: bool,
    pub store: bool,
    pub blocking: bool,
    /// Nothing but scheduling and compile times is abnormal.
    pub pure_: bool,
    /// No limit is ever reached.
    pub ample: bool,
    pub evicts: bool,
    pub helper_faults: bool,
}

/// A program was found for this key.
pub fn check_program(env: &Env, k: usize, p: &CompiledProgram, run: bool, t0: u64, how: &str) {
    let key = &env.keys[k];
    if p.key != key.rt() {
        simk::fail("C02.key", format!("{how} of {:?} yields a program that says {:?}", key.rt(), p.key));
    }
    let addr = p.func.into_inner() as usize;
    let uid = simcode::compile_of(addr);
    let c = uid.and_then(|u| simcode::compiles().iter().find(|c| c.uid == u));
    if let Some(c) = c {
        let m: [u64; 4] = *key.con.marker.as_limbs();
        if !c.words.contains(&m) {
            simk::fail("C02.code", format!("{how} of contract {} ({}) yields the code of {:?}", key.c, key.con.hash, c.symbol));
        }
        // Anything compiled before a clear that was certainly processed before this call.
        for (i, (start, all)) in h().clears.iter().enumerate() {
            if c.begin < *start && h().processed_before(i, t0) && (p.kind == ProgramKind::Jit || *all) {
                simk::fail(
                    "C05.stale_program",
                    format!("{how} of contract {} yields {:?} code whose compilation began at {} ns, before a clear at {} ns that was processed before the call", key.c, p.kind, c.begin - SEC, start - SEC),
                );
            }
        }
    }
    if run {
        run_program(env, k, p, how);
    }
}

impl Hist {
    fn processed_before(&self, clear: usize, t: u64) -> bool {
        // `processed` is only extended when a barrier returns, which is recorded with its time.
        self.processed.contains(&clear) && self.processed_at(clear) <= t
    }
    fn processed_at(&self, clear: usize) -> u64 {
        *g().marks.get(&(clear as u64)).unwrap_or(&u64::MAX)
    }
}

pub fn run_program(env: &Env, k: usize, p: &CompiledProgram, how: &str) {
    let key = &env.keys[k];
    let inputs = [Bytes::new(), Bytes::from(vec![7u8; 40])];
    for i in inputs {
        let want = exec::interpreted(&key.con.code, key.con.hash, key.spec, &i, env.gp.as_ref());
        let got = exec::compiled(p.func, &key.con.code, key.con.hash, key.spec, &i, env.gp.as_ref());
        if !exec::same(&got, &want) {
            simk::fail("C02.behaviour", format!("the program found by {how} for contract {} under {:?} gives {got:?}, the interpreter {want:?}", key.c, key.spec));
            break;
        }
    }
}

/// Calls that must not wait.
pub fn nonblocking<R>(what: &str, solo: bool, map_locks: bool, f: impl FnOnce() -> R) -> R {
    if !solo {
        return f();
    }
    let (r, blocked) = simk::solo(f);
    if let Some(site) = blocked {
        let lock = site.starts_with("dashmap.");
        let excused = map_locks
            && lock
            && simk::k().solo_sites.iter().any(|(p, s)| {
                *p == simk::HOST && (s.starts_with("dashmap.") || matches!(*s, "code.free" | "dlclose" | "code.dylib_remove"))
            });
        if !excused {
            let who: Vec<String> = simk::k().solo_sites.iter().map(|(p, s)| format!("{p}@{s}")).collect();
            simk::fail("C03.blocks", format!("{what} waits at {site} for another thread ({})", who.join(" ")));
        }
    }
    r
}

pub fn lookup(env: &Env, b: &JitBackend, k: usize, solo: bool) -> Option<Arc<CompiledProgram>> {
    let t0 = simk::now();
    let key = &env.keys[k];
    h().jit_asked.insert(k);
    if env.blocking {
        h().reqs.push((t0, key.c, ReqKind::Explicit));
    }
    let d = nonblocking("lookup", solo && !env.blocking, false, || b.lookup(key.req()));
    match d {
        LookupDecision::Compiled(p) => {
            if env.blocking {
                h().tracked_hits += 1;
            } else {
                h().hits += 1;
            }
            check_program(env, k, &p, false, t0, "lookup");
            Some(p)
        }
        LookupDecision::Interpret(r) => {
            match r {
                InterpretReason::NotReady => {
                    h().misses += 1;
                    h().reqs.push((t0, key.c, ReqKind::Miss));
                    if env.blocking {
                        simk::fail("C04.not_blocking", "a lookup in blocking mode returned NotReady");
                    }
                }
                InterpretReason::JitFailed => {
                    if !env.blocking {
                        simk::fail("C03.blocking", "a lookup in non-blocking mode tried to compile");
                    }
                }
                InterpretReason::Disabled => {}
                InterpretReason::Ineligible => simk::fail("C07.ineligible", format!("contract {} is reported as ineligible", key.c)),
            }
            None
        }
    }
}

/// Whether every clear so far has certainly been processed.
fn settled() -> bool {
    h().processed.len() == h().clears.len()
}

/// Runs a request that returns only after the backend has processed it, hence everything sent before it.
fn barrier<R>(f: impl FnOnce() -> R, ok: impl FnOnce(&R) -> bool) -> R {
    let before = h().sent.clone();
    let r = f();
    if ok(&r) {
        for c in before {
            if h().processed.insert(c) {
                g().marks.insert(c as u64, simk::now());
            }
        }
    }
    r
}

fn sync(env: &Env, b: &JitBackend, k: usize, blocking: bool) {
    let key = &env.keys[k];
    let t0 = simk::now();
    h().jit_asked.insert(k);
    h().reqs.push((t0, key.c, ReqKind::Explicit));
    h().syncs += 1;
    let before = settled().then(|| h().clears.len());
    // A command not yet processed may have been sent by anyone; only what was returned from counts as sent.
    let quiet_aot = true;
    let p = if blocking {
        // Not a barrier: it may be served without the backend.
        let d = b.lookup_blocking(key.req());
        match d {
            LookupDecision::Compiled(p) => {
                h().tracked_hits += 1;
                Some(p)
            }
            LookupDecision::Interpret(r) => {
                if r != InterpretReason::JitFailed {
                    simk::fail("C04.reason", format!("a blocking lookup returned {r:?}"));
                }
                None
            }
        }
    } else {
        let r = barrier(|| b.compile_jit_sync(key.req()), |r| r.is_ok());
        if let Err(e) = r {
            simk::fail("C04.error", format!("compile_jit_sync failed on a running backend: {e}"));
            return;
        }
        b.get_compiled(key.con.hash, key.spec)
    };
    match p {
        Some(p) => check_program(env, k, &p, simk::choose(3) == 0, t0, "synchronous compilation"),
        None => {
            // Evictions, clears that may be pending, faults and limits excuse it.
            if env.pure_ && env.ample && !env.evicts && quiet_aot && before == Some(h().clears.len()) {
                simk::fail("C04.not_delivered", format!("contract {} is not resident when its synchronous compilation (started at {} ns) returns", key.c, t0 - SEC));
            }
        }
    }
}

fn note_stats(env: &Env, b: &JitBackend, solo: bool) {
    let s = nonblocking("stats", solo, true, || b.stats());
    h().max_pending = h().max_pending.max(s.pending_jobs);
    if s.pending_jobs > env.tuning.jit_max_pending_jobs as u64 {
        simk::fail("C06.pending", format!("{} jobs in flight, the limit is {}", s.pending_jobs, env.tuning.jit_max_pending_jobs));
    }
    if s.events_queued > env.tuning.channel_capacity as u64 || s.command_queue_len > env.tuning.channel_capacity as u64 {
        simk::fail("C06.queue", format!("{} events and {} commands queued, capacity {}", s.events_queued, s.command_queue_len, env.tuning.channel_capacity));
    }
}

pub fn live_helpers() -> Vec<simk::Pid> {
    simk::k().procs.values().filter(|p| world::is_helper(&p.env, &p.exe) && matches!(p.state, ProcState::Running | ProcState::Stopped)).map(|p| p.pid).collect()
}

pub fn client(env: Arc<Env>, b: JitBackend, ops: Vec<Op>) {
    let mut held: Vec<(usize, Arc<CompiledProgram>)> = vec![];
    let mut b = b;
    for op in ops {
        simk::k().tlog(|| format!("op {op:?}"));
        let solo = simk::choose(2) == 0;
        match op {
            Op::Lookup(k, n) => {
                for _ in 0..n {
                    if let Some(p) = lookup(&env, &b, k, solo)
                        && simk::choose(3) == 0
                    {
                        run_program(&env, k, &p, "lookup");
                    }
                }
            }
            Op::Get(k) => {
                let key = &env.keys[k];
                let t0 = simk::now();
                if let Some(p) = nonblocking("get_compiled", solo, true, || b.get_compiled(key.con.hash, key.spec)) {
                    check_program(&env, k, &p, simk::choose(3) == 0, t0, "get_compiled");
                }
            }
            Op::Tracked(k) => {
                let key = &env.keys[k];
                let t0 = simk::now();
                match nonblocking("get_compiled_tracked", solo, true, || b.get_compiled_tracked(key.con.hash, key.spec)) {
                    Some(p) => {
                        h().tracked_hits += 1;
                        check_program(&env, k, &p, false, t0, "get_compiled_tracked");
                    }
                    None => h().tracked_misses += 1,
                }
            }
            Op::Compile(k) => {
                h().jit_asked.insert(k);
                h().reqs.push((simk::now(), env.keys[k].c, ReqKind::Explicit));
                b.compile_jit(env.keys[k].req());
            }
            Op::Sync(k) => sync(&env, &b, k, false),
            Op::Blocking(k) => sync(&env, &b, k, true),
            Op::Aot(ks) => {
                let mut v = vec![];
                for k in ks {
                    let key = &env.keys[k];
                    h().aot_asked.insert(k);
                    h().reqs.push((simk::now(), key.c, ReqKind::Explicit));
                    v.push(AotRequest { code_hash: key.con.hash, code: key.con.code.clone(), spec_id: key.spec });
                }
                b.prepare_aot_batch(v);
            }
            Op::Clear(w) => {
                if w == 1 {
                    h().persisted_clears += 1;
                    b.clear_persisted();
                } else {
                    h().clears.push((simk::now(), w == 2));
                    let i = h().clears.len() - 1;
                    if w == 0 {
                        b.clear_resident();
                    } else {
                        b.clear_all();
                    }
                    h().sent.insert(i);
                }
            }
            Op::Pause => nonblocking("pause", solo, false, || b.pause()),
            Op::Resume => nonblocking("resume", solo, false, || b.resume()),
            Op::Stats => {
                note_stats(&env, &b, solo);
                nonblocking("is_paused", solo, false, || b.is_paused());
                nonblocking("enabled", solo, false, || b.enabled());
            }
            Op::Hold(k) => {
                if let Some(p) = lookup(&env, &b, k, false) {
                    held.push((k, p));
                }
            }
            Op::ExecHeld => {
                if !held.is_empty() {
                    let i = simk::choose(held.len());
                    run_program(&env, held[i].0, &held[i].1, "an earlier lookup");
                }
            }
            Op::DropHeld => {
                if !held.is_empty() {
                    let i = simk::choose(held.len());
                    drop(held.swap_remove(i));
                }
            }
            Op::Sleep(n) => simk::sleep_ns(n),
            Op::Enable(on) => {
                if let Err(e) = b.set_enabled(on) {
                    simk::fail("C16.enable", format!("set_enabled({on}) failed on a running backend: {e}"));
                }
            }
            Op::Handle => {
                let c = b.clone();
                simk::point("clone");
                drop(std::mem::replace(&mut b, c));
            }
            Op::Ineligible(w) => {
                let code = match w {
                    0 => Bytes::new(),
                    _ => {
                        let mut v = env.keys[0].con.code.to_vec();
                        v.resize(env.tuning.jit_max_bytecode_len + 1, w);
                        Bytes::from(v)
                    }
                };
                let key = RuntimeCacheKey { code_hash: alloy_primitives::keccak256(&code), spec_id: env.keys[0].spec };
                h().ineligible.insert(key.code_hash);
                let req = LookupRequest { key, code };
                match simk::choose(4) {
                    0 => b.compile_jit(req),
                    1 => {
                        let _ = barrier(|| b.compile_jit_sync(req), |r| r.is_ok());
                    }
                    2 => match b.lookup(req) {
                        LookupDecision::Interpret(InterpretReason::Ineligible | InterpretReason::Disabled) => {}
                        d => simk::fail("C06.ineligible", format!("a lookup of ineligible code gives {d:?}")),
                    },
                    _ => b.prepare_aot(AotRequest { code_hash: key.code_hash, code: req.code, spec_id: key.spec_id }),
                }
                if b.get_compiled(key.code_hash, key.spec_id).is_some() {
                    simk::fail("C06.ineligible", "ineligible code was compiled");
                }
            }
            Op::Barrier => {
                let req = LookupRequest { key: env.keys[0].rt(), code: Bytes::new() };
                let r = barrier(|| b.compile_jit_sync(req), |r| r.is_ok());
                if let Err(e) = r {
                    simk::fail("C04.error", format!("compile_jit_sync failed on a running backend: {e}"));
                }
            }
            Op::KillHelper(kill) => {
                let l = live_helpers();
                if !l.is_empty() {
                    let p = l[simk::choose(l.len())];
                    simk::signal(p, if kill { 9 } else { 19 });
                }
            }
        }
    }
    // Handles outlive the clients.
    g().held.extend(held.into_iter().map(|(k, p)| (k, Box::new(p) as Box<dyn std::any::Any + Send>)));
}

// --- the end of a run ---

/// Waits until nothing moves any more. Returns whether it got there.
pub fn quiesce(b: &JitBackend, env: &Env) -> bool {
    let tick = env.tuning.event_drain_interval.min(env.tuning.eviction_sweep_interval).as_nanos() as u64;
    let mut last = None;
    let mut same = 0;
    world::wait_until(600 * SEC, (tick * 3).max(5 * MS), || {
        let s = b.stats();
        let v = (s.lookup_hits, s.lookup_misses, s.events_queued, s.command_queue_len, s.compilations_dispatched, s.compilations_succeeded, s.compilations_failed, s.resident_entries);
        let running = simcode::compiles().iter().any(|c| c.end == 0 && alive(c.pid));
        if Some(v) == last && s.events_queued == 0 && s.command_queue_len == 0 && !running {
            same += 1;
        } else {
            same = 0;
        }
        last = Some(v);
        // Long enough for a job that a helper sits on to be given up.
        same >= 3 && (s.pending_jobs == 0 || simk::now() > g().calm_at + 60 * SEC)
    })
}

fn alive(pid: simk::Pid) -> bool {
    matches!(simk::k().procs.get(&pid).map(|p| &p.state), Some(ProcState::Running | ProcState::Stopped))
}

pub fn check_stats(env: &Env, b: &JitBackend) {
    let s = b.stats();
    let hh = h();
    let clears = !hh.clears.is_empty();
    let fail = |d: String| simk::fail("C10.stats", d);
    let (hits, misses) = (hh.hits + hh.tracked_hits, hh.misses + hh.tracked_misses);
    // A blocking lookup is a tracked query before and, if that misses, another one afterwards: not modelled exactly.
    if !env.blocking && hh.syncs == 0 {
        let total = s.lookup_hits + s.lookup_misses + s.events_dropped;
        if (!clears && total != hits + misses) || total > hits + misses {
            fail(format!("{hits} hits and {misses} misses were returned, but {} hits, {} misses and {} dropped are counted", s.lookup_hits, s.lookup_misses, s.events_dropped));
        }
        if s.lookup_hits > hits || s.lookup_misses > misses {
            fail(format!("{hits} hits and {misses} misses were returned, but {} hits and {} misses are counted", s.lookup_hits, s.lookup_misses));
        }
    }
    if s.events_queued != 0 || s.command_queue_len != 0 {
        fail(format!("{} events and {} commands are still queued", s.events_queued, s.command_queue_len));
    }
    if s.compilations_dispatched != s.compilations_succeeded + s.compilations_failed || s.pending_jobs != 0 {
        fail(format!(
            "{} compilations dispatched, {} succeeded, {} failed, {} reported in flight on a quiet runtime",
            s.compilations_dispatched, s.compilations_succeeded, s.compilations_failed, s.pending_jobs
        ));
    }
    let ev = &g().events;
    let ok = ev.iter().filter(|e| e.0.success).count() as u64;
    if !clears && ev.len() as u64 != s.compilations_dispatched {
        fail(format!("{} compilations dispatched, but the callback fired {} times", s.compilations_dispatched, ev.len()));
    }
    if ev.len() as u64 > s.compilations_dispatched {
        fail(format!("{} compilations dispatched, but the callback fired {} times", s.compilations_dispatched, ev.len()));
    }
    if !clears && ok < s.compilations_succeeded {
        fail(format!("{} compilations succeeded, but the callback reported {ok}", s.compilations_succeeded));
    }
    if env.pure_ && !clears && !env.aot && !env.store && g().aots == 0 && (ok != s.compilations_succeeded || s.compilations_failed != 0) {
        fail(format!("without faults {} compilations succeeded and {} failed, the callback reported {ok} successes of {}", s.compilations_succeeded, s.compilations_failed, ev.len()));
    }
    for (e, _) in ev {
        let Some(i) = env.keys.iter().position(|k| k.con.hash == e.code_hash && k.spec == e.spec_id) else {
            simk::fail("C10.event", format!("the callback fired for {} under {:?}, which nobody asked for", e.code_hash, e.spec_id));
            continue;
        };
        // On an ahead-of-time runtime every compilation is one.
        let possible = match e.kind {
            _ if !hh.kinds => true,
            CompilationKind::Jit => !env.aot && hh.jit_asked.contains(&i),
            CompilationKind::Aot => env.aot || hh.aot_asked.contains(&i),
        };
        if !possible {
            simk::fail("C10.event", format!("the callback reports {:?} for contract {}, for which nothing of that kind was requested", e.kind, env.keys[i].c));
        }
    }
    for (c, con) in contracts(env) {
        let m = *con.marker.as_limbs();
        let done = simcode::compiles().iter().filter(|x| x.ok && x.words.contains(&m)).count();
        let told = ev.iter().filter(|e| e.0.success && e.0.code_hash == con.hash).count();
        if told > done {
            simk::fail("C10.event", format!("contract {c}: {done} successful compilations, {told} reported"));
        }
        if env.pure_ && !clears && !env.oop && !env.store && g().aots == 0 && told != done {
            simk::fail("C10.event", format!("contract {c}: {done} successful compilations, {told} reported"));
        }
    }
    // Nothing is inserted now; a sweep may still come.
    let (found, entries, lives, live) = simk::solo(|| {
        let mut ps: Vec<Arc<CompiledProgram>> = env.keys.iter().filter_map(|k| b.get_compiled(k.con.hash, k.spec)).collect();
        let found = ps.len() as u64;
        ps.extend(g().held.iter().filter_map(|(_, p)| p.downcast_ref::<Arc<CompiledProgram>>()).cloned());
        ps.sort_by_key(Arc::as_ptr);
        ps.dedup_by(|a, b| Arc::ptr_eq(a, b));
        let jit = ps.iter().filter(|p| p.kind == ProgramKind::Jit).count();
        (found, b.stats(), (jit, ps.len() - jit), simcode::mapped(simk::HOST))
    })
    .0;
    // Loading a library again yields the one that is loaded.
    if lives.0 != live.0 || lives.1 < live.1 {
        simk::fail(
            "C09.retained",
            format!("handles to {} in-memory programs and {} loaded artifacts exist on a quiet runtime, but the code of {} and {} is allocated", lives.0, lives.1, live.0, live.1),
        );
    }
    if found != entries.resident_entries {
        fail(format!("{} resident entries are reported, queries find {found}", entries.resident_entries));
    }
    if !clears && !env.store && entries.compilations_succeeded != found + entries.evictions {
        fail(format!("{} compilations succeeded, {} programs are resident, {} evictions are counted", entries.compilations_succeeded, found, entries.evictions));
    }
    if !env.evicts && entries.evictions != 0 {
        simk::fail("C08.eviction", format!("{} evictions without an eviction policy", entries.evictions));
    }
}

pub fn contracts(env: &Env) -> BTreeMap<usize, Contract> {
    env.keys.iter().map(|k| (k.c, k.con.clone())).collect()
}

/// Compilations against the requests that warrant them.
pub fn check_admission(env: &Env) {
    let t = env.tuning.jit_hot_threshold.max(1);
    let hh = h();
    let end_of = |c: &simcode::Compile| {
        if c.end != 0 {
            c.end
        } else {
            match simk::k().procs.get(&c.pid) {
                Some(p) if p.exited_at != 0 => p.exited_at,
                _ => simk::now(),
            }
        }
    };
    for (i, con) in contracts(env) {
        let m = *con.marker.as_limbs();
        let specs = env.keys.iter().filter(|k| k.c == i).count();
        let mut cs: Vec<&simcode::Compile> = simcode::compiles().iter().filter(|c| c.words.contains(&m)).collect();
        cs.sort_by_key(|c| c.begin);
        for (n, c) in cs.iter().enumerate() {
            let before = |k: ReqKind| hh.reqs.iter().filter(|r| r.0 <= c.begin && r.1 == i && r.2 == k).count();
            let (e, s) = (before(ReqKind::Explicit), before(ReqKind::Miss));
            if n + 1 > e + s / t {
                simk::fail(
                    "C06.unwarranted",
                    format!("compilation number {} of contract {i} starts at {} ns after {e} explicit requests and {s} observed misses; the threshold is {t}", n + 1, c.begin - SEC),
                );
                break;
            }
        }
        if !env.helper_faults && hh.clears.is_empty() && g().kills == 0 {
            for c in &cs {
                let n = cs.iter().filter(|d| d.begin <= c.begin && end_of(d) > c.begin).count();
                if n > specs {
                    simk::fail("C06.duplicate", format!("{n} compilations of contract {i} ({specs} hardforks) are running at {} ns", c.begin - SEC));
                    break;
                }
            }
        }
    }
    let all = simcode::compiles();
    if !env.helper_faults && g().kills == 0 && (hh.clears.is_empty() || !env.oop) {
        for c in all {
            let n = all.iter().filter(|d| d.begin <= c.begin && end_of(d) > c.begin).count();
            if n > env.tuning.jit_worker_count {
                simk::fail("C06.concurrency", format!("{n} compilations are running at {} ns on {} workers", c.begin - SEC, env.tuning.jit_worker_count));
                break;
            }
        }
    }
    let q = simk::k().counters.get("rayon.max_queue").copied().unwrap_or(0);
    let cap = (env.tuning.jit_worker_count * env.tuning.jit_worker_queue_capacity) as u64;
    if q > cap && !env.oop {
        simk::fail("C06.worker_queue", format!("{q} jobs were queued for the workers, the limit is {cap}"));
    }
}

/// Everything stays in demand until it is compiled.
pub fn demand(env: &Env, b: &JitBackend) {
    if let Err(e) = b.set_enabled(true) {
        simk::fail("C16.enable", format!("set_enabled(true) failed on a running backend: {e}"));
    }
    for k in 0..env.keys.len() {
        let key = env.keys[k].clone();
        let explicit = simk::choose(3) == 0 || env.blocking;
        let step = match env.tuning.idle_evict_duration {
            Some(d) => (d.as_nanos() as u64 / 4).min(20 * MS),
            None => 20 * MS,
        };
        let t0 = simk::now();
        let mut n = 0u64;
        let ok = world::wait_until(300 * SEC, step, || {
            n += 1;
            let t = simk::now();
            if explicit && n % 50 == 1 {
                h().jit_asked.insert(k);
                h().reqs.push((t, key.c, ReqKind::Explicit));
                b.compile_jit(key.req());
            }
            match lookup(env, b, k, false) {
                Some(p) => {
                    run_program(env, k, &p, "lookup");
                    true
                }
                None => false,
            }
        });
        if !ok {
            let s = b.stats();
            simk::fail(
                "C07.starved",
                format!("contract {} under {:?} is not compiled after {} lookups over {} s without faults (explicit requests: {explicit}): {s:?}", key.c, key.spec, n, (simk::now() - t0) / SEC),
            );
            return;
        }
    }
}

/// Drops the last handle and checks that nothing is left.
pub fn drop_runtime(env: &Env, b: JitBackend, clients: &[simk::Tid]) {
    simk::k().faults_on = false;
    simk::k().calm = true;
    let t0 = simk::now();
    drop(b);
    let took = simk::now() - t0;
    let limit = env.tuning.shutdown_timeout.as_nanos() as u64;
    if took > limit + 200 * MS {
        simk::fail("C11.slow_drop", format!("dropping the runtime took {} ms, the timeout is {} ms", took / MS, limit / MS));
    }
    nothing_left(t0, clients);
}

/// The runtime is gone: so is everything it started, in the end.
pub fn nothing_left(t0: u64, clients: &[simk::Tid]) {
    let left = || {
        let kk = simk::k();
        let mut v: Vec<String> = kk
            .threads
            .iter()
            .enumerate()
            .filter(|(i, t)| t.pid == simk::HOST && *i != 0 && !clients.contains(i) && !simk::is_finished(*i))
            .map(|(_, t)| format!("thread {:?} at {}", t.name, t.site))
            .collect();
        v.extend(
            kk.procs
                .values()
                .filter(|p| !matches!(p.pid, simk::HOST | simk::KERNEL) && p.state != ProcState::Reaped)
                .map(|p| format!("process {} ({}) is {:?}", p.pid, p.exe, p.state)),
        );
        v
    };
    if !world::wait_until(900 * SEC, 10 * MS, || left().is_empty()) {
        simk::fail("C11.left_over", format!("{} s after the drop: {}", (simk::now() - t0) / SEC, left().join("; ")));
    }
}

/// Handles that outlived the runtime still work; then everything goes.
pub fn release_held(env: &Env) {
    let held = std::mem::take(&mut g().held);
    for (k, p) in &held {
        if let Some(p) = p.downcast_ref::<Arc<CompiledProgram>>() {
            run_program(env, *k, p, "a lookup before the runtime was dropped");
        }
    }
    drop(held);
    let l = simcode::live(simk::HOST);
    if l != (0, 0, 0, 0) {
        simk::fail("C09.leak", format!("after the runtime and all handles are gone: {} modules, {} dylibs, {} libraries, {} bytes", l.0, l.1, l.2, l.3));
    }
}

// --- the scenario ---

struct Weights {
    oop: u64,
    clears: u64,
    small: u64,
    evict: u64,
    faulty: u64,
    abrupt: u64,
    aot: u64,
    pause: u64,
}

fn weights(p: &str) -> Weights {
    let mut w = Weights { oop: 33, clears: 35, small: 30, evict: 25, faulty: 45, abrupt: 5, aot: 15, pause: 30 };
    match p {
        "C02" => {
            w.faulty = 60;
            w.aot = 30;
            w.oop = 50;
        }
        "C03" => {
            w.small = 65;
            w.faulty = 60;
            w.pause = 70;
        }
        "C04" => {
            w.small = 25;
            w.clears = 40;
            w.faulty = 30;
        }
        "C05" => {
            w.clears = 100;
            w.faulty = 25;
        }
        "C06" => {
            w.small = 60;
            w.clears = 25;
            w.faulty = 30;
        }
        "C07" => {
            w.faulty = 75;
            w.oop = 50;
            w.evict = 30;
        }
        "C08" => w.evict = 80,
        "C09" => {
            w.evict = 60;
            w.clears = 50;
            w.abrupt = 30;
            w.faulty = 60;
            w.aot = 30;
        }
        "C10" => {
            w.clears = 30;
            w.faulty = 55;
        }
        "C11" => {
            w.abrupt = 80;
            w.oop = 60;
            w.small = 50;
            w.faulty = 60;
            w.pause = 50;
        }
        "C12" => {
            w.oop = 100;
            w.pause = 100;
        }
        "C13" => {
            w.oop = 100;
            w.faulty = 90;
        }
        "C14" => w.aot = 80,
        _ => {}
    }
    w
}

pub fn scenario(sp: &Spec) -> Scenario {
    reset();
    h().kinds = true;
    let mut r = Rng::new(sp.seed ^ 0x5274);
    let w = weights(&sp.prop);
    let yes = |r: &mut Rng, p: u64| r.below(100) < p;
    let mut cfg = world::config(&mut r);
    cfg.jit_mode = if yes(&mut r, w.oop) { JitMode::OutOfProcess } else { JitMode::InProcess };
    let oop = cfg.jit_mode == JitMode::OutOfProcess;
    let small = yes(&mut r, w.small);
    let clears = yes(&mut r, w.clears);
    let pauses = yes(&mut r, w.pause);
    let faulty = yes(&mut r, w.faulty);
    let abrupt = yes(&mut r, w.abrupt);
    let evict = yes(&mut r, w.evict);
    cfg.blocking = !matches!(sp.prop.as_str(), "C03" | "C10") && r.below(8) == 0;
    cfg.aot = yes(&mut r, w.aot);
    let aot_ops = cfg.aot || yes(&mut r, w.aot);
    let store = cfg.aot || aot_ops;
    let blocking = cfg.blocking;
    let t = &mut cfg.tuning;
    let ample = !small;
    if ample {
        t.channel_capacity = 256;
        t.max_events_per_drain = 256;
        t.jit_max_pending_jobs = 64;
        t.jit_worker_queue_capacity = 64;
    } else {
        t.channel_capacity = 1 + r.below(4) as usize;
        t.max_events_per_drain = 1 + r.below(3) as usize;
        t.jit_max_pending_jobs = 1 + r.below(3) as usize;
        t.jit_worker_queue_capacity = 1 + r.below(2) as usize;
    }
    if evict {
        if r.below(2) == 0 {
            t.idle_evict_duration = Some(ms(*pick(&mut r, &[30, 100, 1000])));
        } else {
            t.idle_evict_duration = None;
            t.resident_code_cache_bytes = 1 << r.range(10, 16);
        }
    } else {
        t.idle_evict_duration = None;
    }
    let budget = t.resident_code_cache_bytes > 0;
    if oop && !faulty {
        t.jit_timeout = ms(60_000);
    }

    let nc = 1 + r.below(4) as usize;
    let specs = world::all_specs();
    let ns = 1 + r.below(2) as usize;
    let mut keys = vec![];
    let base = specs[r.below(specs.len() as u64) as usize];
    let gp = (r.below(4) == 0).then(|| world::gas_params(&mut r, base));
    cfg.gas_params = gp.clone();
    for c in 0..nc {
        let size = if r.below(6) == 0 { 4000 } else { r.below(300) as usize };
        let con = world::contract(&mut r, c as u64, size);
        for s in 0..ns {
            let spec = if s == 0 { base } else { specs[(base as usize + 1 + r.below(specs.len() as u64 - 1) as usize) % specs.len()] };
            if keys.iter().all(|k: &Key| k.c != c || k.spec != spec) {
                keys.push(Key { c, con: con.clone(), spec });
            }
        }
    }
    // Stay below the cap on cold entries, which is not demand.
    cfg.tuning.jit_max_pending_jobs = cfg.tuning.jit_max_pending_jobs.max(1);

    let fl: Vec<(&'static str, u32)> = if faulty {
        let mut v = vec![
            ("llvm_new", 300),
            ("llvm_compile", 600),
            ("llvm_link", 300),
            ("compile_time", 2500),
            ("dlopen", 300),
            ("linker", 300),
            ("fs_write", 150),
            ("fs_read", 100),
            ("fs_open", 50),
            ("fs_create", 50),
            ("fs_rename", 100),
            ("pipe.short_read", 500),
            ("pipe.short_write", 500),
            ("spurious_wakeup", 100),
            ("spurious_cas", 200),
            ("wall_clock", 500),
        ];
        if oop {
            v.extend([("helper_start", 800), ("helper_output", 1500), ("process_spawn", 300), ("setrlimit", 200), ("setpgid", 50), ("current_exe", 100)]);
        }
        v
    } else {
        vec![("compile_time", if r.below(2) == 0 { 0 } else { 3000 }), ("spurious_wakeup", 100), ("spurious_cas", 200)]
    };
    let kcfg = simk::Config {
        policy: world::policy(&mut r),
        // A leap of the clock makes a healthy helper time out.
        leap: if oop && !faulty { 0 } else { *pick(&mut r, &[0, 0, 0, 5, 30]) },
        // So does a stalled one.
        stall: if oop && !faulty { 0 } else { *pick(&mut r, &[0, 0, 300]) },
        faults: world::faults(&fl),
        max_steps: 3_000_000,
        pipe_capacity: *pick(&mut r, &[65536, 65536, 65536, 4096]),
        ..Default::default()
    };

    let nclients = 1 + r.below(3) as usize;
    let mut plans = vec![];
    let nk = keys.len();
    for _ in 0..nclients {
        let n = 4 + r.below(if sp.tier > 0 { 50 } else { 22 });
        let mut v = vec![];
        let mut depth = 0;
        for _ in 0..n {
            let k = r.below(nk as u64) as usize;
            let op = match r.below(100) {
                0..=21 => Op::Lookup(k, 1 + (r.below(6) * r.below(2)) as u32),
                22..=25 => Op::Get(k),
                26..=28 => {
                    if blocking {
                        Op::Get(k)
                    } else {
                        Op::Tracked(k)
                    }
                }
                29..=36 => Op::Compile(k),
                37..=45 => {
                    if r.below(if sp.prop == "C10" { 1 } else { 4 }) == 0 {
                        Op::Sync(k)
                    } else if sp.prop == "C10" {
                        Op::Compile(k)
                    } else if r.below(4) == 0 {
                        Op::Blocking(k)
                    } else {
                        Op::Sync(k)
                    }
                }
                46..=50 if aot_ops => Op::Aot((0..1 + r.below(3)).map(|_| r.below(nk as u64) as usize).collect()),
                51..=56 if clears => Op::Clear(*pick(&mut r, &[0, 0, 1, 2])),
                57..=60 if clears => Op::Barrier,
                61..=66 if pauses => {
                    if depth > 0 && r.below(2) == 0 {
                        depth -= 1;
                        Op::Resume
                    } else if r.below(8) == 0 {
                        Op::Resume
                    } else {
                        depth += 1;
                        Op::Pause
                    }
                }
                67..=71 => Op::Stats,
                72..=77 => Op::Hold(k),
                78..=80 => Op::ExecHeld,
                81..=82 => Op::DropHeld,
                83..=91 => Op::Sleep(*pick(&mut r, &[20_000, MS, 5 * MS, 50 * MS, 500 * MS, 3 * SEC])),
                92 => Op::Enable(r.below(2) == 0),
                93..=94 => Op::Handle,
                95..=96 => Op::Ineligible(r.below(3) as u8),
                97..=98 if oop && faulty => Op::KillHelper(r.below(2) == 0),
                _ => Op::Lookup(k, 1),
            };
            if world::keep() {
                v.push(op);
            }
        }
        plans.push(v);
    }
    let ops = g().next_op;
    g().kills = plans.iter().flatten().filter(|o| matches!(o, Op::KillHelper(_))).count() as u64;
    g().aots = plans.iter().flatten().filter(|o| matches!(o, Op::Aot(_))).count() as u64;
    let env = Arc::new(Env {
        keys,
        gp,
        tuning: {
            let mut t = cfg.tuning;
            if blocking {
                t.jit_hot_threshold = 0;
            }
            t
        },
        oop,
        aot: cfg.aot,
        store,
        blocking,
        pure_: !faulty,
        ample,
        evicts: evict,
        helper_faults: oop && faulty,
    });
    if sp.verbose {
        eprintln!("{cfg:?}\nstore {store} faulty {faulty} abrupt {abrupt}");
        for (i, p) in plans.iter().enumerate() {
            eprintln!("client {i}: {p:?}");
        }
        for k in &env.keys {
            eprintln!("contract {} {:?} {} {} bytes", k.c, k.spec, k.con.hash, k.con.code.len());
        }
    }
    let late = abrupt && r.below(2) == 0;
    let dem = !budget && r.below(2) == 0 || sp.prop == "C07" && !budget;
    let root = Box::new(move || {
        simk::k().spawn_hook = Some(world::spawn_hook);
        simk::k().faults_on = false;
        if store {
            cfg.store = Some(world::temp_store());
        }
        let b = JitBackend::new(cfg).expect("backend");
        simk::k().faults_on = true;
        let mut ts = vec![];
        for (i, ops) in plans.into_iter().enumerate() {
            let (e, b) = (env.clone(), b.clone());
            ts.push(simk::spawn_thread(format!("client{i}"), simk::HOST, Box::new(move || client(e, b, ops))));
        }
        world::join(&b, &ts);
        if abrupt {
            if late {
                simk::sleep_ns(simk::choose(1000) as u64 * 100_000);
            }
        } else {
            world::calm(&b);
            if quiesce(&b, &env) {
                check_stats(&env, &b);
            } else {
                simk::fail("C07.restless", format!("the runtime does not become quiet: {:?}", b.stats()));
            }
            if dem {
                demand(&env, &b);
            }
        }
        note_stats(&env, &b, false);
        drop_runtime(&env, b, &ts);
        release_held(&env);
        check_admission(&env);
    });
    Scenario { cfg: kcfg, root, ops, mode: "chaos" }
}
