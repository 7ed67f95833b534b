//! Directed scenarios: a narrow workload with an exact reference model, under an arbitrary schedule.

use crate::{
    Scenario, Spec,
    gen_::pick,
    rt::{self, Env, Key, ReqKind, h},
    world::{self, MS, SEC, g, ms},
};
use alloy_primitives::Bytes;
use revmc_runtime::runtime::{
    AotRequest, ArtifactStore, CompiledProgram, InterpretReason, JitBackend, JitMode, LookupDecision, LookupRequest,
    ProgramKind, RuntimeArtifactStore, RuntimeConfig,
};
use simk::{ProcState, Rng};
use std::{collections::BTreeMap, sync::Arc};

pub struct Base {
    pub cfg: RuntimeConfig,
    pub keys: Vec<Key>,
    pub kcfg: simk::Config,
    pub env: Env,
}

/// A runtime without limits that matter and without faults.
pub fn base(r: &mut Rng, contracts: usize, specs: usize) -> Base {
    let mut cfg = world::config(r);
    let t = &mut cfg.tuning;
    t.channel_capacity = 256;
    t.max_events_per_drain = 256;
    t.jit_max_pending_jobs = 64;
    t.jit_worker_queue_capacity = 64;
    t.idle_evict_duration = None;
    t.resident_code_cache_bytes = 0;
    t.jit_timeout = ms(60_000);
    t.shutdown_timeout = ms(5000);
    let all = world::all_specs();
    let first = r.below(all.len() as u64) as usize;
    let gp = (r.below(4) == 0).then(|| world::gas_params(r, all[first]));
    cfg.gas_params = gp.clone();
    let mut keys = vec![];
    for c in 0..contracts {
        let size = if r.below(6) == 0 { 3000 } else { r.below(300) as usize };
        let con = world::contract(r, c as u64, size);
        for s in 0..specs {
            keys.push(Key { c, con: con.clone(), spec: all[(first + s * 3) % all.len()] });
        }
    }
    let kcfg = simk::Config {
        policy: world::policy(r),
        leap: 0,
        stall: 0,
        faults: world::faults(&[("spurious_wakeup", 100), ("spurious_cas", 200)]),
        max_steps: 3_000_000,
        ..Default::default()
    };
    let env = Env {
        keys: keys.clone(),
        gp,
        tuning: cfg.tuning,
        oop: cfg.jit_mode == JitMode::OutOfProcess,
        aot: false,
        store: false,
        blocking: false,
        pure_: true,
        ample: true,
        evicts: false,
        helper_faults: false,
    };
    rt::reset();
    Base { cfg, keys, kcfg, env }
}

impl Base {
    pub fn slow(&mut self, r: &mut Rng) {
        if r.below(2) == 0 {
            self.kcfg.faults.insert("compile_time", *pick(r, &[1000, 3000, 6000]));
        }
    }
    /// After the last change of the configuration.
    pub fn env(&mut self) -> Arc<Env> {
        self.env.tuning = self.cfg.tuning;
        self.env.oop = self.cfg.jit_mode == JitMode::OutOfProcess;
        self.env.keys = self.keys.clone();
        Arc::new(self.env.clone())
    }
}

pub fn spawn(name: &str, f: impl FnOnce() + Send + 'static) -> simk::Tid {
    simk::spawn_thread(name.into(), simk::HOST, Box::new(f))
}

pub fn join(what: &str, ts: &[simk::Tid]) {
    if !world::wait_until(1200 * SEC, 5 * MS, || ts.iter().all(|t| simk::is_finished(*t))) {
        simk::fail_fatal("hang", format!("{what}: {}", simk::k().blocked_report().join("; ")));
    }
}

/// Returns once everything sent before was processed.
pub fn fence(b: &JitBackend, k: &Key) {
    let req = LookupRequest { key: k.rt(), code: Bytes::new() };
    if let Err(e) = b.compile_jit_sync(req) {
        simk::fail("C04.error", format!("compile_jit_sync failed on a running backend: {e}"));
    }
}

pub fn resident(b: &JitBackend, k: &Key) -> Option<Arc<CompiledProgram>> {
    b.get_compiled(k.con.hash, k.spec)
}

pub fn aot(k: &Key) -> AotRequest {
    AotRequest { code_hash: k.con.hash, code: k.con.code.clone(), spec_id: k.spec }
}

pub fn compiles_of_contract(k: &Key) -> usize {
    let m = *k.con.marker.as_limbs();
    simcode::compiles().iter().filter(|c| c.words.contains(&m)).count()
}

pub fn began(p: &CompiledProgram) -> Option<u64> {
    let uid = simcode::compile_of(p.func.into_inner() as usize)?;
    simcode::compiles().iter().find(|c| c.uid == uid).map(|c| c.begin)
}

pub fn boot(cfg: RuntimeConfig) -> JitBackend {
    simk::k().spawn_hook = Some(world::spawn_hook);
    JitBackend::new(cfg).expect("backend")
}

pub fn settle(b: &JitBackend, env: &Env) {
    g().calm_at = simk::now();
    if !rt::quiesce(b, env) {
        simk::fail("C07.restless", format!("the runtime does not become quiet: {:?}", b.stats()));
    }
}

pub fn end(b: JitBackend, env: &Env, ts: &[simk::Tid]) {
    rt::drop_runtime(env, b, ts);
    rt::release_held(env);
}

// --- C05 ---

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum How {
    Compile,
    Sync,
    Lookups,
    Aot,
}

fn hows(r: &mut Rng, store: bool) -> How {
    match r.below(if store { 8 } else { 6 }) {
        0..=2 => How::Compile,
        3 => How::Sync,
        4..=5 => How::Lookups,
        _ => How::Aot,
    }
}

pub fn ask(env: &Env, b: &JitBackend, k: usize, how: How) {
    let key = &env.keys[k];
    simk::k().tlog(|| format!("ask {k} {how:?}"));
    match how {
        How::Compile => b.compile_jit(key.req()),
        How::Sync => {
            if let Err(e) = b.compile_jit_sync(key.req()) {
                simk::fail("C04.error", format!("compile_jit_sync failed on a running backend: {e}"));
            }
        }
        How::Lookups => {
            for _ in 0..env.tuning.jit_hot_threshold.max(1) {
                b.lookup(key.req());
            }
        }
        How::Aot => b.prepare_aot(aot(key)),
    }
}

/// Requests, a clear somewhere among their compilations, and new requests for some of the keys.
pub fn clear_race(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0xC1EA);
    let n = 1 + r.below(4) as usize;
    let mut ba = base(&mut r, n, 1);
    ba.slow(&mut r);
    let store = r.below(3) == 0;
    let all = r.below(2) == 0;
    let nk = ba.keys.len();
    let mut before = vec![];
    for _ in 0..1 + r.below(6) {
        let x = (r.below(nk as u64) as usize, hows(&mut r, store), *pick(&mut r, &[0, 0, 50_000, MS, 20 * MS]));
        if world::keep() {
            before.push(x);
        }
    }
    let mut after = vec![];
    for k in 0..nk {
        if r.below(2) == 0 {
            let x = (k, hows(&mut r, store), *pick(&mut r, &[0, 0, 50_000, MS, 400 * MS]));
            if world::keep() {
                after.push(x);
            }
        }
    }
    // The same contracts again: what is in progress is not started once more.
    for _ in 0..r.below(4) {
        if let Some((k, how, _)) = after.get(r.below(after.len().max(1) as u64) as usize).copied() {
            let x = (k, if how == How::Aot { how } else { *pick(&mut r, &[How::Compile, How::Compile, How::Lookups, How::Sync]) }, *pick(&mut r, &[0, 50_000, MS, 5 * MS]));
            if how != How::Aot && world::keep() {
                after.push(x);
            }
        }
    }
    let two = r.below(2) == 0;
    let keep_handles = r.below(2) == 0;
    let ops = g().next_op;
    let env = ba.env();
    let Base { mut cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        let st = store.then(world::temp_store);
        cfg.store = st.clone().map(|s| s as Arc<dyn ArtifactStore>);
        let b = boot(cfg);
        let mut ts = vec![];
        // Requests from two threads, all of them made before the clear.
        let gap = before.first().map(|x| x.2).unwrap_or(0);
        if two {
            let (e, b2, l) = (env.clone(), b.clone(), before.clone());
            ts.push(spawn("client0", move || l.iter().step_by(2).for_each(|x| ask(&e, &b2, x.0, x.1))));
            before.iter().skip(1).step_by(2).for_each(|x| ask(&env, &b, x.0, x.1));
            join("requests before the clear", &ts);
        } else {
            before.iter().for_each(|x| ask(&env, &b, x.0, x.1));
        }
        simk::sleep_ns(gap);
        if keep_handles {
            for (i, k) in env.keys.iter().enumerate() {
                if let Some(p) = resident(&b, k) {
                    g().held.push((i, Box::new(p)));
                }
            }
        }
        let t0 = simk::now();
        if all {
            b.clear_all();
        } else {
            b.clear_resident();
        }
        let asked: BTreeMap<usize, How> = after.iter().map(|x| (x.0, x.1)).collect();
        let mut processed = None;
        if after.iter().any(|x| x.1 == How::Lookups) || simk::choose(2) == 0 {
            // Lookups only count once the clear has been processed.
            fence(&b, &env.keys[0]);
            processed = Some(g().events.len());
        }
        for (k, how, gap) in &after {
            simk::sleep_ns(*gap);
            ask(&env, &b, *k, *how);
            if *how == How::Sync && resident(&b, &env.keys[*k]).is_none() {
                simk::fail("C05.straggler", format!("contract {k} is not resident when its synchronous compilation, requested after a clear, returns"));
            }
        }
        settle(&b, &env);
        for (k, key) in env.keys.iter().enumerate() {
            let p = resident(&b, key);
            match (&p, asked.get(&k)) {
                (Some(p), None) => simk::fail(
                    "C05.visible",
                    format!("contract {k} is resident ({:?}, compiled at {:?}) although it was only requested before the clear at {} ns", p.kind, began(p).map(|t| t - SEC), t0 - SEC),
                ),
                (None, Some(how)) => simk::fail("C05.lost", format!("contract {k}, requested after a clear ({how:?}), is not compiled: {:?}", b.stats())),
                (Some(p), Some(_)) => {
                    rt::run_program(&env, k, p, "a request after a clear");
                    if began(p).is_some_and(|t| t < t0) && (p.kind == ProgramKind::Jit || all) {
                        simk::fail("C05.stale_program", format!("contract {k} is served by code whose compilation began before the clear"));
                    }
                }
                _ => {}
            }
            if let Some(n) = processed {
                // A stored artifact may have been loaded instead.
                let told = g().events[n..].iter().filter(|e| e.0.code_hash == key.con.hash).count();
                let want = asked.contains_key(&k) as usize;
                if told > want || (told < want && asked[&k] != How::Aot) {
                    simk::fail("C10.event", format!("contract {k}, requested in {want} ways since a clear, has {told} compilations reported since then"));
                }
            }
            let c = compiles_of_contract(key);
            let limit = before.iter().any(|x| x.0 == k) as usize + asked.contains_key(&k) as usize;
            if c > limit {
                simk::fail("C05.duplicate", format!("contract {k} was compiled {c} times for requests in {limit} eras"));
            }
        }
        if let Some(st) = &st {
            if all {
                for (key, _) in st.load_all().unwrap_or_default() {
                    let k = env.keys.iter().position(|k| k.rt() == key.runtime);
                    if !k.is_some_and(|k| asked.get(&k) == Some(&How::Aot)) {
                        simk::fail("C05.persisted", format!("an artifact of contract {k:?}, prepared before everything was cleared, is stored"));
                    }
                }
            }
            b.clear_persisted();
            fence(&b, &env.keys[0]);
            let left = st.load_all().unwrap_or_default().len();
            if left != 0 {
                simk::fail("C05.persisted", format!("{left} artifacts can be loaded after a clear of persisted artifacts"));
            }
        }
        if b.stats().evictions != 0 {
            simk::fail("C08.eviction", "an eviction is counted although nothing may be evicted");
        }
        end(b, &env, &ts);
    });
    Scenario { cfg: kcfg, root, ops, mode: "clear_race" }
}

/// Observed misses before a clear do not count afterwards.
pub fn clear_hot(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0xC107);
    let mut ba = base(&mut r, 1 + (sp.seed % 3) as usize, 1);
    ba.cfg.tuning.jit_hot_threshold = 2 + r.below(4) as usize;
    ba.cfg.tuning.max_events_per_drain = *pick(&mut r, &[1, 2, 8, 256]);
    ba.slow(&mut r);
    let all = r.below(2) == 0;
    let wait = *pick(&mut r, &[0, MS, 300 * MS]);
    let two = r.below(2) == 0;
    let env = ba.env();
    let Base { cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        let b = boot(cfg);
        let t = env.tuning.jit_hot_threshold;
        let look = |b: &JitBackend, env: &Env, n: usize| {
            for _ in 0..n {
                for k in &env.keys {
                    b.lookup(k.req());
                }
            }
        };
        let mut ts = vec![];
        for _ in 0..1 + simk::choose(3) {
            if two && t > 2 {
                let (b2, e) = (b.clone(), env.clone());
                ts.push(spawn("client0", move || {
                    for k in &e.keys {
                        b2.lookup(k.req());
                    }
                }));
                look(&b, &env, t - 2);
                join("lookups", &ts);
            } else {
                look(&b, &env, t - 1);
            }
            simk::sleep_ns(wait);
            if all {
                b.clear_all();
            } else {
                b.clear_resident();
            }
            fence(&b, &env.keys[0]);
        }
        look(&b, &env, t - 1);
        settle(&b, &env);
        for (i, k) in env.keys.iter().enumerate() {
            if compiles_of_contract(k) > 0 {
                simk::fail("C05.hotness", format!("contract {i} was compiled after {} misses since the last clear; the threshold is {t}", t - 1));
            }
        }
        look(&b, &env, 1);
        settle(&b, &env);
        for (i, k) in env.keys.iter().enumerate() {
            if resident(&b, k).is_none() {
                simk::fail("C05.lost", format!("contract {i} is not compiled after {t} misses since the last clear: {:?}", b.stats()));
            }
        }
        end(b, &env, &ts);
    });
    Scenario { cfg: kcfg, root, ops: 0, mode: "clear_hot" }
}

// --- C06 ---

/// Exactly the threshold, per code and hardfork.
pub fn threshold(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0x7437);
    let nc = 1 + r.below(3) as usize;
    let mut ba = base(&mut r, nc, 1 + (sp.seed % 2) as usize);
    let t = if r.below(24) == 0 { 255 + r.below(4) as usize } else { r.below(6) as usize };
    if t > 6 {
        ba.cfg.tuning.channel_capacity = 2048;
    }
    ba.cfg.tuning.jit_hot_threshold = t;
    ba.cfg.tuning.max_events_per_drain = *pick(&mut r, &[1, 3, 256]);
    let len = ba.keys.iter().map(|k| k.con.code.len()).max().unwrap();
    ba.cfg.tuning.jit_max_bytecode_len = *pick(&mut r, &[len, len, len + 1, 24 * 1024, 0]);
    ba.slow(&mut r);
    let threads = 1 + r.below(3) as usize;
    let env = ba.env();
    let Base { cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        let b = boot(cfg);
        let below = t.saturating_sub(1);
        let mut ts = vec![];
        for i in 0..threads {
            let share = below / threads + (i < below % threads) as usize;
            let (b, e) = (b.clone(), env.clone());
            ts.push(spawn(&format!("client{i}"), move || {
                for _ in 0..share {
                    for k in &e.keys {
                        if !matches!(b.lookup(k.req()), LookupDecision::Interpret(InterpretReason::NotReady)) {
                            simk::fail("C06.decision", "a lookup of eligible code that was never compiled is not answered with NotReady");
                        }
                    }
                    simk::sleep_ns(simk::choose(5) as u64 * MS);
                }
            }));
        }
        join("lookups", &ts);
        settle(&b, &env);
        if !simcode::compiles().is_empty() {
            simk::fail("C06.unwarranted", format!("{} compilations after {below} misses of each key; the threshold is {t}", simcode::compiles().len()));
        }
        // Ineligible code never is compiled, however often it is asked for.
        let max = env.tuning.jit_max_bytecode_len;
        let mut odd = vec![Bytes::new()];
        if max > 0 {
            let mut v = env.keys[0].con.code.to_vec();
            v.resize(max + 1, 0);
            odd.push(v.into());
        }
        for code in &odd {
            let key = revmc_runtime::runtime::RuntimeCacheKey { code_hash: alloy_primitives::keccak256(code), spec_id: env.keys[0].spec };
            for _ in 0..t + 2 {
                if !matches!(b.lookup(LookupRequest { key, code: code.clone() }), LookupDecision::Interpret(InterpretReason::Ineligible)) {
                    simk::fail("C06.ineligible", "a lookup of ineligible code is not answered with Ineligible");
                }
            }
            b.compile_jit(LookupRequest { key, code: code.clone() });
            let _ = b.compile_jit_sync(LookupRequest { key, code: code.clone() });
            b.prepare_aot(AotRequest { code_hash: key.code_hash, code: code.clone(), spec_id: key.spec_id });
        }
        settle(&b, &env);
        if !simcode::compiles().is_empty() {
            simk::fail("C06.ineligible", format!("{} compilations although only ineligible code was asked for", simcode::compiles().len()));
        }
        // One more miss, key by key.
        let mut done = 0;
        for (i, k) in env.keys.iter().enumerate() {
            b.lookup(k.req());
            let t0 = simk::now();
            if !world::wait_until(60 * SEC, 5 * MS, || resident(&b, k).is_some()) {
                simk::fail("C06.not_admitted", format!("key {i} is not compiled {} s after miss number {}; the threshold is {t}: {:?}", (simk::now() - t0) / SEC, below + 1, b.stats()));
                break;
            }
            done += 1;
            if simcode::compiles().len() != done {
                simk::fail("C06.unwarranted", format!("{} compilations when {done} keys have reached the threshold of {t}", simcode::compiles().len()));
                break;
            }
        }
        end(b, &env, &ts);
    });
    Scenario { cfg: kcfg, root, ops: 0, mode: "threshold" }
}

/// Many requests for the same key are one compilation; more keys than fit are dropped and can be asked for again.
fn waits() -> &'static mut Vec<(usize, u64, u64)> {
    struct W(std::cell::UnsafeCell<Vec<(usize, u64, u64)>>);
    // SAFETY: only touched with the simulation's baton held.
    unsafe impl Sync for W {}
    static W_: W = W(std::cell::UnsafeCell::new(vec![]));
    unsafe { &mut *W_.0.get() }
}

pub fn burst(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0xB425);
    let mut limited = r.below(3) > 0;
    let mut pending = 1 + r.below(4) as usize;
    // Several that wait for the same.
    let joint = r.below(3) == 0;
    // Exactly as many as there is room for, while another is running.
    let full = !joint && r.below(4) == 0;
    let (workers, room) = (1 + r.below(3) as usize, 1 + r.below(2) as usize);
    let nc = if full {
        limited = true;
        pending = workers * room + 1 + r.below(2) as usize;
        workers * room + 1
    } else if joint { 1 + r.below(2) as usize } else { 2 + r.below(6) as usize };
    // Contracts seen too rarely to be compiled.
    let crowd = if limited && !full && r.below(3) == 0 { 10 * pending + *pick(&mut r, &[0, 1, 3, 12]) } else { 0 };
    let mut ba = base(&mut r, nc + crowd, 1);
    ba.slow(&mut r);
    if joint || full || crowd > 0 {
        ba.kcfg.faults.insert("compile_time", 6000);
    }
    let t = &mut ba.cfg.tuning;
    if full {
        t.jit_worker_count = workers;
    }
    if limited {
        t.jit_max_pending_jobs = pending;
        t.jit_worker_queue_capacity = if full { room } else { 1 + r.below(3) as usize };
    }
    // Whether everything wanted fits at any time.
    let fits = full || !limited || (crowd == 0 && nc <= pending.min(t.jit_worker_count * t.jit_worker_queue_capacity));
    t.jit_hot_threshold = if crowd > 0 { 3 } else { 1 + r.below(3) as usize };
    if crowd > 0 {
        t.event_drain_interval = ms(1 + r.below(5));
        t.eviction_sweep_interval = ms(*pick(&mut r, &[2, 10, 50]));
    }
    let threads = if joint { 2 + r.below(5) as usize } else { 1 + r.below(3) as usize };
    let mut plans = vec![];
    for i in 0..threads {
        let mut v = vec![];
        if crowd > 0 && i == 0 {
            // Twice in all, below the threshold.
            for round in 0..2 {
                for k in nc..nc + crowd {
                    v.push((k, How::Compile, 0));
                    if r.below(6) == 0 {
                        v.push((r.below(nc as u64) as usize, if r.below(3) == 0 { How::Lookups } else { How::Compile }, 0));
                    }
                }
                v.push((r.below(nc as u64) as usize, How::Compile, *pick(&mut r, &[0, MS, 12 * MS, 60 * MS])));
                if round == 0 && r.below(2) == 0 {
                    break;
                }
            }
            v.retain(|_| world::keep());
        }
        for _ in 0..3 + r.below(12) {
            let how = if joint && r.below(4) > 0 { How::Sync } else { hows(&mut r, false) };
            let x = (r.below(nc as u64) as usize, how, if joint || crowd > 0 { *pick(&mut r, &[0, MS, 20 * MS]) } else { 0 });
            if world::keep() {
                v.push(x);
            }
        }
        plans.push(v);
    }
    let ops = g().next_op;
    let env = ba.env();
    let Base { cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        let b = boot(cfg);
        let mut ts = vec![];
        let mut wanted: Vec<usize> = plans.iter().flatten().map(|x| x.0).filter(|k| *k < nc).collect();
        waits().clear();
        if full {
            wanted = (0..nc).collect();
            b.compile_jit(env.keys[0].req());
            if !world::wait_until(60 * SEC, MS / 10, || !simcode::compiles().is_empty()) {
                simk::fail("C06.not_admitted", "a request to an idle runtime is not admitted");
            }
            for k in 1..nc {
                b.compile_jit(env.keys[k].req());
            }
        }
        wanted.sort();
        wanted.dedup();
        for (i, v) in plans.into_iter().enumerate() {
            let (b, e) = (b.clone(), env.clone());
            ts.push(spawn(&format!("client{i}"), move || {
                for (k, how, pause) in v {
                    if k >= nc {
                        b.lookup(e.keys[k].req());
                        continue;
                    }
                    let t0 = simk::now();
                    ask(&e, &b, k, how);
                    if how == How::Sync {
                        waits().push((k, t0, simk::now()));
                    }
                    if pause > 0 {
                        simk::sleep_ns(pause);
                    }
                    let s = b.stats();
                    if s.pending_jobs > e.tuning.jit_max_pending_jobs as u64 {
                        simk::fail("C06.pending", format!("{} jobs in flight, the limit is {}", s.pending_jobs, e.tuning.jit_max_pending_jobs));
                    }
                }
            }));
        }
        join("requests", &ts);
        settle(&b, &env);
        for (k, t0, t1) in waits().iter() {
            let m = *env.keys[*k].con.marker.as_limbs();
            if let Some(c) = simcode::compiles().iter().find(|c| c.words.contains(&m) && c.begin < *t0 && c.end > *t1) {
                simk::fail(
                    "C04.early",
                    format!(
                        "a request for contract {k} made at {} us returned at {} us, but the compilation it joined ran from {} to {} us",
                        t0 / 1000,
                        t1 / 1000,
                        c.begin / 1000,
                        c.end / 1000
                    ),
                );
            }
        }
        let s = b.stats();
        if s.compilations_failed != 0 || s.compilations_dispatched != s.compilations_succeeded {
            simk::fail("C06.admitted", format!("{} compilations were admitted, {} succeeded and {} failed without any fault", s.compilations_dispatched, s.compilations_succeeded, s.compilations_failed));
        }
        let found = env.keys.iter().filter(|k| resident(&b, k).is_some()).count() as u64;
        if found != s.compilations_succeeded {
            simk::fail("C06.admitted", format!("{} compilations succeeded, {found} programs are resident", s.compilations_succeeded));
        }
        for (k, key) in env.keys.iter().enumerate() {
            if !wanted.contains(&k) && compiles_of_contract(key) > 0 {
                simk::fail("C06.unwarranted", format!("contract {k} was compiled without any request"));
            }
        }
        if !wanted.is_empty() && found == 0 {
            simk::fail("C06.not_admitted", "no request at all was admitted");
        }
        for k in wanted {
            let key = &env.keys[k];
            let n = compiles_of_contract(key);
            if n > 1 {
                simk::fail("C06.duplicate", format!("contract {k} was compiled {n} times"));
            }
            if fits && n == 0 {
                simk::fail("C06.not_admitted", format!("contract {k} was requested within the limits and never compiled"));
            }
            // What was dropped can be asked for again.
            ask(&env, &b, k, How::Sync);
            if resident(&b, key).is_none() {
                simk::fail("C07.dropped", format!("contract {k} is not compiled by a request to an idle runtime after a burst: {:?}", b.stats()));
            }
        }
        end(b, &env, &ts);
    });
    Scenario { cfg: kcfg, root, ops, mode: "burst" }
}

// --- C08 ---

/// Idle eviction against the clock.
pub fn idle(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0x1D7E);
    let specs = 1 + r.below(2) as usize;
    let nc = 1 + r.below(4) as usize;
    let nk = nc * specs;
    let mut ba = base(&mut r, nc, specs);
    let t = &mut ba.cfg.tuning;
    t.jit_hot_threshold = 1_000_000;
    t.idle_evict_duration = Some(ms(*pick(&mut r, &[30, 100, 400, 2000])));
    t.event_drain_interval = ms(*pick(&mut r, &[1, 5, 20, 50]));
    t.eviction_sweep_interval = ms(*pick(&mut r, &[5, 20, 100]));
    let with_aot = r.below(3) == 0;
    let budget = r.below(3) == 0;
    // Present from the start, loaded from the store.
    let pre: Vec<usize> = if with_aot && r.below(2) == 0 { (0..nk).filter(|_| r.below(3) > 0).collect() } else { vec![] };
    if budget {
        t.resident_code_cache_bytes = 1 << 40;
    }
    let idle = t.idle_evict_duration.unwrap().as_nanos() as u64;
    let tick = t.event_drain_interval.min(t.eviction_sweep_interval).as_nanos() as u64;
    let sweep = t.eviction_sweep_interval.as_nanos() as u64;
    let mut plan = vec![];
    let clears = r.below(2) == 0;
    for _ in 0..6 + r.below(if sp.tier > 0 { 40 } else { 20 }) {
        let k = r.below(nk as u64) as usize;
        let x = match r.below(10) {
            0..=3 => (0, k, 0),
            4..=5 => (1, k, 0),
            6 if clears => (3, k, 0),
            _ => (2, 0, *pick(&mut r, &[idle / 8, idle / 4, idle / 2, idle - idle / 10, idle + MS, idle + sweep, 2 * idle + 3 * sweep])),
        };
        if world::keep() {
            plan.push(x);
        }
    }
    let ops = g().next_op;
    ba.env.evicts = true;
    let env = ba.env();
    let Base { mut cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        if with_aot {
            cfg.store = Some(world::temp_store());
        }
        if !pre.is_empty() {
            let mut c = cfg.clone();
            c.tuning.idle_evict_duration = None;
            c.on_compilation = None;
            c.thread_name = "earlier".into();
            let b = boot(c);
            b.prepare_aot_batch(pre.iter().map(|k| aot(&env.keys[*k])).collect());
            settle(&b, &env);
            drop(b);
        }
        let t0 = simk::now();
        let b = boot(cfg);
        // Per key: resident at least until, gone at the latest at (0: not resident for certain).
        let mut must: Vec<u64> = vec![0; nk];
        let mut gone: Vec<u64> = vec![0; nk];
        let late = idle + sweep + 4 * tick + 30 * MS;
        for k in &pre {
            if resident(&b, &env.keys[*k]).is_some() {
                must[*k] = t0 + idle;
            } else if simk::now() < t0 + idle {
                simk::fail("C14.not_loaded", format!("contract {k} is stored, but not resident when the runtime was created"));
            }
            gone[*k] = simk::now() + late;
        }
        let mut inserted = 0u64;
        let mut cleared = 0;
        for step in plan {
            simk::k().tlog(|| format!("step {step:?}"));
            let k = step.1;
            let key = &env.keys[k];
            match step.0 {
                0 => {
                    let t0 = simk::now();
                    let d = b.lookup(key.req());
                    let t1 = simk::now();
                    match d {
                        LookupDecision::Compiled(_) => {
                            // A sweep may have been deciding just then.
                            must[k] = if must[k] > t1 { t0 + idle } else { 0 };
                            gone[k] = t1 + late;
                        }
                        LookupDecision::Interpret(_) => {
                            if must[k] > t1 {
                                simk::fail("C08.early", format!("contract {k} is gone {} ms before it was idle for {} ms", (must[k] - t1) / MS, idle / MS));
                            }
                            must[k] = 0;
                            gone[k] = 0;
                        }
                    }
                }
                1 => {
                    let was = resident(&b, key).is_some();
                    let t0 = simk::now();
                    if with_aot && k % 2 == 1 {
                        b.prepare_aot(aot(key));
                        fence(&b, key);
                        let ok = world::wait_until(60 * SEC, MS, || resident(&b, key).is_some() || simk::now() > t0 + idle);
                        if !ok {
                            simk::fail("C07.starved", format!("contract {k} is never prepared: {:?}", b.stats()));
                        }
                    } else {
                        ask(&env, &b, k, How::Sync);
                        if !was {
                            inserted += 1;
                        }
                    }
                    let t1 = simk::now();
                    if !was {
                        must[k] = if with_aot { 0 } else { t0 + idle };
                        gone[k] = t1 + late;
                    } else if must[k] <= t1 {
                        // It may have been evicted and compiled again.
                        must[k] = 0;
                        gone[k] = t1 + late;
                    }
                }
                3 => {
                    b.clear_resident();
                    fence(&b, key);
                    // What was not evicted by now was cleared.
                    let s = b.stats();
                    cleared = s.compilations_succeeded - s.evictions.min(s.compilations_succeeded);
                    must.fill(0);
                    gone.fill(0);
                }
                _ => simk::sleep_ns(step.2),
            }
            for (k, key) in env.keys.iter().enumerate() {
                let p = resident(&b, key).is_some();
                let t = simk::now();
                if !p && must[k] > t {
                    simk::fail("C08.early", format!("contract {k} is gone {} ms before it was idle for {} ms", (must[k] - t) / MS, idle / MS));
                    must[k] = 0;
                }
                if p && t > gone[k] {
                    simk::fail("C08.late", format!("contract {k} is still resident {} ms after it should have been evicted (idle {} ms, sweep {} ms)", (t - gone[k]) / MS, idle / MS, sweep / MS));
                    gone[k] = u64::MAX;
                }
            }
        }
        simk::sleep_ns(late + MS);
        let s = b.stats();
        if s.resident_entries != 0 {
            simk::fail("C08.late", format!("{} programs are resident although none was used for {} ms", s.resident_entries, late / MS));
        }
        if !with_aot && (s.evictions != s.compilations_succeeded - cleared || s.evictions + cleared < inserted) {
            simk::fail("C08.count", format!("{} programs were compiled, {cleared} were cleared, and all are gone, but {} evictions are counted", s.compilations_succeeded, s.evictions));
        }
        end(b, &env, &[]);
    });
    Scenario { cfg: kcfg, root, ops, mode: "idle" }
}

/// The budget, with programs of different sizes, some of them held, hit in a known order.
pub fn budget(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0xB0D6);
    let nk = 2 + r.below(5) as usize;
    let mut ba = base(&mut r, nk, 1);
    for i in 0..nk {
        let size = *pick(&mut r, &[0, 400, 1500, 4000]);
        ba.keys[i].con = world::contract(&mut r, i as u64, size);
    }
    let t = &mut ba.cfg.tuning;
    t.jit_hot_threshold = 1_000_000;
    t.event_drain_interval = ms(*pick(&mut r, &[1, 5, 20]));
    t.eviction_sweep_interval = ms(*pick(&mut r, &[5, 20, 1000]));
    if r.below(3) == 0 {
        t.idle_evict_duration = Some(ms(100_000_000));
    }
    let tick = t.event_drain_interval.min(t.eviction_sweep_interval).as_nanos() as u64;
    let with_aot = r.below(3) == 0;
    let share = r.range(10, 110);
    let mut plan = vec![];
    for _ in 0..6 + r.below(if sp.tier > 0 { 40 } else { 20 }) {
        let k = r.below(nk as u64) as usize;
        let x = (*pick(&mut r, &[0, 0, 0, 1, 1, 1, 1, 2, 2, 3]), k);
        if world::keep() {
            plan.push(x);
        }
    }
    let ops = g().next_op;
    ba.env.evicts = true;
    let env = ba.env();
    let Base { mut cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        // How large the programs are.
        let b = boot(cfg.clone());
        let mut size = vec![];
        for (i, k) in env.keys.iter().enumerate() {
            ask(&env, &b, i, How::Sync);
            size.push(resident(&b, k).and_then(|p| simcode::size_of(p.func.into_inner() as usize)).unwrap_or(0));
        }
        drop(b);
        let total: usize = size.iter().sum();
        let limit = (total * share as usize / 100).max(1);
        cfg.tuning.resident_code_cache_bytes = limit;
        if with_aot {
            cfg.store = Some(world::temp_store());
        }
        let b = boot(cfg);
        struct Inst {
            k: usize,
            aot: bool,
            resident: bool,
            held: Vec<Arc<CompiledProgram>>,
        }
        let mut v: Vec<Inst> = vec![]; // least recently hit first
        let mut evictions = 0u64;
        for (op, k) in plan {
            simk::k().tlog(|| format!("step {op} {k}"));
            let key = &env.keys[k];
            let cur = v.iter().position(|i| i.k == k && i.resident);
            match op {
                0 | 2 => {
                    let p = match b.lookup(key.req()) {
                        LookupDecision::Compiled(p) => Some(p),
                        _ => None,
                    };
                    if p.is_some() != cur.is_some() {
                        simk::fail("C08.set", format!("contract {k} {} resident", if p.is_some() { "is" } else { "is not" }));
                        return end(b, &env, &[]);
                    }
                    if let Some(i) = cur {
                        let mut x = v.remove(i);
                        if op == 2 {
                            x.held.extend(p);
                        }
                        v.push(x);
                    }
                }
                1 => {
                    let is_aot = with_aot && k % 2 == 1;
                    if is_aot {
                        b.prepare_aot(aot(key));
                        if !world::wait_until(60 * SEC, MS, || resident(&b, key).is_some()) {
                            simk::fail("C07.starved", format!("contract {k} is never prepared: {:?}", b.stats()));
                        }
                    } else {
                        ask(&env, &b, k, How::Sync);
                    }
                    if cur.is_none() {
                        v.push(Inst { k, aot: is_aot, resident: true, held: vec![] });
                    }
                }
                _ => {
                    for i in v.iter_mut().filter(|i| i.k == k) {
                        i.held.pop();
                    }
                }
            }
            simk::sleep_ns(6 * tick + 10 * MS);
            let live = |v: &Vec<Inst>| v.iter().filter(|i| !i.aot && (i.resident || !i.held.is_empty())).map(|i| size[i.k]).sum::<usize>();
            let mut at = 0;
            while live(&v) > limit && at < v.len() {
                if v[at].resident && !v[at].aot {
                    v[at].resident = false;
                    evictions += 1;
                }
                at += 1;
            }
            v.retain(|i| i.resident || !i.held.is_empty());
            let want: Vec<bool> = (0..nk).map(|k| v.iter().any(|i| i.k == k && i.resident)).collect();
            let got: Vec<bool> = env.keys.iter().map(|k| resident(&b, k).is_some()).collect();
            if want != got {
                simk::fail("C08.set", format!("resident {got:?}, the policy leaves {want:?} (budget {limit}, sizes {size:?}, live {})", live(&v)));
                break;
            }
            let s = b.stats();
            if s.jit_total_bytes() as usize != live(&v) {
                simk::fail("C08.bytes", format!("{} bytes are reported live, {} are", s.jit_total_bytes(), live(&v)));
                break;
            }
            if s.evictions != evictions {
                simk::fail("C08.count", format!("{} evictions are counted, there were {evictions}", s.evictions));
                break;
            }
        }
        drop(v);
        end(b, &env, &[]);
    });
    Scenario { cfg: kcfg, root, ops, mode: "budget" }
}

// --- C12 ---

/// Pauses from several threads against the run state of the helper.
pub fn pause(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0x9A05);
    let nk = 2 + r.below(4) as usize;
    let mut ba = base(&mut r, nk, 1);
    ba.cfg.jit_mode = JitMode::OutOfProcess;
    let t = &mut ba.cfg.tuning;
    t.jit_timeout = ms(*pick(&mut r, &[500, 1000, 20_000]));
    t.jit_hot_threshold = 1;
    let mut kill = r.below(4) == 0;
    let small_pipe = r.below(4) == 0;
    if small_pipe {
        ba.kcfg.pipe_capacity = 512;
    }
    let nthreads = 1 + r.below(3) as usize;
    let surplus = r.below(3) == 0;
    // The first helper is started while pauses come and go.
    let racing = r.below(4) == 0;
    kill |= racing && r.below(2) == 0;
    let warm = !racing && r.below(3) > 0;
    // The helper does not answer any more.
    let mute = warm && r.below(5) == 0;
    if mute {
        ba.cfg.tuning.jit_timeout = ms(2000);
        ba.cfg.tuning.shutdown_timeout = ms(500);
    }
    let close = racing || r.below(2) == 0;
    let gaps: Vec<u64> = if close { vec![0, 0, 10_000, 20_000, 300 * MS] } else { vec![0, 0, 20_000, MS, 50 * MS, 700 * MS] };
    let holds: Vec<u64> = if close { vec![0, 5_000, 20_000, 600 * MS] } else { vec![0, 20_000, MS, 90 * MS, 600 * MS, 3 * SEC] };
    let mut plans = vec![];
    for _ in 0..nthreads {
        let mut v = vec![];
        for _ in 0..1 + r.below(4) {
            let more = match r.below(60) {
                0 => 254 + r.below(4) as usize,
                x => (x < 20) as usize,
            };
            let x = (*pick(&mut r, &gaps), *pick(&mut r, &holds), more);
            if world::keep() {
                v.push(x);
            }
        }
        plans.push(v);
    }
    let mut asks = vec![];
    for _ in 0..1 + r.below(6) {
        let gap = if racing { *pick(&mut r, &[0, 0, 5_000, 10_000, 20_000, 30_000]) } else { *pick(&mut r, &[0, MS, 30 * MS, 300 * MS, 2 * SEC]) };
        let x = (1 + r.below(nk as u64 - 1) as usize, gap, if r.below(2) == 0 { How::Compile } else { How::Lookups });
        if world::keep() {
            asks.push(x);
        }
    }
    let ops = g().next_op;
    let env = ba.env();
    let Base { cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        let b = boot(cfg);
        if warm {
            ask(&env, &b, 0, How::Sync);
        }
        if mute {
            for p in rt::live_helpers() {
                if let Some(q) = simk::k().procs[&p].stdout.and_then(|id| simk::k().pipes.get_mut(&id)) {
                    q.sabotage = Some((0, simk::Sabotage::Hang));
                }
            }
        }
        if surplus {
            for _ in 0..1 + simk::choose(3) {
                b.resume();
            }
            if b.is_paused() {
                simk::fail("C12.depth", "paused after surplus resumes");
            }
        }
        // The pauses outstanding for certain, since when, and since when there has been none for certain.
        struct W {
            held: usize,
            since: u64,
            open: usize,
            free: u64,
            running: bool,
            killed: u64,
        }
        static mut WATCH: W = W { held: 0, since: 0, open: 0, free: 0, running: false, killed: 0 };
        #[allow(static_mut_refs)]
        fn w() -> &'static mut W {
            unsafe { &mut WATCH }
        }
        *w() = W { held: 0, since: 0, open: 0, free: simk::now(), running: true, killed: mute as u64 };
        let (b2, env2) = (b.clone(), env.clone());
        // Time for the backend to get to the request, the grace period, and scheduling.
        let grace = 100 * MS + 100 * MS;
        let monitor = spawn("monitor", move || {
            while w().running {
                simk::sleep_ns(3 * MS);
                let t = simk::now();
                let x = w();
                let dropped = b2.stats().commands_dropped > 0;
                if x.held > 0 && t > x.since + grace && !dropped {
                    for p in simk::k().procs.values() {
                        if world::is_helper(&p.env, &p.exe) && p.state == ProcState::Running && t > p.spawned_at + grace {
                            simk::fail("C12.not_stopped", format!("helper {} is running although a pause has been outstanding for {} ms", p.pid, (t - x.since) / MS));
                            return;
                        }
                    }
                }
                if x.open == 0 && t > x.free + grace && !dropped {
                    for p in simk::k().procs.values() {
                        if world::is_helper(&p.env, &p.exe) && p.state == ProcState::Stopped {
                            simk::fail("C12.not_resumed", format!("helper {} is stopped although there has been no pause for {} ms", p.pid, (t - x.free) / MS));
                            return;
                        }
                    }
                }
                if x.open == 0 && b2.is_paused() && w().open == 0 {
                    simk::fail("C12.depth", "paused although every pause was resumed");
                    return;
                }
                if warm && x.held > 0 && simk::choose(8) == 0 {
                    match simk::solo(|| b2.lookup(env2.keys[0].req())) {
                        (LookupDecision::Compiled(_), None) => {}
                        (d, s) => {
                            simk::fail("C12.not_served", format!("a lookup of a resident program while paused gives {d:?}, waiting at {s:?}"));
                            return;
                        }
                    }
                }
            }
        });
        let mut ts = vec![];
        for (i, v) in plans.into_iter().enumerate() {
            let b = b.clone();
            ts.push(spawn(&format!("pauser{i}"), move || {
                for (before, hold, nested) in v {
                    simk::sleep_ns(before);
                    for _ in 0..1 + nested {
                        w().open += 1;
                        b.pause();
                        w().held += 1;
                        if w().held == 1 {
                            w().since = simk::now();
                        }
                    }
                    if !b.is_paused() {
                        simk::fail("C12.depth", "not paused although a pause is outstanding");
                    }
                    simk::sleep_ns(hold);
                    for _ in 0..1 + nested {
                        w().held -= 1;
                        b.resume();
                        w().open -= 1;
                        if w().open == 0 {
                            w().free = simk::now();
                        }
                    }
                }
            }));
        }
        for (k, gap, how) in &asks {
            simk::sleep_ns(*gap);
            if racing && simk::choose(2) == 0 {
                // The job and the end of the pause reach the backend together.
                w().open += 1;
                b.pause();
                ask(&env, &b, *k, *how);
                b.resume();
                w().open -= 1;
                if w().open == 0 {
                    w().free = simk::now();
                }
            } else {
                ask(&env, &b, *k, *how);
            }
            if kill && simk::choose(3) == 0 {
                let l = rt::live_helpers();
                if !l.is_empty() {
                    simk::signal(l[simk::choose(l.len())], 9);
                    w().killed += 1;
                }
            }
        }
        join("pauses", &ts);
        // Everything held back completes, nothing was lost.
        if w().killed == 0 {
            for (k, _, _) in &asks {
                if !world::wait_until(30 * SEC, 10 * MS, || resident(&b, &env.keys[*k]).is_some()) {
                    simk::fail("C12.lost", format!("contract {k}, requested around a pause, is not compiled after the resume: {:?}", b.stats()));
                    break;
                }
            }
            let s = b.stats();
            if s.compilations_failed != 0 || s.jit_helper_timeouts != 0 {
                simk::fail("C12.lost", format!("jobs failed because of a pause: {s:?}"));
            }
        }
        // It still works, in both directions.
        let probe = world::wait_until(60 * SEC, 10 * MS, || {
            ask(&env, &b, 0, How::Sync);
            resident(&b, &env.keys[0]).is_some()
        });
        if !probe {
            simk::fail("C12.stuck", format!("nothing is compiled after all pauses were resumed: {:?}", b.stats()));
        }
        w().running = false;
        join("monitor", &[monitor]);
        ts.push(monitor);
        end(b, &env, &ts);
    });
    Scenario { cfg: kcfg, root, ops, mode: "pause" }
}

// --- C13 ---

/// One failure of the helper at an arbitrary point, with several jobs in it.
pub fn helper(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0x4E19);
    let nk = 3 + r.below(4) as usize;
    let mut ba = base(&mut r, nk, 1);
    ba.cfg.jit_mode = JitMode::OutOfProcess;
    let t = &mut ba.cfg.tuning;
    t.jit_timeout = ms(*pick(&mut r, &[300, 1000, 5000]));
    t.shutdown_timeout = ms(*pick(&mut r, &[200, 1000]));
    t.jit_worker_count = 1 + r.below(4) as usize;
    t.jit_hot_threshold = 1_000_000;
    t.jit_helper_memory_limit_bytes = *pick(&mut r, &[0, 1 << 30, 1 << 33]);
    t.jit_helper_cpu_count = r.below(4) as usize;
    ba.kcfg.parallelism = 4;
    if r.below(3) == 0 {
        // What Linux gives a user who has many pipes already; one job need not fit.
        ba.kcfg.pipe_capacity = 4096;
        for (i, k) in ba.keys.iter_mut().enumerate() {
            if i % 2 == 1 {
                k.con = world::contract(&mut r, i as u64, 5000);
            }
        }
    }
    if r.below(3) == 0 {
        ba.kcfg.faults.insert("pipe.short_read", 2000);
        ba.kcfg.faults.insert("pipe.short_write", 2000);
    }
    let kind = r.below(11);
    if kind >= 9 {
        ba.cfg.tuning.jit_timeout = ms(60_000);
    }
    let warm = kind >= 3 || r.below(2) == 0;
    let off = match r.below(4) {
        0 => r.below(64),
        1 => r.below(1024),
        2 => r.below(8192),
        _ => r.below(40_000),
    };
    let delay = *pick(&mut r, &[0, 20_000, 200_000, 300_000, MS, 5 * MS]);
    let clients = 1 + r.below(nk as u64 - 2) as usize;
    let pauses = r.below(6) == 0;
    let env = ba.env();
    let Base { cfg, mut kcfg, .. } = ba;
    if kind >= 9 {
        // The helper is well, some of its compilations fail.
        kcfg.faults.insert("llvm_compile", 3000);
        kcfg.faults.insert("compile_time", 3000);
    }
    if kind < 3 {
        kcfg.faults.insert(*pick(&mut r, &["helper_start", "process_spawn", "current_exe", "setrlimit", "setpgid", "thread_spawn"]), 10_000);
    }
    let root = Box::new(move || {
        simk::k().faults_on = false;
        let limit = 2 * cfg.tuning.jit_timeout.as_nanos() as u64 + cfg.tuning.shutdown_timeout.as_nanos() as u64 * 2 + 500 * MS;
        let b = boot(cfg.clone());
        // The same settings, compiled in this process.
        let mut c2 = cfg.clone();
        c2.jit_mode = JitMode::InProcess;
        c2.on_compilation = None;
        c2.thread_name = "reference".into();
        let reference = boot(c2);
        let mut want = vec![];
        for (i, k) in env.keys.iter().enumerate() {
            ask(&env, &reference, i, How::Sync);
            want.push(digest_of(&reference, k));
        }
        drop(reference);
        let first = if warm {
            ask(&env, &b, 0, How::Sync);
            let l = rt::live_helpers();
            if l.len() != 1 || resident(&b, &env.keys[0]).is_none() {
                simk::fail("C13.first", format!("a healthy helper did not compile: {l:?} {:?}", b.stats()));
                return end(b, &env, &[]);
            }
            check_settings(&cfg, l[0]);
            Some(l[0])
        } else {
            None
        };
        let arm = |pid: simk::Pid, s: simk::Sabotage| {
            let id = simk::k().procs[&pid].stdout;
            if let Some(p) = id.and_then(|id| simk::k().pipes.get_mut(&id)) {
                p.sabotage = Some((off, s));
            }
        };
        match (kind, first) {
            (0..=2 | 9.., _) => simk::k().faults_on = true,
            (3, Some(p)) => arm(p, simk::Sabotage::Garbage),
            (4, Some(p)) => arm(p, simk::Sabotage::OneByte),
            (5, Some(p)) => arm(p, simk::Sabotage::Cut),
            (6, Some(p)) => arm(p, simk::Sabotage::Hang),
            _ => {}
        }
        let mut ts = vec![];
        for c in 0..clients {
            let (b, e) = (b.clone(), env.clone());
            ts.push(spawn(&format!("client{c}"), move || {
                let t0 = simk::now();
                ask(&e, &b, c + 1, How::Sync);
                let took = simk::now() - t0;
                if took > limit {
                    simk::fail("C13.slow", format!("a synchronous compilation took {} ms with a job timeout of {} ms", took / MS, e.tuning.jit_timeout.as_millis()));
                }
                if let Some(p) = resident(&b, &e.keys[c + 1]) {
                    rt::run_program(&e, c + 1, &p, "a failing helper's job");
                }
            }));
        }
        simk::sleep_ns(delay);
        if let Some(p) = first {
            match kind {
                7 => {
                    simk::signal(p, 9);
                }
                8 => {
                    simk::signal(p, 19);
                }
                _ => {}
            }
        }
        if pauses {
            b.pause();
            simk::sleep_ns(50 * MS);
            b.resume();
        }
        join("synchronous requests to a failing helper", &ts);
        if kind >= 9 {
            let (n, s) = (simk::k().fault_count("llvm_compile"), b.stats());
            if s.compilations_failed != n {
                simk::fail("C13.others_fail", format!("{n} compilations failed in the helper, {} are reported as failed", s.compilations_failed));
            }
            if rt::live_helpers() != first.into_iter().collect::<Vec<_>>() {
                simk::fail("C13.helpers", format!("a failed compilation costs the helper: {:?} instead of {first:?}", rt::live_helpers()));
            }
        }
        let broken = first.filter(|_| kind >= 3 && kind < 9).filter(|p| matches!(simk::k().procs[p].state, ProcState::Zombie(_) | ProcState::Reaped) || (kind == 8 && !pauses));
        simk::k().faults_on = false;
        // Not yet triggered: it stays harmless from here on.
        if let Some(id) = first.and_then(|p| simk::k().procs[&p].stdout) {
            if let Some(p) = simk::k().pipes.get_mut(&id) {
                p.sabotage = None;
            }
        }
        // Time to notice that it is gone.
        simk::sleep_ns(50 * MS);
        let t0 = simk::now();
        for (i, k) in env.keys.iter().enumerate().skip(1) {
            let mut tries = 0;
            while resident(&b, k).is_none() && tries < 3 {
                tries += 1;
                ask(&env, &b, i, How::Sync);
            }
            if tries > 1 + (kind == 8 || kind == 6 || kind == 3 || kind == 4) as usize {
                simk::fail("C13.not_recovered", format!("contract {i} needed {tries} requests after the helper had failed: {:?}", b.stats()));
            }
            match resident(&b, k) {
                None => simk::fail("C13.not_recovered", format!("contract {i} is not compiled by a fresh helper: {:?}", b.stats())),
                Some(p) => {
                    rt::run_program(&env, i, &p, "a job after the helper had failed");
                    let d = digest_of(&b, k);
                    if d != want[i] {
                        simk::fail("C13.settings", format!("contract {i} is compiled by the helper with other settings than the runtime's"));
                    }
                }
            }
        }
        if simk::now() - t0 > 3 * limit {
            simk::fail("C13.slow", format!("recovery took {} ms", (simk::now() - t0) / MS));
        }
        let l = rt::live_helpers();
        if l.len() != 1 {
            simk::fail("C13.helpers", format!("{} helpers are alive: {l:?}", l.len()));
        }
        for p in &l {
            check_settings(&cfg, *p);
        }
        if let Some(p) = broken {
            if l.contains(&p) {
                simk::fail("C13.helpers", format!("the failed helper {p} is still in use"));
            }
            if !world::wait_until(10 * SEC, 10 * MS, || simk::k().procs[&p].state == ProcState::Reaped) {
                simk::fail("C13.not_reaped", format!("the failed helper {p} is {:?} 10 s after its replacement", simk::k().procs[&p].state));
            }
        }
        settle(&b, &env);
        rt::check_stats(&Env { pure_: false, ..(*env).clone() }, &b);
        end(b, &env, &ts);
    });
    Scenario { cfg: kcfg, root, ops: 0, mode: "helper" }
}

fn digest_of(b: &JitBackend, k: &Key) -> Option<(u64, u8)> {
    let p = resident(b, k)?;
    let uid = simcode::compile_of(p.func.into_inner() as usize)?;
    simcode::compiles().iter().find(|c| c.uid == uid).map(|c| (c.digest, c.opt))
}

fn check_settings(cfg: &RuntimeConfig, pid: simk::Pid) {
    let p = &simk::k().procs[&pid];
    let mem = cfg.tuning.jit_helper_memory_limit_bytes;
    if p.rlimit_as != (mem > 0).then_some(mem) {
        simk::fail("C13.settings", format!("the helper's memory limit is {:?}, configured is {mem}", p.rlimit_as));
    }
    let cpus = cfg.tuning.jit_helper_cpu_count;
    let n = p.affinity.as_ref().map(|a| a.len());
    if cpus > 0 && n != Some(cpus.min(simk::k().cfg.parallelism)) {
        simk::fail("C13.settings", format!("the helper may run on {n:?} CPUs, configured are {cpus}"));
    }
    if let Some(path) = &cfg.jit_helper_path
        && p.exe != path.to_string_lossy()
    {
        simk::fail("C13.settings", format!("the helper is {}, configured is {path:?}", p.exe));
    }
}

// --- C07 ---

/// All sorts of trouble, among it many contracts that are seen only now and then, and afterwards a few in demand.
pub fn demand(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0xDE3A);
    // In the end, all of them in one batch, under two hardforks.
    let batch = r.below(6) == 0;
    let specs = if batch { 2 } else { 1 };
    let targets = if batch { 2 * (1 + r.below(2) as usize) } else { 1 + r.below(3) as usize };
    let pending = if batch { targets } else { 1 + r.below(3) as usize };
    let cap = 10 * pending;
    let rare = if batch { 0 } else { *pick(&mut r, &[0, 3, cap / 2, cap - 1, cap, cap + 5, 2 * cap + 3]) };
    let mut ba = base(&mut r, (targets + rare) / specs, specs);
    let t = &mut ba.cfg.tuning;
    t.jit_max_pending_jobs = pending;
    t.jit_worker_queue_capacity = if batch { targets } else { 1 + r.below(4) as usize };
    t.jit_hot_threshold = 1 + r.below(6) as usize;
    t.max_events_per_drain = *pick(&mut r, &[2, 16, 256]);
    t.jit_timeout = ms(*pick(&mut r, &[500, 5000]));
    t.eviction_sweep_interval = ms(*pick(&mut r, &[50, 200]));
    t.idle_evict_duration = (r.below(2) == 0).then(|| ms(*pick(&mut r, &[300, 2000])));
    let th = t.jit_hot_threshold;
    let idle = t.idle_evict_duration.map(|d| d.as_nanos() as u64);
    let stored = batch || r.below(3) == 0;
    if stored {
        ba.cfg.aot = r.below(2) == 0;
        ba.env.store = true;
        ba.env.aot = ba.cfg.aot;
    }
    let fl: &[(&'static str, u32)] = match r.below(5) {
        _ if stored && r.below(4) > 0 => &[("store_write", 3000), ("store_load", 4000), ("dlopen", 3000), ("linker", 2000), ("llvm_compile", 1000)],
        0 => &[("llvm_compile", 10_000)],
        1 => &[("llvm_compile", 3000), ("llvm_link", 3000), ("llvm_new", 3000)],
        2 => &[("helper_start", 3000), ("helper_output", 4000), ("process_spawn", 3000), ("llvm_link", 4000)],
        3 => &[("compile_time", 8000)],
        _ => &[],
    };
    for f in fl {
        ba.kcfg.faults.insert(f.0, f.1);
    }
    // What the threads do meanwhile.
    let mut plans = vec![];
    for _ in 0..1 + r.below(2) {
        let mut v: Vec<(usize, u64, How, u64)> = vec![];
        for k in targets..targets + rare {
            if r.below(8) > 0 {
                v.push((k, if th > 1 { 1 + r.below(th as u64 - 1) } else { 1 }, How::Lookups, *pick(&mut r, &[0, 0, MS])));
            }
        }
        for _ in 0..r.below(10) {
            let x = (r.below(targets as u64) as usize, 0, hows(&mut r, stored), *pick(&mut r, &[0, MS, 50 * MS]));
            v.insert(r.below(v.len() as u64 + 1) as usize, x);
        }
        for _ in 0..r.below(3) {
            v.insert(r.below(v.len() as u64 + 1) as usize, (usize::MAX, r.below(3), How::Compile, *pick(&mut r, &[0, MS, 50 * MS])));
        }
        v.retain(|_| world::keep());
        plans.push(v);
    }
    let ops = g().next_op;
    let explicit = batch || r.below(3) == 0;
    let env = ba.env();
    let Base { mut cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        if stored {
            cfg.store = Some(crate::store::DirStore::new("artifacts"));
        }
        let b = boot(cfg);
        let mut ts = vec![];
        for (i, plan) in plans.into_iter().enumerate() {
            let (b, e) = (b.clone(), env.clone());
            ts.push(spawn(&format!("client{i}"), move || {
                for (k, n, how, pause) in plan {
                    match (k, n) {
                        (usize::MAX, 0) => b.clear_resident(),
                        (usize::MAX, 1) => {
                            b.pause();
                            simk::sleep_ns(20 * MS);
                            b.resume();
                        }
                        (usize::MAX, _) => {
                            let _ = b.set_enabled(false);
                            simk::sleep_ns(5 * MS);
                            let _ = b.set_enabled(true);
                        }
                        (k, n) if n > 0 => (0..n).for_each(|_| drop(b.lookup(e.keys[k].req()))),
                        _ => {
                            // The other client may have switched the runtime off.
                            match how {
                                How::Sync => drop(b.compile_jit_sync(e.keys[k].req())),
                                how => ask(&e, &b, k, how),
                            }
                        }
                    }
                    if pause > 0 {
                        simk::sleep_ns(pause);
                    }
                }
            }));
        }
        join("trouble", &ts);
        world::calm(&b);
        let _ = b.set_enabled(true);
        if explicit {
            settle(&b, &env);
        }
        let bound = 30 * SEC + 2 * idle.unwrap_or(0);
        // A helper whose output is to be spoilt later on is a fault yet to come: it costs one request.
        let spoilt = g().spoilt.iter().any(|p| matches!(simk::k().procs[p].state, simk::ProcState::Running | simk::ProcState::Stopped));
        let mut t0 = simk::now();
        if batch {
            b.prepare_aot_batch((0..targets).map(|k| aot(&env.keys[k])).collect());
        }
        for k in 0..targets {
            if !batch {
                t0 = simk::now();
            }
            if explicit && !batch {
                if stored && simk::choose(2) == 0 {
                    b.prepare_aot(aot(&env.keys[k]));
                } else {
                    b.compile_jit(env.keys[k].req());
                }
            }
            let mut n = 0;
            if !world::wait_until(bound, 20 * MS, || {
                n += 1;
                if explicit && spoilt && n % 100 == 0 {
                    b.compile_jit(env.keys[k].req());
                }
                if explicit { resident(&b, &env.keys[k]).is_some() } else { matches!(b.lookup(env.keys[k].req()), LookupDecision::Compiled(_)) }
            }) && !(explicit && idle.is_some())
            {
                simk::fail(
                    "C07.starved",
                    format!("contract {k} is not compiled {} ms after the last fault, {}: {:?}", (simk::now() - t0) / MS, if explicit { "although requested".to_string() } else { format!("looked up {n} times") }, b.stats()),
                );
                break;
            }
        }
        settle(&b, &env);
        let st = b.stats();
        if st.compilations_dispatched != st.compilations_succeeded + st.compilations_failed || st.pending_jobs != 0 {
            simk::fail("C10.stats", format!("dispatched, succeeded, failed and pending compilations do not add up on a quiet runtime: {st:?}"));
        }
        end(b, &env, &ts);
    });
    Scenario { cfg: kcfg, root, ops, mode: "demand" }
}

// --- C03, C10, C11 ---

struct Wedge {
    shut: bool,
    inside: bool,
}
static mut WEDGE: Wedge = Wedge { shut: false, inside: false };
#[allow(static_mut_refs)]
fn wedge_() -> &'static mut Wedge {
    unsafe { &mut WEDGE }
}

/// The backend is stuck in the embedder's callback while everything else goes on.
pub fn wedge(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0x3ED6);
    let nk = 4 + r.below(4) as usize;
    let mut ba = base(&mut r, nk, 1);
    ba.slow(&mut r);
    let cap = *pick(&mut r, &[1, 2, 4, 8, 40]);
    let t = &mut ba.cfg.tuning;
    t.channel_capacity = cap;
    t.max_events_per_drain = *pick(&mut r, &[1, 4, 256]);
    t.jit_hot_threshold = *pick(&mut r, &[1, 3, 1_000_000]);
    t.shutdown_timeout = ms(*pick(&mut r, &[50, 300, 2000]));
    let queued = r.below(1 + cap.min(nk - 2) as u64) as usize;
    let clients = 1 + r.below(3) as usize;
    let mut plans = vec![];
    for _ in 0..clients {
        let mut v = vec![];
        for _ in 0..1 + r.below(40) {
            let x = (r.below(nk as u64) as usize, r.below(10));
            if world::keep() {
                v.push(x);
            }
        }
        plans.push(v);
    }
    let cycles = r.below(2 * cap as u64 + 3);
    let odd = r.below(2) == 0;
    let dropped = match sp.prop.as_str() {
        "C11" => r.below(4) > 0,
        _ => r.below(6) == 0,
    };
    let st = ba.cfg.tuning.shutdown_timeout.as_nanos() as u64;
    let release = *pick(&mut r, &[0, 10 * MS, st / 2, st, 2 * st, 5 * st]);
    let ops = g().next_op;
    ba.cfg.on_compilation = Some(Arc::new(|e| {
        simk::point("callback");
        g().events.push((e, simk::now()));
        while wedge_().shut {
            wedge_().inside = true;
            simk::sleep_ns(MS);
        }
        wedge_().inside = false;
    }));
    let env = ba.env();
    let Base { cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        *wedge_() = Wedge { shut: false, inside: false };
        let b = boot(cfg);
        ask(&env, &b, 0, How::Sync);
        wedge_().shut = true;
        ask(&env, &b, 1, How::Compile);
        if !world::wait_until(60 * SEC, MS, || wedge_().inside) {
            simk::fail("C10.event", "the callback does not fire for an explicit request");
            wedge_().shut = false;
            return end(b, &env, &[]);
        }
        // From here on the backend takes nothing.
        for k in 0..queued {
            ask(&env, &b, 2 + k, How::Compile);
        }
        let mut ts = vec![];
        for (i, v) in plans.into_iter().enumerate() {
            let (b, e) = (b.clone(), env.clone());
            ts.push(spawn(&format!("client{i}"), move || {
                for (k, what) in v {
                    match what {
                        0..=6 => {
                            let p = rt::lookup(&e, &b, k, true);
                            if (k == 0) != p.is_some() {
                                simk::fail("C03.answer", format!("while the backend is stuck a lookup of contract {k} finds {:?}; only contract 0 was compiled", p.is_some()));
                            }
                        }
                        7 => {
                            rt::nonblocking("get_compiled", true, true, || resident(&b, &e.keys[k]));
                        }
                        8 => {
                            rt::nonblocking("stats", true, true, || b.stats());
                        }
                        _ => simk::sleep_ns(10_000),
                    }
                }
            }));
        }
        let mut sent = 0;
        for i in 0..cycles {
            rt::nonblocking("pause", true, false, || b.pause());
            sent += 1;
            if i + 1 < cycles || !odd {
                rt::nonblocking("resume", true, false, || b.resume());
                sent += 1;
            }
        }
        join("clients of a stuck backend", &ts);
        let s = b.stats();
        let lost = (queued as u64 + sent).saturating_sub(cap as u64);
        if s.commands_dropped != lost || s.command_queue_len != queued as u64 + sent - lost {
            simk::fail("C03.dropped", format!("{queued} requests and {sent} pauses and resumes were sent to a stuck backend with room for {cap}: {} dropped, {} queued", s.commands_dropped, s.command_queue_len));
        }
        let n = rt::h().hits + rt::h().misses;
        let lost = n.saturating_sub(cap as u64);
        if s.events_dropped != lost || s.events_queued != n - lost {
            simk::fail("C03.dropped", format!("{n} lookups on a stuck backend with room for {cap}: {} dropped, {} queued", s.events_dropped, s.events_queued));
        }
        if dropped {
            ts.push(spawn("release", move || {
                simk::sleep_ns(release);
                wedge_().shut = false;
            }));
            return end(b, &env, &ts);
        }
        wedge_().shut = false;
        if odd && cycles > 0 {
            b.resume();
        }
        // The last command may be one that was dropped.
        settle(&b, &env);
        b.pause();
        b.resume();
        settle(&b, &env);
        for k in 0..2 + queued {
            if !world::wait_until(120 * SEC, 5 * MS, || resident(&b, &env.keys[k]).is_some()) {
                simk::fail("C07.lost", format!("contract {k}, requested while the backend was stuck, is not compiled: {:?}", b.stats()));
            }
        }
        settle(&b, &env);
        rt::check_stats(&env, &b);
        end(b, &env, &ts);
    });
    Scenario { cfg: kcfg, root, ops, mode: "wedge" }
}

// --- C03, C11 ---

#[derive(Default)]
struct Talk {
    b: Option<JitBackend>,
    n: usize,
}
static mut TALK: Talk = Talk { b: None, n: 0 };
#[allow(static_mut_refs)]
fn talk_() -> &'static mut Talk {
    unsafe { &mut TALK }
}

/// The embedder's callback uses the runtime itself, and may drop the last handle to it.
pub fn talk(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0x7A1C);
    let nk = 2 + r.below(4) as usize;
    let mut ba = base(&mut r, nk, 1);
    ba.slow(&mut r);
    if r.below(3) == 0 {
        ba.kcfg.faults.insert("llvm_compile", 2000);
    }
    let t = &mut ba.cfg.tuning;
    t.shutdown_timeout = ms(*pick(&mut r, &[20, 300, 2000]));
    t.jit_hot_threshold = *pick(&mut r, &[1, 3, 1_000_000]);
    t.channel_capacity = *pick(&mut r, &[16, 256]);
    let limit = t.shutdown_timeout.as_nanos() as u64;
    let leave = if sp.prop == "C11" { r.below(4) > 0 } else { r.below(4) == 0 };
    let at = 1 + r.below(nk as u64) as usize;
    let nested = r.below(2) == 0;
    let wait = *pick(&mut r, &[0, 100_000, MS, 50 * MS]);
    let env = ba.env();
    let e = env.clone();
    ba.cfg.on_compilation = Some(Arc::new(move |ev| {
        simk::point("callback");
        g().events.push((ev, simk::now()));
        talk_().n += 1;
        if let Some(b) = talk_().b.clone() {
            for k in &e.keys {
                rt::nonblocking("lookup in the callback", true, true, || b.lookup(k.req()));
                rt::nonblocking("get_compiled in the callback", true, true, || resident(&b, k));
            }
            rt::nonblocking("stats in the callback", true, true, || b.stats());
            rt::nonblocking("pause in the callback", true, false, || b.pause());
            if nested {
                rt::nonblocking("pause in the callback", true, false, || b.pause());
                rt::nonblocking("resume in the callback", true, false, || b.resume());
            }
            rt::nonblocking("resume in the callback", true, false, || b.resume());
        }
        if leave && talk_().n == at {
            let t0 = simk::now();
            drop(talk_().b.take());
            let took = simk::now() - t0;
            if took > limit + 200 * MS {
                simk::fail("C11.slow_drop", format!("dropping the last handle in the callback took {} ms, the timeout is {} ms", took / MS, limit / MS));
            }
        }
    }));
    let Base { cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        let b = boot(cfg);
        *talk_() = Talk { b: Some(b.clone()), n: 0 };
        for k in 0..nk {
            b.compile_jit(env.keys[k].req());
        }
        if !leave {
            if !world::wait_until(1200 * SEC, MS, || talk_().n >= nk) {
                simk::fail("hang", format!("{} of {nk} requests have ended, the callback uses the runtime: {}", talk_().n, simk::k().blocked_report().join("; ")));
            }
            talk_().b = None;
            settle(&b, &env);
            return end(b, &env, &[]);
        }
        simk::sleep_ns(wait);
        drop(b);
        if !world::wait_until(1200 * SEC, MS, || talk_().b.is_none()) {
            simk::fail("hang", format!("the callback was called {} times in 1200 s: {}", talk_().n, simk::k().blocked_report().join("; ")));
            talk_().b = None;
        }
        simk::k().faults_on = false;
        simk::k().calm = true;
        rt::nothing_left(simk::now(), &[]);
        rt::release_held(&env);
    });
    Scenario { cfg: kcfg, root, ops: 0, mode: "talk" }
}
