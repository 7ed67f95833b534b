//! Artifact stores: restarts with only durable state, the bundled store's linearizability, and starting up.

use crate::{
    Scenario, Spec,
    dir::{self, How, ask, aot, base, began, boot, end, fence, join, resident, spawn},
    gen_::pick,
    rt::{self, Env, Key},
    world::{self, MS, SEC, g, ms},
};
use alloy_primitives::B256;
use eyre::Result;
use revm_primitives::hardfork::SpecId;
use revmc_backend::OptimizationLevel;
use revmc_runtime::runtime::{
    ArtifactKey, ArtifactManifest, ArtifactStore, BackendSelection, InterpretReason, JitBackend, LookupDecision,
    ProgramKind, RuntimeArtifactStore, RuntimeCacheKey, RuntimeConfig, StoredArtifact,
};
use simk::{ProcState, Rng};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    fs,
    path::{Path, PathBuf},
    sync::Arc,
};

// --- a durable store ---

/// One file per artifact and one for its manifest, both replaced atomically. A harness stand-in for the persistent
/// stores that applications provide; its files are what survives a process.
pub struct DirStore {
    pub dir: PathBuf,
}

/// What the stores of a run were made to do.
#[derive(Default)]
pub struct Injected {
    pub load_all: u64,
    pub load: u64,
    pub store: u64,
}
static mut INJECTED: Injected = Injected { load_all: 0, load: 0, store: 0 };
#[allow(static_mut_refs)]
pub fn injected() -> &'static mut Injected {
    unsafe { &mut INJECTED }
}

fn opt_name(o: OptimizationLevel) -> &'static str {
    match o {
        OptimizationLevel::None => "none",
        OptimizationLevel::Less => "less",
        OptimizationLevel::Default => "default",
        OptimizationLevel::Aggressive => "aggressive",
    }
}

fn opt_parse(s: &str) -> Option<OptimizationLevel> {
    [OptimizationLevel::None, OptimizationLevel::Less, OptimizationLevel::Default, OptimizationLevel::Aggressive]
        .into_iter()
        .find(|o| opt_name(*o) == s)
}

impl DirStore {
    pub fn stem(key: &ArtifactKey) -> String {
        let b = match key.backend {
            BackendSelection::Auto => "auto",
            BackendSelection::Llvm => "llvm",
        };
        format!("{:x}-{}-{b}-{}", key.runtime.code_hash, key.runtime.spec_id as u8, opt_name(key.opt_level))
    }

    fn parse(path: &Path) -> Option<(ArtifactKey, StoredArtifact)> {
        let text = fs::read_to_string(path).ok()?;
        let v: Vec<&str> = text.lines().collect();
        let [hash, spec, backend, opt, symbol, code, len, at, content, "end"] = v[..] else { return None };
        let key = ArtifactKey {
            runtime: RuntimeCacheKey { code_hash: hash.parse().ok()?, spec_id: SpecId::try_from_u8(spec.parse().ok()?)? },
            backend: if backend == "auto" { BackendSelection::Auto } else { BackendSelection::Llvm },
            opt_level: opt_parse(opt)?,
        };
        let manifest = ArtifactManifest {
            artifact_key: key.clone(),
            symbol_name: symbol.into(),
            bytecode_len: code.parse().ok()?,
            artifact_len: len.parse().ok()?,
            created_at_unix_secs: at.parse().ok()?,
            content_hash: content.parse::<B256>().ok()?.0,
        };
        Some((key, StoredArtifact { manifest, dylib_path: path.with_extension("so") }))
    }

    pub fn write_manifest(&self, key: &ArtifactKey, m: &ArtifactManifest) -> std::io::Result<()> {
        let b = match key.backend {
            BackendSelection::Auto => "auto",
            BackendSelection::Llvm => "llvm",
        };
        let text = format!(
            "{}\n{}\n{b}\n{}\n{}\n{}\n{}\n{}\n{}\nend\n",
            key.runtime.code_hash,
            key.runtime.spec_id as u8,
            opt_name(key.opt_level),
            m.symbol_name,
            m.bytecode_len,
            m.artifact_len,
            m.created_at_unix_secs,
            B256::from(m.content_hash),
        );
        let p = self.dir.join(Self::stem(key));
        fs::write(p.with_extension("tmp2"), text)?;
        simk::point("store.manifest");
        fs::rename(p.with_extension("tmp2"), p.with_extension("manifest"))
    }
}

impl ArtifactStore for DirStore {
    fn load_all(&self) -> Result<Vec<(ArtifactKey, StoredArtifact)>> {
        simk::point("store.load_all");
        match simk::fault("store_load_all", 3) {
            1 => {
                injected().load_all += 1;
                eyre::bail!("injected: cannot list the artifacts");
            }
            2 => simk::sleep_ns(50 * MS),
            _ => {}
        }
        let mut v: Vec<PathBuf> = fs::read_dir(&self.dir)?.flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "manifest")).collect();
        v.sort();
        let n = v.len();
        if n > 0 {
            v.rotate_left(simk::choose(n));
        }
        simk::point("store.load_all");
        Ok(v.iter().filter_map(|p| Self::parse(p)).collect())
    }

    fn load(&self, key: &ArtifactKey) -> Result<Option<StoredArtifact>> {
        simk::point("store.load");
        if simk::fault("store_load", 2) > 0 {
            injected().load += 1;
            eyre::bail!("injected: cannot read the artifact");
        }
        Ok(Self::parse(&self.dir.join(Self::stem(key)).with_extension("manifest")).filter(|x| x.0 == *key).map(|x| x.1))
    }

    fn store(&self, key: &ArtifactKey, m: &ArtifactManifest, bytes: &[u8]) -> Result<()> {
        simk::point("store.store");
        let f = simk::fault("store_write", 5);
        injected().store += (f > 0) as u64;
        if f == 1 {
            eyre::bail!("injected: no space left on device");
        }
        let p = self.dir.join(Self::stem(key));
        let temp = p.with_extension("tmp");
        fs::write(&temp, &bytes[..bytes.len() / 2])?;
        simk::point("store.write");
        if f == 2 {
            eyre::bail!("injected: input/output error");
        }
        fs::write(&temp, bytes)?;
        simk::point("store.write");
        fs::rename(&temp, p.with_extension("so"))?;
        simk::point("store.rename");
        if f == 3 {
            eyre::bail!("injected: no space left on device");
        }
        self.write_manifest(key, m)?;
        simk::point("store.done");
        if f == 4 {
            eyre::bail!("injected: timed out, although stored");
        }
        Ok(())
    }

    fn delete(&self, key: &ArtifactKey) -> Result<()> {
        let p = self.dir.join(Self::stem(key));
        let _ = fs::remove_file(p.with_extension("manifest"));
        simk::point("store.delete");
        let _ = fs::remove_file(p.with_extension("so"));
        Ok(())
    }

    fn clear(&self) -> Result<()> {
        for (k, _) in self.list() {
            simk::point("store.clear");
            self.delete(&k)?;
        }
        Ok(())
    }
}

impl DirStore {
    pub fn new(name: &str) -> Arc<Self> {
        let dir = Path::new(&simk::k().cfg.scratch).join(name);
        fs::create_dir_all(&dir).expect("scratch directory");
        Arc::new(Self { dir })
    }
    pub fn list(&self) -> Vec<(ArtifactKey, StoredArtifact)> {
        let mut v: Vec<PathBuf> = fs::read_dir(&self.dir).into_iter().flatten().flatten().map(|e| e.path()).filter(|p| p.extension().is_some_and(|e| e == "manifest")).collect();
        v.sort();
        v.iter().filter_map(|p| Self::parse(p)).collect()
    }
}

// --- C14 ---

/// What is known about the store across the processes of a run.
#[derive(Default)]
struct St {
    /// Keys seen available as artifacts, and neither cleared nor damaged since.
    durable: BTreeSet<usize>,
    cleared_at: u64,
    damaged_at: BTreeMap<usize, u64>,
    starts: u64,
    reloads: u64,
}
static mut ST: Option<St> = None;
#[allow(static_mut_refs)]
fn st() -> &'static mut St {
    unsafe { ST.as_mut().unwrap() }
}

#[derive(Clone, Debug)]
enum Do {
    Prepare(Vec<usize>),
    Wait(u64),
    Observe,
    Reload(usize),
    ClearPersisted,
    ClearAll,
    Jit(usize),
    Look(usize),
    Damage(usize, u8),
}

fn compiles_of(k: &Key) -> usize {
    dir::compiles_of_contract(k)
}

fn damage(s: &DirStore, k: &Key, how: u8) -> bool {
    let mut any = false;
    for (key, a) in s.list() {
        if key.runtime != k.rt() {
            continue;
        }
        any = true;
        let p = &a.dylib_path;
        // Replaced, not rewritten: the old file may be mapped.
        let put = |bytes: &[u8]| {
            let t = p.with_extension("damage");
            let _ = fs::write(&t, bytes).and_then(|()| fs::rename(&t, p));
        };
        match how {
            0 => {
                let _ = fs::remove_file(p);
            }
            1 => put(b""),
            2 => {
                let b = fs::read(p).unwrap_or_default();
                put(&b[..b.len() * 2 / 3]);
            }
            3 => put(b"this is not a library"),
            4 => {
                let mut m = a.manifest.clone();
                m.symbol_name = "aot_of_something_else".into();
                let _ = s.write_manifest(&key, &m);
            }
            _ => {
                let _ = fs::remove_file(p.with_extension("manifest"));
            }
        }
    }
    any
}

/// Called by a process whose runtime has just been started.
fn check_start(env: &Env, b: &JitBackend, before: usize) {
    st().starts += 1;
    if simcode::compiles().len() != before {
        simk::fail("C14.recompiled", format!("{} compilations while the runtime was starting", simcode::compiles().len() - before));
    }
    for k in 0..env.keys.len() {
        match resident(b, &env.keys[k]) {
            Some(p) => {
                if p.kind != ProgramKind::Aot {
                    simk::fail("C14.kind", format!("contract {k} is {:?} right after a start", p.kind));
                }
                rt::check_program(env, k, &p, true, 0, "a lookup after a restart");
            }
            None if st().durable.contains(&k) => {
                simk::fail("C14.lost", format!("contract {k}, available as an artifact before the restart, is not resident after start {}", st().starts));
            }
            None => {}
        }
    }
}

fn act(env: &Env, b: &JitBackend, s: &DirStore, d: &Do) {
    simk::k().tlog(|| format!("{d:?}"));
    match d {
        Do::Prepare(v) => b.prepare_aot_batch(v.iter().map(|k| aot(&env.keys[*k])).collect()),
        Do::Wait(ns) => simk::sleep_ns(*ns),
        Do::Observe => {
            for (k, key) in env.keys.iter().enumerate() {
                if env.aot && resident(b, key).is_some_and(|p| p.kind != ProgramKind::Aot) {
                    simk::fail("C14.kind", format!("contract {k} was not compiled ahead of time, although everything should be"));
                }
                if let Some(p) = resident(b, key)
                    && p.kind == ProgramKind::Aot
                    && began(&p).is_some_and(|t| t > st().cleared_at && t > *st().damaged_at.get(&k).unwrap_or(&0))
                {
                    if s.list().iter().any(|(a, _)| a.runtime == key.rt()) {
                        st().durable.insert(k);
                    } else {
                        simk::fail("C14.not_stored", format!("contract {k} is available as an artifact, but the store does not have it"));
                    }
                }
            }
        }
        Do::Reload(k) => {
            let key = &env.keys[*k];
            b.clear_resident();
            fence(b, key);
            let (n, f) = (compiles_of(key), injected().load + simk::k().fault_count("dlopen"));
            let had = st().durable.contains(k);
            b.prepare_aot(aot(key));
            fence(b, key);
            if !had {
                return;
            }
            st().reloads += 1;
            let p = resident(b, key);
            if injected().load + simk::k().fault_count("dlopen") != f {
                return;
            }
            match p {
                None => simk::fail("C14.not_reloaded", format!("contract {k} is stored, but preparing it again does not make it available")),
                Some(p) => rt::check_program(env, *k, &p, true, 0, "a reload"),
            }
            // Compilations are recognised by the code only.
            let alone = env.keys.iter().filter(|x| x.c == key.c).count() == 1;
            if alone && compiles_of(key) != n {
                simk::fail("C14.recompiled", format!("contract {k} is stored, but preparing it again compiles it"));
            }
        }
        Do::ClearPersisted | Do::ClearAll => {
            st().durable.clear();
            if matches!(d, Do::ClearAll) {
                b.clear_all();
            } else {
                b.clear_persisted();
            }
            fence(b, &env.keys[0]);
            st().cleared_at = simk::now();
        }
        Do::Jit(k) => ask(env, b, *k, How::Compile),
        Do::Look(k) => ask(env, b, *k, How::Lookups),
        Do::Damage(k, how) => {
            st().durable.remove(k);
            st().damaged_at.insert(*k, simk::now());
            damage(s, &env.keys[*k], *how);
        }
    }
}

fn process(name: &str, f: impl FnOnce() -> i32 + Send + 'static) -> simk::Pid {
    let pid = simk::new_pid();
    let key = simk::new_key();
    let now = simk::now();
    simk::k().procs.insert(pid, simk::Proc {
        pid,
        parent: simk::HOST,
        pgid: pid,
        state: ProcState::Running,
        env: BTreeMap::from([("SIM_APP".into(), "1".into())]),
        exe: format!("/sim/{name}"),
        stdin: None,
        stdout: None,
        key,
        rlimit_as: None,
        affinity: None,
        spawned_at: now,
        exited_at: 0,
        stopped_since: 0,
    });
    simk::start_process(pid, name, Box::new(f));
    pid
}

/// Waits until nothing of an earlier runtime is left: children find their pipes closed and go.
fn settled() {
    let busy = || {
        let kk = simk::k();
        kk.procs.values().any(|p| !matches!(p.pid, simk::HOST | simk::KERNEL) && matches!(p.state, ProcState::Running | ProcState::Stopped))
            || (1..kk.threads.len()).any(|t| kk.threads[t].pid == simk::HOST && !simk::is_finished(t))
    };
    if !world::wait_until(60 * SEC, 20 * MS, || !busy()) {
        simk::fail("C11.left_over", format!("a minute after a runtime is gone: {}", simk::k().blocked_report().join("; ")));
    }
}

pub fn restart(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0x2E57);
    let nc = 1 + r.below(4) as usize;
    let ns = 1 + (r.below(3) == 0) as usize;
    let mut ba = base(&mut r, nc, ns);
    ba.cfg.aot = r.below(3) == 0;
    let t = &mut ba.cfg.tuning;
    t.jit_hot_threshold = 1 + r.below(2) as usize;
    t.aot_opt_level = *pick(&mut r, &[OptimizationLevel::None, OptimizationLevel::Default, OptimizationLevel::Aggressive]);
    if r.below(3) == 0 {
        t.idle_evict_duration = Some(ms(*pick(&mut r, &[50, 400])));
        t.eviction_sweep_interval = ms(10);
    }
    let evicts = t.idle_evict_duration.is_some();
    ba.slow(&mut r);
    let nk = ba.keys.len() as u64;
    let faulty = r.below(3) > 0;
    if faulty {
        for (s, p) in [("store_write", 1500), ("store_load", 800), ("store_load_all", 800), ("linker", 500), ("dlopen", 200), ("llvm_compile", 300)] {
            if r.below(2) == 0 {
                ba.kcfg.faults.insert(s, p);
            }
        }
    }
    let phases = 2 + r.below(if sp.tier > 0 { 5 } else { 3 });
    let mut plan = vec![];
    for _ in 0..phases {
        let mut ops = vec![];
        for _ in 0..3 + r.below(8) {
            let k = r.below(nk) as usize;
            let x = match r.below(20) {
                0..=6 => Do::Prepare((0..nk as usize).filter(|i| *i == k || r.below(3) == 0).collect()),
                7..=10 => Do::Wait(*pick(&mut r, &[200_000, MS, 20 * MS, 500 * MS])),
                11..=13 => Do::Observe,
                14..=15 => Do::Reload(k),
                16 => match r.below(4) {
                    0 => Do::ClearPersisted,
                    1 => Do::ClearAll,
                    _ => Do::Damage(k, r.below(6) as u8),
                },
                17 if r.below(2) == 0 => Do::Look(k),
                17 => Do::Jit(k),
                18 => Do::Look(k),
                _ => Do::Observe,
            };
            if world::keep() {
                ops.push(x);
            }
        }
        let kill = match r.below(4) {
            0 => None,
            1 => Some(r.below(200_000)),
            2 => Some(r.below(5 * MS)),
            _ => Some(r.below(700 * MS)),
        };
        let mut dmg = vec![];
        for k in 0..nk as usize {
            if r.below(6) == 0 {
                let x = (k, r.below(6) as u8);
                if world::keep() {
                    dmg.push(x);
                }
            }
        }
        let twin = (r.below(6) == 0).then(|| r.below(nk) as usize);
        plan.push((ops, kill, dmg, twin));
    }
    let ops = g().next_op;
    let same_process = r.below(4) == 0;
    ba.env.aot = ba.cfg.aot;
    ba.env.evicts = evicts;
    ba.env.store = true;
    let env = ba.env();
    let dir::Base { mut cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        unsafe { ST = Some(St::default()) };
        *injected() = Injected::default();
        simk::k().spawn_hook = Some(world::spawn_hook);
        let s = DirStore::new("artifacts");
        cfg.store = Some(s.clone());
        // Restarts after `end`: false when the start failed.
        let life = |env: &Env, cfg: &RuntimeConfig, s: &DirStore, ops: &[Do]| -> Option<JitBackend> {
            let before = simcode::compiles().len();
            let (f, t) = (injected().load_all, simk::k().fault_count("dlopen"));
            let b = match JitBackend::new(cfg.clone()) {
                Ok(b) => b,
                Err(e) => {
                    if injected().load_all == f {
                        simk::fail("C14.startup", format!("the runtime does not start: {e}"));
                    }
                    return None;
                }
            };
            if simk::k().fault_count("dlopen") == t {
                check_start(env, &b, before);
            }
            for o in ops {
                act(env, &b, s, o);
            }
            Some(b)
        };
        for (ops, kill, dmg, twin) in plan {
            if same_process {
                if let Some(b) = life(&env, &cfg, &s, &ops) {
                    drop(b);
                }
            } else {
                let (env2, cfg2, s2) = (env.clone(), cfg.clone(), s.clone());
                let wait = kill.is_some();
                let pid = process("app", move || {
                    let b = life(&env2, &cfg2, &s2, &ops);
                    while wait && b.is_some() {
                        simk::sleep_ns(SEC);
                    }
                    drop(b);
                    0
                });
                if let Some(ns) = kill {
                    simk::sleep_ns(ns);
                    simk::k().tlog(|| format!("crash of {pid}"));
                    simk::signal(pid, 9);
                } else if !world::wait_until(600 * SEC, 10 * MS, || matches!(simk::k().procs[&pid].state, ProcState::Zombie(_))) {
                    simk::fail_fatal("hang", format!("the process does not end: {}", simk::k().blocked_report().join("; ")));
                }
                simk::k().procs.get_mut(&pid).unwrap().state = ProcState::Reaped;
            }
            settled();
            for (k, how) in dmg {
                simk::k().tlog(|| format!("damage {k} {how}"));
                damage(&s, &env.keys[k], how);
                st().durable.remove(&k);
                st().damaged_at.insert(k, simk::now());
            }
            if let Some(k) = twin {
                // The same contract at another optimization level as well.
                for (mut key, a) in s.list() {
                    if key.runtime == env.keys[k].rt() && key.opt_level != OptimizationLevel::Less {
                        key.opt_level = OptimizationLevel::Less;
                        let to = s.dir.join(DirStore::stem(&key)).with_extension("so");
                        let mut m = a.manifest.clone();
                        m.artifact_key = key.clone();
                        if fs::copy(&a.dylib_path, to).is_ok() {
                            let _ = s.write_manifest(&key, &m);
                        }
                    }
                }
            }
        }
        // Without any fault: everything intact is there, everything else can be prepared, and then all of it is there.
        simk::k().faults_on = false;
        let before = simcode::compiles().len();
        let b = boot(cfg.clone());
        check_start(&env, &b, before);
        b.prepare_aot_batch(env.keys.iter().map(aot).collect());
        for (k, key) in env.keys.iter().enumerate() {
            if !world::wait_until(60 * SEC, MS, || resident(&b, key).is_some() || (evicts && s.list().iter().any(|a| a.0.runtime == key.rt()))) {
                simk::fail("C14.not_prepared", format!("contract {k} does not become available without faults: {:?}", b.stats()));
            }
            if let Some(p) = resident(&b, key) {
                rt::run_program(&env, k, &p, "a preparation without faults");
            }
        }
        act(&env, &b, &s, &Do::Observe);
        drop(b);
        settled();
        if !evicts {
            for k in 0..env.keys.len() {
                if st().cleared_at == 0 && !st().damaged_at.contains_key(&k) && !st().durable.contains(&k) {
                    simk::fail("C14.not_stored", format!("contract {k} was prepared without faults, but is not available as an artifact"));
                }
            }
        }
        let before = simcode::compiles().len();
        let b = boot(cfg);
        check_start(&env, &b, before);
        *simk::k().counters.entry("restarts").or_default() += st().starts;
        *simk::k().counters.entry("reloads").or_default() += st().reloads;
        end(b, &env, &[]);
    });
    Scenario { cfg: kcfg, root, ops, mode: "restart" }
}

// --- C15 ---

#[derive(Clone, Debug)]
enum Call {
    Store(usize, u64),
    Load(usize),
    LoadAll,
    Delete(usize),
    Clear,
}

#[derive(Clone, Debug)]
enum Effect {
    /// Sets the artifact; on failure it may be left as it was or be gone.
    Put(u64, bool),
    Remove(bool),
    Seen(Option<u64>),
}

#[derive(Clone, Debug)]
struct Event {
    key: usize,
    start: u64,
    end: u64,
    effect: Effect,
    who: usize,
}

/// Is there an order of these events, consistent with real time, in which each saw what it saw?
pub fn linearizable(ev: &[Event]) -> bool {
    let n = ev.len();
    assert!(n <= 128);
    fn go(ev: &[Event], done: u128, state: Option<u64>, seen: &mut HashSet<(u128, Option<u64>)>) -> bool {
        if done.count_ones() as usize == ev.len() {
            return true;
        }
        if !seen.insert((done, state)) {
            return false;
        }
        // The earliest end among those still to come bounds what may come next.
        let bound = ev.iter().enumerate().filter(|(i, _)| done & (1 << i) == 0).map(|(_, e)| e.end).min().unwrap();
        for (i, e) in ev.iter().enumerate() {
            if done & (1 << i) != 0 || e.start > bound {
                continue;
            }
            let d = done | (1 << i);
            let ok = match &e.effect {
                Effect::Put(v, true) => go(ev, d, Some(*v), seen),
                Effect::Put(_, false) => go(ev, d, state, seen) || go(ev, d, None, seen),
                Effect::Remove(true) => go(ev, d, None, seen),
                Effect::Remove(false) => go(ev, d, state, seen) || go(ev, d, None, seen),
                Effect::Seen(v) => *v == state && go(ev, d, state, seen),
            };
            if ok {
                return true;
            }
        }
        false
    }
    go(ev, 0, None, &mut HashSet::new())
}

struct Lin {
    events: Vec<Event>,
    clock: u64,
    /// Per key: mutators in progress, mutators started.
    busy: Vec<u32>,
    started: Vec<u64>,
    files: u64,
}
static mut LIN: Option<Lin> = None;
#[allow(static_mut_refs)]
fn lin() -> &'static mut Lin {
    unsafe { LIN.as_mut().unwrap() }
}

fn tick() -> u64 {
    lin().clock += 1;
    lin().clock
}

fn content(v: u64) -> Vec<u8> {
    let mut r = Rng::new(v ^ 0xF11E);
    let n = [0, 1, 100, 5000, 9000][r.below(5) as usize] + r.below(50);
    let mut b = v.to_le_bytes().to_vec();
    b.extend((0..n).map(|i| (v as u8).wrapping_add(i as u8)));
    b
}

fn manifest(key: &ArtifactKey, v: u64) -> ArtifactManifest {
    ArtifactManifest {
        artifact_key: key.clone(),
        symbol_name: format!("sym{v}"),
        bytecode_len: v as usize,
        artifact_len: content(v).len(),
        created_at_unix_secs: v,
        content_hash: alloy_primitives::keccak256(content(v)).0,
    }
}

/// The version a returned artifact stands for; complains when it is a mixture.
fn version(key: &ArtifactKey, a: &StoredArtifact) -> u64 {
    let v = a.manifest.created_at_unix_secs;
    let m = manifest(key, v);
    let b = &a.manifest;
    if b.artifact_key != m.artifact_key || b.symbol_name != m.symbol_name || b.bytecode_len != m.bytecode_len || b.artifact_len != m.artifact_len || b.content_hash != m.content_hash {
        simk::fail("C15.manifest", format!("a loaded manifest is not one that was stored for its key: {b:?}"));
    }
    v
}

fn files_under(dir: &Path) -> BTreeSet<PathBuf> {
    let mut out = BTreeSet::new();
    for e in fs::read_dir(dir).into_iter().flatten().flatten() {
        let p = e.path();
        if p.is_dir() {
            out.extend(files_under(&p));
        } else {
            out.insert(p);
        }
    }
    out
}

fn call(s: &RuntimeArtifactStore, keys: &[ArtifactKey], who: usize, c: &Call) {
    let l = lin();
    let touched: Vec<usize> = match c {
        Call::Store(k, _) | Call::Delete(k) => vec![*k],
        Call::Clear => (0..keys.len()).collect(),
        _ => vec![],
    };
    for k in &touched {
        l.busy[*k] += 1;
        l.started[*k] += 1;
    }
    let quiet: Vec<(bool, u64)> = (0..keys.len()).map(|k| (l.busy[k] == 0, l.started[k])).collect();
    let start = tick();
    let mut v: Vec<(usize, Effect, Option<PathBuf>)> = vec![];
    match c {
        Call::Store(k, val) => {
            let ok = s.store(&keys[*k], &manifest(&keys[*k], *val), &content(*val)).is_ok();
            v.push((*k, Effect::Put(*val, ok), None));
        }
        Call::Load(k) => match s.load(&keys[*k]) {
            Ok(a) => v.push((*k, Effect::Seen(a.as_ref().map(|a| version(&keys[*k], a))), a.map(|a| a.dylib_path))),
            Err(_) => {}
        },
        Call::LoadAll => {
            if let Ok(all) = s.load_all() {
                let mut found: BTreeMap<usize, (u64, PathBuf)> = BTreeMap::new();
                for (key, a) in all {
                    let Some(k) = keys.iter().position(|x| *x == key) else {
                        simk::fail("C15.unknown", format!("load-all returns a key that was never stored: {key:?}"));
                        continue;
                    };
                    if found.insert(k, (version(&key, &a), a.dylib_path)).is_some() {
                        simk::fail("C15.twice", format!("load-all returns key {k} twice"));
                    }
                }
                for k in 0..keys.len() {
                    let x = found.remove(&k);
                    v.push((k, Effect::Seen(x.as_ref().map(|x| x.0)), x.map(|x| x.1)));
                }
            }
        }
        Call::Delete(k) => {
            let ok = s.delete(&keys[*k]).is_ok();
            v.push((*k, Effect::Remove(ok), None));
        }
        Call::Clear => {
            let ok = s.clear().is_ok();
            v.extend((0..keys.len()).map(|k| (k, Effect::Remove(ok), None)));
        }
    }
    let end = tick();
    let l = lin();
    simk::k().tlog(|| format!("{c:?} -> {:?}", v.iter().map(|x| (x.0, x.1.clone())).collect::<Vec<_>>()));
    for (k, effect, path) in v {
        if let (Effect::Seen(Some(val)), Some(path)) = (&effect, &path)
            && quiet[k].0
            && l.busy[k] == 0
            && l.started[k] == quiet[k].1
        {
            l.files += 1;
            let got = fs::read(path);
            if got.as_ref().ok() != Some(&content(*val)) {
                let what = match got {
                    Ok(b) => format!("{} other bytes", b.len()),
                    Err(e) => e.to_string(),
                };
                simk::fail("C15.file", format!("a load of key {k} returns version {val}, which has {} bytes; its file: {what}", content(*val).len()));
            }
        }
        l.events.push(Event { key: k, start, end, effect, who });
    }
    for k in &touched {
        l.busy[*k] -= 1;
    }
}

/// Concurrent calls on the bundled store, checked key by key against a register.
pub fn lin_store(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0x57_03E);
    let nk = 1 + r.below(3) as usize;
    let mut keys = vec![];
    let hash = B256::with_last_byte(7);
    // Keys that differ in one field each.
    let all = [
        (hash, SpecId::CANCUN, BackendSelection::Llvm, OptimizationLevel::Default),
        (hash, SpecId::OSAKA, BackendSelection::Llvm, OptimizationLevel::Default),
        (hash, SpecId::CANCUN, BackendSelection::Llvm, OptimizationLevel::Aggressive),
        (hash, SpecId::CANCUN, BackendSelection::Auto, OptimizationLevel::Default),
        (B256::with_last_byte(8), SpecId::CANCUN, BackendSelection::Llvm, OptimizationLevel::Default),
    ];
    let off = r.below(5) as usize;
    for i in 0..nk {
        let (code_hash, spec_id, backend, opt_level) = all[(off + i) % 5];
        keys.push(ArtifactKey { runtime: RuntimeCacheKey { code_hash, spec_id }, backend, opt_level });
    }
    let threads = 2 + r.below(2) as usize;
    let mut next = 1;
    let mut plans = vec![];
    let per = if sp.tier > 0 { 12 } else { 7 };
    for _ in 0..threads {
        let mut v = vec![];
        for _ in 0..3 + r.below(per) {
            let k = r.below(nk as u64) as usize;
            let x = match r.below(14) {
                0..=4 => Call::Store(k, next),
                5..=8 => Call::Load(k),
                9..=10 => Call::LoadAll,
                11..=12 => Call::Delete(k),
                _ => Call::Clear,
            };
            next += 1;
            if world::keep() {
                v.push(x);
            }
        }
        plans.push(v);
    }
    let ops = g().next_op;
    let mut faults = vec![("spurious_cas", 200)];
    let mut removes = false;
    if r.below(2) == 0 {
        for s in ["fs_create", "fs_open", "fs_write", "fs_short_write", "fs_rename", "fs_sync", "fs_mkdir"] {
            if r.below(2) == 0 {
                faults.push((s, *pick(&mut r, &[500, 1500])));
            }
        }
        if r.below(5) == 0 {
            removes = true;
            faults.push(("fs_remove", 1500));
        }
    }
    let kcfg = simk::Config { policy: world::policy(&mut r), leap: 0, stall: 0, faults: world::faults(&faults), max_steps: 1_000_000, ..Default::default() };
    let root = Box::new(move || {
        unsafe {
            LIN = Some(Lin { events: vec![], clock: 0, busy: vec![0; keys.len()], started: vec![0; keys.len()], files: 0 });
        }
        simk::k().faults_on = false;
        let s = Arc::new(RuntimeArtifactStore::new().expect("temporary store"));
        // Where it keeps its files.
        call(&s, &keys, 9, &Call::Store(0, 999_999));
        let dir = s.load(&keys[0]).ok().flatten().and_then(|a| a.dylib_path.parent().map(Path::to_path_buf)).expect("a stored artifact");
        simk::k().faults_on = true;
        let mut ts = vec![];
        for (i, v) in plans.into_iter().enumerate() {
            let (s, keys) = (s.clone(), keys.clone());
            ts.push(spawn(&format!("client{i}"), move || v.iter().for_each(|c| call(&s, &keys, i, c))));
        }
        join("calls on the store", &ts);
        simk::k().faults_on = false;
        call(&s, &keys, 9, &Call::LoadAll);
        for k in 0..keys.len() {
            call(&s, &keys, 9, &Call::Load(k));
        }
        let l = lin();
        for k in 0..keys.len() {
            let mut ev: Vec<Event> = l.events.iter().filter(|e| e.key == k).cloned().collect();
            ev.sort_by_key(|e| e.start);
            if !linearizable(&ev) {
                let text: Vec<String> = ev.iter().map(|e| format!("[{}-{}] thread {}: {:?}", e.start, e.end, e.who, e.effect)).collect();
                simk::fail("C15.not_linearizable", format!("key {k}: {}", text.join("; ")));
            }
        }
        let all = s.load_all().unwrap_or_default();
        if s.len() != all.len() || s.is_empty() != all.is_empty() {
            simk::fail("C15.len", format!("the store counts {} artifacts and returns {}", s.len(), all.len()));
        }
        let want: BTreeSet<PathBuf> = all.iter().map(|x| x.1.dylib_path.clone()).collect();
        if want.len() != all.len() {
            simk::fail("C15.file", "two artifacts share a file");
        }
        let got = files_under(&dir);
        if !removes && want != got {
            simk::fail("C15.left_over", format!("files: {:?}; artifacts: {:?}", got.difference(&want).collect::<Vec<_>>(), want.difference(&got).collect::<Vec<_>>()));
        }
        call(&s, &keys, 9, &Call::Clear);
        let left = files_under(&dir);
        if !removes && !left.is_empty() {
            simk::fail("C15.left_over", format!("after a clear: {left:?}"));
        }
        *simk::k().counters.entry("linearized_events").or_default() += lin().events.len() as u64;
        *simk::k().counters.entry("compared_files").or_default() += lin().files;
    });
    Scenario { cfg: kcfg, root, ops, mode: "lin" }
}

// --- C16 ---

#[derive(Clone, Debug, PartialEq)]
enum Use {
    Enable,
    Disable,
    Compile(usize),
    Sync(usize),
    Aot(usize),
    Look(usize),
    Clear(u8),
    Pause,
    Resume,
    Stats,
    Blocking(usize),
    Sleep(u64),
}

struct Up {
    /// Successful enables so far, enables in progress, and whether anything disables.
    oks: u64,
    enabling: u64,
    cleared: bool,
    disables: bool,
    errors: u64,
}
static mut UP: Up = Up { oks: 0, enabling: 0, cleared: false, disables: false, errors: 0 };
#[allow(static_mut_refs)]
fn up() -> &'static mut Up {
    unsafe { &mut UP }
}

fn backends(name: &str) -> usize {
    simk::k().threads.iter().filter(|t| t.name == name).count()
}

fn injected_failures() -> u64 {
    injected().load_all + simk::k().fault_count("thread_spawn") + simk::k().fault_count("dlopen")
}

fn use_it(env: &Env, b: &JitBackend, name: &str, pre: &[usize], u: &Use) {
    let f0 = injected_failures();
    let started = backends(name) > 0;
    simk::k().tlog(|| format!("{u:?}"));
    let check_disabled = |d: &LookupDecision, before: u64| {
        if before == 0 && up().oks == 0 && up().enabling == 0 && !matches!(d, LookupDecision::Interpret(InterpretReason::Disabled)) {
            simk::fail("C16.claims", format!("a lookup on a runtime that was never enabled gives {d:?}"));
        }
    };
    match u {
        Use::Enable => {
            up().enabling += 1;
            let r = b.set_enabled(true);
            up().enabling -= 1;
            match r {
                Ok(()) => {
                    up().oks += 1;
                    if !up().cleared && injected().load_all == 0 || !up().cleared {
                        for k in pre {
                            if resident(b, &env.keys[*k]).is_none() && simk::k().fault_count("dlopen") == 0 && !up().cleared {
                                simk::fail("C16.preload", format!("contract {k} is stored, but not resident when enabling returns"));
                            }
                        }
                    }
                    if backends(name) == 0 {
                        simk::fail("C16.not_started", "enabling succeeded, but there is no backend thread");
                    }
                    if !up().disables {
                        let d = b.lookup(env.keys[0].req());
                        if matches!(d, LookupDecision::Interpret(InterpretReason::Disabled)) {
                            simk::fail("C16.not_enabled", "enabling succeeded, but lookups are answered with Disabled");
                        }
                    }
                }
                Err(e) => {
                    up().errors += 1;
                    if injected_failures() == f0 {
                        simk::fail("C16.error", format!("enabling failed without a cause: {e}"));
                    }
                    let before = up().oks + up().enabling;
                    let d = b.lookup(env.keys[0].req());
                    check_disabled(&d, before);
                }
            }
        }
        Use::Disable => {
            up().disables = true;
            if let Err(e) = b.set_enabled(false) {
                simk::fail("C16.error", format!("disabling failed: {e}"));
            }
        }
        Use::Compile(k) => b.compile_jit(env.keys[*k].req()),
        Use::Sync(k) => {
            if let Err(e) = b.compile_jit_sync(env.keys[*k].req())
                && injected_failures() == f0
            {
                simk::fail("C16.error", format!("a synchronous compilation failed without a cause: {e}"));
            }
        }
        Use::Blocking(k) => {
            b.lookup_blocking(env.keys[*k].req());
        }
        Use::Aot(k) => b.prepare_aot(aot(&env.keys[*k])),
        Use::Look(k) => {
            let before = up().oks + up().enabling;
            let (d, s) = simk::solo(|| b.lookup(env.keys[*k].req()));
            if let Some(s) = s {
                simk::fail("C03.blocked", format!("a lookup waits at {s} during start-up"));
            }
            check_disabled(&d, before);
        }
        Use::Clear(n) => {
            up().cleared = true;
            let f = || match n {
                0 => b.clear_resident(),
                1 => b.clear_persisted(),
                _ => b.clear_all(),
            };
            f();
        }
        Use::Pause => b.pause(),
        Use::Resume => b.resume(),
        Use::Stats => {
            b.stats();
        }
        Use::Sleep(n) => simk::sleep_ns(*n),
    }
    let n = backends(name);
    if n > 1 {
        simk::fail("C16.twice", format!("{n} backend threads were started"));
    }
    let _ = started;
}

/// Concurrent first uses, with failing starts.
pub fn start(sp: &Spec) -> Scenario {
    let mut r = Rng::new(sp.seed ^ 0x57A2);
    let nc = 1 + r.below(4) as usize;
    let mut ba = base(&mut r, nc, 1);
    ba.cfg.enabled = false;
    ba.cfg.tuning.jit_hot_threshold = 1 + r.below(2) as usize;
    ba.cfg.tuning.channel_capacity = *pick(&mut r, &[1, 2, 4, 64]);
    ba.cfg.tuning.jit_worker_count = 1 + r.below(4) as usize;
    let nk = ba.keys.len() as u64;
    let kind = r.below(8);
    let never = kind == 0;
    let eager = kind == 1;
    let default = kind == 2 && r.below(2) == 0;
    let failing = r.below(3) > 0;
    if failing {
        if r.below(3) > 0 {
            ba.kcfg.faults.insert("thread_spawn", *pick(&mut r, &[1000, 3000, 6000]));
        }
        if r.below(3) > 0 {
            ba.kcfg.faults.insert("store_load_all", *pick(&mut r, &[2000, 5000, 9000]));
        }
        if r.below(6) == 0 {
            ba.kcfg.faults.insert("dlopen", 2000);
        }
    }
    let with_store = r.below(4) > 0;
    let pre: Vec<usize> = (0..nk as usize).filter(|_| with_store && r.below(2) == 0).collect();
    let threads = 1 + r.below(4) as usize;
    let disables = r.below(4) == 0;
    let clears = never || r.below(3) == 0;
    let mut plans = vec![];
    for _ in 0..threads {
        let mut v = vec![];
        for _ in 0..2 + r.below(if never { 20 } else { 7 }) {
            let k = r.below(nk) as usize;
            let x = match r.below(20) {
                0..=6 if !never => Use::Enable,
                7 if disables && !never => Use::Disable,
                8..=9 if !never => Use::Sync(k),
                10 if !never => Use::Compile(k),
                11 if !never => Use::Aot(k),
                12 if clears => Use::Clear(r.below(3) as u8),
                13 => Use::Pause,
                14 => Use::Resume,
                15 => Use::Stats,
                16 => Use::Sleep(*pick(&mut r, &[0, 1000, MS, 60 * MS])),
                17 if !never => Use::Blocking(k),
                _ => Use::Look(k),
            };
            if world::keep() {
                v.push(x);
            }
        }
        plans.push(v);
    }
    let ops = g().next_op;
    let drop_early = r.below(3) == 0;
    let solo = sp.prop == "C03";
    ba.env.store = with_store;
    let env = ba.env();
    let dir::Base { mut cfg, kcfg, .. } = ba;
    let root = Box::new(move || {
        *up() = Up { oks: 0, enabling: 0, cleared: false, disables, errors: 0 };
        *injected() = Injected::default();
        simk::k().faults_on = false;
        simk::k().spawn_hook = Some(world::spawn_hook);
        if with_store {
            let s = DirStore::new("artifacts");
            cfg.store = Some(s);
            if !pre.is_empty() {
                let mut c = cfg.clone();
                c.enabled = true;
                c.thread_name = "earlier".into();
                let b = boot(c);
                b.prepare_aot_batch(pre.iter().map(|k| aot(&env.keys[*k])).collect());
                for k in &pre {
                    if !world::wait_until(60 * SEC, MS, || resident(&b, &env.keys[*k]).is_some()) {
                        simk::fail("C14.not_prepared", format!("contract {k} does not become available without faults: {:?}", b.stats()));
                    }
                }
                drop(b);
            }
        }
        cfg.thread_name = "the-backend".into();
        let name = "the-backend".to_string();
        let n0 = simk::k().threads.len();
        let p0 = simk::k().procs.len();
        if eager {
            // Enabled from the beginning: it starts or it fails, and leaves nothing behind when it fails.
            let mut c = cfg.clone();
            c.enabled = true;
            simk::k().faults_on = true;
            let r = JitBackend::new(c.clone());
            simk::k().faults_on = false;
            match r {
                Ok(b) => {
                    if b.lookup(env.keys[0].req()).is_disabled() {
                        simk::fail("C16.not_enabled", "an enabled runtime was created, but lookups are answered with Disabled");
                    }
                    for k in &pre {
                        if resident(&b, &env.keys[*k]).is_none() && simk::k().fault_count("dlopen") == 0 {
                            simk::fail("C16.preload", format!("contract {k} is stored, but not resident when the runtime was created"));
                        }
                    }
                    return end(b, &env, &[]);
                }
                Err(e) => {
                    if injected_failures() == 0 {
                        simk::fail("C16.error", format!("creating an enabled runtime failed without a cause: {e}"));
                    }
                    let left = || (n0..simk::k().threads.len()).filter(|t| !simk::is_finished(*t)).count();
                    if !world::wait_until(10 * SEC, 10 * MS, || left() == 0) {
                        simk::fail("C16.left_over", format!("{} threads are left of a runtime that could not be created", left()));
                    }
                    let b = match JitBackend::new(c) {
                        Ok(b) => b,
                        Err(e) => {
                            simk::fail("C16.no_retry", format!("a runtime cannot be created after an earlier one failed: {e}"));
                            return;
                        }
                    };
                    ask(&env, &b, 0, How::Sync);
                    return end(b, &env, &[]);
                }
            }
        }
        let b = if default { JitBackend::disabled() } else { JitBackend::new(cfg.clone()).expect("a disabled runtime") };
        let (name, pre) = if default { (RuntimeConfig::default().thread_name, vec![]) } else { (name, pre) };
        if simk::k().threads.len() != n0 || simk::k().procs.len() != p0 {
            simk::fail("C16.spawned", "creating a disabled runtime spawned something");
        }
        simk::k().faults_on = true;
        let n1 = n0 + plans.len();
        let mut ts = vec![];
        for (i, v) in plans.into_iter().enumerate() {
            let (b, e, name, pre) = (b.clone(), env.clone(), name.clone(), pre.clone());
            ts.push(spawn(&format!("client{i}"), move || {
                for u in &v {
                    if never && !matches!(u, Use::Sleep(_)) {
                        // Nothing to wait for.
                        let ((), s) = simk::solo(|| use_it(&e, &b, &name, &pre, u));
                        if let Some(s) = s {
                            simk::fail("C16.blocked", format!("{u:?} on a runtime that was never enabled waits at {s}"));
                        }
                    } else if solo && matches!(u, Use::Pause | Use::Resume | Use::Stats) {
                        rt::nonblocking(&format!("{u:?} around a start"), true, true, || use_it(&e, &b, &name, &pre, u));
                    } else {
                        use_it(&e, &b, &name, &pre, u);
                    }
                }
            }));
        }
        let done = || ts.iter().all(|t| simk::is_finished(*t));
        if !world::wait_until(60 * SEC, 5 * MS, done) {
            // Somebody may be waiting for a paused helper.
            simk::k().faults_on = false;
            if !world::wait_until(3600 * SEC, SEC, || {
                world::unpause(&b);
                done()
            }) {
                simk::fail_fatal("hang", format!("first uses of a runtime: {}", simk::k().blocked_report().join("; ")));
            }
        }
        simk::k().faults_on = false;
        if never {
            if simk::k().threads.len() != n1 || simk::k().procs.len() != p0 {
                simk::fail("C16.spawned", "a runtime that was never enabled spawned something");
            }
            return end(b, &env, &ts);
        }
        *simk::k().counters.entry("failed_starts").or_default() += up().errors;
        world::unpause(&b);
        if drop_early {
            return end(b, &env, &ts);
        }
        // A later attempt succeeds.
        up().disables = false;
        use_it(&env, &b, &name, &pre, &Use::Enable);
        for k in 0..env.keys.len() {
            let ok = world::wait_until(60 * SEC, 5 * MS, || {
                if let Err(e) = b.compile_jit_sync(env.keys[k].req()) {
                    simk::fail("C16.no_retry", format!("a synchronous compilation fails although the runtime could start: {e}"));
                    return true;
                }
                resident(&b, &env.keys[k]).is_some()
            });
            if !ok {
                simk::fail("C16.no_retry", format!("contract {k} is not compiled after a start that succeeded: {:?}", b.stats()));
            }
            if let Some(p) = resident(&b, &env.keys[k]) {
                rt::run_program(&env, k, &p, "a program after a retried start");
            }
        }
        end(b, &env, &ts);
    });
    Scenario { cfg: kcfg, root, ops, mode: "start" }
}

trait IsDisabled {
    fn is_disabled(&self) -> bool;
}
impl IsDisabled for LookupDecision {
    fn is_disabled(&self) -> bool {
        matches!(self, LookupDecision::Interpret(InterpretReason::Disabled))
    }
}

