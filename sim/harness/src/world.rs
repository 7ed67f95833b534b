//! What every scenario shares: the outside world of the runtime (commands it spawns, configuration, faults).

use crate::Spec;
use alloy_primitives::{B256, Bytes, U256, keccak256};
use revm_context_interface::cfg::{GasParams, gas_params::GasId};
use revm_primitives::hardfork::SpecId;
use revmc_runtime::runtime::{
    CompilationEvent, JitMode, RuntimeArtifactStore, RuntimeConfig, RuntimeTuning,
};
use simk::{ProcSpawn, Rng, SpawnResult};
use std::{
    cell::UnsafeCell,
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
    time::Duration,
};

/// State of the running scenario. Only the thread that holds the baton touches it.
#[derive(Default)]
pub struct Glob {
    pub drops: BTreeSet<u32>,
    pub next_op: u32,
    /// Completed compilations as reported to the callback.
    pub events: Vec<(CompilationEvent, u64)>,
    pub helpers: Vec<simk::Pid>,
    /// Those whose output is spoilt somewhere.
    pub spoilt: Vec<simk::Pid>,
    pub linker_runs: u64,
    /// When something numbered happened.
    pub marks: BTreeMap<u64, u64>,
    pub held: Vec<(usize, Box<dyn std::any::Any + Send>)>,
    pub calm_at: u64,
    pub kills: u64,
    pub aots: u64,
}
struct Cell(UnsafeCell<Option<Box<Glob>>>);
unsafe impl Sync for Cell {}
static G: Cell = Cell(UnsafeCell::new(None));

pub fn g() -> &'static mut Glob {
    unsafe { (*G.0.get()).as_deref_mut().unwrap() }
}

pub fn reset(s: &Spec) {
    simcode::set_process_symbols(|n| revmc_builtins::Builtin::parse(n).map(|b| b.addr()));
    // What an aborted run left behind belongs to a world that is gone.
    unsafe { std::mem::forget((*G.0.get()).take()) };
    unsafe { *G.0.get() = Some(Box::new(Glob { drops: s.drops.clone(), ..Default::default() })) };
}

/// Numbers the operations of the workload and says whether the next one is kept.
pub fn keep() -> bool {
    let g = g();
    let i = g.next_op;
    g.next_op += 1;
    !g.drops.contains(&i)
}

pub const MS: u64 = 1_000_000;
pub const SEC: u64 = 1_000_000_000;

pub fn ms(n: u64) -> Duration {
    Duration::from_millis(n)
}

// --- commands ---

/// Whether this is a compile helper: by its marker, or because the host never starts these for another purpose.
pub fn is_helper(env: &std::collections::BTreeMap<String, String>, exe: &str) -> bool {
    env.contains_key("REVMC_JIT_HELPER") || exe == "/sim/helper"
}

/// What the host's commands do.
pub fn spawn_hook(p: &ProcSpawn) -> SpawnResult {
    if is_helper(&p.env, &p.program) {
        match simk::fault("helper_start", 4) {
            1 => return SpawnResult::Error(libc::ENOENT),
            2 => return SpawnResult::Main(Box::new(|| 1)),
            3 => {
                return SpawnResult::Main(Box::new(|| {
                    simk::signal(simk::cur_pid(), 9);
                    0
                }));
            }
            _ => {}
        }
        return SpawnResult::Main(Box::new(|| {
            let pid = simk::cur_pid();
            g().helpers.push(pid);
            let v = simk::fault("helper_output", 5);
            if v > 0 {
                let kind = [simk::Sabotage::Garbage, simk::Sabotage::OneByte, simk::Sabotage::Cut, simk::Sabotage::Hang][v - 1];
                // Anywhere in the stream, with a bias to the first messages.
                let at = match simk::choose(3) {
                    0 => simk::choose(64),
                    1 => simk::choose(2048),
                    _ => simk::choose(32768),
                } as u64;
                let id = simk::k().procs[&pid].stdout;
                if let Some(p) = id.and_then(|id| simk::k().pipes.get_mut(&id)) {
                    p.sabotage = Some((at, kind));
                    g().spoilt.push(pid);
                }
            }
            match revmc_runtime::runtime::maybe_run_jit_helper() {
                Ok(_) => 0,
                Err(_) => 1,
            }
        }));
    }
    // The linker.
    let args = p.args.clone();
    SpawnResult::Main(Box::new(move || {
        g().linker_runs += 1;
        linker(&args)
    }))
}

fn linker(args: &[String]) -> i32 {
    match simk::fault("linker", 4) {
        1 => return 1,
        2 => {
            simk::signal(simk::cur_pid(), 9);
            return 0;
        }
        3 => simk::sleep_ns(3 * SEC),
        _ => {}
    }
    let Some(o) = args.iter().position(|a| a == "-o").and_then(|i| args.get(i + 1)) else { return 1 };
    let objs: Vec<&String> = args.iter().filter(|a| a.ends_with(".o")).collect();
    let [obj] = objs[..] else { return 1 };
    simk::sleep_ns(100_000);
    let Ok(data) = std::fs::read(obj) else { return 1 };
    simk::point("linker");
    match simcode::ir::link_object(&data) {
        Ok(lib) => {
            // Not atomic, like a real one.
            if std::fs::write(o, &lib[..lib.len() / 2]).is_err() {
                return 1;
            }
            simk::point("linker");
            if std::fs::write(o, &lib).is_err() { 1 } else { 0 }
        }
        Err(_) => 1,
    }
}

// --- specs and gas ---

pub fn all_specs() -> Vec<SpecId> {
    (0..=255u8).map_while(SpecId::try_from_u8).collect()
}

pub fn gas_params(r: &mut Rng, spec: SpecId) -> GasParams {
    let mut g = GasParams::new_spec(spec);
    let n = 1 + r.below(3);
    let mut v = vec![];
    for _ in 0..n {
        let id = *crate::gen_::pick(r, &[GasId::exp_byte_gas(), GasId::exp_byte_gas(), GasId::copy_per_word(), GasId::logdata(), GasId::memory_linear_cost()]);
        let c = if r.below(4) == 0 { 0 } else { r.range(1, 40) };
        v.push((id, c));
    }
    g.override_gas(v);
    g
}

/// The same, with any of the costs that opcodes have.
pub fn gas_params_wide(r: &mut Rng, spec: SpecId) -> GasParams {
    if r.below(2) == 0 {
        return gas_params(r, spec);
    }
    let mut g = GasParams::new_spec(spec);
    let mut v = vec![];
    for _ in 0..1 + r.below(5) {
        let small = [
            GasId::extcodecopy_per_word(),
            GasId::logtopic(),
            GasId::mcopy_per_word(),
            GasId::keccak256_per_word(),
            GasId::initcode_per_word(),
            GasId::code_deposit_cost(),
            GasId::memory_linear_cost(),
        ];
        let large = [
            GasId::create(),
            GasId::transfer_value_cost(),
            GasId::cold_account_additional_cost(),
            GasId::new_account_cost(),
            GasId::warm_storage_read_cost(),
            GasId::sstore_static(),
            GasId::sstore_set_without_load_cost(),
            GasId::sstore_reset_without_cold_load_cost(),
            GasId::sstore_clearing_slot_refund(),
            GasId::selfdestruct_refund(),
            GasId::cold_storage_additional_cost(),
            GasId::cold_storage_cost(),
            GasId::new_account_cost_for_selfdestruct(),
            GasId::sstore_set_refund(),
            GasId::sstore_reset_refund(),
            GasId::call_stipend(),
            GasId::sstore_set_state_gas(),
            GasId::new_account_state_gas(),
            GasId::code_deposit_state_gas(),
            GasId::create_state_gas(),
        ];
        if r.below(3) == 0 {
            v.push((*crate::gen_::pick(r, &small), r.below(40)));
        } else {
            v.push((*crate::gen_::pick(r, &large), *crate::gen_::pick(r, &[0, 1, 100, 2300, 2301, 3000, 5000, 20_000, 40_000])));
        }
    }
    g.override_gas(v);
    g
}

// --- contracts with an identity ---

#[derive(Clone, Debug)]
pub struct Contract {
    pub code: Bytes,
    pub hash: B256,
    pub marker: U256,
}

/// A contract that returns a value of its own for empty input, and does something that depends on the hardfork and
/// on the gas schedule otherwise. `size` is a lower bound for its length.
pub fn contract(r: &mut Rng, id: u64, size: usize) -> Contract {
    let mut m = [0u8; 32];
    for c in m.iter_mut() {
        *c = r.next() as u8;
    }
    m[0] |= 0x80;
    m[31] = id as u8;
    let marker = U256::from_be_bytes(m);
    let mut c = vec![];
    // CALLDATASIZE PUSH2 L JUMPI
    c.extend([0x36, 0x61, 0, 0, 0x57]);
    let fix = 2;
    c.push(0x7f);
    c.extend(m);
    // PUSH1 0 MSTORE PUSH1 32 PUSH1 0 RETURN
    c.extend([0x60, 0, 0x52, 0x60, 32, 0x60, 0, 0xf3]);
    let l = c.len();
    c[fix] = (l >> 8) as u8;
    c[fix + 1] = l as u8;
    c.push(0x5b);
    // A constant exponent: its cost is part of the code.
    c.extend([0x61, 0x01 + (id % 7) as u8, 0x03, 0x60, 0x03, 0x0a]);
    c.extend([0x60, 0, 0x52]);
    let odd: &[u8] = match r.below(7) {
        0 => &[0x48],                                     // BASEFEE, London
        1 => &[0x5f],                                     // PUSH0, Shanghai
        2 => &[0x60, 1, 0x60, 0, 0x60, 32, 0x5e, 0x60, 7], // MCOPY, Cancun
        3 => &[0x60, 9, 0x1e],                            // CLZ, Osaka
        4 => &[0x47],                                     // SELFBALANCE, Istanbul
        5 => &[0x60, 1, 0x60, 4, 0x1b],                   // SHL, Constantinople
        _ => &[0x3d],                                     // RETURNDATASIZE, Byzantium
    };
    c.extend(odd);
    c.extend([0x60, 32, 0x52]);
    while c.len() + 12 < size {
        // Bulk that cannot be folded away.
        let o = (c.len() % 96) as u8;
        c.extend([0x60, o, 0x35, 0x60, o, 0x51, 0x01, 0x60, o, 0x52]);
    }
    match r.below(4) {
        0 => c.push(0xfe),
        1 => c.extend([0x60, 64, 0x60, 0, 0xfd]),
        _ => c.extend([0x60, 64, 0x60, 0, 0xf3]),
    }
    let code = Bytes::from(c);
    Contract { hash: keccak256(&code), code, marker }
}

// --- faults ---

pub fn faults(list: &[(&'static str, u32)]) -> BTreeMap<&'static str, u32> {
    list.iter().copied().collect()
}

pub fn policy(r: &mut Rng) -> simk::Policy {
    match r.below(10) {
        0..=2 => simk::Policy::Random(*crate::gen_::pick(r, &[20, 100, 300, 600])),
        3..=5 => simk::Policy::Pct { changes: 1 + r.below(8) as u32, horizon: *crate::gen_::pick(r, &[300, 2000, 8000]) },
        _ => simk::Policy::Mixed {
            changes: r.below(6) as u32,
            horizon: *crate::gen_::pick(r, &[300, 2000, 8000]),
            p: *crate::gen_::pick(r, &[5, 30, 150]),
        },
    }
}

// --- configuration ---

pub fn tuning(r: &mut Rng) -> RuntimeTuning {
    let mut t = RuntimeTuning {
        channel_capacity: 1 << r.range(1, 6),
        max_events_per_drain: 1 << r.below(7),
        event_drain_interval: ms(*crate::gen_::pick(r, &[1, 5, 20, 100])),
        shutdown_timeout: ms(*crate::gen_::pick(r, &[200, 1000, 5000])),
        jit_hot_threshold: r.below(5) as usize,
        jit_max_bytecode_len: 24 * 1024,
        jit_max_pending_jobs: 1 << r.below(7),
        jit_worker_count: 1 + r.below(3) as usize,
        jit_timeout: ms(*crate::gen_::pick(r, &[50, 500, 5000])),
        jit_helper_memory_limit_bytes: if r.below(4) == 0 { 1 << 30 } else { 0 },
        jit_helper_cpu_count: r.below(3) as usize,
        jit_worker_queue_capacity: 1 << r.below(5),
        resident_code_cache_bytes: 0,
        idle_evict_duration: None,
        eviction_sweep_interval: ms(*crate::gen_::pick(r, &[10, 100, 1000])),
        compiler_recycle_threshold: *crate::gen_::pick(r, &[0, 1, 2, 3, 1000]),
        ..Default::default()
    };
    if r.below(3) == 0 {
        t.idle_evict_duration = Some(ms(*crate::gen_::pick(r, &[30, 300, 3000])));
    }
    t
}

pub fn on_compilation() -> Option<Arc<dyn Fn(CompilationEvent) + Send + Sync>> {
    Some(Arc::new(|e| {
        simk::point("callback");
        g().events.push((e, simk::now()));
    }))
}

pub fn config(r: &mut Rng) -> RuntimeConfig {
    let mut c = RuntimeConfig { enabled: true, tuning: tuning(r), ..Default::default() };
    c.single_error = r.below(4) > 0;
    c.no_dedup = r.below(4) == 0;
    c.no_dse = r.below(4) == 0;
    c.debug_assertions = r.below(6) == 0;
    c.jit_mode = if r.below(3) == 0 { JitMode::OutOfProcess } else { JitMode::InProcess };
    if c.jit_mode == JitMode::OutOfProcess && r.below(2) == 0 {
        c.jit_helper_path = Some("/sim/helper".into());
    }
    c.on_compilation = on_compilation();
    c
}

/// Must be called inside the simulation.
pub fn temp_store() -> Arc<RuntimeArtifactStore> {
    Arc::new(RuntimeArtifactStore::new().expect("temporary store"))
}

/// Waits until `f` holds or `ns` simulated nanoseconds have passed.
pub fn wait_until(ns: u64, step: u64, mut f: impl FnMut() -> bool) -> bool {
    let end = simk::now() + ns;
    loop {
        if f() {
            return true;
        }
        if simk::now() >= end {
            return false;
        }
        simk::sleep_ns(step);
    }
}

/// Waits for the clients, calming the world down when they do not get on.
pub fn join(b: &revmc_runtime::runtime::JitBackend, ts: &[simk::Tid]) {
    join_all(std::slice::from_ref(b), ts);
}

/// As [`join`], for clients of several runtimes.
pub fn join_all(bs: &[revmc_runtime::runtime::JitBackend], ts: &[simk::Tid]) {
    let done = || ts.iter().all(|t| simk::is_finished(*t));
    if !wait_until(120 * SEC, 200 * MS, done) {
        bs.iter().for_each(calm);
        if !wait_until(3600 * SEC, SEC, || {
            bs.iter().for_each(unpause);
            done()
        }) {
            let stuck: Vec<String> = simk::k().blocked_report();
            simk::fail_fatal("hang", format!("clients make no progress: {}", stuck.join("; ")));
        }
    }
}

/// As [`join`], then drops the runtime.
pub fn finish(b: revmc_runtime::runtime::JitBackend, ts: &[simk::Tid]) {
    join(&b, ts);
    calm(&b);
    drop(b);
}

/// No more faults; whatever the harness stopped goes on.
pub fn calm(b: &revmc_runtime::runtime::JitBackend) {
    simk::k().faults_on = false;
    simk::k().calm = true;
    g().calm_at = simk::now();
    unpause(b);
}

/// A dropped resume is healed by the next pause cycle, as documented.
pub fn unpause(b: &revmc_runtime::runtime::JitBackend) {
    while b.is_paused() {
        b.resume();
    }
    for i in 0..1000 {
        let n = b.stats().commands_dropped;
        b.pause();
        simk::sleep_ns(MS);
        b.resume();
        simk::k().tlog(|| format!("unpause: {n} then {} dropped", b.stats().commands_dropped));
        if b.stats().commands_dropped == n {
            break;
        }
        simk::sleep_ns(if i < 100 { 10 * MS } else { SEC });
    }
}
