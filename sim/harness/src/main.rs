//! Seeded simulation of the runtime: see /verif/DESIGN.md.

mod dir;
mod store;
mod evm;
mod exec;
mod fuzz;
mod gen_;
mod lab;
mod rt;
mod world;

use simk::{End, Failure, RunResult};
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Write as _,
    time::Instant,
};

/// No real randomness anywhere in the process.
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut u8, len: usize, _flags: u32) -> isize {
    for i in 0..len {
        unsafe { *buf.add(i) = (i as u8).wrapping_mul(37) ^ 0x5a };
    }
    len as isize
}

/// What identifies one execution.
#[derive(Clone, Debug, Default)]
pub struct Spec {
    pub prop: String,
    /// 0: quick, 1: thorough.
    pub tier: u32,
    /// Workload, configuration and fault plan.
    pub seed: u64,
    /// Schedule and fault decisions.
    pub sched: u64,
    /// Operations of the workload left out.
    pub drops: BTreeSet<u32>,
    pub trace: Option<BTreeMap<u64, u32>>,
    pub verbose: bool,
}

/// One scenario, ready to run.
pub struct Scenario {
    pub cfg: simk::Config,
    pub root: Box<dyn FnOnce() + Send>,
    /// Number of operations that can be left out.
    pub ops: u32,
    pub mode: &'static str,
}

/// Ends a run that would otherwise take all memory of the machine.
struct Capped;
static LIVE: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
const CAP: usize = 3 << 30;
impl Capped {
    fn add(n: usize) {
        if LIVE.fetch_add(n, std::sync::atomic::Ordering::Relaxed).wrapping_add(n) > CAP {
            LIVE.store(0, std::sync::atomic::Ordering::Relaxed);
            eprintln!("more than {CAP} bytes allocated");
            std::process::abort();
        }
    }
    fn sub(n: usize) {
        LIVE.fetch_sub(n, std::sync::atomic::Ordering::Relaxed);
    }
}
unsafe impl std::alloc::GlobalAlloc for Capped {
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 {
        Self::add(l.size());
        unsafe { std::alloc::System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout) {
        Self::sub(l.size());
        unsafe { std::alloc::System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 {
        Self::add(l.size());
        unsafe { std::alloc::System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8 {
        Self::add(n);
        Self::sub(l.size());
        unsafe { std::alloc::System.realloc(p, l, n) }
    }
}
#[global_allocator]
static ALLOC: Capped = Capped;

fn scenario(s: &Spec) -> Scenario {
    match s.prop.as_str() {
        "C01" => match s.seed % 4 {
            0 => lab::scenario(s),
            _ => evm::scenario(s),
        },
        "C02" | "C09" => match s.seed % 8 {
            0 => evm::scenario(s),
            _ => rt::scenario(s),
        },
        "C03" => match s.seed % 8 {
            0 => store::start(s),
            1 | 2 => dir::wedge(s),
            3 if s.seed / 8 % 2 == 0 => dir::talk(s),
            _ => rt::scenario(s),
        },
        "C11" => match s.seed % 8 {
            0 => dir::wedge(s),
            1 => dir::talk(s),
            _ => rt::scenario(s),
        },
        "C04" | "C10" => match s.seed % 8 {
            0 | 1 => dir::clear_race(s),
            2 => dir::burst(s),
            3 if s.prop == "C10" => dir::wedge(s),
            4 if s.prop == "C10" => dir::demand(s),
            _ => rt::scenario(s),
        },
        "C05" => match s.seed % 5 {
            0 | 1 => dir::clear_race(s),
            2 => dir::clear_hot(s),
            _ => rt::scenario(s),
        },
        "C06" => match s.seed % 5 {
            0 | 1 => dir::burst(s),
            2 => dir::threshold(s),
            _ => rt::scenario(s),
        },
        "C07" => match s.seed % 3 {
            0 => dir::demand(s),
            _ => rt::scenario(s),
        },
        "C08" => match s.seed % 5 {
            0 | 1 => dir::budget(s),
            2 | 3 => dir::idle(s),
            _ => rt::scenario(s),
        },
        "C12" => match s.seed % 2 {
            0 => dir::pause(s),
            _ => rt::scenario(s),
        },
        "C13" => match s.seed % 2 {
            0 => dir::helper(s),
            _ => rt::scenario(s),
        },
        "C14" => match s.seed % 4 {
            0..=2 => store::restart(s),
            _ => rt::scenario(s),
        },
        "C15" => store::lin_store(s),
        "C16" => match s.seed % 8 {
            0..=6 => store::start(s),
            _ => rt::scenario(s),
        },
        _ => rt::scenario(s),
    }
}

pub struct Outcome {
    pub failures: Vec<Failure>,
    pub k: Box<simk::Kernel>,
    pub ops: u32,
    pub mode: &'static str,
    pub wall: f64,
    pub extra: BTreeMap<String, u64>,
}

/// Failure kinds that belong to no property in particular.
fn generic(kind: &str) -> bool {
    !(kind.len() > 3 && kind.starts_with('C') && kind.as_bytes()[3] == b'.' && kind[1..3].parse::<u32>().is_ok())
}

fn execute(s: &Spec) -> Outcome {
    let t = Instant::now();
    let dir = format!("/dev/shm/revmc-sim-{}", std::process::id());
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    simcode::reset();
    world::reset(s);
    let mut sc = scenario(s);
    sc.cfg.seed = s.sched;
    sc.cfg.replay = s.trace.clone();
    sc.cfg.trace = s.verbose;
    sc.cfg.scratch = dir.clone();
    let RunResult { end, kernel } = simk::run(sc.cfg, sc.root);
    let mut failures = kernel.failures.clone();
    let mut add = |kind: &str, detail: String| {
        failures.push(Failure { kind: kind.into(), detail, time: kernel.now, step: kernel.steps })
    };
    match end {
        End::Done | End::Failed => {}
        End::Deadlock(r) => add("deadlock", format!("everyone waits for ever: {}", r.join("; "))),
        End::StepLimit(r) => add("livelock", format!("no end after {} steps: {}", kernel.steps, r.join("; "))),
    }
    for (who, what) in kernel.panics.iter() {
        if who.starts_with("host") {
            add("host.panic", format!("{who}: {what}"));
        }
    }
    failures.retain(|f| generic(&f.kind) || f.kind.starts_with(&s.prop));
    let _ = std::fs::remove_dir_all(&dir);
    let mut extra = BTreeMap::new();
    extra.insert("compilations".to_string(), simcode::compiles().len() as u64);
    extra.insert("compiled_calls".to_string(), simcode::calls());
    Outcome { failures, k: kernel, ops: sc.ops, mode: sc.mode, wall: t.elapsed().as_secs_f64(), extra }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

fn json(s: &Spec, o: &Outcome) -> String {
    let mut j = format!(
        "{{\"seed\":{},\"sched\":{},\"steps\":{},\"decisions\":{},\"nonzero\":{},\"switches\":{},\"sim_ns\":{},\"hash\":\"{:016x}\",\"wall\":{:.4},\"ops\":{},\"threads\":{},\"procs\":{},\"mode\":\"{}\"",
        s.seed,
        s.sched,
        o.k.steps,
        o.k.decisions,
        o.k.nonzero.len(),
        o.k.switches,
        o.k.now - 1_000_000_000,
        o.k.sched_hash,
        o.wall,
        o.ops,
        o.k.threads.len(),
        o.k.procs.len(),
        o.mode,
    );
    let m = |name: &str, it: &mut dyn Iterator<Item = (String, u64)>| {
        let v: Vec<String> = it.map(|(k, v)| format!("\"{}\":{}", esc(&k), v)).collect();
        format!(",\"{name}\":{{{}}}", v.join(","))
    };
    j += &m("faults", &mut o.k.fault_counts.iter().map(|(k, v)| (k.clone(), *v)));
    j += &m("counters", &mut o.k.counters.iter().map(|(k, v)| (k.to_string(), *v)));
    j += &m("extra", &mut o.extra.iter().map(|(k, v)| (k.clone(), *v)));
    let edges: Vec<String> =
        o.k.edges.iter().map(|(a, b)| format!("{:x}", simcode_hash(a, b))).collect();
    let _ = write!(j, ",\"edges\":\"{}\"", edges.join(","));
    let f: Vec<String> = o
        .failures
        .iter()
        .map(|f| {
            format!(
                "{{\"kind\":\"{}\",\"detail\":\"{}\",\"time\":{},\"step\":{}}}",
                esc(&f.kind),
                esc(&f.detail),
                f.time - 1_000_000_000,
                f.step
            )
        })
        .collect();
    let _ = write!(j, ",\"failures\":[{}]}}", f.join(","));
    j
}

fn simcode_hash(a: &str, b: &str) -> u32 {
    let mut h = 0x811c9dc5u32;
    for c in a.bytes().chain([0]).chain(b.bytes()) {
        h = (h ^ c as u32).wrapping_mul(0x01000193);
    }
    h
}

// --- replay files ---

fn write_replay(path: &str, s: &Spec, kind: &str, detail: &str) {
    let mut o = String::new();
    let _ = writeln!(o, "# replay: python3 /verif/check.py replay <this file>");
    let _ = writeln!(o, "prop {}", s.prop);
    let _ = writeln!(o, "tier {}", s.tier);
    let _ = writeln!(o, "seed {}", s.seed);
    let _ = writeln!(o, "sched {}", s.sched);
    let d: Vec<String> = s.drops.iter().map(|d| d.to_string()).collect();
    let _ = writeln!(o, "drops {}", d.join(","));
    let _ = writeln!(o, "kind {kind}");
    let _ = writeln!(o, "detail {}", detail.replace('\n', " "));
    if let Some(t) = &s.trace {
        let v: Vec<String> = t.iter().map(|(i, v)| format!("{i}:{v}")).collect();
        let _ = writeln!(o, "trace {}", v.join(","));
    }
    std::fs::write(path, o).unwrap();
}

fn read_replay(path: &str) -> (Spec, String) {
    let mut s = Spec::default();
    let mut kind = String::new();
    for l in std::fs::read_to_string(path).expect("cannot read the replay file").lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "prop" => s.prop = v.into(),
            "tier" => s.tier = v.parse().unwrap(),
            "seed" => s.seed = v.parse().unwrap(),
            "sched" => s.sched = v.parse().unwrap(),
            "drops" => s.drops = v.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(),
            "kind" => kind = v.into(),
            "trace" => {
                s.trace = Some(
                    v.split(',')
                        .filter(|x| !x.is_empty())
                        .map(|x| {
                            let (a, b) = x.split_once(':').unwrap();
                            (a.parse().unwrap(), b.parse().unwrap())
                        })
                        .collect(),
                )
            }
            _ => {}
        }
    }
    (s, kind)
}

/// Runs in a child process, so that a crash or hang of one attempt harms nothing. Returns the failure kinds and the
/// decisions.
fn attempt(s: &Spec, tmp: &str) -> Option<(Vec<String>, BTreeMap<u64, u32>, u32, String)> {
    write_replay(tmp, s, "", "");
    let out = std::process::Command::new("timeout")
        .args(["-s", "KILL", "60"])
        .arg(std::env::current_exe().unwrap())
        .args(["attempt", tmp])
        .stderr(std::process::Stdio::null())
        .output()
        .ok()?;
    let t = String::from_utf8_lossy(&out.stdout).into_owned();
    if !out.status.success() {
        return Some((vec![format!("crash.{}", out.status)], s.trace.clone().unwrap_or_default(), 0, String::new()));
    }
    let mut kinds = vec![];
    let mut dec = BTreeMap::new();
    let mut ops = 0;
    let mut detail = String::new();
    for l in t.lines() {
        let (k, v) = l.split_once(' ').unwrap_or((l, ""));
        match k {
            "F" => {
                let (k, d) = v.split_once(' ').unwrap_or((v, ""));
                if kinds.is_empty() {
                    detail = d.into();
                }
                kinds.push(k.to_string())
            }
            "T" => {
                dec = v
                    .split(',')
                    .filter(|x| !x.is_empty())
                    .map(|x| {
                        let (a, b) = x.split_once(':').unwrap();
                        (a.parse().unwrap(), b.parse().unwrap())
                    })
                    .collect()
            }
            "O" => ops = v.parse().unwrap(),
            _ => {}
        }
    }
    Some((kinds, dec, ops, detail))
}

fn shrink(mut s: Spec, kind: &str, out: &str, budget: f64) {
    let t0 = Instant::now();
    let tmp = format!("{out}.tmp");
    let hit = |s: &Spec| -> Option<(BTreeMap<u64, u32>, u32, String)> {
        let (k, d, o, det) = attempt(s, &tmp)?;
        k.iter().any(|x| x == kind).then_some((d, o, det))
    };
    let Some((mut dec, ops, mut detail)) = hit(&s) else {
        eprintln!("shrink: {kind} did not reproduce from the seed");
        write_replay(out, &s, kind, "");
        let _ = std::fs::remove_file(&tmp);
        return;
    };
    // Operations, with decisions drawn afresh from the seed (and a few others).
    let mut size = (ops as usize).div_ceil(2).max(1);
    'o: while size >= 1 && ops > 0 {
        let mut progress = false;
        let keep: Vec<u32> = (0..ops).filter(|i| !s.drops.contains(i)).collect();
        for c in keep.chunks(size) {
            if t0.elapsed().as_secs_f64() > budget * 0.5 {
                break 'o;
            }
            let mut n = s.clone();
            n.drops.extend(c.iter().copied());
            for alt in 0..3u64 {
                n.sched = if alt == 0 { s.sched } else { s.sched.wrapping_mul(31).wrapping_add(alt) };
                if let Some((d, _, det)) = hit(&n) {
                    s = n;
                    dec = d;
                    detail = det;
                    progress = true;
                    break;
                }
            }
        }
        if !progress {
            if size == 1 {
                break;
            }
            size = size.div_ceil(2);
        }
    }
    // Decisions.
    s.trace = Some(dec.clone());
    if hit(&s).is_none() {
        // The trace alone must reproduce it: decisions are complete by construction.
        eprintln!("shrink: the recorded decisions do not reproduce {kind}; keeping the seed");
        s.trace = None;
        write_replay(out, &s, kind, &detail);
        let _ = std::fs::remove_file(&tmp);
        return;
    }
    let mut keys: Vec<u64> = dec.keys().copied().collect();
    let mut n = 2usize;
    while keys.len() >= 2 && t0.elapsed().as_secs_f64() < budget {
        let size = keys.len().div_ceil(n);
        let mut reduced = false;
        for i in 0..n {
            if t0.elapsed().as_secs_f64() > budget {
                break;
            }
            let (a, b) = (i * size, ((i + 1) * size).min(keys.len()));
            if a >= b {
                continue;
            }
            let rest: Vec<u64> = keys[..a].iter().chain(&keys[b..]).copied().collect();
            let mut x = s.clone();
            x.trace = Some(rest.iter().map(|k| (*k, dec[k])).collect());
            if let Some((d, _, det)) = hit(&x) {
                // Only what was actually used.
                dec = d;
                detail = det;
                keys = dec.keys().copied().collect();
                s.trace = Some(dec.clone());
                n = n.saturating_sub(1).max(2);
                reduced = true;
                break;
            }
        }
        if !reduced {
            if n >= keys.len() {
                break;
            }
            n = (n * 2).min(keys.len());
        }
    }
    write_replay(out, &s, kind, &detail);
    let _ = std::fs::remove_file(&tmp);
    println!("minimised to {} of {ops} operations and {} decisions", ops as usize - s.drops.len().min(ops as usize), keys.len());
}

fn no_aslr() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 && std::env::var_os("SIM_ASLR").is_none() {
            if libc::personality((p | libc::ADDR_NO_RANDOMIZE) as libc::c_ulong) < 0 {
                return;
            }
            use std::os::unix::process::CommandExt;
            let e = std::process::Command::new("/proc/self/exe")
                .args(std::env::args_os().skip(1))
                .env("SIM_ASLR", "1")
                .exec();
            eprintln!("re-exec: {e}");
        }
    }
}

fn main() {
    no_aslr();
    std::panic::set_hook(Box::new(|i| {
        let what = i.to_string();
        if simk::active() {
            let me = &simk::k().threads[simk::cur()];
            let app = simk::k().procs[&me.pid].env.contains_key("SIM_APP");
            let who = if me.pid == simk::HOST || app { format!("host thread {:?}", me.name) } else { format!("helper {}", me.pid) };
            simk::k().panics.push((who, what.clone()));
            if !what.starts_with("sim:") && simk::k().cfg.trace {
                eprintln!("panic: {what}");
            }
        } else {
            eprintln!("panic: {what}");
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let tier = |s: &str| if s == "thorough" { 1 } else { 0 };
    match a[1].as_str() {
        "batch" => {
            // batch prop tier seed0 count out deadline-seconds
            let (s0, n): (u64, u64) = (a[4].parse().unwrap(), a[5].parse().unwrap());
            use std::io::Write;
            let mut f = std::fs::OpenOptions::new().create(true).append(true).open(&a[6]).unwrap();
            let t0 = Instant::now();
            let limit: f64 = a[7].parse().unwrap();
            for i in s0..s0 + n {
                if t0.elapsed().as_secs_f64() > limit {
                    break;
                }
                let s = Spec { prop: a[2].clone(), tier: tier(&a[3]), seed: i, sched: i, ..Default::default() };
                writeln!(f, "{{\"start\":{i}}}").unwrap();
                f.flush().unwrap();
                let o = execute(&s);
                writeln!(f, "{}", json(&s, &o)).unwrap();
                f.flush().unwrap();
            }
            // Leaked threads stay parked.
            std::process::exit(0);
        }
        "one" => {
            let seed: u64 = a[4].parse().unwrap();
            let s = Spec {
                prop: a[2].clone(),
                tier: tier(&a[3]),
                seed,
                sched: a.iter().position(|x| x == "--sched").map(|i| a[i + 1].parse().unwrap()).unwrap_or(seed),
                verbose: a.iter().any(|x| x == "--trace"),
                ..Default::default()
            };
            let o = execute(&s);
            println!("{}", json(&s, &o));
            std::process::exit(if o.failures.is_empty() { 0 } else { 1 });
        }
        "attempt" => {
            let (s, _) = read_replay(&a[2]);
            let o = execute(&s);
            for f in &o.failures {
                println!("F {} {}", f.kind, f.detail.replace('\n', " "));
            }
            println!("O {}", o.ops);
            let v: Vec<String> = o.k.nonzero.iter().map(|(i, v)| format!("{i}:{v}")).collect();
            println!("T {}", v.join(","));
            std::process::exit(0);
        }
        "replay" => {
            let (mut s, kind) = read_replay(&a[2]);
            s.verbose = a.iter().any(|x| x == "--trace");
            let o = execute(&s);
            for f in &o.failures {
                println!("{} at {} ns, step {}: {}", f.kind, f.time - 1_000_000_000, f.step, f.detail);
            }
            println!("schedule {:016x}, {} steps", o.k.sched_hash, o.k.steps);
            let ok = o.failures.iter().any(|f| f.kind == kind);
            println!("{}", if ok { format!("reproduced {kind}") } else { format!("{kind} did not occur") });
            std::process::exit(if ok { 1 } else { 0 });
        }
        "shrink" => {
            // shrink prop tier seed kind out budget
            let seed = a[4].parse().unwrap();
            let s = Spec { prop: a[2].clone(), tier: tier(&a[3]), seed, sched: seed, ..Default::default() };
            shrink(s, &a[5], &a[6], a[7].parse().unwrap());
        }
        "tx" => evm::one(&a),
        "fuzz" => fuzz::run(&a),
        m => panic!("unknown mode {m}"),
    }
}
