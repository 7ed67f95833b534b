#!/usr/bin/env python3
"""Decides one property by seeded simulation.

    python3 check.py C04                 quick or thorough by VERIF_TIER, seeds from VERIF_SEED
    python3 check.py build               only builds
    python3 check.py replay FILE [--trace]

Exit 0: held on everything explored. Exit 1: a VIOLATION line. Exit 2: the check itself is broken."""

import collections
import fcntl
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
WORK = os.environ.get("SIM_WORK", f"{VERIF}/work")
BIN = f"{WORK}/target/sim/simrun"
NPROC = min(os.cpu_count() or 1, 8)
BATCH = 50
RUN_LIMIT = 90  # seconds of wall clock for one run before it counts as hung

PLAN = json.load(open(f"{VERIF}/plan.json"))


def log(*a):
    print(*a, flush=True)


def build():
    env = dict(os.environ)
    for k in list(env):
        if k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "CARGO_BUILD", "CARGO_ENCODED")):
            del env[k]
    env.update(
        HOME="/root",
        PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
        RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu",
        CARGO_NET_OFFLINE="true",
        CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0",
        RUSTC_WRAPPER="",
        CARGO_TARGET_DIR=f"{WORK}/target",
    )
    os.makedirs(WORK, exist_ok=True)
    r = subprocess.run([sys.executable, f"{VERIF}/tools/mirror.py"], env=env)
    if r.returncode:
        log("cannot derive the simulation workspace from /repo")
        sys.exit(2)
    r = subprocess.run(
        ["cargo", "build", "--offline", "--profile", "sim", "-p", "harness"],
        cwd=f"{WORK}/ws", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
    )
    if r.returncode:
        log(r.stdout[-6000:])
        log("the simulation does not build against /repo's working tree")
        sys.exit(2)


class Batch:
    def __init__(self, prop, tier, first, count, out, limit):
        self.first, self.count, self.out = first, count, out
        self.pos, self.seen = 0, 0
        self.progress = time.time()
        self.current = None
        self.buf = ""
        if os.path.exists(out):
            os.remove(out)
        self.p = subprocess.Popen(
            [BIN, "batch", prop, tier, str(first), str(count), out, str(limit)],
            stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True,
        )

    def poll(self):
        """New results."""
        res = []
        try:
            with open(self.out) as f:
                f.seek(self.pos)
                data = f.read()
                self.pos = f.tell()
        except OSError:
            data = ""
        self.buf += data
        while "\n" in self.buf:
            l, self.buf = self.buf.split("\n", 1)
            d = json.loads(l)
            self.progress = time.time()
            if "start" in d:
                self.current = d["start"]
            else:
                res.append(d)
                self.current = None
        return res

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()


def one(prop, tier, seed):
    """Runs one seed alone. Returns the kinds of its failures and its schedule."""
    try:
        r = subprocess.run([BIN, "one", prop, tier, str(seed)], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                           text=True, timeout=RUN_LIMIT)
    except subprocess.TimeoutExpired:
        return [("crash.hang", "the run does not end")], None
    try:
        d = json.loads(r.stdout.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return [(f"crash.{r.returncode}", f"the simulated process died with {r.returncode}")], None
    return [(f["kind"], f["detail"]) for f in d["failures"]], d


def known(prop):
    """Findings that are not repaired: property, kind, pattern of the detail, description."""
    res = []
    try:
        for l in open(f"{VERIF}/known-findings.txt"):
            m = re.match(r"finding: property=(\S+) kind=(\S+) detail=/(.*)/ (.*)", l)
            if m and m[1] == prop:
                res.append((m[2], re.compile(m[3]), m[4].strip()))
    except OSError:
        pass
    return res


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        sys.exit(2)
    os.makedirs(WORK, exist_ok=True)
    lock = open(f"{WORK}/.lock", "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    t0 = time.time()
    build()
    t_build = time.time() - t0
    if sys.argv[1] == "build":
        return
    if sys.argv[1] == "replay":
        sys.exit(subprocess.run([BIN, "replay", *sys.argv[2:]]).returncode)

    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    vseed = int(os.environ.get("VERIF_SEED", "1") or 1)
    plan = PLAN[prop]
    runs, limit = (plan["quick"], plan.get("quick_s", 75)) if tier == "quick" else (plan["thorough"], plan.get("thorough_s", 720))
    first = (vseed % 1_000_000_000) * 1_000_000_000
    tmp = f"{WORK}/out-{prop}-{os.getpid()}"
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    findings = known(prop)
    hit_findings = collections.Counter()

    t1 = time.time()
    todo = collections.deque((first + i, min(BATCH, runs - i)) for i in range(0, runs, BATCH))
    live, bad, odd = [], [], []
    agg = dict(n=0, steps=0, sim_ns=0, switches=0, decisions=0, cpu=0.0)
    faults, counters, extra = collections.Counter(), collections.Counter(), collections.Counter()
    hashes, edges, samples, modes = set(), set(), [], collections.Counter()
    nontrivial = 0
    nb = 0
    while (todo or live) and not bad:
        left = limit - (time.time() - t1)
        if left <= 0:
            todo.clear()
        while todo and len(live) < NPROC:
            f, c = todo.popleft()
            nb += 1
            live.append(Batch(prop, tier, f, c, f"{tmp}/{nb}", max(left, 1)))
        time.sleep(0.02)
        for b in list(live):
            done = b.p.poll() is not None
            for d in b.poll():
                agg["n"] += 1
                agg["steps"] += d["steps"]
                agg["sim_ns"] += d["sim_ns"]
                agg["switches"] += d["switches"]
                agg["decisions"] += d["decisions"]
                agg["cpu"] += d["wall"]
                faults.update(d["faults"])
                counters.update(d["counters"])
                extra.update(d["extra"])
                if d["hash"] not in hashes:
                    hashes.add(d["hash"])
                    if d["switches"] > 10 and d["ops"] > 0:
                        nontrivial += 1
                edges.update(x for x in d["edges"].split(",") if x)
                modes[d.get("mode", "")] += 1
                if len(samples) < 3:
                    samples.append({k: d[k] for k in ("seed", "mode", "steps", "switches", "sim_ns", "threads", "procs", "hash", "ops", "faults") if k in d})
                if d["failures"]:
                    new = []
                    for f in d["failures"]:
                        k = [x for x in findings if x[0] == f["kind"] and x[1].search(f["detail"])]
                        if k:
                            hit_findings[k[0][2]] += 1
                        else:
                            new.append(f)
                    if new:
                        bad.append((d["seed"], new[0]["kind"], new[0]["detail"]))
            if done:
                live.remove(b)
                b.poll()
                if b.p.returncode and b.current is not None:
                    # The process running the simulation died: alone again, to be sure.
                    fs, _ = one(prop, tier, b.current)
                    fs = [f for f in fs if f[0].startswith("crash")]
                    if fs:
                        bad.append((b.current, *fs[0]))
                    else:
                        odd.append(b.current)
                        rest = b.first + b.count - b.current - 1
                        if rest > 0:
                            todo.append((b.current + 1, rest))
            elif b.current is not None and time.time() - b.progress > RUN_LIMIT:
                b.kill()
                live.remove(b)
                bad.append((b.current, "crash.hang", "the run does not end"))
    for b in live:
        b.kill()
    wall_sim = time.time() - t1

    # One seed is one execution: a few of them again.
    if not bad:
        for s in samples:
            fs, d = one(prop, tier, s["seed"])
            if d is None or d["hash"] != s["hash"]:
                log(f"seed {s['seed']} does not repeat: {s['hash']} {d and d['hash']} {fs}")
                sys.exit(2)

    code = 0
    viol = []
    if bad:
        bad.sort()
        os.makedirs(f"{VERIF}/replays", exist_ok=True)
        for seed, kind, detail in bad[:3]:
            path = f"{VERIF}/replays/{prop}-{seed}.replay"
            budget = 40 if tier == "quick" else 240
            subprocess.run([BIN, "shrink", prop, tier, str(seed), kind, path, str(budget)],
                           stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if not os.path.exists(path):
                log(f"no replay file for seed {seed} ({kind})")
                continue
            r = subprocess.run(["timeout", "-s", "KILL", str(RUN_LIMIT), BIN, "replay", path],
                               stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            ok = r.returncode == 1 or kind.startswith("crash")
            if not ok:
                log(f"seed {seed}: {kind} is not reproduced by its replay file: {r.stdout[-300:]}")
                continue
            for l in open(path):
                if l.startswith(("kind", "detail")):
                    log("  " + l.rstrip()[:1500])
            log(f"VIOLATION property={prop} replay={path}")
            viol.append({"seed": seed, "kind": kind, "detail": detail[:2000], "replay": path})
            code = 1
            break
        if not viol:
            log(f"failures that do not repeat: {bad[:3]}")
            code = 2

    for what, n in hit_findings.items():
        log(f"KNOWN-FINDING: property={prop} {what}")

    wall = time.time() - t0
    hours = max(wall_sim, 1e-6) / 3600
    ev = {
        "property": prop,
        "tier": tier,
        "seed": vseed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": nontrivial,
            "rule": "One evaluation is one simulated run of the whole runtime: workload, configuration, fault plan and schedule "
                    "drawn from one seed (" + plan["what"] + "). Distinct: its schedule hash (sequence of thread, site and decision) "
                    "differs from every other run's. Non-trivial: it performed at least one workload operation and more than 10 context switches.",
            "samples": samples,
            "simulated_runs_per_hour": round(agg["n"] / hours),
            "seeds_per_hour": round(agg["n"] / hours),
            "simulated_seconds": round(agg["sim_ns"] / 1e9, 3),
            "scheduler_steps": agg["steps"],
            "context_switches": agg["switches"],
            "random_decisions": agg["decisions"],
            "distinct_interleavings_by_schedule_hash": len(hashes),
            "distinct_site_transitions": len(edges),
            "faults_injected": dict(sorted(faults.items())),
            "events_counted": dict(sorted(counters.items())),
            "activity": dict(sorted(extra.items())),
            "scenarios": {k: v for k, v in sorted(modes.items()) if k},
            "real_components": ["revmc-runtime", "revmc-codegen", "revmc-builtins", "revmc-context", "revmc-backend", "revm interpreter and handler"],
            "stubbed_components": ["LLVM (sim/revmc-llvm: IR executed by an interpreter, with JITDylib, tracker and memory accounting)",
                                   "threads, mutexes, condvars, atomics, clocks, processes, pipes, signals, files (sim/simk, sim/simstd, sim/sim-libc)",
                                   "crossbeam-channel, crossbeam-queue, dashmap, rayon, quanta, libloading, tempfile, wait-timeout (sim/sim-*)",
                                   "linker (cc), kernel process control"],
            "runs_that_died_once_and_not_again": odd,
            "build_s": round(t_build, 1),
        },
        "assumptions": [
            "sequential consistency between scheduling points: weak-memory reorderings are not simulated",
            "the simulated crates behave as the real ones at the interface the runtime uses",
            "code generated by LLVM from the emitted IR computes what the IR says",
        ],
        "wall_s": round(wall, 2),
        "violations": len(viol),
    }
    if viol:
        ev["coverage"]["violation"] = viol[0]
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    with open(f"{VERIF}/evidence/{prop}.json", "w") as f:
        json.dump(ev, f, indent=1)
    shutil.rmtree(tmp, ignore_errors=True)
    log(f"{prop} {tier}: {agg['n']} runs, {len(hashes)} distinct schedules, {agg['sim_ns'] / 1e9:.0f} simulated s, "
        f"{sum(faults.values())} faults, build {t_build:.0f} s, total {wall:.0f} s: "
        + ("VIOLATED" if code == 1 else "held" if code == 0 else "no answer"))
    sys.exit(code)


if __name__ == "__main__":
    main()
