"""Developer tool: how the checks fare against a list of small changes. Not a check.

    python3 tools/mutate.py LIST.py [name...]     LIST.py defines M = [(name, property, [(file, old, new)...])...]

Works on a scratch worktree of /repo (/tmp/mr) and a scratch build directory (/tmp/mw)."""
import os, subprocess, sys, time, runpy
SRC = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SUFFIX", "")
VERIF = "/tmp/mv" + S
MR, MW = "/tmp/mr" + S, "/tmp/mw" + S
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
if not os.path.exists(MR):
    sh(f"git -C /repo worktree add --detach {MR} HEAD")
sh(f"git -C {MR} checkout -q --detach $(git -C /repo rev-parse HEAD)")
sh(f"mkdir -p {VERIF} && rsync -a --delete --exclude work --exclude seeded --exclude .git --exclude replays --exclude evidence {SRC}/ {VERIF}/ || cp -a {SRC}/sim {SRC}/tools {SRC}/check.py {SRC}/plan.json {SRC}/known-findings.txt {VERIF}/")
sh(f"sed -i 's/3 << 30/1 << 30/' {VERIF}/sim/harness/src/main.rs")
M = runpy.run_path(sys.argv[1])["M"]
want = sys.argv[2:]
env = {**os.environ, "SIM_REPO": MR, "SIM_WORK": MW, "VERIF_SEED": os.environ.get("VERIF_SEED", "1"), "VERIF_TIER": "quick"}
for name, prop, edits in M:
    if want and name not in want: continue
    sh(f"git -C {MR} checkout -q -- .")
    ok = True
    for f, old, new in edits:
        p = f"{MR}/{f}"; s = open(p).read()
        if s.count(old) != 1:
            print(name, "EDIT", f, s.count(old), flush=True); ok = False; break
        open(p, "w").write(s.replace(old, new))
    if not ok: continue
    t = time.time()
    r = sh(f"python3 {VERIF}/check.py {prop}", env=env, cwd=VERIF)
    v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or l.startswith("  ")]
    print(name, prop, {0: "MISSED", 1: "caught"}.get(r.returncode, "BROKEN"), f"{time.time()-t:.0f}s", *[x[:200] for x in v[:2]], flush=True)
    if r.returncode not in (0, 1): print(r.stdout[-1500:], r.stderr[-500:])
sh(f"git -C {MR} checkout -q -- .")
