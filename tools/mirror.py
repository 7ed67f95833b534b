"""Derives the simulation workspace from /repo's current working tree.

    python3 tools/mirror.py

/verif/work/ws/crates/*   the crates of /repo that run for real, copied file by file (only what changed is
                          rewritten, so cargo's fingerprints stay honest), with a derived Cargo.toml in which the
                          seams (threads, clocks, channels, files, processes, the LLVM backend, ...) resolve to
                          the simulated ones of /verif/sim.
/verif/work/ws/sim/*      copies of /verif/sim/*.

Nothing in /repo is written."""

import os
import shutil
import sys
import tomllib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.environ.get("SIM_WORK", f"{VERIF}/work") + "/ws"

REAL = ["revmc-backend", "revmc-build", "revmc-builtins", "revmc-codegen", "revmc-context", "revmc-runtime"]
#: Dependencies that resolve to a simulated crate, in the crates listed in SIMULATED.
SEAMS = {
    "crossbeam-channel": "sim-crossbeam-channel",
    "crossbeam-queue": "sim-crossbeam-queue",
    "dashmap": "sim-dashmap",
    "rayon": "sim-rayon",
    "quanta": "sim-quanta",
    "libloading": "sim-libloading",
    "tempfile": "sim-tempfile",
    "wait-timeout": "sim-wait-timeout",
    "libc": "sim-libc",
    "parking_lot": None,
}
#: Crates of /repo whose `std` is the simulated one.
SIMULATED = ["revmc-runtime", "revmc-codegen"]


def dump(v):
    if isinstance(v, bool):
        return "true" if v else "false"
    if isinstance(v, (int, float)):
        return repr(v)
    if isinstance(v, str):
        return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(v, list):
        return "[" + ", ".join(map(dump, v)) + "]"
    return "{ " + ", ".join(f"{dump(k)} = {dump(x)}" for k, x in v.items()) + " }"


def write(path, data):
    if isinstance(data, str):
        data = data.encode()
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def write_toml(path, data):
    write(path, "".join(f"{dump(k)} = {dump(v)}\n" for k, v in data.items()))


def mirror(src, dst, skip=()):
    want = set()
    for base, dirs, files in os.walk(src):
        rel = os.path.relpath(base, src)
        dirs[:] = sorted(d for d in dirs if d not in ("target", ".git"))
        for f in sorted(files):
            r = os.path.normpath(os.path.join(rel, f))
            if r in skip:
                continue
            want.add(r)
            with open(os.path.join(base, f), "rb") as fh:
                write(os.path.join(dst, r), fh.read())
    for base, dirs, files in os.walk(dst):
        for f in files:
            r = os.path.normpath(os.path.relpath(os.path.join(base, f), dst))
            if r not in want and r not in skip:
                os.remove(os.path.join(base, f))


def main():
    root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
    sims = sorted(d for d in os.listdir(f"{VERIF}/sim") if os.path.exists(f"{VERIF}/sim/{d}/Cargo.toml"))
    top = {
        "workspace": {
            "members": [f"crates/{c}" for c in REAL] + [f"sim/{s}" for s in sims],
            "resolver": "2",
            "package": root["workspace"]["package"],
            "lints": {"rust": {"unexpected_cfgs": "allow"}},
            "dependencies": root["workspace"]["dependencies"],
        },
        # Overflow checks and debug assertions off, as in the shipped profile; panics unwind, as in a library user's.
        "profile": {
            "sim": {
                "inherits": "dev", "opt-level": 2, "debug": 0, "debug-assertions": False, "overflow-checks": False,
                "incremental": False, "panic": "unwind", "codegen-units": 16,
                "build-override": {"opt-level": 0, "codegen-units": 256},
            },
        },
    }
    deps = top["workspace"]["dependencies"]
    deps["revmc-llvm"] = {"path": "sim/revmc-llvm", "package": "sim-revmc-llvm", "default-features": False}
    for c in REAL:
        m = tomllib.load(open(f"{REPO}/crates/{c}/Cargo.toml", "rb"))
        m.pop("dev-dependencies", None)
        m.pop("bench", None)
        m.pop("lints", None)
        m.setdefault("lib", {})["test"] = False
        d = m.get("dependencies", {})
        for name in list(d):
            if c in SIMULATED and SEAMS.get(name):
                opt = isinstance(d[name], dict) and d[name].get("optional", False)
                d[name] = {"path": f"../../sim/{SEAMS[name]}", "package": SEAMS[name]}
                if opt:
                    d[name]["optional"] = True
        if c in SIMULATED:
            d["std"] = {"path": "../../sim/simstd", "package": "simstd"}
        feats = m.get("features", {})
        for k, v in feats.items():
            feats[k] = [f for f in v if not f.startswith(("revmc-llvm/", "revmc-llvm?/"))]
        mirror(f"{REPO}/crates/{c}", f"{OUT}/crates/{c}", skip=("Cargo.toml",))
        write_toml(f"{OUT}/crates/{c}/Cargo.toml", m)
    for s in sims:
        mirror(f"{VERIF}/sim/{s}", f"{OUT}/sim/{s}")
    for kind, keep in (("crates", REAL), ("sim", sims)):
        if os.path.isdir(f"{OUT}/{kind}"):
            for n in set(os.listdir(f"{OUT}/{kind}")) - set(keep):
                shutil.rmtree(f"{OUT}/{kind}/{n}")
    write_toml(f"{OUT}/Cargo.toml", top)
    lock = f"{OUT}/Cargo.lock"
    if not os.path.exists(lock):
        with open(f"{REPO}/Cargo.lock", "rb") as f:
            write(lock, f.read())


if __name__ == "__main__":
    sys.exit(main())
