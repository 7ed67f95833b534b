"""derive.py OUT MAIN: a workspace with the crates of /repo, the stand-in code generator and the demonstration."""
import os, shutil, sys, tomllib
KIT = os.path.dirname(os.path.abspath(__file__))
REPO, (OUT, MAIN) = os.getcwd(), sys.argv[1:]
REAL = ["revmc-backend", "revmc-build", "revmc-builtins", "revmc-codegen", "revmc-context", "revmc-runtime"]

def dump(v):
    if isinstance(v, bool): return "true" if v else "false"
    if isinstance(v, (int, float)): return repr(v)
    if isinstance(v, str): return '"' + v.replace("\\", "\\\\").replace('"', '\\"').replace("\n", "\\n") + '"'
    if isinstance(v, list): return "[" + ", ".join(map(dump, v)) + "]"
    return "{ " + ", ".join(f"{dump(k)} = {dump(x)}" for k, x in v.items()) + " }"

def toml(path, data):
    open(path, "w").write("".join(f"{dump(k)} = {dump(v)}\n" for k, v in data.items()))

root = tomllib.load(open(f"{REPO}/Cargo.toml", "rb"))
kits = ["simk", "simcode", "revmc-llvm", "sim-libloading"]
deps = root["workspace"]["dependencies"]
deps["revmc-llvm"] = {"path": "kit/revmc-llvm", "package": "sim-revmc-llvm", "default-features": False}
os.makedirs(f"{OUT}/crates"); os.makedirs(f"{OUT}/kit"); os.makedirs(f"{OUT}/demo/src")
for k in kits:
    shutil.copytree(f"{KIT}/{k}", f"{OUT}/kit/{k}")
for c in REAL:
    shutil.copytree(f"{REPO}/crates/{c}", f"{OUT}/crates/{c}", ignore=shutil.ignore_patterns("target"))
    m = tomllib.load(open(f"{REPO}/crates/{c}/Cargo.toml", "rb"))
    for k in ("dev-dependencies", "bench", "lints"): m.pop(k, None)
    if c == "revmc-runtime":
        m["dependencies"]["libloading"] = {"path": "../../kit/sim-libloading", "package": "sim-libloading"}
    f = m.get("features", {})
    for k, v in f.items(): f[k] = [x for x in v if not x.startswith(("revmc-llvm/", "revmc-llvm?/"))]
    toml(f"{OUT}/crates/{c}/Cargo.toml", m)
toml(f"{OUT}/demo/Cargo.toml", {
    "package": {"name": "demo", "version": "0.0.0", "edition": "2024"},
    "dependencies": {
        **{k: {"workspace": True} for k in ("revmc-builtins", "revmc-context", "revmc-codegen", "revmc-backend",
           "revmc-llvm", "alloy-evm", "revm-bytecode", "revm-context-interface", "revm-database", "revm-database-interface",
           "revm-handler", "revm-interpreter", "revm-primitives", "revm-state", "eyre")},
        "alloy-primitives": {"workspace": True, "features": ["std"]},
        "revm-context": {"workspace": True, "features": ["std"]},
        "revmc-runtime": {"workspace": True, "features": ["llvm", "alloy-evm"]},
        "simk": {"path": "../kit/simk"}, "simcode": {"path": "../kit/simcode"},
        "libc": "0.2",
    }})
src = open(MAIN).read() + open(f"{KIT}/common.rs").read()
open(f"{OUT}/demo/src/main.rs", "w").write(src)
toml(f"{OUT}/Cargo.toml", {
    "workspace": {"members": ["demo"] + [f"crates/{c}" for c in REAL] + [f"kit/{k}" for k in kits], "resolver": "2",
                  "package": root["workspace"]["package"], "lints": {"rust": {"unexpected_cfgs": "allow"}}, "dependencies": deps},
    "profile": {"dev": {"debug": 0, "incremental": False, "opt-level": 0}}})
shutil.copyfile(f"{REPO}/Cargo.lock", f"{OUT}/Cargo.lock")
