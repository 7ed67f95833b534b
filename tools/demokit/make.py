"""Writes the kit that the demonstrations of /verif/seeded use: python3 make.py DIR

The runtime of /repo on real threads, processes and files, with the code generator of the simulation in place of LLVM."""
import os, re, shutil, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SIM = os.path.join(os.path.dirname(os.path.dirname(HERE)), "sim")
out = sys.argv[1]
shutil.rmtree(out, ignore_errors=True)
shutil.copytree(f"{HERE}/kit", out)
for c in ("simcode", "revmc-llvm", "sim-libloading"):
    shutil.copytree(f"{SIM}/{c}", f"{out}/{c}")
p = f"{out}/simcode/src/registry.rs"
s = open(p).read()
s = re.sub(r"(?m)^(pub(?:\(crate\))? fn .*\{)$", r"\1\n    let _l = simk::lock();", s)
open(p, "w").write(s)
