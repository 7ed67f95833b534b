"""Writes /verif/MANIFEST.json from plan.json and the reasons below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAN = json.load(open(f"{V}/plan.json"))
NOTE = ("Seeded search, not proof: holds on every run explored. Real code: revmc-runtime, -codegen, -builtins, -context and revm; simulated: scheduler, locks, "
        "channels, maps, clock, files, processes, pipes, linker and the LLVM backend (its IR is interpreted). Assumes those stand-ins behave as the originals at the "
        "interface used, and sequential consistency between scheduling points.")
NA = {
    "C17": "A pure function of its input: no concurrency, time, I/O or multi-party behaviour to simulate. What a running system can show of it is covered by C01, "
           "which executes generated contracts through the whole runtime.",
    "C18": "The property is about LLVM's own ORC state behind the FFI; LLVM 22 is not installed, so the code cannot run, and simulating it would mean testing a stub.",
    "C19": "Pure text and bytecode transformations without concurrency, time, I/O or faults for a simulator to control.",
}
m = {
    "version": 1,
    "setup_cmd": "python3 check.py build",
    "checks": [
        {
            "property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}",
            "technique": "deterministic simulation with fault injection", "level": "exploration",
            "level_note": f"{PLAN[p]['what'][0].upper()}{PLAN[p]['what'][1:]}. {NOTE}",
        }
        for p in sorted(PLAN)
    ],
    "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
    "notes": "No hooks in /repo: tools/mirror.py derives a workspace from /repo's working tree whose seams (std, crossbeam, dashmap, rayon, quanta, libloading, tempfile, "
             "wait-timeout, libc, the LLVM backend) resolve to the simulated crates in sim/. VERIF_SEED selects the seeds, VERIF_TIER the depth.",
}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
