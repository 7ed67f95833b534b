"""Writes /verif/properties.jsonl (kept here as Python because it is easier to edit)."""
import json, os
R = "crates/revmc-runtime/src/runtime/"
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=()):
    assert len(title) <= 80, title
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": observe, "hook_needed": None,
        },
    })

p("C01", "JIT execution is indistinguishable from interpretation",
  "Executing any sequence of transactions and system calls through the JIT-enabled EVM gives the same outcomes (success, revert or halt, output, gas used and refunded, logs, created addresses) and the same resulting state as executing it with the plain interpreter. This holds for every contract and hardfork, whatever mix of compiled and interpreted frames the sequence happens to run with: compiled code appearing, being evicted, cleared or replaced between or during calls, coming from in-process, out-of-process or ahead-of-time compilation, or failing to compile. The only permitted difference is which kind of exceptional halt is reported, never whether there is one.",
  ["schedules", "inputs", "programs", "configurations", "fault_sequences"],
  "Every transaction sequence, every generated contract set, every hardfork, every schedule of compilation, publication, eviction and clear relative to the executing frames, every compile fault.",
  "The repository's LLVM-backed equivalence tests compile one bytecode at a time and call it directly; none interleaves publication, eviction or clear with nested calls, creates and inspectors, and none runs here (no LLVM).",
  ["crates/revmc-codegen/src/compiler/translate/mod.rs", "crates/revmc-codegen/src/bytecode/passes/block_analysis.rs", "crates/revmc-codegen/src/bytecode/passes/dead_store_elim.rs", "crates/revmc-codegen/src/bytecode/passes/dedup.rs", "crates/revmc-builtins/src/lib.rs", "crates/revmc-context/src/lib.rs", "crates/revmc-runtime/src/revm_evm.rs", "crates/revmc-runtime/src/alloy_evm.rs"],
  [("per-frame lookup and dispatch", "crates/revmc-runtime/src/revm_evm.rs"), ("bytecode analysis and translation", "crates/revmc-codegen/src"), ("builtins shared with the interpreter's semantics", "crates/revmc-builtins/src/lib.rs")],
  ["transaction result and post-state of JitEvm vs the revm interpreter"])
p("C02", "A lookup only ever yields code compiled for exactly that key",
  "Whenever a lookup or a direct query returns a compiled program for a code hash and hardfork, executing that program behaves as the bytecode with that hash under that hardfork, and the program reports that same key. No interleaving of requests, worker completions, helper responses, clears, restarts or artifact-store contents can publish one contract's code under another contract's or another hardfork's key, nor code produced from a corrupted, truncated or misattributed compilation result.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of concurrent requests for several codes and hardforks, all helper and storage faults, all restart points.",
  "Tests query one or two keys with a quiet backend; mix-ups need concurrent jobs, reordered helper responses, recycled compilers or reused symbols.",
  [R+"backend.rs", R+"worker.rs", R+"out_of_process.rs", R+"mod.rs", R+"storage.rs"],
  [("cache key in job and result", R+"worker.rs"), ("job ids in the helper protocol", R+"out_of_process.rs"), ("artifact key and symbol name", R+"mod.rs")],
  ["program returned by lookup / get_compiled, executed and compared"])
p("C03", "Lookups, statistics, pause and resume never wait for the backend",
  "In non-blocking mode, looking up a program, checking for a resident program, reading statistics, and pausing or resuming all complete without waiting for the backend thread, a compilation, a helper process or queue space, whether the backend is stalled, saturated, shutting down or not started. Events or commands that cannot be queued are dropped and counted instead of blocking the caller.",
  ["schedules", "fault_sequences", "configurations"],
  "Every backend state: stalled at any point, full queues, hung helper, stopped helper, failed start, not started; every queue capacity.",
  "Tests call these functions on an idle backend; blocking shows only when a queue is full or a thread is stalled while holding something.",
  [R+"mod.rs", R+"backend.rs", R+"stats.rs"],
  [("lock-free bounded event queue, drop on overflow", R+"mod.rs"), ("try_send of pause/resume commands", R+"mod.rs"), ("try_get on the resident map", R+"mod.rs")],
  ["steps and simulated time spent inside each call with every other thread frozen"])
p("C04", "Synchronous compilation always completes, and delivers its result",
  "Every synchronous compile request and every blocking-mode lookup returns in bounded time once the compiler itself makes progress, whatever other requests, clears, evictions, saturation, worker or helper failures happen meanwhile, and it reports an error only if the backend is being shut down or could not be started. When it returns success and the compilation of that key was admitted and succeeded, the program is resident at that moment unless it has since been evicted or cleared; callers that join an already running compilation are released by that compilation and not earlier.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of several synchronous callers on the same and different keys with clears, observed promotions, AOT requests, queue saturation and faults.",
  "Tests issue one synchronous request at a time against a healthy backend.",
  [R+"backend.rs", R+"mod.rs", R+"worker.rs"],
  [("notifiers carried by jobs and attached to in-flight entries", R+"backend.rs")],
  ["return of compile_jit_sync / blocking lookup and residency right after"])
p("C05", "Clearing is a barrier for everything requested before it",
  "After a clear of the resident programs has been processed, no program whose compilation was requested before the clear becomes visible, no lookup observed before it counts towards promotion, and requests made after it are served by fresh compilations that the stragglers of the previous era neither complete, cancel nor duplicate. A clear of persisted artifacts leaves none of the previously stored artifacts loadable; handles obtained before the clear keep working until dropped.",
  ["schedules", "histories"],
  "All placements of clears among in-flight compilations, queued jobs, queued lookup events and helper responses.",
  "The clear tests clear an idle runtime; the race needs a compilation in flight across the clear and a new request for the same key.",
  [R+"backend.rs", R+"mod.rs"],
  [("generation counter on jobs and results", R+"backend.rs"), ("draining of queued lookup events", R+"backend.rs")],
  ["resident programs and compile activity after a clear"])
p("C06", "Compilation is admitted only when warranted and within its limits",
  "A contract is compiled only after an explicit request or after at least the configured number of misses observed for that code and hardfork since the last clear, and only if its size is eligible. At any time at most one compilation per key is in progress in the current era, and the number of compilations queued and running stays within the configured limits; a request that fits within the limits is admitted, and one beyond them is dropped without affecting those already admitted.",
  ["schedules", "histories", "configurations"],
  "All lookup histories, thresholds, capacities, worker counts and compile durations.",
  "Tests use one contract and check that it is eventually compiled, not that it is not compiled early, twice or beyond the limits under load.",
  [R+"backend.rs", R+"worker.rs", R+"config.rs"],
  [("hotness counter, in-flight phase, pending-job cap", R+"backend.rs"), ("queue slots reserved before dispatch", R+"worker.rs")],
  ["compiler invocations seen by the simulated code generator vs the recorded request history"])
p("C07", "A contract that stays in demand is eventually compiled",
  "Once faults stop and the runtime is enabled and not paused, an eligible contract that keeps being looked up, or that is explicitly requested, becomes available as compiled code within a bounded time, no matter what failures, drops, evictions, clears, helper restarts or saturation came before. A failed compilation never prevents later attempts.",
  ["schedules", "histories", "fault_sequences"],
  "All fault histories followed by a fault-free suffix with continuing demand.",
  "Tests check promotion from a fresh runtime; stuck states only arise after particular failures.",
  [R+"backend.rs", R+"worker.rs", R+"out_of_process.rs"],
  [("entries removed on failure so they can be retried", R+"backend.rs"), ("pending-job accounting", R+"backend.rs"), ("helper discarded and respawned after failure", R+"out_of_process.rs")],
  ["residency after a bounded fault-free suffix"])
p("C08", "Eviction removes exactly what the policy allows",
  "A resident program is removed only by a clear, or because it was not hit for longer than the configured idle duration, or because live compiled code exceeded the configured budget, in which case the least recently hit in-process-memory programs go first and no more of them than needed to get back under it; programs loaded from artifacts do not count towards the budget and are never evicted for it. Idle programs and over-budget programs are indeed removed within a sweep interval once their turn comes, and every eviction is counted.",
  ["schedules", "histories", "configurations"],
  "All hit histories, budgets, idle durations, sweep intervals and clock advances.",
  "Tests evict one program with real sleeps; order, budget arithmetic and the interplay with hits arriving late need many programs and a controlled clock.",
  [R+"backend.rs"],
  [("per-entry last-hit time, idle and budget phases of the sweep", R+"backend.rs")],
  ["resident set, clock, hit history and live code bytes around each sweep"])
p("C09", "Compiled code lives exactly as long as someone can run it",
  "Machine code stays mapped and callable for as long as any handle to its program exists, including across eviction, clear, recompilation of the same contract, compiler recycling and shutdown of the runtime. It is released exactly once, after the last handle is gone, and once the runtime and all handles are dropped none of the compiled code it created remains allocated.",
  ["schedules", "histories", "fault_sequences"],
  "All orders of publication, eviction, clear, worker recycling, runtime drop and handle drop, with frames executing at any point.",
  "A use after free needs an eviction to land between a lookup and the end of the call it started, and a leak is invisible to functional tests.",
  [R+"worker.rs", R+"api.rs", R+"backend.rs", "crates/revmc-runtime/src/revm_evm.rs"],
  [("reference-counted backing holding tracker before library guard", R+"worker.rs"), ("handle kept across the call", "crates/revmc-runtime/src/revm_evm.rs")],
  ["calls, allocations and frees of code regions in the simulated code generator and loader"])
p("C10", "Statistics and compilation events add up",
  "Once the runtime is quiet, every non-blocking lookup made while enabled on eligible code is accounted for exactly once as a hit, a miss, dropped, or discarded by a clear; dispatched compilations equal succeeded plus failed ones and the reported in-flight count is zero; and the resident count equals the programs that queries find. The compilation callback fires exactly once per compilation whose result the runtime takes up, and not for one discarded by a clear, with the outcome, kind and key of that compilation.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of lookups, promotions, failures, clears and evictions, observed at quiescence and by concurrent readers.",
  "Tests assert single counters after single operations.",
  [R+"stats.rs", R+"backend.rs", R+"mod.rs"],
  [("atomic counters bumped at each transition", R+"backend.rs")],
  ["statistics snapshots vs the recorded history"])
p("C11", "Dropping the runtime stops everything it started",
  "When the last handle to the runtime is dropped, the drop returns within the configured shutdown timeout, and once compilations in progress end, its threads have exited and no helper process it spawned is left alive or unreaped, at whatever moment the drop happens. Dropping any other handle has no such effect.",
  ["schedules", "crash_points", "fault_sequences"],
  "All drop points relative to queued and running jobs, paused or hung helpers, full queues and blocked callers.",
  "Tests drop an idle runtime; hangs and leaked helpers need a drop in the middle of work.",
  [R+"mod.rs", R+"backend.rs", R+"worker.rs", R+"out_of_process.rs"],
  [("shutdown command, bounded wait and join", R+"mod.rs"), ("worker pool shutdown, helper kill and reap", R+"worker.rs")],
  ["threads and simulated processes alive after the drop"])
p("C12", "Pausing nests and stops the helper until the last resume",
  "While at least one pause is outstanding, and unless the pause came before the runtime was started or its request was counted as dropped because the command queue was full, the compile helper is stopped after a short bounded grace period and stays stopped, resident programs are still served, and helper jobs neither time out nor are lost because of the pause. After as many resumes as pauses the helper runs again and jobs held back complete; surplus resumes are harmless.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of nested pauses and resumes from several threads with job dispatch, helper spawn, helper failure and command-queue overflow.",
  "The pause tests cover counters and one pause/resume pair without a live helper.",
  [R+"mod.rs", R+"out_of_process.rs"],
  [("pause depth counter with edge-triggered commands", R+"mod.rs"), ("pause acknowledgement, SIGSTOP/SIGCONT, held-back results", R+"out_of_process.rs")],
  ["run state of simulated helper processes vs the pause depth"])
p("C13", "A failing compile helper costs only its own jobs",
  "If the out-of-process helper cannot be started, crashes, hangs, is killed, or writes truncated or malformed output at any byte, the jobs it was holding end as failures within the job timeout, nothing it produced is published unless it was a complete valid response to that very job, and the host process is otherwise unaffected. The failed helper is discarded and reaped, and the next job is served by a fresh helper that uses the same compilation settings as the runtime it belongs to.",
  ["fault_sequences", "crash_points", "schedules"],
  "All crash, hang, garbage and spawn-failure points in the helper's life, with several concurrent jobs and worker threads.",
  "No test injects a helper failure during concurrent jobs, and none runs here at all (the helper needs LLVM).",
  [R+"out_of_process.rs", R+"worker.rs", R+"backend.rs"],
  [("response reader failing all pending jobs on error", R+"out_of_process.rs"), ("timeout, kill and restart", R+"out_of_process.rs")],
  ["job outcomes, published programs, helper processes and their settings"])
p("C14", "Prepared artifacts survive a restart; bad ones are skipped",
  "A contract prepared ahead of time whose artifact has become available in the runtime is loaded by the next runtime that opens the same store, without recompiling it, at whatever point the previous process stopped afterwards; preparing it again after a clear of the resident programs loads it from the store too. In AOT mode everything that is compiled, on request or because of its misses, becomes such an artifact. Failing store writes and probes and missing, truncated or otherwise unloadable artifact files make that artifact be skipped or recompiled, never abort start-up for the others, never lose other artifacts, and never put wrong code behind a key.",
  ["crash_points", "fault_sequences", "histories"],
  "All crash and restart points, disk-full and write-error points, torn writes, missing files, and store errors on every call.",
  "The AOT tests use a healthy store within a single process lifetime.",
  [R+"backend.rs", R+"mod.rs", R+"storage.rs", R+"worker.rs"],
  [("persist, reload, then publish", R+"backend.rs"), ("preload at start-up, probing before recompiling", R+"mod.rs")],
  ["resident programs after restart vs acknowledged artifacts"])
p("C15", "The bundled artifact store is linearizable and its files match",
  "For each artifact, concurrent store, load, load-all, delete and clear calls on the bundled artifact store behave as if executed one at a time in an order consistent with real time (load-all and clear act on each artifact at some moment during the call). An artifact that a load returns while no store, delete or clear of it is in progress has exactly the bytes last stored for it on disk, a failed store leaves the previous artifact intact or absent but never half-written behind a successful load, and deleted or cleared artifacts leave no file behind.",
  ["schedules", "histories", "fault_sequences"],
  "All interleavings of several threads on overlapping keys, with write errors and short writes.",
  "Tests call the store from one thread.",
  [R+"storage.rs"],
  [("concurrent index plus files in a private directory", R+"storage.rs")],
  ["call history and file contents"])
p("C16", "Start-up happens once, and a failed start can be retried",
  "However many threads enable the runtime or request compilations at once, exactly one backend is started, artifacts are preloaded before that call returns, and a runtime that was never enabled spawns nothing and answers every lookup with interpret. If starting fails, the caller gets an error, the runtime does not claim to be running, no later call hangs because of it, and a later attempt can succeed.",
  ["schedules", "fault_sequences", "configurations"],
  "All interleavings of concurrent first uses with preload failures and thread-creation failures.",
  "Tests start the runtime from one thread with everything succeeding.",
  [R+"mod.rs"],
  [("lazy start state behind a lock, restored on failure", R+"mod.rs")],
  ["threads spawned, call results, and lookups around start-up"])
p("C17", "Bytecode analysis and codegen are sound for a single program",
  "For every bytecode, hardfork and gas schedule, and every combination of optimisation switches, the compiled function taken by itself computes what the interpreter computes from the same starting stack, memory, gas and environment.",
  ["programs", "inputs", "configurations"],
  "All bytecodes and inputs.",
  "Infinite input space; the tests sample hand-written snippets.",
  ["crates/revmc-codegen/src/bytecode", "crates/revmc-codegen/src/compiler"],
  [("analysis passes and translation", "crates/revmc-codegen/src")],
  ["single compiled function vs interpreter"])
p("C18", "The real ORC JIT releases and isolates code as its wrapper promises",
  "Removing a compiled module's resources through the LLVM wrapper frees exactly that module, libraries are recycled only when unused, and memory accounting matches what is mapped.",
  ["schedules", "histories"],
  "All orders of commits, removals and recycling across threads.",
  "Needs LLVM 22, absent here.",
  ["crates/revmc-llvm/src/orc.rs", "crates/revmc-llvm/src/lib.rs"],
  [("resource trackers, dylib guards, memory plugin", "crates/revmc-llvm/src/orc.rs")],
  ["LLVM ORC state"])
p("C19", "Assembler, disassembler and CLI agree with the parser",
  "Assembling, formatting and parsing bytecode are mutually consistent, and the command-line tools report what the library computes.",
  ["programs", "inputs"],
  "All bytecodes and assembly texts.",
  "Infinite input space.",
  ["crates/revmc-codegen/src/bytecode/asm.rs", "crates/revmc-codegen/src/bytecode/fmt.rs", "crates/revmc-cli/src"],
  [("parser and formatter", "crates/revmc-codegen/src/bytecode")],
  ["text and bytecode round trips"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert x["statement"].count(". ") <= 2, x["id"]
        f.write(json.dumps(x) + "\n")
