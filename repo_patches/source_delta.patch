From 53ddbcba6a0f204561c53b7b4d76d1d28c282a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:02 +0000
Subject: [PATCH 01/21] fix: read LOG1..LOG4 memory offset and length from the
 right operands

LOGn pops offset and length first and the topics after them. The memory section
analysis read them below the topics instead, overestimated how far memory had
been expanded, and skipped the expansion (and its gas) of later accesses.
---
 crates/revmc-codegen/src/bytecode/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 2b8c5e8..114d16f 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -710,7 +710,7 @@ impl<'a> Bytecode<'a> {
         let operand =
             |depth| self.const_operand(inst, depth).and_then(|value| u64::try_from(value).ok());
         match data.opcode {
-            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0 => {
+            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0..=op::LOG4 => {
                 [Some((operand(0), operand(1))), None]
             }
             op::MLOAD | op::MSTORE => [Some((operand(0), Some(32))), None],
@@ -723,10 +723,6 @@ impl<'a> Bytecode<'a> {
                 Some((operand(0).zip(operand(1)).map(|(dst, src)| dst.max(src)), operand(2))),
                 None,
             ],
-            op::LOG1 => [Some((operand(1), operand(2))), None],
-            op::LOG2 => [Some((operand(2), operand(3))), None],
-            op::LOG3 => [Some((operand(3), operand(4))), None],
-            op::LOG4 => [Some((operand(4), operand(5))), None],
             op::CREATE | op::CREATE2 => [Some((operand(1), operand(2))), None],
             op::CALL | op::CALLCODE => {
                 [Some((operand(3), operand(4))), Some((operand(5), operand(6)))]
-- 
2.43.0


From c66ab0574c8c50ebaa874084d72ab7e291f31519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:10:56 +0000
Subject: [PATCH 02/21] fix: pausing a stopped or busy JIT helper no longer
 deadlocks the backend

A second pause request (for instance one that raced with the helper being spawned
paused) waited for the helper's input lock, which a worker keeps while its job
write is blocked on the full pipe of the stopped helper. The backend thread then
never got to the resume request.
---
 .../revmc-runtime/src/runtime/out_of_process.rs  | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index 25e8e2c..be62202 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -177,6 +177,7 @@ struct HelperProcessInner {
     shutdown_timeout: Duration,
     stats: Arc<RuntimeStats>,
     paused: Arc<AtomicBool>,
+    stopped: AtomicBool,
 }
 
 impl HelperProcessInner {
@@ -250,6 +251,7 @@ impl HelperProcessInner {
             shutdown_timeout: config.tuning.shutdown_timeout,
             stats,
             paused,
+            stopped: AtomicBool::new(false),
         })
     }
 
@@ -330,13 +332,20 @@ impl HelperProcessInner {
     }
 
     fn pause(&self) {
+        // A helper that is already stopped cannot acknowledge another request, and a job write that
+        // fills its input pipe holds `io` until it is resumed.
+        if self.stopped.swap(true, Ordering::Relaxed) {
+            return;
+        }
+
         let id = self.next_job_id.fetch_add(1, Ordering::Relaxed);
         let (tx, rx) = chan::bounded(1);
         self.pending_pauses.lock().unwrap().insert(id, tx);
 
-        let send_result = {
-            let mut io = self.io.lock().unwrap();
-            write_pause(&mut io.stdin, id).and_then(|()| io.stdin.flush())
+        // Do not wait for a job write in progress: it may be blocked on a helper that does not read.
+        let send_result = match self.io.try_lock() {
+            Ok(mut io) => write_pause(&mut io.stdin, id).and_then(|()| io.stdin.flush()),
+            Err(_) => Err(std::io::ErrorKind::WouldBlock.into()),
         };
 
         if let Err(err) = send_result {
@@ -368,6 +377,7 @@ impl HelperProcessInner {
     }
 
     fn resume(&self) {
+        self.stopped.store(false, Ordering::Relaxed);
         self.signal(libc::SIGCONT, "resume");
         let send_result = {
             let mut io = self.io.lock().unwrap();
-- 
2.43.0


From 3b2504276eaddf4248b976b8bc06bf42b62a6945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:12:34 +0000
Subject: [PATCH 03/21] fix: the runtime artifact store never rewrites or
 removes the wrong dylib

Storing an artifact again overwrote the file in place while a loaded program could
have it mapped, a failed write left half a file behind an intact index entry, and
a store that ran during delete or clear could lose its file but keep its entry.
---
 crates/revmc-runtime/src/runtime/storage.rs | 47 +++++++++++++++------
 1 file changed, 34 insertions(+), 13 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/storage.rs b/crates/revmc-runtime/src/runtime/storage.rs
index 5b85f30..3dbcab2 100644
--- a/crates/revmc-runtime/src/runtime/storage.rs
+++ b/crates/revmc-runtime/src/runtime/storage.rs
@@ -4,7 +4,11 @@ use crate::{OptimizationLevel, eyre};
 use alloy_primitives::B256;
 use dashmap::DashMap;
 use revm_primitives::hardfork::SpecId;
-use std::{fs, path::PathBuf};
+use std::{
+    fs,
+    path::PathBuf,
+    sync::atomic::{AtomicU64, Ordering},
+};
 
 /// Runtime cache key: the minimal identity for a compiled program at runtime.
 #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
@@ -96,12 +100,17 @@ pub trait ArtifactStore: Send + Sync + 'static {
 pub struct RuntimeArtifactStore {
     dir: tempfile::TempDir,
     artifacts: DashMap<ArtifactKey, StoredArtifact>,
+    next_temp_id: AtomicU64,
 }
 
 impl RuntimeArtifactStore {
     /// Creates an empty temporary runtime artifact store.
     pub fn new() -> eyre::Result<Self> {
-        Ok(Self { dir: tempfile::tempdir()?, artifacts: DashMap::default() })
+        Ok(Self {
+            dir: tempfile::tempdir()?,
+            artifacts: DashMap::default(),
+            next_temp_id: AtomicU64::new(0),
+        })
     }
 
     /// Returns the number of artifacts tracked by this store.
@@ -142,25 +151,37 @@ impl ArtifactStore for RuntimeArtifactStore {
         dylib_bytes: &[u8],
     ) -> eyre::Result<()> {
         let path = self.artifact_path(key);
-        fs::write(&path, dylib_bytes)?;
-        self.artifacts
-            .insert(key.clone(), StoredArtifact { manifest: manifest.clone(), dylib_path: path });
+        // Never write in place: the current file may be mapped by a loaded program, and a failed
+        // write must not damage it.
+        let temp_id = self.next_temp_id.fetch_add(1, Ordering::Relaxed);
+        let temp_path = path.with_extension(format!("{temp_id}.tmp"));
+        fs::write(&temp_path, dylib_bytes)
+            .and_then(|()| {
+                // The entry lock keeps the index and the file in step.
+                let entry = self.artifacts.entry(key.clone());
+                fs::rename(&temp_path, &path)?;
+                entry.insert(StoredArtifact { manifest: manifest.clone(), dylib_path: path });
+                Ok(())
+            })
+            .inspect_err(|_| {
+                let _ = fs::remove_file(&temp_path);
+            })?;
         Ok(())
     }
 
     fn delete(&self, key: &ArtifactKey) -> eyre::Result<()> {
-        if let Some((_, artifact)) = self.artifacts.remove(key) {
-            let _ = fs::remove_file(artifact.dylib_path);
-        }
+        self.artifacts.remove_if(key, |_, artifact| {
+            let _ = fs::remove_file(&artifact.dylib_path);
+            true
+        });
         Ok(())
     }
 
     fn clear(&self) -> eyre::Result<()> {
-        let paths = self.artifacts.iter().map(|entry| entry.dylib_path.clone()).collect::<Vec<_>>();
-        self.artifacts.clear();
-        for path in paths {
-            let _ = fs::remove_file(path);
-        }
+        self.artifacts.retain(|_, artifact| {
+            let _ = fs::remove_file(&artifact.dylib_path);
+            false
+        });
         Ok(())
     }
 }
-- 
2.43.0


From cb5b6ba171d7fef0baa9e395b619a21abbc7a955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:17 +0000
Subject: [PATCH 04/21] fix: stale worker results no longer disturb the current
 generation

A result that arrives after a clear used to take the notifiers of, and remove, an
entry created for the same key after the clear: its synchronous callers were
released early, and the key could be compiled twice at once.
---
 crates/revmc-runtime/src/runtime/backend.rs | 27 +++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index b827df4..1f04d0a 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -494,6 +494,20 @@ impl BackendState {
     fn handle_worker_result(&mut self, result: WorkerResult) {
         self.pending_jobs = self.pending_jobs.saturating_sub(1);
 
+        // Discard stale results from a previous generation (e.g. after clear). The clear has already
+        // dropped the entry they belonged to; an entry present now is of the current generation and
+        // must be left to its own compilation.
+        if result.generation != self.generation {
+            debug!(
+                code_hash = %result.key.code_hash,
+                result_gen = result.generation,
+                current_gen = self.generation,
+                "discarding stale worker result",
+            );
+            result.sync_notifier.notify();
+            return;
+        }
+
         // Drain pending notifiers from the entry before processing.
         let pending_notifiers = self
             .entries
@@ -508,19 +522,6 @@ impl BackendState {
             }
         };
 
-        // Discard stale results from a previous generation (e.g. after clear).
-        if result.generation != self.generation {
-            debug!(
-                code_hash = %result.key.code_hash,
-                result_gen = result.generation,
-                current_gen = self.generation,
-                "discarding stale worker result",
-            );
-            self.entries.remove(&result.key);
-            notify();
-            return;
-        }
-
         let kind = result.kind;
         let success = result.outcome.is_ok();
 
-- 
2.43.0


From 3fad8a8d2adba774d9770bcc2f8383205e9d2111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:17 +0000
Subject: [PATCH 05/21] fix: count discarded compilations as completed

Results discarded after a clear were never counted as succeeded or failed, so the
pending_jobs statistic, derived from those counters, never came back to zero.
---
 crates/revmc-runtime/src/runtime/backend.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 1f04d0a..8b0e8d7 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -504,6 +504,11 @@ impl BackendState {
                 current_gen = self.generation,
                 "discarding stale worker result",
             );
+            let counter = match result.outcome {
+                Ok(_) => &self.inner.stats.compilations_succeeded,
+                Err(_) => &self.inner.stats.compilations_failed,
+            };
+            counter.fetch_add(1, Ordering::Relaxed);
             result.sync_notifier.notify();
             return;
         }
-- 
2.43.0


From cbd4662002d36740eb0e5bcadfb6fb60630ec07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:51 +0000
Subject: [PATCH 06/21] fix: a pause no longer makes helper jobs time out right
 after the resume

---
 .../src/runtime/out_of_process.rs             | 58 +++++++++++++++----
 1 file changed, 48 insertions(+), 10 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index be62202..203917b 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -93,13 +93,41 @@ struct HelperIo {
 
 pub(super) struct HelperProcess {
     inner: Mutex<Option<Arc<HelperProcessInner>>>,
-    paused: Arc<AtomicBool>,
+    paused: Arc<PauseClock>,
     stats: Arc<RuntimeStats>,
 }
 
+/// Whether the helper is to be paused, and for how long it has been in total.
+#[derive(Default)]
+struct PauseClock {
+    state: Mutex<(Option<Instant>, Duration)>,
+}
+
+impl PauseClock {
+    fn pause(&self) {
+        self.state.lock().unwrap().0.get_or_insert_with(Instant::now);
+    }
+
+    fn resume(&self) {
+        let (since, total) = &mut *self.state.lock().unwrap();
+        if let Some(since) = since.take() {
+            *total += since.elapsed();
+        }
+    }
+
+    fn is_paused(&self) -> bool {
+        self.state.lock().unwrap().0.is_some()
+    }
+
+    fn paused_time(&self) -> Duration {
+        let (since, total) = *self.state.lock().unwrap();
+        total + since.map_or(Duration::ZERO, |since| since.elapsed())
+    }
+}
+
 impl HelperProcess {
     pub(super) fn new(stats: Arc<RuntimeStats>) -> Self {
-        Self { inner: Mutex::new(None), paused: Arc::new(AtomicBool::new(false)), stats }
+        Self { inner: Mutex::new(None), paused: Arc::default(), stats }
     }
 
     fn compile(&self, job: &CompileJob, config: &RuntimeConfig) -> Result<HelperJobResult, String> {
@@ -110,7 +138,7 @@ impl HelperProcess {
                 debug!("spawning JIT helper");
                 match HelperProcessInner::spawn(config, self.stats.clone(), self.paused.clone()) {
                     Ok(helper) => {
-                        if self.paused.load(Ordering::Relaxed) {
+                        if self.paused.is_paused() {
                             helper.pause();
                         }
                         self.stats.jit_helper_spawns.fetch_add(1, Ordering::Relaxed);
@@ -150,7 +178,7 @@ impl HelperProcess {
 
     pub(super) fn pause(&self) {
         self.stats.jit_helper_pause_requests.fetch_add(1, Ordering::Relaxed);
-        self.paused.store(true, Ordering::Relaxed);
+        self.paused.pause();
         if let Some(helper) = self.inner.lock().unwrap().as_ref() {
             helper.pause();
         }
@@ -158,7 +186,7 @@ impl HelperProcess {
 
     pub(super) fn resume(&self) {
         self.stats.jit_helper_resume_requests.fetch_add(1, Ordering::Relaxed);
-        self.paused.store(false, Ordering::Relaxed);
+        self.paused.resume();
         if let Some(helper) = self.inner.lock().unwrap().as_ref() {
             helper.resume();
         }
@@ -176,7 +204,7 @@ struct HelperProcessInner {
     next_job_id: AtomicU64,
     shutdown_timeout: Duration,
     stats: Arc<RuntimeStats>,
-    paused: Arc<AtomicBool>,
+    paused: Arc<PauseClock>,
     stopped: AtomicBool,
 }
 
@@ -184,7 +212,7 @@ impl HelperProcessInner {
     fn spawn(
         config: &RuntimeConfig,
         stats: Arc<RuntimeStats>,
-        paused: Arc<AtomicBool>,
+        paused: Arc<PauseClock>,
     ) -> Result<Self, String> {
         let path = match &config.jit_helper_path {
             Some(path) => path.clone(),
@@ -282,13 +310,23 @@ impl HelperProcessInner {
             }
         }
 
+        let timeout = config.tuning.jit_timeout;
+        let started = Instant::now();
+        let paused_before = self.paused.paused_time();
+        let mut wait = timeout;
         loop {
-            match rx.recv_timeout(config.tuning.jit_timeout) {
+            match rx.recv_timeout(wait) {
                 Ok(result) => return result,
-                Err(chan::RecvTimeoutError::Timeout) if self.paused.load(Ordering::Relaxed) => {
-                    continue;
+                Err(chan::RecvTimeoutError::Timeout) if self.paused.is_paused() => {
+                    wait = timeout;
                 }
                 Err(chan::RecvTimeoutError::Timeout) => {
+                    // Time spent paused does not count.
+                    let paused = self.paused.paused_time().saturating_sub(paused_before);
+                    wait = timeout.saturating_sub(started.elapsed().saturating_sub(paused));
+                    if !wait.is_zero() {
+                        continue;
+                    }
                     warn!(timeout = ?config.tuning.jit_timeout, "JIT helper timed out");
                     self.pending.lock().unwrap().remove(&id);
                     self.stats.jit_helper_timeouts.fetch_add(1, Ordering::Relaxed);
-- 
2.43.0


From 827c1ec972df305c9bd1a23d01d428f41cfd993a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:01 +0000
Subject: [PATCH 07/21] fix: give every JIT compilation its own symbol name

An evicted or cleared program that is still held by a handle stays linked in the
dylib of the worker that compiled it, so recompiling the same contract there
failed with a duplicate definition.
---
 crates/revmc-runtime/src/runtime/backend.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 8b0e8d7..413d444 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -218,6 +218,8 @@ struct BackendState {
     pending_jobs: usize,
     /// Monotonically increasing generation counter, bumped on clear/invalidation.
     generation: u64,
+    /// Number of JIT symbol names handed out, which makes each of them unique.
+    jit_symbols: u64,
     /// Last time an eviction sweep was run.
     last_sweep: Instant,
     /// Optional user callback for compilation events.
@@ -348,15 +350,19 @@ impl BackendState {
             return;
         }
 
-        let prefix = match kind {
-            CompilationKind::Jit => "jit",
-            CompilationKind::Aot => "aot",
-        };
         let opt_level = match kind {
             CompilationKind::Jit => self.tuning.jit_opt_level,
             CompilationKind::Aot => self.tuning.aot_opt_level,
         };
-        let symbol = format!("{prefix}_{:x}_{:?}", key.code_hash, key.spec_id);
+        let symbol = match kind {
+            // Code of an earlier compilation of this key may still be linked in a worker's dylib,
+            // kept alive by a handle.
+            CompilationKind::Jit => {
+                self.jit_symbols += 1;
+                format!("jit_{:x}_{:?}_{}", key.code_hash, key.spec_id, self.jit_symbols)
+            }
+            CompilationKind::Aot => format!("aot_{:x}_{:?}", key.code_hash, key.spec_id),
+        };
         let job = CompileJob {
             kind,
             key,
@@ -842,6 +848,7 @@ pub(crate) fn run(
         aot: config.aot,
         pending_jobs: 0,
         generation: 0,
+        jit_symbols: 0,
         last_sweep: now,
         on_compilation: config.on_compilation,
     };
-- 
2.43.0


From 186f577b9d7a3148a37528af2159c5751f289d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:43 +0000
Subject: [PATCH 08/21] fix: reap a JIT helper whose start-up fails

A helper that exits before it has read its settings was left as a zombie, and
failing to start the reader thread aborted the process.
---
 .../revmc-runtime/src/runtime/out_of_process.rs | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index 203917b..56b3632 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -231,15 +231,18 @@ impl HelperProcessInner {
 
         let mut child = command.spawn().map_err(|e| format!("failed to spawn JIT helper: {e}"))?;
         let mut stdin = BufWriter::new(child.stdin.take().ok_or("helper stdin unavailable")?);
-        write_init(&mut stdin, &init).map_err(|e| format!("failed to write helper init: {e}"))?;
-        stdin.flush().map_err(|e| format!("failed to flush helper init: {e}"))?;
+        if let Err(e) = write_init(&mut stdin, &init).and_then(|()| stdin.flush()) {
+            kill_helper(&mut child);
+            let _ = child.wait();
+            return Err(format!("failed to write helper init: {e}"));
+        }
         let stdout = child.stdout.take().ok_or("helper stdout unavailable")?;
         let pending = PendingResponses::default();
         let pending_pauses = PendingPauses::default();
         let reader_pending = pending.clone();
         let reader_pending_pauses = pending_pauses.clone();
         let reader_stats = stats.clone();
-        let reader = std::thread::spawn(move || {
+        let reader = std::thread::Builder::new().spawn(move || {
             let mut stdout = BufReader::new(stdout);
             loop {
                 let result = read_helper_response(&mut stdout);
@@ -267,6 +270,14 @@ impl HelperProcessInner {
                 }
             }
         });
+        let reader = match reader {
+            Ok(reader) => reader,
+            Err(e) => {
+                kill_helper(&mut child);
+                let _ = child.wait();
+                return Err(format!("failed to spawn JIT helper reader: {e}"));
+            }
+        };
         Ok(Self {
             path,
             init,
-- 
2.43.0


From be179d7b779e799250fc67cc036a1027a2147c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:13 +0000
Subject: [PATCH 09/21] fix: dropping the runtime while paused no longer leaks
 the helper

Jobs still queued at shutdown spawned a new helper, which was stopped at once if
the runtime was paused and then kept its worker, its reader and itself alive.
---
 .../src/runtime/out_of_process.rs             | 22 ++++++++++++++++++-
 crates/revmc-runtime/src/runtime/worker.rs    | 12 +++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index 56b3632..7535bb1 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -94,6 +94,8 @@ struct HelperIo {
 pub(super) struct HelperProcess {
     inner: Mutex<Option<Arc<HelperProcessInner>>>,
     paused: Arc<PauseClock>,
+    /// Set under the lock of `inner`: no helper is spawned afterwards.
+    closed: AtomicBool,
     stats: Arc<RuntimeStats>,
 }
 
@@ -127,12 +129,20 @@ impl PauseClock {
 
 impl HelperProcess {
     pub(super) fn new(stats: Arc<RuntimeStats>) -> Self {
-        Self { inner: Mutex::new(None), paused: Arc::default(), stats }
+        Self {
+            inner: Mutex::new(None),
+            paused: Arc::default(),
+            closed: AtomicBool::new(false),
+            stats,
+        }
     }
 
     fn compile(&self, job: &CompileJob, config: &RuntimeConfig) -> Result<HelperJobResult, String> {
         let helper = {
             let mut slot = self.inner.lock().unwrap();
+            if self.closed.load(Ordering::Relaxed) {
+                return Err("JIT helper is shut down".into());
+            }
             if slot.as_ref().is_none_or(|helper| !helper.matches_config(config)) {
                 let restarting = slot.is_some();
                 debug!("spawning JIT helper");
@@ -176,6 +186,16 @@ impl HelperProcess {
         }
     }
 
+    /// Kills the helper for good, even if it is paused.
+    pub(super) fn shutdown(&self) {
+        self.paused.resume();
+        let mut slot = self.inner.lock().unwrap();
+        self.closed.store(true, Ordering::Relaxed);
+        if let Some(helper) = slot.take() {
+            helper.kill();
+        }
+    }
+
     pub(super) fn pause(&self) {
         self.stats.jit_helper_pause_requests.fetch_add(1, Ordering::Relaxed);
         self.paused.pause();
diff --git a/crates/revmc-runtime/src/runtime/worker.rs b/crates/revmc-runtime/src/runtime/worker.rs
index afc3227..ad4e958 100644
--- a/crates/revmc-runtime/src/runtime/worker.rs
+++ b/crates/revmc-runtime/src/runtime/worker.rs
@@ -268,7 +268,7 @@ impl WorkerPool {
     /// Shuts down all workers after draining queued jobs.
     pub(crate) fn shutdown(&mut self) {
         self.shutdown.store(true, Ordering::Release);
-        self.cancel_in_flight();
+        shutdown_out_of_process_helper(&self.out_of_process_helper);
         if let Some(pool) = &self.pool {
             pool.broadcast(|_| clear_thread_local_compilers());
         }
@@ -323,6 +323,16 @@ fn cancel_out_of_process_helper(helper: &OutOfProcessHelper) {
 #[cfg(not(all(feature = "llvm", unix)))]
 fn cancel_out_of_process_helper(_helper: &OutOfProcessHelper) {}
 
+#[cfg(all(feature = "llvm", unix))]
+fn shutdown_out_of_process_helper(helper: &OutOfProcessHelper) {
+    if let Some(helper) = helper {
+        helper.shutdown();
+    }
+}
+
+#[cfg(not(all(feature = "llvm", unix)))]
+fn shutdown_out_of_process_helper(_helper: &OutOfProcessHelper) {}
+
 #[cfg(all(feature = "llvm", unix))]
 fn pause_out_of_process_helper(helper: &OutOfProcessHelper) {
     if let Some(helper) = helper {
-- 
2.43.0


From b652515c8864c903daeaf974db3f50e92e01ed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:09 +0000
Subject: [PATCH 10/21] fix: dropping the runtime does not wait for a full
 command queue beyond its timeout

---
 crates/revmc-runtime/src/runtime/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/mod.rs b/crates/revmc-runtime/src/runtime/mod.rs
index d44e5b5..b76dc9b 100644
--- a/crates/revmc-runtime/src/runtime/mod.rs
+++ b/crates/revmc-runtime/src/runtime/mod.rs
@@ -583,11 +583,13 @@ impl BackendInner {
     fn shutdown(&self) -> eyre::Result<()> {
         debug!("shutting down JIT backend");
         if let Some(ct) = self.thread.lock().unwrap().take() {
-            // Ignoring send error — backend may already be gone.
-            let _ = self.tx.send(Command::Shutdown);
+            // Ignoring send error — backend may already be gone. It also exits when the channel is
+            // closed, so a full queue need not be waited for.
+            let start = std::time::Instant::now();
+            let _ = self.tx.send_timeout(Command::Shutdown, self.shutdown_timeout);
 
             // Wait for the thread to signal completion, with a timeout.
-            match ct.done_rx.recv_timeout(self.shutdown_timeout) {
+            match ct.done_rx.recv_timeout(self.shutdown_timeout.saturating_sub(start.elapsed())) {
                 Ok(()) | Err(chan::RecvTimeoutError::Disconnected) => {}
                 Err(chan::RecvTimeoutError::Timeout) => {
                     eyre::bail!(
-- 
2.43.0


From 436524ddec77dbe15d53f412b6d4fed6909cba2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:46 +0000
Subject: [PATCH 11/21] fix: evicting a program keeps the callers waiting for
 its compilation

A key that became resident from the artifact store while a compilation of it was
in progress lost its waiting callers, who got an error, when it was evicted.
---
 crates/revmc-runtime/src/runtime/backend.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 413d444..0379231 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -492,6 +492,14 @@ impl BackendState {
         self.resident_meta.insert(key, ResidentMeta { last_hit_at: Instant::now() });
     }
 
+    /// Forgets the hotness of an evicted key. A compilation in progress keeps its entry and with it
+    /// the callers that wait for it: the key may have become resident from the artifact store.
+    fn remove_cold_entry(&mut self, key: &RuntimeCacheKey) {
+        if self.entries.get(key).is_some_and(|entry| entry.phase == EntryPhase::Cold) {
+            self.entries.remove(key);
+        }
+    }
+
     fn remove_resident(&mut self, key: &RuntimeCacheKey) {
         self.inner.resident.remove(key);
         self.resident_meta.remove(key);
@@ -756,7 +764,7 @@ impl BackendState {
                     "evicting idle entry",
                 );
                 self.remove_resident(key);
-                self.entries.remove(key);
+                self.remove_cold_entry(key);
                 self.inner.stats.evictions.fetch_add(1, Ordering::Relaxed);
             }
         }
@@ -796,7 +804,7 @@ impl BackendState {
                     "evicting entry to stay within memory budget",
                 );
                 self.remove_resident(&key);
-                self.entries.remove(&key);
+                self.remove_cold_entry(&key);
                 self.inner.stats.evictions.fetch_add(1, Ordering::Relaxed);
             }
         }
-- 
2.43.0


From a1a9a677b382212e8047052a1a67c68fd6285f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:07 +0000
Subject: [PATCH 12/21] fix: a failed start leaves the runtime disabled and can
 be retried

Failing to spawn the backend thread lost the state needed for another attempt,
and the runtime reported itself as enabled although it was not running.
---
 crates/revmc-runtime/src/runtime/mod.rs | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/mod.rs b/crates/revmc-runtime/src/runtime/mod.rs
index b76dc9b..48d18b8 100644
--- a/crates/revmc-runtime/src/runtime/mod.rs
+++ b/crates/revmc-runtime/src/runtime/mod.rs
@@ -428,10 +428,10 @@ impl JitBackend {
     /// lazily starts it using the config provided at construction time.
     pub fn set_enabled(&self, enabled: bool) -> eyre::Result<()> {
         debug!(enabled, "set_enabled");
-        self.inner.enabled.store(enabled, Ordering::Relaxed);
         if enabled {
             self.ensure_started()?;
         }
+        self.inner.enabled.store(enabled, Ordering::Relaxed);
         Ok(())
     }
 
@@ -443,12 +443,11 @@ impl JitBackend {
     /// Spawns the backend thread if it hasn't been started yet.
     fn ensure_started(&self) -> eyre::Result<()> {
         let mut guard = self.inner.lazy_spawn.lock().unwrap();
-        let Some(lazy) = guard.take() else {
+        // Only taken once everything has succeeded, so that a failed attempt can be retried.
+        let Some(LazySpawnState { rx, config }) = &*guard else {
             return Ok(());
         };
 
-        let LazySpawnState { rx, config } = lazy;
-
         debug!(
             blocking = self.inner.blocking,
             workers = config.tuning.jit_worker_count,
@@ -459,23 +458,13 @@ impl JitBackend {
         );
 
         // Preload AOT artifacts into the already-allocated resident map.
-        match Self::preload_aot(config.store.as_deref()) {
-            Ok(entries) => {
-                for (key, prog) in entries {
-                    self.inner.shared.resident.insert(key, prog);
-                }
-            }
-            Err(e) => {
-                // Restore lazy_spawn so a subsequent attempt can retry.
-                *guard = Some(LazySpawnState { rx, config });
-                return Err(e);
-            }
+        for (key, prog) in Self::preload_aot(config.store.as_deref())? {
+            self.inner.shared.resident.insert(key, prog);
         }
 
-        drop(guard);
-
         let (done_tx, done_rx) = chan::bounded::<()>(1);
         let shared = Arc::clone(&self.inner.shared);
+        let (rx, config) = (rx.clone(), config.clone());
 
         let thread = std::thread::Builder::new()
             .name(config.thread_name.clone())
@@ -487,6 +476,7 @@ impl JitBackend {
 
         *self.inner.thread.lock().unwrap() = Some(BackendThread { handle: thread, done_rx });
         self.inner.started.store(true, Ordering::Relaxed);
+        *guard = None;
         Ok(())
     }
 
-- 
2.43.0


From b2b9ee21e5e3c79e82a99cd19dc773f07394b34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:52 +0000
Subject: [PATCH 13/21] fix: failing to spawn the compile workers is a start-up
 error

It panicked on the backend thread, leaving a runtime that claims to be running
but never compiles anything.
---
 crates/revmc-runtime/src/runtime/backend.rs |  6 ++---
 crates/revmc-runtime/src/runtime/mod.rs     |  6 +++--
 crates/revmc-runtime/src/runtime/worker.rs  | 25 ++++++++++++---------
 3 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 0379231..69ccba2 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -827,13 +827,11 @@ pub(crate) fn run(
     inner: Arc<super::BackendShared>,
     cmd_rx: chan::Receiver<Command>,
     config: RuntimeConfig,
+    workers: WorkerPool,
+    result_rx: chan::Receiver<WorkerResult>,
 ) {
     debug!("backend thread started");
 
-    let (result_tx, result_rx) = chan::unbounded::<WorkerResult>();
-
-    let workers = WorkerPool::new(result_tx, config.clone(), Arc::clone(&inner.stats));
-
     let sweep_interval = config.tuning.eviction_sweep_interval;
     let event_drain_interval = config.tuning.event_drain_interval;
 
diff --git a/crates/revmc-runtime/src/runtime/mod.rs b/crates/revmc-runtime/src/runtime/mod.rs
index 48d18b8..3a85148 100644
--- a/crates/revmc-runtime/src/runtime/mod.rs
+++ b/crates/revmc-runtime/src/runtime/mod.rs
@@ -23,7 +23,7 @@ use std::{
     },
     time::Duration,
 };
-use worker::SyncNotifier;
+use worker::{SyncNotifier, WorkerPool};
 
 mod api;
 pub use api::{
@@ -465,11 +465,13 @@ impl JitBackend {
         let (done_tx, done_rx) = chan::bounded::<()>(1);
         let shared = Arc::clone(&self.inner.shared);
         let (rx, config) = (rx.clone(), config.clone());
+        let (result_tx, result_rx) = chan::unbounded();
+        let workers = WorkerPool::new(result_tx, config.clone(), Arc::clone(&shared.stats))?;
 
         let thread = std::thread::Builder::new()
             .name(config.thread_name.clone())
             .spawn(move || {
-                backend::run(shared, rx, config);
+                backend::run(shared, rx, config, workers, result_rx);
                 let _ = done_tx.send(());
             })
             .wrap_err("failed to spawn backend thread")?;
diff --git a/crates/revmc-runtime/src/runtime/worker.rs b/crates/revmc-runtime/src/runtime/worker.rs
index ad4e958..3ad9346 100644
--- a/crates/revmc-runtime/src/runtime/worker.rs
+++ b/crates/revmc-runtime/src/runtime/worker.rs
@@ -11,6 +11,7 @@
 
 use crate::{
     CompileTimings, EvmCompilerFn, OptimizationLevel,
+    eyre::{self, WrapErr},
     runtime::{
         config::{CompilationKind, RuntimeConfig},
         stats::RuntimeStats,
@@ -205,20 +206,22 @@ impl WorkerPool {
         result_tx: chan::Sender<WorkerResult>,
         config: RuntimeConfig,
         stats: Arc<RuntimeStats>,
-    ) -> Self {
+    ) -> eyre::Result<Self> {
         let worker_count = config.tuning.jit_worker_count;
         let queue_capacity = worker_count.saturating_mul(config.tuning.jit_worker_queue_capacity);
         let out_of_process_helper = create_out_of_process_helper(&config, stats);
-        let pool = (worker_count > 0).then(|| {
-            ThreadPoolBuilder::new()
-                .num_threads(worker_count)
-                .thread_name(|i| format!("revmc-{i:02}"))
-                .exit_handler(|_| clear_thread_local_compilers())
-                .build()
-                .expect("failed to spawn compile workers")
-        });
+        let pool = (worker_count > 0)
+            .then(|| {
+                ThreadPoolBuilder::new()
+                    .num_threads(worker_count)
+                    .thread_name(|i| format!("revmc-{i:02}"))
+                    .exit_handler(|_| clear_thread_local_compilers())
+                    .build()
+            })
+            .transpose()
+            .wrap_err("failed to spawn compile workers")?;
 
-        Self {
+        Ok(Self {
             pool,
             out_of_process_helper,
             result_tx,
@@ -226,7 +229,7 @@ impl WorkerPool {
             queued: Arc::new(AtomicUsize::new(0)),
             queue_capacity,
             shutdown: Arc::new(AtomicBool::new(false)),
-        }
+        })
     }
 
     /// Tries to send a job to the worker pool.
-- 
2.43.0


From 6562394a63ce58a494d2e62e342ab2e5618a6185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:16 +0000
Subject: [PATCH 14/21] fix: requests to a runtime that is not running never
 block

Clears of a runtime that was never started, and compile requests to one whose
start fails, filled the command channel that nobody drains and then blocked the
caller for good.
---
 crates/revmc-runtime/src/runtime/mod.rs | 26 ++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/mod.rs b/crates/revmc-runtime/src/runtime/mod.rs
index 3a85148..8345f16 100644
--- a/crates/revmc-runtime/src/runtime/mod.rs
+++ b/crates/revmc-runtime/src/runtime/mod.rs
@@ -288,7 +288,10 @@ impl JitBackend {
     ///
     /// Blocks if the command channel is full to guarantee delivery.
     pub fn compile_jit(&self, req: LookupRequest) {
-        let _ = self.ensure_started();
+        if let Err(err) = self.ensure_started() {
+            warn!(%err, "failed to start JIT backend, dropping request");
+            return;
+        }
         let cmd = Command::CompileJit(CompileJitRequest {
             key: req.key,
             bytecode: req.code,
@@ -327,7 +330,10 @@ impl JitBackend {
     ///
     /// Blocks if the command channel is full to guarantee delivery.
     pub fn prepare_aot_batch(&self, reqs: Vec<AotRequest>) {
-        let _ = self.ensure_started();
+        if let Err(err) = self.ensure_started() {
+            warn!(%err, "failed to start JIT backend, dropping request");
+            return;
+        }
         let owned: Vec<PrepareAotRequest> = reqs
             .into_iter()
             .map(|r| PrepareAotRequest {
@@ -344,17 +350,27 @@ impl JitBackend {
     /// All compiled programs are removed from the map. Active references
     /// held by callers remain valid until dropped.
     pub fn clear_resident(&self) {
-        let _ = self.inner.tx.send(Command::ClearResident);
+        self.send_clear(Command::ClearResident);
     }
 
     /// Clears persisted artifacts from the artifact store.
     pub fn clear_persisted(&self) {
-        let _ = self.inner.tx.send(Command::ClearPersisted);
+        self.send_clear(Command::ClearPersisted);
     }
 
     /// Clears both the resident map and persisted artifacts.
     pub fn clear_all(&self) {
-        let _ = self.inner.tx.send(Command::ClearAll);
+        self.send_clear(Command::ClearAll);
+    }
+
+    /// Blocks if the command channel is full, unless nothing drains it because the backend thread
+    /// has not been started.
+    fn send_clear(&self, cmd: Command) {
+        if self.inner.started.load(Ordering::Relaxed) {
+            let _ = self.inner.tx.send(cmd);
+        } else if self.inner.tx.try_send(cmd).is_err() {
+            self.inner.shared.stats.commands_dropped.fetch_add(1, Ordering::Relaxed);
+        }
     }
 
     /// Returns whether the runtime is enabled.
-- 
2.43.0


From a414f02c2dc3b913e478db762ea7224b8048e981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:46 +0000
Subject: [PATCH 15/21] fix: do not send jobs to a JIT helper that is already
 gone

A helper that died or sent garbage while idle was only noticed by the next
job, which failed although that helper never held it.
---
 crates/revmc-runtime/src/runtime/out_of_process.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index 7535bb1..a13d4d3 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -143,7 +143,10 @@ impl HelperProcess {
             if self.closed.load(Ordering::Relaxed) {
                 return Err("JIT helper is shut down".into());
             }
-            if slot.as_ref().is_none_or(|helper| !helper.matches_config(config)) {
+            if slot
+                .as_ref()
+                .is_none_or(|helper| helper.is_disconnected() || !helper.matches_config(config))
+            {
                 let restarting = slot.is_some();
                 debug!("spawning JIT helper");
                 match HelperProcessInner::spawn(config, self.stats.clone(), self.paused.clone()) {
@@ -314,6 +317,11 @@ impl HelperProcessInner {
         })
     }
 
+    /// Whether the helper exited or sent something malformed: it cannot answer anymore.
+    fn is_disconnected(&self) -> bool {
+        self.reader.lock().unwrap().as_ref().is_none_or(|reader| reader.is_finished())
+    }
+
     fn matches_config(&self, config: &RuntimeConfig) -> bool {
         if self.init != helper_init(config) {
             return false;
-- 
2.43.0


From dca7ef0b339beda57a451b2bb5687c21ae87b164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:42 +0000
Subject: [PATCH 16/21] fix: apply pauses and resumes in the order of the pause
 depth

Two threads could queue Pause and Resume in another order than they changed
the depth, leaving the helper running during a pause or stopped without one.
---
 crates/revmc-runtime/src/runtime/backend.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 69ccba2..9c774c3 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -234,13 +234,22 @@ impl BackendState {
             Command::ClearResident => self.handle_clear_resident(),
             Command::ClearPersisted => self.handle_clear_persisted(),
             Command::ClearAll => self.handle_clear_all(),
-            Command::Pause => self.workers.pause(),
-            Command::Resume => self.workers.resume(),
+            Command::Pause | Command::Resume => self.sync_paused(),
             Command::Shutdown => return ControlFlow::Break(()),
         }
         ControlFlow::Continue(())
     }
 
+    /// Pauses or resumes the workers according to the current pause depth: concurrent calls may
+    /// queue their commands in another order than they changed the depth.
+    fn sync_paused(&self) {
+        if self.inner.pause_depth.load(Ordering::Relaxed) != 0 {
+            self.workers.pause();
+        } else {
+            self.workers.resume();
+        }
+    }
+
     fn tick(&mut self) {
         self.drain_events();
         self.run_eviction_sweep();
-- 
2.43.0


From 5f83d1d979ab69ead51e2cb78a53c28737d99598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:12 +0000
Subject: [PATCH 17/21] fix: treat DUPN, SWAPN and EXCHANGE with an invalid
 immediate as the end of a block

The analysis stops at such an instruction, so what followed it in the same block had no
snapshots, and translating a PUSH there panicked.
---
 crates/revmc-codegen/src/bytecode/mod.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 114d16f..10ad129 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -1153,12 +1153,23 @@ impl InstData {
         (self.opcode == op::JUMP && self.flags.contains(InstFlags::INVALID_JUMP))
             || self.flags.contains(InstFlags::DISABLED)
             || self.flags.contains(InstFlags::UNKNOWN)
+            || self.is_invalid_immediate()
             || matches!(
                 self.opcode,
                 op::STOP | op::RETURN | op::REVERT | op::INVALID | op::SELFDESTRUCT
             )
     }
 
+    /// Returns `true` if this instruction always fails because of its immediate.
+    #[inline]
+    fn is_invalid_immediate(&self) -> bool {
+        match self.opcode {
+            op::DUPN | op::SWAPN => crate::decode_single(self.imm_byte()).is_none(),
+            op::EXCHANGE => crate::decode_pair(self.imm_byte()).is_none(),
+            _ => false,
+        }
+    }
+
     /// Returns `true` if this instruction may suspend execution.
     #[inline]
     pub(crate) const fn may_suspend(&self) -> bool {
-- 
2.43.0


From ef6091fc3d7bc4a2d12e682d5a813172fb82f958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:49:53 +0000
Subject: [PATCH 18/21] fix: a PUSH in the immediate of DUPN, SWAPN or EXCHANGE
 masks the bytes after it

JUMPDEST analysis is unchanged by EIP-8024, so in e7 60 5b the 5b is not a jump target. All
PUSH bytes are invalid immediates, so the instruction itself fails in any case.
---
 crates/revmc-codegen/src/bytecode/mod.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 10ad129..cb36c31 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -304,12 +304,13 @@ impl<'a> Bytecode<'a> {
 
             // EIP-8024: JUMPDEST analysis is unchanged by DUPN/SWAPN/EXCHANGE. Their
             // immediate byte is NOT masked, so 0x5b in that position is a valid jump
-            // target. When the immediate is 0x5b, rewind the iterator so it is re-yielded
-            // and processed as a normal JUMPDEST by the loop.
+            // target, and a PUSH in that position masks its own immediate. When the immediate
+            // is either of them (neither is a valid one), rewind the iterator so it is
+            // re-yielded and processed as a normal instruction by the loop.
             if matches!(opcode, op::DUPN | op::SWAPN | op::EXCHANGE)
                 && !info.is_unknown()
                 && !info.is_disabled()
-                && immediate == Some(&[op::JUMPDEST])
+                && matches!(immediate, Some(&[op::JUMPDEST | op::PUSH1..=op::PUSH32]))
             {
                 // SAFETY: we just consumed the 1-byte immediate.
                 unsafe { iter.rewind(1) };
-- 
2.43.0


From 3c1b7a1ba5089e573ed2ee0d06e658214155acac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:54 +0000
Subject: [PATCH 19/21] fix: a JIT helper that does not read its input no
 longer blocks the runtime

A job that does not fit the input pipe of a hung helper was written under no timeout, and a
resume then blocked the backend thread behind it. Requests are written by a thread of their own.
---
 .../src/runtime/out_of_process.rs             | 103 +++++++++++-------
 1 file changed, 61 insertions(+), 42 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index a13d4d3..2772722 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -24,7 +24,7 @@ use std::{
     ops::ControlFlow,
     os::unix::process::CommandExt,
     path::PathBuf,
-    process::{Child, ChildStdin, Command, Stdio},
+    process::{Child, Command, Stdio},
     sync::{
         Arc, Condvar, Mutex,
         atomic::{AtomicBool, AtomicU64, Ordering},
@@ -87,10 +87,6 @@ struct HelperJobResult {
     timings: CompileTimings,
 }
 
-struct HelperIo {
-    stdin: BufWriter<ChildStdin>,
-}
-
 pub(super) struct HelperProcess {
     inner: Mutex<Option<Arc<HelperProcessInner>>>,
     paused: Arc<PauseClock>,
@@ -220,7 +216,9 @@ struct HelperProcessInner {
     path: PathBuf,
     init: HelperInit,
     child: Mutex<Child>,
-    io: Mutex<HelperIo>,
+    /// Requests are written by a thread of their own: a helper that does not read blocks only it.
+    requests: Option<chan::Sender<Vec<u8>>>,
+    writer: Option<JoinHandle<()>>,
     pending: PendingResponses,
     pending_pauses: PendingPauses,
     reader: Mutex<Option<JoinHandle<()>>>,
@@ -262,6 +260,20 @@ impl HelperProcessInner {
         let stdout = child.stdout.take().ok_or("helper stdout unavailable")?;
         let pending = PendingResponses::default();
         let pending_pauses = PendingPauses::default();
+        let (requests, writer_requests) = chan::unbounded::<Vec<u8>>();
+        let writer_pending = pending.clone();
+        let writer_pending_pauses = pending_pauses.clone();
+        let writer = std::thread::Builder::new().spawn(move || {
+            while let Ok(request) = writer_requests.recv() {
+                if let Err(e) = stdin.write_all(&request).and_then(|()| stdin.flush()) {
+                    // Nothing can be sent anymore before what was sent already is failed.
+                    drop(writer_requests);
+                    let error = format!("failed to write helper request: {e}");
+                    fail_pending(&writer_pending, &writer_pending_pauses, &error);
+                    break;
+                }
+            }
+        });
         let reader_pending = pending.clone();
         let reader_pending_pauses = pending_pauses.clone();
         let reader_stats = stats.clone();
@@ -282,30 +294,26 @@ impl HelperProcessInner {
                     }
                     Err(error) => {
                         reader_stats.jit_helper_disconnects.fetch_add(1, Ordering::Relaxed);
-                        for (_, tx) in reader_pending.lock().unwrap().drain() {
-                            let _ = tx.send(Err(error.clone()));
-                        }
-                        for (_, tx) in reader_pending_pauses.lock().unwrap().drain() {
-                            let _ = tx.send(Err(error.clone()));
-                        }
+                        fail_pending(&reader_pending, &reader_pending_pauses, &error);
                         break;
                     }
                 }
             }
         });
-        let reader = match reader {
-            Ok(reader) => reader,
+        let (writer, reader) = match writer.and_then(|writer| Ok((writer, reader?))) {
+            Ok(threads) => threads,
             Err(e) => {
                 kill_helper(&mut child);
                 let _ = child.wait();
-                return Err(format!("failed to spawn JIT helper reader: {e}"));
+                return Err(format!("failed to spawn JIT helper I/O threads: {e}"));
             }
         };
         Ok(Self {
             path,
             init,
             child: Mutex::new(child),
-            io: Mutex::new(HelperIo { stdin }),
+            requests: Some(requests),
+            writer: Some(writer),
             pending,
             pending_pauses,
             reader: Mutex::new(Some(reader)),
@@ -337,16 +345,9 @@ impl HelperProcessInner {
         let (tx, rx) = chan::bounded(1);
         self.pending.lock().unwrap().insert(id, tx);
 
-        {
-            let mut io = self.io.lock().unwrap();
-            if let Err(e) = write_job(&mut io.stdin, id, job) {
-                self.pending.lock().unwrap().remove(&id);
-                return Err(format!("failed to write helper job: {e}"));
-            }
-            if let Err(e) = io.stdin.flush() {
-                self.pending.lock().unwrap().remove(&id);
-                return Err(format!("failed to flush helper job: {e}"));
-            }
+        if let Err(e) = self.send(|w| write_job(w, id, job)) {
+            self.pending.lock().unwrap().remove(&id);
+            return Err(format!("failed to send helper job: {e}"));
         }
 
         let timeout = config.tuning.jit_timeout;
@@ -389,6 +390,19 @@ impl HelperProcessInner {
         }
     }
 
+    /// Queues a request; fails if the helper does not take requests anymore.
+    fn send(
+        &self,
+        write: impl FnOnce(&mut BufWriter<Vec<u8>>) -> std::io::Result<()>,
+    ) -> std::io::Result<()> {
+        let mut request = BufWriter::new(Vec::new());
+        write(&mut request)?;
+        self.requests
+            .as_ref()
+            .and_then(|requests| requests.send(request.into_inner().ok()?).ok())
+            .ok_or_else(|| std::io::ErrorKind::BrokenPipe.into())
+    }
+
     fn kill(&self) -> bool {
         let mut child = self.child.lock().unwrap();
         if matches!(child.try_wait(), Ok(Some(_))) {
@@ -409,8 +423,7 @@ impl HelperProcessInner {
     }
 
     fn pause(&self) {
-        // A helper that is already stopped cannot acknowledge another request, and a job write that
-        // fills its input pipe holds `io` until it is resumed.
+        // A helper that is already stopped cannot acknowledge another request.
         if self.stopped.swap(true, Ordering::Relaxed) {
             return;
         }
@@ -419,13 +432,7 @@ impl HelperProcessInner {
         let (tx, rx) = chan::bounded(1);
         self.pending_pauses.lock().unwrap().insert(id, tx);
 
-        // Do not wait for a job write in progress: it may be blocked on a helper that does not read.
-        let send_result = match self.io.try_lock() {
-            Ok(mut io) => write_pause(&mut io.stdin, id).and_then(|()| io.stdin.flush()),
-            Err(_) => Err(std::io::ErrorKind::WouldBlock.into()),
-        };
-
-        if let Err(err) = send_result {
+        if let Err(err) = self.send(|w| write_pause(w, id)) {
             self.pending_pauses.lock().unwrap().remove(&id);
             self.stats.jit_helper_pause_failures.fetch_add(1, Ordering::Relaxed);
             warn!(%err, "failed to request graceful JIT helper pause");
@@ -456,11 +463,7 @@ impl HelperProcessInner {
     fn resume(&self) {
         self.stopped.store(false, Ordering::Relaxed);
         self.signal(libc::SIGCONT, "resume");
-        let send_result = {
-            let mut io = self.io.lock().unwrap();
-            write_resume(&mut io.stdin).and_then(|()| io.stdin.flush())
-        };
-        if let Err(err) = send_result {
+        if let Err(err) = self.send(write_resume) {
             self.stats.jit_helper_resume_failures.fetch_add(1, Ordering::Relaxed);
             warn!(%err, "failed to request JIT helper resume");
         }
@@ -478,12 +481,28 @@ impl HelperProcessInner {
 impl Drop for HelperProcessInner {
     fn drop(&mut self) {
         let exited = self.kill();
-        if exited && let Some(reader) = self.reader.lock().unwrap().take() {
-            let _ = reader.join();
+        self.requests = None;
+        if exited {
+            if let Some(writer) = self.writer.take() {
+                let _ = writer.join();
+            }
+            if let Some(reader) = self.reader.lock().unwrap().take() {
+                let _ = reader.join();
+            }
         }
     }
 }
 
+/// Fails everything that waits for an answer of the helper.
+fn fail_pending(pending: &PendingResponses, pending_pauses: &PendingPauses, error: &str) {
+    for (_, tx) in pending.lock().unwrap().drain() {
+        let _ = tx.send(Err(error.to_string()));
+    }
+    for (_, tx) in pending_pauses.lock().unwrap().drain() {
+        let _ = tx.send(Err(error.to_string()));
+    }
+}
+
 fn apply_helper_limits(command: &mut Command, config: &RuntimeConfig) {
     let memory_limit = config.tuning.jit_helper_memory_limit_bytes;
     let cpu_count = config.tuning.jit_helper_cpu_count;
-- 
2.43.0


From f2e05bfc1ecc85f94a8a1178856e3486dc5fcc7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:19 +0000
Subject: [PATCH 20/21] fix: contracts seen now and then no longer keep newly
 hot ones from being compiled

Cold entries are only forgotten by the idle sweep, which is off by default. Once their number
reached the limit, no other contract was admitted by observation any more.
---
 crates/revmc-runtime/src/runtime/backend.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 9c774c3..a429a90 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -323,7 +323,10 @@ impl BackendState {
         if matches!(mode, AdmitMode::Observed) {
             let max_entries = self.tuning.jit_max_pending_jobs * 10;
             if !self.entries.contains_key(&key) && self.entries.len() >= max_entries {
-                return;
+                self.cool_entries();
+                if self.entries.len() >= max_entries {
+                    return;
+                }
             }
         }
 
@@ -509,6 +512,15 @@ impl BackendState {
         }
     }
 
+    /// Halves the hotness of all cold entries and forgets those that have none left, so that
+    /// contracts seen only now and then do not keep out newly hot ones for ever.
+    fn cool_entries(&mut self) {
+        self.entries.retain(|_, entry| {
+            entry.hotness /= 2;
+            entry.hotness > 0 || entry.phase == EntryPhase::Working
+        });
+    }
+
     fn remove_resident(&mut self, key: &RuntimeCacheKey) {
         self.inner.resident.remove(key);
         self.resident_meta.remove(key);
-- 
2.43.0


From fab705fd201258e01ffe2774c44aba701b14a5bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:06 +0000
Subject: [PATCH 21/21] fix: blocks that differ in a push and the opcode after
 it are no longer merged

Zero bytes were stripped from the immediate in a block's fingerprint, so that PUSH3 0x800000 looked
like PUSH3 0x000000 DUP1.
---
 crates/revmc-codegen/src/bytecode/passes/dedup.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/dedup.rs b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
index ac0d70d..22974f5 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dedup.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
@@ -203,11 +203,9 @@ fn block_fingerprint(insts: &IndexVec<Inst, InstData>, block: &BlockData) -> Sma
         let data = &insts[i];
         buf.push(data.opcode);
         if data.imm_len() > 0 {
-            let mut imm = &data.data.to_ne_bytes()[..];
-            while let [0, rest @ ..] = imm {
-                imm = rest;
-            }
-            buf.extend_from_slice(imm);
+            // In full: with a variable length, an immediate followed by an opcode could look like
+            // another immediate.
+            buf.extend_from_slice(&data.data.to_ne_bytes());
         }
     }
     buf
-- 
2.43.0

