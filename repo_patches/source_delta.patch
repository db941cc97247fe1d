From f56782c04a16eee47e4ed2dc4001871293160054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:54 +0000
Subject: [PATCH 01/12] fix: use the actual memory operands of LOG1..LOG4 in
 memory section analysis

The data offset and length of every LOGn are the two topmost stack items; the
topics come after them. Reading them at depth n made the analysis treat topics
as memory sizes, so a later access could skip memory expansion and touch memory
out of bounds.
---
 crates/revmc-codegen/src/bytecode/mod.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/mod.rs b/crates/revmc-codegen/src/bytecode/mod.rs
index 2b8c5e8..114d16f 100644
--- a/crates/revmc-codegen/src/bytecode/mod.rs
+++ b/crates/revmc-codegen/src/bytecode/mod.rs
@@ -710,7 +710,7 @@ impl<'a> Bytecode<'a> {
         let operand =
             |depth| self.const_operand(inst, depth).and_then(|value| u64::try_from(value).ok());
         match data.opcode {
-            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0 => {
+            op::KECCAK256 | op::RETURN | op::REVERT | op::LOG0..=op::LOG4 => {
                 [Some((operand(0), operand(1))), None]
             }
             op::MLOAD | op::MSTORE => [Some((operand(0), Some(32))), None],
@@ -723,10 +723,6 @@ impl<'a> Bytecode<'a> {
                 Some((operand(0).zip(operand(1)).map(|(dst, src)| dst.max(src)), operand(2))),
                 None,
             ],
-            op::LOG1 => [Some((operand(1), operand(2))), None],
-            op::LOG2 => [Some((operand(2), operand(3))), None],
-            op::LOG3 => [Some((operand(3), operand(4))), None],
-            op::LOG4 => [Some((operand(4), operand(5))), None],
             op::CREATE | op::CREATE2 => [Some((operand(1), operand(2))), None],
             op::CALL | op::CALLCODE => {
                 [Some((operand(3), operand(4))), Some((operand(5), operand(6)))]
-- 
2.43.0


From f41685a7357bc9b2a2e83e1615c9de531b22d378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:59 +0000
Subject: [PATCH 02/12] fix: encode immediates with fixed width in block
 deduplication fingerprints

Stripping zero bytes made e.g. PUSH4 0 indistinguishable from a PUSH4 of the
first interned constant followed by DUP1, so different blocks were merged.
---
 crates/revmc-codegen/src/bytecode/passes/dedup.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/dedup.rs b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
index ac0d70d..bd314a9 100644
--- a/crates/revmc-codegen/src/bytecode/passes/dedup.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/dedup.rs
@@ -203,11 +203,9 @@ fn block_fingerprint(insts: &IndexVec<Inst, InstData>, block: &BlockData) -> Sma
         let data = &insts[i];
         buf.push(data.opcode);
         if data.imm_len() > 0 {
-            let mut imm = &data.data.to_ne_bytes()[..];
-            while let [0, rest @ ..] = imm {
-                imm = rest;
-            }
-            buf.extend_from_slice(imm);
+            // Fixed width: a variable-length immediate is indistinguishable from the opcodes that
+            // follow it.
+            buf.extend_from_slice(&data.data.to_ne_bytes());
         }
     }
     buf
-- 
2.43.0


From 81771cbab94b8ab69deae6ec71b2fb5cbab9bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:03:03 +0000
Subject: [PATCH 03/12] fix: treat stack values below the analysis depth limit
 as unknown

Abstract states are cut off at MAX_ABS_STACK_DEPTH, but a block reading below
the cut was considered to underflow and its successors unreachable from it, so
jumps there were resolved without its contribution.
---
 .../revmc-codegen/src/bytecode/passes/block_analysis.rs  | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index cb8afa3..baebdc3 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -1015,6 +1015,15 @@ impl Bytecode<'_> {
             };
 
             let block = &self.cfg.blocks[bid];
+            // A state at the depth limit may have been cut off: the values below it are unknown, not
+            // absent. Extend it so that the block cannot appear to underflow, and so that its exit
+            // state stays at the limit.
+            if stack_buf.len() == MAX_ABS_STACK_DEPTH {
+                let section =
+                    StackSection::from_stack_io(block.insts().map(|i| self.insts[i].stack_io()));
+                stack_buf
+                    .splice(0..0, std::iter::repeat_n(AbsValue::Top, section.inputs as usize));
+            }
             if !self.interpret_block(block.insts(), &mut stack_buf) {
                 continue;
             }
-- 
2.43.0


From 775105d3e8024341f80091ea66c27cff6b3165e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:43:14 +0000
Subject: [PATCH 04/12] fix: do not count discarded compilations as pending
 jobs

---
 crates/revmc-runtime/src/runtime/backend.rs | 1 +
 crates/revmc-runtime/src/runtime/stats.rs   | 6 +++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index b827df4..6d016ed 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -516,6 +516,7 @@ impl BackendState {
                 current_gen = self.generation,
                 "discarding stale worker result",
             );
+            self.inner.stats.compilations_discarded.fetch_add(1, Ordering::Relaxed);
             self.entries.remove(&result.key);
             notify();
             return;
diff --git a/crates/revmc-runtime/src/runtime/stats.rs b/crates/revmc-runtime/src/runtime/stats.rs
index 89de1d4..dff714b 100644
--- a/crates/revmc-runtime/src/runtime/stats.rs
+++ b/crates/revmc-runtime/src/runtime/stats.rs
@@ -21,6 +21,8 @@ pub(crate) struct RuntimeStats {
     pub(crate) compilations_succeeded: AtomicU64,
     /// Total number of failed compilations (JIT + AOT).
     pub(crate) compilations_failed: AtomicU64,
+    /// Total number of compilations whose result was discarded because of a clear.
+    pub(crate) compilations_discarded: AtomicU64,
     /// Total number of out-of-process JIT helper processes spawned successfully.
     pub(crate) jit_helper_spawns: AtomicU64,
     /// Total number of failed out-of-process JIT helper spawn attempts.
@@ -136,7 +138,9 @@ impl RuntimeStats {
         let dispatched = self.compilations_dispatched.load(Ordering::Relaxed);
         let succeeded = self.compilations_succeeded.load(Ordering::Relaxed);
         let failed = self.compilations_failed.load(Ordering::Relaxed);
-        let pending_jobs = dispatched.saturating_sub(succeeded.saturating_add(failed));
+        let discarded = self.compilations_discarded.load(Ordering::Relaxed);
+        let pending_jobs =
+            dispatched.saturating_sub(succeeded.saturating_add(failed).saturating_add(discarded));
 
         RuntimeStatsSnapshot {
             lookup_hits: self.lookup_hits.load(Ordering::Relaxed),
-- 
2.43.0


From aaf531cf4f0ec395e27a24cdf3bc15d12c3ebed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:14 +0000
Subject: [PATCH 05/12] fix: leave newer requests alone when discarding a stale
 compilation result

---
 crates/revmc-runtime/src/runtime/backend.rs | 28 ++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/backend.rs b/crates/revmc-runtime/src/runtime/backend.rs
index 6d016ed..aed61b3 100644
--- a/crates/revmc-runtime/src/runtime/backend.rs
+++ b/crates/revmc-runtime/src/runtime/backend.rs
@@ -494,6 +494,20 @@ impl BackendState {
     fn handle_worker_result(&mut self, result: WorkerResult) {
         self.pending_jobs = self.pending_jobs.saturating_sub(1);
 
+        // Discard stale results from a previous generation (e.g. after clear). A current entry for
+        // the key belongs to a newer request, whose own result is still to come.
+        if result.generation != self.generation {
+            debug!(
+                code_hash = %result.key.code_hash,
+                result_gen = result.generation,
+                current_gen = self.generation,
+                "discarding stale worker result",
+            );
+            self.inner.stats.compilations_discarded.fetch_add(1, Ordering::Relaxed);
+            result.sync_notifier.notify();
+            return;
+        }
+
         // Drain pending notifiers from the entry before processing.
         let pending_notifiers = self
             .entries
@@ -508,20 +522,6 @@ impl BackendState {
             }
         };
 
-        // Discard stale results from a previous generation (e.g. after clear).
-        if result.generation != self.generation {
-            debug!(
-                code_hash = %result.key.code_hash,
-                result_gen = result.generation,
-                current_gen = self.generation,
-                "discarding stale worker result",
-            );
-            self.inner.stats.compilations_discarded.fetch_add(1, Ordering::Relaxed);
-            self.entries.remove(&result.key);
-            notify();
-            return;
-        }
-
         let kind = result.kind;
         let success = result.outcome.is_ok();
 
-- 
2.43.0


From 84ef5bca04822b89ffaa72a13e492f80bbec7920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:56:40 +0000
Subject: [PATCH 06/12] fix: carry out clears directly while the backend thread
 is not started

---
 crates/revmc-runtime/src/runtime/mod.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/mod.rs b/crates/revmc-runtime/src/runtime/mod.rs
index d44e5b5..91465fd 100644
--- a/crates/revmc-runtime/src/runtime/mod.rs
+++ b/crates/revmc-runtime/src/runtime/mod.rs
@@ -344,17 +344,34 @@ impl JitBackend {
     /// All compiled programs are removed from the map. Active references
     /// held by callers remain valid until dropped.
     pub fn clear_resident(&self) {
-        let _ = self.inner.tx.send(Command::ClearResident);
+        self.send_clear(Command::ClearResident);
     }
 
     /// Clears persisted artifacts from the artifact store.
     pub fn clear_persisted(&self) {
-        let _ = self.inner.tx.send(Command::ClearPersisted);
+        self.send_clear(Command::ClearPersisted);
     }
 
     /// Clears both the resident map and persisted artifacts.
     pub fn clear_all(&self) {
-        let _ = self.inner.tx.send(Command::ClearAll);
+        self.send_clear(Command::ClearAll);
+    }
+
+    /// Sends a clear command to the backend thread.
+    ///
+    /// Before the backend thread has been started nothing drains the command channel, so the
+    /// command is carried out here: nothing is resident yet, only the store has to be cleared.
+    fn send_clear(&self, cmd: Command) {
+        if let Some(lazy) = &*self.inner.lazy_spawn.lock().unwrap() {
+            if !matches!(cmd, Command::ClearResident)
+                && let Some(store) = &lazy.config.store
+                && let Err(e) = store.clear()
+            {
+                warn!(error = %e, "failed to clear artifact store");
+            }
+            return;
+        }
+        let _ = self.inner.tx.send(cmd);
     }
 
     /// Returns whether the runtime is enabled.
-- 
2.43.0


From 2eb5bf21a22193c193fc3a5db599858344062cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:20:52 +0000
Subject: [PATCH 07/12] fix: encode every valid EXCHANGE pair

---
 crates/revmc-codegen/src/bytecode/opcode.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/opcode.rs b/crates/revmc-codegen/src/bytecode/opcode.rs
index 6237bc6..75d133e 100644
--- a/crates/revmc-codegen/src/bytecode/opcode.rs
+++ b/crates/revmc-codegen/src/bytecode/opcode.rs
@@ -258,12 +258,14 @@ pub fn encode_pair(n: u8, m: u8) -> Option<u8> {
     };
 
     // Case 1: q < r → n = q+1, m = r+1.
-    if n < m {
-        try_k(n - 1, m - 1)
-    } else {
-        // Case 2: q >= r → n = r+1, m = 29-q.
-        if let Some(q) = 29u8.checked_sub(m) { try_k(q, n - 1) } else { None }
+    if n < m
+        && let Some(x) = try_k(n - 1, m - 1)
+    {
+        return Some(x);
     }
+
+    // Case 2: q >= r → n = r+1, m = 29-q.
+    try_k(29u8.checked_sub(m)?, n - 1)
 }
 
 /// Returns a string representation of the given bytecode.
-- 
2.43.0


From ed75979081b37ddb60c3e3a7496fb40c774eb05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:34 +0000
Subject: [PATCH 08/12] fix: keep analysing a block after DUPN/SWAPN/EXCHANGE
 with an invalid immediate

The analysis gave up on the rest of the block, so pushes behind such an
instruction had no known output and the translator hit unreachable!()
(e.g. EIP-8024 code e6605f5ff3).
---
 .../revmc-codegen/src/bytecode/passes/block_analysis.rs  | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index baebdc3..283b898 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -1127,7 +1127,8 @@ impl Bytecode<'_> {
                                 stack.push(stack[stack.len() - n]);
                             }
                         }
-                        None => return false,
+                        // Invalid immediate: always fails at runtime and has no stack effect.
+                        None => {}
                     }
                 }
                 op::SWAPN => {
@@ -1146,7 +1147,8 @@ impl Bytecode<'_> {
                                 stack.swap(len - 1, len - 1 - n);
                             }
                         }
-                        None => return false,
+                        // Invalid immediate: always fails at runtime and has no stack effect.
+                        None => {}
                     }
                 }
                 op::EXCHANGE => {
@@ -1165,7 +1167,8 @@ impl Bytecode<'_> {
                                 stack.swap(len - 1 - n, len - 1 - m);
                             }
                         }
-                        None => return false,
+                        // Invalid immediate: always fails at runtime and has no stack effect.
+                        None => {}
                     }
                 }
                 _ => {
-- 
2.43.0


From 434b70d2e24b9609be0eb296db9f7e88d7ba7b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:12 +0000
Subject: [PATCH 09/12] fix: fail queued out-of-process jobs once the worker
 pool shuts down

Shutting the pool down killed the helper, but a job still queued behind it spawned
another one. If compilation was paused at that point, the new helper was stopped at
once and the worker waited for it for ever, so that neither the worker, the backend
thread nor the helper ended.
---
 .../src/runtime/out_of_process.rs             | 21 ++++++++++++++++++-
 crates/revmc-runtime/src/runtime/worker.rs    | 12 ++++++++++-
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index 25e8e2c..01c340a 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -94,17 +94,27 @@ struct HelperIo {
 pub(super) struct HelperProcess {
     inner: Mutex<Option<Arc<HelperProcessInner>>>,
     paused: Arc<AtomicBool>,
+    /// Set once the owning pool shuts down; no further helper is spawned.
+    closed: AtomicBool,
     stats: Arc<RuntimeStats>,
 }
 
 impl HelperProcess {
     pub(super) fn new(stats: Arc<RuntimeStats>) -> Self {
-        Self { inner: Mutex::new(None), paused: Arc::new(AtomicBool::new(false)), stats }
+        Self {
+            inner: Mutex::new(None),
+            paused: Arc::new(AtomicBool::new(false)),
+            closed: AtomicBool::new(false),
+            stats,
+        }
     }
 
     fn compile(&self, job: &CompileJob, config: &RuntimeConfig) -> Result<HelperJobResult, String> {
         let helper = {
             let mut slot = self.inner.lock().unwrap();
+            if self.closed.load(Ordering::Relaxed) {
+                return Err("JIT helper is shut down".into());
+            }
             if slot.as_ref().is_none_or(|helper| !helper.matches_config(config)) {
                 let restarting = slot.is_some();
                 debug!("spawning JIT helper");
@@ -148,6 +158,15 @@ impl HelperProcess {
         }
     }
 
+    /// Kills the helper and fails every job that has yet to reach it.
+    pub(super) fn shutdown(&self) {
+        let mut slot = self.inner.lock().unwrap();
+        self.closed.store(true, Ordering::Relaxed);
+        if let Some(helper) = slot.take() {
+            helper.kill();
+        }
+    }
+
     pub(super) fn pause(&self) {
         self.stats.jit_helper_pause_requests.fetch_add(1, Ordering::Relaxed);
         self.paused.store(true, Ordering::Relaxed);
diff --git a/crates/revmc-runtime/src/runtime/worker.rs b/crates/revmc-runtime/src/runtime/worker.rs
index afc3227..ad4e958 100644
--- a/crates/revmc-runtime/src/runtime/worker.rs
+++ b/crates/revmc-runtime/src/runtime/worker.rs
@@ -268,7 +268,7 @@ impl WorkerPool {
     /// Shuts down all workers after draining queued jobs.
     pub(crate) fn shutdown(&mut self) {
         self.shutdown.store(true, Ordering::Release);
-        self.cancel_in_flight();
+        shutdown_out_of_process_helper(&self.out_of_process_helper);
         if let Some(pool) = &self.pool {
             pool.broadcast(|_| clear_thread_local_compilers());
         }
@@ -323,6 +323,16 @@ fn cancel_out_of_process_helper(helper: &OutOfProcessHelper) {
 #[cfg(not(all(feature = "llvm", unix)))]
 fn cancel_out_of_process_helper(_helper: &OutOfProcessHelper) {}
 
+#[cfg(all(feature = "llvm", unix))]
+fn shutdown_out_of_process_helper(helper: &OutOfProcessHelper) {
+    if let Some(helper) = helper {
+        helper.shutdown();
+    }
+}
+
+#[cfg(not(all(feature = "llvm", unix)))]
+fn shutdown_out_of_process_helper(_helper: &OutOfProcessHelper) {}
+
 #[cfg(all(feature = "llvm", unix))]
 fn pause_out_of_process_helper(helper: &OutOfProcessHelper) {
     if let Some(helper) = helper {
-- 
2.43.0


From 10710935aa15ec214c67b076093d61dcc507983d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:41 +0000
Subject: [PATCH 10/12] fix: do not leave a JIT helper behind when it cannot be
 initialized

A helper that dies before it has read its configuration made the write fail, and the child handle was
dropped without killing or waiting for the process: every attempt left a zombie (or, if only the write
failed, a running process) for the life of the embedding process.
---
 .../src/runtime/out_of_process.rs             | 27 +++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/crates/revmc-runtime/src/runtime/out_of_process.rs b/crates/revmc-runtime/src/runtime/out_of_process.rs
index 01c340a..c82d95c 100644
--- a/crates/revmc-runtime/src/runtime/out_of_process.rs
+++ b/crates/revmc-runtime/src/runtime/out_of_process.rs
@@ -24,7 +24,7 @@ use std::{
     ops::ControlFlow,
     os::unix::process::CommandExt,
     path::PathBuf,
-    process::{Child, ChildStdin, Command, Stdio},
+    process::{Child, ChildStdin, ChildStdout, Command, Stdio},
     sync::{
         Arc, Condvar, Mutex,
         atomic::{AtomicBool, AtomicU64, Ordering},
@@ -220,10 +220,15 @@ impl HelperProcessInner {
         apply_helper_limits(&mut command, config);
 
         let mut child = command.spawn().map_err(|e| format!("failed to spawn JIT helper: {e}"))?;
-        let mut stdin = BufWriter::new(child.stdin.take().ok_or("helper stdin unavailable")?);
-        write_init(&mut stdin, &init).map_err(|e| format!("failed to write helper init: {e}"))?;
-        stdin.flush().map_err(|e| format!("failed to flush helper init: {e}"))?;
-        let stdout = child.stdout.take().ok_or("helper stdout unavailable")?;
+        let (stdin, stdout) = match init_helper(&mut child, &init) {
+            Ok(io) => io,
+            Err(err) => {
+                // Nobody else knows about this process yet: do not leave it behind.
+                kill_helper(&mut child);
+                let _ = child.wait_timeout(config.tuning.shutdown_timeout);
+                return Err(err);
+            }
+        };
         let pending = PendingResponses::default();
         let pending_pauses = PendingPauses::default();
         let reader_pending = pending.clone();
@@ -416,6 +421,18 @@ impl Drop for HelperProcessInner {
     }
 }
 
+/// Sends the configuration to a new helper and returns its standard input and output.
+fn init_helper(
+    child: &mut Child,
+    init: &HelperInit,
+) -> Result<(BufWriter<ChildStdin>, ChildStdout), String> {
+    let mut stdin = BufWriter::new(child.stdin.take().ok_or("helper stdin unavailable")?);
+    write_init(&mut stdin, init).map_err(|e| format!("failed to write helper init: {e}"))?;
+    stdin.flush().map_err(|e| format!("failed to flush helper init: {e}"))?;
+    let stdout = child.stdout.take().ok_or("helper stdout unavailable")?;
+    Ok((stdin, stdout))
+}
+
 fn apply_helper_limits(command: &mut Command, config: &RuntimeConfig) {
     let memory_limit = config.tuning.jit_helper_memory_limit_bytes;
     let cpu_count = config.tuning.jit_helper_cpu_count;
-- 
2.43.0


From 9d800a406e070c3096861fd5e2c64d35e4e4bfc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:05 +0000
Subject: [PATCH 11/12] fix: store the stack when a constant RETURN or REVERT
 ends the function and the stack is inspected

---
 crates/revmc-codegen/src/compiler/translate/peephole.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/crates/revmc-codegen/src/compiler/translate/peephole.rs b/crates/revmc-codegen/src/compiler/translate/peephole.rs
index a407dcb..8ee836e 100644
--- a/crates/revmc-codegen/src/compiler/translate/peephole.rs
+++ b/crates/revmc-codegen/src/compiler/translate/peephole.rs
@@ -328,6 +328,7 @@ impl<'a, B: Backend> FunctionCx<'a, B> {
             let ir_const = self.bcx.iconst(self.i8_type, ir as i64);
             let offset = self.bcx.iconst(self.isize_type, offset as i64);
             let len = self.bcx.iconst(self.isize_type, len as i64);
+            self.sync_diverging_stack_effect();
             let _ = self.call_builtin(Builtin::DoReturnCC, &[self.ecx, offset, len, ir_const]);
             self.bcx.unreachable();
             true
-- 
2.43.0


From e9ff11644f8480656d7a17cdae75c68adbd426ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:23 +0000
Subject: [PATCH 12/12] fix: do not assume an empty entry stack when the stack
 is shared with the caller

---
 .../src/bytecode/passes/block_analysis.rs            | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
index 283b898..13d02f0 100644
--- a/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
+++ b/crates/revmc-codegen/src/bytecode/passes/block_analysis.rs
@@ -29,7 +29,7 @@
 //! incomplete information, ensuring that only sound jump targets are reported as resolved.
 
 use super::StackSection;
-use crate::bytecode::{Bytecode, Inst, InstFlags, Interner, U256Imm};
+use crate::bytecode::{AnalysisConfig, Bytecode, Inst, InstFlags, Interner, U256Imm};
 use bitvec::vec::BitVec;
 use either::Either;
 use oxc_index::{IndexVec, index_vec};
@@ -702,10 +702,16 @@ impl Bytecode<'_> {
     ) -> (Vec<(Inst, JumpResolution)>, usize) {
         let num_blocks = self.cfg.blocks.len();
 
-        // Initialize block states. Entry block starts with an empty stack.
+        // Initialize block states. Entry block starts with an empty stack, or with unknown values
+        // if the stack is shared with the caller.
+        let entry_depth = if self.config.contains(AnalysisConfig::INSPECT_STACK) {
+            MAX_ABS_STACK_DEPTH
+        } else {
+            0
+        };
         let mut block_states: IndexVec<Block, BlockState> =
             index_vec![BlockState::Bottom; num_blocks];
-        block_states[Block::from_usize(0)] = BlockState::Known(Vec::new());
+        block_states[Block::from_usize(0)] = BlockState::Known(vec![AbsValue::Top; entry_depth]);
 
         // Collect unresolved jumps, plus static JUMPI instructions whose condition
         // may become constant only after CFG fixpoint.
-- 
2.43.0

