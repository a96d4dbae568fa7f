From 668e4b2385fe9a4eaf97b96f45617f525dbbebfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 01/19] fix: soft shutdown and exhausted failure budget wait
 for every handed-out task, and for nothing else

A soft shutdown with nothing in flight never ended, and one with tasks that had been handed to a
remote runner but not yet been reported as begun ended without waiting for them.  Claim the tasks
that are still queued and wait for n_ready_or_inflight, which then counts exactly the handed-out ones.
---
 src/sync.rs | 44 +++++++++++++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/src/sync.rs b/src/sync.rs
index 1af1d8d..6b25f89 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -72,6 +72,9 @@ pub struct ReadyTrackerServer<'a> {
     fizzles_allowed: u32,
     queuestate: Arc<DashMap<u64, Snapshot>>,
     inflight: HashMap<NodeIndex, std::time::Instant>,
+    // for each task that was put into the ready queues and has not finished yet, the flag that tells
+    // whether it has been claimed by a runner.
+    claims: HashMap<NodeIndex, Arc<AtomicBool>>,
     statuses: HashMap<NodeIndex, TaskStatus>,
     shutdown_state: ShutdownState,
     soft_shutdown_trigger: AsyncFlag,
@@ -157,6 +160,7 @@ pub fn new_ready_tracker<'a>(
         fizzles_allowed,
         queuestate: queuestate.clone(),
         inflight: HashMap::new(),
+        claims: HashMap::new(),
         logfile,
         statuses,
         shutdown_state: ShutdownState::Normal,
@@ -335,11 +339,10 @@ impl<'a> ReadyTrackerServer<'a> {
                                     self.n_fizzled, self.fizzles_allowed, self.n_ready_or_inflight);
                                 // cancel any tasks that have been going for less than FIZZLED_TIME_CUTOFF
                                 token.cancel(CancellationState::CancelledAfterTime(Instant::now() - FIZZLED_TIME_CUTOFF));
-                                self.ready = None;
-                                self.shutdown_state = ShutdownState::SoftShutdown;
+                                self.begin_soft_shutdown();
                             }
 
-                            if self.n_ready_or_inflight == 0 || (self.shutdown_state == ShutdownState::SoftShutdown && self.inflight.is_empty()) {
+                            if self.n_ready_or_inflight == 0 {
                                 // Drop the send side of the `self.ready` channel. This will cause the receive side
                                 // to start returning errors when localrunner.rs and server.rs call recv(), which is exactl
                                 // what we want and will break the run_local_process_loop runners at the point where they're
@@ -354,15 +357,12 @@ impl<'a> ReadyTrackerServer<'a> {
                 },
                 _ = self.soft_shutdown_trigger.wait() => {
                     debug!("Background serve received soft_shutdown_trigger");
-                    self.ready = None;
-                    // Setting num_ready = 0 in the queuestate object (which is a shared hashmap that's accessed from multiple threads)
-                    // ensures that the http status/ endpoint used by provisioners will know that there are no more jobs left
-                    // and will not submit any more slurm runners.
-                    for mut item in self.queuestate.iter_mut() {
-                        item.num_ready = 0;
-                    }
-                    self.shutdown_state = ShutdownState::SoftShutdown;
+                    self.begin_soft_shutdown();
                     self.soft_shutdown_trigger.unset();
+                    if self.n_ready_or_inflight == 0 {
+                        debug!("background_serve breaking on soft shutdown with nothing running");
+                        break;
+                    }
                 },
                 _ = token.hard_cancelled() => {
                     debug!("background_serve breaking on token cancellation");
@@ -389,6 +389,26 @@ impl<'a> ReadyTrackerServer<'a> {
         Ok(())
     }
 
+    // Stop handing out tasks, but let the ones that have been handed out run to their end. Every task
+    // that's still waiting in the ready queues is claimed here, so that no runner can take it
+    // anymore and n_ready_or_inflight counts nothing but the tasks that runners are working on (whether or
+    // not they've already told us that they've begun).
+    fn begin_soft_shutdown(&mut self) {
+        self.ready = None;
+        self.shutdown_state = ShutdownState::SoftShutdown;
+        for (id, taken) in self.claims.drain() {
+            if !taken.fetch_or(true, SeqCst) {
+                self.n_ready_or_inflight = self.n_ready_or_inflight.saturating_sub(1);
+                // Keeping num_ready in the queuestate object (which is a shared hashmap that's accessed from multiple threads)
+                // up to date ensures that the http status/ endpoint used by provisioners will know that there are no more
+                // jobs left and will not submit any more slurm runners.
+                if let Some(mut item) = self.queuestate.get_mut(&self.g[id].affinity.data) {
+                    item.num_ready = item.num_ready.saturating_sub(1);
+                }
+            }
+        }
+    }
+
     async fn _finished_bookkeeping(&mut self, e: &mut FinishedEvent) -> Result<()> {
         self._finished_bookkeeping_1(e)?;
         let out = self._finished_bookkeeping_2(e).await;
@@ -422,6 +442,7 @@ impl<'a> ReadyTrackerServer<'a> {
         }
 
         {
+            self.claims.remove(&e.id);
             self.n_ready_or_inflight = self.n_ready_or_inflight.saturating_sub(1);
             let mut v = self
                 .queuestate
@@ -540,6 +561,7 @@ impl<'a> ReadyTrackerServer<'a> {
                 .num_ready += 1;
 
             let taken = Arc::new(AtomicBool::new(false));
+            self.claims.insert(index, taken.clone());
 
             for i in cmd.affinity.iter_ones() {
                 inserts[i].push((
-- 
2.43.0


From 742a1b5548783c92f633ea154e906e412f1a9221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:35 +0000
Subject: [PATCH 02/19] fix: a later execute() in a session does not run tasks
 whose dependencies failed in an earlier one

Tasks that had finished without success in an earlier call were removed from the graph together with
their edges, so everything downstream of them was run as if they had succeeded.
---
 src/execgraph.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 6cb05a5..5bbf343 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -493,10 +493,27 @@ fn get_subgraph<'a, 'b: 'a>(
 
     let mut reused_old_keys = HashSet::new();
 
+    // Tasks that were already run (or skipped) without success in a previous call to execute, within this session,
+    // can't be run again and neither can anything that's downstream of them.
+    let mut blocked = HashSet::new();
+    let mut stack = subgraph
+        .node_indices()
+        .filter(|&n| completed.contains(&subgraph[n].key) && !logfile.has_success(&subgraph[n].key))
+        .collect::<Vec<NodeIndex>>();
+    while let Some(n) = stack.pop() {
+        if blocked.insert(n) {
+            stack.extend(
+                subgraph
+                    .neighbors_directed(n, Direction::Outgoing)
+                    .filter(|&m| !logfile.has_success(&subgraph[m].key)),
+            );
+        }
+    }
+
     // Now let's remove all edges from the dependency graph if the source has already finished
     // or if we've already exeuted the task in a previous call to execute
     let mut filtered_subgraph = subgraph.filter_map(
-        |_n, &w| {
+        |n, &w| {
             if completed.contains(&w.key) {
                 // if we already ran this command within this process, don't record it
                 // in reused_old_keys. that's only for stuff that was run in a previous
@@ -515,6 +532,13 @@ fn get_subgraph<'a, 'b: 'a>(
                 reused_old_keys.insert(w.key.clone());
                 return None;
             }
+            if blocked.contains(&n) {
+                trace!(
+                    "Skipping {} because it's downstream of a task that failed within this session.",
+                    w.key
+                );
+                return None;
+            }
 
             trace!("Retaining {} because it has not been run before", w.key);
             Some(w)
-- 
2.43.0


From 0af856af23be63e6bb35655c8e8b36bbacaca29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 03/19] fix: a rejected /end from another slurm job leaves the
 transaction open

---
 src/server.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index ddc1ffe..ea9cc80 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -461,17 +461,17 @@ async fn end_handler(
     };
 
     let cstate = {
+        // If the RPC trying to end a job is coming from a different slurm jobid
+        // than the RPC which started the job, something fishy is going on, and the
+        // transaction stays open for the runner that it belongs to.
         let (_transaction_id, cstate) = state
             .connections
-            .remove(&request.transaction_id)
+            .remove_if(&request.transaction_id, |_, cstate| {
+                cstate.slurm_jobid == runner_slurm_jobid
+            })
             .ok_or(AppError::NoSuchTransaction)?;
         cstate
     };
-    // If the RPC trying to end a job is coming from a different slurm jobid
-    // than the RPC which started the job, something fishy is going on.
-    if cstate.slurm_jobid != runner_slurm_jobid {
-        return Err(AppError::NoSuchTransaction);
-    };
 
     state.timeouts.cancel(cstate.timer_id);
     let flag = AsyncFlag::new();
-- 
2.43.0


From d8fb15254643a08a77c8cf8548e0e853dcde30b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 04/19] fix: a repeated /begun for the same transaction is not
 logged as a second start

---
 src/server.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index ea9cc80..4c118de 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -52,6 +52,7 @@ struct ConnectionState {
     timer_id: TimerID,
     disconnect_error_message: String,
     slurm_jobid: String,
+    begun: bool,
 }
 
 pub struct State<'a> {
@@ -387,6 +388,7 @@ async fn start_request_impl(
             node_id,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
+            begun: false,
         },
     );
 
@@ -408,7 +410,7 @@ async fn begun_handler(
     if authorization.token() != state.authorization_token {
         return Err(AppError::Unauthorized);
     };
-    let cstate = state
+    let mut cstate = state
         .connections
         .get_mut(&request.transaction_id)
         .ok_or(AppError::NoSuchTransaction)?;
@@ -424,6 +426,11 @@ async fn begun_handler(
         None => return Err(AppError::BadRequest),
     };
 
+    // A runner that did not get our reply may send /begun again, but the task only starts once.
+    if std::mem::replace(&mut cstate.begun, true) {
+        return Ok((StatusCode::OK, "").into_response());
+    }
+
     state
         .tracker
         .send_started(
-- 
2.43.0


From 316922058c34161582267a93149ed66a18740015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 05/19] fix: a /status long poll does not keep execute() from
 returning

---
 src/server.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 4c118de..ff1f0e1 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -202,14 +202,17 @@ pub async fn status_handler(
         Some(Json(r)) => r,
     };
 
-    let (etag, snapshot) = state
-        .tracker
-        .get_queuestate(
+    let (etag, snapshot) = tokio::select! {
+        r = state.tracker.get_queuestate(
             request.etag,
             Duration::from_millis(request.timemin_ms),
             Duration::from_millis(request.timeout_ms),
-        )
-        .await;
+        ) => r,
+        // execute() does not return before this request is answered, so don't keep it waiting
+        _ = state.token.hard_cancelled() => {
+            state.tracker.get_queuestate(0, Duration::ZERO, Duration::ZERO).await
+        }
+    };
 
     let resp = snapshot
         .into_iter()
-- 
2.43.0


From 4409a0ecb29ccd2db1d40802c6def803b4a3f8e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:19 +0000
Subject: [PATCH 06/19] fix: a task that ends while the failure budget cancels
 it does not crash the reaper

---
 src/server.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/server.rs b/src/server.rs
index ff1f0e1..49b3ec3 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -137,7 +137,10 @@ impl<'a> State<'a> {
                     }
                 }
                 for key in keys_to_remove {
-                    expired.push(self.connections.remove(&key).unwrap().1);
+                    // it may have finished in the meantime
+                    if let Some((_, cstate)) = self.connections.remove(&key) {
+                        expired.push(cstate);
+                    }
                 }
             }
 
-- 
2.43.0


From e4fb70cf86bea52b13dc7856bff5109f94b1a2c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:51 +0000
Subject: [PATCH 07/19] fix: a slurm job whose runner is waiting for a task is
 not reported as cancelled

---
 src/server.rs | 69 +++++++++++++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 16 deletions(-)

diff --git a/src/server.rs b/src/server.rs
index 49b3ec3..ef0a3db 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -87,6 +87,37 @@ pub struct State<'a> {
     /// Avoid a race requires us to know slurm jobids that have been
     /// scanceled so we don't hand out tasks to those runners.
     cancelled_slurm_jobids: RwLock<HashSet<String>>,
+
+    /// How many requests for a task each slurm jobid currently has waiting.
+    pending_starts: Mutex<HashMap<String, u32>>,
+}
+
+/// Counts one request for a task in ``State::pending_starts`` for as long as it lives.
+struct PendingStart<'s> {
+    pending: &'s Mutex<HashMap<String, u32>>,
+    jobid: String,
+}
+
+impl<'s> PendingStart<'s> {
+    fn new(pending: &'s Mutex<HashMap<String, u32>>, jobid: &str) -> Self {
+        *pending.lock().unwrap().entry(jobid.to_owned()).or_insert(0) += 1;
+        PendingStart {
+            pending,
+            jobid: jobid.to_owned(),
+        }
+    }
+}
+
+impl<'s> Drop for PendingStart<'s> {
+    fn drop(&mut self) {
+        let mut pending = self.pending.lock().unwrap();
+        if let Some(n) = pending.get_mut(&self.jobid) {
+            *n -= 1;
+            if *n == 0 {
+                pending.remove(&self.jobid);
+            }
+        }
+    }
 }
 
 impl<'a> State<'a> {
@@ -106,6 +137,7 @@ impl<'a> State<'a> {
             provisioner: RwLock::new(provisioner),
             authorization_token,
             cancelled_slurm_jobids: RwLock::new(HashSet::new()),
+            pending_starts: Mutex::new(HashMap::new()),
         }
     }
 
@@ -286,12 +318,16 @@ async fn mark_slurm_job_cancelation(
     // Acquire a write lock on cancelled_slurm_jobids
     let mut cancelled_slurm_jobids = state.cancelled_slurm_jobids.write().unwrap();
 
-    // Find all running jobids
-    let running_jobids = state
-        .connections
-        .iter()
-        .map(|c| c.slurm_jobid.clone())
+    // Find all running jobids, and the ones that are about to: a runner that is waiting
+    // for a task right now may be handed one at any moment.
+    let mut running_jobids = state
+        .pending_starts
+        .lock()
+        .unwrap()
+        .keys()
+        .cloned()
         .collect::<HashSet<String>>();
+    running_jobids.extend(state.connections.iter().map(|c| c.slurm_jobid.clone()));
 
     // Add the requested slurm jobids to the set that are canceled if
     // they're not already running
@@ -333,17 +369,6 @@ async fn start_handler(
         None => return Err(AppError::BadRequest),
     };
 
-    // If this jobid has been scanceled, don't give out a job and just tell the runner
-    // to shut down. This happens with a read lock on cancelled_slurm_jobids so if someone
-    // is modying the set of cancelled_slurm_jobids, we have to wait till they finish to
-    // know if we should tell this runner to shut down.
-    {
-        let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();
-        if cancelled_slurm_jobids.contains(&runner_slurm_jobid) {
-            return Err(AppError::Shutdown);
-        }
-    }
-
     Ok(Postcard(
         start_request_impl(state, request, runner_slurm_jobid).await?,
     ))
@@ -354,6 +379,18 @@ async fn start_request_impl(
     request: StartRequest,
     runner_slurm_jobid: String,
 ) -> Result<StartResponse, AppError> {
+    // If this jobid has been scanceled, don't give out a job and just tell the runner
+    // to shut down. This happens with a read lock on cancelled_slurm_jobids so if someone
+    // is modying the set of cancelled_slurm_jobids, we have to wait till they finish to
+    // know if we should tell this runner to shut down.
+    let _pending_start = {
+        let cancelled_slurm_jobids = state.cancelled_slurm_jobids.read().unwrap();
+        if cancelled_slurm_jobids.contains(&runner_slurm_jobid) {
+            return Err(AppError::Shutdown);
+        }
+        PendingStart::new(&state.pending_starts, &runner_slurm_jobid)
+    };
+
     // Grab the next task off the ready queue, which might pause if we're rate limited.
     // Hold the connection for up to ``HOLD_RATELIMITED_TIME`` (30 seconds), and then if
     // we're still rate limited, respond to the execgraph-remote with a "RateLimited"
-- 
2.43.0


From 02c5407a12ebdad528201114e29efaf83070f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:00 +0000
Subject: [PATCH 08/19] fix: the output of a remote task is not limited to 2 MB

---
 src/server.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/server.rs b/src/server.rs
index ef0a3db..96c5a44 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -662,5 +662,7 @@ pub fn router(state: Arc<State<'static>>) -> Router {
             post(mark_slurm_job_cancelation),
         )
         .fallback(fallback)
+        // an /end request carries everything that the task printed
+        .layer(axum::extract::DefaultBodyLimit::disable())
         .layer(middleware.into_inner())
 }
-- 
2.43.0


From 7d4aababe350063fd55c188451d4bd3df7bc3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:29 +0000
Subject: [PATCH 09/19] fix: a task that does not read its fd_input, or writes
 before it does, no longer crashes or blocks its runner

---
 src/bin/execgraph-remote.rs |  9 +++------
 src/localrunner.rs          | 23 ++++++++++++++++++-----
 2 files changed, 21 insertions(+), 11 deletions(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index a3ab2f8..cd384b1 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -5,7 +5,7 @@ use execgraph::{
     http_extensions::reqwest::{RequestBuilderExt, ResponseExt},
     httpinterface::*,
     localrunner::{
-        wait_with_output, ChildOutput, ChildProcessError
+        spawn_write_input, wait_with_output, ChildOutput, ChildProcessError
     },
 };
 use execgraph::logfile2::ValueMaps;
@@ -18,7 +18,6 @@ use notify::Watcher;
 use reqwest::header::{HeaderMap, HeaderValue};
 use std::{convert::TryInto, io::Read, os::unix::prelude::AsRawFd, sync::atomic::AtomicBool, time::Duration};
 use thiserror::Error;
-use tokio::io::AsyncWriteExt;
 use tokio_command_fds::{CommandFdExt, FdMapping};
 use tokio_util::sync::CancellationToken;
 use tracing::warn;
@@ -390,12 +389,10 @@ async fn run_command(
         }
     };
 
-    // dump input into fd4 immediately
+    // start dumping input into fd4 immediately
     if let Some(p) = fd4_write_pipe {
         let (_fd, buf) = start.fd_input.as_ref().unwrap();
-        let mut writer = tokio::io::BufWriter::new(p);
-        writer.write_all(buf).await.unwrap();
-        writer.flush().await.unwrap();
+        spawn_write_input(p, buf.clone());
     }
 
     let pid = child
diff --git a/src/localrunner.rs b/src/localrunner.rs
index f521600..09a2ecb 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -16,7 +16,7 @@ use tokio::{
     process::Command,
 };
 use tokio_command_fds::{CommandFdExt, FdMapping};
-use tokio_pipe::PipeRead;
+use tokio_pipe::{PipeRead, PipeWrite};
 use tracing::debug;
 
 use crate::{
@@ -113,12 +113,10 @@ pub async fn run_local_process_loop(
             }
         };
 
-        // Dump input into fd4 immediately
+        // Start dumping input into fd4 immediately
         if let Some(p) = fd4_write_pipe {
             let (_fd, buf) = cmd.fd_input.as_ref().unwrap();
-            let mut writer = tokio::io::BufWriter::new(p);
-            writer.write_all(buf).await.unwrap();
-            writer.flush().await.unwrap();
+            spawn_write_input(p, buf.clone());
         }
 
         // Get PID from fd3, or if it doesn't send one, just the child PID
@@ -158,6 +156,21 @@ pub async fn run_local_process_loop(
     );
 }
 
+/// Write a task's input into its pipe, while the task runs. The task can be blocked on its own
+/// output before it reads its input, and it does not have to read all (or any) of it.
+pub fn spawn_write_input(pipe: PipeWrite, buf: Vec<u8>) {
+    tokio::spawn(async move {
+        let mut writer = tokio::io::BufWriter::new(pipe);
+        let r = async {
+            writer.write_all(&buf).await?;
+            writer.flush().await
+        };
+        if let Err(e) = r.await {
+            debug!("Unable to write all of the task's input: {}", e);
+        }
+    });
+}
+
 pub async fn wait_with_output(
     mut child: tokio::process::Child,
     fd: PipeRead,
-- 
2.43.0


From d8c5a802a84bf326ec6c546ed7be0ab449abc041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:25 +0000
Subject: [PATCH 10/19] fix: the preamble of a task is called once, before the
 task starts

---
 src/localrunner.rs | 4 ++--
 src/server.rs      | 3 ---
 src/sync.rs        | 2 --
 3 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/localrunner.rs b/src/localrunner.rs
index 09a2ecb..029ee99 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -98,7 +98,7 @@ pub async fn run_local_process_loop(
             Ok(child) => child,
             Err(e) => {
                 tracker
-                    .send_started(subgraph_node_id, cmd, &hostname, 0, "".to_string())
+                    .send_started(subgraph_node_id, &hostname, 0, "".to_string())
                     .await;
                 tracker
                     .send_finished(
@@ -125,7 +125,7 @@ pub async fn run_local_process_loop(
             .expect("child hasn't been waited for yet, so its pid should exist");
 
         tracker
-            .send_started(subgraph_node_id, cmd, &hostname, pid, "".to_string())
+            .send_started(subgraph_node_id, &hostname, pid, "".to_string())
             .await;
 
         let output: ChildOutput = tokio::select! {
diff --git a/src/server.rs b/src/server.rs
index 96c5a44..b5b155f 100644
--- a/src/server.rs
+++ b/src/server.rs
@@ -47,7 +47,6 @@ lazy_static::lazy_static! {
 #[derive(Debug)]
 struct ConnectionState {
     node_id: NodeIndex,
-    cmd: Cmd,
     start_time_approx: Instant,
     timer_id: TimerID,
     disconnect_error_message: String,
@@ -427,7 +426,6 @@ async fn start_request_impl(
         ConnectionState {
             start_time_approx: std::time::Instant::now(),
             timer_id,
-            cmd: cmd.clone(),
             node_id,
             disconnect_error_message: request.disconnect_error_message,
             slurm_jobid: runner_slurm_jobid,
@@ -478,7 +476,6 @@ async fn begun_handler(
         .tracker
         .send_started(
             cstate.node_id,
-            &cstate.cmd,
             &request.host,
             request.pid,
             runner_slurm_jobid,
diff --git a/src/sync.rs b/src/sync.rs
index 6b25f89..1d5a1f2 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -666,12 +666,10 @@ impl ReadyTrackerClient {
     pub async fn send_started(
         &self,
         v: NodeIndex,
-        cmd: &Cmd,
         host: &str,
         pid: u32,
         slurm_jobid: String,
     ) {
-        cmd.call_preamble();
         let r = self
             .s
             .send(Event::Started(StartedEvent {
-- 
2.43.0


From c7605dce5883f1cf65f527aba8e13cc8feb67dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 11/19] fix: tasks that end while execute() shuts down are
 among the finished ones it returns

---
 src/sync.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sync.rs b/src/sync.rs
index 1d5a1f2..8116610 100644
--- a/src/sync.rs
+++ b/src/sync.rs
@@ -201,6 +201,7 @@ impl<'a> ReadyTrackerServer<'a> {
                 }
                 Ok(Event::Finished(e)) => {
                     let cmd = self.g[e.id];
+                    self.finished_order.push(e.id);
                     self._finished_bookkeeping_1(&e)?;
                     if inflight.remove(&e.id).is_none() {
                         // With execgraph-remote workers, it's  possible to get a FinishedEvent
@@ -237,6 +238,7 @@ impl<'a> ReadyTrackerServer<'a> {
         for (k, _) in inflight.iter() {
             let cmd = self.g[*k];
             let e = FinishedEvent::new_disconnected(k.to_owned(), "".to_owned());
+            self.finished_order.push(e.id);
             self._finished_bookkeeping_1(&e)?;
             self.logfile.write(LogEntry::new_finished(
                 &cmd.key,
-- 
2.43.0


From 3900b0fbd35b3cee773a21f659d9b20fe97c064d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:53 +0000
Subject: [PATCH 12/19] fix: a task whose fd_input is fd 3 is refused by
 add_task instead of crashing its runner

---
 src/execgraph.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 5bbf343..5f3594b 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -223,6 +223,10 @@ impl ExecGraph {
             return Err(anyhow!("cmd={:?}: cmdline size == 0", cmd));
         }
 
+        if matches!(cmd.fd_input, Some((3, _))) {
+            return Err(anyhow!("cmd={:?}: fd 3 is reserved for the output of tasks", cmd));
+        }
+
         let key = cmd.key.clone();
         let new_node = self.deps.add_node(cmd);
         for dep in dependencies.iter().map(|&i| NodeIndex::from(i)) {
-- 
2.43.0


From bf96eb153219ad00ae590f39b54673df12912001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:01 +0000
Subject: [PATCH 13/19] fix: a task with an empty key is never skipped because
 of an earlier session

---
 src/execgraph.rs | 9 ++++++---
 src/pylib.rs     | 2 +-
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 5f3594b..63620f7 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -497,6 +497,9 @@ fn get_subgraph<'a, 'b: 'a>(
 
     let mut reused_old_keys = HashSet::new();
 
+    // A task with an empty key is never skipped because of what previous sessions did.
+    let is_done = |key: &str| !key.is_empty() && logfile.has_success(key);
+
     // Tasks that were already run (or skipped) without success in a previous call to execute, within this session,
     // can't be run again and neither can anything that's downstream of them.
     let mut blocked = HashSet::new();
@@ -509,7 +512,7 @@ fn get_subgraph<'a, 'b: 'a>(
             stack.extend(
                 subgraph
                     .neighbors_directed(n, Direction::Outgoing)
-                    .filter(|&m| !logfile.has_success(&subgraph[m].key)),
+                    .filter(|&m| !is_done(&subgraph[m].key)),
             );
         }
     }
@@ -528,7 +531,7 @@ fn get_subgraph<'a, 'b: 'a>(
                 );
                 return None; // returning none excludes it from filtered_subgraph
             }
-            if logfile.has_success(&w.key) {
+            if is_done(&w.key) {
                 trace!(
                     "Skipping {} because it already ran successfully accord to the log file",
                     w.key
@@ -560,7 +563,7 @@ fn get_subgraph<'a, 'b: 'a>(
             .node_indices()
             .filter(|&n| {
                 let w = tc[n];
-                logfile.has_failure(&w.key)
+                !w.key.is_empty() && logfile.has_failure(&w.key)
             })
             .collect::<HashSet<NodeIndex>>();
 
diff --git a/src/pylib.rs b/src/pylib.rs
index 55d719f..beae67e 100644
--- a/src/pylib.rs
+++ b/src/pylib.rs
@@ -153,7 +153,7 @@ impl PyExecGraph {
                 runcount,
                 storage_root,
                 success,
-            }) if success => (
+            }) if success && !key.is_empty() => (
                 runcount,
                 Some(
                     self.g
-- 
2.43.0


From a90f915d534069fb4f9f4e4cf02d46359363446e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:40 +0000
Subject: [PATCH 14/19] fix: a log whose last line was cut short by a crash can
 be read and reopened

---
 src/logfile2.rs | 61 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 583a37c..239f32b 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -180,6 +180,14 @@ pub enum RuncountStatus {
     },
 }
 
+/// The last line of a log whose writer crashed in the middle of writing it
+enum TornLine {
+    /// The line starts at this offset, and only a part of it was written
+    Incomplete { start: u64 },
+    /// Nothing but the newline is missing
+    NoNewline,
+}
+
 impl LogFile<LogFileRW> {
     #[tracing::instrument]
     pub fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
@@ -199,7 +207,16 @@ impl LogFile<LogFileRW> {
             .create(true)
             .write(true)
             .open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, torn) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        match torn {
+            // the previous writer crashed before it finished the last line: the entry is lost
+            Some(TornLine::Incomplete { start }) => {
+                f.set_len(start)?;
+                f.seek(std::io::SeekFrom::Start(start))?;
+            }
+            Some(TornLine::NoNewline) => f.write_all(&[b'\n'])?,
+            None => {}
+        }
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -281,7 +298,7 @@ impl LogFile<LogFileRO> {
     #[tracing::instrument]
     fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         let mut f = std::fs::OpenOptions::new().read(true).open(&path)?;
-        let (runcounts, header) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
+        let (runcounts, header, _torn) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
             path: path.as_ref().to_path_buf().canonicalize()?,
@@ -296,27 +313,39 @@ impl LogFile<LogFileRO> {
 impl<T> LogFile<T> {
     fn load_runcounts(
         f: &mut std::fs::File,
-    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>)> {
+    ) -> Result<(HashMap<String, RuncountStatus>, Option<HeaderEntry>, Option<TornLine>)> {
         let mut runcounts = HashMap::new();
         let mut header = None;
         let mut workflow_key = None;
 
         let mut reader = std::io::BufReader::new(f);
-        let mut line = String::new();
+        let mut line = Vec::new();
         let mut iline = 0;
+        let mut start = 0;
+        let mut torn = None;
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
+            let nbytes = reader.read_until(b'\n', &mut line)?;
             if nbytes == 0 {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            let value: LogEntry = serde_json::from_str(&line).map_err(|e| {
-                tracing::error!("Unable to parse {}th line. Got {}", iline, line);
-                e
-            })?;
+            let complete = line.ends_with(&[b'\n']);
+            let value: LogEntry = match serde_json::from_slice(&line) {
+                Ok(value) => value,
+                Err(_) if !complete && line.starts_with(&[b'{']) => {
+                    torn = Some(TornLine::Incomplete { start });
+                    break;
+                }
+                Err(e) => {
+                    tracing::error!("Unable to parse {}th line. Got {}", iline, String::from_utf8_lossy(&line));
+                    return Err(e.into());
+                }
+            };
+            if !complete {
+                torn = Some(TornLine::NoNewline);
+            }
             iline += 1;
+            start += nbytes as u64;
             match value {
                 LogEntry::Header(h) => {
                     match workflow_key {
@@ -386,7 +415,7 @@ impl<T> LogFile<T> {
             }
         }
 
-        Ok((runcounts, header))
+        Ok((runcounts, header, torn))
     }
 
     pub fn workflow_key(&self) -> Option<String> {
@@ -572,16 +601,14 @@ impl LogFileSnapshotReader {
         self.f.seek(std::io::SeekFrom::Start(0))?;
         let mut reader = std::io::BufReader::new(&self.f);
         let mut v = Vec::new();
-        let mut line = String::new();
+        let mut line = Vec::new();
         loop {
             line.clear();
-            let nbytes = reader.read_line(&mut line)?;
+            let nbytes = reader.read_until(b'\n', &mut line)?;
             if nbytes == 0 {
                 break;
             }
-            let len = line.trim_end_matches(&['\r', '\n'][..]).len();
-            line.truncate(len);
-            match serde_json::from_str(&line) {
+            match serde_json::from_slice(&line) {
                 Ok(value) => v.push(value),
                 Err(e) if e.is_data() => {}
                 Err(e) => {
-- 
2.43.0


From 772392b222f49189ba0381d3ade6f0908b3b17dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:09 +0000
Subject: [PATCH 15/19] fix: the log is locked until its last entries are
 written, and by one process at a time

---
 src/logfile2.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 239f32b..691e839 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -6,6 +6,7 @@ use std::{
     env,
     io::{BufRead, Seek, Write},
     marker::PhantomData,
+    os::unix::fs::MetadataExt,
     path::PathBuf,
     time::SystemTime,
 };
@@ -193,11 +194,22 @@ impl LogFile<LogFileRW> {
     pub fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
         // acquire the lock file and write something to it
         let lockf_path = path.as_ref().with_file_name(".wrk.lock");
-        let lockf = std::fs::OpenOptions::new()
-            .create(true)
-            .write(true)
-            .open(&lockf_path)?;
-        lockf.try_lock(FileLockMode::Exclusive)?;
+        let lockf = loop {
+            let lockf = std::fs::OpenOptions::new()
+                .create(true)
+                .write(true)
+                .open(&lockf_path)?;
+            lockf.try_lock(FileLockMode::Exclusive)?;
+            // The previous owner removes the file when it's done. If that happened after we opened it then what
+            // we've locked is not the file that everybody else is going to lock.
+            let ours = lockf.metadata()?;
+            match std::fs::metadata(&lockf_path) {
+                Ok(m) if m.ino() == ours.ino() && m.dev() == ours.dev() => break lockf,
+                Ok(_) => {}
+                Err(e) if e.kind() == std::io::ErrorKind::NotFound => {}
+                Err(e) => return Err(e.into()),
+            }
+        };
         let mut lockf = std::io::BufWriter::new(lockf);
         serde_json::to_writer(&mut lockf, &LogEntry::new_header("", vec![])?)?;
         lockf.flush()?;
@@ -483,6 +495,8 @@ impl<T> LogFile<T> {
 impl<T> Drop for LogFile<T> {
     fn drop(&mut self) {
         if let Some((_f, lockf_path)) = self.lockf.as_ref() {
+            // the next owner can read the log as soon as the lock file is gone
+            drop(self.f.flush());
             drop(std::fs::remove_file(lockf_path));
         }
     }
-- 
2.43.0


From 7fa9d345104048c079812ad328bbfae3c848d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 16/19] fix: the log's lock does not depend on the path the log
 is opened by, nor on the working directory

---
 src/logfile2.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/logfile2.rs b/src/logfile2.rs
index 691e839..2f74737 100644
--- a/src/logfile2.rs
+++ b/src/logfile2.rs
@@ -192,8 +192,16 @@ enum TornLine {
 impl LogFile<LogFileRW> {
     #[tracing::instrument]
     pub fn new<P: AsRef<std::path::Path> + std::fmt::Debug>(path: P) -> Result<Self> {
+        let mut f = std::fs::OpenOptions::new()
+            .read(true)
+            .create(true)
+            .write(true)
+            .open(&path)?;
+        // the lock belongs to the file, not to the path (a symbolic link, or relative to a directory that we may leave)
+        let path = path.as_ref().canonicalize()?;
+
         // acquire the lock file and write something to it
-        let lockf_path = path.as_ref().with_file_name(".wrk.lock");
+        let lockf_path = path.with_file_name(".wrk.lock");
         let lockf = loop {
             let lockf = std::fs::OpenOptions::new()
                 .create(true)
@@ -214,11 +222,6 @@ impl LogFile<LogFileRW> {
         serde_json::to_writer(&mut lockf, &LogEntry::new_header("", vec![])?)?;
         lockf.flush()?;
 
-        let mut f = std::fs::OpenOptions::new()
-            .read(true)
-            .create(true)
-            .write(true)
-            .open(&path)?;
         let (runcounts, header, torn) = LogFile::<LogFileRO>::load_runcounts(&mut f)?;
         match torn {
             // the previous writer crashed before it finished the last line: the entry is lost
@@ -231,7 +234,7 @@ impl LogFile<LogFileRW> {
         }
         Ok(LogFile {
             f: BufReaderWriter::new_reader(f),
-            path: path.as_ref().to_path_buf().canonicalize()?,
+            path,
             header,
             runcounts,
             lockf: Some((lockf, lockf_path)),
-- 
2.43.0


From fb69794a404e952f8f64c43530082b4fd4cd0ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:19 +0000
Subject: [PATCH 17/19] fix: a command line that is not UTF-8 no longer crashes
 the run

---
 src/execgraph.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/execgraph.rs b/src/execgraph.rs
index 63620f7..7520cc2 100644
--- a/src/execgraph.rs
+++ b/src/execgraph.rs
@@ -126,7 +126,7 @@ impl Cmd {
                     }
                     buffer.push(item);
                 }
-                let s = buffer.into_string().expect("cmdline must be utf-8");
+                let s = buffer.to_string_lossy();
                 let mut dst = String::new();
                 ESCAPED_NEWLINE_OR_TAB.replace_all_with(&s, &mut dst, |_m, t, d| {
                     if t == "\\\n" {
-- 
2.43.0


From a2c0b7a1019a124c4f8561ed394ca577e474228f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:19 +0000
Subject: [PATCH 18/19] fix: tasks are given blocking pipes for their input and
 values

---
 src/bin/execgraph-remote.rs |  6 +++++-
 src/localrunner.rs          | 15 ++++++++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/bin/execgraph-remote.rs b/src/bin/execgraph-remote.rs
index cd384b1..96d4109 100644
--- a/src/bin/execgraph-remote.rs
+++ b/src/bin/execgraph-remote.rs
@@ -5,7 +5,7 @@ use execgraph::{
     http_extensions::reqwest::{RequestBuilderExt, ResponseExt},
     httpinterface::*,
     localrunner::{
-        spawn_write_input, wait_with_output, ChildOutput, ChildProcessError
+        set_blocking, spawn_write_input, wait_with_output, ChildOutput, ChildProcessError
     },
 };
 use execgraph::logfile2::ValueMaps;
@@ -312,6 +312,10 @@ async fn run_command(
     } else {
         (None, None)
     };
+    set_blocking(write_fd3.as_raw_fd()).expect("Cannot set up pipe");
+    if let Some(p) = &fd4_read_pipe {
+        set_blocking(p.as_raw_fd()).expect("Cannot set up pipe");
+    }
     let mut fd_mapping = vec![
         // Map the pipe as FD 3 in the child process.
         FdMapping {
diff --git a/src/localrunner.rs b/src/localrunner.rs
index 029ee99..390a028 100644
--- a/src/localrunner.rs
+++ b/src/localrunner.rs
@@ -3,10 +3,11 @@ use crate::{
     sync::ExitStatus,
 };
 use anyhow::Result;
+use nix::fcntl::{fcntl, FcntlArg, OFlag};
 use petgraph::prelude::*;
 use std::{
     collections::HashMap,
-    os::unix::prelude::{AsRawFd, ExitStatusExt},
+    os::unix::prelude::{AsRawFd, ExitStatusExt, RawFd},
     process::Stdio,
     sync::Arc,
 };
@@ -55,6 +56,10 @@ pub async fn run_local_process_loop(
         } else {
             (None, None)
         };
+        set_blocking(fd3_write_pipe.as_raw_fd()).expect("Cannot set up pipe");
+        if let Some(p) = &fd4_read_pipe {
+            set_blocking(p.as_raw_fd()).expect("Cannot set up pipe");
+        }
         let mut fd_mapping = vec![
             // Map the pipe as FD 3 in the child process.
             FdMapping {
@@ -156,6 +161,14 @@ pub async fn run_local_process_loop(
     );
 }
 
+/// The end of a pipe that a task is given has to be an ordinary, blocking one: most programs take EAGAIN
+/// for an error. (Our end of the pipe is not affected.)
+pub fn set_blocking(fd: RawFd) -> nix::Result<()> {
+    let flags = OFlag::from_bits_truncate(fcntl(fd, FcntlArg::F_GETFL)?);
+    fcntl(fd, FcntlArg::F_SETFL(flags & !OFlag::O_NONBLOCK))?;
+    Ok(())
+}
+
 /// Write a task's input into its pipe, while the task runs. The task can be blocked on its own
 /// output before it reads its input, and it does not have to read all (or any) of it.
 pub fn spawn_write_input(pipe: PipeWrite, buf: Vec<u8>) {
-- 
2.43.0


From f30f452a0f1fe42bc8fb529837df6f98bc37184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:11 +0000
Subject: [PATCH 19/19] fix: long output without a newline at its end is no
 longer cut short on the console

---
 src/logging.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/logging.rs b/src/logging.rs
index a1f7d22..f0e00e7 100644
--- a/src/logging.rs
+++ b/src/logging.rs
@@ -73,11 +73,11 @@ impl ConsoleAndFile {
 impl<'a> std::io::Write for &'a ConsoleAndFile {
     fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
         let mut guard = self.0.lock().unwrap();
-        guard.1.write(buf)?;
-        match guard.0.as_mut() {
-            Some(f) => f.write(buf),
-            None => Ok(0),
+        guard.1.write_all(buf)?;
+        if let Some(f) = guard.0.as_mut() {
+            f.write_all(buf)?;
         }
+        Ok(buf.len())
     }
 
     fn flush(&mut self) -> std::io::Result<()> {
-- 
2.43.0

