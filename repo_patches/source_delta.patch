From e798b25a028eb26696477fe1d6946a03d20fc0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:18 +0000
Subject: [PATCH 01/21] verif hook: re-export crate-private items under
 cfg(cambrian_verif)

---
 src/lib.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 930abaf..f94c66d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // cfg(cambrian_verif), see the end of this file
+
 pub(crate) mod algorithm;
 pub mod async_launch;
 pub(crate) mod common_util;
@@ -23,3 +25,14 @@ pub(crate) mod testutil;
 pub(crate) mod types;
 pub mod value;
 pub mod value_util;
+
+/// Re-exports of crate-private items for the verification harness. Only compiled with
+/// `RUSTFLAGS="--cfg cambrian_verif"`.
+#[cfg(cambrian_verif)]
+pub mod verif {
+    pub use crate::algorithm::{AlgoContext, IndContext};
+    pub use crate::detailed_report::DetailedReportItem;
+    pub use crate::meta_adapt::{create_exploratory, mutate as mutate_meta_params};
+    pub use crate::path::{PathContext, PathNodeContext};
+    pub use crate::selection::{Selection, SelectionImpl};
+}
-- 
2.43.0


From 203e124cf9e8e374bac145fc14c635ac6279cff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:50 +0000
Subject: [PATCH 02/21] fix: reject initial guesses with a wrong array length
 or map size

---
 src/value_util.rs | 50 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/src/value_util.rs b/src/value_util.rs
index d5bbaf5..e52e36a 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -25,8 +25,16 @@ fn build_node(
         spec::Node::Int { min, max, .. } => build_int(json_val, min, max, path),
         spec::Node::Bool { .. } => build_bool(json_val, path),
         spec::Node::Sub { map: ref spec_map } => build_sub(json_val, spec_map, path),
-        spec::Node::Array { ref value_type, .. } => build_array(json_val, value_type, path),
-        spec::Node::AnonMap { ref value_type, .. } => build_anon_map(json_val, value_type, path),
+        spec::Node::Array {
+            ref value_type,
+            size,
+        } => build_array(json_val, value_type, size, path),
+        spec::Node::AnonMap {
+            ref value_type,
+            min_size,
+            max_size,
+            ..
+        } => build_anon_map(json_val, value_type, min_size, max_size, path),
         spec::Node::Variant {
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
@@ -165,10 +173,18 @@ fn build_sub(
 fn build_array(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    size: usize,
     path: &[&str],
 ) -> Result<Node, Error> {
     match json_val {
         serde_json::Value::Array(json_values) => {
+            if json_values.len() != size {
+                return Err(Error::WrongTypeForValue {
+                    path_hint: format_path(path),
+                    type_hint: format!("array of size {}", size),
+                });
+            }
+
             let mut elements = Vec::with_capacity(json_values.len());
 
             for (idx, json_value) in json_values.iter().enumerate() {
@@ -190,9 +206,11 @@ fn build_array(
 fn build_anon_map(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    min_size: Option<usize>,
+    max_size: Option<usize>,
     path: &[&str],
 ) -> Result<Node, Error> {
-    match json_val {
+    let result_mapping = match json_val {
         serde_json::Value::Array(json_values) => {
             let mut result_mapping = HashMap::default();
 
@@ -203,7 +221,7 @@ fn build_anon_map(
                 result_mapping.insert(next_id, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            result_mapping
         }
         serde_json::Value::Object(json_mapping) => {
             let mut result_mapping = HashMap::default();
@@ -224,12 +242,28 @@ fn build_anon_map(
                 result_mapping.insert(key, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            result_mapping
         }
-        _ => Err(Error::WrongTypeForValue {
+        _ => {
+            return Err(Error::WrongTypeForValue {
+                path_hint: format_path(path),
+                type_hint: "array or map".to_string(),
+            })
+        }
+    };
+
+    let out_of_bounds = match (min_size, max_size) {
+        (Some(min_size), _) if result_mapping.len() < min_size => true,
+        (_, Some(max_size)) if result_mapping.len() > max_size => true,
+        _ => false,
+    };
+
+    if out_of_bounds {
+        Err(Error::ValueNotWithinBounds {
             path_hint: format_path(path),
-            type_hint: "array or map".to_string(),
-        }),
+        })
+    } else {
+        Ok(Node::AnonMap(result_mapping))
     }
 }
 
-- 
2.43.0


From 600fd6acc5ce6f7ab5ca8a06df0b6371121542e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 03/21] fix: do not overflow on the largest possible map key

---
 src/path.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path.rs b/src/path.rs
index 77b7e67..141380e 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -21,12 +21,12 @@ pub struct KeyManager {
 impl KeyManager {
     pub fn next_key(&mut self) -> usize {
         let result = self.next_key;
-        self.next_key += 1;
+        self.next_key = self.next_key.wrapping_add(1);
         result
     }
 
     fn on_key_seen(&mut self, key: usize) {
-        self.next_key = self.next_key.max(key + 1);
+        self.next_key = self.next_key.max(key.saturating_add(1));
     }
 }
 
-- 
2.43.0


From d7e4ea459fef14a392f3b6c6bf95d6d7dd63d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:01 +0000
Subject: [PATCH 04/21] fix: give an added map element a key not in use by that
 map

---
 src/mutation.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 7e239b8..8835bc2 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -221,7 +221,12 @@ fn mutate_anon_map(
                 .cloned()
                 .unwrap_or_else(|| value_type.initial_value());
 
-            let key = path_node_ctx.next_key();
+            let key = loop {
+                let key = path_node_ctx.next_key();
+                if !value_map.contains_key(&key) {
+                    break key;
+                }
+            };
             let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());
             let child_mutation_params = child_path_node_ctx
                 .rescaling_ctx
-- 
2.43.0


From a82e7ba8cd3ed22e4e65824103cceeb74f5038a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:24 +0000
Subject: [PATCH 05/21] fix: keep the old value when mutating a real yields a
 non-finite number

---
 src/mutation.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 8835bc2..58092b2 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -409,7 +409,7 @@ fn mutate_cauchy(
 }
 
 fn mutate_real(
-    value: f64,
+    orig_value: f64,
     scale: f64,
     min: Option<f64>,
     max: Option<f64>,
@@ -420,7 +420,7 @@ fn mutate_real(
         .unwrap()
         .sample(rng)
     {
-        let mut value = mutate_cauchy(value, scale, mutation_params, rng);
+        let mut value = mutate_cauchy(orig_value, scale, mutation_params, rng);
 
         if let Some(min) = min {
             value = value.max(min);
@@ -430,9 +430,13 @@ fn mutate_real(
             value = value.min(max);
         }
 
-        value
+        if value.is_finite() {
+            value
+        } else {
+            orig_value
+        }
     } else {
-        value
+        orig_value
     }
 }
 
-- 
2.43.0


From 914486572d989fa3e7fccc83c730753d3d689a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:39 +0000
Subject: [PATCH 06/21] fix: keep the adapted mutation scale positive and
 finite

---
 src/meta_adapt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meta_adapt.rs b/src/meta_adapt.rs
index 7aa3974..359b1c7 100644
--- a/src/meta_adapt.rs
+++ b/src/meta_adapt.rs
@@ -21,6 +21,10 @@ fn rescale_prob(prob: f64, rng: &mut StdRng) -> f64 {
     rescale(prob, rng).min(1.0)
 }
 
+fn rescale_scale(scale: f64, rng: &mut StdRng) -> f64 {
+    rescale(scale, rng).clamp(f64::MIN_POSITIVE, f64::MAX)
+}
+
 pub fn create_exploratory(rng: &mut StdRng) -> (CrossoverParams, MutationParams) {
     let crossover_params = CrossoverParams {
         crossover_prob: 0.5,
@@ -47,7 +51,7 @@ pub fn mutate(
 
     let mutation_params = MutationParams {
         mutation_prob: rescale_prob(mutation_params.mutation_prob, rng),
-        mutation_scale: rescale(mutation_params.mutation_scale, rng),
+        mutation_scale: rescale_scale(mutation_params.mutation_scale, rng),
     };
 
     (crossover_params, mutation_params)
-- 
2.43.0


From fde0e6c42c40b040544e5e0c2a077a42d6ae35fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:07 +0000
Subject: [PATCH 07/21] fix: do not drop parameters whose name starts with
 typeDef

---
 src/spec_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 44beafd..ef59cc1 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -250,7 +250,7 @@ fn build_sub(
     for (key, value) in mapping {
         match key.as_str() {
             Some(attribute_key)
-                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef") =>
+                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
             {
                 let path_of_sub = [path, &[attribute_key]].concat();
                 out_mapping.insert(
-- 
2.43.0


From 490a5e669f0a48f7db0242e684928e0efa1c3a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:13 +0000
Subject: [PATCH 08/21] fix: require at least two distinct enum values

---
 src/spec_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index ef59cc1..766b014 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -438,6 +438,12 @@ fn build_enum(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
         }
     }
 
+    if values.iter().all_equal() {
+        return Err(Error::NotEnoughEnumValues {
+            path_hint: format_path(path),
+        });
+    }
+
     if !values.contains(&init_value) {
         return Err(Error::InitNotAKnownValue {
             path_hint: format_path(path),
-- 
2.43.0


From 2fd54e9ff6acaef5ee27543a5bbcdb1025eb6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:14 +0000
Subject: [PATCH 09/21] fix: do not poll the abort signal again after it was
 received

---
 src/controller.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 39c86b9..082f50d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -131,11 +131,9 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv => {
-                if !abort_signal_received {
-                    abort_signal_received = true;
-                    abort_signal_sender.broadcast(()).await.unwrap();
-                }
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                abort_signal_received = true;
+                abort_signal_sender.broadcast(()).await.unwrap();
             }
         }
     }
-- 
2.43.0


From abc251117712ca837923d22e17ace67fad3fc639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:19 +0000
Subject: [PATCH 10/21] fix: start nothing new when a terminate request is
 pending

---
 src/async_launch.rs | 1 +
 src/controller.rs   | 9 +++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/async_launch.rs b/src/async_launch.rs
index b419f72..d1dbf12 100644
--- a/src/async_launch.rs
+++ b/src/async_launch.rs
@@ -39,6 +39,7 @@ pub async fn launch<F: AsyncObjectiveFunction>(
 
     loop {
         tokio::select! {
+            biased;
             cmd = cmd_recv.next() => {
                 if let Some(Command::Terminate) = cmd {
                     abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());
diff --git a/src/controller.rs b/src/controller.rs
index 082f50d..937e2f7 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -74,6 +74,11 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
     loop {
         tokio::select! {
+            biased;
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                abort_signal_received = true;
+                abort_signal_sender.broadcast(()).await.unwrap();
+            }
             evaled_individual = &mut evaled_individuals.try_next() => {
                 match evaled_individual {
 
@@ -131,10 +136,6 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
-                abort_signal_received = true;
-                abort_signal_sender.broadcast(()).await.unwrap();
-            }
         }
     }
 
-- 
2.43.0


From 4c72aa9bd06828628142e5fa415bcae26baf6d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:25 +0000
Subject: [PATCH 11/21] fix: after a failure wait for the in-flight evaluations
 even if the target is reached

---
 src/controller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 937e2f7..cb64ea2 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -106,7 +106,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
                         if let (Some(target_obj_func_val), Some(best_seen_final)) =
                         (target_obj_func_val, algo_ctx.best_seen_final()) {
-                            if best_seen_final.0.get() <= target_obj_func_val {
+                            if best_seen_final.0.get() <= target_obj_func_val && error_recording.is_none() {
                                 break;
                             }
                         }
-- 
2.43.0


From 9b78654ebed62b478f189a2f9b586be3d3908fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:17 +0000
Subject: [PATCH 12/21] fix: start nothing when the terminate request precedes
 the run

---
 src/controller.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index cb64ea2..49641f7 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -50,10 +50,12 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
     );
 
     let mut evaled_individuals = FuturesUnordered::new();
-    let mut abort_signal_received = false;
+    let mut abort_signal_received = matches!(in_abort_signal_recv.try_recv(), Ok(Some(())));
     let mut pushed_for_eval_count = 0;
 
-    let initial_num_individuals = if let Some(max_num_eval) = max_num_eval {
+    let initial_num_individuals = if abort_signal_received {
+        0
+    } else if let Some(max_num_eval) = max_num_eval {
         algo_config.num_concurrent.min(max_num_eval)
     } else {
         algo_config.num_concurrent
-- 
2.43.0


From f39b8c016c727af9aa40d9fa80db8ed0dc6a918d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 13/21] fix: log stderr of an objective function child that is
 not UTF-8

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index c85257a..ae25361 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -68,7 +68,7 @@ async fn get_child_result(
         info!(
             "Individual {}: non-empty stderr: {}",
             individual_id,
-            String::from_utf8(output.stderr.clone()).unwrap()
+            String::from_utf8_lossy(&output.stderr)
         );
     }
 
-- 
2.43.0


From 50c605e98fdac937fb896c1452de32e6f092c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:29 +0000
Subject: [PATCH 14/21] fix: a killed child that is already reaped is not an
 error

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index ae25361..9953716 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -40,7 +40,7 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
             Err(Errno::ESRCH) => Ok(()),
             Err(_) => Err(Error::FailedToKillChildProcessGroup(pgid)),
             Ok(()) => match wait::waitpid(pgid, None) {
-                Ok(_) => Ok(()),
+                Ok(_) | Err(Errno::ECHILD) => Ok(()),
                 Err(_) => Err(Error::FailedToReapChildProcessGroup(pgid)),
             },
         }
-- 
2.43.0


From 1a348ac0d8513357429c4475d2b34b369f3c2117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:36 +0000
Subject: [PATCH 15/21] fix: leave no process of an evaluation's process group
 behind

---
 src/process.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 9953716..2e25c8e 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -49,6 +49,16 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
     }
 }
 
+struct ChildProcGroupGuard {
+    pgid: Option<Pid>,
+}
+
+impl Drop for ChildProcGroupGuard {
+    fn drop(&mut self) {
+        kill_and_reap_child_proc_group(self.pgid).ok();
+    }
+}
+
 #[allow(non_snake_case)]
 #[derive(Debug, Deserialize)]
 #[serde(deny_unknown_fields)]
@@ -114,6 +124,9 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
             .map_err(Error::UnableToLaunchObjFuncProcess)?;
 
         let unreaped_pgid = child.id().map(|pgid| Pid::from_raw(pgid as i32));
+        let _guard = ChildProcGroupGuard {
+            pgid: unreaped_pgid,
+        };
 
         let child_result = get_child_result(child, &json_arg, seed, individual_id);
 
-- 
2.43.0


From 8aadc852764da59d06103d547faf1238b12dd3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 16/21] fix: accept only a JSON object as an objective function
 child's result

---
 src/process.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 2e25c8e..ff1d117 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -66,6 +66,12 @@ struct ObjFuncChildResult {
     objFuncVal: Option<f64>,
 }
 
+fn parse_child_result(stdout: &[u8]) -> serde_json::Result<ObjFuncChildResult> {
+    // A derived deserializer would also accept the fields as a JSON array.
+    serde_json::from_slice::<serde_json::Map<String, serde_json::Value>>(stdout)?;
+    serde_json::from_slice(stdout)
+}
+
 async fn get_child_result(
     child: AsyncGroupChild,
     obj_func_arg: &OsStr,
@@ -83,7 +89,7 @@ async fn get_child_result(
     }
 
     if output.status.success() {
-        let result: ObjFuncChildResult = serde_json::from_slice(&output.stdout).map_err(|_| {
+        let result: ObjFuncChildResult = parse_child_result(&output.stdout).map_err(|_| {
             Error::ObjFuncProcInvalidOutput(ProcOutputWithObjFuncArg::new(
                 obj_func_arg.to_owned(),
                 seed,
-- 
2.43.0


From 64377b9ba7c894dbe04f541654e36d4deb69f2ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:05 +0000
Subject: [PATCH 17/21] fix: reject a target objective function value that is
 not finite

---
 src/termination.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/termination.rs b/src/termination.rs
index 6743c9e..f18b3d3 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -31,6 +31,9 @@ where
             NumObjFuncEval(num_eval) if max_num_obj_func_eval.is_none() => {
                 max_num_obj_func_eval = Some(num_eval)
             }
+            TargetObjFuncVal(target) if !target.is_finite() => {
+                return Err(Error::TargetObjFuncValMustBeFinite)
+            }
             TargetObjFuncVal(target) if target_obj_func_val.is_none() => {
                 target_obj_func_val = Some(target)
             }
-- 
2.43.0


From ba125048a81fa06519362277028da413d628ad3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:11 +0000
Subject: [PATCH 18/21] fix: flush the best-seen and detailed report files

---
 src/sync_launch.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index ac9aff3..0d53a10 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -73,6 +73,7 @@ async fn write_best_seen_file(
     best_seen_file
         .write_all(value.to_string().as_bytes())
         .await?;
+    best_seen_file.flush().await?;
 
     Ok(())
 }
@@ -114,6 +115,8 @@ async fn handle_detailed_report_items(
                 }
             };
         }
+
+        detailed_report_file.flush().await?;
     } else {
         item_receiver
             .map(Ok)
-- 
2.43.0


From 9129275022d5224abd645b8a5060ae7d4b27aad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:10 +0000
Subject: [PATCH 19/21] fix: do not start evaluations that were queued when the
 abort signal was sent

---
 src/controller.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 49641f7..fdb2bd4 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -85,7 +85,8 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                 match evaled_individual {
 
                     Ok(None) => break,
-                    Ok(Some(evaled_individual)) => {
+                    Ok(Some(None)) => (),
+                    Ok(Some(Some(evaled_individual))) => {
 
                         let detailed_report_item = DetailedReportItem {
                             individual_id: evaled_individual.ind_ctx.id,
@@ -166,12 +167,17 @@ struct EvaluatedIndividual {
     seed: u64,
 }
 
+/// Returns `None` if the abort signal was sent before the evaluation was started.
 async fn evaluate_individual<F: AsyncObjectiveFunction>(
     individual: IndContext,
     obj_func: &F,
-    abort_signal_recv: async_broadcast::Receiver<()>,
+    mut abort_signal_recv: async_broadcast::Receiver<()>,
     seed: u64,
-) -> Result<EvaluatedIndividual, Error> {
+) -> Result<Option<EvaluatedIndividual>, Error> {
+    if abort_signal_recv.try_recv().is_ok() {
+        return Ok(None);
+    }
+
     let start_time = Instant::now();
 
     let eval_result = obj_func
@@ -190,12 +196,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
         .transpose()
         .map_err(|_| Error::ObjFuncValMustBeFinite)?;
 
-    Ok(EvaluatedIndividual {
+    Ok(Some(EvaluatedIndividual {
         obj_func_val: finitified_result,
         ind_ctx: individual,
         eval_time,
         seed,
-    })
+    }))
 }
 
 struct SeedManager {
-- 
2.43.0


From 06a9359a3a24bcba88ba8eb9f5de84887372f437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:19 +0000
Subject: [PATCH 20/21] fix: notice a terminate request although evaluations
 complete without suspending

---
 src/controller.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/controller.rs b/src/controller.rs
index fdb2bd4..f92c0b6 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -106,6 +106,8 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                         }
                         algo_ctx.process_individual_eval(evaled_individual.ind_ctx, evaled_individual.obj_func_val);
 
+                        // evaluations may complete without ever suspending: let commands through
+                        tokio::task::yield_now().await;
 
                         if let (Some(target_obj_func_val), Some(best_seen_final)) =
                         (target_obj_func_val, algo_ctx.best_seen_final()) {
-- 
2.43.0


From 03ac7622fb3f6b063032588479cb23624afd5afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:11 +0000
Subject: [PATCH 21/21] fix: a tagged key does not name a parameter

---
 src/spec_util.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 766b014..a2158c4 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -219,7 +219,7 @@ fn build_sub(
 
     let mut sub_type_defs = type_defs.clone();
     for (key, value) in mapping {
-        match key.as_str() {
+        match attribute_name(key) {
             Some(attribute_key) if attribute_key.starts_with("typeDef ") => {
                 let type_name = attribute_key.strip_prefix("typeDef ").unwrap();
 
@@ -248,7 +248,7 @@ fn build_sub(
     }
 
     for (key, value) in mapping {
-        match key.as_str() {
+        match attribute_name(key) {
             Some(attribute_key)
                 if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
             {
@@ -361,7 +361,7 @@ fn build_variant(
 
     let mut out_mapping = HashMap::default();
     for (key, value) in mapping {
-        match key.as_str() {
+        match attribute_name(key) {
             Some(attribute_key) if !attribute_key.eq("type") && !attribute_key.eq("init") => {
                 let path_of_sub = [path, &[attribute_key]].concat();
                 out_mapping.insert(
@@ -640,6 +640,14 @@ fn check_for_unexpected_attributes<const N: usize>(
     Ok(())
 }
 
+/// Only plain strings name attributes; in particular, tagged ones do not
+fn attribute_name(key: &serde_yaml::Value) -> Option<&str> {
+    match key {
+        serde_yaml::Value::String(name) => Some(name),
+        _ => None,
+    }
+}
+
 fn format_attribute_key(key: &serde_yaml::Value) -> String {
     serde_yaml::to_string(key).unwrap().replace('\n', "")
 }
-- 
2.43.0

