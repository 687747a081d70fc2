From 7109c61f42c6dd50fdf56ce4087b1c59e8a63302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 01/22] fix: keep parameters whose name merely starts with
 "typeDef"

Only keys of the form "typeDef <name>" define types; the member pass also
skipped any other key with that prefix (e.g. "typeDefs"), silently dropping
the parameter.
---
 src/spec_util.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index 44beafd..ef59cc1 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -250,7 +250,7 @@ fn build_sub(
     for (key, value) in mapping {
         match key.as_str() {
             Some(attribute_key)
-                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef") =>
+                if !attribute_key.eq("type") && !attribute_key.starts_with("typeDef ") =>
             {
                 let path_of_sub = [path, &[attribute_key]].concat();
                 out_mapping.insert(
-- 
2.43.0


From 7bc0d2a7b2682cd9ec58ab4715085b5746b506cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:34 +0000
Subject: [PATCH 02/22] fix: require two distinct enum values

An enum listing the same value several times was accepted, and mutating it
panicked because there was no other value to switch to.
---
 src/spec_util.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index ef59cc1..bc7e04f 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -438,6 +438,12 @@ fn build_enum(mapping: &serde_yaml::Mapping, path: &[&str]) -> Result<Node, Erro
         }
     }
 
+    if values.iter().unique().count() < 2 {
+        return Err(Error::NotEnoughEnumValues {
+            path_hint: format_path(path),
+        });
+    }
+
     if !values.contains(&init_value) {
         return Err(Error::InitNotAKnownValue {
             path_hint: format_path(path),
-- 
2.43.0


From 89af883010e0a881e535009beadb33221ff94ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:59 +0000
Subject: [PATCH 03/22] fix: do not panic on attribute keys that cannot be
 re-serialised

Nested tagged keys make serde_yaml::to_string fail; the error message for an
invalid attribute key then panicked instead of being returned.
---
 src/spec_util.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/spec_util.rs b/src/spec_util.rs
index bc7e04f..6be36ee 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -641,7 +641,9 @@ fn check_for_unexpected_attributes<const N: usize>(
 }
 
 fn format_attribute_key(key: &serde_yaml::Value) -> String {
-    serde_yaml::to_string(key).unwrap().replace('\n', "")
+    serde_yaml::to_string(key)
+        .unwrap_or_else(|_| format!("{:?}", key))
+        .replace('\n', "")
 }
 
 #[cfg(test)]
-- 
2.43.0


From 70ddf32e2897497414816ada57379fa1ca0aa8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:07 +0000
Subject: [PATCH 04/22] fix: reject specs nested too deeply instead of
 overflowing the stack

A chain of type definitions multiplies the nesting depth of a document, so a
short spec file could describe a parameter space thousands of levels deep and
abort the process while parsing it.
---
 src/error.rs     |  2 ++
 src/spec_util.rs | 26 ++++++++++++++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/error.rs b/src/error.rs
index e3c3850..3101524 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -118,6 +118,8 @@ pub enum Error {
         path_hint: String,
         type_def_name: String,
     },
+    #[error("at path {path_hint:?}: spec is nested too deeply")]
+    NestingTooDeep { path_hint: String },
     #[error("received non-finite objective function value")]
     ObjFuncValMustBeFinite,
     #[error("no successfully evaluated individuals available")]
diff --git a/src/spec_util.rs b/src/spec_util.rs
index 6be36ee..d3fd248 100644
--- a/src/spec_util.rs
+++ b/src/spec_util.rs
@@ -34,6 +34,27 @@ const BUILT_IN_TYPE_NAMES: &[&str] = &[
     "real", "int", "bool", "sub", "array", "anon map", "variant", "enum", "optional", "const",
 ];
 
+/// Chained type definitions can describe arbitrarily deep specs, which would exhaust the stack.
+const MAX_NESTING_DEPTH: usize = 512;
+
+fn nesting_depth(spec_node: &Node) -> usize {
+    let max_child_depth = match spec_node {
+        Node::Sub { map } | Node::Variant { map, .. } => {
+            map.values().map(|node| nesting_depth(node)).max()
+        }
+        Node::Array { value_type, .. }
+        | Node::AnonMap { value_type, .. }
+        | Node::Optional { value_type, .. } => Some(nesting_depth(value_type)),
+        Node::Bool { .. }
+        | Node::Real { .. }
+        | Node::Int { .. }
+        | Node::Enum { .. }
+        | Node::Const => None,
+    };
+
+    1 + max_child_depth.unwrap_or(0)
+}
+
 fn build_node(
     yaml_val: &serde_yaml::Value,
     type_defs: &HashMap<String, Node>,
@@ -65,6 +86,11 @@ fn build_node(
         type_name => match type_defs.get(type_name) {
             Some(node) => {
                 check_for_unexpected_attributes(mapping, ["type"], path)?;
+                if path.len() + nesting_depth(node) > MAX_NESTING_DEPTH {
+                    return Err(Error::NestingTooDeep {
+                        path_hint: format_path(path),
+                    });
+                }
                 Ok(node.clone())
             }
             None => Err(Error::UnknownTypeName {
-- 
2.43.0


From acaf5d4a61f6949981bd8aa92d0faba05cb981cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:58 +0000
Subject: [PATCH 05/22] fix: never give an added map element a key that is
 already in use

---
 src/mutation.rs | 7 ++++++-
 src/path.rs     | 4 ++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 7e239b8..8835bc2 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -221,7 +221,12 @@ fn mutate_anon_map(
                 .cloned()
                 .unwrap_or_else(|| value_type.initial_value());
 
-            let key = path_node_ctx.next_key();
+            let key = loop {
+                let key = path_node_ctx.next_key();
+                if !value_map.contains_key(&key) {
+                    break key;
+                }
+            };
             let child_path_node_ctx = path_node_ctx.get_or_create_child_mut(&key.to_string());
             let child_mutation_params = child_path_node_ctx
                 .rescaling_ctx
diff --git a/src/path.rs b/src/path.rs
index 77b7e67..141380e 100644
--- a/src/path.rs
+++ b/src/path.rs
@@ -21,12 +21,12 @@ pub struct KeyManager {
 impl KeyManager {
     pub fn next_key(&mut self) -> usize {
         let result = self.next_key;
-        self.next_key += 1;
+        self.next_key = self.next_key.wrapping_add(1);
         result
     }
 
     fn on_key_seen(&mut self, key: usize) {
-        self.next_key = self.next_key.max(key + 1);
+        self.next_key = self.next_key.max(key.saturating_add(1));
     }
 }
 
-- 
2.43.0


From 020e39db7b0e73a8a55c8176a2ba03d02ed07629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:49 +0000
Subject: [PATCH 06/22] fix: reject guesses with a wrong array length or map
 size

---
 src/error.rs      |  8 ++++++++
 src/value_util.rs | 49 +++++++++++++++++++++++++++++++++++++++--------
 2 files changed, 49 insertions(+), 8 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 3101524..3446c3d 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -95,6 +95,14 @@ pub enum Error {
     InitNotAKnownValue { path_hint: String, init: String },
     #[error("at path {path_hint:?}: value not within bounds")]
     ValueNotWithinBounds { path_hint: String },
+    #[error("at path {path_hint:?}: array must have exactly {expected} elements, found {found}")]
+    WrongArrayLength {
+        path_hint: String,
+        expected: usize,
+        found: usize,
+    },
+    #[error("at path {path_hint:?}: number of elements is not within bounds")]
+    SizeNotWithinBounds { path_hint: String },
     #[error("at path {path_hint:?}: exactly one variant value must be present, found {}", .num_variant_values_found)]
     ExactlyOneVariantValueRequired {
         path_hint: String,
diff --git a/src/value_util.rs b/src/value_util.rs
index d5bbaf5..04b213d 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -25,8 +25,16 @@ fn build_node(
         spec::Node::Int { min, max, .. } => build_int(json_val, min, max, path),
         spec::Node::Bool { .. } => build_bool(json_val, path),
         spec::Node::Sub { map: ref spec_map } => build_sub(json_val, spec_map, path),
-        spec::Node::Array { ref value_type, .. } => build_array(json_val, value_type, path),
-        spec::Node::AnonMap { ref value_type, .. } => build_anon_map(json_val, value_type, path),
+        spec::Node::Array {
+            ref value_type,
+            size,
+        } => build_array(json_val, value_type, size, path),
+        spec::Node::AnonMap {
+            ref value_type,
+            min_size,
+            max_size,
+            ..
+        } => build_anon_map(json_val, value_type, min_size, max_size, path),
         spec::Node::Variant {
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
@@ -165,10 +173,19 @@ fn build_sub(
 fn build_array(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    size: usize,
     path: &[&str],
 ) -> Result<Node, Error> {
     match json_val {
         serde_json::Value::Array(json_values) => {
+            if json_values.len() != size {
+                return Err(Error::WrongArrayLength {
+                    path_hint: format_path(path),
+                    expected: size,
+                    found: json_values.len(),
+                });
+            }
+
             let mut elements = Vec::with_capacity(json_values.len());
 
             for (idx, json_value) in json_values.iter().enumerate() {
@@ -190,9 +207,11 @@ fn build_array(
 fn build_anon_map(
     json_val: &serde_json::Value,
     spec_node: &spec::Node,
+    min_size: Option<usize>,
+    max_size: Option<usize>,
     path: &[&str],
 ) -> Result<Node, Error> {
-    match json_val {
+    let result_mapping = match json_val {
         serde_json::Value::Array(json_values) => {
             let mut result_mapping = HashMap::default();
 
@@ -203,7 +222,7 @@ fn build_anon_map(
                 result_mapping.insert(next_id, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            result_mapping
         }
         serde_json::Value::Object(json_mapping) => {
             let mut result_mapping = HashMap::default();
@@ -224,13 +243,27 @@ fn build_anon_map(
                 result_mapping.insert(key, Box::new(value));
             }
 
-            Ok(Node::AnonMap(result_mapping))
+            result_mapping
         }
-        _ => Err(Error::WrongTypeForValue {
+        _ => {
+            return Err(Error::WrongTypeForValue {
+                path_hint: format_path(path),
+                type_hint: "array or map".to_string(),
+            })
+        }
+    };
+
+    let size = result_mapping.len();
+
+    if min_size.map_or(false, |min_size| size < min_size)
+        || max_size.map_or(false, |max_size| size > max_size)
+    {
+        return Err(Error::SizeNotWithinBounds {
             path_hint: format_path(path),
-            type_hint: "array or map".to_string(),
-        }),
+        });
     }
+
+    Ok(Node::AnonMap(result_mapping))
 }
 
 fn build_variant(
-- 
2.43.0


From 230628f9e0776977a02f4a91bd252cc5f96da82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 07/22] fix: stop polling the abort signal once the run is
 being aborted

---
 src/controller.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 39c86b9..082f50d 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -131,11 +131,9 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv => {
-                if !abort_signal_received {
-                    abort_signal_received = true;
-                    abort_signal_sender.broadcast(()).await.unwrap();
-                }
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                abort_signal_received = true;
+                abort_signal_sender.broadcast(()).await.unwrap();
             }
         }
     }
-- 
2.43.0


From fbff097c9eea4fefcb3f8e43844a1bb61f94fc7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:43 +0000
Subject: [PATCH 08/22] fix: do not start evaluations that were queued before
 the run was aborted

---
 src/controller.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/controller.rs b/src/controller.rs
index 082f50d..8cece66 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -78,7 +78,8 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                 match evaled_individual {
 
                     Ok(None) => break,
-                    Ok(Some(evaled_individual)) => {
+                    Ok(Some(None)) => {}
+                    Ok(Some(Some(evaled_individual))) => {
 
                         let detailed_report_item = DetailedReportItem {
                             individual_id: evaled_individual.ind_ctx.id,
@@ -168,7 +169,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
     obj_func: &F,
     abort_signal_recv: async_broadcast::Receiver<()>,
     seed: u64,
-) -> Result<EvaluatedIndividual, Error> {
+) -> Result<Option<EvaluatedIndividual>, Error> {
+    if !abort_signal_recv.is_empty() {
+        // the run was aborted before this evaluation got to start
+        return Ok(None);
+    }
+
     let start_time = Instant::now();
 
     let eval_result = obj_func
@@ -187,12 +193,12 @@ async fn evaluate_individual<F: AsyncObjectiveFunction>(
         .transpose()
         .map_err(|_| Error::ObjFuncValMustBeFinite)?;
 
-    Ok(EvaluatedIndividual {
+    Ok(Some(EvaluatedIndividual {
         obj_func_val: finitified_result,
         ind_ctx: individual,
         eval_time,
         seed,
-    })
+    }))
 }
 
 struct SeedManager {
-- 
2.43.0


From 992f3c96b45f047fdb30098733b39ef01b1fd6c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:07 +0000
Subject: [PATCH 09/22] fix: after a failure, wait for the evaluations in
 flight even if one reaches the target

---
 src/controller.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/controller.rs b/src/controller.rs
index 8cece66..93eec95 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -102,7 +102,7 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
 
                         if let (Some(target_obj_func_val), Some(best_seen_final)) =
                         (target_obj_func_val, algo_ctx.best_seen_final()) {
-                            if best_seen_final.0.get() <= target_obj_func_val {
+                            if error_recording.is_none() && best_seen_final.0.get() <= target_obj_func_val {
                                 break;
                             }
                         }
-- 
2.43.0


From d57ed62afcec7cdb2013a232b35100dd365f68a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:00 +0000
Subject: [PATCH 10/22] fix: a delivered abort request takes precedence over
 replacing finished evaluations

---
 src/async_launch.rs |  2 ++
 src/controller.rs   | 10 ++++++----
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/async_launch.rs b/src/async_launch.rs
index b419f72..b0af843 100644
--- a/src/async_launch.rs
+++ b/src/async_launch.rs
@@ -38,7 +38,9 @@ pub async fn launch<F: AsyncObjectiveFunction>(
     tokio::pin!(controller);
 
     loop {
+        // A command takes effect before the controller gets to start anything else
         tokio::select! {
+            biased;
             cmd = cmd_recv.next() => {
                 if let Some(Command::Terminate) = cmd {
                     abort_sig_sender_holder.take().map(|sender| sender.send(()).ok());
diff --git a/src/controller.rs b/src/controller.rs
index 93eec95..a324820 100644
--- a/src/controller.rs
+++ b/src/controller.rs
@@ -73,7 +73,13 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
     let mut error_recording = None;
 
     loop {
+        // An abort request takes precedence over finished evaluations, which would be replaced
         tokio::select! {
+            biased;
+            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
+                abort_signal_received = true;
+                abort_signal_sender.broadcast(()).await.unwrap();
+            }
             evaled_individual = &mut evaled_individuals.try_next() => {
                 match evaled_individual {
 
@@ -132,10 +138,6 @@ pub async fn start_controller<F: AsyncObjectiveFunction>(
                     }
                 }
             }
-            _ = &mut in_abort_signal_recv, if !abort_signal_received => {
-                abort_signal_received = true;
-                abort_signal_sender.broadcast(()).await.unwrap();
-            }
         }
     }
 
-- 
2.43.0


From 0dbcb2f523d10bb6533137ce71f7949c7fccfc49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:07 +0000
Subject: [PATCH 11/22] fix: never mutate a number to a non-finite value

---
 src/mutation.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/mutation.rs b/src/mutation.rs
index 8835bc2..a7c5c4e 100644
--- a/src/mutation.rs
+++ b/src/mutation.rs
@@ -401,10 +401,9 @@ fn mutate_cauchy(
         scale * mutation_params.mutation_scale,
     );
 
-    if let Ok(dist) = dist {
-        dist.sample(rng)
-    } else {
-        value
+    match dist.map(|dist| dist.sample(rng)) {
+        Ok(sample) if sample.is_finite() => sample,
+        _ => value,
     }
 }
 
-- 
2.43.0


From c42ff88584ed46b388f4898694d2b5b49e288dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:10 +0000
Subject: [PATCH 12/22] fix: keep the adaptive mutation scale positive and
 finite

---
 src/meta_adapt.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/meta_adapt.rs b/src/meta_adapt.rs
index 7aa3974..359b1c7 100644
--- a/src/meta_adapt.rs
+++ b/src/meta_adapt.rs
@@ -21,6 +21,10 @@ fn rescale_prob(prob: f64, rng: &mut StdRng) -> f64 {
     rescale(prob, rng).min(1.0)
 }
 
+fn rescale_scale(scale: f64, rng: &mut StdRng) -> f64 {
+    rescale(scale, rng).clamp(f64::MIN_POSITIVE, f64::MAX)
+}
+
 pub fn create_exploratory(rng: &mut StdRng) -> (CrossoverParams, MutationParams) {
     let crossover_params = CrossoverParams {
         crossover_prob: 0.5,
@@ -47,7 +51,7 @@ pub fn mutate(
 
     let mutation_params = MutationParams {
         mutation_prob: rescale_prob(mutation_params.mutation_prob, rng),
-        mutation_scale: rescale(mutation_params.mutation_scale, rng),
+        mutation_scale: rescale_scale(mutation_params.mutation_scale, rng),
     };
 
     (crossover_params, mutation_params)
-- 
2.43.0


From ad82b146346f5a41d3ca1ac8c5786cd1a60f93e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:47 +0000
Subject: [PATCH 13/22] fix: do not fail the run when the killed child was
 reaped by the pending wait

---
 src/process.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index c85257a..26deda2 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -40,7 +40,8 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
             Err(Errno::ESRCH) => Ok(()),
             Err(_) => Err(Error::FailedToKillChildProcessGroup(pgid)),
             Ok(()) => match wait::waitpid(pgid, None) {
-                Ok(_) => Ok(()),
+                // the pending wait for the output may have reaped the child first
+                Ok(_) | Err(Errno::ECHILD) => Ok(()),
                 Err(_) => Err(Error::FailedToReapChildProcessGroup(pgid)),
             },
         }
-- 
2.43.0


From ff15c1c5417e1612610c7043a8efc4472b512742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:54 +0000
Subject: [PATCH 14/22] fix: leave no objective function process behind when an
 evaluation is abandoned or its child exits first

---
 src/process.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/process.rs b/src/process.rs
index 26deda2..6be3872 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -50,6 +50,18 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
     }
 }
 
+/// Makes sure that nothing is left of the process group when the evaluation is over, however it
+/// ends: also when it is abandoned, and when the child is gone but its own children are not.
+struct ChildProcGroupGuard {
+    pgid: Option<Pid>,
+}
+
+impl Drop for ChildProcGroupGuard {
+    fn drop(&mut self) {
+        kill_and_reap_child_proc_group(self.pgid).ok();
+    }
+}
+
 #[allow(non_snake_case)]
 #[derive(Debug, Deserialize)]
 #[serde(deny_unknown_fields)]
@@ -115,6 +127,9 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
             .map_err(Error::UnableToLaunchObjFuncProcess)?;
 
         let unreaped_pgid = child.id().map(|pgid| Pid::from_raw(pgid as i32));
+        let _guard = ChildProcGroupGuard {
+            pgid: unreaped_pgid,
+        };
 
         let child_result = get_child_result(child, &json_arg, seed, individual_id);
 
-- 
2.43.0


From 8761f28ead4969dc8c79d041248ff0ce473e63d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:00 +0000
Subject: [PATCH 15/22] fix: do not panic on non-UTF-8 stderr of the objective
 function process

---
 src/process.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 6be3872..0ffe5ba 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -81,7 +81,7 @@ async fn get_child_result(
         info!(
             "Individual {}: non-empty stderr: {}",
             individual_id,
-            String::from_utf8(output.stderr.clone()).unwrap()
+            String::from_utf8_lossy(&output.stderr)
         );
     }
 
-- 
2.43.0


From 3501755cd72f097e1e966ed5e021c87ef59e5786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:24 +0000
Subject: [PATCH 16/22] fix: reject an array as objective function output

---
 src/process.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/process.rs b/src/process.rs
index 0ffe5ba..678dd20 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -86,14 +86,14 @@ async fn get_child_result(
     }
 
     if output.status.success() {
-        let result: ObjFuncChildResult = serde_json::from_slice(&output.stdout).map_err(|_| {
-            Error::ObjFuncProcInvalidOutput(ProcOutputWithObjFuncArg::new(
-                obj_func_arg.to_owned(),
-                seed,
-                output,
-            ))
-        })?;
-        Ok(result.objFuncVal)
+        // serde would also read the struct from an array
+        let is_object = output.stdout.iter().find(|b| !b.is_ascii_whitespace()) == Some(&b'{');
+        match serde_json::from_slice::<ObjFuncChildResult>(&output.stdout) {
+            Ok(result) if is_object => Ok(result.objFuncVal),
+            _ => Err(Error::ObjFuncProcInvalidOutput(
+                ProcOutputWithObjFuncArg::new(obj_func_arg.to_owned(), seed, output),
+            )),
+        }
     } else {
         trace!(
             "Child terminated unsuccessfully, status: {:?}",
-- 
2.43.0


From 01c6fe9cc713fcd8a777973f2a09e13bc581cdec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:31 +0000
Subject: [PATCH 17/22] fix: refuse a non-finite target

---
 src/termination.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/termination.rs b/src/termination.rs
index 6743c9e..f18b3d3 100644
--- a/src/termination.rs
+++ b/src/termination.rs
@@ -31,6 +31,9 @@ where
             NumObjFuncEval(num_eval) if max_num_obj_func_eval.is_none() => {
                 max_num_obj_func_eval = Some(num_eval)
             }
+            TargetObjFuncVal(target) if !target.is_finite() => {
+                return Err(Error::TargetObjFuncValMustBeFinite)
+            }
             TargetObjFuncVal(target) if target_obj_func_val.is_none() => {
                 target_obj_func_val = Some(target)
             }
-- 
2.43.0


From d7584abc32d01dfaac356f42b99602514e6411d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:53 +0000
Subject: [PATCH 18/22] fix: finish writing the report files before going on

---
 src/sync_launch.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index ac9aff3..65f07c7 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -74,6 +74,9 @@ async fn write_best_seen_file(
         .write_all(value.to_string().as_bytes())
         .await?;
 
+    // the write happens in the background and must not overtake the next one
+    best_seen_file.flush().await?;
+
     Ok(())
 }
 
@@ -114,6 +117,8 @@ async fn handle_detailed_report_items(
                 }
             };
         }
+
+        detailed_report_file.flush().await?;
     } else {
         item_receiver
             .map(Ok)
-- 
2.43.0


From 581d805f2e6b7588fd7b4268e79cce51a81512ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:33 +0000
Subject: [PATCH 19/22] fix: do not reject an evaluation that finished in time
 because that was noticed late

---
 src/process.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/process.rs b/src/process.rs
index 678dd20..b603fda 100644
--- a/src/process.rs
+++ b/src/process.rs
@@ -6,13 +6,17 @@ use futures::future::Either;
 use log::{info, trace};
 use nix::errno::Errno;
 use nix::sys::signal::{self, Signal};
-use nix::sys::wait;
+use nix::sys::wait::{self, Id, WaitPidFlag, WaitStatus};
 use nix::unistd::Pid;
 use serde::Deserialize;
 use std::ffi::OsStr;
 use std::process::Stdio;
 use std::{ffi::OsString, time::Duration};
 use tokio::process::Command;
+use tokio::time::timeout;
+
+/// How long collecting the output of a child that has already exited may take.
+const OUTPUT_COLLECTION_TIME: Duration = Duration::from_millis(200);
 
 pub struct ObjFuncProcessDef {
     pub program: OsString,
@@ -50,6 +54,14 @@ fn kill_and_reap_child_proc_group(unreaped_pgid: Option<Pid>) -> Result<(), Erro
     }
 }
 
+fn has_exited(child: Pid) -> bool {
+    let flags = WaitPidFlag::WEXITED | WaitPidFlag::WNOHANG | WaitPidFlag::WNOWAIT;
+    !matches!(
+        wait::waitid(Id::Pid(child), flags),
+        Ok(WaitStatus::StillAlive)
+    )
+}
+
 /// Makes sure that nothing is left of the process group when the evaluation is over, however it
 /// ends: also when it is abandoned, and when the child is gone but its own children are not.
 struct ChildProcGroupGuard {
@@ -149,6 +161,12 @@ impl AsyncObjectiveFunction for ObjFuncProcessDef {
                 return result
             }
             _ = &mut timeout_fut => {
+                if unreaped_pgid.map_or(false, has_exited) {
+                    // the child may have finished in time without that having been noticed yet
+                    if let Ok(result) = timeout(OUTPUT_COLLECTION_TIME, &mut child_result).await {
+                        return result;
+                    }
+                }
                 kill_and_reap_child_proc_group(unreaped_pgid)?;
                 return Ok(None)
             }
-- 
2.43.0


From 1305a4904909ff7bb376dcbc0c18f05864900ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:32 +0000
Subject: [PATCH 20/22] fix: read null as a present optional where the initial
 value is one that is written as null

---
 src/value_util.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/value_util.rs b/src/value_util.rs
index 04b213d..e56b3d5 100644
--- a/src/value_util.rs
+++ b/src/value_util.rs
@@ -39,7 +39,10 @@ fn build_node(
             map: ref spec_map, ..
         } => build_variant(json_val, spec_map, path),
         spec::Node::Enum { ref values, .. } => build_enum(json_val, values, path),
-        spec::Node::Optional { ref value_type, .. } => build_optional(json_val, value_type, path),
+        spec::Node::Optional {
+            ref value_type,
+            init_present,
+        } => build_optional(json_val, value_type, init_present, path),
         spec::Node::Const => build_const(json_val, path),
     }
 }
@@ -326,10 +329,19 @@ fn build_enum(
 fn build_optional(
     json_val: &serde_json::Value,
     value_type: &spec::Node,
+    init_present: bool,
     path: &[&str],
 ) -> Result<Node, Error> {
     Ok(match json_val {
-        serde_json::Value::Null => Node::Optional(None),
+        serde_json::Value::Null => {
+            // a present value may be written as null too: if the initial one is, that is meant
+            let initial_value = init_present.then(|| value_type.initial_value());
+            Node::Optional(
+                initial_value
+                    .filter(|value| value.to_json().is_null())
+                    .map(Box::new),
+            )
+        }
         present_value => {
             Node::Optional(Some(Box::new(build_node(present_value, value_type, path)?)))
         }
-- 
2.43.0


From c9ba850898a9b831ac20afef6a1cd484f4cc6e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 21/22] fix: run closures on blocking threads, so that a
 waiting one never keeps another from starting

---
 src/sync_launch.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index 65f07c7..6549a58 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -151,6 +151,9 @@ where
         runtime::Builder::new_current_thread()
     };
 
+    // room for the evaluations and for writing the report files
+    runtime_builder.max_blocking_threads(algo_config.num_concurrent.saturating_add(1).max(512));
+
     let termination_criteria = termination::compile(termination_criteria)?;
 
     let (mut cmd_sender, cmd_recv) = mpsc::channel::<Command>(CHANNEL_BUF_SIZE);
@@ -241,7 +244,8 @@ where
     ) -> Result<Option<f64>, Error> {
         let obj_func = self.obj_func.clone();
 
-        let join_handle = tokio::spawn(async move { obj_func.evaluate(value) });
+        // a blocking call on a worker thread could keep another evaluation from being started
+        let join_handle = tokio::task::spawn_blocking(move || obj_func.evaluate(value));
 
         tokio::select! {
             _ = abort_sig_recv.recv() => return Ok(None),
-- 
2.43.0


From 24c889bea32b1b93143786d73544d2f4dd9f2190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:04 +0000
Subject: [PATCH 22/22] fix: let more than one run of a process be terminated
 by a signal

---
 src/sync_launch.rs | 33 ++++++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/src/sync_launch.rs b/src/sync_launch.rs
index 6549a58..d599d3a 100644
--- a/src/sync_launch.rs
+++ b/src/sync_launch.rs
@@ -11,7 +11,7 @@ use crate::{meta::ObjectiveFunction, spec::Spec};
 use async_trait::async_trait;
 use ctrlc;
 use futures::channel::mpsc;
-use futures::channel::mpsc::Receiver;
+use futures::channel::mpsc::{Receiver, Sender};
 use futures::executor;
 use futures::future::Either;
 use futures::pin_mut;
@@ -23,7 +23,7 @@ use futures_timer::Delay;
 use log::info;
 use std::panic;
 use std::path::PathBuf;
-use std::sync::Arc;
+use std::sync::{Arc, Mutex};
 use tokio::fs::File;
 use tokio::io::AsyncWriteExt;
 use tokio::runtime;
@@ -130,6 +130,29 @@ async fn handle_detailed_report_items(
     Ok(())
 }
 
+/// The runs to be terminated on a signal: a process can have one handler only. None: not set yet.
+static TERMINATE_ON_SIGNAL: Mutex<Option<Vec<Sender<Command>>>> = Mutex::new(None);
+
+fn terminate_on_signal(cmd_sender: Sender<Command>) -> Result<(), Error> {
+    let mut cmd_senders = TERMINATE_ON_SIGNAL.lock().unwrap();
+
+    if let Some(cmd_senders) = &mut *cmd_senders {
+        cmd_senders.retain(|cmd_sender| !cmd_sender.is_closed());
+        cmd_senders.push(cmd_sender);
+    } else {
+        ctrlc::set_handler(|| {
+            info!("Received signal, will terminate after collecting result");
+            let cmd_senders = TERMINATE_ON_SIGNAL.lock().unwrap().clone();
+            for mut cmd_sender in cmd_senders.into_iter().flatten() {
+                executor::block_on(cmd_sender.send(Command::Terminate)).ok();
+            }
+        })?;
+        *cmd_senders = Some(vec![cmd_sender]);
+    }
+
+    Ok(())
+}
+
 pub fn launch_with_async_obj_func<F, T>(
     spec: Spec,
     obj_func: F,
@@ -175,11 +198,7 @@ where
         handle_detailed_report_items(detailed_reporting_file_info, detailed_report_recv);
 
     if termination_criteria.terminate_on_signal {
-        let mut sender_for_handler = cmd_sender.clone();
-        ctrlc::set_handler(move || {
-            info!("Received signal, will terminate after collecting result");
-            executor::block_on(sender_for_handler.send(Command::Terminate)).ok();
-        })?;
+        terminate_on_signal(cmd_sender.clone())?;
     }
 
     runtime_builder
-- 
2.43.0

