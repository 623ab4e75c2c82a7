From 3fed5af07998dbc054df3314f6f1893203d1a859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 01/15] fix: cubic interactions skip by the position of the
 second feature

With a repeated second/third namespace the third loop skipped by the first
feature's position, so [A,B,B] dropped terms and [A,A,A] visited some twice.
---
 reductionml-core/src/weights.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/weights.rs b/reductionml-core/src/weights.rs
index ed44568..1b7e2dc 100644
--- a/reductionml-core/src/weights.rs
+++ b/reductionml-core/src/weights.rs
@@ -64,12 +64,15 @@ macro_rules! generate_foreach_feature_func {
                         let halfhash1 =
                             (FNV_PRIME as u64).wrapping_mul(u32::from(feat1.0) as u64) as u32;
                         if let Some(ns2) = features.get_namespace(*ns2) {
-                            for feat2 in ns2.iter().skip(if same_ns { i } else { 0 }) {
+                            let start = if same_ns { i } else { 0 };
+                            for (j, feat2) in ns2.iter().skip(start).enumerate() {
                                 let halfhash2 = (FNV_PRIME as u64)
                                     .wrapping_mul((halfhash1 ^ u32::from(feat2.0)) as u64)
                                     as u32;
                                 if let Some(ns3) = features.get_namespace(*ns3) {
-                                    for feat3 in ns3.iter().skip(if same_ns2 { i } else { 0 }) {
+                                    for feat3 in
+                                        ns3.iter().skip(if same_ns2 { start + j } else { 0 })
+                                    {
                                         let idx = FeatureHash::from(halfhash2 ^ u32::from(feat3.0))
                                             .mask(masker);
                                         let model_weight =
-- 
2.43.0


From 05fc4a05d399557e0e3ac31d21c274bf6c873248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 02/15] fix: reserving on a recycled namespace no longer
 underflows

---
 reductionml-core/src/sparse_namespaced_features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index d9490b4..d47bd7a 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -130,9 +130,9 @@ impl SparseFeaturesNamespace {
 
     pub fn reserve(&mut self, size: usize) {
         self.feature_indices
-            .reserve_exact(size - self.feature_indices.capacity());
+            .reserve_exact(size.saturating_sub(self.feature_indices.capacity()));
         self.feature_values
-            .reserve(size - self.feature_values.capacity());
+            .reserve(size.saturating_sub(self.feature_values.capacity()));
     }
 
     pub fn add_feature(&mut self, feature_index: FeatureIndex, feature_value: f32) {
-- 
2.43.0


From 544a8bca6afdf60e99e2f1f299e095f55c4cdd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 03/15] fix: anonymous feature hashes wrap instead of
 overflowing

---
 reductionml-core/src/inverse_hash_table.rs  | 2 +-
 reductionml-core/src/parsers.rs             | 2 +-
 reductionml-core/src/parsers/json_parser.rs | 5 +++--
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index eda9277..6672d3a 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -48,7 +48,7 @@ impl Feature {
             }
             Feature::Anonymous { namespace, offset } => {
                 let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
-                (namespace_hash + offset).into()
+                namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
             // In fact, the produced result is idenitical if interim values are masked or just the final value.
diff --git a/reductionml-core/src/parsers.rs b/reductionml-core/src/parsers.rs
index 9850247..32654da 100644
--- a/reductionml-core/src/parsers.rs
+++ b/reductionml-core/src/parsers.rs
@@ -26,7 +26,7 @@ impl<'a> ParsedFeature<'a> {
                 let name_key_hash = hash_bytes(name.as_bytes(), *namespace_hash);
                 FeatureHash::from(hash_bytes(value.as_bytes(), name_key_hash))
             }
-            ParsedFeature::Anonymous { offset } => (*namespace_hash + offset).into(),
+            ParsedFeature::Anonymous { offset } => (*namespace_hash).wrapping_add(*offset).into(),
         }
     }
 }
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index b11fb4d..e279849 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -28,8 +28,9 @@ pub fn to_features(
                     Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
-                            let it = (u32::from(ns_hash)..(u32::from(ns_hash) + ar.len() as u32))
-                                .map(|x| FeatureHash::from(x).mask(mask));
+                            let it = (0..ar.len() as u32).map(|i| {
+                                FeatureHash::from(u32::from(ns_hash).wrapping_add(i)).mask(mask)
+                            });
                             ns.add_features_with_iter(
                                 it,
                                 ar.iter().map(|x| {
-- 
2.43.0


From 482686ec06196e1d708c201a9178808864698dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 04/15] fix: a namespace that is set is present, one that is
 cleared is not removed as if present

---
 reductionml-core/src/sparse_namespaced_features.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index d47bd7a..f56689e 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -346,7 +346,9 @@ impl SparseFeatures {
     }
 
     pub fn remove_namespace(&mut self, namespace: Namespace) -> Option<SparseFeaturesNamespace> {
-        self.namespaces.remove(&namespace)
+        self.namespaces
+            .remove(&namespace)
+            .filter(|namespace| namespace.is_active())
     }
 
     pub fn clear(&mut self) {
@@ -366,8 +368,9 @@ impl SparseFeatures {
     pub fn set_namespace(
         &mut self,
         namespace: Namespace,
-        namespace_features: SparseFeaturesNamespace,
+        mut namespace_features: SparseFeaturesNamespace,
     ) {
+        namespace_features.set_active(true);
         self.namespaces.insert(namespace, namespace_features);
     }
 
-- 
2.43.0


From 8f0114d4de523dd2e5ebe958911454e586126057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 05/15] fix: Debug forwards the same model offset from
 predict_then_learn as from predict and learn

---
 reductionml-core/src/reductions/debug.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reductionml-core/src/reductions/debug.rs b/reductionml-core/src/reductions/debug.rs
index 32fb02a..5aff94e 100644
--- a/reductionml-core/src/reductions/debug.rs
+++ b/reductionml-core/src/reductions/debug.rs
@@ -196,7 +196,7 @@ impl ReductionImpl for DebugReduction {
 
         let prediction = self
             .next
-            .predict_then_learn(features, label, depth_info, model_offset);
+            .predict_then_learn(features, label, depth_info, 0.into());
         if self.prediction {
             self.print_debug(
                 "predict_then_learn",
-- 
2.43.0


From c1bcc543aa21a404ef1870f869e6f010573a37bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:04 +0000
Subject: [PATCH 06/15] fix: MTR learning supports examples without shared
 features

---
 reductionml-core/src/reductions/cb_adf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/reductions/cb_adf.rs b/reductionml-core/src/reductions/cb_adf.rs
index 1c0fac5..e81521f 100644
--- a/reductionml-core/src/reductions/cb_adf.rs
+++ b/reductionml-core/src/reductions/cb_adf.rs
@@ -214,7 +214,13 @@ impl ReductionImpl for CBAdfReduction {
                         shared_feats.remove(action);
                     }
                     None => {
-                        todo!()
+                        let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
+                        self.regressor.learn(
+                            &mut Features::SparseSimpleRef(action),
+                            &simple_label.into(),
+                            depth_info,
+                            0.into(),
+                        );
                     }
                 }
             }
-- 
2.43.0


From 51ce662e9b5e2d666eb992e686224366bb89c1a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 07/15] fix: detaching appended features keeps namespaces that
 were present but empty

---
 reductionml-core/src/sparse_namespaced_features.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index f56689e..a6667c7 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -66,6 +66,9 @@ pub struct SparseFeaturesNamespace {
     /// it is used to avoid iterating over the namespace when it is not active
     /// and also allow for object reuse
     active: bool,
+    /// set when `SparseFeatures::append` made this namespace active, so that
+    /// `SparseFeatures::remove` only deactivates what append activated
+    activated_by_append: bool,
 }
 
 impl AbsDiffEq for SparseFeaturesNamespace {
@@ -108,6 +111,7 @@ impl SparseFeaturesNamespace {
             feature_indices: Vec::new(),
             feature_values: Vec::new(),
             active: false,
+            activated_by_append: false,
         }
     }
 
@@ -117,6 +121,7 @@ impl SparseFeaturesNamespace {
             feature_indices: Vec::with_capacity(capacity),
             feature_values: Vec::with_capacity(capacity),
             active: false,
+            activated_by_append: false,
         }
     }
 
@@ -355,6 +360,7 @@ impl SparseFeatures {
         for namespace in self.namespaces.values_mut() {
             namespace.clear();
             namespace.set_active(false);
+            namespace.activated_by_append = false;
         }
     }
 
@@ -404,7 +410,9 @@ impl SparseFeatures {
     pub fn append(&mut self, other: &SparseFeatures) {
         for (ns, feats) in &other.namespaces {
             if feats.active {
+                let activated = self.get_namespace(*ns).is_none();
                 let container = self.get_or_create_namespace_with_capacity(*ns, feats.size());
+                container.activated_by_append |= activated;
                 container.add_features(&feats.feature_indices, &feats.feature_values);
             }
         }
@@ -420,9 +428,10 @@ impl SparseFeatures {
                 container.feature_indices.truncate(size - feats.size());
                 container.feature_values.truncate(size - feats.size());
 
-                // If the container is now empty, deactivate it.
-                if container.size() == 0 {
+                // If the container is now empty and was activated by append, deactivate it.
+                if container.size() == 0 && container.activated_by_append {
                     container.set_active(false);
+                    container.activated_by_append = false;
                 }
             }
         }
-- 
2.43.0


From cbbc3c90c157b3fc99c35b031d375b0e7cea3a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 08/15] fix: element-wise interaction handles absent and
 identical namespaces

An example without one of the two namespaces, or a pair naming the same
namespace twice, panicked; an existing namespace equal to the composite one
was lost.
---
 .../src/reductions/elementwise_interaction.rs | 52 ++++++++++++++-----
 1 file changed, 38 insertions(+), 14 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 11f8136..b4b52a6 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -139,8 +139,13 @@ fn elementwise_multiply(
     let composite_base = FeatureHash::from(u32::from(composite_ns.hash())).mask(mask);
 
     let mut dest_iter = SparseFeaturesNamespace::new(composite_ns);
-    let mut ns_one_it = features.get_namespace(one).unwrap().iter();
-    let mut ns_two_it = features.get_namespace(two).unwrap().iter();
+    // A namespace which the example does not have has no positions to match.
+    let (ns_one, ns_two) = match (features.get_namespace(one), features.get_namespace(two)) {
+        (Some(ns_one), Some(ns_two)) => (ns_one, ns_two),
+        _ => return (composite_ns, dest_iter),
+    };
+    let mut ns_one_it = ns_one.iter();
+    let mut ns_two_it = ns_two.iter();
     let mut cur_1 = ns_one_it.next();
     let mut cur_2 = ns_two_it.next();
     loop {
@@ -174,6 +179,16 @@ fn elementwise_multiply(
     (composite_ns, dest_iter)
 }
 
+fn restore_namespace(
+    features: &mut SparseFeatures,
+    namespace: Namespace,
+    removed: Option<SparseFeaturesNamespace>,
+) {
+    if let Some(namespace_features) = removed {
+        features.set_namespace(namespace, namespace_features);
+    }
+}
+
 #[typetag::serde]
 impl ReductionImpl for ElementwiseInteraction {
     fn predict(
@@ -187,6 +202,7 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
+        let replaced = sparse_feats.remove_namespace(composite_ns);
         sparse_feats.set_namespace(composite_ns, dest_iter);
         if self.keep_original_features {
             let pred = self
@@ -194,17 +210,19 @@ impl ReductionImpl for ElementwiseInteraction {
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, replaced);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, composite_ns, replaced);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
         }
     }
@@ -221,6 +239,7 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
+        let replaced = sparse_feats.remove_namespace(composite_ns);
         sparse_feats.set_namespace(composite_ns, dest_iter);
         if self.keep_original_features {
             let pred = self.regressor.predict_then_learn(
@@ -231,10 +250,11 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, replaced);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self.regressor.predict_then_learn(
                 &mut sparse_feats.into(),
                 label,
@@ -243,8 +263,9 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, composite_ns, replaced);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
         }
     }
@@ -261,21 +282,24 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
+        let replaced = sparse_feats.remove_namespace(composite_ns);
         sparse_feats.set_namespace(composite_ns, dest_iter);
         if self.keep_original_features {
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, replaced);
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, composite_ns, replaced);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
         }
     }
 
-- 
2.43.0


From 1b5e4709fb1583d3880acfc538f2455e4ced70c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 09/15] fix: element-wise interaction indices stay inside the
 feature space

---
 reductionml-core/src/reductions/elementwise_interaction.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index b4b52a6..bfdc6a5 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -160,10 +160,11 @@ fn elementwise_multiply(
             }
         };
 
-        let idx1 = u32::from(idx1) - u32::from(base_one);
-        let idx2 = u32::from(idx2) - u32::from(base_two);
+        // Positions are relative to the base within the (wrapping) feature space.
+        let idx1 = u32::from(idx1).wrapping_sub(u32::from(base_one)) & *mask;
+        let idx2 = u32::from(idx2).wrapping_sub(u32::from(base_two)) & *mask;
 
-        let dest_index = u32::from(composite_base) + idx1;
+        let dest_index = u32::from(composite_base).wrapping_add(idx1) & *mask;
 
         if idx1 == idx2 {
             dest_iter.add_feature(dest_index.into(), val1 * val2);
-- 
2.43.0


From edd470a914f7bcd139d79b1a66c4e4a464904a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:15 +0000
Subject: [PATCH 10/15] fix: JSON and dsjson input may contain blank lines

---
 reductionml-core/src/parsers/dsjson_parser.rs  | 7 ++-----
 reductionml-core/src/parsers/json_parser.rs    | 7 ++-----
 reductionml-core/src/parsers/vw_text_parser.rs | 2 +-
 3 files changed, 5 insertions(+), 11 deletions(-)

diff --git a/reductionml-core/src/parsers/dsjson_parser.rs b/reductionml-core/src/parsers/dsjson_parser.rs
index 90fe366..36e85da 100644
--- a/reductionml-core/src/parsers/dsjson_parser.rs
+++ b/reductionml-core/src/parsers/dsjson_parser.rs
@@ -10,6 +10,7 @@ use crate::sparse_namespaced_features::{Namespace, SparseFeatures};
 use crate::types::{Features, Label, LabelType};
 use crate::{CBAdfFeatures, CBLabel, FeatureMask, FeaturesType};
 
+use super::vw_text_parser::read_single_line;
 use super::{ParsedNamespaceInfo, TextModeParser, TextModeParserFactory};
 
 #[derive(Default)]
@@ -163,11 +164,7 @@ impl TextModeParser for DsJsonParser {
         mut output_buffer: String,
     ) -> Result<Option<String>> {
         output_buffer.clear();
-        input.read_line(&mut output_buffer)?;
-        if output_buffer.is_empty() {
-            return Ok(None);
-        }
-        Ok(Some(output_buffer))
+        read_single_line(input, output_buffer)
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index e279849..6590ecd 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -8,6 +8,7 @@ use crate::sparse_namespaced_features::{Namespace, SparseFeatures};
 use crate::types::{Features, Label, LabelType};
 use crate::{CBAdfFeatures, CBLabel, FeatureHash, FeatureMask, FeaturesType, SimpleLabel};
 
+use super::vw_text_parser::read_single_line;
 use super::{TextModeParser, TextModeParserFactory};
 
 use serde_json_borrow::Value;
@@ -188,11 +189,7 @@ impl TextModeParser for JsonParser {
         mut output_buffer: String,
     ) -> Result<Option<String>> {
         output_buffer.clear();
-        input.read_line(&mut output_buffer)?;
-        if output_buffer.is_empty() {
-            return Ok(None);
-        }
-        Ok(Some(output_buffer))
+        read_single_line(input, output_buffer)
     }
 
     fn parse_chunk<'a, 'b>(&self, chunk: &'a str) -> Result<(Features<'b>, Option<Label>)> {
diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index fbe7fc2..b88614e 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -418,7 +418,7 @@ fn read_multi_lines(
     }
 }
 
-fn read_single_line(
+pub(super) fn read_single_line(
     input: &mut dyn std::io::BufRead,
     mut output_buffer: String,
 ) -> Result<Option<String>> {
-- 
2.43.0


From 62b8a1919631b245ca67ea7bb92b19e0cea6aeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:40 +0000
Subject: [PATCH 11/15] fix: extracting feature names keeps repeated namespaces
 and namespaces without features

---
 .../src/parsers/vw_text_parser.rs             | 29 ++++++++++++-------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index b88614e..2e393bb 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -287,7 +287,7 @@ fn parse_namespace_info(input: &str) -> Result<(&str, (ParsedNamespaceInfo, f32)
     if first_char_is_space {
         Ok((&input[1..], (ParsedNamespaceInfo::Default, 1.0)))
     } else {
-        let input_until_first_space = input.find(' ').unwrap();
+        let input_until_first_space = input.find(' ').unwrap_or(input.len());
         let namespace_info_token = &input[..input_until_first_space];
         let (ns_name, ns_value) = parse_namespace_info_token(namespace_info_token)?;
         Ok((
@@ -314,6 +314,18 @@ fn extract_namespace_features(
 }
 
 // TODO revisit this function. Scanning to the last character is not ideal since it is linear time.
+// A namespace may occur several times in one example.
+fn merge_namespaces<'a>(
+    namespaces: impl Iterator<Item = Result<(ParsedNamespaceInfo<'a>, Vec<ParsedFeature<'a>>)>>,
+) -> Result<std::collections::HashMap<ParsedNamespaceInfo<'a>, Vec<ParsedFeature<'a>>>> {
+    let mut merged: std::collections::HashMap<_, Vec<_>> = std::collections::HashMap::new();
+    for namespace in namespaces {
+        let (info, features) = namespace?;
+        merged.entry(info).or_default().extend(features);
+    }
+    Ok(merged)
+}
+
 fn parse_initial_segment(
     text: &str,
     label_type: LabelType,
@@ -498,18 +510,15 @@ impl TextModeParser for VwTextParser {
         chunk: &'a str,
     ) -> Result<std::collections::HashMap<ParsedNamespaceInfo<'a>, Vec<ParsedFeature<'a>>>> {
         if self.is_multiline() {
-            chunk
-                .lines()
-                .flat_map(|line| {
-                    let mut segments = line.split('|');
-                    let _label_section = segments.next().unwrap();
-                    segments.map(extract_namespace_features)
-                })
-                .collect()
+            merge_namespaces(chunk.lines().flat_map(|line| {
+                let mut segments = line.split('|');
+                let _label_section = segments.next().unwrap();
+                segments.map(extract_namespace_features)
+            }))
         } else {
             let mut segments = chunk.split('|');
             let _label_section = segments.next().unwrap();
-            segments.map(extract_namespace_features).collect()
+            merge_namespaces(segments.map(extract_namespace_features))
         }
     }
 }
-- 
2.43.0


From 29294ae091104633bd442c88626651b533920d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:18 +0000
Subject: [PATCH 12/15] fix: a VW text namespace segment with nothing in it is
 the anonymous namespace

---
 reductionml-core/src/parsers/vw_text_parser.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index 2e393bb..12b5003 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -230,9 +230,10 @@ fn parse_namespace_inline(
     hash_seed: u32,
     num_bits: u8,
 ) -> Result<()> {
-    // Check if first char is a space or not
-    let first_char_is_space = namespace_segment.starts_with(' ');
     let mut tokens = namespace_segment.split_ascii_whitespace();
+    // Check if first char is a space or not. A segment with nothing in it is also anonymous.
+    let first_char_is_space =
+        namespace_segment.starts_with(' ') || tokens.clone().next().is_none();
 
     let (namespace_name, namespace_value) = if first_char_is_space {
         // Anonymous namespace
@@ -282,10 +283,11 @@ fn parse_namespace_info_token(namespace_segment: &str) -> Result<(&str, f32)> {
 
 // "Consumes" some amount of input and returns the namespace info and the remaining input
 fn parse_namespace_info(input: &str) -> Result<(&str, (ParsedNamespaceInfo, f32))> {
-    let first_char_is_space = input.starts_with(' ');
+    let first_char_is_space =
+        input.starts_with(' ') || input.split_ascii_whitespace().next().is_none();
     // Extract up until the first space
     if first_char_is_space {
-        Ok((&input[1..], (ParsedNamespaceInfo::Default, 1.0)))
+        Ok((input, (ParsedNamespaceInfo::Default, 1.0)))
     } else {
         let input_until_first_space = input.find(' ').unwrap_or(input.len());
         let namespace_info_token = &input[..input_until_first_space];
-- 
2.43.0


From 1cffc71229ab502a6926077caf4329e81fef7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:24 +0000
Subject: [PATCH 13/15] fix: extracting feature names splits a namespace from
 its features at any whitespace, as parsing does

---
 reductionml-core/src/parsers/vw_text_parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index 12b5003..31f24a6 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -289,7 +289,10 @@ fn parse_namespace_info(input: &str) -> Result<(&str, (ParsedNamespaceInfo, f32)
     if first_char_is_space {
         Ok((input, (ParsedNamespaceInfo::Default, 1.0)))
     } else {
-        let input_until_first_space = input.find(' ').unwrap_or(input.len());
+        let input = input.trim_start_matches(|c: char| c.is_ascii_whitespace());
+        let input_until_first_space = input
+            .find(|c: char| c.is_ascii_whitespace())
+            .unwrap_or(input.len());
         let namespace_info_token = &input[..input_until_first_space];
         let (ns_name, ns_value) = parse_namespace_info_token(namespace_info_token)?;
         Ok((
-- 
2.43.0


From 7f693567faccb1edbdad3ba5719f894a13efcff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:34 +0000
Subject: [PATCH 14/15] fix: stored features of the default namespace hash as
 the parsers hash them

---
 reductionml-core/src/inverse_hash_table.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index 6672d3a..57559c3 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -3,6 +3,7 @@ use serde::{Deserialize, Serialize};
 use crate::{
     hash::{hash_bytes, FNV_PRIME},
     parsers::ParsedFeature,
+    sparse_namespaced_features::Namespace,
     FeatureHash, FeatureIndex,
 };
 
@@ -34,7 +35,7 @@ impl Feature {
     pub fn hash(&self, hash_seed: u32) -> FeatureHash {
         match &self {
             Feature::Simple { namespace, name } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 hash_bytes(name.as_bytes(), namespace_hash).into()
             }
             Feature::SimpleWithStringValue {
@@ -42,12 +43,12 @@ impl Feature {
                 name,
                 value,
             } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 let name_key_hash = hash_bytes(name.as_bytes(), namespace_hash);
                 hash_bytes(value.as_bytes(), name_key_hash).into()
             }
             Feature::Anonymous { namespace, offset } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = *Namespace::from_name(namespace, hash_seed).hash();
                 namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
-- 
2.43.0


From a82c7a62a8b524b01ced247c0ec4a837100bb358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:53 +0000
Subject: [PATCH 15/15] fix: keep the running normaliser finite so that a JSON
 model loads

---
 reductionml-core/src/reductions/coin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index 99d0b65..2fa729f 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -339,8 +339,10 @@ impl CoinRegressor {
         // todo select correct one
         self.model_states[0].normalized_sum_norm_x += normalized_squared_norm_x * weight;
         self.model_states[0].total_weight += weight;
-        self.average_squared_norm_x =
-            (self.model_states[0].normalized_sum_norm_x + 1e-6) / self.model_states[0].total_weight;
+        // Kept finite when the examples seen so far have no weight, the JSON model cannot hold an infinity
+        self.average_squared_norm_x = ((self.model_states[0].normalized_sum_norm_x + 1e-6)
+            / self.model_states[0].total_weight)
+            .min(f32::MAX);
 
         let partial_prediction = prediction / self.average_squared_norm_x;
 
-- 
2.43.0

