From 91889790d08feee41e0480e018844dbc5fbc6289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 01/23] fix: skip inactive namespaces in SparseFeatures
 iteration and removal

clear() keeps recycled namespaces around as inactive, but namespaces() and
remove_namespace() still exposed them, and set_namespace() could store an
inactive namespace that all other accessors then ignore.
---
 .../src/sparse_namespaced_features.rs         | 29 +++++++++++--------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index d9490b4..b751a84 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -19,19 +19,21 @@ pub struct NamespaceIterator<'a> {
     values: std::slice::Iter<'a, f32>,
 }
 
-// TODO this should be skipping inactive namespaces.
 impl<'a> Iterator for NamespacesIterator<'a> {
     type Item = (Namespace, NamespaceIterator<'a>);
     fn next(&mut self) -> Option<Self::Item> {
-        self.namespaces.next().map(|(namespace_feats, namespace)| {
-            (
-                *namespace_feats,
-                NamespaceIterator {
-                    indices: namespace.feature_indices.iter(),
-                    values: namespace.feature_values.iter(),
-                },
-            )
-        })
+        self.namespaces
+            .by_ref()
+            .find(|(_, namespace)| namespace.is_active())
+            .map(|(namespace_feats, namespace)| {
+                (
+                    *namespace_feats,
+                    NamespaceIterator {
+                        indices: namespace.feature_indices.iter(),
+                        values: namespace.feature_values.iter(),
+                    },
+                )
+            })
     }
 }
 
@@ -346,7 +348,9 @@ impl SparseFeatures {
     }
 
     pub fn remove_namespace(&mut self, namespace: Namespace) -> Option<SparseFeaturesNamespace> {
-        self.namespaces.remove(&namespace)
+        self.namespaces
+            .remove(&namespace)
+            .filter(|namespace| namespace.is_active())
     }
 
     pub fn clear(&mut self) {
@@ -366,8 +370,9 @@ impl SparseFeatures {
     pub fn set_namespace(
         &mut self,
         namespace: Namespace,
-        namespace_features: SparseFeaturesNamespace,
+        mut namespace_features: SparseFeaturesNamespace,
     ) {
+        namespace_features.set_active(true);
         self.namespaces.insert(namespace, namespace_features);
     }
 
-- 
2.43.0


From 3bb71a824d2c6caf705f3247b0135b1163b0f0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:59 +0000
Subject: [PATCH 02/23] fix: do not underflow in
 SparseFeaturesNamespace::reserve

Reserving less than a (recycled) namespace's capacity subtracted with
overflow.
---
 reductionml-core/src/sparse_namespaced_features.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index b751a84..54dbfe1 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -132,9 +132,9 @@ impl SparseFeaturesNamespace {
 
     pub fn reserve(&mut self, size: usize) {
         self.feature_indices
-            .reserve_exact(size - self.feature_indices.capacity());
+            .reserve_exact(size.saturating_sub(self.feature_indices.len()));
         self.feature_values
-            .reserve(size - self.feature_values.capacity());
+            .reserve(size.saturating_sub(self.feature_values.len()));
     }
 
     pub fn add_feature(&mut self, feature_index: FeatureIndex, feature_value: f32) {
-- 
2.43.0


From 4233f4ccb8ae6c0b708b6f9de78000f586bc937f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 03/23] fix: wrap anonymous feature hashes around the 32-bit
 limit

A namespace whose hash lies close to 2^32 made parsing anonymous features
overflow (or, for a JSON list in release builds, yield no features).
---
 reductionml-core/src/inverse_hash_table.rs  | 2 +-
 reductionml-core/src/parsers.rs             | 2 +-
 reductionml-core/src/parsers/json_parser.rs | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index eda9277..6672d3a 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -48,7 +48,7 @@ impl Feature {
             }
             Feature::Anonymous { namespace, offset } => {
                 let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
-                (namespace_hash + offset).into()
+                namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
             // In fact, the produced result is idenitical if interim values are masked or just the final value.
diff --git a/reductionml-core/src/parsers.rs b/reductionml-core/src/parsers.rs
index 9850247..e8f55a8 100644
--- a/reductionml-core/src/parsers.rs
+++ b/reductionml-core/src/parsers.rs
@@ -26,7 +26,7 @@ impl<'a> ParsedFeature<'a> {
                 let name_key_hash = hash_bytes(name.as_bytes(), *namespace_hash);
                 FeatureHash::from(hash_bytes(value.as_bytes(), name_key_hash))
             }
-            ParsedFeature::Anonymous { offset } => (*namespace_hash + offset).into(),
+            ParsedFeature::Anonymous { offset } => namespace_hash.wrapping_add(*offset).into(),
         }
     }
 }
diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index b11fb4d..7ea76c8 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -28,8 +28,8 @@ pub fn to_features(
                     Value::Str(_) => todo!(),
                     Value::Array(ar) => match ar.first() {
                         Some(Value::Number(_)) => {
-                            let it = (u32::from(ns_hash)..(u32::from(ns_hash) + ar.len() as u32))
-                                .map(|x| FeatureHash::from(x).mask(mask));
+                            let it = (0..ar.len() as u32)
+                                .map(|x| FeatureHash::from(ns_hash.wrapping_add(x)).mask(mask));
                             ns.add_features_with_iter(
                                 it,
                                 ar.iter().map(|x| {
-- 
2.43.0


From 8c1ef431af3058dcc92080a7934395a734794477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 04/23] fix: accept a bar without anything after it in VW text

"1 |" and "shared |" (also what is left of "shared | " once line ends are
trimmed) panicked instead of denoting the default namespace without
features.
---
 reductionml-core/src/parsers/vw_text_parser.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index fbe7fc2..d3873ee 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -234,11 +234,14 @@ fn parse_namespace_inline(
     let first_char_is_space = namespace_segment.starts_with(' ');
     let mut tokens = namespace_segment.split_ascii_whitespace();
 
-    let (namespace_name, namespace_value) = if first_char_is_space {
-        // Anonymous namespace
-        (" ", 1.0)
+    let namespace_info_token = if first_char_is_space {
+        None
     } else {
-        let namespace_info_token = tokens.next().unwrap();
+        tokens.next()
+    };
+
+    let (namespace_name, namespace_value) = if let Some(namespace_info_token) = namespace_info_token
+    {
         let mut namespace_info_tokens = namespace_info_token.split(':');
         let name = namespace_info_tokens.next().unwrap();
         let value = match namespace_info_tokens.next() {
@@ -247,6 +250,9 @@ fn parse_namespace_inline(
         };
 
         (name, value)
+    } else {
+        // Anonymous namespace
+        (" ", 1.0)
     };
 
     let namespace_def = Namespace::from_name(namespace_name, hash_seed);
-- 
2.43.0


From 276e929faf40da1442a1f1feb916d58e2a3e830e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 05/23] fix: accept an empty list as JSON namespace content

---
 reductionml-core/src/parsers/json_parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reductionml-core/src/parsers/json_parser.rs b/reductionml-core/src/parsers/json_parser.rs
index 7ea76c8..079caa6 100644
--- a/reductionml-core/src/parsers/json_parser.rs
+++ b/reductionml-core/src/parsers/json_parser.rs
@@ -49,7 +49,7 @@ pub fn to_features(
                             }
                         }
                         Some(_) => panic!("Not a number or string"),
-                        None => todo!(),
+                        None => (),
                     },
 
                     Value::Object(contents) => {
-- 
2.43.0


From f1e28b5b365302a6a838139124fdd0e46d552bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 06/23] fix: default the weight of a JSON label to 1.0 as
 documented

---
 reductionml-core/src/types.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reductionml-core/src/types.rs b/reductionml-core/src/types.rs
index a7cb81a..e6062b9 100644
--- a/reductionml-core/src/types.rs
+++ b/reductionml-core/src/types.rs
@@ -78,9 +78,14 @@ pub enum PredictionType {
 #[derive(Clone, Copy, Debug, Serialize, Deserialize)]
 pub struct SimpleLabel {
     value: f32,
+    #[serde(default = "default_weight")]
     weight: f32,
 }
 
+const fn default_weight() -> f32 {
+    1.0
+}
+
 impl SimpleLabel {
     pub fn new(value: f32, weight: f32) -> Self {
         SimpleLabel { value, weight }
-- 
2.43.0


From c8144a044b7a16bc0f599e88da6a934613845818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 07/23] fix: compare a namespace without features equal to an
 absent one

Removing appended shared features deactivates a namespace that ends up
empty, so the check that a reduction restores its features aborted for
actions with an empty namespace that the shared features also have.
---
 reductionml-core/src/sparse_namespaced_features.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/reductionml-core/src/sparse_namespaced_features.rs b/reductionml-core/src/sparse_namespaced_features.rs
index 54dbfe1..3864f55 100644
--- a/reductionml-core/src/sparse_namespaced_features.rs
+++ b/reductionml-core/src/sparse_namespaced_features.rs
@@ -223,15 +223,15 @@ impl AbsDiffEq for SparseFeatures {
         let left_ns: BTreeSet<Namespace> = self
             .namespaces
             .iter()
-            .filter_map(|(ns, ns_vals)| if ns_vals.is_active() { Some(ns) } else { None })
-            .cloned()
+            .filter(|(_, ns_vals)| ns_vals.is_active() && ns_vals.size() > 0)
+            .map(|(ns, _)| *ns)
             .collect();
 
         let right_ns = other
             .namespaces
             .iter()
-            .filter_map(|(ns, ns_vals)| if ns_vals.is_active() { Some(ns) } else { None })
-            .cloned()
+            .filter(|(_, ns_vals)| ns_vals.is_active() && ns_vals.size() > 0)
+            .map(|(ns, _)| *ns)
             .collect();
         if left_ns != right_ns {
             return false;
-- 
2.43.0


From 45b8aafe782ff336b33fae44e25183fa9d57a0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 08/23] fix: hash features of the default namespace as the
 parsers do

The parsers give the default namespace the hash 0; inverse lookup hashed
its name instead and found a different index.
---
 reductionml-core/src/inverse_hash_table.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/reductionml-core/src/inverse_hash_table.rs b/reductionml-core/src/inverse_hash_table.rs
index 6672d3a..b651145 100644
--- a/reductionml-core/src/inverse_hash_table.rs
+++ b/reductionml-core/src/inverse_hash_table.rs
@@ -3,6 +3,7 @@ use serde::{Deserialize, Serialize};
 use crate::{
     hash::{hash_bytes, FNV_PRIME},
     parsers::ParsedFeature,
+    sparse_namespaced_features::Namespace,
     FeatureHash, FeatureIndex,
 };
 
@@ -34,20 +35,20 @@ impl Feature {
     pub fn hash(&self, hash_seed: u32) -> FeatureHash {
         match &self {
             Feature::Simple { namespace, name } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
-                hash_bytes(name.as_bytes(), namespace_hash).into()
+                let namespace_hash = Namespace::from_name(namespace, hash_seed).hash();
+                hash_bytes(name.as_bytes(), *namespace_hash).into()
             }
             Feature::SimpleWithStringValue {
                 namespace,
                 name,
                 value,
             } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
-                let name_key_hash = hash_bytes(name.as_bytes(), namespace_hash);
+                let namespace_hash = Namespace::from_name(namespace, hash_seed).hash();
+                let name_key_hash = hash_bytes(name.as_bytes(), *namespace_hash);
                 hash_bytes(value.as_bytes(), name_key_hash).into()
             }
             Feature::Anonymous { namespace, offset } => {
-                let namespace_hash = hash_bytes(namespace.as_bytes(), hash_seed);
+                let namespace_hash = Namespace::from_name(namespace, hash_seed).hash();
                 namespace_hash.wrapping_add(*offset).into()
             }
             // In a very cool property hashing of the interacted feature does not need to take into account bit masking until the very end
-- 
2.43.0


From 7ca63f522976d53cfcac9f800c22b75cbed7db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:31 +0000
Subject: [PATCH 09/23] fix: extract the feature names of every namespace of a
 VW text example

A namespace without features panicked, and of a namespace that occurs more
than once (as with several actions) only the last occurrence was kept.
---
 .../src/parsers/vw_text_parser.rs             | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/reductionml-core/src/parsers/vw_text_parser.rs b/reductionml-core/src/parsers/vw_text_parser.rs
index d3873ee..4b118ae 100644
--- a/reductionml-core/src/parsers/vw_text_parser.rs
+++ b/reductionml-core/src/parsers/vw_text_parser.rs
@@ -290,10 +290,12 @@ fn parse_namespace_info_token(namespace_segment: &str) -> Result<(&str, f32)> {
 fn parse_namespace_info(input: &str) -> Result<(&str, (ParsedNamespaceInfo, f32))> {
     let first_char_is_space = input.starts_with(' ');
     // Extract up until the first space
-    if first_char_is_space {
-        Ok((&input[1..], (ParsedNamespaceInfo::Default, 1.0)))
+    if first_char_is_space || input.is_empty() {
+        Ok((input, (ParsedNamespaceInfo::Default, 1.0)))
     } else {
-        let input_until_first_space = input.find(' ').unwrap();
+        let input_until_first_space = input
+            .find(|c: char| c.is_ascii_whitespace())
+            .unwrap_or(input.len());
         let namespace_info_token = &input[..input_until_first_space];
         let (ns_name, ns_value) = parse_namespace_info_token(namespace_info_token)?;
         Ok((
@@ -503,20 +505,22 @@ impl TextModeParser for VwTextParser {
         &self,
         chunk: &'a str,
     ) -> Result<std::collections::HashMap<ParsedNamespaceInfo<'a>, Vec<ParsedFeature<'a>>>> {
-        if self.is_multiline() {
-            chunk
-                .lines()
-                .flat_map(|line| {
-                    let mut segments = line.split('|');
-                    let _label_section = segments.next().unwrap();
-                    segments.map(extract_namespace_features)
-                })
-                .collect()
+        let lines: Vec<&str> = if self.is_multiline() {
+            chunk.lines().collect()
         } else {
-            let mut segments = chunk.split('|');
+            vec![chunk]
+        };
+
+        let mut names = std::collections::HashMap::<_, Vec<_>>::new();
+        for line in lines {
+            let mut segments = line.split('|');
             let _label_section = segments.next().unwrap();
-            segments.map(extract_namespace_features).collect()
+            for segment in segments {
+                let (namespace, features) = extract_namespace_features(segment)?;
+                names.entry(namespace).or_default().extend(features);
+            }
         }
+        Ok(names)
     }
 }
 
-- 
2.43.0


From e7a62ba375e39183ce9f1780a1731e67c608566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:54 +0000
Subject: [PATCH 10/23] fix: learn the mtr estimator on the joined example that
 is scored, shared part or not

---
 reductionml-core/src/reductions/cb_adf.rs | 29 +++++++++++------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/reductionml-core/src/reductions/cb_adf.rs b/reductionml-core/src/reductions/cb_adf.rs
index 1c0fac5..72e8704 100644
--- a/reductionml-core/src/reductions/cb_adf.rs
+++ b/reductionml-core/src/reductions/cb_adf.rs
@@ -201,21 +201,20 @@ impl ReductionImpl for CBAdfReduction {
                     * (self.mtr_state.event_sum as f32 / self.mtr_state.action_sum as f32);
 
                 let simple_label = SimpleLabel::new(cost, weight);
-                match cb_adf_features.shared.as_mut() {
-                    Some(shared_feats) => {
-                        let action = cb_adf_features.actions.get(cb_label.action).unwrap();
-                        shared_feats.append(action);
-                        self.regressor.learn(
-                            &mut Features::SparseSimpleRef(shared_feats),
-                            &simple_label.into(),
-                            depth_info,
-                            0.into(),
-                        );
-                        shared_feats.remove(action);
-                    }
-                    None => {
-                        todo!()
-                    }
+                // The joined example must be the one predict scores: the action with the shared
+                // features appended to it.
+                let action = cb_adf_features.actions.get_mut(cb_label.action).unwrap();
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.append(shared_feats);
+                }
+                self.regressor.learn(
+                    &mut action.into(),
+                    &simple_label.into(),
+                    depth_info,
+                    0.into(),
+                );
+                if let Some(shared_feats) = &cb_adf_features.shared {
+                    action.remove(shared_feats);
                 }
             }
         }
-- 
2.43.0


From 9b0cba90234f18e912a50f693652e358bb38a274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:57 +0000
Subject: [PATCH 11/23] fix: visit each combination of a triple interaction
 exactly once

---
 reductionml-core/src/weights.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/weights.rs b/reductionml-core/src/weights.rs
index ed44568..46f0d18 100644
--- a/reductionml-core/src/weights.rs
+++ b/reductionml-core/src/weights.rs
@@ -64,12 +64,14 @@ macro_rules! generate_foreach_feature_func {
                         let halfhash1 =
                             (FNV_PRIME as u64).wrapping_mul(u32::from(feat1.0) as u64) as u32;
                         if let Some(ns2) = features.get_namespace(*ns2) {
-                            for feat2 in ns2.iter().skip(if same_ns { i } else { 0 }) {
+                            for (j, feat2) in
+                                ns2.iter().enumerate().skip(if same_ns { i } else { 0 })
+                            {
                                 let halfhash2 = (FNV_PRIME as u64)
                                     .wrapping_mul((halfhash1 ^ u32::from(feat2.0)) as u64)
                                     as u32;
                                 if let Some(ns3) = features.get_namespace(*ns3) {
-                                    for feat3 in ns3.iter().skip(if same_ns2 { i } else { 0 }) {
+                                    for feat3 in ns3.iter().skip(if same_ns2 { j } else { 0 }) {
                                         let idx = FeatureHash::from(halfhash2 ^ u32::from(feat3.0))
                                             .mask(masker);
                                         let model_weight =
-- 
2.43.0


From 84362c3f87a743256de82765def2166a0b5594a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 12/23] fix: elementwise interaction of wrapping, missing and
 repeated namespaces

---
 .../src/reductions/elementwise_interaction.rs | 51 ++++++++++++-------
 1 file changed, 33 insertions(+), 18 deletions(-)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 11f8136..0c8ed2c 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -139,8 +139,12 @@ fn elementwise_multiply(
     let composite_base = FeatureHash::from(u32::from(composite_ns.hash())).mask(mask);
 
     let mut dest_iter = SparseFeaturesNamespace::new(composite_ns);
-    let mut ns_one_it = features.get_namespace(one).unwrap().iter();
-    let mut ns_two_it = features.get_namespace(two).unwrap().iter();
+    let (feats_one, feats_two) = match (features.get_namespace(one), features.get_namespace(two)) {
+        (Some(feats_one), Some(feats_two)) => (feats_one, feats_two),
+        _ => return (composite_ns, dest_iter),
+    };
+    let mut ns_one_it = feats_one.iter();
+    let mut ns_two_it = feats_two.iter();
     let mut cur_1 = ns_one_it.next();
     let mut cur_2 = ns_two_it.next();
     loop {
@@ -155,13 +159,14 @@ fn elementwise_multiply(
             }
         };
 
-        let idx1 = u32::from(idx1) - u32::from(base_one);
-        let idx2 = u32::from(idx2) - u32::from(base_two);
+        // The position of a feature is its offset from the namespace's base, modulo the index space.
+        let idx1 = *FeatureHash::from(u32::from(idx1).wrapping_sub(u32::from(base_one))).mask(mask);
+        let idx2 = *FeatureHash::from(u32::from(idx2).wrapping_sub(u32::from(base_two))).mask(mask);
 
-        let dest_index = u32::from(composite_base) + idx1;
+        let dest_index = FeatureHash::from(u32::from(composite_base).wrapping_add(idx1)).mask(mask);
 
         if idx1 == idx2 {
-            dest_iter.add_feature(dest_index.into(), val1 * val2);
+            dest_iter.add_feature(dest_index, val1 * val2);
             cur_1 = ns_one_it.next();
             cur_2 = ns_two_it.next();
         } else if idx1 < idx2 {
@@ -174,6 +179,16 @@ fn elementwise_multiply(
     (composite_ns, dest_iter)
 }
 
+fn restore_namespace(
+    features: &mut SparseFeatures,
+    namespace: Namespace,
+    original: Option<SparseFeaturesNamespace>,
+) {
+    if let Some(original) = original {
+        features.set_namespace(namespace, original);
+    }
+}
+
 #[typetag::serde]
 impl ReductionImpl for ElementwiseInteraction {
     fn predict(
@@ -196,15 +211,15 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self
                 .regressor
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
         }
     }
@@ -233,8 +248,8 @@ impl ReductionImpl for ElementwiseInteraction {
             sparse_feats.remove_namespace(composite_ns);
             pred
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             let pred = self.regressor.predict_then_learn(
                 &mut sparse_feats.into(),
                 label,
@@ -243,8 +258,8 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
         }
     }
@@ -268,14 +283,14 @@ impl ReductionImpl for ElementwiseInteraction {
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
         } else {
-            let ns1 = sparse_feats.remove_namespace(self.pair.0).unwrap();
-            let ns2 = sparse_feats.remove_namespace(self.pair.1).unwrap();
+            let ns1 = sparse_feats.remove_namespace(self.pair.0);
+            let ns2 = sparse_feats.remove_namespace(self.pair.1);
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
-            sparse_feats.set_namespace(self.pair.0, ns1);
-            sparse_feats.set_namespace(self.pair.1, ns2);
+            restore_namespace(sparse_feats, self.pair.0, ns1);
+            restore_namespace(sparse_feats, self.pair.1, ns2);
         }
     }
 
-- 
2.43.0


From c54f916487f05bd0112d5881f0bde317ce8c3a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:26 +0000
Subject: [PATCH 13/23] fix: restore a namespace that collides with the
 elementwise composite

---
 .../src/reductions/elementwise_interaction.rs            | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/reductionml-core/src/reductions/elementwise_interaction.rs b/reductionml-core/src/reductions/elementwise_interaction.rs
index 0c8ed2c..6a531a8 100644
--- a/reductionml-core/src/reductions/elementwise_interaction.rs
+++ b/reductionml-core/src/reductions/elementwise_interaction.rs
@@ -202,6 +202,7 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
+        let original_composite = sparse_feats.remove_namespace(composite_ns);
         sparse_feats.set_namespace(composite_ns, dest_iter);
         if self.keep_original_features {
             let pred = self
@@ -209,6 +210,7 @@ impl ReductionImpl for ElementwiseInteraction {
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, original_composite);
             pred
         } else {
             let ns1 = sparse_feats.remove_namespace(self.pair.0);
@@ -218,6 +220,7 @@ impl ReductionImpl for ElementwiseInteraction {
                 .predict(&mut sparse_feats.into(), depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, original_composite);
             restore_namespace(sparse_feats, self.pair.0, ns1);
             restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
@@ -236,6 +239,7 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
+        let original_composite = sparse_feats.remove_namespace(composite_ns);
         sparse_feats.set_namespace(composite_ns, dest_iter);
         if self.keep_original_features {
             let pred = self.regressor.predict_then_learn(
@@ -246,6 +250,7 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, original_composite);
             pred
         } else {
             let ns1 = sparse_feats.remove_namespace(self.pair.0);
@@ -258,6 +263,7 @@ impl ReductionImpl for ElementwiseInteraction {
             );
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, original_composite);
             restore_namespace(sparse_feats, self.pair.0, ns1);
             restore_namespace(sparse_feats, self.pair.1, ns2);
             pred
@@ -276,12 +282,14 @@ impl ReductionImpl for ElementwiseInteraction {
         let (composite_ns, dest_iter) =
             elementwise_multiply(self.num_bits, sparse_feats, &self.pair.0, &self.pair.1);
 
+        let original_composite = sparse_feats.remove_namespace(composite_ns);
         sparse_feats.set_namespace(composite_ns, dest_iter);
         if self.keep_original_features {
             self.regressor
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, original_composite);
         } else {
             let ns1 = sparse_feats.remove_namespace(self.pair.0);
             let ns2 = sparse_feats.remove_namespace(self.pair.1);
@@ -289,6 +297,7 @@ impl ReductionImpl for ElementwiseInteraction {
                 .learn(&mut sparse_feats.into(), label, depth_info, 0.into());
             let sparse_feats: &mut SparseFeatures = features.as_inner_mut().unwrap();
             sparse_feats.remove_namespace(composite_ns);
+            restore_namespace(sparse_feats, composite_ns, original_composite);
             restore_namespace(sparse_feats, self.pair.0, ns1);
             restore_namespace(sparse_feats, self.pair.1, ns2);
         }
-- 
2.43.0


From 8fd6a9ad98729c314c18997d3e9274531304ecb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:52 +0000
Subject: [PATCH 14/23] fix: learn the loss function the Coin regressor is
 configured with

---
 reductionml-core/src/reductions/coin.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/reductions/coin.rs b/reductionml-core/src/reductions/coin.rs
index 99d0b65..c611fb8 100644
--- a/reductionml-core/src/reductions/coin.rs
+++ b/reductionml-core/src/reductions/coin.rs
@@ -98,7 +98,6 @@ struct CoinRegressor {
     average_squared_norm_x: f32,
     min_label: f32,
     max_label: f32,
-    // TODO allow this to be chosen
     loss_function: LossFunction,
     pairs: Vec<(Namespace, Namespace)>,
     triples: Vec<(Namespace, Namespace, Namespace)>,
@@ -121,6 +120,8 @@ impl CoinRegressor {
             LossFunction::Logistic(_) => (-50.0, 50.0),
         };
 
+        let loss_function = config.loss_function;
+
         Ok(CoinRegressor {
             weights: DenseWeights::new(
                 bits_to_max_feature_index(global_config.num_bits()),
@@ -138,7 +139,7 @@ impl CoinRegressor {
             average_squared_norm_x: 0.0,
             min_label,
             max_label,
-            loss_function: LossFunction::Squared(SquaredLoss::new()),
+            loss_function,
             pairs,
             triples,
             num_bits: global_config.num_bits(),
-- 
2.43.0


From d0e82d2024efeb46f75b281629230fe30b39f4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:41 +0000
Subject: [PATCH 15/23] fix: report damaged model files as errors

---
 reductionml-core/src/dense_weights.rs | 112 ++++++++++++++++++++++----
 reductionml-core/src/workspace.rs     |  56 ++++++++++---
 2 files changed, 143 insertions(+), 25 deletions(-)

diff --git a/reductionml-core/src/dense_weights.rs b/reductionml-core/src/dense_weights.rs
index cb0805a..5104601 100644
--- a/reductionml-core/src/dense_weights.rs
+++ b/reductionml-core/src/dense_weights.rs
@@ -1,7 +1,7 @@
 use std::collections::HashMap;
 
 use approx::AbsDiffEq;
-use serde::{Deserialize, Deserializer, Serialize, Serializer};
+use serde::{Deserialize, Serialize, Serializer};
 
 use crate::{
     error::{Error, Result},
@@ -13,12 +13,74 @@ fn num_bits_to_represent(val: u64) -> u64 {
     64 - val.leading_zeros() as u64
 }
 
+/// Number of slots of a table of the given shape, or an error if the parts do not describe a table.
+fn checked_table_size(
+    feature_index_size: FeatureIndex,
+    model_index_size: ModelIndex,
+    feature_state_size: StateIndex,
+    model_index_size_shift: u8,
+    feature_state_size_shift: u8,
+) -> Result<usize> {
+    if *feature_index_size == 0
+        || *model_index_size == 0
+        || *feature_state_size == 0
+        || num_bits_to_represent(*model_index_size as u64 - 1) != model_index_size_shift as u64
+        || num_bits_to_represent(*feature_state_size as u64 - 1) != feature_state_size_shift as u64
+    {
+        return Err(Error::InvalidArgument(
+            "Weights have an inconsistent shape".to_owned(),
+        ));
+    }
+    let shift = num_bits_to_represent(*feature_index_size as u64 - 1)
+        + model_index_size_shift as u64
+        + feature_state_size_shift as u64;
+    1_usize
+        .checked_shl(shift as u32)
+        .ok_or_else(|| Error::InvalidArgument("Weights are too large".to_owned()))
+}
+
+/// The serialized form of DenseWeights, not yet validated.
+#[derive(Deserialize)]
+struct DenseWeightsParts {
+    weights: SparseF32Vec,
+    feature_index_size: FeatureIndex,
+    model_index_size: ModelIndex,
+    feature_state_size: StateIndex,
+    model_index_size_shift: u8,
+    feature_state_size_shift: u8,
+}
+
+impl TryFrom<DenseWeightsParts> for DenseWeights {
+    type Error = Error;
+
+    fn try_from(parts: DenseWeightsParts) -> Result<Self> {
+        let size = checked_table_size(
+            parts.feature_index_size,
+            parts.model_index_size,
+            parts.feature_state_size,
+            parts.model_index_size_shift,
+            parts.feature_state_size_shift,
+        )?;
+        if parts.weights.len != size as u64 {
+            return Err(Error::InvalidArgument(
+                "Number of weights does not match their shape".to_owned(),
+            ));
+        }
+        Ok(DenseWeights {
+            weights: parts.weights.to_dense()?,
+            feature_index_size: parts.feature_index_size,
+            model_index_size: parts.model_index_size,
+            feature_state_size: parts.feature_state_size,
+            model_index_size_shift: parts.model_index_size_shift,
+            feature_state_size_shift: parts.feature_state_size_shift,
+        })
+    }
+}
+
 #[derive(Deserialize, Serialize, PartialEq, Debug, Clone)]
+#[serde(try_from = "DenseWeightsParts")]
 pub struct DenseWeights {
-    #[serde(
-        deserialize_with = "deserialize_sparse_f32_vec",
-        serialize_with = "serialize_sparse_f32_vec"
-    )]
+    #[serde(serialize_with = "serialize_sparse_f32_vec")]
     weights: Vec<f32>,
     // Max size of index
     feature_index_size: FeatureIndex,
@@ -106,6 +168,30 @@ impl DenseWeightsWithNDArray {
         }
     }
 
+    /// Whether to_dense_weights can represent this, that is the weights fit the shape.
+    pub(crate) fn check_shape(&self) -> Result<()> {
+        checked_table_size(
+            self.feature_index_size,
+            self.model_index_size,
+            self.feature_state_size,
+            self.model_index_size_shift,
+            self.feature_state_size_shift,
+        )?;
+        for (feature_index, feature) in &self.weights {
+            if *feature_index >= self.feature_index_size
+                || feature.len() > *self.model_index_size as usize
+                || feature
+                    .iter()
+                    .any(|state| state.len() != *self.feature_state_size as usize)
+            {
+                return Err(Error::InvalidArgument(
+                    "Weights do not match their shape".to_owned(),
+                ));
+            }
+        }
+        Ok(())
+    }
+
     pub fn to_dense_weights(&self) -> DenseWeights {
         let feature_index_size_shift =
             num_bits_to_represent(*self.feature_index_size as u64 - 1) as usize;
@@ -159,12 +245,14 @@ impl SparseF32Vec {
         }
     }
 
-    fn to_dense(&self) -> Vec<f32> {
+    fn to_dense(&self) -> Result<Vec<f32>> {
         let mut vec = vec![0.0; self.len as usize];
         for (index, value) in self.non_zero_value_and_index_pairs.iter() {
-            vec[*index] = *value;
+            *vec.get_mut(*index).ok_or_else(|| {
+                Error::InvalidArgument("Index of a weight is out of range".to_owned())
+            })? = *value;
         }
-        vec
+        Ok(vec)
     }
 }
 
@@ -179,14 +267,6 @@ where
     sparse_vec.serialize(serializer)
 }
 
-fn deserialize_sparse_f32_vec<'de, D>(deserializer: D) -> std::result::Result<Vec<f32>, D::Error>
-where
-    D: Deserializer<'de>,
-{
-    let sparse_vec = SparseF32Vec::deserialize(deserializer)?;
-    Ok(sparse_vec.to_dense())
-}
-
 impl DenseWeights {
     fn convert_index(
         &self,
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index e4e6ed1..6f36c47 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -66,7 +66,7 @@ impl TryInto<Configuration> for serde_yaml::Value {
 }
 
 // We need to search until we find an object with the keys weights, feature_index_size, model_index_size, feature_state_size, model_index_size_shift, feature_state_size_shift
-fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) {
+fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) -> Result<()> {
     match value {
         serde_json::Value::Object(map) => {
             if map.contains_key("weights")
@@ -76,21 +76,23 @@ fn rewrite_json_ndarray_to_sparse(value: &mut serde_json::Value) {
                 && map.contains_key("model_index_size_shift")
                 && map.contains_key("feature_state_size_shift")
             {
-                let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone()).unwrap();
-                *value = serde_json::to_value(wts.to_dense_weights()).unwrap();
-                return;
+                let wts: DenseWeightsWithNDArray = serde_json::from_value(value.clone())?;
+                wts.check_shape()?;
+                *value = serde_json::to_value(wts.to_dense_weights())?;
+                return Ok(());
             }
             for (_, v) in map {
-                rewrite_json_ndarray_to_sparse(v);
+                rewrite_json_ndarray_to_sparse(v)?;
             }
         }
         serde_json::Value::Array(vec) => {
             for v in vec {
-                rewrite_json_ndarray_to_sparse(v);
+                rewrite_json_ndarray_to_sparse(v)?;
             }
         }
         _ => (),
     }
+    Ok(())
 }
 
 fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
@@ -121,6 +123,31 @@ fn rewrite_json_sparse_to_ndarray(value: &mut serde_json::Value) {
     }
 }
 
+/// Damaged bytes can make a flexbuffer refer to itself, which the deserializer would follow without end. In an intact
+/// one every value takes up space of its own.
+fn check_flexbuffer_nesting(
+    reader: &flexbuffers::Reader<&[u8]>,
+    depth: usize,
+    budget: &mut usize,
+) -> Result<()> {
+    if depth == 0 || *budget == 0 {
+        return Err(Error::InvalidArgument(
+            "Failed to read model: values refer to themselves".to_owned(),
+        ));
+    }
+    *budget -= 1;
+    if reader.flexbuffer_type() == flexbuffers::FlexBufferType::Map {
+        for value in reader.as_map().iter_values() {
+            check_flexbuffer_nesting(&value, depth - 1, budget)?;
+        }
+    } else if reader.flexbuffer_type().is_vector() {
+        for value in reader.as_vector().iter() {
+            check_flexbuffer_nesting(&value, depth - 1, budget)?;
+        }
+    }
+    Ok(())
+}
+
 impl Workspace {
     pub fn new(config: Configuration) -> Result<Workspace> {
         let reduction_config = crate::reduction_factory::parse_config(&config.entry_reduction)?;
@@ -139,8 +166,19 @@ impl Workspace {
 
     // TODO move to bincode or msgpack
     pub fn create_from_model(json: &[u8]) -> Result<Workspace> {
-        let r = flexbuffers::Reader::get_root(json).unwrap();
-        Ok(Workspace::deserialize(r).unwrap())
+        // The flexbuffers reader panics on some truncated or damaged buffers. Reading has no side effects.
+        std::panic::catch_unwind(|| -> Result<Workspace> {
+            let r = flexbuffers::Reader::get_root(json)
+                .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))?;
+            check_flexbuffer_nesting(&r, 128, &mut json.len())?;
+            Workspace::deserialize(r)
+                .map_err(|e| Error::InvalidArgument(format!("Failed to read model: {e}")))
+        })
+        .unwrap_or_else(|_| {
+            Err(Error::InvalidArgument(
+                "Failed to read model: damaged".to_owned(),
+            ))
+        })
     }
 
     // TODO move to bincode or msgpack
@@ -162,7 +200,7 @@ impl Workspace {
         let mut value: serde_json::Value = serde_json::from_value(json.clone()).map_err(|e| {
             Error::InvalidConfiguration(format!("Failed to parse configuration: {e}"))
         })?;
-        rewrite_json_ndarray_to_sparse(&mut value);
+        rewrite_json_ndarray_to_sparse(&mut value)?;
         serde_json::from_value(value)
             .map_err(|e| Error::InvalidConfiguration(format!("Failed to parse model: {e}")))
     }
-- 
2.43.0


From 5ab0a30e14d7ebbaa623fd4b891fc81758bf3038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:52 +0000
Subject: [PATCH 16/23] fix: refuse unsupported numBits and interactions
 instead of aborting

---
 reductionml-core/src/global_config.rs | 26 +++++++++++++++++++++++++-
 reductionml-core/src/workspace.rs     |  1 +
 2 files changed, 26 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/global_config.rs b/reductionml-core/src/global_config.rs
index c03b039..fc28dcb 100644
--- a/reductionml-core/src/global_config.rs
+++ b/reductionml-core/src/global_config.rs
@@ -3,7 +3,10 @@ use schemars::JsonSchema;
 use serde::{Deserialize, Serialize};
 use serde_default::DefaultFromSerde;
 
-use crate::interactions::Interaction;
+use crate::{
+    error::{Error, Result},
+    interactions::Interaction,
+};
 
 #[derive(Clone, Serialize, Deserialize, Debug, JsonSchema, DefaultFromSerde, Builder)]
 #[serde(rename_all = "camelCase")]
@@ -45,6 +48,27 @@ impl GlobalConfig {
         }
     }
 
+    pub fn validate(&self) -> Result<()> {
+        if self.num_bits >= u32::BITS as u8 {
+            return Err(Error::InvalidArgument(format!(
+                "numBits must be less than {}, got {}",
+                u32::BITS,
+                self.num_bits
+            )));
+        }
+        if let Some(interaction) = self
+            .interactions
+            .iter()
+            .find(|interaction| interaction.len() != 2 && interaction.len() != 3)
+        {
+            return Err(Error::InvalidArgument(format!(
+                "Only interactions of two or three namespaces are supported, got {}",
+                interaction.len()
+            )));
+        }
+        Ok(())
+    }
+
     pub fn num_bits(&self) -> u8 {
         self.num_bits
     }
diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index 6f36c47..5fb26ec 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -150,6 +150,7 @@ fn check_flexbuffer_nesting(
 
 impl Workspace {
     pub fn new(config: Configuration) -> Result<Workspace> {
+        config.global_config.validate()?;
         let reduction_config = crate::reduction_factory::parse_config(&config.entry_reduction)?;
         let entry_reduction = crate::reduction_factory::create_reduction(
             reduction_config.as_ref(),
-- 
2.43.0


From bb804612127b138f5fe97a71c9d29423711d082c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:59 +0000
Subject: [PATCH 17/23] fix: refuse exploration rates outside zero to one
 instead of aborting at prediction

---
 reductionml-core/src/reductions/cb_explore_adf_greedy.rs   | 6 ++++++
 reductionml-core/src/reductions/cb_explore_adf_softmax.rs  | 6 ++++++
 reductionml-core/src/reductions/cb_explore_adf_squarecb.rs | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/reductionml-core/src/reductions/cb_explore_adf_greedy.rs b/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
index 9b079fd..56de35b 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_greedy.rs
@@ -69,6 +69,12 @@ impl ReductionFactory for CBExploreAdfGreedyReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfGreedyConfig>()
             .unwrap();
+        if !(0.0..=1.0).contains(&config.epsilon) {
+            return Err(crate::error::Error::InvalidArgument(format!(
+                "epsilon must be between 0 and 1, got {}",
+                config.epsilon
+            )));
+        }
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
index 84d5365..035ceae 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_softmax.rs
@@ -78,6 +78,12 @@ impl ReductionFactory for CBExploreAdfSoftmaxReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfSoftmaxConfig>()
             .unwrap();
+        if !(0.0..=1.0).contains(&config.uniform_epsilon) {
+            return Err(crate::error::Error::InvalidArgument(format!(
+                "uniformEpsilon must be between 0 and 1, got {}",
+                config.uniform_epsilon
+            )));
+        }
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         let cb_adf: ReductionWrapper =
             create_reduction(cb_adf_config.as_ref(), global_config, num_models_above)?;
diff --git a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
index c86a086..12a4950 100644
--- a/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
+++ b/reductionml-core/src/reductions/cb_explore_adf_squarecb.rs
@@ -87,6 +87,12 @@ impl ReductionFactory for CBExploreAdfSquareCBReductionFactory {
             .as_any()
             .downcast_ref::<CBExploreAdfSquareCBConfig>()
             .unwrap();
+        if !(0.0..=1.0).contains(&config.uniform_epsilon) {
+            return Err(crate::error::Error::InvalidArgument(format!(
+                "uniformEpsilon must be between 0 and 1, got {}",
+                config.uniform_epsilon
+            )));
+        }
         let cb_adf_config = crate::reduction_factory::parse_config(&config.cb_adf)?;
         // Try checking for MTR
         if let Some(cfg) = cb_adf_config.as_any().downcast_ref::<CBAdfConfig>() {
-- 
2.43.0


From 8192db5465de49014acd897ff6d4f94461d450c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:27 +0000
Subject: [PATCH 18/23] fix: fail a training run instead of hanging when an
 example cannot be parsed or read

---
 reductionml-cli/src/train.rs | 49 +++++++++++++++++++++++++++---------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 8107083..16de49d 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -5,6 +5,7 @@ use std::{
     cell::UnsafeCell,
     fs::File,
     io::{self, stdout, Write},
+    panic::{catch_unwind, AssertUnwindSafe},
     str::FromStr,
     sync::{atomic::Ordering, Arc},
 };
@@ -327,18 +328,31 @@ impl Command for TrainCommand {
                 let (parse_sender, parse_receiver) = flume::bounded(args.queue_size);
                 let (learn_sender, learn_receiver) = flume::bounded(args.queue_size);
                 std::thread::scope(|s| -> Result<()> {
+                    // Owned here so that leaving early, by an error or a panic, disconnects the
+                    // input thread instead of leaving it blocked on a full channel.
+                    let learn_receiver = learn_receiver;
+
                     // Input thread
                     s.spawn(|| {
                         loop {
-                            if let Some(chunk) = parser
-                                .get_next_chunk(&mut input_file, string_pool.get_object())
-                                .unwrap()
-                            {
-                                let res = Arc::new(ParseResult::new(chunk));
-                                parse_sender.send(res.clone()).unwrap();
-                                learn_sender.send(res).unwrap();
-                            } else {
-                                break;
+                            match parser.get_next_chunk(&mut input_file, string_pool.get_object()) {
+                                Ok(Some(chunk)) => {
+                                    let res = Arc::new(ParseResult::new(chunk));
+                                    if parse_sender.send(res.clone()).is_err()
+                                        || learn_sender.send(res).is_err()
+                                    {
+                                        // The learner stopped early.
+                                        break;
+                                    }
+                                }
+                                Ok(None) => break,
+                                Err(e) => {
+                                    // Let the learner report the failure.
+                                    let res = ParseResult::new(String::new());
+                                    res.set_result(Err(anyhow::anyhow!(e)));
+                                    let _ = learn_sender.send(Arc::new(res));
+                                    break;
+                                }
                             }
                         }
                         std::mem::drop(parse_sender);
@@ -350,9 +364,20 @@ impl Command for TrainCommand {
                             match parse_receiver.recv() {
                                 Ok(res) => {
                                     let input = res.get_input();
-                                    let parsed = parser.parse_chunk(&input);
+                                    // The learner waits for every result, so a panicking parser must
+                                    // still produce one.
+                                    let parsed = catch_unwind(AssertUnwindSafe(|| {
+                                        parser.parse_chunk(&input)
+                                    }));
+                                    let result = match parsed {
+                                        Ok(parsed) => parsed.map_err(|e| anyhow::anyhow!(e)),
+                                        Err(_) => Err(anyhow::anyhow!(
+                                            "Failed to parse example: {}",
+                                            input
+                                        )),
+                                    };
                                     string_pool.return_object(input);
-                                    res.set_result(parsed.map_err(|e| anyhow::anyhow!(e)));
+                                    res.set_result(result);
                                 }
                                 Err(_) => break,
                             }
@@ -363,7 +388,7 @@ impl Command for TrainCommand {
                         let res = learn_receiver.recv();
                         match res {
                             Ok(result) => {
-                                let (features, label) = result.await_result().unwrap();
+                                let (features, label) = result.await_result()?;
                                 process_example(
                                     label,
                                     &mut workspace,
-- 
2.43.0


From a27344027f70d52ae4a30f11382198f8207fa46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:21 +0000
Subject: [PATCH 19/23] fix: let training on an empty file report nothing
 instead of aborting

---
 reductionml-cli/src/train.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reductionml-cli/src/train.rs b/reductionml-cli/src/train.rs
index 16de49d..a4f8157 100644
--- a/reductionml-cli/src/train.rs
+++ b/reductionml-cli/src/train.rs
@@ -408,7 +408,7 @@ impl Command for TrainCommand {
             }
         }
 
-        if !quiet {
+        if !quiet && manager.iteration > 0 {
             manager.add_results(metrics.iter().map(|x| x.get_value()).collect());
             manager.render_table_to_stdout();
         }
-- 
2.43.0


From 6eb919226ece78e74cb2fbb0414fe6e638c4690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:36 +0000
Subject: [PATCH 20/23] fix: report models that export-model or import-model
 cannot read instead of aborting

---
 reductionml-cli/src/export_model.rs | 12 +++++++-----
 reductionml-cli/src/import_model.rs | 17 +++++++++++------
 2 files changed, 18 insertions(+), 11 deletions(-)

diff --git a/reductionml-cli/src/export_model.rs b/reductionml-cli/src/export_model.rs
index eb146e4..0222742 100644
--- a/reductionml-cli/src/export_model.rs
+++ b/reductionml-cli/src/export_model.rs
@@ -4,7 +4,7 @@ use reductionml_core::workspace::Workspace;
 
 use crate::command::Command;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 // TODO: add warning that weights are not printed in any nice way at the moment
 #[derive(Args)]
@@ -23,10 +23,12 @@ impl Command for ExportModelCommand {
             "{} Exporting a model to JSON is not a supported feature. Use at your own risk.",
             "Warning:".yellow()
         );
-        let input_model_data = std::fs::read(&args.input_model).unwrap();
-        let workspace = Workspace::create_from_model(&input_model_data).unwrap();
-        let json = workspace.serialize_to_json().unwrap();
-        println!("{}", serde_json::to_string_pretty(&json).unwrap());
+        let input_model_data = std::fs::read(&args.input_model)
+            .with_context(|| format!("Failed to read input model file: {}", args.input_model))?;
+        let workspace = Workspace::create_from_model(&input_model_data)
+            .with_context(|| format!("Failed to load input model file: {}", args.input_model))?;
+        let json = workspace.serialize_to_json()?;
+        println!("{}", serde_json::to_string_pretty(&json)?);
         Ok(())
     }
 }
diff --git a/reductionml-cli/src/import_model.rs b/reductionml-cli/src/import_model.rs
index 7f5a94a..ab0ed8c 100644
--- a/reductionml-cli/src/import_model.rs
+++ b/reductionml-cli/src/import_model.rs
@@ -4,7 +4,7 @@ use reductionml_core::workspace::Workspace;
 
 use crate::command::Command;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 
 // TODO: add warning that weights are not printed in any nice way at the moment
 #[derive(Args)]
@@ -25,11 +25,16 @@ impl Command for ImportModelCommand {
             "Warning:".yellow()
         );
 
-        let input_data = std::fs::read(&args.input_file).unwrap();
-        let json = serde_json::from_slice(&input_data).unwrap();
-        let workspace = Workspace::deserialize_from_json(&json).unwrap();
-        let data = workspace.serialize_model().unwrap();
-        std::fs::write(&args.output_model, data).unwrap();
+        let input_data = std::fs::read(&args.input_file)
+            .with_context(|| format!("Failed to read input file: {}", args.input_file))?;
+        let json = serde_json::from_slice(&input_data)
+            .with_context(|| format!("Failed to parse input file: {}", args.input_file))?;
+        let workspace = Workspace::deserialize_from_json(&json).with_context(|| {
+            format!("Failed to load model from input file: {}", args.input_file)
+        })?;
+        let data = workspace.serialize_model()?;
+        std::fs::write(&args.output_model, data)
+            .with_context(|| format!("Failed to write output model: {}", args.output_model))?;
 
         Ok(())
     }
-- 
2.43.0


From 18c3f0e32696d4a53219108dabce29239ed3d45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:04 +0000
Subject: [PATCH 21/23] fix: report an error when a model with infinite or
 undefined numbers is exported to JSON

---
 reductionml-core/src/workspace.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reductionml-core/src/workspace.rs b/reductionml-core/src/workspace.rs
index 5fb26ec..d3bbed6 100644
--- a/reductionml-core/src/workspace.rs
+++ b/reductionml-core/src/workspace.rs
@@ -192,6 +192,10 @@ impl Workspace {
     // experimental
     pub fn serialize_to_json(&self) -> Result<Value> {
         let mut value = serde_json::to_value(self).unwrap();
+        // JSON has no infinite or undefined numbers. They become null, which cannot be read back.
+        Workspace::deserialize(&value).map_err(|e| {
+            Error::InvalidArgument(format!("Model cannot be represented as JSON: {e}"))
+        })?;
         rewrite_json_sparse_to_ndarray(&mut value);
         Ok(value)
     }
-- 
2.43.0


From 679cb9cbdd90deade46554e29fda4fbec1fa94f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:52 +0000
Subject: [PATCH 22/23] fix: keep the logistic loss finite for predictions
 beyond the range of exp

---
 reductionml-core/src/loss_function/logistic_loss.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/reductionml-core/src/loss_function/logistic_loss.rs b/reductionml-core/src/loss_function/logistic_loss.rs
index 1c15304..bc6eeae 100644
--- a/reductionml-core/src/loss_function/logistic_loss.rs
+++ b/reductionml-core/src/loss_function/logistic_loss.rs
@@ -21,7 +21,9 @@ fn default_max() -> f32 {
 }
 fn get_loss_sub(prediction: f32, label: f32) -> f32 {
     debug_assert!(label == -1. || label == 1.);
-    (1. + (-label * prediction).exp()).ln()
+    // ln(1 + exp(z)), written so that exp does not overflow
+    let z = -label * prediction;
+    z.max(0.) + (-z.abs()).exp().ln_1p()
 }
 
 // Based on implementation in VowpalWabbit
-- 
2.43.0


From 35bf8b90da334621de8ff5f510405ec9f4c75483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:52 +0000
Subject: [PATCH 23/23] fix: keep the logistic update accurate for predictions
 far on the side of the label

---
 reductionml-core/src/loss_function/logistic_loss.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reductionml-core/src/loss_function/logistic_loss.rs b/reductionml-core/src/loss_function/logistic_loss.rs
index bc6eeae..c7fb222 100644
--- a/reductionml-core/src/loss_function/logistic_loss.rs
+++ b/reductionml-core/src/loss_function/logistic_loss.rs
@@ -51,9 +51,11 @@ fn wexpmx(x: f32) -> f32 {
 
 fn get_update_sub(prediction: f32, label: f32, update_scale: f32, pred_per_update: f32) -> f32 {
     let d = (label * prediction).exp();
-    if update_scale * pred_per_update < 1e-6 {
+    if update_scale * pred_per_update < 1e-6 * (1. + d) {
         /* As with squared loss, for small eta_t we replace the update
-         * with its first order Taylor expansion to avoid numerical problems
+         * with its first order Taylor expansion to avoid numerical problems.
+         * The step is also small if the prediction is already far on the
+         * side of the label, where wexpmx would lose all its digits.
          */
         return label * update_scale / (1. + d);
     }
-- 
2.43.0

