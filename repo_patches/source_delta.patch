From 38e643827a4830bbd67f4b397c7b3bf2b1fa6e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 01/26] fix: apply the intents filter also when the classifier
 has at most one intent, no features or an empty text

---
 .../log_reg_intent_classifier.rs              | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 19f88b3..52e9444 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -103,9 +103,19 @@ impl LogRegIntentClassifier {
         input: &str,
         intents_whitelist: Option<&[&str]>,
     ) -> Result<Vec<IntentClassifierResult>> {
+        let opt_intents_set: Option<HashSet<&str>> =
+            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
+        let is_allowed = |intent_name: &str| {
+            opt_intents_set
+                .as_ref()
+                .map(|intents| intents.contains(intent_name))
+                .unwrap_or(true)
+        };
+
         if self.intent_list.len() <= 1 {
+            let intent_name = self.intent_list.first().cloned().unwrap_or(None);
             return Ok(vec![IntentClassifierResult {
-                intent_name: self.intent_list.first().cloned().unwrap_or(None),
+                intent_name: intent_name.filter(|name| is_allowed(name)),
                 confidence_score: 1.0,
             }]);
         }
@@ -114,6 +124,7 @@ impl LogRegIntentClassifier {
             return Ok(self
                 .intent_list
                 .iter()
+                .filter(|name| name.as_ref().map(|name| is_allowed(name)).unwrap_or(true))
                 .map(|intent_name| IntentClassifierResult {
                     intent_name: intent_name.clone(),
                     confidence_score: if intent_name.is_none() { 1.0 } else { 0.0 },
@@ -122,9 +133,6 @@ impl LogRegIntentClassifier {
                 .collect());
         }
 
-        let opt_intents_set: Option<HashSet<&str>> =
-            intents_whitelist.map(|intent_list| HashSet::from_iter(intent_list.iter().cloned()));
-
         let featurizer = self.featurizer.as_ref().unwrap(); // Checked above
         let logreg = self.logreg.as_ref().unwrap(); // Checked above
 
@@ -141,10 +149,7 @@ impl LogRegIntentClassifier {
             })
             .filter(|res| {
                 if let Some(intent) = res.intent_name.as_ref() {
-                    opt_intents_set
-                        .as_ref()
-                        .map(|intents| intents.contains(&**intent))
-                        .unwrap_or(true)
+                    is_allowed(intent)
                 } else {
                     true
                 }
-- 
2.43.0


From acac41d178d9b16718dfe092c79d4bd1a107129d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 02/26] fix: leave the intent of the top result, and only that
 one, out of the alternatives

---
 src/nlu_engine.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 6b995e8..551622a 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -212,7 +212,8 @@ impl SnipsNluEngine {
                     })
                     .unwrap_or(true)
             })
-            .skip(1) // We do not duplicate the top result in the list of alternatives
+            // We do not duplicate the top result in the list of alternatives
+            .filter(|res| res.intent_name != parsing_result.intent.intent_name)
             .take(intents_alternatives)
             .map(|res| {
                 res.intent_name
-- 
2.43.0


From 18e9a4f4f9a606a8381a60493707d422c7e79867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:17 +0000
Subject: [PATCH 03/26] fix: order intents of equal score by name instead of by
 hash table order

---
 src/nlu_engine.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 551622a..587ff28 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -306,7 +306,13 @@ impl SnipsNluEngine {
         Ok(results
             .into_iter()
             .map(|(_, res)| res)
-            .sorted_by(|a, b| b.confidence_score.partial_cmp(&a.confidence_score).unwrap())
+            .sorted_by(|a, b| {
+                b.confidence_score
+                    .partial_cmp(&a.confidence_score)
+                    .unwrap()
+                    // The order must not depend on the iteration order of the map
+                    .then_with(|| a.intent_name.cmp(&b.intent_name))
+            })
             .collect())
     }
 
-- 
2.43.0


From 76ad54e01767a260c731e13f17613192502fd8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:14 +0000
Subject: [PATCH 04/26] fix: return the text typed by the user as raw value of
 an extracted custom slot

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 587ff28..217bf4a 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -461,7 +461,7 @@ fn extract_custom_slot(
     )?;
     Ok(if let Some(matched_entity) = custom_entities.pop() {
         Some(Slot {
-            raw_value: matched_entity.value,
+            raw_value: substring_with_char_range(input, &matched_entity.range),
             value: SlotValue::Custom(matched_entity.resolved_value.into()),
             alternatives: matched_entity
                 .alternative_resolved_values
-- 
2.43.0


From 3cbe7bc65cf8667758009dfd9dbad63d68f1b328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:42 +0000
Subject: [PATCH 05/26] fix: keep character ranges valid for texts whose lower
 case has more characters

---
 src/entity_parser/builtin_entity_parser.rs |  3 ++-
 src/entity_parser/custom_entity_parser.rs  |  4 ++--
 src/utils.rs                               | 18 ++++++++++++++++++
 3 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/entity_parser/builtin_entity_parser.rs b/src/entity_parser/builtin_entity_parser.rs
index 01416b8..14ce0b6 100644
--- a/src/entity_parser/builtin_entity_parser.rs
+++ b/src/entity_parser/builtin_entity_parser.rs
@@ -7,6 +7,7 @@ use snips_nlu_parsers::BuiltinEntityParser as _BuiltinEntityParser;
 
 use super::utils::Cache;
 use crate::errors::*;
+use crate::utils::lowercase_preserving_length;
 
 pub trait BuiltinEntityParser: Send + Sync {
     fn extract_entities(
@@ -38,7 +39,7 @@ impl BuiltinEntityParser for CachingBuiltinEntityParser {
         use_cache: bool,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<BuiltinEntity>> {
-        let lowercased_sentence = sentence.to_lowercase();
+        let lowercased_sentence = lowercase_preserving_length(sentence);
         if !use_cache {
             return self.parser.extract_entities(
                 &lowercased_sentence,
diff --git a/src/entity_parser/custom_entity_parser.rs b/src/entity_parser/custom_entity_parser.rs
index 98d3585..07e3ef8 100644
--- a/src/entity_parser/custom_entity_parser.rs
+++ b/src/entity_parser/custom_entity_parser.rs
@@ -17,7 +17,7 @@ use snips_nlu_utils::token::*;
 use crate::entity_parser::utils::Cache;
 use crate::errors::*;
 use crate::language::FromLanguage;
-use crate::utils::EntityName;
+use crate::utils::{lowercase_preserving_length, EntityName};
 
 pub type CustomEntity = GazetteerEntityMatch<String>;
 
@@ -72,7 +72,7 @@ impl CustomEntityParser for CachingCustomEntityParser {
         filter_entity_kinds: Option<&[String]>,
         max_alternative_resolved_values: usize,
     ) -> Result<Vec<CustomEntity>> {
-        let lowercased_sentence = sentence.to_lowercase();
+        let lowercased_sentence = lowercase_preserving_length(sentence);
         let cache_key = CacheKey {
             input: lowercased_sentence,
             kinds: filter_entity_kinds.map(|entity_kinds| entity_kinds.to_vec()),
diff --git a/src/utils.rs b/src/utils.rs
index 8e3c00f..e269dd6 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -101,6 +101,24 @@ pub fn extract_nlu_engine_zip_archive<R: io::Read + io::Seek>(
     Ok(dest_path.join(engine_dir_name))
 }
 
+/// Lowercases a text without changing its number of characters, so that character ranges found in
+/// the lowercased text also hold in the original one
+pub fn lowercase_preserving_length(text: &str) -> String {
+    let lowercased = text.to_lowercase();
+    if lowercased.chars().count() == text.chars().count() {
+        return lowercased;
+    }
+    text.chars()
+        .map(|c| {
+            let mut lowercased_char = c.to_lowercase();
+            match (lowercased_char.next(), lowercased_char.next()) {
+                (Some(lower), None) => lower,
+                _ => c,
+            }
+        })
+        .collect()
+}
+
 #[derive(Debug, Clone, PartialEq, Eq, Hash)]
 pub struct MatchedEntity {
     pub range: Range<usize>,
-- 
2.43.0


From b25c6b7d04752bba95a0b48272070fa7730052c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:22 +0000
Subject: [PATCH 06/26] fix: compute the scores of ambiguous intents in a fixed
 order

---
 src/intent_parser/deterministic_intent_parser.rs | 4 +++-
 src/intent_parser/lookup_intent_parser.rs        | 5 +++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 0ee4ca7..47d91d4 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -211,7 +211,9 @@ impl DeterministicIntentParser {
         let filtered_entity_scopes = self
             .entity_scopes
             .iter()
-            .filter(|(intent, _)| intents_set.contains(&***intent));
+            .filter(|(intent, _)| intents_set.contains(&***intent))
+            // The scores must not depend on the iteration order of the map
+            .sorted_by(|(intent_a, _), (intent_b, _)| intent_a.cmp(intent_b));
 
         for (intent, (builtin_scope, custom_scope)) in filtered_entity_scopes {
             let builtin_entities = self
diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 32f5e08..56c7497 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -16,7 +16,7 @@ use snips_nlu_utils::string::{
     hash_str_to_i32, normalize, substring_with_char_range, suffix_from_char_index,
 };
 use snips_nlu_utils::token::tokenize_light;
-use std::collections::{HashMap, HashSet};
+use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs::File;
 use std::path::Path;
 use std::str::FromStr;
@@ -167,7 +167,8 @@ impl LookupIntentParser {
         top_n: usize,
         intents: Option<&[&str]>,
     ) -> Result<Vec<InternalParsingResult>> {
-        let mut results_per_intent = HashMap::<String, Vec<InternalParsingResult>>::new();
+        // Ordered by intent, so that the scores do not depend on the iteration order of the map
+        let mut results_per_intent = BTreeMap::<String, Vec<InternalParsingResult>>::new();
         for (text_candidate, entities) in self.get_candidates(input, intents)? {
             let candidate_key = hash_str_to_i32(&text_candidate);
             if let Some(result) = self
-- 
2.43.0


From 587e5ee92943ced4398a6b536c0d32a0d7471013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:22 +0000
Subject: [PATCH 07/26] fix: do not match an input that contains entity
 placeholders as a lookup utterance

---
 src/intent_parser/lookup_intent_parser.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 56c7497..62ab6d5 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -294,8 +294,11 @@ impl LookupIntentParser {
         intents: Option<&[&str]>,
     ) -> Option<InternalParsingResult> {
         let (intent_id, slots_ids) = output;
-        // assert invariant: length of slot ids matches that of entities
-        debug_assert!(slots_ids.len() == entities.len());
+        // The lengths differ when the input itself contains the placeholder of an entity, or when
+        // another utterance has the same hash: such an input is not an utterance of the intent
+        if slots_ids.len() != entities.len() {
+            return None;
+        }
         let intent_name = &self.intents_names[*intent_id as usize];
         if intents
             .map(|intents_list| intents_list.contains(&intent_name.as_ref()))
-- 
2.43.0


From d7f02e1e48336b0d888dcfe9d023f3e320d12e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 08/26] fix: keep the spelling of word clusters such as 0010

---
 src/resources/word_clusterer.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index 3c7ff03..efc8a83 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -34,11 +34,16 @@ impl HashMapWordClusterer {
             // Casting into u16 is attempted only when all previous clusters were converted
             // successfully
             if u16_casting_ok {
-                match u16::from_str(elements[1].as_ref()) {
-                    Ok(u16_value) => {
+                // The raw representation must be recoverable from the u16 value, which is not the
+                // case of "0010" for instance
+                match u16::from_str(elements[1].as_ref())
+                    .ok()
+                    .filter(|u16_value| u16_value.to_string() == elements[1])
+                {
+                    Some(u16_value) => {
                         u16_values.insert(hashed_key, u16_value);
                     }
-                    Err(_) => {
+                    None => {
                         // A word cluster cannot be converted into a u16, let's move all the
                         // previously stored clusters into a raw string representation
                         for (hash, value) in u16_values.iter() {
-- 
2.43.0


From 6cd3f943d827c2e83f0f35d331ee41cca5c80d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:20 +0000
Subject: [PATCH 09/26] fix: refuse a word clusters file without clusters
 instead of panicking

---
 src/resources/word_clusterer.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/resources/word_clusterer.rs b/src/resources/word_clusterer.rs
index efc8a83..0161b94 100644
--- a/src/resources/word_clusterer.rs
+++ b/src/resources/word_clusterer.rs
@@ -1,4 +1,5 @@
 use crate::errors::*;
+use failure::bail;
 use itertools::Either;
 use snips_nlu_ontology::Language;
 use snips_nlu_utils::string::hash_str_to_i32;
@@ -30,15 +31,19 @@ impl HashMapWordClusterer {
         let mut str_values = HashMap::new();
         for record in csv_reader.records() {
             let elements = record?;
-            let hashed_key = hash_str_to_i32(elements[0].as_ref());
+            let (word, cluster) = match (elements.get(0), elements.get(1)) {
+                (Some(word), Some(cluster)) => (word, cluster),
+                _ => bail!("Missing word cluster in record {:?}", elements),
+            };
+            let hashed_key = hash_str_to_i32(word);
             // Casting into u16 is attempted only when all previous clusters were converted
             // successfully
             if u16_casting_ok {
                 // The raw representation must be recoverable from the u16 value, which is not the
                 // case of "0010" for instance
-                match u16::from_str(elements[1].as_ref())
+                match u16::from_str(cluster)
                     .ok()
-                    .filter(|u16_value| u16_value.to_string() == elements[1])
+                    .filter(|u16_value| u16_value.to_string() == cluster)
                 {
                     Some(u16_value) => {
                         u16_values.insert(hashed_key, u16_value);
@@ -49,13 +54,13 @@ impl HashMapWordClusterer {
                         for (hash, value) in u16_values.iter() {
                             str_values.insert(*hash, format!("{}", value));
                         }
-                        str_values.insert(hashed_key, elements[1].to_string());
+                        str_values.insert(hashed_key, cluster.to_string());
                         u16_casting_ok = false;
                         u16_values.clear();
                     }
                 }
             } else {
-                str_values.insert(hashed_key, elements[1].to_string());
+                str_values.insert(hashed_key, cluster.to_string());
             }
         }
         Ok(Self {
-- 
2.43.0


From e23399af3c7288603b7e80ed9bbc67d27df7430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 10/26] fix: refuse tagging scheme codes of features that do
 not fit in a byte

---
 src/slot_filler/features.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index b7f9657..2ff1e6a 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -278,7 +278,7 @@ impl Feature for CustomEntityMatchFeature {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Vec<Box<dyn Feature>>> {
         let entities = parse_as_vec_string(args, "entities")?;
-        let tagging_scheme_code = parse_as_u64(args, "tagging_scheme_code")? as u8;
+        let tagging_scheme_code = parse_as_u8(args, "tagging_scheme_code")?;
         let tagging_scheme = TaggingScheme::from_u8(tagging_scheme_code)?;
         let use_stemming = parse_as_bool(args, "use_stemming")?;
         let opt_stemmer = if use_stemming {
@@ -343,7 +343,7 @@ impl Feature for BuiltinEntityMatchFeature {
         shared_resources: Arc<SharedResources>,
     ) -> Result<Vec<Box<dyn Feature>>> {
         let builtin_entity_labels = parse_as_vec_string(args, "entity_labels")?;
-        let tagging_scheme_code = parse_as_u64(args, "tagging_scheme_code")? as u8;
+        let tagging_scheme_code = parse_as_u8(args, "tagging_scheme_code")?;
         let tagging_scheme = TaggingScheme::from_u8(tagging_scheme_code)?;
 
         builtin_entity_labels
@@ -486,6 +486,14 @@ fn parse_as_u64(args: &HashMap<String, serde_json::Value>, arg_name: &str) -> Re
         .ok_or_else(|| format_err!("'{}' isn't a u64", arg_name))?)
 }
 
+fn parse_as_u8(args: &HashMap<String, serde_json::Value>, arg_name: &str) -> Result<u8> {
+    let value = parse_as_u64(args, arg_name)?;
+    if value > u64::from(std::u8::MAX) {
+        return Err(format_err!("'{}' isn't a u8", arg_name));
+    }
+    Ok(value as u8)
+}
+
 #[cfg(test)]
 mod tests {
     use std::iter::FromIterator;
-- 
2.43.0


From 1c2b83c3756c64e654277cda6388af26034ac5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:37 +0000
Subject: [PATCH 11/26] fix: refuse a gazetteer name of an n-gram feature which
 is not a string

---
 src/slot_filler/features.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index 2ff1e6a..39e2d1a 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -446,11 +446,14 @@ fn parse_as_opt_string(
     args: &HashMap<String, serde_json::Value>,
     arg_name: &str,
 ) -> Result<Option<String>> {
-    Ok(args
+    match args
         .get(arg_name)
         .ok_or_else(|| format_err!("can't retrieve '{}' parameter", arg_name))?
-        .as_str()
-        .map(|s| s.to_string()))
+    {
+        serde_json::Value::Null => Ok(None),
+        serde_json::Value::String(value) => Ok(Some(value.to_string())),
+        _ => Err(format_err!("'{}' isn't a string", arg_name)),
+    }
 }
 
 fn parse_as_vec_string(
-- 
2.43.0


From 69fb546745db6b11f64735eb06f30c5979d53647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 12/26] fix: return an error when a file of the engine archive
 cannot be created

---
 src/utils.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils.rs b/src/utils.rs
index e269dd6..152d3f5 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -79,7 +79,8 @@ pub fn extract_nlu_engine_zip_archive<R: io::Read + io::Seek>(
                     fs::create_dir_all(&p)?;
                 }
             }
-            let mut outfile = fs::File::create(&outpath).unwrap();
+            let mut outfile = fs::File::create(&outpath)
+                .with_context(|_| format!("Could not create file {:?}", &outpath))?;
             io::copy(&mut file, &mut outfile)?;
         }
     }
-- 
2.43.0


From 665e2a6d8c4915570b8870b0cce653c36853eda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:21 +0000
Subject: [PATCH 13/26] fix: do not overflow on features with extreme offsets

---
 src/slot_filler/feature_processor.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/slot_filler/feature_processor.rs b/src/slot_filler/feature_processor.rs
index 5d118ca..367052e 100644
--- a/src/slot_filler/feature_processor.rs
+++ b/src/slot_filler/feature_processor.rs
@@ -40,8 +40,9 @@ impl ProbabilisticFeatureProcessor {
             for i in 0..input.len() {
                 if let Some(value) = offsetter.feature.compute(input, i)? {
                     offsetter.offsets_with_name().iter().for_each(|&(offset, ref key)| {
-                        if i as i32 - offset >= 0 && i as i32 - offset < input.len() as i32 {
-                            features[(i as i32 - offset) as usize].push(
+                        let target = i as i64 - i64::from(offset);
+                        if target >= 0 && target < input.len() as i64 {
+                            features[target as usize].push(
                                 (key.clone(), value.clone())
                             );
                         }
-- 
2.43.0


From c920e48153e8a6798f9b50ab3c2ccb9462ec99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 14/26] fix: refuse a lookup table with unknown intent or slot
 ids instead of panicking on a query

---
 src/intent_parser/lookup_intent_parser.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 62ab6d5..54a2a9b 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -7,7 +7,7 @@ use crate::slot_utils::*;
 use crate::utils::{deduplicate_overlapping_entities, IntentName, MatchedEntity, SlotName};
 use crate::IntentParser;
 use crate::{EntityScope, GroupedEntityScope, InputHash, IntentId, SlotId};
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::debug;
 use snips_nlu_ontology::{BuiltinEntityKind, IntentClassifierResult, Language};
@@ -61,6 +61,16 @@ impl LookupIntentParser {
     /// create a parser instance
     pub fn new(model: LookupParserModel, shared_resources: Arc<SharedResources>) -> Result<Self> {
         let language = Language::from_str(&model.language_code)?;
+        for (intent_id, slots_ids) in model.map.values() {
+            if *intent_id < 0 || *intent_id as usize >= model.intents_names.len() {
+                bail!("Unknown intent id {} in lookup table", intent_id);
+            }
+            for slot_id in slots_ids {
+                if *slot_id < 0 || *slot_id as usize >= model.slots_names.len() {
+                    bail!("Unknown slot id {} in lookup table", slot_id);
+                }
+            }
+        }
         let stop_words = if model.config.ignore_stop_words {
             shared_resources.stop_words.clone()
         } else {
-- 
2.43.0


From 648fa22a5be39e3f73d29d201ea9d9327325289a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 15/26] fix: refuse a pattern with groups of unknown slots
 instead of panicking on a query

---
 .../deterministic_intent_parser.rs            | 26 +++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/intent_parser/deterministic_intent_parser.rs b/src/intent_parser/deterministic_intent_parser.rs
index 47d91d4..1486592 100644
--- a/src/intent_parser/deterministic_intent_parser.rs
+++ b/src/intent_parser/deterministic_intent_parser.rs
@@ -109,9 +109,26 @@ impl DeterministicIntentParser {
                 )
             })
             .collect();
+        let regexes_per_intent = compile_regexes_per_intent(model.patterns)?;
+        let slot_names_to_entities = &model.slot_names_to_entities;
+        for (intent, regexes) in regexes_per_intent.iter() {
+            for group_name in regexes.iter().flat_map(|r| r.capture_names().flatten()) {
+                model
+                    .group_names_to_slot_names
+                    .get(get_base_group_name(group_name))
+                    .and_then(|slot_name| slot_names_to_entities.get(intent)?.get(slot_name))
+                    .ok_or_else(|| {
+                        format_err!(
+                            "Pattern of intent '{}' has no slot for group '{}'",
+                            intent,
+                            group_name
+                        )
+                    })?;
+            }
+        }
         Ok(DeterministicIntentParser {
             language,
-            regexes_per_intent: compile_regexes_per_intent(model.patterns)?,
+            regexes_per_intent,
             group_names_to_slot_names: model.group_names_to_slot_names,
             slot_names_to_entities: model.slot_names_to_entities,
             stop_words,
@@ -337,7 +354,7 @@ impl DeterministicIntentParser {
                     }
                 })
                 .map(|(a_match, group_name)| {
-                    let group_name = group_name.split('_').collect::<Vec<&str>>()[0];
+                    let group_name = get_base_group_name(group_name);
                     let slot_name = self.group_names_to_slot_names[group_name].to_string();
                     let entity = self.slot_names_to_entities[intent][&slot_name].to_string();
                     let byte_range = a_match.start()..a_match.end();
@@ -369,6 +386,11 @@ impl DeterministicIntentParser {
     }
 }
 
+/// Strips the suffix which distinguishes the several groups of a same slot, e.g. "group0_2"
+fn get_base_group_name(group_name: &str) -> &str {
+    group_name.split('_').next().unwrap_or(group_name)
+}
+
 fn compile_regexes_per_intent(
     patterns: HashMap<IntentName, Vec<String>>,
 ) -> Result<HashMap<IntentName, Vec<Regex>>> {
-- 
2.43.0


From 27afdcd0bc90dc876c4361505e8f60ed77e258f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 16/26] fix: do not overflow on n-gram features with a huge
 size

---
 src/slot_filler/features.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/slot_filler/features.rs b/src/slot_filler/features.rs
index 39e2d1a..9b3329e 100644
--- a/src/slot_filler/features.rs
+++ b/src/slot_filler/features.rs
@@ -149,7 +149,7 @@ impl Feature for NgramFeature {
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
         // TODO we should precompute the lowercase value somewhere, perhaps use NormalizedToken ?
-        if token_index + self.ngram_size > tokens.len() {
+        if self.ngram_size > tokens.len() - token_index {
             return Ok(None);
         }
         let result = tokens[token_index..token_index + self.ngram_size]
@@ -194,11 +194,10 @@ impl Feature for ShapeNgramFeature {
     }
 
     fn compute(&self, tokens: &[Token], token_index: usize) -> Result<Option<String>> {
-        let max_len = tokens.len();
-        let end = token_index + self.ngram_size;
-        Ok(if token_index < end && end <= max_len {
+        let max_size = tokens.len() - token_index;
+        Ok(if self.ngram_size > 0 && self.ngram_size <= max_size {
             Some(
-                tokens[token_index..end]
+                tokens[token_index..token_index + self.ngram_size]
                     .iter()
                     .map(|token| get_shape(&token.value))
                     .join(" "),
-- 
2.43.0


From e68072171cb8560cbef2ac22c3761bed5e6ab02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 17/26] fix: refuse a vocabulary whose indexes have no idf
 instead of panicking on a query

---
 src/intent_classifier/featurizer.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 36cb84f..85f6721 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -5,7 +5,7 @@ use std::path::Path;
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::{format_err, ResultExt};
+use failure::{bail, format_err, ResultExt};
 use itertools::Itertools;
 use ndarray::prelude::*;
 use snips_nlu_ontology::{BuiltinEntityKind, Language};
@@ -122,6 +122,9 @@ impl TfidfVectorizer {
     ) -> Result<Self> {
         let vocabulary = model.vectorizer.vocab;
         let idf_diag = model.vectorizer.idf_diag;
+        if let Some((word, word_idx)) = vocabulary.iter().find(|(_, ix)| **ix >= idf_diag.len()) {
+            bail!("No idf for word '{}' of index {}", word, word_idx);
+        }
 
         let ontology_language = Language::from_str(model.language_code.as_ref())?;
         let language = NluUtilsLanguage::from_language(ontology_language);
@@ -217,7 +220,7 @@ impl TfidfVectorizer {
             word_clusters,
         ];
 
-        let vocabulary_size = self.vocabulary.values().max().unwrap() + 1;
+        let vocabulary_size = self.vocabulary.values().max().map_or(0, |max_ix| max_ix + 1);
         let mut features: Vec<f32> = vec![0.; vocabulary_size];
         let mut match_idx: HashSet<usize> = HashSet::new();
         for extracted_features in features_it.iter() {
-- 
2.43.0


From cfa596e504bf8b553bf944daf6c94feeb4799b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 18/26] fix: refuse word pairs whose indexes are out of bounds
 and support any window size

---
 src/intent_classifier/featurizer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/intent_classifier/featurizer.rs b/src/intent_classifier/featurizer.rs
index 85f6721..a95a900 100644
--- a/src/intent_classifier/featurizer.rs
+++ b/src/intent_classifier/featurizer.rs
@@ -287,11 +287,15 @@ impl CooccurrenceVectorizer {
             })
             .collect::<Result<Vec<BuiltinEntityKind>>>()?;
 
-        let word_pairs = model
+        let nb_features = model.word_pairs.len();
+        let word_pairs: HashMap<WordPair, usize> = model
             .word_pairs
             .into_iter()
             .map(|(index, pairs)| (pairs, index))
             .collect();
+        if word_pairs.len() < nb_features || word_pairs.values().any(|ix| *ix >= nb_features) {
+            bail!("Word pairs must be distinct, and indexed from 0");
+        }
 
         let filter_stop_words = model.config.filter_stop_words;
         let window_size = model.config.window_size;
@@ -370,7 +374,7 @@ impl CooccurrenceVectorizer {
             .enumerate()
             .flat_map(|(i, t)| {
                 let max_index = self.window_size.map_or(num_tokens, |window_size| {
-                    min(i + window_size + 1, num_tokens)
+                    min((i + 1).saturating_add(window_size), num_tokens)
                 });
                 filtered_tokens[i + 1..max_index].iter().map(move |other| {
                     if self.keep_order || t < other {
-- 
2.43.0


From 80800d51f754eaf5295a25201656a37a1902c75e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 19/26] fix: refuse inconsistent coefficients of the intent
 classifier instead of panicking

---
 src/intent_classifier/log_reg_intent_classifier.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/intent_classifier/log_reg_intent_classifier.rs b/src/intent_classifier/log_reg_intent_classifier.rs
index 52e9444..8a33425 100644
--- a/src/intent_classifier/log_reg_intent_classifier.rs
+++ b/src/intent_classifier/log_reg_intent_classifier.rs
@@ -4,7 +4,7 @@ use std::iter::FromIterator;
 use std::path::Path;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{bail, ResultExt};
 use itertools::Itertools;
 use log::{debug, info};
 use ndarray::prelude::*;
@@ -53,7 +53,10 @@ impl LogRegIntentClassifier {
         let logreg = if let (Some(intercept), Some(coeffs)) = (model.intercept, model.coeffs) {
             let arr_intercept = Array::from_vec(intercept);
             let nb_classes = arr_intercept.dim();
-            let nb_features = coeffs[0].len();
+            let nb_features = coeffs.first().map_or(0, |c| c.len());
+            if coeffs.len() != nb_classes || coeffs.iter().any(|c| c.len() != nb_features) {
+                bail!("Shapes of intercept and coeffs are not consistent");
+            }
             // Note: the deserialized coeffs matrix is transposed
             let arr_weights =
                 Array::from_shape_fn((nb_features, nb_classes), |(i, j)| coeffs[j][i]);
-- 
2.43.0


From 78aad43649c3c67d3ff667610d6f173d456faec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:46 +0000
Subject: [PATCH 20/26] fix: do not panic when the path of a model which cannot
 be loaded is not utf-8

---
 src/nlu_engine.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlu_engine.rs b/src/nlu_engine.rs
index 217bf4a..98896ef 100644
--- a/src/nlu_engine.rs
+++ b/src/nlu_engine.rs
@@ -68,7 +68,7 @@ impl SnipsNluEngine {
     fn load_model<P: AsRef<Path>>(path: P) -> Result<NluEngineModel> {
         let engine_model_path = path.as_ref().join("nlu_engine.json");
         Self::check_model_version(&engine_model_path).with_context(|_| {
-            SnipsNluError::ModelLoad(engine_model_path.to_str().unwrap().to_string())
+            SnipsNluError::ModelLoad(engine_model_path.to_string_lossy().to_string())
         })?;
         let model_file = fs::File::open(&engine_model_path)
             .with_context(|_| format!("Could not open nlu engine file {:?}", &engine_model_path))?;
-- 
2.43.0


From 659083ac86007d53f29448d0f92c6a0c748b43ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:13 +0000
Subject: [PATCH 21/26] =?UTF-8?q?fix:=20recognise=20injected=20values=20wi?=
 =?UTF-8?q?th=20punctuation,=20several=20spaces=20or=20letters=20such=20as?=
 =?UTF-8?q?=20=C4=B0?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/injection/injection.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 541981c..f383087 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -22,6 +22,7 @@ use crate::models::nlu_engine::NluEngineModel;
 use crate::resources::loading::load_engine_shared_resources;
 use crate::resources::stemmer::Stemmer;
 use crate::resources::SharedResources;
+use crate::utils::lowercase_preserving_length;
 
 use super::errors::{NluInjectionError, NluInjectionErrorKind};
 
@@ -29,7 +30,7 @@ pub type InjectedEntity = String;
 pub type InjectedValue = String;
 
 fn normalize(s: &str) -> String {
-    s.to_lowercase()
+    lowercase_preserving_length(s)
 }
 
 struct NluEngineInfo {
@@ -124,7 +125,7 @@ impl<P: AsRef<Path>> NluInjector<P> {
                 let normalize_entity_values = normalize_entity_value(values);
                 if engine_info.custom_entities.contains(&*entity) {
                     let stemmed_entity_values = stem_entity_value(
-                        normalize_entity_values,
+                        tokenize_entity_value(normalize_entity_values, engine_info.language),
                         &engine_info,
                         &custom_parser_info,
                         maybe_stemmer,
@@ -378,6 +379,22 @@ fn normalize_entity_value(entity_values: Vec<InjectedValue>) -> Vec<GazetteerEnt
         .collect()
 }
 
+/// The custom entity parser is given the tokens of the text separated with a space
+fn tokenize_entity_value(
+    entity_values: Vec<GazetteerEntityValue>,
+    language: NluUtilsLanguage,
+) -> Vec<GazetteerEntityValue> {
+    entity_values
+        .into_iter()
+        .map(|value| GazetteerEntityValue {
+            raw_value: tokenize_light(&*value.raw_value, language)
+                .into_iter()
+                .join(" "),
+            resolved_value: value.resolved_value,
+        })
+        .collect()
+}
+
 fn stem_entity_value(
     entity_values: Vec<GazetteerEntityValue>,
     engine_info: &NluEngineInfo,
-- 
2.43.0


From 8f133b1b16da63ea893539a2802f474d78f092ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:24 +0000
Subject: [PATCH 22/26] fix: do not write any injected parser before all of
 them have been loaded

---
 src/injection/injection.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index f383087..52961cb 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -137,6 +137,8 @@ impl<P: AsRef<Path>> NluInjector<P> {
             })
             .collect::<Result<HashMap<_, _>, NluInjectionError>>()?;
 
+        // Nothing is written before all the values have been injected
+        let mut injected_parsers = vec![];
         for (entity, new_entity_values) in normalized_entity_values {
             info!("Injecting values for entity '{}'", entity);
 
@@ -151,7 +153,10 @@ impl<P: AsRef<Path>> NluInjector<P> {
                 .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
                     msg: format!("could not inject values for entity '{}'", entity),
                 })?;
+            injected_parsers.push((parser_dir, gazetteer_parser));
+        }
 
+        for (parser_dir, gazetteer_parser) in injected_parsers {
             fs::remove_dir_all(parser_dir.clone()).with_context(|_| {
                 NluInjectionErrorKind::InternalInjectionError {
                     msg: format!("could not remove previous parser at {:?}", parser_dir),
-- 
2.43.0


From 7f1721b10f6ecd2599f20d499b18b703b9160718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:53 +0000
Subject: [PATCH 23/26] fix: do not lose the values of an entity when an
 injection is interrupted

---
 src/injection/injection.rs | 115 ++++++++++++++++++++++++++++++++-----
 1 file changed, 101 insertions(+), 14 deletions(-)

diff --git a/src/injection/injection.rs b/src/injection/injection.rs
index 52961cb..b1d607d 100644
--- a/src/injection/injection.rs
+++ b/src/injection/injection.rs
@@ -1,13 +1,15 @@
 use std::collections::{HashMap, HashSet};
 use std::fs;
 use std::iter::FromIterator;
+use std::mem::replace;
 use std::path::{Path, PathBuf};
 use std::str::FromStr;
 use std::sync::Arc;
 
-use failure::ResultExt;
+use failure::{Error, ResultExt};
 use itertools::Itertools;
-use log::info;
+use log::{info, warn};
+use serde_json::json;
 use snips_nlu_ontology::{BuiltinGazetteerEntityKind, GrammarEntityKind};
 use snips_nlu_parsers::gazetteer_entity_parser::{
     EntityValue as GazetteerEntityValue, Parser as GazetteerEntityParser,
@@ -153,26 +155,111 @@ impl<P: AsRef<Path>> NluInjector<P> {
                 .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
                     msg: format!("could not inject values for entity '{}'", entity),
                 })?;
-            injected_parsers.push((parser_dir, gazetteer_parser));
+            injected_parsers.push((entity, gazetteer_parser));
         }
 
-        for (parser_dir, gazetteer_parser) in injected_parsers {
-            fs::remove_dir_all(parser_dir.clone()).with_context(|_| {
-                NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("could not remove previous parser at {:?}", parser_dir),
-                }
-            })?;
+        let (custom_parsers, builtin_parsers): (Vec<_>, Vec<_>) = injected_parsers
+            .into_iter()
+            .partition(|(entity, _)| engine_info.custom_entities.contains(entity));
+        replace_entity_parsers(
+            &custom_parser_info.gazetteer_parser_dir,
+            custom_parser_info.gazetteer_parser_metadata,
+            custom_parsers,
+        )?;
+        if let Some(builtin_parser_info) = builtin_parser_info {
+            replace_entity_parsers(
+                &builtin_parser_info.gazetteer_parser_dir,
+                builtin_parser_info.gazetteer_parser_metadata,
+                builtin_parsers,
+            )?;
+        }
 
-            gazetteer_parser.dump(&parser_dir).with_context(|_| {
-                NluInjectionErrorKind::InternalInjectionError {
-                    msg: format!("failed to dump gazetteer parser in {:?}", parser_dir),
+        info!("Injection performed with success !");
+        Ok(())
+    }
+}
+
+/// Writes the parsers in new directories, and only then makes the metadata of the gazetteer parser
+/// refer to them, so that an interruption leaves either all the previous parsers or all the new ones
+fn replace_entity_parsers(
+    gazetteer_parser_dir: &PathBuf,
+    metadata: GazetteerParserMetadata,
+    parsers: Vec<(InjectedEntity, GazetteerEntityParser)>,
+) -> Result<(), NluInjectionError> {
+    if parsers.is_empty() {
+        return Ok(());
+    }
+    let mut new_dirs = vec![];
+    let previous_dirs =
+        write_entity_parsers(gazetteer_parser_dir, metadata, parsers, &mut new_dirs)
+            .map_err(|error| {
+                for new_dir in new_dirs {
+                    let _ = fs::remove_dir_all(new_dir);
                 }
+                error
+            })
+            .with_context(|_| NluInjectionErrorKind::InternalInjectionError {
+                msg: format!("could not replace parsers in {:?}", gazetteer_parser_dir),
             })?;
+    for previous_dir in previous_dirs {
+        if let Err(error) = fs::remove_dir_all(&previous_dir) {
+            warn!("Could not remove parser {:?}: {}", previous_dir, error);
         }
+    }
+    Ok(())
+}
 
-        info!("Injection performed with success !");
-        Ok(())
+/// Returns the directories which are not used anymore
+fn write_entity_parsers(
+    gazetteer_parser_dir: &PathBuf,
+    mut metadata: GazetteerParserMetadata,
+    parsers: Vec<(InjectedEntity, GazetteerEntityParser)>,
+    new_dirs: &mut Vec<PathBuf>,
+) -> Result<Vec<PathBuf>, Error> {
+    let mut previous_dirs = vec![];
+    for (entity, parser) in parsers {
+        let new_dir_name = (0..)
+            .map(|i| format!("injected_parser_{}", i))
+            .find(|dir_name| !gazetteer_parser_dir.join(dir_name).exists())
+            .unwrap();
+        let new_dir = gazetteer_parser_dir.join(&new_dir_name);
+        new_dirs.push(new_dir.clone());
+        parser.dump(new_dir)?;
+        if let Some(parser_metadata) = metadata
+            .parsers_metadata
+            .iter_mut()
+            .find(|parser_metadata| parser_metadata.entity_identifier == entity)
+        {
+            previous_dirs.push(replace(&mut parser_metadata.entity_parser, new_dir_name));
+        }
     }
+    previous_dirs.retain(|dir_name| {
+        metadata
+            .parsers_metadata
+            .iter()
+            .all(|parser_metadata| parser_metadata.entity_parser != *dir_name)
+    });
+
+    let new_metadata = json!({
+        "parsers_metadata": metadata
+            .parsers_metadata
+            .iter()
+            .map(|parser_metadata| json!({
+                "entity_identifier": parser_metadata.entity_identifier,
+                "entity_parser": parser_metadata.entity_parser,
+            }))
+            .collect::<Vec<_>>()
+    });
+    let new_metadata_path = gazetteer_parser_dir.join("metadata.json.tmp");
+    fs::write(&new_metadata_path, new_metadata.to_string())?;
+    fs::rename(
+        new_metadata_path,
+        gazetteer_parser_dir.join("metadata.json"),
+    )?;
+    Ok(previous_dirs
+        .into_iter()
+        .map(|dir_name| gazetteer_parser_dir.join(dir_name))
+        .collect())
 }
 
 fn get_entity_parsers_dirs(
-- 
2.43.0


From 7a6d1ab2eb24160d98c7012610bcbed53973632d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:28 +0000
Subject: [PATCH 24/26] fix: do not overflow when replacing the entities of a
 long text

The offsets of the placeholders were computed with 16 bits integers: a text in which an entity starts
or ends after 32767 characters made the deterministic parser panic, or return wrong ranges.
---
 src/utils.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 152d3f5..5cafe48 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -165,13 +165,13 @@ where
     let mut current_ix = 0;
 
     for matched_entity in dedup_matches {
-        let range_start = (matched_entity.range.start as i16 + offset) as usize;
+        let range_start = (matched_entity.range.start as i64 + offset) as usize;
         let prefix_text =
             substring_with_char_range(text.to_string(), &(current_ix..matched_entity.range.start));
         let entity_text = placeholder_fn(&*matched_entity.entity_name);
         processed_text = format!("{}{}{}", processed_text, prefix_text, entity_text);
-        offset += entity_text.chars().count() as i16 - matched_entity.range.clone().count() as i16;
-        let range_end = (matched_entity.range.end as i16 + offset) as usize;
+        offset += entity_text.chars().count() as i64 - matched_entity.range.clone().count() as i64;
+        let range_end = (matched_entity.range.end as i64 + offset) as usize;
         let new_range = range_start..range_end;
         current_ix = matched_entity.range.end;
         range_mapping.insert(new_range, matched_entity.range);
-- 
2.43.0


From 0dd07f2db6ddf7fe5905d98eeab2c6fe54d22af7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:57 +0000
Subject: [PATCH 25/26] fix: do not enumerate subsets of entities that no
 utterance can match

The lookup parser enumerated every subset of the entities found in the input: a text with thirty of
them exhausted the memory. Only subsets with as many entities as an utterance has slots can match.
---
 src/intent_parser/lookup_intent_parser.rs | 26 ++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/intent_parser/lookup_intent_parser.rs b/src/intent_parser/lookup_intent_parser.rs
index 54a2a9b..ee61a0b 100644
--- a/src/intent_parser/lookup_intent_parser.rs
+++ b/src/intent_parser/lookup_intent_parser.rs
@@ -16,6 +16,7 @@ use snips_nlu_utils::string::{
     hash_str_to_i32, normalize, substring_with_char_range, suffix_from_char_index,
 };
 use snips_nlu_utils::token::tokenize_light;
+use std::cmp::min;
 use std::collections::{BTreeMap, HashMap, HashSet};
 use std::fs::File;
 use std::path::Path;
@@ -32,6 +33,7 @@ pub struct LookupIntentParser {
     slots_names: Vec<SlotName>,
     intents_names: Vec<IntentName>,
     map: HashMap<InputHash, (IntentId, Vec<SlotId>)>,
+    max_slots: usize,
     stop_words: HashSet<String>,
     specific_stop_words: HashMap<IntentName, HashSet<String>>,
     entity_scopes: Vec<GroupedEntityScope>,
@@ -71,6 +73,12 @@ impl LookupIntentParser {
                 }
             }
         }
+        let max_slots = model
+            .map
+            .values()
+            .map(|(_, slots_ids)| slots_ids.len())
+            .max()
+            .unwrap_or(0);
         let stop_words = if model.config.ignore_stop_words {
             shared_resources.stop_words.clone()
         } else {
@@ -94,6 +102,7 @@ impl LookupIntentParser {
             slots_names: model.slots_names,
             intents_names: model.intents_names,
             map: model.map,
+            max_slots,
             stop_words,
             specific_stop_words,
             entity_scopes: model.entity_scopes,
@@ -248,8 +257,10 @@ impl LookupIntentParser {
             }
             let all_entities = self.get_all_entities(input, &entity_scope.entity_scope)?;
             // We generate all subsets of entities to match utterances containing ambivalent
-            // words which can be both entity values or random words
-            for entities in get_items_combinations(all_entities) {
+            // words which can be both entity values or random words. The subsets with more entities
+            // than any utterance has slots are left out: they cannot match, and their number
+            // grows exponentially with the number of entities in the input
+            for entities in get_items_combinations_up_to(all_entities, self.max_slots) {
                 let processed_text = replace_entities_with_placeholders(input, entities.as_ref());
                 for intent in intent_group.iter() {
                     let cleaned_text = self.preprocess_text(input, intent);
@@ -385,11 +396,20 @@ fn replace_entities_with_placeholders(text: &str, entities: &[MatchedEntity]) ->
     }
 }
 
+#[cfg(test)]
 fn get_items_combinations<T>(items: Vec<T>) -> Vec<Vec<T>>
 where
     T: Clone,
 {
-    let mut combinations: Vec<Vec<T>> = (1..items.len() + 1)
+    let max_size = items.len();
+    get_items_combinations_up_to(items, max_size)
+}
+
+fn get_items_combinations_up_to<T>(items: Vec<T>, max_size: usize) -> Vec<Vec<T>>
+where
+    T: Clone,
+{
+    let mut combinations: Vec<Vec<T>> = (1..min(items.len(), max_size) + 1)
         .rev()
         .flat_map(|nb_entities| items.clone().into_iter().combinations(nb_entities))
         .collect();
-- 
2.43.0


From 0fc5b70e26c7951c131412c796c9317cd0d120e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:01 +0000
Subject: [PATCH 26/26] fix: C30 report null pointers given to the C interface
 as errors

---
 ffi/src/lib.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ffi/src/lib.rs b/ffi/src/lib.rs
index 3c90072..8f9922f 100644
--- a/ffi/src/lib.rs
+++ b/ffi/src/lib.rs
@@ -258,6 +258,9 @@ fn create_from_zip(
     zip_size: libc::c_uint,
     client: *mut *const CSnipsNluEngine,
 ) -> Result<()> {
+    if zip.is_null() {
+        return Err(format_err!("unexpected null pointer for the zip archive"));
+    }
     let slice = unsafe { slice::from_raw_parts(zip, zip_size as usize) };
     let reader = Cursor::new(slice.to_owned());
     let nlu_engine = SnipsNluEngine::from_zip(reader)?;
@@ -408,8 +411,19 @@ fn get_model_version(version: *mut *const libc::c_char) -> Result<()> {
 
 unsafe fn convert_to_rust_vec<'a>(c_array: *const CStringArray) -> Result<Vec<&'a str>> {
     let array = &*c_array;
+    if array.size < 0 || (array.size > 0 && array.data.is_null()) {
+        return Err(format_err!("invalid array of strings"));
+    }
+    if array.size == 0 {
+        return Ok(vec![]);
+    }
     slice::from_raw_parts(array.data, array.size as usize)
         .into_iter()
-        .map(|&ptr| Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?))
+        .map(|&ptr| {
+            if ptr.is_null() {
+                return Err(format_err!("unexpected null pointer in array of strings"));
+            }
+            Ok(CStr::from_ptr(ptr).to_str().map_err(failure::Error::from)?)
+        })
         .collect::<Result<Vec<_>>>()
 }
-- 
2.43.0

