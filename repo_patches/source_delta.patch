From ab2c56e2be628aca4ffa93a08aa69dbe814767cc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Wed, 18 Nov 2026 22:10:00 +0000
Subject: [PATCH 1/3] fix: forget a document's field lengths when it is removed

remove_doc() left the document's entry in doc_info behind, so the
serialized store still described a document it no longer held and adding
the same reference again brought the old field lengths back.
elasticlunr.js deletes both.
---
 src/document_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document_store.rs b/src/document_store.rs
index 8adc722..1794d40 100644
--- a/src/document_store.rs
+++ b/src/document_store.rs
@@ -61,6 +61,7 @@ impl DocumentStore {
         }
 
         self.docs.remove(doc_ref);
+        self.doc_info.remove(doc_ref);
     }
 
     pub fn add_field_length(&mut self, doc_ref: &str, field: &str, length: usize) {
-- 
2.43.0


From 8c482367e20b43b989bc9dde163c7cc11ae43d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:10:17 +0000
Subject: [PATCH 2/3] fix: make a serialized Index deserializable

Index derives Deserialize, but no serialized index could be read back:
the pipeline is written as a list of names while its Deserialize expects a
struct, the version field borrows a &'static str, and the language visitor
only accepts borrowed strings. Had it succeeded, the index would have had
no pipeline and no field tokenizer slots. Rebuild these from the language,
and reject an index whose version, language, pipeline or fields do not
match.
---
 src/lib.rs | 92 ++++++++++++++++++++++++++++++++----------------------
 1 file changed, 55 insertions(+), 37 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3234375..f95f832 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,6 +43,7 @@ pub mod lang;
 pub mod pipeline;
 
 use std::collections::BTreeMap;
+use std::convert::TryFrom;
 
 use document_store::DocumentStore;
 use inverted_index::InvertedIndex;
@@ -194,8 +195,12 @@ impl IndexBuilder {
 }
 
 /// An elasticlunr search index.
+///
+/// A serialized `Index` can be deserialized again as long as it was created for one of the
+/// languages in [`lang`]. Custom field tokenizers are not part of the serialized form, so after
+/// deserialization every field uses the language's own tokenizer.
 #[derive(Serialize, Deserialize)]
-#[serde(rename_all = "camelCase")]
+#[serde(rename_all = "camelCase", try_from = "SavedIndex")]
 pub struct Index {
     fields: Vec<String>,
     #[serde(skip)]
@@ -206,51 +211,64 @@ pub struct Index {
     version: &'static str,
     index: BTreeMap<String, InvertedIndex>,
     document_store: DocumentStore,
-    #[serde(with = "ser_lang")]
+    #[serde(serialize_with = "serialize_lang")]
     lang: Box<dyn Language>,
 }
 
-mod ser_lang {
-    use crate::Language;
-    use serde::de;
-    use serde::{Deserializer, Serializer};
-    use std::fmt;
-
-    // `serde(with = ...)` hands us a reference to the field itself, which is a
-    // `Box<dyn Language>`, so the extra indirection is not ours to remove.
-    #[allow(clippy::borrowed_box)]
-    pub fn serialize<S>(lang: &Box<dyn Language>, serializer: S) -> Result<S::Ok, S::Error>
-    where
-        S: Serializer,
-    {
-        serializer.serialize_str(&lang.name())
-    }
-
-    pub fn deserialize<'de, D>(deserializer: D) -> Result<Box<dyn Language>, D::Error>
-    where
-        D: Deserializer<'de>,
-    {
-        deserializer.deserialize_str(LanguageVisitor)
-    }
+// `serde(serialize_with = ...)` hands us a reference to the field itself, which is a
+// `Box<dyn Language>`, so the extra indirection is not ours to remove.
+#[allow(clippy::borrowed_box)]
+fn serialize_lang<S>(lang: &Box<dyn Language>, serializer: S) -> Result<S::Ok, S::Error>
+where
+    S: serde::Serializer,
+{
+    serializer.serialize_str(&lang.name())
+}
 
-    struct LanguageVisitor;
+/// The serialized form of an `Index`. The language and the pipeline are saved by name only.
+#[derive(Deserialize)]
+#[serde(rename_all = "camelCase")]
+struct SavedIndex {
+    fields: Vec<String>,
+    pipeline: Vec<String>,
+    #[serde(rename = "ref")]
+    ref_field: String,
+    version: String,
+    index: BTreeMap<String, InvertedIndex>,
+    document_store: DocumentStore,
+    lang: String,
+}
 
-    impl<'de> de::Visitor<'de> for LanguageVisitor {
-        type Value = Box<dyn Language>;
+impl TryFrom<SavedIndex> for Index {
+    type Error = String;
 
-        fn expecting(&self, formatter: &mut fmt::Formatter) -> fmt::Result {
-            formatter.write_str("a capitalized language name")
+    fn try_from(saved: SavedIndex) -> Result<Self, Self::Error> {
+        if saved.version != ELASTICLUNR_VERSION {
+            return Err(format!("Unsupported index version: {}", saved.version));
         }
-
-        fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E>
-        where
-            E: de::Error,
+        if saved.fields.len() != saved.index.len()
+            || saved.fields.iter().any(|f| !saved.index.contains_key(f))
         {
-            match crate::lang::from_name(v) {
-                Some(l) => Ok(l),
-                None => Err(E::custom(format!("Unknown language name: {}", v))),
-            }
+            return Err("The fields do not match the index".into());
+        }
+
+        let lang = lang::from_name(&saved.lang)
+            .ok_or_else(|| format!("Unknown language name: {}", saved.lang))?;
+        let pipeline = lang.make_pipeline();
+        if !pipeline.queue.iter().map(|f| f.name()).eq(saved.pipeline) {
+            return Err(format!("The pipeline does not match {}", saved.lang));
         }
+
+        Ok(Index {
+            field_tokenizers: saved.fields.iter().map(|_| None).collect(),
+            fields: saved.fields,
+            pipeline,
+            ref_field: saved.ref_field,
+            version: ELASTICLUNR_VERSION,
+            index: saved.index,
+            document_store: saved.document_store,
+            lang,
+        })
     }
 }
 
-- 
2.43.0


From c6b6949fc0cbc4a7dbe4411d1c6324cd595509bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:22 +0000
Subject: [PATCH 3/3] fix: let an Index be deserialized from any input

The derived implementation borrowed the version string from the input, so it
required input that lives for 'static and excluded readers.
---
 src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f95f832..64b02ba 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -43,7 +43,7 @@ pub mod lang;
 pub mod pipeline;
 
 use std::collections::BTreeMap;
-use std::convert::TryFrom;
+use std::convert::{TryFrom, TryInto};
 
 use document_store::DocumentStore;
 use inverted_index::InvertedIndex;
@@ -199,8 +199,8 @@ impl IndexBuilder {
 /// A serialized `Index` can be deserialized again as long as it was created for one of the
 /// languages in [`lang`]. Custom field tokenizers are not part of the serialized form, so after
 /// deserialization every field uses the language's own tokenizer.
-#[derive(Serialize, Deserialize)]
-#[serde(rename_all = "camelCase", try_from = "SavedIndex")]
+#[derive(Serialize)]
+#[serde(rename_all = "camelCase")]
 pub struct Index {
     fields: Vec<String>,
     #[serde(skip)]
@@ -272,6 +272,18 @@ impl TryFrom<SavedIndex> for Index {
     }
 }
 
+// Not derived, because a derived implementation would borrow `version` from the input.
+impl<'de> serde::Deserialize<'de> for Index {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: serde::Deserializer<'de>,
+    {
+        <SavedIndex as serde::Deserialize>::deserialize(deserializer)?
+            .try_into()
+            .map_err(serde::de::Error::custom)
+    }
+}
+
 impl Index {
     /// Create a new index with the provided fields.
     ///
-- 
2.43.0

