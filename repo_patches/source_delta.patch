From f57475f90cdbe26fbbb23028a82dee8ea5a99551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:06 +0000
Subject: [PATCH 1/6] fix: remove every diacritic from an Arabic token, not
 only the first

js/lunr.ar.js strips them with a global regular expression; Regex::replace
only replaces the first match, so fully vocalised words kept all but one of
their diacritics and could not be found.
---
 src/lang/ar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lang/ar.rs b/src/lang/ar.rs
index 2fa0074..34702ad 100644
--- a/src/lang/ar.rs
+++ b/src/lang/ar.rs
@@ -58,7 +58,7 @@ impl PipelineFn for Stemmer {
 
     fn filter(&self, token: String) -> Option<String> {
         // remove diacritics and elongating character
-        let result = self.diacritics.replace(&token, "");
+        let result = self.diacritics.replace_all(&token, "");
         // replace all variations of alef (آأإٱى) to a plain alef (ا)
         let result = self.alefs.replace(&result, "\u{0627}");
         if result.is_empty() {
-- 
2.43.0


From 3aa17ae41baabcccc601541b53e5dad4f68253cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 2/6] fix: forget the field lengths of a document removed from
 the store

remove_doc() left its docInfo entry behind, so it stayed in the serialized
store and became visible again when the reference was re-added.
elasticlunr.js deletes both.
---
 src/document_store.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/document_store.rs b/src/document_store.rs
index 8adc722..1794d40 100644
--- a/src/document_store.rs
+++ b/src/document_store.rs
@@ -61,6 +61,7 @@ impl DocumentStore {
         }
 
         self.docs.remove(doc_ref);
+        self.doc_info.remove(doc_ref);
     }
 
     pub fn add_field_length(&mut self, doc_ref: &str, field: &str, length: usize) {
-- 
2.43.0


From 14130671278b9c8f774832b10e85b3620dfcbddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 3/6] fix: stem "ies", "sses" and "eed" as elasticlunr.js does

Its rules need at least one character before these suffixes.
---
 src/lang/en.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 388f3e4..fa45003 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -273,15 +273,16 @@ impl PorterStemmer {
     /// ~~~~
     fn step1ab(&mut self) {
         if self.b[self.k - 1] == b's' {
-            if self.ends("sses") {
+            // As in elasticlunr.js, these suffixes need something in front of them.
+            if self.ends("sses") && self.j > 0 {
                 self.k -= 2;
-            } else if self.ends("ies") {
+            } else if self.ends("ies") && self.j > 0 {
                 self.set_to("i");
             } else if self.b[self.k - 2] != b's' {
                 self.k -= 1;
             }
         }
-        if self.ends("eed") {
+        if self.ends("eed") && self.j > 0 {
             if self.measure() > 0 {
                 self.k -= 1
             }
-- 
2.43.0


From 31cedd8b98da6c5021d3b6834191df8e00cc7c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:17 +0000
Subject: [PATCH 4/6] fix: do not undouble a final "yy" when stemming English

elasticlunr.js excludes y from its doubled consonant rule, so "byying" has
to become "byi", not "by".
---
 src/lang/en.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index fa45003..4042f56 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -191,6 +191,7 @@ impl PorterStemmer {
     }
 
     /// stem.double_consonant(i) is TRUE <=> i,(i-1) contain a double consonant.
+    /// A "yy" is never one: elasticlunr.js matches `([^aeiouylsz])\1$`.
     ///
     /// `b` holds arbitrary UTF-8, so restrict this to ASCII: two equal non-ASCII
     /// bytes are usually the trailing continuation bytes of one multi-byte
@@ -198,7 +199,11 @@ impl PorterStemmer {
     /// the middle of that character, leaving `b[..k]` invalid UTF-8.
     #[inline]
     fn double_consonant(&self, i: usize) -> bool {
-        i >= 1 && self.b[i] == self.b[i - 1] && self.b[i].is_ascii() && self.is_consonant(i)
+        i >= 1
+            && self.b[i] == self.b[i - 1]
+            && self.b[i].is_ascii()
+            && self.b[i] != b'y'
+            && self.is_consonant(i)
     }
 
     /// cvc(z, i) is TRUE <=> i-2,i-1,i has the form consonant - vowel - consonant
-- 
2.43.0


From ec65c30f07375e484d97912e3ecc30c9643dcc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:50 +0000
Subject: [PATCH 5/6] fix: stem characters, not bytes, in English words with
 non-ASCII letters
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The consonant-vowel-consonant and doubled consonant rules looked at single
bytes, so words such as "Straße" or "aततed" got another stem than in
elasticlunr.js and could not be found.
---
 src/lang/en.rs | 49 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/lang/en.rs b/src/lang/en.rs
index 4042f56..e704b7e 100644
--- a/src/lang/en.rs
+++ b/src/lang/en.rs
@@ -193,19 +193,33 @@ impl PorterStemmer {
     /// stem.double_consonant(i) is TRUE <=> i,(i-1) contain a double consonant.
     /// A "yy" is never one: elasticlunr.js matches `([^aeiouylsz])\1$`.
     ///
-    /// `b` holds arbitrary UTF-8, so restrict this to ASCII: two equal non-ASCII
-    /// bytes are usually the trailing continuation bytes of one multi-byte
-    /// character (e.g. `त` is `E0 A4 A4`), and step1ab would then chop `k` into
-    /// the middle of that character, leaving `b[..k]` invalid UTF-8.
+    /// `b` holds arbitrary UTF-8, so this compares whole characters: two equal
+    /// non-ASCII bytes are usually the trailing continuation bytes of one
+    /// multi-byte character (e.g. `त` is `E0 A4 A4`), and step1ab would then chop
+    /// `k` into the middle of that character, leaving `b[..k]` invalid UTF-8.
+    /// Four-byte characters are surrogate pairs in JavaScript, never a double.
     #[inline]
     fn double_consonant(&self, i: usize) -> bool {
-        i >= 1
-            && self.b[i] == self.b[i - 1]
-            && self.b[i].is_ascii()
+        let start = self.char_start(i);
+        let len = i + 1 - start;
+        len < 4
+            && start >= len
+            && self.b[start - len..start] == self.b[start..=i]
             && self.b[i] != b'y'
             && self.is_consonant(i)
     }
 
+    /// stem.char_start(i) is the index of the first byte of the character whose
+    /// last byte is at i.
+    #[inline]
+    fn char_start(&self, i: usize) -> usize {
+        let mut start = i;
+        while self.b[start] & 0xC0 == 0x80 {
+            start -= 1;
+        }
+        start
+    }
+
     /// cvc(z, i) is TRUE <=> i-2,i-1,i has the form consonant - vowel - consonant
     /// and also if the second c is not w,x or y. this is used when trying to
     /// restore an e at the end of a short word. e.g.
@@ -215,7 +229,15 @@ impl PorterStemmer {
     ///    snow, box, tray.
     /// ~~~
     fn cvc(&self, i: usize) -> bool {
-        if i < 2 || !self.is_consonant(i) || self.is_consonant(i - 1) || !self.is_consonant(i - 2) {
+        // The second consonant may be a multi-byte character, but not one that is
+        // a surrogate pair (two consonants) in JavaScript.
+        let start = self.char_start(i);
+        if start < 2
+            || i - start > 2
+            || !self.is_consonant(i)
+            || self.is_consonant(start - 1)
+            || !self.is_consonant(start - 2)
+        {
             false
         } else {
             !matches!(self.b[i], b'w' | b'x' | b'y')
@@ -300,7 +322,7 @@ impl PorterStemmer {
             } else if self.ends("iz") {
                 self.set_to("ize");
             } else if self.double_consonant(self.k - 1) {
-                self.k -= 1;
+                self.k = self.char_start(self.k - 1);
                 match self.b[self.k - 1] {
                     b'l' | b's' | b'z' => self.k += 1,
                     _ => (),
@@ -326,7 +348,12 @@ impl PorterStemmer {
             && self.ends("y")
             && !matches!(self.b[self.k - 2], b'a' | b'e' | b'i' | b'o' | b'u')
         {
-            self.b[self.k - 1] = b'i';
+            // Something must precede that character, or the other half of its
+            // surrogate pair.
+            let start = self.char_start(self.k - 2);
+            if start > 0 || self.k - 1 - start == 4 {
+                self.b[self.k - 1] = b'i';
+            }
         }
     }
 
@@ -543,7 +570,7 @@ impl PorterStemmer {
 }
 
 fn get(word: &str) -> Result<String, &str> {
-    if word.len() > 2 {
+    if word.encode_utf16().count() > 2 {
         match PorterStemmer::new(word) {
             Ok(w) => {
                 let mut mw = w;
-- 
2.43.0


From 83b656e237014609edc3a19a38f3cf2aab038a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:07 +0000
Subject: [PATCH 6/6] fix: make a serialized Index deserializable

Deserialize always failed: the derived implementation for Pipeline expected
an empty sequence, and ser_lang only accepted borrowed strings. The pipeline
and the per-field tokenizer slots are now rebuilt, so documents can be added
to a loaded index.
---
 src/lib.rs      | 41 +++++++++++++++++++++++++++++++++++++++--
 src/pipeline.rs | 15 +++++++++++++--
 2 files changed, 52 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 3234375..c54bf69 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -49,6 +49,7 @@ use inverted_index::InvertedIndex;
 use lang::English;
 pub use lang::Language;
 pub use pipeline::Pipeline;
+use serde::de::{Deserialize, Deserializer};
 
 /// A function that splits the text of a single field into tokens.
 ///
@@ -194,7 +195,10 @@ impl IndexBuilder {
 }
 
 /// An elasticlunr search index.
-#[derive(Serialize, Deserialize)]
+///
+/// A deserialized index processes further documents with the pipeline of its
+/// language. Custom tokenizers are not serialized.
+#[derive(Serialize)]
 #[serde(rename_all = "camelCase")]
 pub struct Index {
     fields: Vec<String>,
@@ -210,6 +214,39 @@ pub struct Index {
     lang: Box<dyn Language>,
 }
 
+/// The parts of a serialized `Index` which cannot be derived from the others.
+#[derive(Deserialize)]
+#[serde(rename_all = "camelCase")]
+struct SerializedIndex {
+    fields: Vec<String>,
+    #[serde(rename = "ref")]
+    ref_field: String,
+    index: BTreeMap<String, InvertedIndex>,
+    document_store: DocumentStore,
+    #[serde(with = "ser_lang")]
+    lang: Box<dyn Language>,
+}
+
+// Deriving this would require the input to be `'static`, because `version` is.
+impl<'de> Deserialize<'de> for Index {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        let index = SerializedIndex::deserialize(deserializer)?;
+        Ok(Index {
+            field_tokenizers: index.fields.iter().map(|_| None).collect(),
+            fields: index.fields,
+            pipeline: index.lang.make_pipeline(),
+            ref_field: index.ref_field,
+            version: crate::ELASTICLUNR_VERSION,
+            index: index.index,
+            document_store: index.document_store,
+            lang: index.lang,
+        })
+    }
+}
+
 mod ser_lang {
     use crate::Language;
     use serde::de;
@@ -242,7 +279,7 @@ mod ser_lang {
             formatter.write_str("a capitalized language name")
         }
 
-        fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Self::Value, E>
+        fn visit_str<E>(self, v: &str) -> Result<Self::Value, E>
         where
             E: de::Error,
         {
diff --git a/src/pipeline.rs b/src/pipeline.rs
index a20de3f..a0b0baa 100644
--- a/src/pipeline.rs
+++ b/src/pipeline.rs
@@ -1,6 +1,7 @@
 //! Defines the pipeline which processes text for inclusion in the index. Most users do not need
 //! to use this module directly.
 
+use serde::de::{Deserialize, Deserializer};
 use serde::ser::{Serialize, SerializeSeq, Serializer};
 
 pub trait PipelineFn {
@@ -23,9 +24,9 @@ impl PipelineFn for FnWrapper {
 }
 
 /// A sequence of `PipelineFn`s which are run on tokens to prepare them for searching.
-#[derive(Deserialize)]
+///
+/// Only the names of the functions are serialized: a deserialized `Pipeline` is empty.
 pub struct Pipeline {
-    #[serde(skip_deserializing)]
     pub queue: Vec<Box<dyn PipelineFn>>,
 }
 
@@ -42,6 +43,16 @@ impl Serialize for Pipeline {
     }
 }
 
+impl<'de> Deserialize<'de> for Pipeline {
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        Vec::<String>::deserialize(deserializer)?;
+        Ok(Pipeline { queue: vec![] })
+    }
+}
+
 impl Pipeline {
     /// Run the Pipeline against the given vector of tokens. The returned vector may be shorter
     /// than the input if a pipeline function returns `None` for a token.
-- 
2.43.0

