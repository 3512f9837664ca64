From 155410ab334ecc63f76b1bcf2506161d42349437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:30 +0000
Subject: [PATCH 01/14] fix: escape() slices quoted strings at byte offsets,
 not char counts

A quoted env value with a multi-byte char before its first backslash escape
panicked or silently lost text.
---
 src/value/escape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/value/escape.rs b/src/value/escape.rs
index 5a32f63..ae5ee4a 100644
--- a/src/value/escape.rs
+++ b/src/value/escape.rs
@@ -19,7 +19,7 @@ pub enum Error {
 }
 
 pub fn escape(string: &str) -> Result<Cow<'_, str>, Error> {
-    let mut chars = string.chars().enumerate();
+    let mut chars = string.char_indices();
     let mut output = Cow::from(string);
     while let Some((i, ch)) = chars.next() {
         match ch {
-- 
2.43.0


From d803aa01bc172a716359b8604fcf344d648af4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:31 +0000
Subject: [PATCH 02/14] fix: Error::chain() keeps the errors already chained to
 its argument

With three or more failing providers, all but the first and the last errors
were dropped.
---
 src/error.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/error.rs b/src/error.rs
index 75168e0..4983edb 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -234,7 +234,12 @@ impl Error {
     /// assert_eq!(unchained, vec!["1", "2", "3"]);
     /// ```
     pub fn chain(self, mut error: Error) -> Self {
-        error.prev = Some(Box::new(self));
+        let mut tail = &mut error.prev;
+        while let Some(prev) = tail {
+            tail = &mut prev.prev;
+        }
+
+        *tail = Some(Box::new(self));
         error
     }
 
-- 
2.43.0


From b052078f196343dd3f1d6561b548d02d3d2ec08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:32 +0000
Subject: [PATCH 03/14] fix: tag every error of a chain a provider returns

Only the head of a chained error was attributed to the failing provider.
---
 src/error.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 4983edb..fd68b25 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -147,8 +147,13 @@ impl Error {
     }
 
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
-        if self.tag.is_default() {
-            self.tag = tag;
+        let mut error = Some(&mut self);
+        while let Some(e) = error {
+            if e.tag.is_default() {
+                e.tag = tag;
+            }
+
+            error = e.prev.as_deref_mut();
         }
 
         self
-- 
2.43.0


From 7b058b959dd267bf221c87a9bf2fd260576119db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:33 +0000
Subject: [PATCH 04/14] fix: extract_inner() reports the inner path before the
 path inside of it

The extracted key was appended to the error's path instead of prefixing it.
---
 src/error.rs   | 9 +++++++++
 src/figment.rs | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index fd68b25..f64b407 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,15 @@ impl Error {
         self
     }
 
+    pub(crate) fn prefixed_path(mut self, path: &str) -> Self {
+        let paths = path.split('.')
+            .take_while(|v| !v.is_empty())
+            .map(|v| v.to_string());
+
+        self.path.splice(0..0, paths);
+        self
+    }
+
     pub(crate) fn retagged(mut self, tag: Tag) -> Self {
         let mut error = Some(&mut self);
         while let Some(e) = error {
diff --git a/src/figment.rs b/src/figment.rs
index 76d0277..9ae4f52 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -569,7 +569,7 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.prefixed_path(path))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +603,7 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.with_path(path))
+        T::deserialize(de).map_err(|e| e.prefixed_path(path))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
-- 
2.43.0


From 41d7f28dbcfe120b8656c057683065b8c812de79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:34 +0000
Subject: [PATCH 05/14] fix: keep the fields of magic structs out of error
 paths

Errors extracting a RelativePathBuf or Tagged named an internal field as part
of the user's key.
---
 src/error.rs    | 8 ++++++++
 src/value/de.rs | 6 ++++--
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index f64b407..192fac5 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -146,6 +146,14 @@ impl Error {
         self
     }
 
+    pub(crate) fn unprefixed(mut self, keys: &[&str]) -> Self {
+        if self.path.first().map_or(false, |p| keys.contains(&p.as_str())) {
+            self.path.remove(0);
+        }
+
+        self
+    }
+
     pub(crate) fn prefixed_path(mut self, path: &str) -> Self {
         let paths = path.split('.')
             .take_while(|v| !v.is_empty())
diff --git a/src/value/de.rs b/src/value/de.rs
index b4ceb6f..6e99923 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -113,8 +113,10 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
         let (config, tag) = (self.config, self.value.tag());
         let result = match name {
             Value::NAME => Value::deserialize_from(self, visitor),
-            RelativePathBuf::NAME => RelativePathBuf::deserialize_from(self, visitor),
-            Tagged::<()>::NAME => Tagged::<()>::deserialize_from(self, visitor),
+            RelativePathBuf::NAME => RelativePathBuf::deserialize_from(self, visitor)
+                .map_err(|e| e.unprefixed(RelativePathBuf::FIELDS)),
+            Tagged::<()>::NAME => Tagged::<()>::deserialize_from(self, visitor)
+                .map_err(|e| e.unprefixed(Tagged::<()>::FIELDS)),
             // SelectedProfile::NAME => SelectedProfile::deserialize_from(self, visitor),
             _ => self.deserialize_any(visitor)
         };
-- 
2.43.0


From ebc1f4667f8ff6b38cbbed4b7717b6b31e812a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:35 +0000
Subject: [PATCH 06/14] fix: Env::lowercase(false) survives later filters and
 maps

---
 src/providers/env.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/providers/env.rs b/src/providers/env.rs
index 64c8965..4005dd6 100644
--- a/src/providers/env.rs
+++ b/src/providers/env.rs
@@ -136,7 +136,7 @@ impl Env {
             filter_map: Box::new(move |key| f(filter_map(key))),
             profile: self.profile,
             prefix: self.prefix,
-            lowercase: true,
+            lowercase: self.lowercase,
         }
     }
 
-- 
2.43.0


From cf4b55024ccbee88ce14320e50e6b98f4f01764e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:37 +0000
Subject: [PATCH 07/14] fix: support extracting i128 and u128

Both were serialized and stored but could never be extracted.
---
 src/value/de.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/value/de.rs b/src/value/de.rs
index 6e99923..3c07847 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -168,8 +168,8 @@ impl<'de: 'c, 'c, I: Interpreter> Deserializer<'de> for ConfiguredValueDe<'c, I>
         deserialize_bool =>
             |de| I::interpret_as_bool(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
-        deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64,
-        deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64,
+        deserialize_u8, deserialize_u16, deserialize_u32, deserialize_u64, deserialize_u128,
+        deserialize_i8, deserialize_i16, deserialize_i32, deserialize_i64, deserialize_i128,
         deserialize_f32, deserialize_f64 =>
             |de| I::interpret_as_num(de.value),
             |e| e.retagged(de.value.tag()).resolved(de.config),
@@ -325,7 +325,7 @@ impl<'de> Deserializer<'de> for &Value {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str
         string seq bytes byte_buf map unit struct
         ignored_any unit_struct tuple_struct tuple identifier
     }
@@ -376,7 +376,7 @@ impl<'de> Deserializer<'de> for Num {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
@@ -395,7 +395,7 @@ impl<'de> Deserializer<'de> for Empty {
     }
 
     serde::forward_to_deserialize_any! {
-        bool u8 u16 u32 u64 i8 i16 i32 i64 f32 f64 char str string seq enum
+        bool u8 u16 u32 u64 u128 i8 i16 i32 i64 i128 f32 f64 char str string seq enum
         bytes byte_buf map struct unit newtype_struct
         ignored_any unit_struct tuple_struct tuple option identifier
     }
-- 
2.43.0


From 2594f0a3de25c988218bd484a88814bdc848e4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:38 +0000
Subject: [PATCH 08/14] fix: parse floating point strings as f64 in lossy
 extraction

Short strings were parsed as f32, so "0.1" was extracted into an f64 as
0.10000000149011612 although to_num_lossy() documents f64.
---
 src/value/value.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/value/value.rs b/src/value/value.rs
index 3d95af8..162d4bb 100644
--- a/src/value/value.rs
+++ b/src/value/value.rs
@@ -515,11 +515,7 @@ impl FromStr for Num {
     fn from_str(string: &str) -> Result<Self, Self::Err> {
         let string = string.trim();
         if string.contains('.') {
-            if string.len() <= (f32::DIGITS as usize + 1) {
-                Ok(string.parse::<f32>().map_err(Either::Right)?.into())
-            } else {
-                Ok(string.parse::<f64>().map_err(Either::Right)?.into())
-            }
+            Ok(string.parse::<f64>().map_err(Either::Right)?.into())
         } else if string.starts_with('-') {
             let int = string.parse::<i128>().map_err(Either::Left)?;
             try_convert![int => i8, i16, i32, i64];
-- 
2.43.0


From acf3cebb47d73f5e640a7203f3ade0509762dcf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:39 +0000
Subject: [PATCH 09/14] fix: a panic in Jail::set_env() no longer aborts the
 process

An invalid key was recorded before set_var() panicked on it, so dropping the
jail panicked again while unwinding.
---
 src/jail.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/jail.rs b/src/jail.rs
index 4dea3ba..324eb5b 100644
--- a/src/jail.rs
+++ b/src/jail.rs
@@ -2,7 +2,7 @@ use std::fs::{File, self};
 use std::io::{Write, BufWriter};
 use std::path::{Path, PathBuf};
 use std::fmt::Display;
-use std::ffi::{OsStr, OsString};
+use std::ffi::OsString;
 use std::collections::HashMap;
 
 use tempfile::TempDir;
@@ -344,11 +344,9 @@ impl Jail {
     /// ```
     pub fn set_env<K: AsRef<str>, V: Display>(&mut self, k: K, v: V) {
         let key = k.as_ref();
-        if !self.saved_env_vars.contains_key(OsStr::new(key)) {
-            self.saved_env_vars.insert(key.into(), std::env::var_os(key));
-        }
-
+        let previous = std::env::var_os(key);
         std::env::set_var(key, v.to_string());
+        self.saved_env_vars.entry(key.into()).or_insert(previous);
     }
 }
 
-- 
2.43.0


From 4c5059877349d56a07d89b457dcfdb294b3f24f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:00 +0000
Subject: [PATCH 10/14] fix: bound the nesting of arrays and dictionaries in
 env values

A variable with tens of thousands of opening brackets overflowed the stack,
aborting the process. Such a value is now taken as a plain string.
---
 src/value/parse.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/value/parse.rs b/src/value/parse.rs
index 4e4d271..88d77cf 100644
--- a/src/value/parse.rs
+++ b/src/value/parse.rs
@@ -4,8 +4,13 @@ use crate::value::{Value, Dict, escape::escape};
 
 use super::Empty;
 
+/// Arrays and dictionaries nested any deeper than this are not parsed. This
+/// bounds recursion, and thus stack usage, irrespective of the input.
+const MAX_DEPTH: usize = 128;
+
 struct Parser<'a> {
     cursor: &'a str,
+    depth: usize,
 }
 
 #[derive(Debug)]
@@ -13,6 +18,7 @@ struct Parser<'a> {
 pub enum Error {
     Expected(Value),
     Escape(super::escape::Error),
+    Depth,
     Eof,
 }
 
@@ -20,7 +26,7 @@ type Result<T> = std::result::Result<T, Error>;
 
 impl<'a> Parser<'a> {
     fn new(cursor: &'a str) -> Self {
-        Self { cursor }
+        Self { cursor, depth: 0 }
     }
 
     fn peek(&self, c: char) -> bool {
@@ -113,6 +119,11 @@ impl<'a> Parser<'a> {
     {
         let mut collection = T::default();
         self.eat(start)?;
+        if self.depth == MAX_DEPTH {
+            return Err(Error::Depth);
+        }
+
+        self.depth += 1;
         self.skip_whitespace();
 
         while !self.peek(end) {
@@ -127,6 +138,7 @@ impl<'a> Parser<'a> {
         }
 
         self.eat(end)?;
+        self.depth -= 1;
         Ok(collection)
     }
 
-- 
2.43.0


From 33327870e62e97f69df978000f9da635f40d24e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:58 +0000
Subject: [PATCH 11/14] fix: resolve merge keys of merged mappings

---
 src/providers/data.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/providers/data.rs b/src/providers/data.rs
index d135de8..f1d4507 100644
--- a/src/providers/data.rs
+++ b/src/providers/data.rs
@@ -604,8 +604,21 @@ impl YamlExtended {
     /// });
     /// ```
     pub fn from_str<'de, T: DeserializeOwned>(s: &'de str) -> serde_yaml::Result<T> {
+        // A mapping that is merged may itself have a merge key, which
+        // `apply_merge()` would copy instead of resolving: go inside out.
+        fn apply_merges(value: &mut serde_yaml::Value) -> serde_yaml::Result<()> {
+            match value {
+                serde_yaml::Value::Mapping(map) => map.values_mut().try_for_each(apply_merges)?,
+                serde_yaml::Value::Sequence(seq) => seq.iter_mut().try_for_each(apply_merges)?,
+                serde_yaml::Value::Tagged(tagged) => apply_merges(&mut tagged.value)?,
+                _ => return Ok(()),
+            }
+
+            value.apply_merge()
+        }
+
         let mut value: serde_yaml::Value = serde_yaml::from_str(s)?;
-        value.apply_merge()?;
+        apply_merges(&mut value)?;
         T::deserialize(value)
     }
 }
-- 
2.43.0


From 877df62c6236b165930969f3d2b87fd4934d7b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:11 +0000
Subject: [PATCH 12/14] fix: attribute errors raised by types themselves to the
 value at fault

---
 src/figment.rs  | 8 ++++++--
 src/value/de.rs | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/figment.rs b/src/figment.rs
index 9ae4f52..ff301f1 100644
--- a/src/figment.rs
+++ b/src/figment.rs
@@ -483,6 +483,7 @@ impl Figment {
     pub fn extract<'a, T: Deserialize<'a>>(&self) -> Result<T> {
         let value = self.merged()?;
         T::deserialize(ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value))
+            .map_err(|e| e.retagged(value.tag()).resolved(self))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -539,6 +540,7 @@ impl Figment {
     pub fn extract_lossy<'a, T: Deserialize<'a>>(&self) -> Result<T> {
         let value = self.merged()?;
         T::deserialize(ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value))
+            .map_err(|e| e.retagged(value.tag()).resolved(self))
     }
 
     /// Deserializes the value at the `key` path in the collected value into
@@ -569,7 +571,8 @@ impl Figment {
     pub fn extract_inner<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, DefaultInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.prefixed_path(path))
+        T::deserialize(de)
+            .map_err(|e| e.prefixed_path(path).retagged(value.tag()).resolved(self))
     }
 
     /// As [`extract`](Figment::extract_lossy), but interpret numbers and
@@ -603,7 +606,8 @@ impl Figment {
     pub fn extract_inner_lossy<'a, T: Deserialize<'a>>(&self, path: &str) -> Result<T> {
         let value = self.find_value(path)?;
         let de = ConfiguredValueDe::<'_, LossyInterpreter>::from(self, &value);
-        T::deserialize(de).map_err(|e| e.prefixed_path(path))
+        T::deserialize(de)
+            .map_err(|e| e.prefixed_path(path).retagged(value.tag()).resolved(self))
     }
 
     /// Returns an iterator over the metadata for all of the collected values in
diff --git a/src/value/de.rs b/src/value/de.rs
index 3c07847..fb0300c 100644
--- a/src/value/de.rs
+++ b/src/value/de.rs
@@ -250,7 +250,7 @@ impl<'v, 'de, D, F> de::SeqAccess<'de> for SeqDe<'v, D, F>
             // item.map_tag(|metadata| metadata.path.push(self.count.to_string()));
             self.len -= 1;
             seed.deserialize((self.make_deserializer)(item))
-                .map_err(|e: Error| e.prefixed(&i.to_string()))
+                .map_err(|e: Error| e.prefixed(&i.to_string()).retagged(item.tag()))
                 .map(Some)
         } else {
             Ok(None)
-- 
2.43.0


From 02edbd307a492004581a6f867ccac4b71c103b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:20 +0000
Subject: [PATCH 13/14] fix: keep what is known about errors from other
 figments

Errors with tags of another figment, for instance those from extracting out
of one in a provider's data(), lost their metadata and profile, and thus
their source and full key, once resolved by the figment they end up in.
---
 src/error.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index 192fac5..292d51f 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -179,9 +179,14 @@ impl Error {
     pub(crate) fn resolved(mut self, config: &Figment) -> Self {
         let mut error = Some(&mut self);
         while let Some(e) = error {
-            e.metadata = config.get_metadata(e.tag).cloned();
-            e.profile = e.tag.profile()
-                .or_else(|| Some(config.profile().clone()));
+            // An error in a value that isn't from `config` may have already been
+            // resolved by the figment it's from. Keep what's known about it.
+            let metadata = config.get_metadata(e.tag);
+            if metadata.is_some() || e.metadata.is_none() {
+                e.metadata = metadata.cloned();
+                e.profile = e.tag.profile()
+                    .or_else(|| Some(config.profile().clone()));
+            }
 
             error = e.prev.as_deref_mut();
         }
-- 
2.43.0


From c0bae4187b23e3c28c4a6e9fa40f0a62ee1ec80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:28 +0000
Subject: [PATCH 14/14] fix: don't compute wrong paths from bases with '.' or
 '..'

diff_paths() took a leading `.` and any `..` past the common ancestor of the
base for a directory to leave, so `base.join(diff_paths(path, base))` wasn't
`path`: from 'x/..', 'a' was '../../a'; from './x/y', 'a' was 'a/../..'.
---
 src/util.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index 13b0930..515343a 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -71,8 +71,10 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
         return None;
     }
 
-    let mut ita = path.components();
-    let mut itb = base.components();
+    // A leading `.` makes no difference to where a path leads.
+    let not_cur = |c: &Component<'_>| *c != Component::CurDir;
+    let mut ita = path.components().filter(not_cur);
+    let mut itb = base.components().filter(not_cur);
     let mut comps: Vec<Component> = vec![];
     loop {
         match (ita.next(), itb.next()) {
@@ -82,13 +84,16 @@ pub fn diff_paths<P, B>(path: P, base: B) -> Option<PathBuf>
                 comps.extend(ita.by_ref());
                 break;
             }
-            (None, _) => comps.push(Component::ParentDir),
             (Some(a), Some(b)) if comps.is_empty() && a == b => (),
-            (Some(a), Some(Component::CurDir)) => comps.push(a),
-            (Some(_), Some(Component::ParentDir)) => return None,
+            (_, Some(Component::ParentDir)) => return None,
+            (None, _) => comps.push(Component::ParentDir),
             (Some(a), Some(_)) => {
                 comps.push(Component::ParentDir);
-                for _ in itb {
+                for b in itb {
+                    if b == Component::ParentDir {
+                        return None;
+                    }
+
                     comps.push(Component::ParentDir);
                 }
                 comps.push(a);
-- 
2.43.0

