From eee0e86dc34d08d492c854c788d2c0bb07264fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 01/52] fix: from_reader_strict detects leftover bytes the
 reader has not delivered yet

The check looked only at what was already buffered, so trailing bytes went
unnoticed when the reader returned short reads or the value ended on a
buffer boundary.
---
 protocol/bin-prot/src/de.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 8d4e7f7..2b832fd 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -11,7 +11,7 @@ use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
 use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
 use serde::Deserialize;
-use std::io::{BufReader, Read};
+use std::io::{self, BufRead, BufReader, Read};
 
 /// the modes of operation for the deserializer
 pub struct StronglyTyped;
@@ -68,9 +68,14 @@ pub fn from_reader<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
 pub fn from_reader_strict<'de, R: Read, T: Deserialize<'de>>(rdr: R) -> Result<T> {
     let mut de = Deserializer::from_reader(rdr);
     let value = Deserialize::deserialize(&mut de)?;
-    match de.rdr.buffer().len() {
-        0 => Ok(value),
-        unconsumed => Err(Error::StreamNotFullyConsumed(unconsumed)),
+    // An empty buffer alone does not mean the end of the stream, the reader has to be asked
+    loop {
+        match de.rdr.fill_buf() {
+            Ok([]) => return Ok(value),
+            Ok(unconsumed) => return Err(Error::StreamNotFullyConsumed(unconsumed.len())),
+            Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
+            Err(err) => return Err(err.into()),
+        }
     }
 }
 
-- 
2.43.0


From 0b5f2d02e740f2a80fd5522999c4ee51c9093fcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 02/52] fix: write floats and polyvar tags in full to writers
 that write partially

---
 protocol/bin-prot/src/write_ext.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 737573c..671c1dc 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -98,12 +98,12 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a float
     fn bin_write_float32(&mut self, f: &f32) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 4)
+        self.write_all(&f.to_le_bytes()).map(|_| 4)
     }
 
     /// Write a 64 bit float
     fn bin_write_float64(&mut self, f: &f64) -> Result<usize, io::Error> {
-        self.write(&f.to_le_bytes()).map(|_| 8)
+        self.write_all(&f.to_le_bytes()).map(|_| 8)
     }
 
     /// for enums/variants with n variants the variant index
@@ -123,7 +123,7 @@ pub trait WriteBinProtExt: io::Write {
     /// For Polyvar types write the 4 bytes of the tag/hash for a variant
     /// You can convert between ocaml native integer using (x >> 1)
     fn bin_write_polyvar_tag(&mut self, i: u32) -> Result<usize, io::Error> {
-        self.write(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
+        self.write_all(&(i << 1 | 1).to_le_bytes()).map(|_| 4) // truncating downcast
     }
 }
 
-- 
2.43.0


From 74a9e37a28bea64236dbdb2245de505eaee94ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 03/52] fix: reject 0x80 as the first byte of an integer

Only values below 0x80 are encoded as a single byte.
---
 protocol/bin-prot/src/read_ext.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 472bde9..9e4615f 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -65,7 +65,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
@@ -94,7 +94,7 @@ pub trait ReadBinProtExt: io::Read {
             }
             byte0 => {
                 // first byte isnt a code so interpret it as a u8
-                if byte0 > 0x000000080 {
+                if byte0 >= 0x000000080 {
                     return Err(Error::InvalidIntegerByte { byte: byte0 });
                 }
                 T::from_u8(byte0)
-- 
2.43.0


From 95c71c1310df6b8edef39bbde8a00e3a6c739a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 04/52] fix: do not allocate strings by the length claimed in
 the input

A few bytes of malformed input could request an arbitrarily large buffer
and bring the process down.
---
 protocol/bin-prot/src/read_ext.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index 9e4615f..e9bcc06 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -5,7 +5,7 @@ use crate::consts::*;
 use crate::error::{Error, Result};
 use byteorder::{LittleEndian, ReadBytesExt};
 use num::{FromPrimitive, Unsigned};
-use std::io;
+use std::io::{self, Read};
 
 /// Extension trait for readers implementing io::Read to allow them to read a bin_prot encoded values
 pub trait ReadBinProtExt: io::Read {
@@ -118,9 +118,7 @@ pub trait ReadBinProtExt: io::Read {
 
     /// Read a string
     fn bin_read_string(&mut self) -> Result<String> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let buf = self.bin_read_bytes()?;
         let s = std::str::from_utf8(&buf)
             .map_err(|e| io::Error::new(io::ErrorKind::InvalidInput, e))?;
         Ok(s.to_string())
@@ -128,9 +126,13 @@ pub trait ReadBinProtExt: io::Read {
 
     /// read some bytes
     fn bin_read_bytes(&mut self) -> Result<Vec<u8>> {
-        let len = self.bin_read_nat0::<u64>()? as usize;
-        let mut buf = vec![0u8; len as usize];
-        self.read_exact(&mut buf)?;
+        let len = self.bin_read_nat0::<u64>()?;
+        // The length comes from the input and cannot be trusted for allocating the buffer upfront
+        let mut buf = Vec::new();
+        Read::take(&mut *self, len).read_to_end(&mut buf)?;
+        if (buf.len() as u64) < len {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         Ok(buf)
     }
 }
-- 
2.43.0


From fcf8e1a54fd3718c2a043256d8d47ab59f6f9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 05/52] fix: refuse to encode a char that does not fit into one
 byte

It was truncated to a different char silently.
---
 protocol/bin-prot/src/write_ext.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/write_ext.rs b/protocol/bin-prot/src/write_ext.rs
index 671c1dc..8448df3 100644
--- a/protocol/bin-prot/src/write_ext.rs
+++ b/protocol/bin-prot/src/write_ext.rs
@@ -23,7 +23,9 @@ pub trait WriteBinProtExt: io::Write {
 
     /// Write a single char character
     fn bin_write_char(&mut self, c: char) -> Result<usize, io::Error> {
-        self.write_u8(c as u8)?;
+        let byte = u8::try_from(c)
+            .map_err(|_| io::Error::new(io::ErrorKind::InvalidInput, "char is not a single byte"))?;
+        self.write_u8(byte)?;
         Ok(1)
     }
 
-- 
2.43.0


From ee48911aed91068e39aad151a19d8cc252e2e803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 06/52] fix: select the summand of a layout by its declared
 index

An index without a summand in the layout is an error now, it used to panic.
---
 protocol/bin-prot/src/loose_deserializer.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 0d34eb0..c2f1c29 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -46,14 +46,14 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                         // We need this to select which variant layout to use
                         // when deserializing the variants data
                         let index = self.rdr.bin_read_variant_index()?;
-                        let variant_rules = summands[index as usize].ctor_args.clone();
+                        let summand = summands
+                            .into_iter()
+                            .find(|s| s.index == i32::from(index))
+                            .ok_or(Error::LayoutIteratorError)?;
                         self.mode
                             .layout_iter
-                            .push(vec![BinProtRule::Tuple(variant_rules)]);
-                        visitor.visit_enum(ValueEnum::new(
-                            self,
-                            VariantType::Sum(summands[index as usize].clone()),
-                        ))
+                            .push(vec![BinProtRule::Tuple(summand.ctor_args.clone())]);
+                        visitor.visit_enum(ValueEnum::new(self, VariantType::Sum(summand)))
                     }
                     BinProtRule::Polyvar(summands) => {
                         let tag = self.rdr.bin_read_polyvar_tag()?;
-- 
2.43.0


From 673cd7c941471a5c7a21d957e6d268631e07c8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 07/52] fix: report layout rules that are not supported as an
 error instead of panicking

---
 protocol/bin-prot/src/loose_deserializer.rs    | 8 ++++----
 protocol/bin-prot/src/value/layout/traverse.rs | 6 ++----
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index c2f1c29..2f5785a 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -65,15 +65,15 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                                     Polyvar::Tagged(t) => {
                                         // return the first tagged variant where the tag matches
                                         if t.hash == tag {
-                                            Some((i, t))
+                                            Some(Ok((i, t)))
                                         } else {
                                             None
                                         }
                                     }
-                                    Polyvar::Inherited(_) => unimplemented!(), // don't know how to handle these yet
+                                    Polyvar::Inherited(_) => Some(Err(Error::UnimplementedRule)), // don't know how to handle these yet
                                 }
                             })
-                            .ok_or(Error::UnknownPolyvarTag(tag))?;
+                            .ok_or(Error::UnknownPolyvarTag(tag))??;
                         self.mode
                             .layout_iter
                             .push(vec![BinProtRule::Tuple(variant.clone().polyvar_args)]);
@@ -134,7 +134,7 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                             | "Pickles_types.Vector.Vector8"
                             | "Pickles_types.Vector.Vector17"
                             | "Pickles_types.Vector.Vector18" => {
-                                let element_rule = rules.first().unwrap();
+                                let element_rule = rules.first().ok_or(Error::LayoutIteratorError)?;
                                 let len = match path.as_str() {
                                     "Pickles_type.Vector.Vector2"
                                     | "Pickles_types.Vector.Vector2" => 2,
diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index 90b856b..c2eaea2 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -55,9 +55,7 @@ impl Iterator for BinProtRuleIterator {
                         // Option is a special case of a Sum where the None variant contain nothing
                     }
                     BinProtRule::Reference(rule_ref) => match rule_ref {
-                        RuleRef::Unresolved(_payload) => {
-                            unimplemented!();
-                        }
+                        RuleRef::Unresolved(_payload) => {} // rejected by the deserializer
                         RuleRef::Resolved(payload) => {
                             self.stack.push(*payload.ref_rule);
                             self.current_module_path = Some(payload.source_module_path);
@@ -79,7 +77,7 @@ impl Iterator for BinProtRuleIterator {
                             return Some(BinProtRule::CustomForPath(path.to_string(), rules));
                         }
                     }
-                    _ => unimplemented!(),
+                    _ => {} // not supported yet, rejected by the deserializer
                 };
                 r
             }
-- 
2.43.0


From 9cc7dc98c08e8114baee5357083cd67ba602b316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 08/52] fix: do not copy the element rule of a layout by the
 list length claimed in the input

A few bytes of malformed input could exhaust the memory.
---
 .../bin-prot/src/value/layout/traverse.rs     | 36 ++++++++++++++-----
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/protocol/bin-prot/src/value/layout/traverse.rs b/protocol/bin-prot/src/value/layout/traverse.rs
index c2eaea2..16ca9cc 100644
--- a/protocol/bin-prot/src/value/layout/traverse.rs
+++ b/protocol/bin-prot/src/value/layout/traverse.rs
@@ -23,7 +23,7 @@ use crate::value::layout::{BinProtRule, RuleRef};
 /// Implements a depth first search of the type tree
 /// defined by a BinProtRule
 pub struct BinProtRuleIterator {
-    pub(crate) stack: Vec<BinProtRule>, // regular stack to implement the DFS
+    stack: Vec<(BinProtRule, usize)>, // stack to implement the DFS, with the number of times to repeat each rule
     current_module_path: Option<String>, // holds on to most recent path encountered in traverse
 }
 
@@ -31,7 +31,7 @@ impl Iterator for BinProtRuleIterator {
     type Item = BinProtRule;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let top = self.stack.pop();
+        let top = self.pop();
         let r = top.clone();
         match top {
             Some(rule) => {
@@ -41,11 +41,16 @@ impl Iterator for BinProtRuleIterator {
                         // then call repeat the required number of times
                     }
                     BinProtRule::Record(mut rules) => {
-                        self.stack
-                            .extend(rules.drain(0..).map(|field| field.field_rule).rev());
+                        self.push(
+                            rules
+                                .drain(0..)
+                                .map(|field| field.field_rule)
+                                .rev()
+                                .collect(),
+                        );
                     }
                     BinProtRule::Tuple(mut rules) => {
-                        self.stack.extend(rules.drain(0..).rev());
+                        self.push(rules.drain(0..).rev().collect());
                     }
                     BinProtRule::Sum(_) | BinProtRule::Polyvar(_) => {
                         // don't add to the stack. Add to the branch field instead
@@ -57,7 +62,7 @@ impl Iterator for BinProtRuleIterator {
                     BinProtRule::Reference(rule_ref) => match rule_ref {
                         RuleRef::Unresolved(_payload) => {} // rejected by the deserializer
                         RuleRef::Resolved(payload) => {
-                            self.stack.push(*payload.ref_rule);
+                            self.push(vec![*payload.ref_rule]);
                             self.current_module_path = Some(payload.source_module_path);
                             return self.next();
                         }
@@ -89,12 +94,25 @@ impl Iterator for BinProtRuleIterator {
 impl BinProtRuleIterator {
     // Drop a custom rule onto the stack
     pub fn push(&mut self, rules: Vec<BinProtRule>) {
-        self.stack.extend(rules);
+        self.stack.extend(rules.into_iter().map(|rule| (rule, 1)));
     }
 
     // Drop a custom rule onto the stack n times
     pub fn push_n(&mut self, rule: BinProtRule, n: usize) {
-        self.stack.extend(std::iter::repeat(rule).take(n));
+        // n can come from the input, so the rule cannot be copied n times upfront
+        if n > 0 {
+            self.stack.push((rule, n));
+        }
+    }
+
+    // Take the next rule off the stack
+    fn pop(&mut self) -> Option<BinProtRule> {
+        let (rule, n) = self.stack.last_mut()?;
+        if *n > 1 {
+            *n -= 1;
+            return Some(rule.clone());
+        }
+        self.stack.pop().map(|(rule, _)| rule)
     }
 }
 
@@ -104,7 +122,7 @@ impl IntoIterator for BinProtRule {
 
     fn into_iter(self) -> <Self as IntoIterator>::IntoIter {
         BinProtRuleIterator {
-            stack: vec![self],
+            stack: vec![(self, 1)],
             current_module_path: None,
         }
     }
-- 
2.43.0


From 2f25f37025acd680bb4074d42b029c360d2ae044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 09/52] fix: do not allocate field names of a map by the length
 claimed in the input

---
 protocol/bin-prot/src/de.rs                 | 18 ++++++++++--------
 protocol/bin-prot/src/loose_deserializer.rs |  2 +-
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 2b832fd..9ce0c11 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -305,7 +305,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
         // we can't know the field names (and don't need to) if we are deserializing in
         // stronly typed mode. To make everything work just add some dummy field names
         let len: usize = self.rdr.bin_read_nat0()?;
-        let dummy_fields = std::iter::repeat("".to_string()).take(len).collect();
+        let dummy_fields = std::iter::repeat("".to_string()).take(len);
         visitor.visit_map(MapAccess::new(self, dummy_fields))
     }
 
@@ -505,27 +505,29 @@ impl_variant_access!(LooselyTyped, Enum);
 #[cfg(feature = "loose_deserialization")]
 impl_variant_access!(LooselyTyped, PolyvarEnum);
 
-pub(crate) struct MapAccess<'a, R: Read + 'a, Mode> {
+pub(crate) struct MapAccess<'a, R: Read + 'a, Mode, I> {
     de: &'a mut Deserializer<R, Mode>,
-    field_names: Vec<String>, // field names should be stored as a stack (first element last)
+    field_names: I, // generated on demand as their number can come from the input
 }
 
-impl<'a, R: Read + 'a, Mode> MapAccess<'a, R, Mode> {
-    pub fn new(de: &'a mut Deserializer<R, Mode>, field_names: Vec<String>) -> Self {
+impl<'a, R: Read + 'a, Mode, I: Iterator<Item = String>> MapAccess<'a, R, Mode, I> {
+    pub fn new(de: &'a mut Deserializer<R, Mode>, field_names: I) -> Self {
         Self { de, field_names }
     }
 }
 
 macro_rules! impl_map_access {
     ($ty: ty) => {
-        impl<'de: 'a, 'a, R: Read> de::MapAccess<'de> for MapAccess<'a, R, $ty> {
+        impl<'de: 'a, 'a, R: Read, I: Iterator<Item = String>> de::MapAccess<'de>
+            for MapAccess<'a, R, $ty, I>
+        {
             type Error = Error;
 
             fn next_key_seed<T: de::DeserializeSeed<'de>>(
                 &mut self,
                 seed: T,
             ) -> Result<Option<T::Value>> {
-                if let Some(name) = self.field_names.pop() {
+                if let Some(name) = self.field_names.next() {
                     // create a new deserializer to read the name from memory
                     // as it isn't present in the serialized output
                     seed.deserialize(name.into_deserializer()).map(Some)
@@ -542,7 +544,7 @@ macro_rules! impl_map_access {
             }
 
             fn size_hint(&self) -> Option<usize> {
-                Some(self.field_names.len())
+                self.field_names.size_hint().1
             }
         }
     };
diff --git a/protocol/bin-prot/src/loose_deserializer.rs b/protocol/bin-prot/src/loose_deserializer.rs
index 2f5785a..45b1ccc 100644
--- a/protocol/bin-prot/src/loose_deserializer.rs
+++ b/protocol/bin-prot/src/loose_deserializer.rs
@@ -34,7 +34,7 @@ impl<'de, R: Read> DS<R, LooselyTyped> {
                         // Grab the field names from the rule to pass to the map access
                         visitor.visit_map(MapAccess::new(
                             self,
-                            fields.into_iter().map(|f| f.field_name).rev().collect(),
+                            fields.into_iter().map(|f| f.field_name),
                         ))
                     }
                     BinProtRule::Tuple(items) => {
-- 
2.43.0


From 04e7a0d46ba53009d44f2aa532a093142b1f5b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 10/52] fix: decode a polyvar tag to the variant at its
 position among all variants

Non-ASCII variants in front shifted the position, and more than 256
variants truncated it, so a different variant was decoded.
---
 protocol/bin-prot/src/de.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index 9ce0c11..d588a38 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -9,7 +9,11 @@ use crate::value::layout::*;
 use crate::ReadBinProtExt;
 use crate::{caml_hash_variant, VariantHash};
 use byteorder::{LittleEndian, ReadBytesExt};
-use serde::de::{self, value::U8Deserializer, EnumAccess, IntoDeserializer, Visitor};
+use serde::de::{
+    self,
+    value::{U64Deserializer, U8Deserializer},
+    EnumAccess, IntoDeserializer, Visitor,
+};
 use serde::Deserialize;
 use std::io::{self, BufRead, BufReader, Read};
 
@@ -401,8 +405,8 @@ macro_rules! impl_polyvar_enum_access {
                 let index = self
                     .variants
                     .into_iter()
-                    .filter(|v| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .enumerate()
+                    .filter(|(_, v)| v.is_ascii()) // Polyvar tag must be within the ASCII range, otherwise computing the caml hash is undefined behaviour.
                     .find_map(|(index, value)| {
                         // Return the first polyvar variant where the hash matches
                         if caml_hash_variant(value) == self.hash {
@@ -412,7 +416,7 @@ macro_rules! impl_polyvar_enum_access {
                         }
                     })
                     .ok_or(Error::UnknownPolyvarTag(self.hash))?;
-                let de: U8Deserializer<Self::Error> = (index as u8).into_deserializer();
+                let de: U64Deserializer<Self::Error> = (index as u64).into_deserializer();
                 let v = seed.deserialize(de)?;
                 Ok((v, Enum::new(self.de, index as u8)))
             }
-- 
2.43.0


From 074c70e6274bb57b6dbb2e0d1e4d635a3052403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 11/52] fix: endless recursion when a loose value is
 deserialized from a string

---
 protocol/bin-prot/src/value/visitor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/value/visitor.rs b/protocol/bin-prot/src/value/visitor.rs
index a2c7a4e..e2f429a 100644
--- a/protocol/bin-prot/src/value/visitor.rs
+++ b/protocol/bin-prot/src/value/visitor.rs
@@ -45,7 +45,7 @@ impl<'de> Visitor<'de> for ValueVisitor {
     where
         E: serde::de::Error,
     {
-        self.visit_string(String::from(value))
+        Ok(Value::String(value.as_bytes().to_vec()))
     }
 
     #[inline]
-- 
2.43.0


From b54a6b476870ab27cd9502dd22f6599833a188d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 12/52] fix: return the documented error for a loose value
 without layout instead of panicking

---
 protocol/bin-prot/src/de.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/protocol/bin-prot/src/de.rs b/protocol/bin-prot/src/de.rs
index d588a38..29f38b5 100644
--- a/protocol/bin-prot/src/de.rs
+++ b/protocol/bin-prot/src/de.rs
@@ -110,7 +110,7 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
     where
         V: Visitor<'de>,
     {
-        unimplemented!()
+        Err(Error::DeserializingLooseTypeWithoutLayout)
     }
 
     fn deserialize_bool<V>(self, visitor: V) -> Result<V::Value>
@@ -200,11 +200,11 @@ impl<'de, 'a, R: Read> de::Deserializer<'de> for &'a mut Deserializer<R, Strongl
         visitor.visit_char(self.rdr.bin_read_char()?)
     }
 
-    fn deserialize_str<V>(self, _visitor: V) -> Result<V::Value>
+    fn deserialize_str<V>(self, visitor: V) -> Result<V::Value>
     where
         V: Visitor<'de>,
     {
-        todo!()
+        self.deserialize_string(visitor)
     }
 
     fn deserialize_string<V>(self, visitor: V) -> Result<V::Value>
-- 
2.43.0


From e6dd3d284e464f0dda2cd933dbf5fe4fc44dfe98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:46 +0000
Subject: [PATCH 13/52] fix: write the tag of a loose polyvar in 4 bytes
 whatever its value

A tag below 256 (any one letter label) was written as a variant index of
one byte, and the variant index of a large enum as a tag of 4 bytes
instead of failing.
---
 protocol/bin-prot/src/ser.rs       | 19 ++++++++++---------
 protocol/bin-prot/src/value/ser.rs |  3 ++-
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/protocol/bin-prot/src/ser.rs b/protocol/bin-prot/src/ser.rs
index 2fabc4c..675814c 100644
--- a/protocol/bin-prot/src/ser.rs
+++ b/protocol/bin-prot/src/ser.rs
@@ -9,6 +9,9 @@ use crate::WriteBinProtExt;
 use serde::ser;
 use serde::Serialize;
 
+/// Enum name by which a loosely typed polyvar passes its tag in place of the variant index
+pub(crate) const POLYVAR_TAG: &str = "PolyvarTag";
+
 /// Serializer for writing BinProt bytes to a writer
 pub struct Serializer<W> {
     writer: W,
@@ -35,20 +38,18 @@ where
     }
 
     // This can be called to serialize a Polyvar which has a 4 byte
-    // tag OR a variant index which is 1-2 bytes. We assume if they fit into a single byte then they
-    // are an index and if they are larger than 1 byte they are a polyvar.
-    // IMPORTANT: This could bug out in the case that a polyvar hash is zero in all places except the lowest byte.
-    // The probability of this happening is vanishingly small but something to be aware of.
+    // tag OR a variant index which is 1-2 bytes.
     fn write_variant_index_or_tag(&mut self, name: &str, variant: &str, index: u32) -> Result<()> {
         if name == "Polyvar" {
             self.writer
                 .bin_write_polyvar_tag(caml_hash_variant(variant))?;
-        } else if let Ok(b) = check_variant_index(index) {
-            // it is a sum variant
-            self.writer.bin_write_variant_index(b)?;
-        } else {
-            // assume it is a Polyvar tagged variant
+        } else if name == POLYVAR_TAG {
+            // the tag is known already, there is no variant name to hash
             self.writer.bin_write_polyvar_tag(index)?;
+        } else {
+            // it is a sum variant
+            self.writer
+                .bin_write_variant_index(check_variant_index(index)?)?;
         }
         Ok(())
     }
diff --git a/protocol/bin-prot/src/value/ser.rs b/protocol/bin-prot/src/value/ser.rs
index 828cec3..9702906 100644
--- a/protocol/bin-prot/src/value/ser.rs
+++ b/protocol/bin-prot/src/value/ser.rs
@@ -3,6 +3,7 @@
 
 //! Serialization implementation for a BinProt loosely typed Value
 
+use crate::ser::POLYVAR_TAG;
 use crate::Value;
 
 use serde::ser::{SerializeStruct, SerializeTuple};
@@ -53,7 +54,7 @@ impl Serialize for Value {
                 name: _,
                 ref tag,
                 ref value,
-            } => serializer.serialize_newtype_variant("", *tag as u32, "", value), // sum types/enums
+            } => serializer.serialize_newtype_variant(POLYVAR_TAG, *tag, "", value), // sum types/enums
             Value::List(ref v) => v.serialize(serializer),
         }
     }
-- 
2.43.0


From 6886b865f03dbf16d2f511d16636624ff4b2d53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:11 +0000
Subject: [PATCH 14/52] fix: stale merkle root after adding leaves under a node
 without hash

The merger may return None for a node whose children are both empty, so a node
without cached hash can have ancestors with one.
---
 merkle/src/tree_impl.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 9865663..8532a1e 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -178,11 +178,7 @@ where
         let mut parent = leaf_index;
         while parent > 0 {
             parent = calculate_parent_index(parent);
-            if self.nodes[parent].is_some() {
-                self.nodes[parent] = None;
-            } else {
-                break;
-            }
+            self.nodes[parent] = None;
         }
     }
 
-- 
2.43.0


From 7bd4871b6035523cbe482bc6e45999fc79e9902d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:11 +0000
Subject: [PATCH 15/52] fix: panic when getting the merkle proof of the only
 leaf of a tree

---
 merkle/src/tree_impl.rs | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/merkle/src/tree_impl.rs b/merkle/src/tree_impl.rs
index 8532a1e..068d7c5 100644
--- a/merkle/src/tree_impl.rs
+++ b/merkle/src/tree_impl.rs
@@ -107,14 +107,11 @@ where
         &mut self,
         index: usize,
     ) -> Option<DefaultMerkleProof<Item, Hash, Hasher, Merger>> {
-        if self.calculate_hash_if_needed(0).is_some() {
+        // A tree of height 0 is a single data node, for which there is no proof
+        if self.height_above() > 0 && self.calculate_hash_if_needed(0).is_some() {
             // 1. Calculates the number of nodes above the data node,
             // for calculating its index in the tree (0 for the root, counted from topdown, left to right)
-            let height_above = if let Some(fixed_height) = self.mode.fixed_height() {
-                fixed_height
-            } else {
-                self.variable_height
-            };
+            let height_above = self.height_above();
             let index_offset = calculate_node_count(height_above);
             let capacity = self.mode.fixed_height().unwrap_or(self.variable_height) as usize;
             let mut peer_indices = Vec::with_capacity(capacity);
@@ -133,7 +130,11 @@ where
             peer_hashes.push(peer_hash);
             // 3. Gets the index of their parent node and point the cursor to it
             // parent_index is the index of the actual tree with the variable height
-            let mut parent_index = calculate_parent_index(self.nodes.len() + index);
+            let mut parent_index = if self.nodes.is_empty() {
+                0
+            } else {
+                calculate_parent_index(self.nodes.len() + index)
+            };
             // and parent_index_with_offset is the index of the virtual tree with possible fixed height
             // when the fixed height equals to the variable height, parent_index equals to parent_index_with_offset
             let mut parent_index_with_offset = calculate_parent_index(index_with_offset);
@@ -172,6 +173,11 @@ where
         }
     }
 
+    /// Number of levels above the data nodes
+    fn height_above(&self) -> u32 {
+        self.mode.fixed_height().unwrap_or(self.variable_height)
+    }
+
     /// Clears cached hashes of all ancester nodes of the give leaf
     /// because the values become invaid once the leaf is updated
     fn clear_dirty_hashes(&mut self, leaf_index: usize) {
-- 
2.43.0


From 38f632f9dff42a3835005d09ac4bd7c999ecdbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:11 +0000
Subject: [PATCH 16/52] fix: depth of merkle tree nodes with a large index

log in floating point is not exact, e.g. for the index 2^29 - 2.
---
 merkle/src/metadata.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/merkle/src/metadata.rs b/merkle/src/metadata.rs
index bf53061..755a172 100644
--- a/merkle/src/metadata.rs
+++ b/merkle/src/metadata.rs
@@ -15,8 +15,8 @@ impl MerkleTreeNodeMetadata {
     /// the node's index in the merkle tree, index of root node is 0
     /// the tree height does not count data/leaf nodes
     pub fn new(node_index: usize, tree_height: u32) -> Self {
-        let depth = depth::<2>(node_index);
-        let height = height::<2>(node_index, tree_height);
+        let depth = depth(node_index);
+        let height = tree_height - depth;
         Self { depth, height }
     }
 
@@ -31,10 +31,8 @@ impl MerkleTreeNodeMetadata {
     }
 }
 
-fn depth<const DEGREE: usize>(index: usize) -> u32 {
-    ((index + DEGREE) as f64).log(DEGREE as f64).ceil() as u32 - 1
-}
-
-fn height<const DEGREE: usize>(index: usize, height: u32) -> u32 {
-    height - depth::<DEGREE>(index)
+/// Distance to the root node of the node with the given index in a binary tree
+pub(crate) fn depth(index: usize) -> u32 {
+    let n = index as u128 + 1;
+    u128::BITS - 1 - n.leading_zeros()
 }
-- 
2.43.0


From e84fad44ed3467a98b48ba1f6708efd761ce48f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:11 +0000
Subject: [PATCH 17/52] fix: reject merkle proofs whose indices are not those
 of a path in the tree

A proof of a leaf was accepted for the index next to it when the index of the sibling was
shifted too, and a proof with too few or too many peers made root_hash panic.
---
 merkle/src/proof.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/merkle/src/proof.rs b/merkle/src/proof.rs
index 309a761..50eaf01 100644
--- a/merkle/src/proof.rs
+++ b/merkle/src/proof.rs
@@ -111,6 +111,12 @@ where
     fn root_hash(&self) -> Result<Hash, Self::Error> {
         // index of a data node should always to positive
         if self.index > 0 {
+            // peers should be the siblings of the data node and of its ancestors below the root
+            if self.peer_indices.len() != self.peer_hashes.len()
+                || self.peer_indices.len() != metadata::depth(self.index) as usize
+            {
+                return Err(MerkleProofError::InvalidProof);
+            }
             // 1. Get the index and hash of the data node
             let mut index = self.index;
             let mut hash_opt = Some(Hasher::hash(
@@ -156,9 +162,10 @@ fn get_ordered_siblings<Hash>(
     sibling_index: usize,
     sibling_hash: Option<Hash>,
 ) -> Result<[Option<Hash>; 2], MerkleProofError> {
-    if index + 1 == sibling_index {
+    // left children have odd indices, right children have even ones
+    if index % 2 == 1 && Some(sibling_index) == index.checked_add(1) {
         Ok([hash, sibling_hash])
-    } else if index == sibling_index + 1 {
+    } else if index % 2 == 0 && sibling_index == index - 1 {
         Ok([sibling_hash, hash])
     } else {
         Err(MerkleProofError::InvalidProof)
-- 
2.43.0


From cbc5b10a994a6917de68bfaaba7c3a610f589c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:11 +0000
Subject: [PATCH 18/52] fix: panic when converting an empty or too long merkle
 path to a proof

---
 merkle/src/path.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/merkle/src/path.rs b/merkle/src/path.rs
index 7da57fc..febc437 100644
--- a/merkle/src/path.rs
+++ b/merkle/src/path.rs
@@ -47,6 +47,11 @@ impl MerklePath {
         Hasher: MerkleHasher<Item = Item, Hash = Fp>,
         Merger: MerkleMerger<Hash = Fp>,
     {
+        anyhow::ensure!(
+            !self.0.is_empty() && self.0.len() < usize::BITS as usize,
+            "Invalid length of merkle path: {}",
+            self.0.len()
+        );
         let mut peer_indices = Vec::with_capacity(self.0.len());
         let mut peer_hashes = Vec::with_capacity(self.0.len());
         let mut row_index = 0;
-- 
2.43.0


From f8277adb69f7bedaee15687de0cf518bd51e7898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:36:11 +0000
Subject: [PATCH 19/52] fix: panic when parsing a number that is not smaller
 than the field modulus

---
 proof-systems-shim/src/fp.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/proof-systems-shim/src/fp.rs b/proof-systems-shim/src/fp.rs
index f13fc3f..d5c4f96 100644
--- a/proof-systems-shim/src/fp.rs
+++ b/proof-systems-shim/src/fp.rs
@@ -3,7 +3,7 @@
 
 //! Extensions for [Fp], including json serde, etc.
 
-use ark_ff::BigInteger256;
+use ark_ff::{BigInteger256, PrimeField};
 use derive_more::{From, Into};
 use mina_hasher::Fp;
 use num::{BigUint, Num};
@@ -34,7 +34,9 @@ impl<'de> Deserialize<'de> for FpJson {
         let big256: BigInteger256 = big
             .try_into()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(big256.into()))
+        fp_from_big256(big256)
+            .map(Self)
+            .map_err(<D::Error as serde::de::Error>::custom)
     }
 }
 
@@ -42,8 +44,13 @@ pub fn fp_from_radix_10(s: &str) -> anyhow::Result<Fp> {
     use std::str::FromStr;
 
     let big = num::BigUint::from_str(s)?;
-    let big256: BigInteger256 = big.try_into().unwrap();
-    Ok(big256.into())
+    let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
+    fp_from_big256(big256)
+}
+
+fn fp_from_big256(big256: BigInteger256) -> anyhow::Result<Fp> {
+    Fp::from_repr(big256)
+        .ok_or_else(|| anyhow::Error::msg("value is not smaller than the field modulus"))
 }
 
 #[cfg(test)]
-- 
2.43.0


From 9b9395bde7cc7900af08f52e8a000b9cc803163e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 20/52] fix: panic on comparing with a chain whose tip claims
 epochs of 0 slots

---
 consensus/src/common.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index b07b709..ae75c81 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -105,7 +105,7 @@ where
     /// The output is the epoch slot number in [0, slots_per_epoch].
     pub fn epoch_slot(&self) -> Option<u32> {
         self.global_slot()
-            .map(|s| (s.slot_number.0 % s.slots_per_epoch.0))
+            .and_then(|s| s.slot_number.0.checked_rem(s.slots_per_epoch.0))
     }
 
     /// The function the length of a chain. The output is the length of the chain in blocks.
-- 
2.43.0


From 8ed9ef2ed9916f96a5be90b57d0d7e96b1048802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 21/52] fix: overflow on comparing or extending a chain with
 the greatest epoch or height

---
 consensus/src/common.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index ae75c81..d787632 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -67,7 +67,7 @@ where
         match self.0.len() {
             0 => (),
             n => {
-                if new.get_height().0 != self.0[n - 1].get_height().0 + 1 {
+                if Some(new.get_height().0) != self.0[n - 1].get_height().0.checked_add(1) {
                     return Err(ConsensusError::InvalidHeight);
                 }
             }
@@ -238,7 +238,7 @@ where
         let b_prev_lock_checkpoint = &b.staking_epoch_data.lock_checkpoint;
 
         let check = |s1: &ConsensusState, s2: &ConsensusState, s2_epoch_slot: Option<u32>| {
-            if s1.epoch_count.0 == s2.epoch_count.0 + 1
+            if s2.epoch_count.0.checked_add(1) == Some(s1.epoch_count.0)
                 && s2_epoch_slot >= Some(self.config().slots_per_epoch.0 * 2 / 3)
             {
                 // S1 is one epoch ahead of S2 and S2 is not in the seed update range
-- 
2.43.0


From f1c28af3ea6ab91ec4d3b12bb5725a4530aaa90b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:51:38 +0000
Subject: [PATCH 22/52] fix: overflow on summing up the window densities
 claimed by a chain

---
 consensus/src/common.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/consensus/src/common.rs b/consensus/src/common.rs
index d787632..49c903b 100644
--- a/consensus/src/common.rs
+++ b/consensus/src/common.rs
@@ -320,7 +320,9 @@ where
         };
 
         // compute projected window density
-        let projected_window_density = projected_window.iter().map(|s| s.0).sum();
+        let projected_window_density = projected_window
+            .iter()
+            .fold(0u32, |sum, s| sum.saturating_add(s.0));
 
         // compute minimum window density
         Ok(min(
-- 
2.43.0


From 6cca4b51cf6746752ec576e1cc8798d571d8eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:08 +0000
Subject: [PATCH 23/52] fix: permission Both was hashed like permission Proof

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index a6da7e2..1bcbd83 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -31,7 +31,7 @@ impl ToChunkedROInput for AuthRequired {
     fn to_chunked_roinput(&self) -> ChunkedROInput {
         let mut roi = ChunkedROInput::new();
         let constant = matches!(self, Self::Impossible | Self::None);
-        let signature_necessary = matches!(self, Self::Impossible | Self::Signature);
+        let signature_necessary = matches!(self, Self::Impossible | Self::Signature | Self::Both);
         let signature_sufficient = matches!(self, Self::Either | Self::Signature | Self::None);
         for b in [constant, signature_necessary, signature_sufficient] {
             let mut bits = BitVec::with_capacity(1);
-- 
2.43.0


From 442738e1f1293c01e2463d6a322bc139e50f9b35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:54:08 +0000
Subject: [PATCH 24/52] fix: permission to increment the nonce was read from
 the permission to edit the state

---
 base/src/account/permissions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/src/account/permissions.rs b/base/src/account/permissions.rs
index 1bcbd83..ba407b6 100644
--- a/base/src/account/permissions.rs
+++ b/base/src/account/permissions.rs
@@ -133,7 +133,7 @@ impl FromGraphQLJson for Permissions {
                 json["setTokenSymbol"].as_str().unwrap_or_default(),
             )?,
             increment_nonce: AuthRequired::from_str(
-                json["editState"].as_str().unwrap_or_default(),
+                json["incrementNonce"].as_str().unwrap_or_default(),
             )?,
             set_voting_for: AuthRequired::from_str(
                 json["setVotingFor"].as_str().unwrap_or_default(),
-- 
2.43.0


From 47ba8cb043c3676c4ad404ea94581da44290c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:20 +0000
Subject: [PATCH 25/52] fix: malformed timing of an account was read as no
 timing

---
 base/src/account/timing.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/base/src/account/timing.rs b/base/src/account/timing.rs
index 3bcad69..6ec9ef4 100644
--- a/base/src/account/timing.rs
+++ b/base/src/account/timing.rs
@@ -96,10 +96,19 @@ impl FromGraphQLJson for Timing {
     where
         Self: Sized,
     {
-        Ok(match TimedData::from_graphql_json(json) {
-            Ok(data) => Self::Timed(data),
-            _ => Self::Untimed,
-        })
+        const FIELDS: [&str; 5] = [
+            "initialMinimumBalance",
+            "cliffTime",
+            "cliffAmount",
+            "vestingPeriod",
+            "vestingIncrement",
+        ];
+        // All fields of an untimed account are null
+        if FIELDS.iter().all(|field| json[field].is_null()) {
+            Ok(Self::Untimed)
+        } else {
+            TimedData::from_graphql_json(json).map(Self::Timed)
+        }
     }
 }
 
-- 
2.43.0


From 4231c0022ca8880fb89d5a575aad952268863090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 26/52] fix: panic on verifying a command whose signer is not a
 point on the curve

---
 base/src/user_commands/signed_command/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/base/src/user_commands/signed_command/mod.rs b/base/src/user_commands/signed_command/mod.rs
index b4712fe..5581616 100644
--- a/base/src/user_commands/signed_command/mod.rs
+++ b/base/src/user_commands/signed_command/mod.rs
@@ -54,10 +54,15 @@ where
     CTX: Signer<SignedCommandPayload>,
 {
     fn verify(&self, ctx: &mut CTX) -> bool {
-        // do a slightly sketchy conversion via address string. Safe to unwrap as we know it was valid to begin with
+        // do a slightly sketchy conversion via address string. It fails when there is no point on the curve
+        // for the signer's x coordinate, in which case the signature cannot be valid
         // TODO replace this with a proper `.into` conversion when supported in proof-systems
-        let signer_uncompressed = PubKey::from_address(&self.signer.into_address()).unwrap();
-        ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+        match PubKey::from_address(&self.signer.into_address()) {
+            Ok(signer_uncompressed) => {
+                ctx.verify(&self.signature, &signer_uncompressed, &self.payload)
+            }
+            Err(_) => false,
+        }
     }
 }
 
-- 
2.43.0


From b5722732b81f05698712f53891cee98c19b9a450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:16:39 +0000
Subject: [PATCH 27/52] fix: panic on getting the text of a memo shorter than
 it claims

---
 base/src/user_commands/memo.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 75dd22c..0caf069 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -40,8 +40,10 @@ impl SignedCommandMemo {
 
     /// Convert into text
     pub fn to_text(&self) -> String {
-        let len = self.0[1] as usize;
-        String::from_utf8_lossy(&self.0[2..(2 + len)]).into()
+        // A memo received from the network may be shorter than it claims
+        let len = self.0.get(1).copied().unwrap_or_default() as usize;
+        let text: Vec<u8> = self.0.iter().skip(2).take(len).copied().collect();
+        String::from_utf8_lossy(&text).into()
     }
 }
 
-- 
2.43.0


From bd7eb06986b801bcc5bb5c6f7142d864224d9535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:04 +0000
Subject: [PATCH 28/52] fix: memo of a transfer built without one had no bytes,
 instead of an empty text's 34

---
 base/src/user_commands/memo.rs | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index 0caf069..bb603ea 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -9,28 +9,37 @@ use mina_serialization_types_macros::AutoFrom;
 use thiserror::Error;
 
 /// A memo byte strong for a signed command
-#[derive(Clone, Default, Eq, PartialEq, Debug, derive_more::From, derive_more::Into, AutoFrom)]
+#[derive(Clone, Eq, PartialEq, Debug, derive_more::From, derive_more::Into, AutoFrom)]
 #[auto_from(mina_serialization_types::staged_ledger_diff::SignedCommandMemo)]
 #[auto_from(mina_serialization_types::staged_ledger_diff::SignedCommandMemoJson)]
 pub struct SignedCommandMemo(pub Vec<u8>);
 
 impl_strconv_via_json!(SignedCommandMemo, SignedCommandMemoJson);
 
+const DIGEST_LEN: usize = 32;
+const MAX_INPUT_STRING_LENGTH: usize = DIGEST_LEN;
+const MEMO_LEN: usize = DIGEST_LEN + 2;
+const TAG_INDEX: usize = 0;
+const LEN_INDEX: usize = 1;
+const BYTES_TAG: u8 = 1;
+
+impl Default for SignedCommandMemo {
+    /// The memo with an empty text
+    fn default() -> Self {
+        let mut v = vec![0; MEMO_LEN];
+        v[TAG_INDEX] = BYTES_TAG;
+        Self(v)
+    }
+}
+
 impl SignedCommandMemo {
     /// Try build from text
     pub fn try_from_text(s: impl AsRef<[u8]>) -> Result<Self, SignedCommandMemoError> {
-        const DIGEST_LEN: usize = 32;
-        const MAX_INPUT_STRING_LENGTH: usize = DIGEST_LEN;
-        const MEMO_LEN: usize = DIGEST_LEN + 2;
-        const TAG_INDEX: usize = 0;
-        const LEN_INDEX: usize = 1;
-        const BYTES_TAG: u8 = 1;
         let s = s.as_ref();
         if s.len() > MAX_INPUT_STRING_LENGTH {
             return Err(SignedCommandMemoError::StringTooLong);
         }
-        let mut v = vec![0; MEMO_LEN];
-        v[TAG_INDEX] = BYTES_TAG;
+        let Self(mut v) = Self::default();
         v[LEN_INDEX] = s.len() as u8;
         for (i, &b) in s.iter().enumerate() {
             v[i + 2] = b;
-- 
2.43.0


From 29de5040834dee790235f07f7f156e2f5faf9c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:05 +0000
Subject: [PATCH 29/52] fix: signature of a command was valid for another
 payload with a memo of another length

---
 base/src/user_commands/memo.rs               | 5 +++++
 base/src/user_commands/signed_command/mod.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/base/src/user_commands/memo.rs b/base/src/user_commands/memo.rs
index bb603ea..294adc3 100644
--- a/base/src/user_commands/memo.rs
+++ b/base/src/user_commands/memo.rs
@@ -47,6 +47,11 @@ impl SignedCommandMemo {
         Ok(Self(v))
     }
 
+    /// Whether the memo has the length of all memos
+    pub(crate) fn has_valid_length(&self) -> bool {
+        self.0.len() == MEMO_LEN
+    }
+
     /// Convert into text
     pub fn to_text(&self) -> String {
         // A memo received from the network may be shorter than it claims
diff --git a/base/src/user_commands/signed_command/mod.rs b/base/src/user_commands/signed_command/mod.rs
index 5581616..902a7d5 100644
--- a/base/src/user_commands/signed_command/mod.rs
+++ b/base/src/user_commands/signed_command/mod.rs
@@ -54,6 +54,11 @@ where
     CTX: Signer<SignedCommandPayload>,
 {
     fn verify(&self, ctx: &mut CTX) -> bool {
+        // What is signed does not include the length of the memo. With a memo of another length, the signature
+        // could be one for another payload
+        if !self.payload.common.memo.has_valid_length() {
+            return false;
+        }
         // do a slightly sketchy conversion via address string. It fails when there is no point on the curve
         // for the signer's x coordinate, in which case the signature cannot be valid
         // TODO replace this with a proper `.into` conversion when supported in proof-systems
-- 
2.43.0


From f48bd4b0dfb2542c7e5069df349fe20abdf22398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:40 +0000
Subject: [PATCH 30/52] fix: refuse amounts whose text is out of range or has
 more than nine fractional digits

---
 base/src/numbers.rs                        | 23 ++++++++--------
 protocol/serialization-types/src/common.rs | 32 ++++++++++------------
 2 files changed, 25 insertions(+), 30 deletions(-)

diff --git a/base/src/numbers.rs b/base/src/numbers.rs
index 5c77097..3fa666d 100644
--- a/base/src/numbers.rs
+++ b/base/src/numbers.rs
@@ -137,19 +137,18 @@ pub enum ParseAmountError {
 impl std::str::FromStr for Amount {
     type Err = ParseAmountError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        let mut iter = s.split('.');
-        let q: u64 = iter
-            .next()
-            .ok_or_else(|| Self::Err::ErrorInvalidFormat(s.to_string()))?
-            .parse()?;
-        let r_str = iter.next().unwrap_or("0");
-        let r: u64 = format!("{:0<9}", r_str).parse()?;
-        if iter.next().is_none() {
-            // ensure there isn't more to parse as that is undefined
-            Ok(Amount(r + MINA_PRECISION * q))
-        } else {
-            Err(Self::Err::ErrorInvalidFormat(s.to_string()))
+        let invalid = || Self::Err::ErrorInvalidFormat(s.to_string());
+        let (q, r) = s.split_once('.').unwrap_or((s, "0"));
+        let q: u64 = q.parse()?;
+        // more digits, or a sign, would give the fraction another weight
+        if r.len() > 9 || !r.bytes().all(|b| b.is_ascii_digit()) {
+            return Err(invalid());
         }
+        let r: u64 = format!("{:0<9}", r).parse()?;
+        q.checked_mul(MINA_PRECISION)
+            .and_then(|q| q.checked_add(r))
+            .map(Amount)
+            .ok_or_else(invalid)
     }
 }
 
diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 37ca787..2438ddd 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -112,27 +112,23 @@ impl<'de> Deserialize<'de> for DecimalJson {
         D: Deserializer<'de>,
     {
         let s = String::deserialize(deserializer)?;
-        let mut iter = s.split('.');
-        let q: u64 = iter
-            .next()
-            .ok_or_else(|| <D::Error as serde::de::Error>::custom(format!("Invalid string: {s}")))?
-            .parse()
-            .map_err(<D::Error as serde::de::Error>::custom)?;
-        let r_str = iter.next().unwrap_or("0");
-        let r: u64 = format!("{:0<9}", r_str)
-            .parse()
-            .map_err(<D::Error as serde::de::Error>::custom)?;
-        if iter.next().is_none() {
-            // ensure there isn't more to parse as that is undefined
-            Ok(Self(r + MINA_PRECISION * q))
-        } else {
-            Err(<D::Error as serde::de::Error>::custom(format!(
-                "Invalid string: {s}"
-            )))
-        }
+        parse_decimal(&s)
+            .map(Self)
+            .ok_or_else(|| <D::Error as serde::de::Error>::custom(format!("Invalid string: {s}")))
     }
 }
 
+/// Reads a decimal number of at most 9 fractional digits, in units of the smallest
+fn parse_decimal(s: &str) -> Option<u64> {
+    let (q, r) = s.split_once('.').unwrap_or((s, "0"));
+    if r.len() > 9 || !r.bytes().all(|b| b.is_ascii_digit()) {
+        return None;
+    }
+    let q: u64 = q.parse().ok()?;
+    let r: u64 = format!("{:0<9}", r).parse().ok()?;
+    q.checked_mul(MINA_PRECISION)?.checked_add(r)
+}
+
 /// u32 representing a length (v1)
 pub type LengthV1 = Versioned<Versioned<u32, 1>, 1>;
 impl_from_for_newtype!(U32Json, LengthV1);
-- 
2.43.0


From fc8bca2779028ffcb33dfffb20c131a352bf57a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:40 +0000
Subject: [PATCH 31/52] fix: read and write any byte as a char in JSON, and
 nothing else

---
 protocol/serialization-types/src/common.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/protocol/serialization-types/src/common.rs b/protocol/serialization-types/src/common.rs
index 2438ddd..42a6692 100644
--- a/protocol/serialization-types/src/common.rs
+++ b/protocol/serialization-types/src/common.rs
@@ -187,8 +187,7 @@ impl Serialize for CharJson {
     where
         S: Serializer,
     {
-        let s = unsafe { String::from_utf8_unchecked(vec![self.0]) };
-        serializer.serialize_str(&s)
+        serializer.serialize_char(self.0.into())
     }
 }
 
@@ -197,8 +196,10 @@ impl<'de> Deserialize<'de> for CharJson {
     where
         D: Deserializer<'de>,
     {
-        let s = String::deserialize(deserializer)?;
-        Ok(s.as_bytes()[0].into())
+        let c = char::deserialize(deserializer)?;
+        u8::try_from(c as u32)
+            .map(Self)
+            .map_err(<D::Error as serde::de::Error>::custom)
     }
 }
 
-- 
2.43.0


From d6cbc7d01836332593fa4f73a87ea5f9f63627b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:26:40 +0000
Subject: [PATCH 32/52] fix: refuse hexadecimal field elements of another
 length than 32 bytes

---
 protocol/serialization-types/src/field_and_curve_elements.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/field_and_curve_elements.rs b/protocol/serialization-types/src/field_and_curve_elements.rs
index c034ac8..bedaddd 100644
--- a/protocol/serialization-types/src/field_and_curve_elements.rs
+++ b/protocol/serialization-types/src/field_and_curve_elements.rs
@@ -138,9 +138,8 @@ impl FieldElementJson {
     /// Convert from hex str
     pub fn try_from_hex_str(s: impl AsRef<[u8]>) -> Result<Self, hex::FromHexError> {
         let s = skip_0x_prefix_when_needed(s.as_ref());
-        let bytes = hex::decode(s)?;
         let mut b32 = [0; 32];
-        b32.copy_from_slice(&bytes);
+        hex::decode_to_slice(s, &mut b32)?;
         Ok(Self(b32))
     }
 }
-- 
2.43.0


From d19a2a03f06fdabfe7ddd94bda3bb7d80b396a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:06 +0000
Subject: [PATCH 33/52] fix: refuse data of another version than the type's

---
 protocol/versioned/src/lib.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/protocol/versioned/src/lib.rs b/protocol/versioned/src/lib.rs
index 5919300..0ca0f3f 100644
--- a/protocol/versioned/src/lib.rs
+++ b/protocol/versioned/src/lib.rs
@@ -14,10 +14,10 @@
 
 pub mod macros;
 
-use serde::{Deserialize, Serialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 
 /// A generic version wrapper around another type
-#[derive(Debug, Eq, PartialEq, Serialize, Deserialize, Clone)]
+#[derive(Debug, Eq, PartialEq, Serialize, Clone)]
 pub struct Versioned<T, const V: u16> {
     /// Version byte to be encoded first when the whole wrapper is serialized
     pub version: u16,
@@ -25,6 +25,33 @@ pub struct Versioned<T, const V: u16> {
     pub t: T,
 }
 
+impl<'de, T, const V: u16> Deserialize<'de> for Versioned<T, V>
+where
+    T: Deserialize<'de>,
+{
+    /// Another version of a type has another format
+    fn deserialize<D>(deserializer: D) -> Result<Self, D::Error>
+    where
+        D: Deserializer<'de>,
+    {
+        #[derive(Deserialize)]
+        #[serde(rename = "Versioned")]
+        struct AnyVersion<T> {
+            version: u16,
+            t: T,
+        }
+
+        let AnyVersion { version, t } = AnyVersion::deserialize(deserializer)?;
+        if version == V {
+            Ok(Self { version, t })
+        } else {
+            Err(D::Error::custom(format!(
+                "Version {version} found where {V} is expected"
+            )))
+        }
+    }
+}
+
 impl<T, const V: u16> Default for Versioned<T, V>
 where
     T: Default,
-- 
2.43.0


From 3d13abb8a7d948775c0cdaa47f2e3ff3d429cfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:26 +0000
Subject: [PATCH 34/52] fix: refuse base58 VRF outputs whose length byte is
 wrong or missing

---
 protocol/serialization-types/src/consensus_state.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/protocol/serialization-types/src/consensus_state.rs b/protocol/serialization-types/src/consensus_state.rs
index 9ac76fd..7dcc572 100644
--- a/protocol/serialization-types/src/consensus_state.rs
+++ b/protocol/serialization-types/src/consensus_state.rs
@@ -80,7 +80,13 @@ impl<'de> Deserialize<'de> for VrfOutputTruncatedBase58Json {
             .with_check(Some(version_bytes::VRF_TRUNCATED_OUTPUT))
             .into_vec()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(decoded.into_iter().skip(2).collect()))
+        // the version byte is followed by the length
+        match decoded.get(1) {
+            Some(&len) if len as usize == decoded.len() - 2 => Ok(Self(decoded[2..].to_vec())),
+            _ => Err(<D::Error as serde::de::Error>::custom(
+                "Wrong length of VRF output",
+            )),
+        }
     }
 }
 
-- 
2.43.0


From edd76b82e7c3f1a27dc9fb1e10adac44d0689024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:26 +0000
Subject: [PATCH 35/52] fix: return an error for JSON that is not a list-tagged
 enumeration

---
 protocol/serialization-types/src/macros.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/macros.rs b/protocol/serialization-types/src/macros.rs
index 9b987f3..58e01fb 100644
--- a/protocol/serialization-types/src/macros.rs
+++ b/protocol/serialization-types/src/macros.rs
@@ -103,7 +103,11 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                 let v = ::serde_json::Value::deserialize(deserializer)?;
                 if let Some(array) = v.as_array() {
                     let e: $tp = match array.len() {
-                        0 => panic!("Non-empty array expected"),
+                        0 => {
+                            return Err(<D::Error as ::serde::de::Error>::custom(
+                                "Non-empty array expected",
+                            ))
+                        }
                         1 => ::serde_json::from_value(array[0].clone())
                             .map_err(<D::Error as ::serde::de::Error>::custom)?,
                         2 => {
@@ -121,7 +125,7 @@ macro_rules! impl_mina_enum_json_serde_with_option {
                     };
                     Ok(e.into())
                 } else {
-                    panic!("Array expected")
+                    Err(<D::Error as ::serde::de::Error>::custom("Array expected"))
                 }
             }
         }
-- 
2.43.0


From 77e4d4aaf6d6604362aa7cf77dc6e38238cacea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:47 +0000
Subject: [PATCH 36/52] fix: return an error for writing a public key whose
 coordinate is no field element

---
 protocol/serialization-types/src/signatures.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/protocol/serialization-types/src/signatures.rs b/protocol/serialization-types/src/signatures.rs
index 261817b..3901203 100644
--- a/protocol/serialization-types/src/signatures.rs
+++ b/protocol/serialization-types/src/signatures.rs
@@ -8,7 +8,8 @@ use crate::{
     impl_strconv_via_json, version_bytes,
 };
 use mina_serialization_types_macros::AutoFrom;
-use proof_systems::mina_signer::CompressedPubKey;
+use proof_systems::mina_signer::{BaseField, CompressedPubKey};
+use proof_systems::o1_utils::field_helpers::FieldHelpers;
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use versioned::Versioned;
 
@@ -38,10 +39,11 @@ impl Serialize for PublicKeyJson {
     where
         S: Serializer,
     {
-        let pk = CompressedPubKey::from(&CompressedCurvePoint {
-            x: self.x,
+        let pk = CompressedPubKey {
+            // The bytes received for x may not be those of a field element
+            x: BaseField::from_bytes(&self.x).map_err(<S::Error as serde::ser::Error>::custom)?,
             is_odd: self.is_odd,
-        });
+        };
         let s = pk.into_address();
         serializer.serialize_str(&s)
     }
-- 
2.43.0


From a4e2830fa722966ee475d9a46a4544bbae590c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:37:47 +0000
Subject: [PATCH 37/52] fix: refuse hashes written as numbers not smaller than
 the field modulus

---
 crypto/src/hash/types.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/src/hash/types.rs b/crypto/src/hash/types.rs
index d0f03f5..180e1fe 100644
--- a/crypto/src/hash/types.rs
+++ b/crypto/src/hash/types.rs
@@ -10,7 +10,7 @@
 //! Depending on the type of hash a different byte prefix is used in the human readable form
 //!
 
-use ark_ff::BigInteger256;
+use ark_ff::{BigInteger256, PrimeField};
 use mina_serialization_types::{impl_strconv_via_json, json::*, v1::*};
 use num::{BigUint, Num};
 use proof_systems::{
@@ -28,7 +28,9 @@ impl Field {
     pub fn from_str_radix(s: &str, radix: u32) -> anyhow::Result<Self> {
         let big = BigUint::from_str_radix(s, radix)?;
         let big256: BigInteger256 = big.try_into().map_err(anyhow::Error::msg)?;
-        Ok(Self::from(&Fp::from(big256)))
+        let fp = Fp::from_repr(big256)
+            .ok_or_else(|| anyhow::Error::msg("value is not smaller than the field modulus"))?;
+        Ok(Self::from(&fp))
     }
 }
 
-- 
2.43.0


From 7486e9b8cfb0bc2e7b35efc43775287acdf409b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:49 +0000
Subject: [PATCH 38/52] fix: refuse keys and signatures whose bytes are not
 field elements

---
 .../serialization-types/src/signatures.rs     | 46 ++++++++++++++++---
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/protocol/serialization-types/src/signatures.rs b/protocol/serialization-types/src/signatures.rs
index 3901203..a661237 100644
--- a/protocol/serialization-types/src/signatures.rs
+++ b/protocol/serialization-types/src/signatures.rs
@@ -8,8 +8,8 @@ use crate::{
     impl_strconv_via_json, version_bytes,
 };
 use mina_serialization_types_macros::AutoFrom;
-use proof_systems::mina_signer::{BaseField, CompressedPubKey};
-use proof_systems::o1_utils::field_helpers::FieldHelpers;
+use proof_systems::mina_signer::{BaseField, CompressedPubKey, ScalarField};
+use proof_systems::o1_utils::field_helpers::{FieldHelpers, FieldHelpersError};
 use serde::{Deserialize, Deserializer, Serialize, Serializer};
 use versioned::Versioned;
 
@@ -17,6 +17,7 @@ use versioned::Versioned;
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
 pub struct CompressedCurvePoint {
     /// The x coordinate of the EC point
+    #[serde(deserialize_with = "deserialize_base_field_element")]
     pub x: FieldElement,
     /// If the point is odd (or even)
     pub is_odd: bool,
@@ -72,7 +73,10 @@ pub struct PublicKey2V1(pub Versioned<PublicKeyV1, 1>); // with an extra version
 
 /// Signature (v1)
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
-pub struct SignatureV1(pub Versioned<Versioned<(FieldElement, InnerCurveScalar), 1>, 1>);
+pub struct SignatureV1(
+    #[serde(deserialize_with = "deserialize_signature")]
+    pub  Versioned<Versioned<(FieldElement, InnerCurveScalar), 1>, 1>,
+);
 
 /// Signature (json)
 #[derive(Clone, Debug, Eq, PartialEq)]
@@ -102,13 +106,43 @@ impl<'de> Deserialize<'de> for SignatureJson {
             .with_check(Some(version_bytes::SIGNATURE))
             .into_vec()
             .map_err(<D::Error as serde::de::Error>::custom)?;
-        Ok(Self(
+        let signature: Versioned<(FieldElement, InnerCurveScalar), 1> =
             bin_prot::from_reader_strict(&bytes[1..])
-                .map_err(<D::Error as serde::de::Error>::custom)?,
-        ))
+                .map_err(<D::Error as serde::de::Error>::custom)?;
+        check_signature(&signature.t).map_err(<D::Error as serde::de::Error>::custom)?;
+        Ok(Self(signature))
     }
 }
 
+/// Deserialize 32 bytes, and refuse those which are not of a base field element
+fn deserialize_base_field_element<'de, D>(deserializer: D) -> Result<FieldElement, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let x = FieldElement::deserialize(deserializer)?;
+    BaseField::from_bytes(&x).map_err(<D::Error as serde::de::Error>::custom)?;
+    Ok(x)
+}
+
+/// Deserialize a signature, and refuse one whose parts are not elements of their fields
+fn deserialize_signature<'de, D>(
+    deserializer: D,
+) -> Result<Versioned<Versioned<(FieldElement, InnerCurveScalar), 1>, 1>, D::Error>
+where
+    D: Deserializer<'de>,
+{
+    let signature =
+        Versioned::<Versioned<(FieldElement, InnerCurveScalar), 1>, 1>::deserialize(deserializer)?;
+    check_signature(&signature.t.t).map_err(<D::Error as serde::de::Error>::custom)?;
+    Ok(signature)
+}
+
+fn check_signature((rx, s): &(FieldElement, InnerCurveScalar)) -> Result<(), FieldHelpersError> {
+    BaseField::from_bytes(rx)?;
+    ScalarField::from_bytes(s)?;
+    Ok(())
+}
+
 mod conversions {
     use super::*;
     use proof_systems::mina_signer::{BaseField, CompressedPubKey, ScalarField, Signature};
-- 
2.43.0


From 12e3780f31596a1adfece5ff3d945d25bca50aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:24 +0000
Subject: [PATCH 39/52] fix: refuse polyvar tags that are no OCaml integers

---
 protocol/bin-prot/src/error.rs    | 7 +++++++
 protocol/bin-prot/src/read_ext.rs | 6 +++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/protocol/bin-prot/src/error.rs b/protocol/bin-prot/src/error.rs
index 0f1099c..21644b9 100644
--- a/protocol/bin-prot/src/error.rs
+++ b/protocol/bin-prot/src/error.rs
@@ -108,6 +108,13 @@ pub enum Error {
     #[error("Unimplemented rule")]
     UnimplementedRule,
 
+    /// Encountered a polyvar tag that is not an OCaml integer
+    #[error("Invalid polyvar tag detected. The lowest bit must be set, got {got:#010x}")]
+    InvalidPolyvarTag {
+        /// Invalid tag encountered
+        got: u32,
+    },
+
     /// When deserializing a polyvar the tag does not match any known tags for the type
     #[error("Unrecognised Polyvar tag {0}")]
     UnknownPolyvarTag(u32),
diff --git a/protocol/bin-prot/src/read_ext.rs b/protocol/bin-prot/src/read_ext.rs
index e9bcc06..b20c6dc 100644
--- a/protocol/bin-prot/src/read_ext.rs
+++ b/protocol/bin-prot/src/read_ext.rs
@@ -113,7 +113,11 @@ pub trait ReadBinProtExt: io::Read {
     fn bin_read_polyvar_tag(&mut self) -> Result<u32> {
         let mut buf = [0_u8; 4];
         self.read_exact(&mut buf)?;
-        Ok(u32::from_le_bytes(buf) >> 1)
+        let tag = u32::from_le_bytes(buf);
+        if tag & 1 == 0 {
+            return Err(Error::InvalidPolyvarTag { got: tag });
+        }
+        Ok(tag >> 1)
     }
 
     /// Read a string
-- 
2.43.0


From 701a0e5d1a8a0f6c76a699b0eeff0f460beefc86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:23 +0000
Subject: [PATCH 40/52] fix: read the vesting period of a main net account
 before its increment

---
 protocol/serialization-types/src/account.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/protocol/serialization-types/src/account.rs b/protocol/serialization-types/src/account.rs
index 4b8506f..987a154 100644
--- a/protocol/serialization-types/src/account.rs
+++ b/protocol/serialization-types/src/account.rs
@@ -192,10 +192,10 @@ pub struct TimedData {
     pub cliff_time: BlockTimeV1,
     /// Amount extra available when fully fested
     pub cliff_amount: AmountV1,
-    /// Amount released in each vesting period
-    pub vesting_increment: AmountV1,
     /// Period in whcih allocation is released in chunks
     pub vesting_period: BlockTimeV1,
+    /// Amount released in each vesting period
+    pub vesting_increment: AmountV1,
 }
 
 /// TODO
-- 
2.43.0


From 78be5069306064615d06817a758d1e7987a3e2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:34 +0000
Subject: [PATCH 41/52] fix: read the token permissions and balance of main net
 accounts as they are stored

---
 base/src/account/token_permissions.rs       |  1 +
 protocol/serialization-types/src/account.rs | 26 +++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/base/src/account/token_permissions.rs b/base/src/account/token_permissions.rs
index a7a104c..8db5341 100644
--- a/base/src/account/token_permissions.rs
+++ b/base/src/account/token_permissions.rs
@@ -9,6 +9,7 @@ use proof_systems::{bitvec::prelude::BitVec, ChunkedROInput, ToChunkedROInput};
 /// FIXME: Need to learn exactly what this is..
 #[derive(Clone, Debug, AutoFrom)]
 #[auto_from(mina_serialization_types::account::TokenPermissions)]
+#[auto_from(mina_serialization_types::account::TokenPermissionsLegacy)]
 pub enum TokenPermissions {
     /// Account does not own a token
     NotOwned {
diff --git a/protocol/serialization-types/src/account.rs b/protocol/serialization-types/src/account.rs
index 987a154..ae7c12f 100644
--- a/protocol/serialization-types/src/account.rs
+++ b/protocol/serialization-types/src/account.rs
@@ -7,7 +7,10 @@
 
 use crate::{
     signatures::CompressedCurvePoint,
-    v1::{AccountNonceV1, AmountV1, BlockTimeV1, HashV1, PublicKey2V1, PublicKeyV1, TokenIdV1},
+    v1::{
+        AccountNonceV1, AmountV1, BlockTimeV1, ExtendedU64_3, HashV1, PublicKey2V1, PublicKeyV1,
+        TokenIdV1,
+    },
 };
 use serde::{Deserialize, Serialize};
 use versioned::Versioned;
@@ -22,7 +25,7 @@ pub struct Account {
     /// Permission associated with the given token
     pub token_permissions: TokenPermissionsV1,
     /// Balance of token held by account
-    pub balance: AmountV1,
+    pub balance: ExtendedU64_3,
     /// Nonce (incremented with each tx to prevent replay)
     pub nonce: AccountNonceV1,
     /// ?
@@ -90,8 +93,23 @@ pub enum TokenPermissions {
     },
 }
 
-///
-pub type TokenPermissionsV1 = Versioned<Versioned<TokenPermissions, 1>, 1>;
+/// Permission associated with the token of a main net account
+#[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
+pub enum TokenPermissionsLegacy {
+    /// Account owns a token
+    TokenOwned {
+        /// ?
+        disable_new_accounts: bool,
+    },
+    /// Account does not own a token
+    NotOwned {
+        /// ?
+        account_disabled: bool,
+    },
+}
+
+/// Permission associated with the token of a main net account (v1)
+pub type TokenPermissionsV1 = Versioned<TokenPermissionsLegacy, 1>;
 
 /// Permissions associated with the account
 #[derive(Clone, Debug, Serialize, Deserialize, Eq, PartialEq)]
-- 
2.43.0


From 11d0514b8bbb2f7a9d39594bd8ce71306656f03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:34 +0000
Subject: [PATCH 42/52] fix: pass on an error of the database while iterating
 the accounts of a ledger

---
 ledger/src/rocksdb_genesis_ledger.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ledger/src/rocksdb_genesis_ledger.rs b/ledger/src/rocksdb_genesis_ledger.rs
index 3516fd3..09843ba 100644
--- a/ledger/src/rocksdb_genesis_ledger.rs
+++ b/ledger/src/rocksdb_genesis_ledger.rs
@@ -80,7 +80,7 @@ impl<'a, const DEPTH: usize, Account: Hashable + BinProtSerializationType<'a> +
                 if let Ok((k, _)) = r {
                     k.first() == Some(&ACCOUNT_PREFIX)
                 } else {
-                    false
+                    true // An error is passed on, it is not the end of the accounts
                 }
             }); // Ensures the iterator stops when the prefix stops matching
 
-- 
2.43.0


From a996470b99fd95c65e7603b37d04698beb769cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:15 +0000
Subject: [PATCH 43/52] fix: keep the frontier and the network from waiting for
 each other

---
 network/src/processor/processor_impl.rs | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/network/src/processor/processor_impl.rs b/network/src/processor/processor_impl.rs
index d7d95f7..50d80bf 100644
--- a/network/src/processor/processor_impl.rs
+++ b/network/src/processor/processor_impl.rs
@@ -76,11 +76,25 @@ where
     /// to the [NonConsensusNetworkingOps]
     async fn run_query_block_loop(&self) {
         let mut query_block_request_receiver = self.query_block_request_receiver.write().await;
-        while let Some(request) = query_block_request_receiver.recv().await {
-            let mut nonconsensus_ops = self.nonconsensus_ops.write().await;
-            if let Err(err) = nonconsensus_ops.query_block(&request).await {
-                error!("{err}");
+        // Requests are taken from the [TransitionFrontier] before they can be served: it must not
+        // wait for the network, which may itself be waiting for it to take a block
+        let (sender, mut requests) = mpsc::unbounded_channel();
+        tokio::join!(
+            async move {
+                while let Some(request) = query_block_request_receiver.recv().await {
+                    if sender.send(request).is_err() {
+                        break;
+                    }
+                }
+            },
+            async {
+                while let Some(request) = requests.recv().await {
+                    let mut nonconsensus_ops = self.nonconsensus_ops.write().await;
+                    if let Err(err) = nonconsensus_ops.query_block(&request).await {
+                        error!("{err}");
+                    }
+                }
             }
-        }
+        );
     }
 }
-- 
2.43.0


From 065be72dbaf9da8af49b0e7c180f2c6ac7383dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:31 +0000
Subject: [PATCH 44/52] fix: refuse wallets with a nonce of the wrong length or
 without a secret instead of panicking

---
 secrets/src/secret_box/types_impls.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 7da3cef..82bb438 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -109,6 +109,9 @@ impl SecretBox {
 
     /// Gets raw bytes(little-endian) of the private key from the wallet with a password
     pub fn get_private_key_bytes(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
+        if self.nonce.len() != xsalsa20poly1305::NONCE_SIZE {
+            return Err(Error::AeadError("Invalid nonce length".into()));
+        }
         let secret = self.try_gen_secret(password)?;
         let key = GenericArray::from_slice(secret.as_slice());
         let cipher = XSalsa20Poly1305::new(key);
@@ -118,6 +121,9 @@ impl SecretBox {
                 self.ciphertext.as_ref(),
             )
             .map_err(|e| Error::AeadError(format!("{}", e)))?;
+        if bytes.is_empty() {
+            return Err(Error::AeadError("Empty secret".into()));
+        }
         bytes.remove(0);
         Ok(bytes)
     }
-- 
2.43.0


From a45eb085e29cbcc6bcaef1cc9b2c00200be1bb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:46 +0000
Subject: [PATCH 45/52] fix: refuse wallets with limits that are out of range
 instead of cutting them

---
 secrets/src/secret_box/types_impls.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/secrets/src/secret_box/types_impls.rs b/secrets/src/secret_box/types_impls.rs
index 82bb438..7afafef 100644
--- a/secrets/src/secret_box/types_impls.rs
+++ b/secrets/src/secret_box/types_impls.rs
@@ -29,7 +29,8 @@ impl TryFrom<SecretBoxJson> for SecretBox {
             nonce: base58_decode(json.nonce)?,
             pwsalt,
             pw_mem_limit_bytes: json.pwdiff[0],
-            pw_ops_limit: json.pwdiff[1] as u32,
+            pw_ops_limit: u32::try_from(json.pwdiff[1])
+                .map_err(|e| Error::Argon2Error(format!("Invalid ops limit: {}", e)))?,
             ciphertext: base58_decode(json.ciphertext)?,
         })
     }
@@ -84,9 +85,11 @@ impl TryInto<serde_json::Value> for SecretBox {
 
 impl SecretBox {
     pub(super) fn try_gen_secret(&self, password: impl AsRef<[u8]>) -> Result<Vec<u8>, Error> {
+        let m_cost = u32::try_from(self.pw_mem_limit_bytes / 1024)
+            .map_err(|e| Error::Argon2Error(format!("Invalid memory limit: {}", e)))?;
         let hasher = (move || {
             let mut param_builder = ParamsBuilder::new();
-            param_builder.m_cost((self.pw_mem_limit_bytes / 1024) as u32)?;
+            param_builder.m_cost(m_cost)?;
             param_builder.t_cost(self.pw_ops_limit)?;
             Ok(Argon2::new(
                 argon2::Algorithm::Argon2i,
-- 
2.43.0


From 2bcf801c9f9f9c777574562dbb00b14c267cce0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:47 +0000
Subject: [PATCH 46/52] fix: a failed request or an answer that is no JSON
 panicked in the functions of the wasm apps that manage accounts and payments

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 18 ++++++++---------
 apps/wasm/mvp/src/payment.rs              | 24 +++++++++++------------
 2 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 92c57ca..589f769 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -86,9 +86,9 @@ pub async fn lock_account(endpoint: String, pub_key: String) -> Result<String, J
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -109,9 +109,9 @@ pub async fn unlock_account(
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -128,8 +128,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 9086659..3cd2768 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -86,9 +86,9 @@ pub async fn account_info(pub_key: String) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -106,9 +106,9 @@ pub async fn lock_account(pub_key: String) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -125,9 +125,9 @@ pub async fn unlock_account(pub_key: String, password: String) -> Result<String,
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
 
@@ -144,8 +144,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
         .json(&serde_json::json!({ "query": query }))
         .send()
         .await
-        .unwrap();
-    let resp_text = res.text().await.unwrap();
-    let resp: serde_json::Value = serde_json::from_str(&resp_text).unwrap();
+        .map_err(map_js_err)?;
+    let resp_text = res.text().await.map_err(map_js_err)?;
+    let resp: serde_json::Value = serde_json::from_str(&resp_text).map_err(map_js_err)?;
     Ok(resp.to_string())
 }
-- 
2.43.0


From 5503d63e98581b3d62595b371165be5fb525104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:17 +0000
Subject: [PATCH 47/52] fix: quotes and backslashes in a password, key or
 address changed what the wasm apps ask of the node

---
 apps/wasm/mina-berkeley/src/js_exports.rs | 12 ++++++------
 apps/wasm/mina-berkeley/src/utils.rs      |  5 +++++
 apps/wasm/mvp/src/payment.rs              | 16 ++++++++--------
 apps/wasm/mvp/src/utils.rs                |  5 +++++
 4 files changed, 24 insertions(+), 14 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 589f769..c84c736 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -77,9 +77,9 @@ pub async fn lock_account(endpoint: String, pub_key: String) -> Result<String, J
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            lockAccount(input: {{publicKey: \"{}\"}}) {{    account {{      locked    }}  }}
+            lockAccount(input: {{publicKey: {}}}) {{    account {{      locked    }}  }}
         }}",
-        pub_key
+        to_graphql_string(&pub_key)
     );
     let res = client
         .post(endpoint)
@@ -101,8 +101,8 @@ pub async fn unlock_account(
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            unlockAccount(input: {{publicKey: \"{}\", password: \"{}\"}}) {{    account {{      locked    }}  }}
-        }}", pub_key, password
+            unlockAccount(input: {{publicKey: {}, password: {}}}) {{    account {{      locked    }}  }}
+        }}", to_graphql_string(&pub_key), to_graphql_string(&password)
     );
     let res = client
         .post(endpoint)
@@ -120,8 +120,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: \"{}\", from: \"{}\"}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, payment.to(), payment.from()
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, to_graphql_string(&payment.to()), to_graphql_string(&payment.from())
     );
     let res = client
         .post(endpoint)
diff --git a/apps/wasm/mina-berkeley/src/utils.rs b/apps/wasm/mina-berkeley/src/utils.rs
index 49ad2e1..944d61e 100644
--- a/apps/wasm/mina-berkeley/src/utils.rs
+++ b/apps/wasm/mina-berkeley/src/utils.rs
@@ -10,6 +10,11 @@ pub fn err_to_js_error<T: Display>(err: T) -> JsError {
     JsError::new(err.to_string().as_str())
 }
 
+/// Quotes and escapes a text as GraphQL does, which is as JSON does
+pub(crate) fn to_graphql_string(text: &str) -> String {
+    serde_json::Value::from(text).to_string()
+}
+
 pub(crate) fn map_js_err<T: Display>(err: T) -> JsError {
     JsError::new(&format!("{err}"))
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 3cd2768..4d590d5 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -77,9 +77,9 @@ pub async fn account_info(pub_key: String) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "query MyQuery {{  
-            account(publicKey: \"{}\") {{ balance {{ total }} inferredNonce locked  }}
+            account(publicKey: {}) {{ balance {{ total }} inferredNonce locked  }}
         }}",
-        pub_key
+        to_graphql_string(&pub_key)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -97,9 +97,9 @@ pub async fn lock_account(pub_key: String) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            lockAccount(input: {{publicKey: \"{}\"}}) {{    account {{      locked    }}  }}
+            lockAccount(input: {{publicKey: {}}}) {{    account {{      locked    }}  }}
         }}",
-        pub_key
+        to_graphql_string(&pub_key)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -117,8 +117,8 @@ pub async fn unlock_account(pub_key: String, password: String) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            unlockAccount(input: {{publicKey: \"{}\", password: \"{}\"}}) {{    account {{      locked    }}  }}
-        }}", pub_key, password
+            unlockAccount(input: {{publicKey: {}, password: {}}}) {{    account {{      locked    }}  }}
+        }}", to_graphql_string(&pub_key), to_graphql_string(&password)
     );
     let res = client
         .post("http://localhost:3085/graphql")
@@ -136,8 +136,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: \"{}\", from: \"{}\"}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, payment.to(), payment.from()
+            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
+        }}", payment.fee_u64()?, payment.amount_u64()?, to_graphql_string(&payment.to()), to_graphql_string(&payment.from())
     );
     let res = client
         .post("http://localhost:3085/graphql")
diff --git a/apps/wasm/mvp/src/utils.rs b/apps/wasm/mvp/src/utils.rs
index 97e6689..a5eb457 100644
--- a/apps/wasm/mvp/src/utils.rs
+++ b/apps/wasm/mvp/src/utils.rs
@@ -30,6 +30,11 @@ export type UInt32 = number | bigint | string;
 export type UInt64 = number | bigint | string;
 "#;
 
+/// Quotes and escapes a text as GraphQL does, which is as JSON does
+pub(crate) fn to_graphql_string(text: &str) -> String {
+    serde_json::Value::from(text).to_string()
+}
+
 pub(crate) fn map_js_err<T: Display>(err: T) -> JsError {
     JsError::new(&format!("{err}"))
 }
-- 
2.43.0


From 8a057b7eb431ac04701b2f9b1fb12b2301f44720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:43 +0000
Subject: [PATCH 48/52] fix: the nonce, memo and validity of a payment were
 dropped by the wasm apps, and a nonce of another kind than number was misread

---
 apps/wasm/mina-berkeley/src/js_exports.rs |  4 +-
 apps/wasm/mina-berkeley/src/payment.rs    | 50 ++++++++++++++++-----
 apps/wasm/mvp/src/payment.rs              | 54 +++++++++++++++++------
 3 files changed, 82 insertions(+), 26 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index c84c736..05d80f1 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -120,8 +120,8 @@ pub async fn send_payment(endpoint: String, payment: Payment) -> Result<String,
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, to_graphql_string(&payment.to()), to_graphql_string(&payment.from())
+            sendPayment(input: {{{}}}) {{    payment {{      id    }}  }}
+        }}", payment.to_graphql_input()?
     );
     let res = client
         .post(endpoint)
diff --git a/apps/wasm/mina-berkeley/src/payment.rs b/apps/wasm/mina-berkeley/src/payment.rs
index 1c2bc1a..ac57424 100644
--- a/apps/wasm/mina-berkeley/src/payment.rs
+++ b/apps/wasm/mina-berkeley/src/payment.rs
@@ -39,7 +39,7 @@ extern "C" {
     pub fn amount(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
-    pub fn nonce(this: &Payment) -> Option<u32>;
+    pub fn nonce(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
     pub fn memo(this: &Payment) -> Option<String>;
@@ -57,17 +57,45 @@ impl Payment {
         js_to_string(&self.amount()).parse().map_err(map_js_err)
     }
 
+    pub fn nonce_u32(&self) -> Result<Option<u32>, JsError> {
+        optional_u32(&self.nonce())
+    }
+
     pub fn valid_until_u32(&self) -> Result<Option<u32>, JsError> {
-        let valid_until = self.valid_until();
-        if valid_until.is_null() || valid_until.is_undefined() {
-            Ok(None)
-        } else {
-            let s = js_to_string(&valid_until);
-            if s.is_empty() {
-                Ok(None)
-            } else {
-                Ok(Some(s.parse().map_err(map_js_err)?))
-            }
+        optional_u32(&self.valid_until())
+    }
+
+    /// The members of the input of the `sendPayment` mutation
+    pub fn to_graphql_input(&self) -> Result<String, JsError> {
+        let mut input = format!(
+            "fee: \"{}\", amount: \"{}\", to: {}, from: {}",
+            self.fee_u64()?,
+            self.amount_u64()?,
+            to_graphql_string(&self.to()),
+            to_graphql_string(&self.from())
+        );
+        if let Some(nonce) = self.nonce_u32()? {
+            input.push_str(&format!(", nonce: \"{nonce}\""));
+        }
+        if let Some(memo) = self.memo() {
+            input.push_str(&format!(", memo: {}", to_graphql_string(&memo)));
         }
+        if let Some(valid_until) = self.valid_until_u32()? {
+            input.push_str(&format!(", validUntil: \"{valid_until}\""));
+        }
+        Ok(input)
+    }
+}
+
+// u32 can be number, bigint or string in js as well
+fn optional_u32(v: &JsValue) -> Result<Option<u32>, JsError> {
+    if v.is_null() || v.is_undefined() {
+        return Ok(None);
+    }
+    let s = js_to_string(v);
+    if s.is_empty() {
+        Ok(None)
+    } else {
+        Ok(Some(s.parse().map_err(map_js_err)?))
     }
 }
diff --git a/apps/wasm/mvp/src/payment.rs b/apps/wasm/mvp/src/payment.rs
index 4d590d5..821e167 100644
--- a/apps/wasm/mvp/src/payment.rs
+++ b/apps/wasm/mvp/src/payment.rs
@@ -39,7 +39,7 @@ extern "C" {
     pub fn amount(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
-    pub fn nonce(this: &Payment) -> Option<u32>;
+    pub fn nonce(this: &Payment) -> JsValue;
 
     #[wasm_bindgen(method, getter)]
     pub fn memo(this: &Payment) -> Option<String>;
@@ -57,18 +57,46 @@ impl Payment {
         js_to_string(&self.amount()).parse().map_err(map_js_err)
     }
 
+    pub fn nonce_u32(&self) -> Result<Option<u32>, JsError> {
+        optional_u32(&self.nonce())
+    }
+
     pub fn valid_until_u32(&self) -> Result<Option<u32>, JsError> {
-        let valid_until = self.valid_until();
-        if valid_until.is_null() || valid_until.is_undefined() {
-            Ok(None)
-        } else {
-            let s = js_to_string(&valid_until);
-            if s.is_empty() {
-                Ok(None)
-            } else {
-                Ok(Some(s.parse().map_err(map_js_err)?))
-            }
+        optional_u32(&self.valid_until())
+    }
+
+    /// The members of the input of the `sendPayment` mutation
+    pub fn to_graphql_input(&self) -> Result<String, JsError> {
+        let mut input = format!(
+            "fee: \"{}\", amount: \"{}\", to: {}, from: {}",
+            self.fee_u64()?,
+            self.amount_u64()?,
+            to_graphql_string(&self.to()),
+            to_graphql_string(&self.from())
+        );
+        if let Some(nonce) = self.nonce_u32()? {
+            input.push_str(&format!(", nonce: \"{nonce}\""));
+        }
+        if let Some(memo) = self.memo() {
+            input.push_str(&format!(", memo: {}", to_graphql_string(&memo)));
         }
+        if let Some(valid_until) = self.valid_until_u32()? {
+            input.push_str(&format!(", validUntil: \"{valid_until}\""));
+        }
+        Ok(input)
+    }
+}
+
+// u32 can be number, bigint or string in js as well
+fn optional_u32(v: &JsValue) -> Result<Option<u32>, JsError> {
+    if v.is_null() || v.is_undefined() {
+        return Ok(None);
+    }
+    let s = js_to_string(v);
+    if s.is_empty() {
+        Ok(None)
+    } else {
+        Ok(Some(s.parse().map_err(map_js_err)?))
     }
 }
 
@@ -136,8 +164,8 @@ pub async fn send_payment(payment: Payment) -> Result<String, JsError> {
     let client = reqwest::Client::new();
     let query: String = format!(
         "mutation MyMutation {{  
-            sendPayment(input: {{fee: \"{}\", amount: \"{}\", to: {}, from: {}}}) {{    payment {{      id    }}  }}
-        }}", payment.fee_u64()?, payment.amount_u64()?, to_graphql_string(&payment.to()), to_graphql_string(&payment.from())
+            sendPayment(input: {{{}}}) {{    payment {{      id    }}  }}
+        }}", payment.to_graphql_input()?
     );
     let res = client
         .post("http://localhost:3085/graphql")
-- 
2.43.0


From 9d55c315f12f5a2cf8e8a44b8a42d91a2f3af45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:07 +0000
Subject: [PATCH 49/52] fix: the wasm app read the end of a stream of node
 statuses over and over, without end

---
 apps/wasm/mvp/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index 225db0a..f722310 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -155,6 +155,7 @@ impl RequestResponseCodec for NodeStatusCodec {
         loop {
             let mut line = String::new();
             match reader.read_line(&mut line).await {
+                Ok(0) => break,
                 Ok(n) => {
                     let line = line.trim();
                     if !line.is_empty() {
-- 
2.43.0


From 6df1a06532ce5d252fb26088d4a22a49ecdaba46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:07 +0000
Subject: [PATCH 50/52] fix: connecting to an address that is no multiaddress
 panicked in the wasm app

---
 apps/wasm/mvp/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index f722310..1c75b51 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -34,7 +34,7 @@ async fn connect_async(request: &ConnectRequest) -> anyhow::Result<CommonRespons
         builder.build()?
     };
 
-    let parsed_addr: Multiaddr = request.address.parse().unwrap();
+    let parsed_addr: Multiaddr = request.address.parse()?;
     log::info!(
         "[WASM] Connecting to proxy server via ws {} ... ",
         request.address
-- 
2.43.0


From 35283245239104cf88ca6ceaa5710a4661ec64fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:38 +0000
Subject: [PATCH 51/52] fix: a dial that failed was reported as a success by
 the wasm app

---
 apps/wasm/mvp/src/lib.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/apps/wasm/mvp/src/lib.rs b/apps/wasm/mvp/src/lib.rs
index 1c75b51..ba5e093 100644
--- a/apps/wasm/mvp/src/lib.rs
+++ b/apps/wasm/mvp/src/lib.rs
@@ -58,13 +58,14 @@ async fn connect_async(request: &ConnectRequest) -> anyhow::Result<CommonRespons
                 }
             }
         }
-        Err(e) => log::error!("[WASM] Fail to dail: {}", e),
+        Err(e) => {
+            log::error!("[WASM] Fail to dail: {}", e);
+            let mut r = CommonResponse::new();
+            r.success = false;
+            r.error_message = format!("Fail to dial: {e}");
+            Ok(r)
+        }
     }
-    Ok({
-        let mut r = CommonResponse::new();
-        r.success = true;
-        r
-    })
 }
 
 #[derive(NetworkBehaviour)]
-- 
2.43.0


From 718b6b8bc30927387a7f0c69a86ae45e61ce7e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:23 +0000
Subject: [PATCH 52/52] fix: return an error for API urls and accounts that are
 not strings

setApiList and setTrackingAccounts of the berkeley light node panicked on them, which ends the wasm instance.
---
 apps/wasm/mina-berkeley/src/js_exports.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/apps/wasm/mina-berkeley/src/js_exports.rs b/apps/wasm/mina-berkeley/src/js_exports.rs
index 05d80f1..b55011b 100644
--- a/apps/wasm/mina-berkeley/src/js_exports.rs
+++ b/apps/wasm/mina-berkeley/src/js_exports.rs
@@ -17,8 +17,12 @@ pub async fn run_processor() {
 pub async fn set_api_list(api_urls: Array) -> Result<bool, JsError> {
     let mut backend = frontier::PROCESSOR_BERKELEY.nonconsensus_ops_mut().await;
     let api_vec = api_urls.to_vec();
-    let api_list = api_vec.iter().map(|url| url.as_string().unwrap());
-    backend.set_api_list(api_list);
+    let api_list: Vec<String> = api_vec
+        .iter()
+        .map(|url| url.as_string())
+        .collect::<Option<_>>()
+        .ok_or_else(|| JsError::new("API url should be a string"))?;
+    backend.set_api_list(api_list.into_iter());
     Ok(true)
 }
 
@@ -26,8 +30,12 @@ pub async fn set_api_list(api_urls: Array) -> Result<bool, JsError> {
 pub async fn set_tracking_accounts(accounts: Array) -> Result<bool, JsError> {
     let mut backend = frontier::PROCESSOR_BERKELEY.nonconsensus_ops_mut().await;
     let acc_vec = accounts.to_vec();
-    let account_list = acc_vec.iter().map(|acc| acc.as_string().unwrap());
-    backend.set_tracking_accounts(account_list);
+    let account_list: Vec<String> = acc_vec
+        .iter()
+        .map(|acc| acc.as_string())
+        .collect::<Option<_>>()
+        .ok_or_else(|| JsError::new("account should be a string"))?;
+    backend.set_tracking_accounts(account_list.into_iter());
     Ok(true)
 }
 
-- 
2.43.0

