From e0e69b67d661153bb5fea0ea44b7e0d82b70adcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 1/5] fix: read newtype structs as JSON map keys

The serializer writes a map key wrapped in a newtype struct as the quoted
inner key, but MapKey forwarded newtype structs to deserialize_any, so such
keys could not be read back.
---
 ser-write-json/src/de.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ser-write-json/src/de.rs b/ser-write-json/src/de.rs
index 6fb1043..cdb14f5 100644
--- a/ser-write-json/src/de.rs
+++ b/ser-write-json/src/de.rs
@@ -1443,9 +1443,15 @@ impl<'de, 'a, P> de::Deserializer<'de> for MapKey<'a, 'de, P>
         visitor.visit_enum(UnitVariantAccess { de: self.de })
     }
 
+    fn deserialize_newtype_struct<V>(self, _name: &'static str, visitor: V) -> Result<V::Value>
+        where V: Visitor<'de>
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     forward_to_deserialize_any! {
         i128 u128 f32 f64 string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
+        bytes byte_buf option unit unit_struct seq tuple
         tuple_struct map struct identifier ignored_any
     }
 }
-- 
2.43.0


From f6d6feb199afd559a8a348596ce932303fadea60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 2/5] fix: refuse a collected string shorter than its
 MessagePack header

Without std or alloc the value is formatted twice; a second pass producing
less text than the first one left a header promising more bytes than follow.
---
 ser-write-msgpack/src/ser.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ser-write-msgpack/src/ser.rs b/ser-write-msgpack/src/ser.rs
index 650c822..4c1287d 100644
--- a/ser-write-msgpack/src/ser.rs
+++ b/ser-write-msgpack/src/ser.rs
@@ -569,7 +569,11 @@ impl<'a, W: SerWrite> ser::Serializer for &'a mut $serializer<W>
         let StringLenCounter(len) = col;
         write_str_len(&mut self.output, len)?;
         let mut col = StringCollector::new(len, &mut self.output);
-        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)
+        fmt::write(&mut col, format_args!("{}", value)).map_err(|_| Error::FormatError)?;
+        if col.len != 0 {
+            return Err(Error::FormatError)
+        }
+        Ok(())
     }
 }
 
-- 
2.43.0


From b1d7dc65b94efb5f1aded1301bd9c2fd010e30a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 3/5] fix: do not overflow when skipping MessagePack items on
 32-bit targets

A length close to u32::MAX overflowed the cursor arithmetic where usize is
32 bits wide.
---
 ser-write-msgpack/src/de.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index f906d6b..889875e 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -373,7 +373,7 @@ impl<'de> Deserializer<'de> {
             BIN_32|STR_32 => Single(self.fetch_u32()?.try_into()?),
             EXT_8 => Single(1usize + usize::from(self.fetch_u8()?)),
             EXT_16 => Single(1usize + usize::from(self.fetch_u16()?)),
-            EXT_32 => Single(1usize + usize::try_from(self.fetch_u32()?)?),
+            EXT_32 => Single(usize::try_from(self.fetch_u32()?)?.checked_add(1).ok_or(Error::UnexpectedEof)?),
             FLOAT_32 => Single(4),
             FLOAT_64 => Single(8),
             UINT_8 => Single(1),
@@ -396,11 +396,10 @@ impl<'de> Deserializer<'de> {
         };
         match mtyp {
             Single(len) => {
-                let index = self.index + len;
-                if index > self.input.len() {
+                if len > self.remaining_len() {
                     return Err(Error::UnexpectedEof)
                 }
-                self.index = index;
+                self.index += len;
             }
             Array(len) => self.eat_seq_items(len)?,
             Map(len) => self.eat_map_items(len)?
-- 
2.43.0


From d0d871b7544732a1a99853d8f453c4b70c3cd5eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:10 +0000
Subject: [PATCH 4/5] fix: skip nested MessagePack values without recursion

Every nesting level of a skipped value used a stack frame, so a short hostile
input could overflow the stack.
---
 ser-write-msgpack/src/de.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/ser-write-msgpack/src/de.rs b/ser-write-msgpack/src/de.rs
index 889875e..b63e7b9 100644
--- a/ser-write-msgpack/src/de.rs
+++ b/ser-write-msgpack/src/de.rs
@@ -357,6 +357,17 @@ impl<'de> Deserializer<'de> {
     /// Return `Ok(())` on success or `Err(Error::UnexpectedEof)` if there was not enough data
     /// to fully decode a MessagePack item.
     pub fn eat_message(&mut self) -> Result<()> {
+        let mut pending = 1usize;
+        while pending != 0 {
+            let nested = self.eat_message_item()?;
+            pending = (pending - 1).checked_add(nested).ok_or(Error::UnexpectedEof)?;
+        }
+        Ok(())
+    }
+
+    /// Consume a single item, or only the header of an array or a map, and return
+    /// the number of nested messages that follow.
+    fn eat_message_item(&mut self) -> Result<usize> {
         use MsgType::*;
         let mtyp = match self.fetch()? {
             NIL|
@@ -401,25 +412,10 @@ impl<'de> Deserializer<'de> {
                 }
                 self.index += len;
             }
-            Array(len) => self.eat_seq_items(len)?,
-            Map(len) => self.eat_map_items(len)?
+            Array(len) => return Ok(len),
+            Map(len) => return len.checked_mul(2).ok_or(Error::UnexpectedEof),
         }
-        Ok(())
-    }
-
-    fn eat_seq_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-        }
-        Ok(())
-    }
-
-    fn eat_map_items(&mut self, len: usize) -> Result<()> {
-        for _ in 0..len {
-            self.eat_message()?;
-            self.eat_message()?;
-        }
-        Ok(())
+        Ok(0)
     }
 
 }
-- 
2.43.0


From e245f5bb885e31e2da7233c11e71802c4eba990e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:31 +0000
Subject: [PATCH 5/5] fix: do not overflow computing the base64 encoded length

dcount * 4 exceeds usize::MAX for inputs longer than a third of the address
space, which a 32-bit target can hold. dcount is always a multiple of 3.
---
 ser-write-json/src/base64.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ser-write-json/src/base64.rs b/ser-write-json/src/base64.rs
index b376cd8..aa3b3e4 100644
--- a/ser-write-json/src/base64.rs
+++ b/ser-write-json/src/base64.rs
@@ -126,7 +126,7 @@ pub fn decode(slice: &mut[u8]) -> (usize, usize) {
     }
     match chunks.remainder().iter().try_fold(1, decode_cell) {
         /* no tail */
-        Ok(1) => (dcount, dcount * 4 / 3),
+        Ok(1) => (dcount, dcount / 3 * 4),
         /* some tail */
         Ok(packed)|Err(packed) => handle_tail(dcount, packed, dest)
     }
@@ -139,7 +139,7 @@ fn handle_tail<'a, I>(mut dcount: usize, mut packed: u32, mut dest: I) -> (usize
     let leftovers = (31 - packed.leading_zeros()) / 6;
     packed <<= leftovers*2;
     let mut tail_dcount = leftovers.saturating_sub(1);
-    let ecount = dcount * 4 / 3 + leftovers as usize;
+    let ecount = dcount / 3 * 4 + leftovers as usize;
     dcount += tail_dcount as usize;
     while tail_dcount != 0 {
         dest.next().unwrap().set((packed >> (tail_dcount * 8)) as u8);
-- 
2.43.0

