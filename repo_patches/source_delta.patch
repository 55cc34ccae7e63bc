From d6c704320d1f1554f6c25891126b0fae47367eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:38 +0000
Subject: [PATCH 1/6] fix: buffered empty tuple variant is an empty sequence,
 not a unit

---
 src/content.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index d128bc5..f9d07b9 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -883,16 +883,12 @@ where
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(de::Error::invalid_length(len, &"fewer elements in array"))
-            }
+            Err(de::Error::invalid_length(len, &"fewer elements in array"))
         }
     }
 
-- 
2.43.0


From 686c8a7bd625c1768c39af5d9da571102955c6f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 2/6] fix: reject surplus entries of a buffered struct variant

---
 src/content.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index f9d07b9..929c368 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -916,7 +916,7 @@ where
     }
 }
 
-struct MapDeserializer<'de, E>
+pub(crate) struct MapDeserializer<'de, E>
 where
     E: de::Error,
 {
@@ -929,13 +929,26 @@ impl<'de, E> MapDeserializer<'de, E>
 where
     E: de::Error,
 {
-    fn new(map: Vec<(Content<'de>, Content<'de>)>) -> Self {
+    pub(crate) fn new(map: Vec<(Content<'de>, Content<'de>)>) -> Self {
         MapDeserializer {
             iter: map.into_iter(),
             value: None,
             err: PhantomData,
         }
     }
+
+    // Check for entries left over after the visitor is done with the map.
+    pub(crate) fn end(self) -> Result<(), E> {
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(())
+        } else {
+            Err(de::Error::invalid_length(
+                remaining,
+                &"fewer entries in map",
+            ))
+        }
+    }
 }
 
 impl<'de, E> MapAccess<'de> for MapDeserializer<'de, E>
@@ -975,11 +988,13 @@ where
     type Error = E;
 
     #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_map(self)
+        let ret = visitor.visit_map(&mut self)?;
+        self.end()?;
+        Ok(ret)
     }
 
     forward_to_deserialize_any! {
-- 
2.43.0


From 6ca5ba202706ac00d4ffc488727ec3320e820788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:02 +0000
Subject: [PATCH 3/6] fix: internally tagged object whose tag is not first
 reads the same value forms as when it is first

---
 src/internally.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index 84f865b..9ef25f3 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -1,4 +1,4 @@
-use crate::content::Content;
+use crate::content::{Content, MapDeserializer};
 use crate::de::{FnApply, MapLookupVisitor};
 use crate::private::Registry;
 use crate::ser::{InternallyTaggedSerializer, Wrap};
@@ -8,8 +8,7 @@ use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
 use serde::de::{
-    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, IntoDeserializer, MapAccess,
-    VariantAccess, Visitor,
+    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, VariantAccess, Visitor,
 };
 use serde::forward_to_deserialize_any;
 use serde::ser::{Serialize, Serializer};
@@ -120,9 +119,12 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
             },
         };
 
+        // Present the buffered entries the same way as if the tag came first.
         let fn_apply = FnApply { deserialize_fn };
-        let content = Content::Map(entries).into_deserializer();
-        fn_apply.deserialize(content)
+        let mut rest = MapDeserializer::new(entries);
+        let ret = fn_apply.deserialize(MapWithStringKeys { map: &mut rest })?;
+        rest.end()?;
+        Ok(ret)
     }
 }
 
-- 
2.43.0


From ee9b32d387476658bb2f583eb02deedfcd2152cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:03 +0000
Subject: [PATCH 4/6] fix: buffer 128-bit integers

---
 src/content.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/content.rs b/src/content.rs
index 929c368..fd432a4 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -20,11 +20,13 @@ pub enum Content<'de> {
     U16(u16),
     U32(u32),
     U64(u64),
+    U128(u128),
 
     I8(i8),
     I16(i16),
     I32(i32),
     I64(i64),
+    I128(i128),
 
     F32(f32),
     F64(f64),
@@ -56,6 +58,7 @@ impl<'de> Content<'de> {
             Content::I16(n) => Unexpected::Signed(i64::from(n)),
             Content::I32(n) => Unexpected::Signed(i64::from(n)),
             Content::I64(n) => Unexpected::Signed(n),
+            Content::U128(_) | Content::I128(_) => Unexpected::Other("128-bit integer"),
             Content::F32(f) => Unexpected::Float(f64::from(f)),
             Content::F64(f) => Unexpected::Float(f),
             Content::Char(c) => Unexpected::Char(c),
@@ -130,6 +133,13 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
         Ok(Content::I64(value))
     }
 
+    fn visit_i128<F>(self, value: i128) -> Result<Self::Value, F>
+    where
+        F: de::Error,
+    {
+        Ok(Content::I128(value))
+    }
+
     fn visit_u8<F>(self, value: u8) -> Result<Self::Value, F>
     where
         F: de::Error,
@@ -158,6 +168,13 @@ impl<'de> Visitor<'de> for ContentVisitor<'de> {
         Ok(Content::U64(value))
     }
 
+    fn visit_u128<F>(self, value: u128) -> Result<Self::Value, F>
+    where
+        F: de::Error,
+    {
+        Ok(Content::U128(value))
+    }
+
     fn visit_f32<F>(self, value: f32) -> Result<Self::Value, F>
     where
         F: de::Error,
@@ -325,10 +342,12 @@ where
             Content::U16(v) => visitor.visit_u16(v),
             Content::U32(v) => visitor.visit_u32(v),
             Content::U64(v) => visitor.visit_u64(v),
+            Content::U128(v) => visitor.visit_u128(v),
             Content::I8(v) => visitor.visit_i8(v),
             Content::I16(v) => visitor.visit_i16(v),
             Content::I32(v) => visitor.visit_i32(v),
             Content::I64(v) => visitor.visit_i64(v),
+            Content::I128(v) => visitor.visit_i128(v),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -379,10 +398,12 @@ where
             Content::U16(v) => visitor.visit_u16(v),
             Content::U32(v) => visitor.visit_u32(v),
             Content::U64(v) => visitor.visit_u64(v),
+            Content::U128(v) => visitor.visit_u128(v),
             Content::I8(v) => visitor.visit_i8(v),
             Content::I16(v) => visitor.visit_i16(v),
             Content::I32(v) => visitor.visit_i32(v),
             Content::I64(v) => visitor.visit_i64(v),
+            Content::I128(v) => visitor.visit_i128(v),
             Content::F32(v) => visitor.visit_f32(v),
             Content::F64(v) => visitor.visit_f64(v),
             Content::Char(v) => visitor.visit_char(v),
@@ -437,6 +458,13 @@ where
         self.deserialize_integer(visitor)
     }
 
+    fn deserialize_i128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_integer(visitor)
+    }
+
     fn deserialize_u8<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
@@ -465,6 +493,13 @@ where
         self.deserialize_integer(visitor)
     }
 
+    fn deserialize_u128<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.deserialize_integer(visitor)
+    }
+
     fn deserialize_f32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
-- 
2.43.0


From cac4e3c4454e01d5ca575cf0219b8c43c70305ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:23 +0000
Subject: [PATCH 5/6] fix: buffered numbers answer float and identifier
 requests like the format does

---
 src/content.rs | 35 ++++++++++++++++++++++-------------
 1 file changed, 22 insertions(+), 13 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index fd432a4..1812c89 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -351,6 +351,25 @@ where
             _ => Err(self.invalid_type(&visitor)),
         }
     }
+
+    fn deserialize_float<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.content {
+            Content::F32(v) => visitor.visit_f32(v),
+            Content::F64(v) => visitor.visit_f64(v),
+            Content::U8(v) => visitor.visit_u8(v),
+            Content::U16(v) => visitor.visit_u16(v),
+            Content::U32(v) => visitor.visit_u32(v),
+            Content::U64(v) => visitor.visit_u64(v),
+            Content::I8(v) => visitor.visit_i8(v),
+            Content::I16(v) => visitor.visit_i16(v),
+            Content::I32(v) => visitor.visit_i32(v),
+            Content::I64(v) => visitor.visit_i64(v),
+            _ => Err(self.invalid_type(&visitor)),
+        }
+    }
 }
 
 fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
@@ -504,25 +523,14 @@ where
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F32(v) => visitor.visit_f32(v),
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -742,6 +750,7 @@ where
             Content::ByteBuf(v) => visitor.visit_byte_buf(v),
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
             Content::U8(v) => visitor.visit_u8(v),
+            Content::U64(v) => visitor.visit_u64(v),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
-- 
2.43.0


From cd104b396c4e72cb04e3665a18194c16691cce35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:40 +0000
Subject: [PATCH 6/6] fix: internally tagged byte string is written as bytes,
 not as a sequence of numbers

---
 src/ser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 9adfbcc..dcdf420 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -25,6 +25,17 @@ where
     }
 }
 
+struct Bytes<'a>(&'a [u8]);
+
+impl<'a> Serialize for Bytes<'a> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        serializer.serialize_bytes(self.0)
+    }
+}
+
 pub struct InternallyTaggedSerializer<S> {
     pub tag: &'static str,
     pub variant: &'static str,
@@ -122,7 +133,7 @@ where
     }
 
     fn serialize_bytes(self, value: &[u8]) -> Result<Self::Ok, Self::Error> {
-        self.serialize_default(value)
+        self.serialize_default(&Bytes(value))
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0

