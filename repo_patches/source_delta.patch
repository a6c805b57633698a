From 7e8d253d50dbd60d58aabb28fd7e97376229d7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:25 +0000
Subject: [PATCH 1/4] fix: validate index and range in replace_range even when
 the edit is empty

An empty replacement of an empty range returned Ok before its bounds were
checked, so try_insert_str(1, "") on a multi-byte char, replace_range past the
end, or insert_str_truncate inside a char of a full string reported success
instead of the documented Utf8/OutOfBounds error.
---
 src/arraystring.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/arraystring.rs b/src/arraystring.rs
index e3d96ae..ba9232c 100644
--- a/src/arraystring.rs
+++ b/src/arraystring.rs
@@ -861,14 +861,14 @@ where
             with.as_ref().len(),
             with.as_ref()
         );
-        if start == end && str.is_empty() {
-            return Ok(());
-        }
         is_inside_boundary(start, end)?;
         is_inside_boundary(end, self.len())?;
         is_inside_boundary(str.len(), Self::capacity())?;
         is_char_boundary(self, start)?;
         is_char_boundary(self, end)?;
+        if start == end && str.is_empty() {
+            return Ok(());
+        }
         // Will never overflow since start < end and str.len() cannot be bigger than 255
         is_inside_boundary(self.len() + str.len() + start - end, Self::capacity())?;
 
-- 
2.43.0


From a0d3daf755f783332244ba3ca60eb184a19c8252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:28 +0000
Subject: [PATCH 2/4] fix: make SmallString the documented size of a String

SmallString is documented to have the same size_of as String (24 bytes on
64 bits, 12 on 32 bits), but the length byte made it one byte larger.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2750339..f2687ae 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -143,7 +143,7 @@ pub use crate::error::Error;
 /// 24 bytes in 64 bits architecture
 ///
 /// 12 bytes in 32 bits architecture
-pub type SmallString = ArrayString<{ core::mem::size_of::<usize>() * 3 }>;
+pub type SmallString = ArrayString<{ core::mem::size_of::<usize>() * 3 - 1 }>;
 
 /// Biggest `ArrayString<N>` supported (255 bytes of text)
 pub type MaxString = ArrayString<255>;
-- 
2.43.0


From e2271efde6d95405076c6fe363dafde2b4af1b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 3/4] fix: deserialize owned and escaped strings like String
 does

Deserialize only accepted borrowed strings, so any JSON text with an escape,
or read from a reader or a Value, failed although the documentation says it
operates like String; a serialized string did not always read back.
---
 src/integration.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/integration.rs b/src/integration.rs
index 9e1b32f..dfca7e4 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -80,6 +80,8 @@ mod serde_impl {
     pub use crate::{arraystring::sealed::ValidCapacity, prelude::*};
     #[cfg(all(feature = "no-panic", not(debug_assertions)))]
     use no_panic::no_panic;
+    use core::{fmt, fmt::Formatter, str};
+    use serde::de::{self, Unexpected, Visitor};
     pub use serde::{de::Deserializer, ser::Serializer, Deserialize, Serialize};
 
     impl<const N: usize> Serialize for ArrayString<N>
@@ -93,6 +95,30 @@ mod serde_impl {
         }
     }
 
+    /// Accepts whatever `String` accepts (borrowed or not), truncating it
+    struct TruncateVisitor<const N: usize>;
+
+    impl<'a, const N: usize> Visitor<'a> for TruncateVisitor<N>
+    where
+        ArrayString<N>: ValidCapacity,
+    {
+        type Value = ArrayString<N>;
+
+        fn expecting(&self, f: &mut Formatter) -> fmt::Result {
+            f.write_str("a string")
+        }
+
+        fn visit_str<E: de::Error>(self, string: &str) -> Result<Self::Value, E> {
+            Ok(ArrayString::from_str_truncate(string))
+        }
+
+        fn visit_bytes<E: de::Error>(self, bytes: &[u8]) -> Result<Self::Value, E> {
+            str::from_utf8(bytes)
+                .map(ArrayString::from_str_truncate)
+                .map_err(|_| E::invalid_value(Unexpected::Bytes(bytes), &self))
+        }
+    }
+
     impl<'a, const N: usize> Deserialize<'a> for ArrayString<N>
     where
         Self: ValidCapacity,
@@ -100,7 +126,7 @@ mod serde_impl {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn deserialize<D: Deserializer<'a>>(des: D) -> Result<Self, D::Error> {
-            <&str>::deserialize(des).map(Self::from_str_truncate)
+            des.deserialize_str(TruncateVisitor)
         }
     }
 
-- 
2.43.0


From 0d5c20fd9a11c7a0b44938f9abcbaa2810caef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:47 +0000
Subject: [PATCH 4/4] fix: load text through String instead of a dangling
 pointer

diesel's *const str implementation is only valid while the value lives, and the value it was given (dropped on return) may own the text: blobs read as text and ill-formed text came back as freed memory, and ill-formed text succeeded where String fails.
---
 src/integration.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/integration.rs b/src/integration.rs
index dfca7e4..ba6b7d4 100644
--- a/src/integration.rs
+++ b/src/integration.rs
@@ -8,6 +8,9 @@ mod diesel_impl {
 
     pub use crate::{arraystring::sealed::ValidCapacity, prelude::*};
 
+    extern crate alloc;
+    use alloc::string::String;
+
     #[cfg(feature = "std")]
     pub use std::io::Write;
 
@@ -24,16 +27,15 @@ mod diesel_impl {
     impl<const N: usize, ST, DB> FromSql<ST, DB> for ArrayString<N>
     where
         DB: Backend,
-        *const str: FromSql<ST, DB>,
+        String: FromSql<ST, DB>,
         Self: ValidCapacity,
     {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
         fn from_sql(bytes: RawValue<'_, DB>) -> deserialize::Result<Self> {
-            let ptr = <*const str as FromSql<ST, DB>>::from_sql(bytes)?;
-            // Safety: We know that the pointer impl will never return null. We copied diesel's implementation for String
-            debug_assert!(!ptr.is_null());
-            Ok(Self::from_str_truncate(unsafe { &*ptr }))
+            // The `*const str` impl would dangle: the text may be owned by `bytes`, which it drops
+            let string = <String as FromSql<ST, DB>>::from_sql(bytes)?;
+            Ok(Self::from_str_truncate(&string))
         }
     }
     impl<const N: usize, DB> ToSql<Text, DB> for ArrayString<N>
@@ -52,7 +54,7 @@ mod diesel_impl {
     impl<ST, DB> FromSql<ST, DB> for CacheString
     where
         DB: Backend,
-        *const str: FromSql<ST, DB>,
+        String: FromSql<ST, DB>,
     {
         #[inline]
         #[cfg_attr(all(feature = "no-panic", not(debug_assertions)), no_panic)]
-- 
2.43.0

