From 82b761e5866a5aabbeda735224a5208564ceb2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 01/19] fix: decode ZigZag with a logical shift

Signed integers whose encoding has the top bit set (e.g. 64i8, i32 values
of 2^30 and above) did not survive a round trip.
---
 steit/src/impls/varint.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index 4a880fe..c2ab6cb 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -87,8 +87,9 @@ macro_rules! impl_signed_varint {
                 (value << 1) ^ (value >> ((std::mem::size_of::<$type>() << 3) - 1))
             }
 
-            fn decode(value: $type) -> $type {
-                (value >> 1) ^ -(value & 1)
+            // The shift must be logical, otherwise the sign bit of the encoded value is smeared.
+            fn decode(value: $unsigned_type) -> $type {
+                (value >> 1) as $type ^ -((value & 1) as $type)
             }
 
             fn compute_size(value: &$type) -> u32 {
@@ -111,7 +112,7 @@ macro_rules! impl_signed_varint {
                     &mut self,
                     reader: &mut $crate::de::Reader<impl ::std::io::Read>,
                 ) -> ::std::io::Result<()> {
-                    let encoded = <$unsigned_type>::deserialize(reader)? as $type;
+                    let encoded = <$unsigned_type>::deserialize(reader)?;
                     *self = decode(encoded);
                     Ok(())
                 }
-- 
2.43.0


From 3df77431c0640a3189cd94fda7e245184b7ede99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 02/19] fix: do not overflow the shift while decoding over-long
 varints

Decoding a varint with more bits than the target type panicked in debug
builds (and wrapped the shift in release builds), on unknown fields too.
---
 steit/src/impls/varint.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/steit/src/impls/varint.rs b/steit/src/impls/varint.rs
index c2ab6cb..5f0d588 100644
--- a/steit/src/impls/varint.rs
+++ b/steit/src/impls/varint.rs
@@ -50,14 +50,17 @@ macro_rules! impl_unsigned_varint {
 
                     loop {
                         reader.read_exact(&mut buf)?;
-                        value |= (buf[0] & 0x7f) as $type << offset;
+
+                        // Bits that do not fit are dropped, however long the encoding is.
+                        if offset < std::mem::size_of::<$type>() << 3 {
+                            value |= (buf[0] & 0x7f) as $type << offset;
+                            offset += 7;
+                        }
 
                         if buf[0] & 0x80 == 0 {
                             *self = value;
                             return Ok(());
                         }
-
-                        offset += 7;
                     }
                 }
             }
-- 
2.43.0


From 752be5694f1520b0d7a3dd264ca459e515d86467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 03/19] fix: skip unknown sized fields without allocating their
 declared size

The size comes from the input, so a few bytes could abort the process.
---
 steit/src/de/reader.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 3aaba8a..0ccb8df 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -48,8 +48,7 @@ impl<R: io::Read> Reader<R> {
 
             WireType::Sized => {
                 let size = u64::deserialize(self)?;
-                let mut buf = Vec::with_capacity(size as usize);
-                self.by_ref().take(size).read_to_end(&mut buf)?;
+                io::copy(&mut self.by_ref().take(size), &mut io::sink())?;
             }
         }
 
-- 
2.43.0


From 593e7344c45e0648858438a3cf8ba283d3cbd8f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 04/19] fix: report sized values cut short instead of decoding
 what is left of them

A truncated message or log used to decode to a different value, and a
truncated log entry was applied with its value missing.
---
 steit/src/de/de.rs     |  6 +++++-
 steit/src/de/reader.rs | 22 +++++++++++++++++++++-
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/steit/src/de/de.rs b/steit/src/de/de.rs
index 80ef6a4..54b39f8 100644
--- a/steit/src/de/de.rs
+++ b/steit/src/de/de.rs
@@ -24,7 +24,11 @@ pub trait Deserialize: Default + HasWireType {
 
         match wire_type {
             WireType::Varint => self.merge(reader),
-            WireType::Sized => self.merge(&mut reader.nested()?),
+            WireType::Sized => {
+                let mut nested = reader.nested()?;
+                self.merge(&mut nested)?;
+                nested.ensure_complete()
+            }
         }
     }
 
diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 0ccb8df..2e7d560 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -48,7 +48,9 @@ impl<R: io::Read> Reader<R> {
 
             WireType::Sized => {
                 let size = u64::deserialize(self)?;
-                io::copy(&mut self.by_ref().take(size), &mut io::sink())?;
+                let mut field = self.by_ref().take(size);
+                io::copy(&mut field, &mut io::sink())?;
+                ensure_complete(&field)?;
             }
         }
 
@@ -60,6 +62,24 @@ impl<R: io::Read> Reader<R> {
     }
 }
 
+impl<R: io::Read> Reader<io::Take<R>> {
+    /// Fails if the input ended before the declared size of a nested value was reached.
+    pub(super) fn ensure_complete(&self) -> io::Result<()> {
+        ensure_complete(self.inner.get_ref())
+    }
+}
+
+fn ensure_complete<R>(reader: &io::Take<R>) -> io::Result<()> {
+    if reader.limit() > 0 {
+        return Err(io::Error::new(
+            io::ErrorKind::UnexpectedEof,
+            "input ended in the middle of a sized value",
+        ));
+    }
+
+    Ok(())
+}
+
 impl<R: io::Read> io::Read for Reader<R> {
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         self.inner.read(buf)
-- 
2.43.0


From c3c1e2b19277eea3ff887812c7eb47aca14924e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 05/19] fix: attach values inserted into a Map to its runtime

Later changes of an inserted value went to its old runtime, so replicas
missed them.
---
 steit/src/types/map/map.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 96350fc..d21dce6 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -58,8 +58,9 @@ impl<K: MapKey, V: State> Map<K, V> {
         self.entries.get_mut(&key.as_field_number())
     }
 
-    pub fn insert(&mut self, key: K, value: V) -> Option<V> {
+    pub fn insert(&mut self, key: K, mut value: V) -> Option<V> {
         let field_number = key.as_field_number();
+        value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
         self.entries.insert(field_number, value)
     }
-- 
2.43.0


From 46e444489921cec8ae198f7b57f70d68a3e0cf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 06/19] fix: do not log the removal of a key a Map does not
 contain

Replaying such an entry fails.
---
 steit/src/types/map/map.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index d21dce6..4f8cb24 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -75,6 +75,11 @@ impl<K: MapKey, V: State> Map<K, V> {
 
     pub fn remove(&mut self, key: &K) -> Option<V> {
         let field_number = key.as_field_number();
+
+        if !self.entries.contains_key(&field_number) {
+            return None;
+        }
+
         self.runtime.log_map_remove(field_number).unwrap();
         self.entries.remove(&field_number)
     }
-- 
2.43.0


From f728b8e1d2c1ce3c5efa8eeb5ad8fb6037856fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 07/19] fix: reject replayed Map keys outside the range of the
 key type

Such a key was inserted and made iterating or serializing the map panic.
---
 steit/src/types/map/map.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 4f8cb24..a6e3772 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -235,6 +235,9 @@ impl<K: MapKey, V: State> State for Map<K, V> {
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.handle(path, kind, key, reader)
             } else if kind == LogEntryKind::Update && path.next().is_none() {
+                wire_fmt::validate_field_number(field_number)?;
+                K::try_from_field_number(field_number)?;
+
                 let mut value = V::with_runtime(self.runtime.nested(field_number));
                 value.merge(reader)?;
 
-- 
2.43.0


From 5d5f861aefb35118ee5c1c979828cc941c118f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 08/19] fix: skip Map entries of an unexpected wire type

They were decoded as the expected one, which misread the rest of the map.
---
 steit/src/types/map/map.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index a6e3772..6b0a1ae 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -190,10 +190,15 @@ impl<K: MapKey, V: State> Deserialize for Map<K, V> {
     fn merge(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
         while !reader.eof()? {
             let field_number = u32::deserialize(reader)?;
-            let (field_number, _) = wire_fmt::parse_tag(field_number)?;
+            let (field_number, wire_type) = wire_fmt::parse_tag(field_number)?;
             wire_fmt::validate_field_number(field_number)?;
             K::try_from_field_number(field_number)?;
 
+            if wire_type != V::WIRE_TYPE {
+                reader.skip_field(wire_type)?;
+                continue;
+            }
+
             if let Some(value) = self.entries.get_mut(&field_number) {
                 value.merge_nested(V::WIRE_TYPE, reader)?;
             } else {
-- 
2.43.0


From 6d144ad38f5e5807cd340ab90d3053c2c2d178ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 09/19] fix: give the item moved by List::swap_remove the path
 of its new position

The path was derived from the removed item, which is wrong for enums, whose
path ends in the variant tag.
---
 steit/src/types/list.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index e07e9b1..c62e5e0 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -103,8 +103,7 @@ impl<T: State> List<T> {
         let swapped = &mut self.items[index];
 
         if swapped.wire_type() == WireType::Sized {
-            let runtime = removed.runtime().sibling(index as u32);
-            swapped.set_runtime(runtime);
+            swapped.set_runtime(self.runtime.nested(index as u32));
         }
 
         Some(removed)
-- 
2.43.0


From 3cb803bac90acc343a002e7e70bc747d6e3a2273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 10/19] fix: delegate the overridable methods of a boxed State

A boxed enum used the defaults, so it could not be replayed as a root.
---
 steit/src/impls/box.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 7802a7c..177a7d4 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -47,6 +47,14 @@ impl<T: State> State for Box<T> {
         self.as_mut().set_runtime(runtime)
     }
 
+    fn is_root(&self) -> bool {
+        self.as_ref().is_root()
+    }
+
+    fn handle_update(&mut self, reader: &mut Reader<impl io::Read>) -> io::Result<()> {
+        self.as_mut().handle_update(reader)
+    }
+
     fn handle(
         &mut self,
         path: impl Iterator<Item = u32>,
-- 
2.43.0


From 55cc2dd673129690663b89fe07fe49c69c154434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:13 +0000
Subject: [PATCH 11/19] fix: attach Maybe and its value to the path of the
 variant

Maybe::some and Maybe::none kept the runtime of the enum itself, so later
changes were logged under a wrong path or not at all.
---
 steit/src/types/maybe.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/steit/src/types/maybe.rs b/steit/src/types/maybe.rs
index cce3f68..4659bc0 100644
--- a/steit/src/types/maybe.rs
+++ b/steit/src/types/maybe.rs
@@ -20,7 +20,10 @@ pub enum Maybe<T: State> {
 }
 
 impl<T: State> Maybe<T> {
-    pub fn some(runtime: Runtime, value: T) -> Self {
+    pub fn some(runtime: Runtime, mut value: T) -> Self {
+        let runtime = runtime.nested(1);
+        value.set_runtime(runtime.nested(0));
+
         Maybe::Some {
             value,
             size_cache: SizeCache::new(),
@@ -29,7 +32,9 @@ impl<T: State> Maybe<T> {
     }
 
     pub fn none(runtime: Runtime) -> Self {
-        Maybe::None { runtime }
+        Maybe::None {
+            runtime: runtime.nested(0),
+        }
     }
 
     pub fn from_option(runtime: Runtime, option: Option<T>) -> Self {
-- 
2.43.0


From 8668bce80391eab3d7a74291459ecac7bca28c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:21 +0000
Subject: [PATCH 12/19] fix: detach items removed from a List or Map

Changing an item after it was popped, removed or replaced was still logged
under its former path, which breaks replaying the log.
---
 steit/src/types/list.rs    | 10 ++++++++--
 steit/src/types/map/map.rs |  5 +++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/steit/src/types/list.rs b/steit/src/types/list.rs
index c62e5e0..35a31bf 100644
--- a/steit/src/types/list.rs
+++ b/steit/src/types/list.rs
@@ -73,7 +73,7 @@ impl<T: State> List<T> {
     pub fn pop(&mut self) -> Option<T> {
         if !self.items.is_empty() {
             self.runtime.log_list_pop().unwrap();
-            self.items.pop()
+            self.items.pop().map(detach)
         } else {
             None
         }
@@ -99,7 +99,7 @@ impl<T: State> List<T> {
             ])
             .unwrap();
 
-        let removed = self.items.swap_remove(index);
+        let removed = detach(self.items.swap_remove(index));
         let swapped = &mut self.items[index];
 
         if swapped.wire_type() == WireType::Sized {
@@ -114,6 +114,12 @@ impl<T: State> List<T> {
     }
 }
 
+/// Makes sure that later changes of a removed item don't end up in the log.
+pub(super) fn detach<T: State>(mut item: T) -> T {
+    item.set_runtime(Runtime::default());
+    item
+}
+
 impl<T: State> ops::Index<usize> for List<T> {
     type Output = T;
 
diff --git a/steit/src/types/map/map.rs b/steit/src/types/map/map.rs
index 6b0a1ae..6e3f4fb 100644
--- a/steit/src/types/map/map.rs
+++ b/steit/src/types/map/map.rs
@@ -10,6 +10,7 @@ use crate::{
     rt::{Runtime, SizeCache},
     ser::Serialize,
     state::State,
+    types::list::detach,
     wire_fmt::{self, HasWireType, WireType},
 };
 
@@ -62,7 +63,7 @@ impl<K: MapKey, V: State> Map<K, V> {
         let field_number = key.as_field_number();
         value.set_runtime(self.runtime.nested(field_number));
         self.runtime.log_update_child(field_number, &value).unwrap();
-        self.entries.insert(field_number, value)
+        self.entries.insert(field_number, value).map(detach)
     }
 
     pub fn insert_with(&mut self, key: K, get_value: impl FnOnce(Runtime) -> V) -> Option<V> {
@@ -81,7 +82,7 @@ impl<K: MapKey, V: State> Map<K, V> {
         }
 
         self.runtime.log_map_remove(field_number).unwrap();
-        self.entries.remove(&field_number)
+        self.entries.remove(&field_number).map(detach)
     }
 
     pub fn iter(&self) -> MapIter<K, V> {
-- 
2.43.0


From 81583760b556372ad411295a87480730e4749bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:32 +0000
Subject: [PATCH 13/19] fix: compare the right fields of enum variants with an
 `other_` prefix in a name

---
 steit-derive/src/derive/enum.rs  | 2 +-
 steit-derive/src/derive/field.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/steit-derive/src/derive/enum.rs b/steit-derive/src/derive/enum.rs
index b56da2b..f916271 100644
--- a/steit-derive/src/derive/enum.rs
+++ b/steit-derive/src/derive/enum.rs
@@ -133,7 +133,7 @@ impl<'a> Enum<'a> {
             let variant = r#struct.variant().unwrap();
             let qual = variant.qual();
 
-            let destructure = r#struct.destructure();
+            let destructure = r#struct.destructure_prefixed(format_ident!("self"));
             let other_destructure = r#struct.destructure_prefixed(format_ident!("other"));
             let eq = r#struct.eq();
 
diff --git a/steit-derive/src/derive/field.rs b/steit-derive/src/derive/field.rs
index f2f0bce..503174c 100644
--- a/steit-derive/src/derive/field.rs
+++ b/steit-derive/src/derive/field.rs
@@ -339,7 +339,7 @@ impl<'a> DeriveField<'a> {
 
     pub fn eq(&self, is_variant: bool) -> Option<TokenStream> {
         if !self.attrs.no_eq_hash {
-            let field = self.field(is_variant);
+            let field = self.field_other(format_ident!("self"), is_variant);
             let other_field = self.field_other(format_ident!("other"), is_variant);
 
             Some(quote! {
-- 
2.43.0


From eb6e6348d94963b6efe2ec993a28f3bb13b127ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:02 +0000
Subject: [PATCH 14/19] fix: keep a byte held by the end-of-input look-ahead in
 as_mut_read

---
 steit/src/de/reader.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/steit/src/de/reader.rs b/steit/src/de/reader.rs
index 2e7d560..c348e97 100644
--- a/steit/src/de/reader.rs
+++ b/steit/src/de/reader.rs
@@ -19,7 +19,8 @@ impl<R: io::Read> Reader<R> {
 
     pub fn as_mut_read(&mut self) -> Reader<&mut dyn io::Read> {
         Reader {
-            inner: Eof::new(self.inner.get_mut()),
+            // Goes through `self.inner` since that may hold a byte from looking for the end of the input.
+            inner: Eof::new(&mut self.inner),
         }
     }
 
-- 
2.43.0


From ba6630a0008765544badaf481d6cb29f7f57d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 15/19] fix: keep the value type of an aliased Map in C# code

---
 steit/src/gen/generators/csharp.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 214652d..959ea66 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -643,9 +643,9 @@ fn field_type(ty: &'static FieldTypeMeta) -> String {
                     return type_args[0].clone();
                 }
 
-                // A hack to shadow the first type argument of `Map`
+                // A hack to shadow the key type of `Map`, which isn't there if the type is aliased
                 if &type_name == "StateMap" {
-                    type_args.remove(0);
+                    type_args.drain(..type_args.len() - 1);
                 }
 
                 format!("{}<{}>", type_name, type_args.join(", "))
-- 
2.43.0


From 4ce223c1218153d0ba3cda18ce701d45e27f7937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:05 +0000
Subject: [PATCH 16/19] fix: collect the messages of a type that is first
 linked to by a Box

---
 steit/src/impls/box.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/steit/src/impls/box.rs b/steit/src/impls/box.rs
index 177a7d4..9780e0f 100644
--- a/steit/src/impls/box.rs
+++ b/steit/src/impls/box.rs
@@ -74,11 +74,8 @@ impl<T: HasMeta> HasMeta for Box<T> {
 
     const TYPE: &'static TypeMeta = T::TYPE;
 
-    const LINK: &'static MetaLink = &MetaLink {
-        r#type: Self::TYPE,
-        msg: None,
-        links: || &[T::LINK],
-    };
+    // `Box<T>` and `T` share the same type, so they have to share the same link as well.
+    const LINK: &'static MetaLink = T::LINK;
 }
 
 #[cfg(test)]
-- 
2.43.0


From deb90a22159467dd8a542f40b1d08b1ec6762511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:08 +0000
Subject: [PATCH 17/19] fix: treat a boxed field like the type it boxes in C#
 code

---
 steit/src/gen/generators/csharp.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index 959ea66..dfc169e 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -139,7 +139,7 @@ impl Generator for CSharpGenerator {
 
         // Initiate nested states
         for field in &fields {
-            let init = match field.meta.ty {
+            let init = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => Some(format!(
                     "new {}(this.Path.GetNested({}))",
@@ -244,7 +244,7 @@ impl Generator for CSharpGenerator {
             .indent();
 
         // Return wire types
-        for field in r#struct.fields {
+        for field in &fields {
             let wire_type = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, wire_type)) => match wire_type {
                     WireType::Varint => "WireType.Varint".to_string(),
@@ -259,7 +259,7 @@ impl Generator for CSharpGenerator {
                 ),
             };
 
-            writer.writeln(format!("case {}: return {};", field.tag, wire_type));
+            writer.writeln(format!("case {}: return {};", field.meta.tag, wire_type));
         }
 
         writer
@@ -274,7 +274,7 @@ impl Generator for CSharpGenerator {
 
         // Return nested states
         for field in &fields {
-            let nested = match field.meta.ty {
+            let nested = match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => None,
                 FieldTypeMeta::Type(TypeMeta::Ref(_, _)) => {
                     Some(format!("this.{}", field.upper_camel_case_name))
@@ -300,7 +300,7 @@ impl Generator for CSharpGenerator {
 
         // Replace fields and notify event handlers
         for field in &fields {
-            match field.meta.ty {
+            match field.ty {
                 FieldTypeMeta::Type(TypeMeta::Primitive(_, _)) => {
                     writer.writeln(format!(
                         "case {0}: this.{1} = this.MaybeNotify({0}, reader.Read{2}(), this.{1}, On{1}Update, shouldNotify); break;",
@@ -578,6 +578,8 @@ impl Generator for CSharpGenerator {
 
 struct CSharpField {
     meta: &'static FieldMeta,
+    // Unboxed
+    ty: &'static FieldTypeMeta,
     // UpperCamelCase
     upper_camel_case_name: String,
     type_name: String,
@@ -587,6 +589,7 @@ impl CSharpField {
     pub fn from_meta(field: &'static FieldMeta) -> Self {
         Self {
             meta: field,
+            ty: unboxed_type(field.ty),
             upper_camel_case_name: field
                 .name
                 .csharp(|name| str_util::to_camel_case(name, true)),
@@ -621,6 +624,19 @@ fn type_params(type_params: &'static [&'static str]) -> String {
     format!("<{}>", type_params.join(", "))
 }
 
+// `Box` is transparent in C#.
+fn unboxed_type(ty: &'static FieldTypeMeta) -> &'static FieldTypeMeta {
+    match *ty {
+        FieldTypeMeta::Type(TypeMeta::Ref(name, type_args))
+            if name.csharp(String::from) == "Box" && !type_args.is_empty() =>
+        {
+            unboxed_type(&type_args[0])
+        }
+
+        _ => ty,
+    }
+}
+
 fn field_type(ty: &'static FieldTypeMeta) -> String {
     match *ty {
         FieldTypeMeta::Type(ty) => match ty {
-- 
2.43.0


From cd4f4503c08506e23a93a0a4e2042a962366b9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:31 +0000
Subject: [PATCH 18/19] fix: report that a generated file could not be written

---
 steit/src/gen/generator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/steit/src/gen/generator.rs b/steit/src/gen/generator.rs
index 13072d0..1e2bcda 100644
--- a/steit/src/gen/generator.rs
+++ b/steit/src/gen/generator.rs
@@ -54,6 +54,7 @@ pub trait Generator {
             let mut writer = io::BufWriter::new(file);
 
             writer.write_all(source.as_bytes())?;
+            writer.flush()?;
             generated_names.push(name);
         }
 
-- 
2.43.0


From 538c40ee42dddcbbf5e53b5399f8b39e7e6a9265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:33 +0000
Subject: [PATCH 19/19] fix: refer to a generic enum by its full type in its C#
 factory methods

---
 steit-csharp/src/Builtins/Maybe.cs | 4 ++--
 steit/src/gen/generators/csharp.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/steit-csharp/src/Builtins/Maybe.cs b/steit-csharp/src/Builtins/Maybe.cs
index ca38583..693a424 100644
--- a/steit-csharp/src/Builtins/Maybe.cs
+++ b/steit-csharp/src/Builtins/Maybe.cs
@@ -33,8 +33,8 @@ namespace Steit.Builtins {
             }
         }
 
-        public static Maybe NewNone(Path path = null) { return new Maybe(path, 0); }
-        public static Maybe NewSome(Path path = null) { return new Maybe(path, 1); }
+        public static Maybe<T> NewNone(Path path = null) { return new Maybe<T>(path, 0); }
+        public static Maybe<T> NewSome(Path path = null) { return new Maybe<T>(path, 1); }
 
         public static event EventHandler<VariantUpdateEventArgs<Maybe<T>>> OnUpdate;
 
diff --git a/steit/src/gen/generators/csharp.rs b/steit/src/gen/generators/csharp.rs
index dfc169e..7003624 100644
--- a/steit/src/gen/generators/csharp.rs
+++ b/steit/src/gen/generators/csharp.rs
@@ -475,7 +475,7 @@ impl Generator for CSharpGenerator {
         for variant in &variants {
             writer.writeln(format!(
                 "public static {0} New{1}(Path path = null) {{ return new {0}(path, {2}); }}",
-                name, variant.upper_camel_case_name, variant.meta.tag,
+                type_name, variant.upper_camel_case_name, variant.meta.tag,
             ));
         }
 
-- 
2.43.0

