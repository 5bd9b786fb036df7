From 23b851ccbf41b76786dda75ea7a044bc591c2506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:05 +0000
Subject: [PATCH 01/13] fix: write byte strings of internally tagged values as
 bytes

InternallyTaggedSerializer::serialize_bytes passed the slice to
serialize_default, which wrote a sequence of u8 under the "value" key
instead of a byte string. Formats that distinguish the two cannot read the
value back with deserialize_bytes.
---
 src/ser.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/ser.rs b/src/ser.rs
index 9adfbcc..dcdf420 100644
--- a/src/ser.rs
+++ b/src/ser.rs
@@ -25,6 +25,17 @@ where
     }
 }
 
+struct Bytes<'a>(&'a [u8]);
+
+impl<'a> Serialize for Bytes<'a> {
+    fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
+    where
+        S: Serializer,
+    {
+        serializer.serialize_bytes(self.0)
+    }
+}
+
 pub struct InternallyTaggedSerializer<S> {
     pub tag: &'static str,
     pub variant: &'static str,
@@ -122,7 +133,7 @@ where
     }
 
     fn serialize_bytes(self, value: &[u8]) -> Result<Self::Ok, Self::Error> {
-        self.serialize_default(value)
+        self.serialize_default(&Bytes(value))
     }
 
     fn serialize_none(self) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From ad6ca0133d8afd2abdd974046738b7a5b2460d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:07 +0000
Subject: [PATCH 02/13] fix: read the variant key of internally tagged enums as
 a string

MapEntryAsEnum::variant_seed handed the enum's variant seed to the map
unchanged, so that its deserialize_identifier request reached the format.
The key was written with serialize_str; formats that are not
self-describing and treat identifiers as integers (postcard, bincode)
cannot read it back. Fields of structs already go through StringKeySeed.
---
 src/internally.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/internally.rs b/src/internally.rs
index 84f865b..d92848f 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -510,7 +510,7 @@ where
     where
         V: DeserializeSeed<'de>,
     {
-        match self.map.next_key_seed(seed)? {
+        match self.map.next_key_seed(StringKeySeed { seed })? {
             Some(variant) => Ok((variant, self)),
             None => Err(de::Error::custom(format_args!(
                 "expected enum {}",
-- 
2.43.0


From a52e8e5fea4ed343e58b7e5e2377018af86740db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 03/13] fix: read buffered floats from every number kind

---
 src/content.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index d128bc5..35728e6 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -332,6 +332,17 @@ where
             _ => Err(self.invalid_type(&visitor)),
         }
     }
+
+    fn deserialize_float<V>(self, visitor: V) -> Result<V::Value, E>
+    where
+        V: Visitor<'de>,
+    {
+        match self.content {
+            Content::F32(v) => visitor.visit_f32(v),
+            Content::F64(v) => visitor.visit_f64(v),
+            _ => self.deserialize_integer(visitor),
+        }
+    }
 }
 
 fn visit_content_seq<'de, V, E>(content: Vec<Content<'de>>, visitor: V) -> Result<V::Value, E>
@@ -469,25 +480,14 @@ where
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F32(v) => visitor.visit_f32(v),
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_f64<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        match self.content {
-            Content::F64(v) => visitor.visit_f64(v),
-            Content::U64(v) => visitor.visit_u64(v),
-            Content::I64(v) => visitor.visit_i64(v),
-            _ => Err(self.invalid_type(&visitor)),
-        }
+        self.deserialize_float(visitor)
     }
 
     fn deserialize_char<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 1bef18856d41a822273b1816d4773c7530d16d89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 04/13] fix: read buffered units from an empty map, unit
 structs from an empty sequence

---
 src/content.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/content.rs b/src/content.rs
index 35728e6..ef19e0b 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -561,6 +561,8 @@ where
     {
         match self.content {
             Content::Unit => visitor.visit_unit(),
+            // Allow a unit to be deserialized from a tag with no other fields.
+            Content::Map(ref v) if v.is_empty() => visitor.visit_unit(),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
@@ -589,6 +591,7 @@ where
             // We want {"topic":"Info"} to deserialize even though
             // ordinarily unit structs do not deserialize from empty map.
             Content::Map(ref v) if v.is_empty() => visitor.visit_unit(),
+            Content::Seq(ref v) if v.is_empty() => visitor.visit_unit(),
             _ => self.deserialize_any(visitor),
         }
     }
-- 
2.43.0


From 3dc6e5384d3366a03c9212877de6b95d59b68b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:53 +0000
Subject: [PATCH 05/13] fix: read buffered identifiers from u64 indices

---
 src/content.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/content.rs b/src/content.rs
index ef19e0b..428f922 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -710,6 +710,7 @@ where
             Content::ByteBuf(v) => visitor.visit_byte_buf(v),
             Content::Bytes(v) => visitor.visit_borrowed_bytes(v),
             Content::U8(v) => visitor.visit_u8(v),
+            Content::U64(v) => visitor.visit_u64(v),
             _ => Err(self.invalid_type(&visitor)),
         }
     }
-- 
2.43.0


From 88be9417d505ef99c1cd2ae2c1d0d055c4cfe477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:26 +0000
Subject: [PATCH 06/13] fix: read buffered tuple variants without fields

---
 src/content.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index 428f922..e4f69ac 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -887,16 +887,12 @@ where
         V: Visitor<'de>,
     {
         let len = self.iter.len();
-        if len == 0 {
-            visitor.visit_unit()
+        let ret = visitor.visit_seq(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
         } else {
-            let ret = visitor.visit_seq(&mut self)?;
-            let remaining = self.iter.len();
-            if remaining == 0 {
-                Ok(ret)
-            } else {
-                Err(de::Error::invalid_length(len, &"fewer elements in array"))
-            }
+            Err(de::Error::invalid_length(len, &"fewer elements in array"))
         }
     }
 
-- 
2.43.0


From 04d9bccf240b479567eedc2f6290c62b2f42c845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:26 +0000
Subject: [PATCH 07/13] fix: reject unread entries of buffered struct variants

---
 src/content.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/content.rs b/src/content.rs
index e4f69ac..d4101e5 100644
--- a/src/content.rs
+++ b/src/content.rs
@@ -979,11 +979,18 @@ where
     type Error = E;
 
     #[inline]
-    fn deserialize_any<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+    fn deserialize_any<V>(mut self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: Visitor<'de>,
     {
-        visitor.visit_map(self)
+        let len = self.iter.len();
+        let ret = visitor.visit_map(&mut self)?;
+        let remaining = self.iter.len();
+        if remaining == 0 {
+            Ok(ret)
+        } else {
+            Err(de::Error::invalid_length(len, &"fewer elements in map"))
+        }
     }
 
     forward_to_deserialize_any! {
-- 
2.43.0


From 11a868a149d8f70b29d524fdd2d48b5ba20e663a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:14 +0000
Subject: [PATCH 08/13] fix: do not clash with traits and generic parameters
 named S or D

---
 impl/src/tagged_trait.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index a3162e2..d599e3c 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -39,9 +39,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         expanded.extend(quote! {
             impl #impl_generics typetag::#private::serde::Serialize
             for dyn #object #ty_generics + 'typetag #where_clause {
-                fn serialize<S>(&self, serializer: S) -> typetag::#private::Result<S::Ok, S::Error>
+                fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                 where
-                    S: typetag::#private::serde::Serializer,
+                    __S: typetag::#private::serde::Serializer,
                 {
                     #serialize_impl
                 }
@@ -52,9 +52,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
-                    fn serialize<S>(&self, serializer: S) -> typetag::#private::Result<S::Ok, S::Error>
+                    fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                     where
-                        S: typetag::#private::serde::Serializer,
+                        __S: typetag::#private::serde::Serializer,
                     {
                         typetag::#private::serde::Serialize::serialize(self as &dyn #object #ty_generics, serializer)
                     }
@@ -87,9 +87,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
 
             #[allow(unknown_lints, non_local_definitions)] // false positive: https://github.com/rust-lang/rust/issues/121621
             impl<'de> typetag::#private::serde::Deserialize<'de> for typetag::#private::Box<dyn #object + #strictest> {
-                fn deserialize<D>(deserializer: D) -> typetag::#private::Result<Self, D::Error>
+                fn deserialize<__D>(deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
                 where
-                    D: typetag::#private::serde::Deserializer<'de>,
+                    __D: typetag::#private::serde::Deserializer<'de>,
                 {
                     #deserialize_impl
                 }
@@ -100,9 +100,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 #[allow(unknown_lints, non_local_definitions)] // false positive: https://github.com/rust-lang/rust/issues/121621
                 impl<'de> typetag::#private::serde::Deserialize<'de> for typetag::#private::Box<dyn #object + #marker_traits> {
-                    fn deserialize<D>(deserializer: D) -> typetag::#private::Result<Self, D::Error>
+                    fn deserialize<__D>(deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
                     where
-                        D: typetag::#private::serde::Deserializer<'de>,
+                        __D: typetag::#private::serde::Deserializer<'de>,
                     {
                         typetag::#private::Result::Ok(
                             <typetag::#private::Box<dyn #object + #strictest>
-- 
2.43.0


From 81c918644d8475e86cfa795042501f8d9463b828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:14 +0000
Subject: [PATCH 09/13] fix: refer to Send and Sync by path

---
 impl/src/tagged_trait.rs | 15 ++++++++-------
 src/private.rs           |  2 ++
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index d599e3c..c6482cc 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -30,6 +30,10 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
 
     let mut expanded = TokenStream::new();
 
+    let send = quote!(typetag::#private::Send);
+    let sync = quote!(typetag::#private::Sync);
+    let send_sync = quote!(#send + #sync);
+
     if mode.ser {
         let mut impl_generics = input.generics.clone();
         impl_generics.params.push(parse_quote!('typetag));
@@ -48,7 +52,7 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             }
         });
 
-        for marker_traits in &[quote!(Send), quote!(Sync), quote!(Send + Sync)] {
+        for marker_traits in [&send, &sync, &send_sync] {
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
@@ -70,12 +74,9 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         let is_sync = has_supertrait(&input, "Sync");
         let (strictest, others) = match (is_send, is_sync) {
             (false, false) => (quote!(), vec![]),
-            (true, false) => (quote!(Send), vec![quote!()]),
-            (false, true) => (quote!(Sync), vec![quote!()]),
-            (true, true) => (
-                quote!(Send + Sync),
-                vec![quote!(), quote!(Send), quote!(Sync)],
-            ),
+            (true, false) => (send, vec![quote!()]),
+            (false, true) => (sync, vec![quote!()]),
+            (true, true) => (send_sync, vec![quote!(), send, sync]),
         };
 
         expanded.extend(quote! {
diff --git a/src/private.rs b/src/private.rs
index 911ecf6..88819bf 100644
--- a/src/private.rs
+++ b/src/private.rs
@@ -28,6 +28,8 @@ pub mod adjacently {
 #[doc(hidden)]
 pub use alloc::collections::btree_map;
 #[doc(hidden)]
+pub use core::marker::{Send, Sync};
+#[doc(hidden)]
 pub use core::option::Option;
 #[doc(hidden)]
 pub use core::result::Result;
-- 
2.43.0


From c2806fe5e67398f0115d49bdea86d10281edaaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:14 +0000
Subject: [PATCH 10/13] fix: do not clash with items named like generated
 variables

---
 impl/src/tagged_impl.rs  |  4 +--
 impl/src/tagged_trait.rs | 60 ++++++++++++++++++++--------------------
 2 files changed, 32 insertions(+), 32 deletions(-)

diff --git a/impl/src/tagged_impl.rs b/impl/src/tagged_impl.rs
index e07ffec..dd290a0 100644
--- a/impl/src/tagged_impl.rs
+++ b/impl/src/tagged_impl.rs
@@ -35,9 +35,9 @@ pub(crate) fn expand(args: ImplArgs, mut input: ItemImpl, mode: Mode) -> TokenSt
             typetag::#private::inventory::submit! {
                 <dyn #object>::typetag_register(
                     #name,
-                    (|deserializer| typetag::#private::Result::Ok(
+                    (|__deserializer| typetag::#private::Result::Ok(
                         typetag::#private::Box::new(
-                            typetag::#private::erased_serde::deserialize::<#this>(deserializer)?
+                            typetag::#private::erased_serde::deserialize::<#this>(__deserializer)?
                         ),
                     )) as typetag::#private::DeserializeFn<<dyn #object as typetag::#private::Strictest>::Object>,
                 )
diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index c6482cc..1c5f6c0 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -43,7 +43,7 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
         expanded.extend(quote! {
             impl #impl_generics typetag::#private::serde::Serialize
             for dyn #object #ty_generics + 'typetag #where_clause {
-                fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
+                fn serialize<__S>(&self, __serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                 where
                     __S: typetag::#private::serde::Serializer,
                 {
@@ -56,11 +56,11 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 impl #impl_generics typetag::#private::serde::Serialize
                 for dyn #object #ty_generics + #marker_traits + 'typetag #where_clause {
-                    fn serialize<__S>(&self, serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
+                    fn serialize<__S>(&self, __serializer: __S) -> typetag::#private::Result<__S::Ok, __S::Error>
                     where
                         __S: typetag::#private::serde::Serializer,
                     {
-                        typetag::#private::serde::Serialize::serialize(self as &dyn #object #ty_generics, serializer)
+                        typetag::#private::serde::Serialize::serialize(self as &dyn #object #ty_generics, __serializer)
                     }
                 }
             });
@@ -88,7 +88,7 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
 
             #[allow(unknown_lints, non_local_definitions)] // false positive: https://github.com/rust-lang/rust/issues/121621
             impl<'de> typetag::#private::serde::Deserialize<'de> for typetag::#private::Box<dyn #object + #strictest> {
-                fn deserialize<__D>(deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
+                fn deserialize<__D>(__deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
                 where
                     __D: typetag::#private::serde::Deserializer<'de>,
                 {
@@ -101,13 +101,13 @@ pub(crate) fn expand(args: TraitArgs, mut input: ItemTrait, mode: Mode) -> Token
             expanded.extend(quote! {
                 #[allow(unknown_lints, non_local_definitions)] // false positive: https://github.com/rust-lang/rust/issues/121621
                 impl<'de> typetag::#private::serde::Deserialize<'de> for typetag::#private::Box<dyn #object + #marker_traits> {
-                    fn deserialize<__D>(deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
+                    fn deserialize<__D>(__deserializer: __D) -> typetag::#private::Result<Self, __D::Error>
                     where
                         __D: typetag::#private::serde::Deserializer<'de>,
                     {
                         typetag::#private::Result::Ok(
                             <typetag::#private::Box<dyn #object + #strictest>
-                                as typetag::#private::serde::Deserialize<'de>>::deserialize(deserializer)?
+                                as typetag::#private::serde::Deserialize<'de>>::deserialize(__deserializer)?
                         )
                     }
                 }
@@ -163,8 +163,8 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
 
         impl dyn #object {
             #[doc(hidden)]
-            #vis const fn typetag_register<T>(name: &'static str, deserializer: T) -> TypetagRegistration<T> {
-                TypetagRegistration { name, deserializer }
+            #vis const fn typetag_register<T>(__name: &'static str, __deserializer: T) -> TypetagRegistration<T> {
+                TypetagRegistration { name: __name, deserializer: __deserializer }
             }
         }
     }
@@ -173,22 +173,22 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
 fn static_registry() -> TokenStream {
     quote! {
         static TYPETAG: typetag::#private::once_cell::race::OnceBox<typetag::#private::Registry<TypetagStrictest>> = typetag::#private::once_cell::race::OnceBox::new();
-        let registry = TYPETAG.get_or_init(|| {
-            let mut map = typetag::#private::BTreeMap::new();
-            let mut names = typetag::#private::Vec::new();
-            for registered in typetag::#private::inventory::iter::<TypetagRegistration<TypetagFn>> {
-                match map.entry(registered.name) {
-                    typetag::#private::btree_map::Entry::Vacant(entry) => {
-                        entry.insert(typetag::#private::Option::Some(registered.deserializer));
+        let __registry = TYPETAG.get_or_init(|| {
+            let mut __map = typetag::#private::BTreeMap::new();
+            let mut __names = typetag::#private::Vec::new();
+            for __registered in typetag::#private::inventory::iter::<TypetagRegistration<TypetagFn>> {
+                match __map.entry(__registered.name) {
+                    typetag::#private::btree_map::Entry::Vacant(__entry) => {
+                        __entry.insert(typetag::#private::Option::Some(__registered.deserializer));
                     }
-                    typetag::#private::btree_map::Entry::Occupied(mut entry) => {
-                        entry.insert(typetag::#private::Option::None);
+                    typetag::#private::btree_map::Entry::Occupied(mut __entry) => {
+                        __entry.insert(typetag::#private::Option::None);
                     }
                 }
-                names.push(registered.name);
+                __names.push(__registered.name);
             }
-            names.sort_unstable();
-            typetag::#private::Box::new(typetag::#private::Registry { map, names })
+            __names.sort_unstable();
+            typetag::#private::Box::new(typetag::#private::Registry { map: __map, names: __names })
         });
     }
 }
@@ -200,13 +200,13 @@ fn externally_tagged(input: &ItemTrait) -> (TokenStream, TokenStream) {
     let static_registry = static_registry();
 
     let serialize_impl = quote! {
-        let name = <Self as #object #ty_generics>::typetag_name(self);
-        typetag::#private::externally::serialize(serializer, name, self)
+        let __name = <Self as #object #ty_generics>::typetag_name(self);
+        typetag::#private::externally::serialize(__serializer, __name, self)
     };
 
     let deserialize_impl = quote! {
         #static_registry
-        typetag::#private::externally::deserialize(deserializer, #object_name, registry)
+        typetag::#private::externally::deserialize(__deserializer, #object_name, __registry)
     };
 
     (serialize_impl, deserialize_impl)
@@ -227,13 +227,13 @@ fn internally_tagged(
     };
 
     let serialize_impl = quote! {
-        let name = <Self as #object #ty_generics>::typetag_name(self);
-        typetag::#private::internally::serialize(serializer, #tag, name, self)
+        let __name = <Self as #object #ty_generics>::typetag_name(self);
+        typetag::#private::internally::serialize(__serializer, #tag, __name, self)
     };
 
     let deserialize_impl = quote! {
         #static_registry
-        typetag::#private::internally::deserialize(deserializer, #object_name, #tag, #default_variant_literal, registry)
+        typetag::#private::internally::deserialize(__deserializer, #object_name, #tag, #default_variant_literal, __registry)
     };
 
     (serialize_impl, deserialize_impl)
@@ -256,18 +256,18 @@ fn adjacently_tagged(
     };
 
     let serialize_impl = quote! {
-        let name = <Self as #object #ty_generics>::typetag_name(self);
-        typetag::#private::adjacently::serialize(serializer, #object_name, #tag, name, #content, self)
+        let __name = <Self as #object #ty_generics>::typetag_name(self);
+        typetag::#private::adjacently::serialize(__serializer, #object_name, #tag, __name, #content, self)
     };
 
     let deserialize_impl = quote! {
         #static_registry
         typetag::#private::adjacently::deserialize(
-            deserializer,
+            __deserializer,
             #object_name,
             &[#tag, #content],
             #default_variant_literal,
-            registry,
+            __registry,
             #deny_unknown_fields,
         )
     };
-- 
2.43.0


From 32da824db6b120945667ba9836d20150792e4558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:40 +0000
Subject: [PATCH 11/13] fix: do not call methods that a trait in scope may
 shadow

---
 impl/src/tagged_trait.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/impl/src/tagged_trait.rs b/impl/src/tagged_trait.rs
index 1c5f6c0..c30668e 100644
--- a/impl/src/tagged_trait.rs
+++ b/impl/src/tagged_trait.rs
@@ -173,21 +173,21 @@ fn build_registry(input: &ItemTrait) -> TokenStream {
 fn static_registry() -> TokenStream {
     quote! {
         static TYPETAG: typetag::#private::once_cell::race::OnceBox<typetag::#private::Registry<TypetagStrictest>> = typetag::#private::once_cell::race::OnceBox::new();
-        let __registry = TYPETAG.get_or_init(|| {
+        let __registry = typetag::#private::once_cell::race::OnceBox::get_or_init(&TYPETAG, || {
             let mut __map = typetag::#private::BTreeMap::new();
             let mut __names = typetag::#private::Vec::new();
             for __registered in typetag::#private::inventory::iter::<TypetagRegistration<TypetagFn>> {
-                match __map.entry(__registered.name) {
+                match typetag::#private::BTreeMap::entry(&mut __map, __registered.name) {
                     typetag::#private::btree_map::Entry::Vacant(__entry) => {
-                        __entry.insert(typetag::#private::Option::Some(__registered.deserializer));
+                        typetag::#private::btree_map::VacantEntry::insert(__entry, typetag::#private::Option::Some(__registered.deserializer));
                     }
                     typetag::#private::btree_map::Entry::Occupied(mut __entry) => {
-                        __entry.insert(typetag::#private::Option::None);
+                        typetag::#private::btree_map::OccupiedEntry::insert(&mut __entry, typetag::#private::Option::None);
                     }
                 }
-                __names.push(__registered.name);
+                typetag::#private::Vec::push(&mut __names, __registered.name);
             }
-            __names.sort_unstable();
+            <[_]>::sort_unstable(&mut __names);
             typetag::#private::Box::new(typetag::#private::Registry { map: __map, names: __names })
         });
     }
-- 
2.43.0


From d269c95e66eadad406ca0b2b51ae1d73c347ec8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 12/13] fix: read map keys of internally tagged objects as the
 key type asks

Keys that are not plain strings (numbers, newtypes, enums) were written as
their type asks but always read as a string, so they could not be read back
when the tag came first.
---
 src/internally.rs | 107 ++++++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 104 insertions(+), 3 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index d92848f..d9f30df 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -623,6 +623,19 @@ struct StringKeyDeserializer<D> {
     delegate: D,
 }
 
+macro_rules! forward_key {
+    ($($method:ident)*) => {
+        $(
+            fn $method<V>(self, visitor: V) -> Result<V::Value, Self::Error>
+            where
+                V: Visitor<'de>,
+            {
+                self.delegate.$method(visitor)
+            }
+        )*
+    };
+}
+
 impl<'de, D> Deserializer<'de> for StringKeyDeserializer<D>
 where
     D: Deserializer<'de>,
@@ -636,10 +649,98 @@ where
         self.delegate.deserialize_str(visitor)
     }
 
+    forward_key! {
+        deserialize_bool
+        deserialize_i8
+        deserialize_i16
+        deserialize_i32
+        deserialize_i64
+        deserialize_i128
+        deserialize_u8
+        deserialize_u16
+        deserialize_u32
+        deserialize_u64
+        deserialize_u128
+        deserialize_f32
+        deserialize_f64
+        deserialize_char
+        deserialize_bytes
+        deserialize_byte_buf
+        deserialize_option
+        deserialize_unit
+        deserialize_seq
+        deserialize_map
+    }
+
+    fn deserialize_unit_struct<V>(
+        self,
+        name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.delegate.deserialize_unit_struct(name, visitor)
+    }
+
+    fn deserialize_newtype_struct<V>(
+        self,
+        name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.delegate.deserialize_newtype_struct(name, visitor)
+    }
+
+    fn deserialize_tuple<V>(self, len: usize, visitor: V) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.delegate.deserialize_tuple(len, visitor)
+    }
+
+    fn deserialize_tuple_struct<V>(
+        self,
+        name: &'static str,
+        len: usize,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.delegate.deserialize_tuple_struct(name, len, visitor)
+    }
+
+    fn deserialize_struct<V>(
+        self,
+        name: &'static str,
+        fields: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.delegate.deserialize_struct(name, fields, visitor)
+    }
+
+    fn deserialize_enum<V>(
+        self,
+        name: &'static str,
+        variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: Visitor<'de>,
+    {
+        self.delegate.deserialize_enum(name, variants, visitor)
+    }
+
+    // Struct fields and enum variants are written as string keys, even where
+    // the format would have written an index.
     forward_to_deserialize_any! {
-        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
-        bytes byte_buf option unit unit_struct newtype_struct seq tuple
-        tuple_struct map struct enum identifier ignored_any
+        str string identifier ignored_any
     }
 }
 
-- 
2.43.0


From 60785b2600002842d26bdcf064fbb28602f3a648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 13/13] fix: read what follows a late tag as what follows an
 early one

Types stored under the `value` key, and optional ones, could not be read
back when another entry preceded the tag.
---
 src/internally.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/internally.rs b/src/internally.rs
index d9f30df..e849604 100644
--- a/src/internally.rs
+++ b/src/internally.rs
@@ -7,9 +7,9 @@ use alloc::boxed::Box;
 use alloc::string::String;
 use alloc::vec::Vec;
 use core::fmt;
+use serde::de::value::MapDeserializer;
 use serde::de::{
-    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, IntoDeserializer, MapAccess,
-    VariantAccess, Visitor,
+    self, DeserializeSeed, Deserializer, EnumAccess, IgnoredAny, MapAccess, VariantAccess, Visitor,
 };
 use serde::forward_to_deserialize_any;
 use serde::ser::{Serialize, Serializer};
@@ -121,8 +121,10 @@ impl<'de, T: ?Sized> Visitor<'de> for TaggedVisitor<T> {
         };
 
         let fn_apply = FnApply { deserialize_fn };
-        let content = Content::Map(entries).into_deserializer();
-        fn_apply.deserialize(content)
+        let mut map = MapDeserializer::new(entries.into_iter());
+        let value = fn_apply.deserialize(MapWithStringKeys { map: &mut map })?;
+        map.end()?;
+        Ok(value)
     }
 }
 
-- 
2.43.0

