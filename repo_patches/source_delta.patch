From 0644351ce8b833ceb71a165fed8eade88ebd9d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 01/25] fix: report truncated string padding as an error
 instead of panicking

---
 serde-xdr/src/de.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index 8f748f2..b4a8f71 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -88,7 +88,7 @@ impl<'de> Deserializer<'de> {
         let v = self.read(size)?;
         let v = str::from_utf8(v)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
@@ -99,7 +99,7 @@ impl<'de> Deserializer<'de> {
 
         let v = self.read(size)?;
         if padding_size < 4 {
-            self.input = &self.input[padding_size..];
+            self.read(padding_size)?;
         }
         Ok(v)
     }
-- 
2.43.0


From d905eaf020b2303ee68fe81cb5b7a41a9f00546f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 02/25] fix: refuse lengths that do not fit in 32 bits instead
 of truncating them

---
 serde-xdr/src/ser.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/serde-xdr/src/ser.rs b/serde-xdr/src/ser.rs
index 81a5946..54818bf 100644
--- a/serde-xdr/src/ser.rs
+++ b/serde-xdr/src/ser.rs
@@ -89,7 +89,7 @@ impl ser::Serializer for &mut Serializer {
     fn serialize_bytes(self, v: &[u8]) -> Result<Self::Ok, Self::Error> {
         let size = v.len();
         let padding_size = 4 - size % 4;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         self.output.extend_from_slice(v);
         if padding_size < 4 {
             let mut padding = vec![0u8; padding_size];
@@ -155,7 +155,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_seq(self, len: Option<usize>) -> Result<Self::SerializeSeq, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
@@ -184,7 +184,7 @@ impl ser::Serializer for &mut Serializer {
 
     fn serialize_map(self, len: Option<usize>) -> Result<Self::SerializeMap, Self::Error> {
         let size = len.ok_or(Error::NotSupported)?;
-        self.serialize_u32(size as u32)?;
+        self.serialize_u32(size.try_into()?)?;
         Ok(self)
     }
 
-- 
2.43.0


From d332045be5e7dd4b2e45af45a8bc8c76328f2a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 03/25] fix: refuse integers out of range of the requested 8-
 or 16-bit type

---
 serde-xdr/src/de.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/serde-xdr/src/de.rs b/serde-xdr/src/de.rs
index b4a8f71..fd74a0c 100644
--- a/serde-xdr/src/de.rs
+++ b/serde-xdr/src/de.rs
@@ -126,14 +126,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i8(self.read_i32()? as i8)
+        visitor.visit_i8(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_i16(self.read_i32()? as i16)
+        visitor.visit_i16(self.read_i32()?.try_into()?)
     }
 
     fn deserialize_i32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
@@ -154,14 +154,14 @@ impl<'de> de::Deserializer<'de> for &mut Deserializer<'de> {
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u8(self.read_u32()? as u8)
+        visitor.visit_u8(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u16<V>(self, visitor: V) -> Result<V::Value, Self::Error>
     where
         V: de::Visitor<'de>,
     {
-        visitor.visit_u16(self.read_u32()? as u16)
+        visitor.visit_u16(self.read_u32()?.try_into()?)
     }
 
     fn deserialize_u32<V>(self, visitor: V) -> Result<V::Value, Self::Error>
-- 
2.43.0


From 817fc5bf15f74e76b231159c510c71a9fa476388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:21 +0000
Subject: [PATCH 04/25] fix: do not allocate an announced opaque length before
 the data is read

---
 serde-xdr/src/opaque.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/serde-xdr/src/opaque.rs b/serde-xdr/src/opaque.rs
index b2bf25c..0e9cd04 100644
--- a/serde-xdr/src/opaque.rs
+++ b/serde-xdr/src/opaque.rs
@@ -69,16 +69,14 @@ where
 {
     let size = seq.size_hint().unwrap();
 
-    let mut bytes = vec![0u8; size];
+    let mut bytes = vec![];
     let padded_len = size.div_ceil(4);
 
-    let mut idx = 0;
     for _ in 0..padded_len {
         if let Some(v) = seq.next_element::<u32>()? {
             for b in v.to_be_bytes() {
-                if idx < size {
-                    bytes[idx] = b;
-                    idx += 1;
+                if bytes.len() < size {
+                    bytes.push(b);
                 }
             }
         }
-- 
2.43.0


From 199ab55603542f4a6ce816fa63a7e91b116bcece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:45 +0000
Subject: [PATCH 05/25] fix: let derived unions decode variants of any number
 of fields

---
 serde-xdr-derive/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/serde-xdr-derive/src/lib.rs b/serde-xdr-derive/src/lib.rs
index 360cc0c..802d94c 100644
--- a/serde-xdr-derive/src/lib.rs
+++ b/serde-xdr-derive/src/lib.rs
@@ -10,6 +10,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
 
     let mut ser_match_arms = vec![];
     let mut de_match_arms = vec![];
+    let mut max_len = 1usize;
     for variant in ast.variants.iter() {
         let variant_ident = &variant.ident;
         match &variant.fields {
@@ -22,6 +23,8 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                 let mut de_stmts = vec![];
                 let mut de_rets = vec![];
 
+                max_len = max_len.max(unnamed.unnamed.len() + 1);
+
                 for (i, field) in unnamed.unnamed.iter().enumerate() {
                     let arg_ident = format_ident!("a{}", i);
                     let ret_ident = format_ident!("r{}", i);
@@ -105,7 +108,7 @@ pub fn xdr_indexer(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrIndexerVisitor)
+                deserializer.deserialize_tuple(#max_len, XdrIndexerVisitor)
             }
         }
     };
@@ -121,6 +124,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
 
     let mut ser_match_arms = vec![];
     let mut de_match_arms = vec![];
+    let mut max_len = 1usize;
     let mut value_ty: Option<Type> = None;
     for variant in ast.variants.iter() {
         let variant_ident = &variant.ident;
@@ -134,6 +138,8 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                 let mut de_stmts = vec![];
                 let mut de_rets = vec![];
 
+                max_len = max_len.max(unnamed.unnamed.len());
+
                 let mut first = true;
                 for (i, field) in unnamed.unnamed.iter().enumerate() {
                     let arg_ident = format_ident!("a{}", i);
@@ -228,7 +234,7 @@ pub fn xdr_union(input: TokenStream) -> TokenStream {
                     }
                 }
 
-                deserializer.deserialize_tuple(10, XdrUnionVisitor)
+                deserializer.deserialize_tuple(#max_len, XdrUnionVisitor)
             }
         }
     };
-- 
2.43.0


From 2fe1aac9864a42483bd56df39bc41b3433855114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:29 +0000
Subject: [PATCH 06/25] fix: report constants defined by themselves instead of
 recursing without end

---
 rpcgen/src/gen_code.rs | 74 ++++++++++++++++++++++++++++++------------
 1 file changed, 53 insertions(+), 21 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index c518714..0a1e550 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -56,50 +56,82 @@ impl Context {
     where
         T: TryFrom<&'a Constant>,
     {
-        let (_, value) = self
-            .constants
-            .iter()
-            .find(|(n, _)| n == name)
+        let value = self
+            .find_const(name)
             .ok_or_else(|| Error::NotFountIdentifier(name.to_string()))?;
-        match value {
-            Value::Constant(c) => c.value::<T>(),
-            Value::Identifier(i) => self.resolve_name(i),
-        }
+        self.resolve_value(value)
     }
 
     pub fn resolve_enum_value<'a, T>(&'a self, name: &str) -> Result<T, Error>
     where
         T: TryFrom<&'a Constant>,
     {
+        let value = self
+            .find_enumerator(name)
+            .ok_or_else(|| Error::NotFountIdentifier(name.to_string()))?;
+        self.resolve_value(value)
+    }
+
+    pub fn resolve_name<'a, T>(&'a self, name: &str) -> Result<T, Error>
+    where
+        T: TryFrom<&'a Constant>,
+    {
+        match self.find_const(name) {
+            Some(value) => self.resolve_value(value),
+            None => self.resolve_enum_value::<T>(name),
+        }
+    }
+
+    fn find_const(&self, name: &str) -> Option<&Value> {
+        let (_, value) = self.constants.iter().find(|(n, _)| n == name)?;
+        Some(value)
+    }
+
+    fn find_enumerator(&self, name: &str) -> Option<&Value> {
         for (_, typedef) in &self.typedefs {
             if let TypeDef::Enum(_, assigns) = typedef {
                 let assign = assigns.iter().find(|a| a.identifier == name);
                 if let Some(assign) = assign {
-                    return self.resolve_value::<T>(&assign.value);
+                    return Some(&assign.value);
                 }
             }
         }
 
-        Err(Error::NotFountIdentifier(name.to_string()))
+        None
     }
 
-    pub fn resolve_name<'a, T>(&'a self, name: &str) -> Result<T, Error>
-    where
-        T: TryFrom<&'a Constant>,
-    {
-        self.resolve_const_value::<T>(name)
-            .or_else(|_| self.resolve_enum_value::<T>(name))
+    fn count_names(&self) -> usize {
+        let mut count = self.constants.len();
+        for (_, typedef) in &self.typedefs {
+            if let TypeDef::Enum(_, assigns) = typedef {
+                count += assigns.len();
+            }
+        }
+
+        count
     }
 
     fn resolve_value<'a, T>(&'a self, value: &'a Value) -> Result<T, Error>
     where
         T: TryFrom<&'a Constant>,
     {
-        let value = match value {
-            Value::Constant(c) => c.value::<T>()?,
-            Value::Identifier(identifier) => self.resolve_name::<T>(identifier)?,
-        };
-        Ok(value)
+        let mut value = value;
+        // A chain of names longer than the number of names leads back to itself.
+        for _ in 0..=self.count_names() {
+            match value {
+                Value::Constant(c) => return c.value::<T>(),
+                Value::Identifier(name) => {
+                    value = match self.find_const(name) {
+                        Some(v) => v,
+                        None => self
+                            .find_enumerator(name)
+                            .ok_or_else(|| Error::NotFountIdentifier(name.to_string()))?,
+                    };
+                }
+            }
+        }
+
+        Err(Error::NotSupported)
     }
 }
 
-- 
2.43.0


From 805c3470f0786bb71e601870e1b88800ab367ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:31 +0000
Subject: [PATCH 07/25] fix: refuse typedefs defined by themselves instead of
 recursing without end

---
 rpcgen/src/gen_code.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 0a1e550..95d2946 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -52,6 +52,32 @@ impl Context {
         false
     }
 
+    fn is_cyclic_typedef(&self, name: &str) -> bool {
+        let mut name = name;
+        // A chain of names longer than the number of names leads back to itself.
+        for _ in 0..=self.typedefs.len() {
+            match self.find_alias(name) {
+                Some(alias) => name = alias,
+                None => return false,
+            }
+        }
+
+        true
+    }
+
+    fn find_alias(&self, name: &str) -> Option<&str> {
+        let (_, typedef) = self.typedefs.iter().find(|(n, _)| n == name)?;
+        match typedef {
+            TypeDef::Declaration(
+                Declaration::Variable(TypeSpecifier::Identifier(alias), _)
+                | Declaration::FixedArray(TypeSpecifier::Identifier(alias), _, _)
+                | Declaration::VariableArray(TypeSpecifier::Identifier(alias), _, _)
+                | Declaration::OptionVariable(TypeSpecifier::Identifier(alias), _),
+            ) => Some(alias),
+            _ => None,
+        }
+    }
+
     pub fn resolve_const_value<'a, T>(&'a self, name: &str) -> Result<T, Error>
     where
         T: TryFrom<&'a Constant>,
@@ -209,6 +235,12 @@ fn setup_context(definitions: &[Definition], cxt: &mut Context) -> Result<(), Er
         }
     }
 
+    for (name, _) in &cxt.typedefs {
+        if cxt.is_cyclic_typedef(name) {
+            return Err(Error::NotSupported);
+        }
+    }
+
     Ok(())
 }
 
-- 
2.43.0


From 9a48d4f400ddf4a09e6c60e02f5a037831ffc168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:32 +0000
Subject: [PATCH 08/25] fix: report declarations without a Rust form instead of
 panicking

---
 rpcgen/src/gen_code.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 95d2946..7a9a963 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -417,7 +417,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         #[repr(i32)]
@@ -448,7 +448,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().unwrap().to_string();
+        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -743,7 +743,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
         quote! { #[derive(Clone, Debug, Deserialize, Serialize)] }
     };
 
-    let default_value = default_value.unwrap();
+    let default_value = default_value.ok_or(Error::NotSupported)?;
     Ok(quote! {
         #derive
         pub enum #name_ident {
@@ -860,7 +860,7 @@ fn convert_primitive_token(
         } else {
             (quote! { u16 }, OpaqueType::None)
         }),
-        TypeSpecifier::Void => unimplemented!(),
+        TypeSpecifier::Void => Err(Error::NotSupported),
     }
 }
 
@@ -887,7 +887,7 @@ fn convert_case_token(
                 let ident = upper_camel_case_ident(c);
                 quote! { #ident }
             } else {
-                unimplemented!()
+                return Err(Error::NotSupported);
             }
         }
     };
-- 
2.43.0


From 15f67ec30bb8d971378556d33b8bba957f38b160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 09/25] fix: do not overflow behind the largest number of an
 enum or union

---
 rpcgen/src/gen_code.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 7a9a963..835f8ef 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -349,7 +349,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
             default_value = Some(quote! { #item_ident });
         }
 
-        start = end + 1;
+        start = end.saturating_add(1);
     }
 
     let as_ref = if cxt.config.enum_impl_std_trait {
@@ -561,7 +561,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     });
                 }
 
-                sindex = eindex + 1;
+                sindex = eindex.saturating_add(1);
 
                 xdr_union_cond_type = Some(tmp_type);
             }
-- 
2.43.0


From 397eed527edece32aae0098b3ef21e8308b662fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 10/25] fix: keep names that leave no Rust identifier from
 panicking the generator

---
 rpcgen/src/gen_code.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 835f8ef..d305136 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -448,7 +448,7 @@ fn convert_struct_token(
 
     let struct_type = Some(TypeSpecifier::Identifier(name.to_string()));
     for declaration in declarations {
-        let mut field_name = declaration.name().ok_or(Error::NotSupported)?.to_string();
+        let field_name = declaration.name().ok_or(Error::NotSupported)?;
         let (mut ty, opaque) = convert_type_token(declaration, cxt)?.ok_or(Error::NotSupported)?;
 
         let derive = match opaque {
@@ -465,11 +465,7 @@ fn convert_struct_token(
             }
         };
 
-        if keyword::rust_reserved(&field_name) {
-            field_name = format!("r#{field_name}");
-        }
-
-        let field_name_ident = snake_case_ident(&field_name);
+        let field_name_ident = snake_case_ident(field_name);
 
         if struct_type == declaration.type_specifier() {
             // TODO: Add nested structure support.
@@ -981,7 +977,13 @@ fn upper_camel_case(value: &str) -> String {
 }
 
 fn upper_camel_case_ident(value: &str) -> Ident {
-    format_ident!("{}", upper_camel_case(value))
+    let name = upper_camel_case(value);
+    if name == "Self" || !name.starts_with(|c: char| c.is_ascii_alphabetic()) {
+        // Nothing but underscores and digits, or a keyword.
+        return format_ident!("_{}", value);
+    }
+
+    format_ident!("{}", name)
 }
 
 fn capitalize(value: &str) -> String {
@@ -1034,7 +1036,13 @@ fn snake_case(value: &str) -> String {
 }
 
 fn snake_case_ident(value: &str) -> Ident {
-    format_ident!("{}", snake_case(value))
+    let name = snake_case(value);
+    match name.as_str() {
+        // These can not even be raw identifiers.
+        "crate" | "self" | "super" | "_" => format_ident!("{}_", name),
+        _ if keyword::rust_reserved(&name) => format_ident!("r#{}", name),
+        _ => format_ident!("{}", name),
+    }
 }
 
 fn with_underscore(value: &str) -> String {
-- 
2.43.0


From e26da4d6a19a4b7f3d225dc7223829e466dd06de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 11/25] fix: resolve names used as array sizes and constant
 values

---
 rpcgen/src/gen_code.rs | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index d305136..ba00d77 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -249,13 +249,13 @@ fn constants_token(cxt: &Context) -> Result<Vec<TokenStream>, Error> {
 
     for (name, value) in &cxt.constants {
         let name_ident = format_ident!("{}", name);
-        let (value_token, ty) = match convert_value_token::<u32>(value, false) {
-            Ok(v) => Ok((v, quote! { u32 })),
-            Err(_) => match convert_value_token::<u64>(value, false) {
-                Ok(v) => Ok((v, quote! { u64 })),
-                Err(e) => Err(e),
-            },
-        }?;
+        let (value_token, ty) = match cxt.resolve_value::<u32>(value) {
+            Ok(v) => (quote! { #v }, quote! { u32 }),
+            Err(_) => {
+                let v = cxt.resolve_value::<u64>(value)?;
+                (quote! { #v }, quote! { u64 })
+            }
+        };
         results.push(quote! {
             pub const #name_ident: #ty = #value_token;
         });
@@ -758,7 +758,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     })
 }
 
-fn convert_value_token<'a, T>(value: &'a Value, cnv: bool) -> Result<TokenStream, Error>
+fn convert_value_token<'a, T>(value: &'a Value) -> Result<TokenStream, Error>
 where
     T: TryFrom<&'a Constant> + ToTokens,
 {
@@ -768,11 +768,7 @@ where
             Ok(quote! { #v })
         }
         Value::Identifier(i) => {
-            let v = if cnv {
-                upper_camel_case_ident(i)
-            } else {
-                format_ident!("{}", i)
-            };
+            let v = upper_camel_case_ident(i);
             Ok(quote! { #v })
         }
     }
@@ -789,7 +785,7 @@ fn convert_type_token(
         }
         Declaration::FixedArray(type_specifier, _, value) => {
             let (ty, opaque) = convert_primitive_token(type_specifier, cxt)?;
-            let len = convert_value_token::<usize>(value, false)?;
+            let len = cxt.resolve_value::<usize>(value)?;
             Ok(Some((quote! { [#ty; #len] }, opaque)))
         }
         Declaration::VariableArray(type_specifier, _, _) => {
@@ -805,8 +801,8 @@ fn convert_type_token(
             }
         }
         Declaration::OpaqueFixedArray(_, value) => {
-            let len = convert_value_token::<usize>(value, false)?;
-            Ok(Some((quote! { [u8; #len as usize] }, OpaqueType::Fixed)))
+            let len = cxt.resolve_value::<usize>(value)?;
+            Ok(Some((quote! { [u8; #len] }, OpaqueType::Fixed)))
         }
         Declaration::OpaqueVariableArray(_, _) => {
             Ok(Some((quote! { Vec<u8> }, OpaqueType::Variable)))
@@ -875,7 +871,7 @@ fn convert_case_token(
     ),
     Error,
 > {
-    let value = convert_value_token::<u32>(value, true)?;
+    let value = convert_value_token::<u32>(value)?;
     let cond_type = match convert_primitive_token(cond_type_spec, cxt) {
         Ok((ty, _)) => ty,
         _ => {
-- 
2.43.0


From 4074ec113df0f44a6d8a0beecc3011afff4defb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:21 +0000
Subject: [PATCH 12/25] fix: let enums with conversions through i32 carry their
 number wherever they are used

---
 rpcgen/src/gen_code.rs | 32 +++++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index ba00d77..0bef9c2 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -411,8 +411,28 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! {}
     };
 
+    let serde = if cxt.config.enum_impl_std_trait {
+        quote! {
+            impl Serialize for #name_ident {
+                fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
+                    serde_xdr::primitive::signed32::serialize(self, serializer)
+                }
+            }
+
+            impl<'de> Deserialize<'de> for #name_ident {
+                fn deserialize<D: serde::Deserializer<'de>>(deserializer: D) -> Result<Self, D::Error> {
+                    serde_xdr::primitive::signed32::deserialize(deserializer)
+                }
+            }
+        }
+    } else {
+        quote! {}
+    };
+
     let derive = if cxt.config.enum_impl_indexer {
         quote! { #[derive(Clone, Debug, PartialEq, XdrIndexer)] }
+    } else if cxt.config.enum_impl_std_trait {
+        quote! { #[derive(Clone, Debug, PartialEq)] }
     } else {
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
     };
@@ -435,6 +455,8 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
         #try_from
 
+        #serde
+
         #indexer
     })
 }
@@ -454,15 +476,7 @@ fn convert_struct_token(
         let derive = match opaque {
             OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
             OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
-            _ => {
-                if cxt.config.enum_impl_std_trait
-                    && cxt.is_enum_type(declaration.type_specifier().unwrap())
-                {
-                    quote! { #[serde(with = "serde_xdr::primitive::signed32")] }
-                } else {
-                    quote! {}
-                }
-            }
+            _ => quote! {},
         };
 
         let field_name_ident = snake_case_ident(field_name);
-- 
2.43.0


From 2ab0f2da2dd4a187e98b94433feb5550f2ba5ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:07 +0000
Subject: [PATCH 13/25] fix: resolve every name through the same chain walk

---
 rpcgen/src/gen_code.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 0bef9c2..cbeec46 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -85,7 +85,7 @@ impl Context {
         let value = self
             .find_const(name)
             .ok_or_else(|| Error::NotFountIdentifier(name.to_string()))?;
-        self.resolve_value(value)
+        self.resolve_chain(value)
     }
 
     pub fn resolve_enum_value<'a, T>(&'a self, name: &str) -> Result<T, Error>
@@ -95,7 +95,7 @@ impl Context {
         let value = self
             .find_enumerator(name)
             .ok_or_else(|| Error::NotFountIdentifier(name.to_string()))?;
-        self.resolve_value(value)
+        self.resolve_chain(value)
     }
 
     pub fn resolve_name<'a, T>(&'a self, name: &str) -> Result<T, Error>
@@ -103,8 +103,8 @@ impl Context {
         T: TryFrom<&'a Constant>,
     {
         match self.find_const(name) {
-            Some(value) => self.resolve_value(value),
-            None => self.resolve_enum_value::<T>(name),
+            Some(_) => self.resolve_const_value(name),
+            None => self.resolve_enum_value(name),
         }
     }
 
@@ -138,6 +138,16 @@ impl Context {
     }
 
     fn resolve_value<'a, T>(&'a self, value: &'a Value) -> Result<T, Error>
+    where
+        T: TryFrom<&'a Constant>,
+    {
+        match value {
+            Value::Constant(c) => c.value::<T>(),
+            Value::Identifier(name) => self.resolve_name(name),
+        }
+    }
+
+    fn resolve_chain<'a, T>(&'a self, value: &'a Value) -> Result<T, Error>
     where
         T: TryFrom<&'a Constant>,
     {
-- 
2.43.0


From 2f5085bd8c170b5c2cf2a34f480cfaa01500e52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:08 +0000
Subject: [PATCH 14/25] fix: give numeric case labels a variant of their own

---
 rpcgen/src/gen_code.rs | 43 ++++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index cbeec46..56272de 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -3,8 +3,8 @@ use crate::keyword;
 use crate::parser::{
     Assign, Constant, Declaration, Definition, TypeDef, TypeSpecifier, UnionBody, Value,
 };
-use proc_macro2::{Ident, TokenStream};
-use quote::{ToTokens, format_ident, quote};
+use proc_macro2::{Ident, Literal, TokenStream};
+use quote::{format_ident, quote};
 use std::convert::TryFrom;
 
 #[derive(Clone, Default)]
@@ -568,16 +568,21 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                 if cxt.is_enum_type(cond_type.clone()) {
                     if let TypeSpecifier::Identifier(cond_type) = cond_type {
                         let cond_type_ident = upper_camel_case_ident(cond_type);
-                        if let Value::Identifier(value) = value_token {
-                            let value_ident = upper_camel_case_ident(value);
-                            xdr_union_name_by_value.push(quote! {
-                                #cond_type_ident::#value_ident => Ok(stringify!(#variant))
-                            });
+                        match value_token {
+                            Value::Identifier(value) => {
+                                let value_ident = upper_camel_case_ident(value);
+                                xdr_union_name_by_value.push(quote! {
+                                    #cond_type_ident::#value_ident => Ok(stringify!(#variant))
+                                });
+                            }
+                            _ if cxt.config.union_impl_union => return Err(Error::NotSupported),
+                            _ => {}
                         }
                     }
                 } else {
+                    let label = Literal::u32_unsuffixed(eindex);
                     xdr_union_name_by_value.push(quote! {
-                        #eindex => Ok(stringify!(#variant))
+                        #label => Ok(stringify!(#variant))
                     });
                 }
 
@@ -782,20 +787,12 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     })
 }
 
-fn convert_value_token<'a, T>(value: &'a Value) -> Result<TokenStream, Error>
-where
-    T: TryFrom<&'a Constant> + ToTokens,
-{
-    match value {
-        Value::Constant(c) => {
-            let v = c.value::<T>()?;
-            Ok(quote! { #v })
-        }
-        Value::Identifier(i) => {
-            let v = upper_camel_case_ident(i);
-            Ok(quote! { #v })
-        }
-    }
+fn convert_label_token(value: &Value) -> Result<TokenStream, Error> {
+    let v = match value {
+        Value::Constant(c) => format_ident!("Case{}", c.value::<u32>()?.to_string()),
+        Value::Identifier(i) => upper_camel_case_ident(i),
+    };
+    Ok(quote! { #v })
 }
 
 fn convert_type_token(
@@ -895,7 +892,7 @@ fn convert_case_token(
     ),
     Error,
 > {
-    let value = convert_value_token::<u32>(value)?;
+    let value = convert_label_token(value)?;
     let cond_type = match convert_primitive_token(cond_type_spec, cxt) {
         Ok((ty, _)) => ty,
         _ => {
-- 
2.43.0


From 8679ece124f66bf08ce3cdbc59f0cb388b08421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:10 +0000
Subject: [PATCH 15/25] fix: accept boolean unions with a single case under the
 value-discriminated option

---
 rpcgen/src/gen_code.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 56272de..8b24cc8 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -736,13 +736,14 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     };
 
     let xdr_union = if cxt.config.union_impl_union {
-        let xdr_union_name_by_value_default_arm = if cond_type == &TypeSpecifier::Bool {
-            quote! {}
-        } else if body.default.is_some() {
-            quote! { _ => Ok(stringify!(Default)), }
-        } else {
-            quote! { _ => Err(::serde_xdr::error::Error::Convert), }
-        };
+        let xdr_union_name_by_value_default_arm =
+            if cond_type == &TypeSpecifier::Bool && xdr_union_name_by_value.len() == 2 {
+                quote! {}
+            } else if body.default.is_some() {
+                quote! { _ => Ok(stringify!(Default)), }
+            } else {
+                quote! { _ => Err(::serde_xdr::error::Error::Convert), }
+            };
 
         quote! {
             impl XdrUnion<#xdr_union_cond_type> for #name_ident {
-- 
2.43.0


From 8e3051a3c1c6a0b3bb1b5d4988448ea535935094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 16/25] fix: encode opaque data in default arms as opaque

---
 rpcgen/src/gen_code.rs | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 8b24cc8..123bcca 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -670,15 +670,18 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
     }
 
     if let Some(default) = &body.default {
-        if let Some((v_ty, _)) = convert_type_token(default, cxt)? {
+        if let Some((v_ty, opaque)) = convert_type_token(default, cxt)? {
+            let (derive, v_ty) = convert_arm_token(v_ty, opaque, cxt);
             if cxt.config.union_impl_union {
                 specs.push(quote! {
+                    #derive
                     Default(#xdr_union_cond_type, #v_ty)
                 });
 
                 default_value = Some(quote! { Default(Default::default(), Default::default()) });
             } else {
                 specs.push(quote! {
+                    #derive
                     Default(#v_ty)
                 });
 
@@ -907,18 +910,8 @@ fn convert_case_token(
     };
 
     let decl = convert_type_token(declaration, cxt)?;
-    if let Some((mut v_ty, opaque)) = decl {
-        let derive = if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
-            // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
-            v_ty = quote! { serde_xdr::opaque::VariableArray };
-            quote! {}
-        } else {
-            match opaque {
-                OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
-                OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
-                _ => quote! {},
-            }
-        };
+    if let Some((v_ty, opaque)) = decl {
+        let (derive, v_ty) = convert_arm_token(v_ty, opaque, cxt);
 
         let value_token = if cxt.config.union_impl_union {
             quote! {
@@ -956,6 +949,26 @@ fn convert_case_token(
     }
 }
 
+fn convert_arm_token(
+    mut v_ty: TokenStream,
+    opaque: OpaqueType,
+    cxt: &Context,
+) -> (TokenStream, TokenStream) {
+    let derive = if opaque != OpaqueType::None && !cxt.config.union_complement_index() {
+        // XdrIndexer を使用する場合は serde 属性が使用できないのでラッパオブジェクトを使用する。
+        v_ty = quote! { serde_xdr::opaque::VariableArray };
+        quote! {}
+    } else {
+        match opaque {
+            OpaqueType::Fixed => quote! { #[serde(with = "serde_xdr::opaque::fixed")] },
+            OpaqueType::Variable => quote! { #[serde(with = "serde_xdr::opaque::variable")] },
+            _ => quote! {},
+        }
+    };
+
+    (derive, v_ty)
+}
+
 fn resolve_type_token(value: &str, cxt: &Context) -> Result<(TokenStream, OpaqueType), Error> {
     if !cxt.config.remove_typedef {
         let name = upper_camel_case_ident(value);
-- 
2.43.0


From 80c4eec6afa7b8e8c99d23aacbcead2d4ab6f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:50 +0000
Subject: [PATCH 17/25] fix: carry the number of enums with negative
 enumerators

---
 rpcgen/src/gen_code.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 123bcca..2c2a822 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -317,6 +317,12 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     indexed.sort_by_key(|i| i.0);
 
+    // A negative number is no index, so that these enums are serialized by their number.
+    let has_negative = indexed.first().is_some_and(|i| i.0 < 0);
+    let impl_std_trait =
+        cxt.config.enum_impl_std_trait || (cxt.config.enum_complement_index() && has_negative);
+    let complement_index = cxt.config.enum_complement_index() && !has_negative;
+
     let name_ident = upper_camel_case_ident(name);
 
     let mut values = vec![];
@@ -328,7 +334,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     let mut start: i32 = 0;
     for (end, assign) in indexed {
-        if cxt.config.enum_complement_index() {
+        if complement_index {
             for index in start..end {
                 // enum は index でシリアライズするため存在しない値は補完する。
                 let reserved = format_ident!("_Reserved{}", index.to_string());
@@ -362,7 +368,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         start = end.saturating_add(1);
     }
 
-    let as_ref = if cxt.config.enum_impl_std_trait {
+    let as_ref = if impl_std_trait {
         quote! {
             impl AsRef<i32> for #name_ident {
                 fn as_ref(&self) -> &'static i32 {
@@ -376,7 +382,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! {}
     };
 
-    let try_from = if cxt.config.enum_impl_std_trait {
+    let try_from = if impl_std_trait {
         quote! {
             impl TryFrom<i32> for #name_ident {
                 type Error = serde_xdr::error::Error;
@@ -421,7 +427,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
         quote! {}
     };
 
-    let serde = if cxt.config.enum_impl_std_trait {
+    let serde = if impl_std_trait {
         quote! {
             impl Serialize for #name_ident {
                 fn serialize<S: serde::Serializer>(&self, serializer: S) -> Result<S::Ok, S::Error> {
@@ -441,7 +447,7 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
 
     let derive = if cxt.config.enum_impl_indexer {
         quote! { #[derive(Clone, Debug, PartialEq, XdrIndexer)] }
-    } else if cxt.config.enum_impl_std_trait {
+    } else if impl_std_trait {
         quote! { #[derive(Clone, Debug, PartialEq)] }
     } else {
         quote! { #[derive(Clone, Debug, Deserialize, PartialEq, Serialize)] }
-- 
2.43.0


From a46e7bd0ae66d353f956d8a4f45f4709349822b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:02 +0000
Subject: [PATCH 18/25] fix: refuse gaps in enums and unions that can not be
 filled with reserved variants

---
 rpcgen/src/gen_code.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index 2c2a822..ceedf58 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -171,6 +171,9 @@ impl Context {
     }
 }
 
+// Number of reserved variants in a row.
+const RESERVED_MAX: u32 = u16::MAX as u32;
+
 #[derive(Clone, Debug, PartialEq)]
 enum OpaqueType {
     None,
@@ -335,6 +338,10 @@ fn convert_enum_token(name: &str, assigns: &[Assign], cxt: &Context) -> Result<T
     let mut start: i32 = 0;
     for (end, assign) in indexed {
         if complement_index {
+            if end.abs_diff(start) > RESERVED_MAX {
+                return Err(Error::NotSupported);
+            }
+
             for index in start..end {
                 // enum は index でシリアライズするため存在しない値は補完する。
                 let reserved = format_ident!("_Reserved{}", index.to_string());
@@ -536,7 +543,7 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             let mut values = vec![];
             for spec in &body.specs {
                 for value in &spec.values {
-                    let index = cxt.resolve_value(value)?;
+                    let index = cxt.resolve_value::<u32>(value)?;
                     values.push((index, spec.declaration.clone(), value));
                 }
             }
@@ -546,6 +553,10 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             let mut sindex: u32 = 0;
             for (eindex, decl, value_token) in values {
                 if cxt.config.union_complement_index() {
+                    if eindex.abs_diff(sindex) > RESERVED_MAX {
+                        return Err(Error::NotSupported);
+                    }
+
                     for index in sindex..eindex {
                         // enum は index でシリアライズするため存在しない値は補完する。
                         let reserved = format_ident!("_Reserved{}", index.to_string());
-- 
2.43.0


From a802e43b3ebe4c03256c5f4724b63d76f06b07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:04 +0000
Subject: [PATCH 19/25] fix: refuse unions with two cases for the same value

---
 rpcgen/src/gen_code.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index ceedf58..fe7deba 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -549,6 +549,9 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
             }
 
             values.sort_by_key(|s| s.0);
+            if values.windows(2).any(|s| s[0].0 == s[1].0) {
+                return Err(Error::NotSupported);
+            }
 
             let mut sindex: u32 = 0;
             for (eindex, decl, value_token) in values {
-- 
2.43.0


From d57b99b6727249d854be50cf3f5af53f65c8cf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:01 +0000
Subject: [PATCH 20/25] fix: accept types whose name starts with void

---
 rpcgen/src/parser.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index b178a94..f0ba68f 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -499,7 +499,6 @@ fn decimal_nonzero(input: &str) -> IResult<&str, Constant> {
 fn declaration(input: &str) -> IResult<&str, Declaration> {
     // 優先度順に並べる。
     alt((
-        map(tag("void"), |_| Declaration::void()),
         map(
             (
                 preceded((tag("opaque"), multispace1), identifier),
@@ -548,6 +547,8 @@ fn declaration(input: &str) -> IResult<&str, Declaration> {
             (type_specifier, preceded(multispace1, identifier)),
             |(t, i)| Declaration::variable(t, i),
         ),
+        // A name of a type may start with a keyword.
+        map(tag("void"), |_| Declaration::void()),
     ))
     .parse(input)
 }
-- 
2.43.0


From 7cbc8acd096abc5b441315bf795bd058c7107269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:02 +0000
Subject: [PATCH 21/25] fix: accept type keywords right before punctuation

---
 rpcgen/src/parser.rs | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index f0ba68f..b07d675 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -8,7 +8,7 @@ use nom::{
         alpha1, alphanumeric1, digit1, hex_digit1, line_ending, multispace0, multispace1,
         not_line_ending, oct_digit1, one_of,
     },
-    combinator::{map, opt, peek, recognize, verify},
+    combinator::{map, not, opt, recognize, verify},
     multi::{many0, many1, separated_list1},
     sequence::{delimited, pair, preceded, terminated},
 };
@@ -672,22 +672,22 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("int"), peek(multispace1)),
+                terminated(tag("int"), word_end),
             ),
             |_| TypeSpecifier::Int(false),
         ),
-        map(terminated(tag("int"), peek(multispace1)), |_| {
+        map(terminated(tag("int"), word_end), |_| {
             TypeSpecifier::Int(true)
         }),
         map(
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("hyper"), peek(multispace1)),
+                terminated(tag("hyper"), word_end),
             ),
             |_| TypeSpecifier::Hyper(false),
         ),
-        map(terminated(tag("hyper"), peek(multispace1)), |_| {
+        map(terminated(tag("hyper"), word_end), |_| {
             TypeSpecifier::Hyper(true)
         }),
         // start (libvirt extenstion)
@@ -695,40 +695,36 @@ fn type_specifier(input: &str) -> IResult<&str, TypeSpecifier> {
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("char"), peek(multispace1)),
+                terminated(tag("char"), word_end),
             ),
             |_| TypeSpecifier::Char(false),
         ),
-        map(terminated(tag("char"), peek(multispace1)), |_| {
+        map(terminated(tag("char"), word_end), |_| {
             TypeSpecifier::Char(true)
         }),
         map(
             (
                 tag("unsigned"),
                 multispace1,
-                terminated(tag("short"), peek(multispace1)),
+                terminated(tag("short"), word_end),
             ),
             |_| TypeSpecifier::Short(false),
         ),
-        map(terminated(tag("short"), peek(multispace1)), |_| {
+        map(terminated(tag("short"), word_end), |_| {
             TypeSpecifier::Short(true)
         }),
-        map(terminated(tag("unsigned"), peek(multispace1)), |_| {
+        map(terminated(tag("unsigned"), word_end), |_| {
             TypeSpecifier::Int(false)
         }),
         // end (libvirt extenstion)
-        map(terminated(tag("float"), peek(multispace1)), |_| {
-            TypeSpecifier::Float
-        }),
-        map(terminated(tag("double"), peek(multispace1)), |_| {
+        map(terminated(tag("float"), word_end), |_| TypeSpecifier::Float),
+        map(terminated(tag("double"), word_end), |_| {
             TypeSpecifier::Double
         }),
-        map(terminated(tag("quadruple"), peek(multispace1)), |_| {
+        map(terminated(tag("quadruple"), word_end), |_| {
             TypeSpecifier::Quadruple
         }),
-        map(terminated(tag("bool"), peek(multispace1)), |_| {
-            TypeSpecifier::Bool
-        }),
+        map(terminated(tag("bool"), word_end), |_| TypeSpecifier::Bool),
         map(enum_type_spec, TypeSpecifier::enum_type),
         map(struct_type_spec, TypeSpecifier::struct_type),
         map(union_type_spec, TypeSpecifier::union_type),
@@ -828,6 +824,11 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
     .parse(input)
 }
 
+// A keyword does not continue with another letter.
+fn word_end(input: &str) -> IResult<&str, ()> {
+    not(alt((alphanumeric1, tag("_")))).parse(input)
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3142e19fb9160c4d8b6ea69fd76fa8e727de85e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:03 +0000
Subject: [PATCH 22/25] fix: accept specifications of comments only

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index b07d675..063f766 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -608,7 +608,7 @@ fn octal(input: &str) -> IResult<&str, Constant> {
 }
 
 fn specification(input: &str) -> IResult<&str, Vec<Definition>> {
-    many0(delimited(comment0, definition, comment0)).parse(input)
+    preceded(comment0, many0(terminated(definition, comment0))).parse(input)
 }
 
 fn struct_body(input: &str) -> IResult<&str, Vec<Declaration>> {
-- 
2.43.0


From 795c82e56f2330379760b5095f525838b55cc235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:04 +0000
Subject: [PATCH 23/25] fix: accept white space between versions

---
 rpcgen/src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 063f766..5c9a6eb 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -778,7 +778,7 @@ fn program(input: &str) -> IResult<&str, Program> {
             preceded((tag("program"), multispace1), identifier),
             delimited(
                 (multispace0, tag("{"), multispace0),
-                many1(version),
+                many1(terminated(version, comment0)),
                 (multispace0, tag("}"), multispace0),
             ),
             delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
-- 
2.43.0


From 055f25aa5638c42ce0353d84245fda9a40ae8c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:05 +0000
Subject: [PATCH 24/25] fix: accept comments in programs

---
 rpcgen/src/parser.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/rpcgen/src/parser.rs b/rpcgen/src/parser.rs
index 5c9a6eb..df7d0d4 100644
--- a/rpcgen/src/parser.rs
+++ b/rpcgen/src/parser.rs
@@ -777,11 +777,11 @@ fn program(input: &str) -> IResult<&str, Program> {
         (
             preceded((tag("program"), multispace1), identifier),
             delimited(
-                (multispace0, tag("{"), multispace0),
+                (comment0, tag("{"), comment0),
                 many1(terminated(version, comment0)),
-                (multispace0, tag("}"), multispace0),
+                (comment0, tag("}"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c)| Program::new(a, b, c),
     )
@@ -793,11 +793,11 @@ fn version(input: &str) -> IResult<&str, Version> {
         (
             preceded((tag("version"), multispace1), identifier),
             delimited(
-                (multispace0, tag("{"), multispace0),
-                many1(terminated(procedure, multispace0)),
-                (multispace0, tag("}"), multispace0),
+                (comment0, tag("{"), comment0),
+                many1(terminated(procedure, comment0)),
+                (comment0, tag("}"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c)| Version::new(a, b, c),
     )
@@ -813,11 +813,11 @@ fn procedure(input: &str) -> IResult<&str, Procedure> {
             ),
             identifier,
             delimited(
-                (multispace0, tag("("), multispace0),
+                (comment0, tag("("), comment0),
                 alt((type_specifier, map(tag("void"), |_| TypeSpecifier::Void))),
-                (multispace0, tag(")"), multispace0),
+                (comment0, tag(")"), comment0),
             ),
-            delimited((tag("="), multispace0), value, (multispace0, tag(";"))),
+            delimited((tag("="), comment0), value, (comment0, tag(";"))),
         ),
         |(a, b, c, d)| Procedure::new(a, b, c, d),
     )
-- 
2.43.0


From b322cbe6ae1118b72632728e3c07f810847c15f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:55 +0000
Subject: [PATCH 25/25] fix: value-discriminated union over a typedef of an
 enum

The selector was matched with numbers instead of the enumerators, which does
not compile.
---
 rpcgen/src/gen_code.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/rpcgen/src/gen_code.rs b/rpcgen/src/gen_code.rs
index fe7deba..6d3db72 100644
--- a/rpcgen/src/gen_code.rs
+++ b/rpcgen/src/gen_code.rs
@@ -52,6 +52,23 @@ impl Context {
         false
     }
 
+    /// The type that a name defined by `typedef name alias` stands for.
+    fn resolve_alias<'a>(&'a self, ty: &'a TypeSpecifier) -> &'a TypeSpecifier {
+        let mut ty = ty;
+        for _ in 0..=self.typedefs.len() {
+            let name = match ty {
+                TypeSpecifier::Identifier(name) => name,
+                _ => return ty,
+            };
+            match self.typedefs.iter().find(|(n, _)| n == name) {
+                Some((_, TypeDef::Declaration(Declaration::Variable(alias, _)))) => ty = alias,
+                _ => return ty,
+            }
+        }
+
+        ty
+    }
+
     fn is_cyclic_typedef(&self, name: &str) -> bool {
         let mut name = name;
         // A chain of names longer than the number of names leads back to itself.
@@ -585,8 +602,9 @@ fn convert_union_token(name: &str, body: &UnionBody, cxt: &Context) -> Result<To
                     #name_ident::#variant_arm => #index
                 });
 
-                if cxt.is_enum_type(cond_type.clone()) {
-                    if let TypeSpecifier::Identifier(cond_type) = cond_type {
+                let enum_type = cxt.resolve_alias(cond_type);
+                if cxt.is_enum_type(enum_type.clone()) {
+                    if let TypeSpecifier::Identifier(cond_type) = enum_type {
                         let cond_type_ident = upper_camel_case_ident(cond_type);
                         match value_token {
                             Value::Identifier(value) => {
-- 
2.43.0

