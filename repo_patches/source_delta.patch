From 2ac3f6bfc155a56c2a4ca3ce3b22719a3d6afe31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:39 +0000
Subject: [PATCH 01/23] fix: forget the fields of an abandoned table when a
 builder is reset

---
 butte/src/builder.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index bcf4418..5f14b52 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -111,6 +111,7 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
         self.head = self.owned_buf.len();
         self.written_vtable_revpos.clear();
+        self.field_locs.clear();
 
         self.nested = false;
         self.finished = false;
-- 
2.43.0


From 7522fc3d956b023e9bb22a8cfa4416497caa9c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:39 +0000
Subject: [PATCH 02/23] fix: read and write scalars without assuming alignment

---
 butte/src/endian_scalar.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index 1264591..c00f668 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -157,7 +157,8 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
     let mut_ptr = (&mut s[..sz]).as_mut_ptr() as *mut T;
     let val = x.to_little_endian();
     unsafe {
-        *mut_ptr = val;
+        // the slice is not necessarily aligned for T
+        mut_ptr.write_unaligned(val);
     }
 }
 
@@ -176,7 +177,8 @@ pub fn read_scalar<T: EndianScalar>(s: &[u8]) -> Result<T, Error> {
     let sz = size_of::<T>();
 
     let p = s.get(..sz).ok_or(Error::OutOfBounds)?.as_ptr() as *const T;
-    let x = unsafe { *p };
+    // the slice is not necessarily aligned for T
+    let x = unsafe { p.read_unaligned() };
 
     Ok(x.from_little_endian())
 }
-- 
2.43.0


From 4b0d80d4db2f7e0c128e210eb10cdb694b1c0ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:39 +0000
Subject: [PATCH 03/23] fix: report a vtable offset outside the buffer as an
 error

---
 butte/src/primitives.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/butte/src/primitives.rs b/butte/src/primitives.rs
index 6bfe7fc..802f5c7 100644
--- a/butte/src/primitives.rs
+++ b/butte/src/primitives.rs
@@ -258,7 +258,12 @@ impl<'a, T: Follow<'a>> Follow<'a> for BackwardsSOffset<T> {
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
         let slice = buf.get(loc..loc + SIZE_SOFFSET).ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<SOffsetT>(slice)?;
-        T::follow(buf, (loc as SOffsetT - off) as usize)
+        // a damaged offset may point before the start of the buffer
+        let target = loc as i64 - i64::from(off);
+        if target < 0 {
+            return Err(Error::OutOfBounds);
+        }
+        T::follow(buf, target as usize)
     }
 }
 
-- 
2.43.0


From ff728217c3cfaeef926b6458ce53facecc55c16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:39 +0000
Subject: [PATCH 04/23] fix: refuse to view misaligned vector data as a slice

---
 butte/src/error.rs  | 3 +++
 butte/src/vector.rs | 8 +++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/butte/src/error.rs b/butte/src/error.rs
index c7a622d..2971665 100644
--- a/butte/src/error.rs
+++ b/butte/src/error.rs
@@ -5,6 +5,8 @@ use std::fmt;
 pub enum Error {
     /// Returned if accessing the flatbuffer triggers an out-of-bounds access
     OutOfBounds,
+    /// Returned if a vector cannot be viewed as a slice because it is not aligned in memory
+    Misaligned,
     /// Returned if a string is not UTF8
     NonUtf8String,
     /// Returned if a required field is missing
@@ -23,6 +25,7 @@ impl fmt::Display for Error {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Error::OutOfBounds => write!(f, "flatbuffer access is out of bounds"),
+            Error::Misaligned => write!(f, "vector data is not aligned for its element type"),
             Error::RequiredFieldMissing(m) => write!(f, "required field is missing: {}", m),
             Error::NonUtf8String => write!(f, "string is not UTF8 encoded"),
             Error::NonNullTerminatedString => write!(f, "string is not terminated with null"),
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index dfd2c46..05df47f 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -18,7 +18,7 @@
 use std::{
     iter::{DoubleEndedIterator, ExactSizeIterator, FusedIterator},
     marker::PhantomData,
-    mem::size_of,
+    mem::{align_of, size_of},
     slice::from_raw_parts,
     str::from_utf8,
 };
@@ -93,6 +93,9 @@ impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
             .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
             .ok_or(Error::OutOfBounds)?;
         let ptr = data_buf.as_ptr() as *const T;
+        if ptr as usize % align_of::<T>() != 0 {
+            return Err(Error::Misaligned);
+        }
         let s: &'a [T] = unsafe { from_raw_parts(ptr, len) };
         Ok(s)
     }
@@ -169,6 +172,9 @@ fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
         .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
         .ok_or(Error::OutOfBounds)?;
     let ptr = data_buf.as_ptr() as *const T;
+    if ptr as usize % align_of::<T>() != 0 {
+        return Err(Error::Misaligned);
+    }
     let s: &[T] = unsafe { from_raw_parts(ptr, len) };
     Ok(s)
 }
-- 
2.43.0


From 0c609fe62ad563c18f6a241c7c38813a711af95b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:39 +0000
Subject: [PATCH 05/23] fix: keep field lookup inside a short vtable

---
 butte/src/vtable.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/butte/src/vtable.rs b/butte/src/vtable.rs
index cc7df14..493c32f 100644
--- a/butte/src/vtable.rs
+++ b/butte/src/vtable.rs
@@ -36,7 +36,7 @@ impl<'a> VTable<'a> {
         VTable { buf, loc }
     }
     pub fn num_fields(&self) -> Result<usize, Error> {
-        Ok((self.num_bytes()? / SIZE_VOFFSET) - 2)
+        Ok((self.num_bytes()? / SIZE_VOFFSET).saturating_sub(2))
     }
     pub fn num_bytes(&self) -> Result<usize, Error> {
         Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc)? as usize)
@@ -46,7 +46,7 @@ impl<'a> VTable<'a> {
         Ok(n as usize)
     }
     pub fn get_field(&self, idx: usize) -> Result<Option<VOffsetT>, Error> {
-        if idx > self.num_fields()? {
+        if idx >= self.num_fields()? {
             return Ok(None);
         }
         read_scalar_at::<VOffsetT>(
-- 
2.43.0


From 52421f3d33c823506c0e2d562b10fdae95f6eed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:39 +0000
Subject: [PATCH 06/23] fix: skip any distance in a vector cursor without
 overflow

---
 butte/src/vector.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 05df47f..59fcfc1 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -258,7 +258,7 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
 
         // Note that this might overflow, but that is okay because
         // in that case self.remaining will have been set to zero.
-        self.loc = self.loc.wrapping_add(sz * n);
+        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));
 
         self.next()
     }
-- 
2.43.0


From 1137bb0d2a2d2146e5134dfe37248292fb4f0c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:56 +0000
Subject: [PATCH 07/23] fix: report short or non-ASCII unparsed input instead
 of panicking

---
 butte-build/src/compile.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 1f22894..f664e1a 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -28,7 +28,7 @@ pub fn compile_fbs_generic(
     if !rest.is_empty() {
         return Err(anyhow!(
             "Parse was incomplete: not parsed: {}...",
-            &rest[..30]
+            rest.chars().take(30).collect::<String>()
         ));
     }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
-- 
2.43.0


From 995f1fba448878e8d280d8b983c64363ca8c662c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:56 +0000
Subject: [PATCH 08/23] fix: report a failed rustfmt instead of writing what it
 left

---
 butte-build/src/compile.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index f664e1a..23cd13e 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -50,7 +50,11 @@ pub fn compile_fbs_generic(
             .as_mut()
             .ok_or_else(|| anyhow!("cannot access stdin"))?
             .write_all(code.as_bytes())?;
-        cmd.wait_with_output()?.stdout
+        let formatted = cmd.wait_with_output()?;
+        if !formatted.status.success() {
+            return Err(anyhow!("rustfmt failed: {}", formatted.status));
+        }
+        formatted.stdout
     } else {
         Vec::from(code)
     };
-- 
2.43.0


From d22e48e339835fb6af21db50b5841d3160b3765c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:51:56 +0000
Subject: [PATCH 09/23] fix: flush the generated code so that late write errors
 are reported

---
 butte-build/src/compile.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 23cd13e..0e29f5f 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -59,6 +59,7 @@ pub fn compile_fbs_generic(
         Vec::from(code)
     };
     output.write_all(&text_output[..])?;
+    output.flush()?;
     Ok(())
 }
 
-- 
2.43.0


From 11923df24821e9126d08be019f8ceb55a0fbb261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:03 +0000
Subject: [PATCH 10/23] fix: report unsupported declarations as errors

---
 butte-build/src/compile.rs      | 18 +++++++++++++++++-
 butte-build/src/ir/transform.rs |  8 ++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/butte-build/src/compile.rs b/butte-build/src/compile.rs
index 0e29f5f..1ad103a 100644
--- a/butte-build/src/compile.rs
+++ b/butte-build/src/compile.rs
@@ -1,6 +1,6 @@
 use crate::{
     codegen::{CodeGenerator, RpcGenerator},
-    ir::Builder,
+    ir::{types as ir, Builder},
 };
 /// Compile flatbuffers files
 use std::io::{self, Write};
@@ -33,6 +33,8 @@ pub fn compile_fbs_generic(
     }
     let root = Builder::build(schema).map_err(|e| anyhow!("semantic analysis failed, {}", e))?;
 
+    reject_structs(&root.nodes)?;
+
     let mut generator = CodeGenerator { root, rpc_gen };
 
     let code = format!("{}", generator.build_token_stream());
@@ -63,6 +65,20 @@ pub fn compile_fbs_generic(
     Ok(())
 }
 
+/// Structs can be typed, but no code can be generated for them yet.
+fn reject_structs(nodes: &[ir::Node<'_>]) -> Result<()> {
+    for node in nodes {
+        match node {
+            ir::Node::Struct(s) => {
+                return Err(anyhow!("structs are not supported: {}", s.ident));
+            }
+            ir::Node::Namespace(n) => reject_structs(&n.nodes)?,
+            _ => {}
+        }
+    }
+    Ok(())
+}
+
 /// Generate Rust code for a single flatbuffer schema file.
 pub fn compile_fbs(path: impl AsRef<Path>) -> Result<()> {
     let out_dir = PathBuf::from(std::env::var("OUT_DIR")?);
diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index cfbd41e..5eb0870 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -74,10 +74,10 @@ impl<'a> Builder<'a> {
             ast::Element::Union(u) => self.new_union(u, pos),
             ast::Element::Rpc(r) => self.new_rpc(r, pos),
             ast::Element::Root(r) => self.new_root(r, pos),
-            ast::Element::FileExtension(..) => unimplemented!(),
-            ast::Element::FileIdentifier(..) => unimplemented!(),
-            ast::Element::Attribute(..) => unimplemented!(),
-            ast::Element::Object(..) => unimplemented!(),
+            ast::Element::FileExtension(..) => Err(anyhow!("file_extension is not supported")),
+            ast::Element::FileIdentifier(..) => Err(anyhow!("file_identifier is not supported")),
+            ast::Element::Attribute(..) => Err(anyhow!("attribute is not supported")),
+            ast::Element::Object(..) => Err(anyhow!("objects are not supported in a schema")),
         }
     }
 
-- 
2.43.0


From 8f373eb516b8b4d422561f75e434bdc8854ae1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:03 +0000
Subject: [PATCH 11/23] fix: report a default value that does not fit its
 field's type

---
 butte-build/src/ir/transform.rs | 39 +++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 5eb0870..3cd2f58 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -61,6 +61,41 @@ impl<'a> NamespaceBuf<'a> {
     }
 }
 
+/// Check that a default value can be a value of the field's type.
+fn check_default_value(ty: &ir::Type<'_>, default_value: &ast::DefaultValue<'_>) -> Result<()> {
+    let valid = match (ty, default_value) {
+        (ty, ast::DefaultValue::Ident(..)) => ty.is_enum(),
+        (ir::Type::Bool, ast::DefaultValue::Scalar(s)) => matches!(s, ast::Scalar::Boolean(..)),
+        (ir::Type::Float, ast::DefaultValue::Scalar(s))
+        | (ir::Type::Float32, ast::DefaultValue::Scalar(s)) => match s {
+            ast::Scalar::Integer(..) => true,
+            ast::Scalar::Float(f) => (*f as f32).is_finite(),
+            ast::Scalar::Boolean(..) => false,
+        },
+        (ir::Type::Double, ast::DefaultValue::Scalar(s))
+        | (ir::Type::Float64, ast::DefaultValue::Scalar(s)) => match s {
+            ast::Scalar::Integer(..) => true,
+            ast::Scalar::Float(f) => f.is_finite(),
+            ast::Scalar::Boolean(..) => false,
+        },
+        // the remaining scalars are integers
+        (ty, ast::DefaultValue::Scalar(s)) => {
+            ty.is_scalar()
+                && !matches!(ty, ir::Type::Custom(..))
+                && matches!(s, ast::Scalar::Integer(..))
+        }
+    };
+    if valid {
+        Ok(())
+    } else {
+        Err(anyhow!(
+            "invalid default value for type {}: {:?}",
+            ty,
+            default_value
+        ))
+    }
+}
+
 impl<'a> Builder<'a> {
     fn new_element(
         &mut self,
@@ -129,6 +164,10 @@ impl<'a> Builder<'a> {
                     });
                 }
                 let ident = ir::Ident::from(&f.id);
+                if let Some(default_value) = &f.default_value {
+                    check_default_value(&ty, default_value)
+                        .map_err(|e| anyhow!("field {}: {}", ident, e))?;
+                }
                 // Use `Some` explicit or implicit default value or `None`
                 let default_value = f.default_value.clone().or_else(|| (&f.ty).try_into().ok());
                 let metadata = ir::FieldMetadata::builder().required(required).build();
-- 
2.43.0


From 37222ce6a267ea2b6acbdaeeac9a2e4eb47cde4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:04 +0000
Subject: [PATCH 12/23] fix: resolve forward references in the namespace of
 their element

---
 butte-build/src/ir/transform.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 3cd2f58..0ff334c 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -16,7 +16,7 @@ pub struct Builder<'a> {
 }
 
 #[derive(Clone, Debug)]
-struct IndexedElement<'a>(usize, ast::Element<'a>);
+struct IndexedElement<'a>(usize, Option<ast::Namespace<'a>>, ast::Element<'a>);
 
 #[derive(Clone, Debug, PartialEq)]
 enum CustomTypeStatus<'a> {
@@ -99,8 +99,10 @@ fn check_default_value(ty: &ir::Type<'_>, default_value: &ast::DefaultValue<'_>)
 impl<'a> Builder<'a> {
     fn new_element(
         &mut self,
-        &IndexedElement(pos, ref element): &IndexedElement<'a>,
+        &IndexedElement(pos, ref namespace, ref element): &IndexedElement<'a>,
     ) -> Result<bool> {
+        // An element may be visited again after other namespaces were entered
+        self.current_namespace = namespace.clone();
         match element {
             ast::Element::Namespace(n) => self.new_namespace(n),
             ast::Element::Table(t) => self.new_table(t, pos),
@@ -574,11 +576,17 @@ impl<'a> Builder<'a> {
 
         // Keep track of the definition order,
         // mostly to build IR deterministically
+        let mut namespace = None;
         let mut input: VecDeque<_> = schema
             .elements
             .into_iter()
             .enumerate()
-            .map(|(i, el)| IndexedElement(i, el))
+            .map(|(i, el)| {
+                if let ast::Element::Namespace(n) = &el {
+                    namespace = Some(n.clone());
+                }
+                IndexedElement(i, namespace.clone(), el)
+            })
             .collect();
 
         // Loop until all types can be defined
@@ -598,7 +606,7 @@ impl<'a> Builder<'a> {
                 if context.nodes.len() == nodes_len {
                     let unsatisfied_elements = unsatisfied
                         .into_iter()
-                        .map(|IndexedElement(_, element)| element)
+                        .map(|IndexedElement(_, _, element)| element)
                         .collect::<Vec<_>>();
                     return Err(anyhow!("Unable to type schema: the following definitions referenced items not found: {:?}", unsatisfied_elements));
                     // TODO proper reporting
-- 
2.43.0


From 7793f80bbb7fac2b2c6a5a858ee6127d539acc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:05 +0000
Subject: [PATCH 13/23] fix: number implicit enum values from the previous
 value

---
 butte-build/src/codegen.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 2a1b532..79f1b68 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -5,7 +5,7 @@ use heck::{ShoutySnakeCase, SnakeCase};
 use itertools::Itertools;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
-use std::{convert::TryInto, fmt};
+use std::fmt;
 use syn::spanned::Spanned;
 
 #[cfg(test)]
@@ -910,24 +910,24 @@ impl ToTokens for ir::Enum<'_> {
             .next();
 
         // assign a value to the key if one was given, otherwise give it the
-        // enumerated index's value
-        let variants_and_scalars = variants.iter().enumerate().map(
+        // previous key's value plus one, starting from zero
+        let mut next_value: ast::IntegerConstant = 0;
+        let scalar_values: Vec<_> = variants
+            .iter()
+            .map(|ir::EnumVariant { value, .. }| {
+                let scalar_value = value.unwrap_or(next_value);
+                next_value = scalar_value.wrapping_add(1);
+                scalar_value
+            })
+            .collect();
+        let variants_and_scalars = variants.iter().zip(scalar_values).map(
             |(
-                index,
                 ir::EnumVariant {
-                    ident: key,
-                    value,
-                    doc,
+                    ident: key, doc, ..
                 },
+                scalar_value,
             )| {
                 // format the value with the correct type, i.e., base_type
-                let scalar_value = if let Some(constant) = *value {
-                    constant
-                } else {
-                    index
-                        .try_into()
-                        .expect("invalid conversion to enum base type")
-                };
                 let formatted_value = scalar_value.fmt_lit(base_type.to_token_stream());
                 (quote!(#key), quote!(#formatted_value), doc)
             },
-- 
2.43.0


From 55df51add56a6e2b9869f248d6d06bceb5c458fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:33 +0000
Subject: [PATCH 14/23] fix: generate valid names for fields and namespaces
 named after keywords

---
 butte-build/src/codegen.rs      | 21 +++++++++++++++++----
 butte-build/src/ir/keywords.rs  |  1 +
 butte-build/src/ir/transform.rs |  5 ++++-
 3 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 79f1b68..74f8563 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -72,6 +72,19 @@ mod ir_ident_tests {
     }
 }
 
+/// Convert a name to a snake case Rust identifier.
+///
+/// The conversion may drop underscores, which can leave a keyword, nothing at all or a name that
+/// starts with a digit.
+fn to_snake_ident(name: &str) -> syn::Ident {
+    let snake_name = name.to_snake_case();
+    if snake_name.starts_with(|c: char| c.is_ascii_digit()) || snake_name.is_empty() {
+        format_ident!("_{}", snake_name)
+    } else {
+        format_ident!("{}", ir::Ident::from(snake_name).raw.as_ref())
+    }
+}
+
 /// Convert a `types::Type` to a type with the supplied wrapper for reference types
 fn to_type_token(
     context_namespace: Option<&ir::QualifiedIdent<'_>>,
@@ -215,7 +228,7 @@ fn to_default_value(
         },
         // Enum field default variant
         ast::DefaultValue::Ident(i) => {
-            let variant = format_ident!("{}", i.raw);
+            let variant = ir::Ident::from(i);
             quote!(<#arg_ty>::#variant).to_token_stream()
         }
     }
@@ -469,7 +482,7 @@ impl ToTokens for ir::Table<'_> {
                         // Handle customized default values
                         if ty.is_enum() {
                             let default_name = if let ast::DefaultValue::Ident(i) = default_value {
-                                format_ident!("{}", i.raw)
+                                ir::Ident::from(i)
                             } else {
                                 panic!("expecting default ident for enum")
                             };
@@ -577,7 +590,7 @@ impl ToTokens for ir::Table<'_> {
                 ..
             } = field;
             let offset_name = offset_id(field);
-            let snake_name = format_ident!("{}", ident.as_ref().to_snake_case());
+            let snake_name = to_snake_ident(ident.as_ref());
             let snake_name_str = snake_name.to_string();
             let ty_ret = to_type_token(
                 table_ns_ref,
@@ -1131,7 +1144,7 @@ impl<'a> CodeGenerator<'a> {
             ir::Node::Enum(e) => e.to_tokens(tokens),
             ir::Node::Union(u) => u.to_tokens(tokens),
             ir::Node::Namespace(n) => {
-                let ident = format_ident!("{}", n.ident.simple().as_ref().to_snake_case());
+                let ident = to_snake_ident(n.ident.simple().as_ref());
                 let mut nodes_ts = TokenStream::default();
                 for node in &n.nodes {
                     self.node_to_tokens(node, rpc_gen, &mut nodes_ts);
diff --git a/butte-build/src/ir/keywords.rs b/butte-build/src/ir/keywords.rs
index 7fa914c..fa3b34e 100644
--- a/butte-build/src/ir/keywords.rs
+++ b/butte-build/src/ir/keywords.rs
@@ -49,6 +49,7 @@ pub fn substitute_keyword(input: &str) -> Option<&'static str> {
         "macro" => "macro_",
         "override" => "override_",
         "priv" => "priv_",
+        "try" => "try_",
         "typeof" => "typeof_",
         "unsized" => "unsized_",
         "virtual" => "virtual_",
diff --git a/butte-build/src/ir/transform.rs b/butte-build/src/ir/transform.rs
index 0ff334c..62ed01d 100644
--- a/butte-build/src/ir/transform.rs
+++ b/butte-build/src/ir/transform.rs
@@ -153,7 +153,10 @@ impl<'a> Builder<'a> {
                     let ty = self
                         .find_custom_type(enum_ty_ident.clone())
                         .expect("Union enum type companion should be defined now");
-                    let ident = ir::Ident::from(format!("{}_type", &f.id.raw.to_snake_case()));
+                    let ident = ir::Ident::from(format!(
+                        "{}_type",
+                        ir::Ident::from(&f.id).as_ref().to_snake_case()
+                    ));
                     let default_value = None;
                     let metadata = ir::FieldMetadata::builder().required(required).build();
                     let doc = f.doc.clone();
-- 
2.43.0


From aafbfa9eaddf92000e55ed83c2e1a5caba995642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:34 +0000
Subject: [PATCH 15/23] fix: refer to a namespace by the name of its module

---
 butte-build/src/codegen.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 74f8563..1a435c2 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -2,7 +2,6 @@ use crate::{ast::types as ast, ir::types as ir};
 
 use butte::VOffsetT;
 use heck::{ShoutySnakeCase, SnakeCase};
-use itertools::Itertools;
 use proc_macro2::TokenStream;
 use quote::{format_ident, quote, ToTokens};
 use std::fmt;
@@ -886,10 +885,16 @@ impl ToTokens for ir::QualifiedIdent<'_> {
     fn to_tokens(&self, tokens: &mut TokenStream) {
         let parts = &self.parts;
         debug_assert!(!self.parts.is_empty());
-        let code = parts.iter().map(|e| e.raw.as_ref()).join("::");
-        syn::parse_str::<syn::Path>(&code)
-            .expect("Cannot parse path")
-            .to_tokens(tokens)
+        let last = parts.len() - 1;
+        let path = parts.iter().enumerate().map(|(i, part)| {
+            if i == last || part.raw.as_ref() == "super" {
+                format_ident!("{}", part.raw.as_ref())
+            } else {
+                // namespaces become modules with snake case names
+                to_snake_ident(part.raw.as_ref())
+            }
+        });
+        quote!(#(#path)::*).to_tokens(tokens)
     }
 }
 
-- 
2.43.0


From b7979d1a8e3b84de10a15b87937cf08d34f167d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:35 +0000
Subject: [PATCH 16/23] fix: always store a required scalar, also when it
 equals the default

---
 butte-build/src/codegen.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 1a435c2..bb34ad1 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -526,6 +526,7 @@ impl ToTokens for ir::Table<'_> {
                 ident: field_id,
                 ty,
                 default_value,
+                metadata,
                 ..
             } = field;
             let add_method_name = format_ident!("add_{}", field_id.raw.as_ref());
@@ -551,7 +552,7 @@ impl ToTokens for ir::Table<'_> {
                 quote!(#arg_ty)
             };
 
-            let body = if ty.is_scalar() {
+            let body = if ty.is_scalar() && !metadata.required {
                 if let Some(default_value) = default_value {
                     let default_value = to_default_value(&arg_ty, default_value);
                     quote!(self.fbb.push_slot::<#arg_ty>(#field_offset, #field_id, #default_value))
-- 
2.43.0


From 7ae3f8a0c1685081b19263190a6e754ae8b4e7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:53 +0000
Subject: [PATCH 17/23] fix: generate or report names that are no valid Rust
 identifiers instead of panicking

---
 butte-build/src/ast/parser.rs | 12 ++++++++----
 butte-build/src/codegen.rs    | 12 +++---------
 butte-build/src/ir/types.rs   |  7 ++++++-
 3 files changed, 17 insertions(+), 14 deletions(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index b8241fb..5c1e4e7 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -115,10 +115,14 @@ pub fn right_square_bracket(input: &str) -> IResult<&str, char> {
 
 pub fn ident(input: &str) -> IResult<&str, Ident<'_>> {
     map(
-        recognize(preceded(
-            take_while_m_n(1, 1, |c: char| c.is_alphabetic() || c == '_'),
-            take_while(|c: char| c.is_alphanumeric() || c == '_'),
-        )),
+        verify(
+            recognize(preceded(
+                take_while_m_n(1, 1, |c: char| c.is_alphabetic() || c == '_'),
+                take_while(|c: char| c.is_alphanumeric() || c == '_'),
+            )),
+            // not every alphanumeric character may be part of a Rust identifier
+            |id: &str| id.is_ascii() || syn::parse_str::<syn::Ident>(id).is_ok(),
+        ),
         Ident::from,
     )(input)
 }
diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index bb34ad1..3850135 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -73,15 +73,9 @@ mod ir_ident_tests {
 
 /// Convert a name to a snake case Rust identifier.
 ///
-/// The conversion may drop underscores, which can leave a keyword, nothing at all or a name that
-/// starts with a digit.
+/// The conversion may drop underscores, which can leave a keyword or an invalid identifier.
 fn to_snake_ident(name: &str) -> syn::Ident {
-    let snake_name = name.to_snake_case();
-    if snake_name.starts_with(|c: char| c.is_ascii_digit()) || snake_name.is_empty() {
-        format_ident!("_{}", snake_name)
-    } else {
-        format_ident!("{}", ir::Ident::from(snake_name).raw.as_ref())
-    }
+    format_ident!("{}", ir::Ident::from(name.to_snake_case()).raw.as_ref())
 }
 
 /// Convert a `types::Type` to a type with the supplied wrapper for reference types
@@ -634,7 +628,7 @@ impl ToTokens for ir::Table<'_> {
                 let enum_ident = enum_ident.relative(table_ns_ref);
 
                 let type_snake_name =
-                    format_ident!("{}_type", field.ident.as_ref().to_snake_case());
+                    to_snake_ident(&format!("{}_type", field.ident.as_ref().to_snake_case()));
 
                 if field.metadata.required {
                     let names_to_enum_variant = variants.iter().map(
diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 0deb591..5eeb633 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -446,8 +446,13 @@ impl<'a> Ident<'a> {
     pub fn fix_identifier(ident: Cow<'_, str>) -> Cow<'_, str> {
         if let Some(substitute) = super::keywords::substitute_keyword(ident.as_ref()) {
             Cow::Borrowed(substitute)
-        } else {
+        } else if syn::parse_str::<syn::Ident>(ident.as_ref()).is_ok() {
             ident
+        } else if ident.is_empty() || ident == "_" {
+            Cow::Borrowed("__")
+        } else {
+            // e.g. starts with a digit
+            Cow::Owned(format!("_{}", ident))
         }
     }
 
-- 
2.43.0


From 0cc712019f764860b0df5f7263f6420be39ee9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:36:37 +0000
Subject: [PATCH 18/23] fix: count the bytes already used against the 2 GiB
 limit of a buffer

---
 butte/src/builder.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 5f14b52..79dbb31 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -634,13 +634,13 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
     #[inline]
     fn ensure_capacity(&mut self, want: usize) -> usize {
-        if self.unused_ready_space() >= want {
-            return want;
-        }
         assert!(
-            want <= FLATBUFFERS_MAX_BUFFER_SIZE,
+            want <= FLATBUFFERS_MAX_BUFFER_SIZE - self.used_space(),
             "cannot grow buffer beyond 2 gigabytes"
         );
+        if self.unused_ready_space() >= want {
+            return want;
+        }
 
         while self.unused_ready_space() < want {
             self.grow_owned_buf();
-- 
2.43.0


From 4094247cb603e150b06b349e86eadff88c504d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:16 +0000
Subject: [PATCH 19/23] fix: offsets in damaged input wrap around on 32-bit
 hosts

Offsets and lengths read from a buffer are 32 bits wide, so adding them to
a location overflows where usize has 32 bits: a panic in debug builds, and
in release builds a location that wraps back into the buffer, or a slice
longer than the bytes it was checked against. Saturate instead: a location
past the end of memory is out of bounds.
---
 butte/src/endian_scalar.rs |  4 +++-
 butte/src/primitives.rs    | 20 +++++++++++++-------
 butte/src/table.rs         |  2 +-
 butte/src/vector.rs        | 26 ++++++++++++++++----------
 butte/src/vtable.rs        |  9 +++++----
 5 files changed, 38 insertions(+), 23 deletions(-)

diff --git a/butte/src/endian_scalar.rs b/butte/src/endian_scalar.rs
index c00f668..8f176b3 100644
--- a/butte/src/endian_scalar.rs
+++ b/butte/src/endian_scalar.rs
@@ -166,7 +166,9 @@ pub fn emplace_scalar<T: EndianScalar>(s: &mut [u8], x: T) {
 /// Performs endian conversion, if necessary.
 #[inline]
 pub fn read_scalar_at<T: EndianScalar>(s: &[u8], loc: usize) -> Result<T, Error> {
-    let buf = &s.get(loc..loc + size_of::<T>()).ok_or(Error::OutOfBounds)?;
+    let buf = &s
+        .get(loc..loc.saturating_add(size_of::<T>()))
+        .ok_or(Error::OutOfBounds)?;
     read_scalar(buf)
 }
 
diff --git a/butte/src/primitives.rs b/butte/src/primitives.rs
index 802f5c7..27f9e06 100644
--- a/butte/src/primitives.rs
+++ b/butte/src/primitives.rs
@@ -174,10 +174,12 @@ where
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
         let off = {
-            let slice = buf.get(loc..loc + SIZE_UOFFSET).ok_or(Error::OutOfBounds)?;
+            let slice = buf
+                .get(loc..loc.saturating_add(SIZE_UOFFSET))
+                .ok_or(Error::OutOfBounds)?;
             read_scalar::<u32>(slice)? as usize
         };
-        T::follow(buf, loc + off)
+        T::follow(buf, loc.saturating_add(off))
     }
 }
 
@@ -194,11 +196,11 @@ where
         let off = {
             let slice = buf
                 .as_ref()
-                .get(loc..loc + SIZE_UOFFSET)
+                .get(loc..loc.saturating_add(SIZE_UOFFSET))
                 .ok_or(Error::OutOfBounds)?;
             read_scalar::<u32>(slice)? as usize
         };
-        T::follow_buf(buf, loc + off)
+        T::follow_buf(buf, loc.saturating_add(off))
     }
 }
 
@@ -226,9 +228,11 @@ impl<'a, T: Follow<'a>> Follow<'a> for ForwardsVOffset<T> {
     type Inner = T::Inner;
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        let slice = buf.get(loc..loc + SIZE_VOFFSET).ok_or(Error::OutOfBounds)?;
+        let slice = buf
+            .get(loc..loc.saturating_add(SIZE_VOFFSET))
+            .ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<VOffsetT>(slice)? as usize;
-        T::follow(buf, loc + off)
+        T::follow(buf, loc.saturating_add(off))
     }
 }
 
@@ -256,7 +260,9 @@ impl<'a, T: Follow<'a>> Follow<'a> for BackwardsSOffset<T> {
     type Inner = T::Inner;
     #[inline(always)]
     fn follow(buf: &'a [u8], loc: usize) -> Result<Self::Inner, Error> {
-        let slice = buf.get(loc..loc + SIZE_SOFFSET).ok_or(Error::OutOfBounds)?;
+        let slice = buf
+            .get(loc..loc.saturating_add(SIZE_SOFFSET))
+            .ok_or(Error::OutOfBounds)?;
         let off = read_scalar::<SOffsetT>(slice)?;
         // a damaged offset may point before the start of the buffer
         let target = loc as i64 - i64::from(off);
diff --git a/butte/src/table.rs b/butte/src/table.rs
index 600c581..a992680 100644
--- a/butte/src/table.rs
+++ b/butte/src/table.rs
@@ -63,7 +63,7 @@ where
             if offset == 0 {
                 return Ok(default);
             }
-            <T>::follow(self.buf.as_ref(), self.loc + offset).map(Some)
+            <T>::follow(self.buf.as_ref(), self.loc.saturating_add(offset)).map(Some)
         } else {
             Ok(default)
         }
diff --git a/butte/src/vector.rs b/butte/src/vector.rs
index 59fcfc1..4d837a2 100644
--- a/butte/src/vector.rs
+++ b/butte/src/vector.rs
@@ -69,7 +69,12 @@ impl<'a, T: Follow<'a> + 'a> Vector<'a, T> {
         debug_assert!(idx < read_scalar_at::<u32>(self.0, self.1)? as usize);
         let sz = size_of::<T>();
         debug_assert!(sz > 0);
-        T::follow(self.0, self.1 as usize + SIZE_UOFFSET + sz * idx)
+        T::follow(
+            self.0,
+            self.1
+                .saturating_add(SIZE_UOFFSET)
+                .saturating_add(sz.saturating_mul(idx)),
+        )
     }
 
     #[inline(always)]
@@ -90,7 +95,7 @@ impl<'a, T: SafeSliceAccess + 'a> Vector<'a, T> {
         debug_assert!(sz > 0);
         let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
         let data_buf = buf
-            .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
+            .get(loc + SIZE_UOFFSET..(loc + SIZE_UOFFSET).saturating_add(len.saturating_mul(sz)))
             .ok_or(Error::OutOfBounds)?;
         let ptr = data_buf.as_ptr() as *const T;
         if ptr as usize % align_of::<T>() != 0 {
@@ -143,7 +148,7 @@ impl<'a> Follow<'a> for &'a str {
         // Len of the String/Vector
         let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
 
-        let end_loc = loc + SIZE_UOFFSET + len;
+        let end_loc = (loc + SIZE_UOFFSET).saturating_add(len);
 
         // We check bounds early, because we need to make sure strings are null-terminated
         // The null byte not included in the string `len`
@@ -169,7 +174,7 @@ fn follow_slice_helper<T>(buf: &[u8], loc: usize) -> Result<&[T], Error> {
     debug_assert!(sz > 0);
     let len = read_scalar_at::<UOffsetT>(buf, loc)? as usize;
     let data_buf = buf
-        .get(loc + SIZE_UOFFSET..loc + SIZE_UOFFSET + len * sz)
+        .get(loc + SIZE_UOFFSET..(loc + SIZE_UOFFSET).saturating_add(len.saturating_mul(sz)))
         .ok_or(Error::OutOfBounds)?;
     let ptr = data_buf.as_ptr() as *const T;
     if ptr as usize % align_of::<T>() != 0 {
@@ -212,7 +217,7 @@ impl<'a, T: 'a> VectorIter<'a, T> {
             // inner.1 is the location of the data for the vector.
             // The first SIZE_UOFFSET bytes is the length. We skip
             // that to get to the actual vector content.
-            loc: inner.1 + SIZE_UOFFSET,
+            loc: inner.1.saturating_add(SIZE_UOFFSET),
             remaining: len,
             phantom: PhantomData,
         }
@@ -243,7 +248,7 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
             None
         } else {
             let result = T::follow(self.buf, self.loc);
-            self.loc += sz;
+            self.loc = self.loc.saturating_add(sz);
             self.remaining -= 1;
             Some(result)
         }
@@ -256,9 +261,9 @@ impl<'a, T: Follow<'a> + 'a> Iterator for VectorIter<'a, T> {
 
         self.remaining = self.remaining.saturating_sub(n);
 
-        // Note that this might overflow, but that is okay because
-        // in that case self.remaining will have been set to zero.
-        self.loc = self.loc.wrapping_add(sz.wrapping_mul(n));
+        // A location past the end of memory stays there, so that following
+        // it is an error.
+        self.loc = self.loc.saturating_add(sz.saturating_mul(n));
 
         self.next()
     }
@@ -279,7 +284,8 @@ impl<'a, T: Follow<'a> + 'a> DoubleEndedIterator for VectorIter<'a, T> {
             None
         } else {
             self.remaining -= 1;
-            Some(T::follow(self.buf, self.loc + sz * self.remaining))
+            let loc = self.loc.saturating_add(sz.saturating_mul(self.remaining));
+            Some(T::follow(self.buf, loc))
         }
     }
 
diff --git a/butte/src/vtable.rs b/butte/src/vtable.rs
index 493c32f..5cf8d40 100644
--- a/butte/src/vtable.rs
+++ b/butte/src/vtable.rs
@@ -42,7 +42,7 @@ impl<'a> VTable<'a> {
         Ok(read_scalar_at::<VOffsetT>(self.buf, self.loc)? as usize)
     }
     pub fn object_inline_num_bytes(&self) -> Result<usize, Error> {
-        let n = read_scalar_at::<VOffsetT>(self.buf, self.loc + SIZE_VOFFSET)?;
+        let n = read_scalar_at::<VOffsetT>(self.buf, self.loc.saturating_add(SIZE_VOFFSET))?;
         Ok(n as usize)
     }
     pub fn get_field(&self, idx: usize) -> Result<Option<VOffsetT>, Error> {
@@ -51,7 +51,8 @@ impl<'a> VTable<'a> {
         }
         read_scalar_at::<VOffsetT>(
             self.buf,
-            self.loc + SIZE_VOFFSET + SIZE_VOFFSET + SIZE_VOFFSET * idx,
+            self.loc
+                .saturating_add(SIZE_VOFFSET + SIZE_VOFFSET + SIZE_VOFFSET * idx),
         )
         .map(Some)
     }
@@ -59,12 +60,12 @@ impl<'a> VTable<'a> {
         if byte_loc as usize >= self.num_bytes()? {
             return Ok(None);
         }
-        read_scalar_at::<VOffsetT>(self.buf, self.loc + byte_loc as usize).map(Some)
+        read_scalar_at::<VOffsetT>(self.buf, self.loc.saturating_add(byte_loc as usize)).map(Some)
     }
     pub fn as_bytes(&self) -> Result<&[u8], Error> {
         let len = self.num_bytes()?;
         self.buf
-            .get(self.loc..self.loc + len)
+            .get(self.loc..self.loc.saturating_add(len))
             .ok_or(Error::OutOfBounds)
     }
 }
-- 
2.43.0


From c88b4e6daaeff12294209e72f98db755f2c7af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:02 +0000
Subject: [PATCH 20/23] fix: alignment of 8-byte scalars depends on the host

The format aligns every scalar to its size. Builders took the alignment of
the host's type instead, which is 4 for 8-byte scalars on 32-bit x86, so
messages written there were malformed for everyone else.
---
 butte-build/src/codegen.rs | 5 +++++
 butte/src/lib.rs           | 2 +-
 butte/src/push.rs          | 6 ++++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/butte-build/src/codegen.rs b/butte-build/src/codegen.rs
index 3850135..950288f 100644
--- a/butte-build/src/codegen.rs
+++ b/butte-build/src/codegen.rs
@@ -1027,6 +1027,11 @@ impl ToTokens for ir::Enum<'_> {
                     let scalar = <#base_type>::from(*self);
                     butte::emplace_scalar::<#base_type>(dst, scalar);
                 }
+
+                #[inline]
+                fn alignment() -> butte::PushAlignment {
+                    <#base_type as butte::Push>::alignment()
+                }
             }
 
             pub fn #enum_id_fn_name(e: #enum_id) -> &'static str {
diff --git a/butte/src/lib.rs b/butte/src/lib.rs
index b76a645..c51f420 100644
--- a/butte/src/lib.rs
+++ b/butte/src/lib.rs
@@ -49,7 +49,7 @@ pub use crate::{
     error::Error,
     follow::{Follow, FollowBuf, FollowStart},
     primitives::*,
-    push::Push,
+    push::{Push, PushAlignment},
     table::{buffer_has_identifier, get_root, get_size_prefixed_root, Table},
     vector::{follow_cast_ref, SafeSliceAccess, Vector, VectorIter},
     vtable::field_index_to_field_offset,
diff --git a/butte/src/push.rs b/butte/src/push.rs
index bc907fa..115ce4e 100644
--- a/butte/src/push.rs
+++ b/butte/src/push.rs
@@ -65,6 +65,12 @@ macro_rules! impl_push_for_endian_scalar {
             fn push(&self, dst: &mut [u8], _rest: &[u8]) {
                 emplace_scalar::<$ty>(dst, *self);
             }
+            // The format aligns a scalar to its size, which is more than
+            // what some hosts do.
+            #[inline]
+            fn alignment() -> PushAlignment {
+                PushAlignment::new(size_of::<$ty>())
+            }
         }
     };
 }
-- 
2.43.0


From e13f7ed40290621bb244131f1a67118ec08fd123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:05 +0000
Subject: [PATCH 21/23] fix: refuse tables that are too wide for a vtable in
 release builds as well

A vtable has 16 bit offsets and lengths. Only debug builds refused a table
of 64 KiB or more (or with a vtable of that length); a release build cut
them off and finished a message that cannot be read.
---
 butte/src/builder.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/butte/src/builder.rs b/butte/src/builder.rs
index 79dbb31..6601e10 100644
--- a/butte/src/builder.rs
+++ b/butte/src/builder.rs
@@ -450,11 +450,18 @@ impl<'fbb> FlatBufferBuilder<'fbb> {
 
         // fill the WIP vtable with zeros:
         let vtable_byte_len = get_vtable_byte_len(&self.field_locs);
+        assert!(
+            vtable_byte_len < 0x10000,
+            "a vtable uses 16 bit lengths: too many fields"
+        );
         self.make_space(vtable_byte_len);
 
         // compute the length of the table (not vtable!) in bytes:
         let table_object_size = object_revloc_to_vtable.value() - table_tail_revloc.value();
-        debug_assert!(table_object_size < 0x10000); // vTable use 16bit offsets.
+        assert!(
+            table_object_size < 0x10000,
+            "a vtable uses 16 bit offsets: table too large"
+        );
 
         // Write the VTable (we may delete it afterwards, if it is a duplicate):
         let vt_start_pos = self.head;
-- 
2.43.0


From 5a4315820ba693f9c271c4c6399caed68842baad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:11:50 +0000
Subject: [PATCH 22/23] fix: hexadecimal floating point defaults are never
 accepted

The prefix is consumed before the number is handed to parse_hexf64, which
requires it.
---
 butte-build/src/ast/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/butte-build/src/ast/parser.rs b/butte-build/src/ast/parser.rs
index 5c1e4e7..744029d 100644
--- a/butte-build/src/ast/parser.rs
+++ b/butte-build/src/ast/parser.rs
@@ -2165,7 +2165,7 @@ pub fn hex_float_constant(input: &str) -> IResult<&str, FloatingConstant> {
                 ),
                 terminated(hex_digit1, hex_float_exponent),
             ))),
-            |value| parse_hexf64(value, false),
+            |value| parse_hexf64(&format!("0x{}", value), false),
         ),
     ));
     map(
-- 
2.43.0


From f22d207de2de6058e5b45e7fb584bc79ae071429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:50 +0000
Subject: [PATCH 23/23] fix: types named like a namespace they are used in get
 a wrong path

The type's own name was taken for a common parent when the namespace that
refers to it has the same name at that place, which leaves an empty path or
one that ends in super.
---
 butte-build/src/ir/types.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/butte-build/src/ir/types.rs b/butte-build/src/ir/types.rs
index 5eeb633..46bd9aa 100644
--- a/butte-build/src/ir/types.rs
+++ b/butte-build/src/ir/types.rs
@@ -527,8 +527,9 @@ impl<'a> QualifiedIdent<'a> {
 
     pub fn relative(&self, namespace: Option<&QualifiedIdent<'a>>) -> QualifiedIdent<'a> {
         if let Some(ns) = namespace {
-            let common_prefix_len = self
-                .parts
+            // the name itself is not part of the path, even if a namespace is
+            // called the same
+            let common_prefix_len = self.parts[..self.parts.len() - 1]
                 .iter()
                 .zip(ns.parts.iter())
                 .take_while(|(a, b)| a == b)
-- 
2.43.0

