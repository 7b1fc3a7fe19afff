From a8e25adfd75fa70eb4c6f8f800890fce328b8593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:18 +0000
Subject: [PATCH 1/3] fix: derived structs with many fields no longer take
 exponential time to compile

---
 crevice-derive/src/layout.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crevice-derive/src/layout.rs b/crevice-derive/src/layout.rs
index 343d2ba..a30b8fd 100644
--- a/crevice-derive/src/layout.rs
+++ b/crevice-derive/src/layout.rs
@@ -83,8 +83,10 @@ pub fn emit(
             // this value.
             if index < target {
                 let pad_fn = &pad_fns[index];
+                // A constant is only evaluated once. Plain calls would double
+                // the compiler's work with every field.
                 output.push(quote! {
-                    + #pad_fn()
+                    + const { #pad_fn() }
                 });
             }
         }
-- 
2.43.0


From 575b04810f1e62b6077b4d911af6c33858bdfa8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 2/3] fix: GLSL struct definitions use names without Rust's raw
 identifier prefix

---
 crevice-derive/src/glsl.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crevice-derive/src/glsl.rs b/crevice-derive/src/glsl.rs
index e6b7a3c..78b7924 100644
--- a/crevice-derive/src/glsl.rs
+++ b/crevice-derive/src/glsl.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Literal, TokenStream};
 use quote::quote;
+use syn::ext::IdentExt;
 use syn::{parse_quote, Data, DeriveInput, Fields, Path};
 
 pub fn emit(input: DeriveInput) -> TokenStream {
@@ -16,13 +17,13 @@ pub fn emit(input: DeriveInput) -> TokenStream {
     let struct_trait_path: Path = parse_quote!(::crevice::glsl::GlslStruct);
 
     let name = input.ident;
-    let name_str = Literal::string(&name.to_string());
+    let name_str = Literal::string(&name.unraw().to_string());
 
     let (impl_generics, ty_generics, where_clause) = input.generics.split_for_impl();
 
     let glsl_fields = fields.named.iter().map(|field| {
         let field_ty = &field.ty;
-        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().to_string());
+        let field_name_str = Literal::string(&field.ident.as_ref().unwrap().unraw().to_string());
 
         quote! {
             ::crevice::glsl::GlslField {
-- 
2.43.0


From 250159ffbf9b858b0044cbf6181f49e3b1b34df0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:25 +0000
Subject: [PATCH 3/3] fix: the std430 alignment of a struct without fields is
 1, not 0

---
 crevice-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crevice-derive/src/lib.rs b/crevice-derive/src/lib.rs
index ab1012a..6e78943 100644
--- a/crevice-derive/src/lib.rs
+++ b/crevice-derive/src/lib.rs
@@ -16,7 +16,7 @@ pub fn derive_as_std140(input: CompilerTokenStream) -> CompilerTokenStream {
 #[proc_macro_derive(AsStd430)]
 pub fn derive_as_std430(input: CompilerTokenStream) -> CompilerTokenStream {
     let input = parse_macro_input!(input as DeriveInput);
-    let expanded = layout::emit(input, "Std430", "std430", 0);
+    let expanded = layout::emit(input, "Std430", "std430", 1);
 
     CompilerTokenStream::from(expanded)
 }
-- 
2.43.0

