From 19f9355614b9a6342f6a1dcb4d2856175b86a40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 01/14] fix: require AVX2, not just AVX, before selecting the
 AVX2 escape function

---
 laby_common/src/internal/escape.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/laby_common/src/internal/escape.rs b/laby_common/src/internal/escape.rs
index 4156e49..cc102cd 100644
--- a/laby_common/src/internal/escape.rs
+++ b/laby_common/src/internal/escape.rs
@@ -102,9 +102,13 @@ fn escape_impl(feed: &str, buf: &mut Buffer) {
 
     fn detect(feed: &str, buf: &mut Buffer) {
         debug_assert!(feed.len() >= 16);
-        let features = raw_cpuid::CpuId::new().get_feature_info();
+        let cpuid = raw_cpuid::CpuId::new();
+        let features = cpuid.get_feature_info();
+        let has_avx2 = cpuid
+            .get_extended_feature_info()
+            .map_or(false, |features| features.has_avx2());
         let fun = if let Some(features) = features {
-            if features.has_avx() {
+            if features.has_avx() && has_avx2 {
                 avx2::escape
             } else if features.has_sse2() {
                 sse2::escape
-- 
2.43.0


From 523cfd77a9810d8a8f1df230b27c21a5d8f9a783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 02/14] fix: make Buffer::reserve panic on oversized requests
 in release builds too

---
 laby_common/src/internal/buffer.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/laby_common/src/internal/buffer.rs b/laby_common/src/internal/buffer.rs
index e16b2f7..a801152 100644
--- a/laby_common/src/internal/buffer.rs
+++ b/laby_common/src/internal/buffer.rs
@@ -159,6 +159,12 @@ impl Buffer {
             return;
         }
 
+        // also rules out overflow in the capacity computation below
+        assert!(
+            size <= core::isize::MAX as usize,
+            "capacity is too large"
+        );
+
         self.reserve_internal(size);
     }
 
-- 
2.43.0


From 713a10ddc17ea6cc197e83165258d3c39ff5cca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 03/14] fix: do not poll a delimited iterator again after its
 first None

---
 laby/src/helpers.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby/src/helpers.rs b/laby/src/helpers.rs
index 0e3e374..a64bb65 100644
--- a/laby/src/helpers.rs
+++ b/laby/src/helpers.rs
@@ -228,11 +228,11 @@ where
 
         if let Some(item) = iter.next() {
             item.render(buf);
-        }
 
-        for item in iter {
-            buf.push_str(del);
-            item.render(buf);
+            for item in iter {
+                buf.push_str(del);
+                item.render(buf);
+            }
         }
     }
 }
-- 
2.43.0


From 9b3be96d197db770919d42056706866d06963c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:21 +0000
Subject: [PATCH 04/14] fix: render float literals with the precision of their
 type suffix

---
 laby_macros/src/build.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 1a00970..02650d7 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -164,8 +164,16 @@ fn try_render_literal(expr: &ExprLit) -> Option<String> {
             Lit::Byte(ref v) => render!(v.value()),
             Lit::Char(ref v) => render!(v.value()),
             Lit::Bool(ref v) => render!(v.value()),
-            Lit::Int(ref v) => render!(v.base10_parse::<u128>().ok()?),
-            Lit::Float(ref v) => render!(v.base10_parse::<f64>().ok()?),
+            // `1f32` is parsed as an integer literal with a float suffix
+            Lit::Int(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_parse::<f32>().ok()?),
+                "f64" => render!(v.base10_parse::<f64>().ok()?),
+                _ => render!(v.base10_parse::<u128>().ok()?),
+            },
+            Lit::Float(ref v) => match v.suffix() {
+                "f32" => render!(v.base10_parse::<f32>().ok()?),
+                _ => render!(v.base10_parse::<f64>().ok()?),
+            },
 
             _ => return None,
         })
-- 
2.43.0


From f62c86206ba217ac544c599701c138020471c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 05/14] fix: drop the r# prefix of raw identifiers used as
 attribute names

---
 laby_macros/src/build.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/laby_macros/src/build.rs b/laby_macros/src/build.rs
index 02650d7..ad08895 100644
--- a/laby_macros/src/build.rs
+++ b/laby_macros/src/build.rs
@@ -14,8 +14,8 @@ use laby_common::{internal::Buffer, Render};
 use proc_macro2::{Ident, Literal, TokenStream};
 use quote::quote;
 use syn::{
-    parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr, ExprAssign,
-    ExprLit, Lit, Stmt,
+    ext::IdentExt, parse::Parser, punctuated::Punctuated, spanned::Spanned, token::Comma, Expr,
+    ExprAssign, ExprLit, Lit, Stmt,
 };
 
 pub fn build_node(element: Element, stream: TokenStream) -> syn::Result<Node> {
@@ -190,7 +190,7 @@ fn set_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
     if let Some(value) = try_unwrap_literal(&left)
         .and_then(try_render_literal)
-        .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+        .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
     {
         node.render.push_str(value);
     } else {
@@ -226,7 +226,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
             if let Some(value) = try_unwrap_literal(&left)
                 .and_then(try_render_literal)
-                .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+                .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
             {
                 node.render.push_str(value);
             } else {
@@ -240,7 +240,7 @@ fn set_boolean_attr(assign: ExprAssign, node: &mut Node) -> syn::Result<()> {
 
         if let Some(value) = try_unwrap_literal(&left)
             .and_then(try_render_literal)
-            .or_else(|| try_unwrap_ident(&left).map(ToString::to_string))
+            .or_else(|| try_unwrap_ident(&left).map(|ident| ident.unraw().to_string()))
         {
             let value = Literal::string(&format!(" {}", value));
             node.render.push_expr(quote!(
-- 
2.43.0


From 5121c308e4c863dcee5cc9ebcee37f89dda0c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:39 +0000
Subject: [PATCH 06/14] fix: allow #[laby] functions with a where clause to be
 called by name

---
 laby_macros/src/component.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/laby_macros/src/component.rs b/laby_macros/src/component.rs
index 13dc4ec..6a8c769 100644
--- a/laby_macros/src/component.rs
+++ b/laby_macros/src/component.rs
@@ -26,7 +26,11 @@ pub fn generate_component_macro(
     Parser::parse2(Nothing::parse, args)?;
 
     let mut func = Parser::parse2(ItemFn::parse, stream)?;
-    let func_sig = func.sig.clone();
+    let mut func_sig = func.sig.clone();
+
+    // bounds are irrelevant to the call, and an unterminated clause would absorb the call arguments
+    func_sig.generics.where_clause = None;
+
     let func_name = func_sig.ident.clone();
 
     for arg in func.sig.inputs.iter_mut() {
-- 
2.43.0


From a96d76b79bc9b50d4a16cf77f2202ae644a3fb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 07/14] fix: implement Render for Cow of unsized values such as
 str

---
 laby_common/src/render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/laby_common/src/render.rs b/laby_common/src/render.rs
index 924460e..f49693a 100644
--- a/laby_common/src/render.rs
+++ b/laby_common/src/render.rs
@@ -207,7 +207,7 @@ where
 
 impl<'a, R> Render for Cow<'a, R>
 where
-    R: ToOwned,
+    R: ToOwned + ?Sized,
     &'a R: Render,
     R::Owned: Render,
 {
-- 
2.43.0


From c5717acd31b0c540c7e9a08cfa7a0fe34e91d300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:49 +0000
Subject: [PATCH 08/14] fix: name Option's variants by path in frag_match!
 expansions

---
 laby_macros/src/matching.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/laby_macros/src/matching.rs b/laby_macros/src/matching.rs
index c5d9023..0754244 100644
--- a/laby_macros/src/matching.rs
+++ b/laby_macros/src/matching.rs
@@ -26,8 +26,8 @@ fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
         let name = format_ident!("__variant_{}", decls.len() + 1);
         let ref body = arm.body;
 
-        decls.push(quote!(let mut #name = None));
-        arm.body = Box::new(parse_quote!(#name = Some(#body)));
+        decls.push(quote!(let mut #name = ::core::option::Option::None));
+        arm.body = Box::new(parse_quote!(#name = ::core::option::Option::Some(#body)));
         vars.push(name);
     }
 
@@ -47,8 +47,8 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
         let mut add = |block: &mut Block| {
             let name = format_ident!("__variant_{}", decls.len() + 1);
 
-            decls.push(quote!(let mut #name = None));
-            *block = parse_quote!({ #name = Some(#block) });
+            decls.push(quote!(let mut #name = ::core::option::Option::None));
+            *block = parse_quote!({ #name = ::core::option::Option::Some(#block) });
             vars.push(name);
         };
 
-- 
2.43.0


From 2b07ba528710251fe8576e38ac295e08cebe1e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 09/14] fix: do not raise unused_braces for the blocks of a
 frag_match!

---
 laby_macros/src/matching.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/laby_macros/src/matching.rs b/laby_macros/src/matching.rs
index 0754244..e133b48 100644
--- a/laby_macros/src/matching.rs
+++ b/laby_macros/src/matching.rs
@@ -6,7 +6,7 @@
 //
 //   https://opensource.org/licenses/MIT
 //
-use proc_macro2::TokenStream;
+use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
 use syn::{
     parse::{Parse, Parser},
@@ -24,6 +24,11 @@ fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
 
     for arm in expr.arms.iter_mut() {
         let name = format_ident!("__variant_{}", decls.len() + 1);
+
+        if let Expr::Block(ExprBlock { ref mut block, .. }) = *arm.body {
+            mark_generated(block);
+        }
+
         let ref body = arm.body;
 
         decls.push(quote!(let mut #name = ::core::option::Option::None));
@@ -48,6 +53,7 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
             let name = format_ident!("__variant_{}", decls.len() + 1);
 
             decls.push(quote!(let mut #name = ::core::option::Option::None));
+            mark_generated(block);
             *block = parse_quote!({ #name = ::core::option::Option::Some(#block) });
             vars.push(name);
         };
@@ -79,3 +85,11 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
         ::laby::frag!(#(#vars),*)
     }))
 }
+
+/// Marks the braces of a block as generated code.
+///
+/// A block that becomes a function argument would otherwise be reported by `unused_braces`, although
+/// its braces are part of the `if` or `match` that was written.
+fn mark_generated(block: &mut Block) {
+    block.brace_token.span = Span::call_site();
+}
-- 
2.43.0


From a7a6b239e0ece2dd6d99f6f0bacf99a7e77877ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:14 +0000
Subject: [PATCH 10/14] fix: allow components that are not named in snake case
 to be declared without a warning

---
 Cargo.lock                   | 4 ++--
 laby_macros/src/component.rs | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Cargo.lock b/Cargo.lock
index 3f91530..39df669 100644
--- a/Cargo.lock
+++ b/Cargo.lock
@@ -1,6 +1,6 @@
 # This file is automatically @generated by Cargo.
 # It is not intended for manual editing.
-version = 3
+version = 4
 
 [[package]]
 name = "bitflags"
@@ -16,7 +16,7 @@ checksum = "9028f49264629065d057f340a86acb84867925865f73bbf8d47b4d149a7e88b8"
 
 [[package]]
 name = "laby"
-version = "0.4.1"
+version = "0.4.2"
 dependencies = [
  "laby_common",
  "laby_macros",
diff --git a/laby_macros/src/component.rs b/laby_macros/src/component.rs
index 6a8c769..36debd5 100644
--- a/laby_macros/src/component.rs
+++ b/laby_macros/src/component.rs
@@ -65,6 +65,7 @@ pub fn generate_component_macro(
             #vis use #func_name::call as #func_name;
 
             #[doc(hidden)]
+            #[allow(non_snake_case)]
             mod #func_name {
                 #[allow(unused_macros)]
                 macro_rules! call {
-- 
2.43.0


From b15b09ba7b89f20fa0efac9264d3532577ebc1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 11/14] fix: keep the grouping of expressions passed through
 macro_rules! macros

---
 laby_macros/src/group.rs | 132 +++++++++++++++++++++++++++++++++++++++
 laby_macros/src/lib.rs   |  10 +--
 2 files changed, 138 insertions(+), 4 deletions(-)
 create mode 100644 laby_macros/src/group.rs

diff --git a/laby_macros/src/group.rs b/laby_macros/src/group.rs
new file mode 100644
index 0000000..4c8f0c7
--- /dev/null
+++ b/laby_macros/src/group.rs
@@ -0,0 +1,132 @@
+//
+// Copyright (c) 2021 chiya.dev
+//
+// Use of this source code is governed by the MIT License
+// which can be found in the LICENSE file and at:
+//
+//   https://opensource.org/licenses/MIT
+//
+use proc_macro2::{Delimiter, Group, Span, TokenStream, TokenTree};
+use syn::{Expr, ExprRange, ExprUnary};
+
+/// Parenthesizes expressions that were substituted by a `macro_rules!` macro.
+///
+/// Such an expression is surrounded by invisible delimiters, which the compiler ignores in the
+/// output of a procedural macro: with `1 + 2` for `$expr`, `$expr * 2` would become `1 + 2 * 2`.
+pub fn parenthesize(stream: TokenStream) -> TokenStream {
+    if !has_invisible_group(stream.clone()) {
+        return stream;
+    }
+
+    let tokens = stream.into_iter().collect::<Vec<_>>();
+
+    tokens
+        .iter()
+        .enumerate()
+        .map(|(i, token)| match token {
+            TokenTree::Group(group) if !is_stringify(&tokens[..i]) => {
+                let stream = parenthesize(group.stream());
+                let operator = group.delimiter() == Delimiter::None
+                    && is_operator(stream.clone(), tokens.get(i + 1));
+
+                let mut result = if operator {
+                    Group::new(Delimiter::Parenthesis, stream)
+                } else {
+                    Group::new(group.delimiter(), stream)
+                };
+
+                result.set_span(if operator {
+                    // these parentheses are not the user's
+                    Span::call_site()
+                } else {
+                    group.span()
+                });
+
+                TokenTree::Group(result)
+            }
+
+            token => token.clone(),
+        })
+        .collect()
+}
+
+fn has_invisible_group(stream: TokenStream) -> bool {
+    stream.into_iter().any(|token| match token {
+        TokenTree::Group(group) => {
+            group.delimiter() == Delimiter::None || has_invisible_group(group.stream())
+        }
+
+        _ => false,
+    })
+}
+
+/// Whether the tokens end with `stringify!`, which is after the tokens and not their meaning.
+fn is_stringify(tokens: &[TokenTree]) -> bool {
+    match tokens {
+        [.., TokenTree::Ident(name), TokenTree::Punct(mark)] => {
+            name == "stringify" && mark.as_char() == '!'
+        }
+
+        _ => false,
+    }
+}
+
+/// Whether the tokens are an expression whose meaning may depend on the tokens around it.
+///
+/// Patterns and types such as `-1`, `0..=9` or `&str` are taken for expressions, but they mean the
+/// same in parentheses. The rest pattern `..` would not.
+fn is_operator(stream: TokenStream, next: Option<&TokenTree>) -> bool {
+    let expr = match syn::parse2(stream) {
+        Ok(expr) => ungroup(expr),
+        Err(_) => return false,
+    };
+
+    match expr {
+        Expr::Range(ExprRange {
+            from: None,
+            to: None,
+            ..
+        }) => false,
+
+        // negative literals can stay literals, unless something is done with them
+        Expr::Unary(ExprUnary { expr, .. }) if matches!(*expr, Expr::Lit(_)) => match next {
+            Some(TokenTree::Punct(next)) => matches!(next.as_char(), '.' | '?'),
+            _ => false,
+        },
+
+        Expr::Binary(_)
+        | Expr::Cast(_)
+        | Expr::Closure(_)
+        | Expr::Range(_)
+        | Expr::Reference(_)
+        | Expr::Unary(_) => true,
+
+        expr => {
+            // `(value.field)()` is not a method call
+            let is_called = matches!(next, Some(TokenTree::Group(next)) if next.delimiter() == Delimiter::Parenthesis);
+
+            (is_called && matches!(expr, Expr::Field(_))) || is_struct(expr)
+        }
+    }
+}
+
+/// Whether the expression starts with a struct literal, which cannot stand in a condition.
+fn is_struct(expr: Expr) -> bool {
+    match ungroup(expr) {
+        Expr::Struct(_) => true,
+        Expr::Await(expr) => is_struct(*expr.base),
+        Expr::Call(expr) => is_struct(*expr.func),
+        Expr::Field(expr) => is_struct(*expr.base),
+        Expr::Index(expr) => is_struct(*expr.expr),
+        Expr::MethodCall(expr) => is_struct(*expr.receiver),
+        Expr::Try(expr) => is_struct(*expr.expr),
+        _ => false,
+    }
+}
+
+fn ungroup(expr: Expr) -> Expr {
+    match expr {
+        Expr::Group(group) => ungroup(*group.expr),
+        expr => expr,
+    }
+}
diff --git a/laby_macros/src/lib.rs b/laby_macros/src/lib.rs
index 7db2e68..0102592 100644
--- a/laby_macros/src/lib.rs
+++ b/laby_macros/src/lib.rs
@@ -13,12 +13,14 @@
 extern crate proc_macro;
 
 use component::{generate_component_macro, generate_component_macro_call};
+use group::parenthesize;
 use matching::generate_frag_match;
 use node::{Element, Node};
 use proc_macro::{Group, Span, TokenStream, TokenTree};
 
 mod build;
 mod component;
+mod group;
 mod matching;
 mod node;
 
@@ -27,7 +29,7 @@ macro_rules! declare_tag {
         $(#[$attr])*
         #[proc_macro]
         pub fn $name(stream: TokenStream) -> TokenStream {
-            Node::generate($elem, stream.into()).into()
+            Node::generate($elem, parenthesize(stream.into())).into()
         }
     };
 }
@@ -97,7 +99,7 @@ fn get_element(tag: impl AsRef<str>) -> Option<Element> {
 
 #[proc_macro_attribute]
 pub fn laby(args: TokenStream, stream: TokenStream) -> TokenStream {
-    match generate_component_macro(stream.into(), args.into()) {
+    match generate_component_macro(parenthesize(stream.into()), args.into()) {
         Ok(stream) => stream.into(),
         Err(error) => error.to_compile_error().into(),
     }
@@ -105,7 +107,7 @@ pub fn laby(args: TokenStream, stream: TokenStream) -> TokenStream {
 
 #[proc_macro]
 pub fn frag_match(stream: TokenStream) -> TokenStream {
-    match generate_frag_match(stream.into()) {
+    match generate_frag_match(parenthesize(stream.into())) {
         Ok(stream) => stream.into(),
         Err(error) => error.to_compile_error().into(),
     }
@@ -114,7 +116,7 @@ pub fn frag_match(stream: TokenStream) -> TokenStream {
 #[proc_macro]
 #[doc(hidden)]
 pub fn __laby_internal_call_fn_named(stream: TokenStream) -> TokenStream {
-    match generate_component_macro_call(stream.into()) {
+    match generate_component_macro_call(parenthesize(stream.into())) {
         Ok(stream) => stream.into(),
         Err(error) => error.to_compile_error().into(),
     }
-- 
2.43.0


From 7ef4d4ff2f6dfa50f13a355d5ec7b7c8b488d29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 12/14] fix: let match arms that are configured out leave no
 trace

---
 laby_macros/src/matching.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/laby_macros/src/matching.rs b/laby_macros/src/matching.rs
index e133b48..84603ad 100644
--- a/laby_macros/src/matching.rs
+++ b/laby_macros/src/matching.rs
@@ -10,7 +10,7 @@ use proc_macro2::{Span, TokenStream};
 use quote::{format_ident, quote};
 use syn::{
     parse::{Parse, Parser},
-    parse_quote, Block, Expr, ExprBlock, ExprIf, ExprMatch,
+    parse_quote, Attribute, Block, Expr, ExprBlock, ExprIf, ExprMatch,
 };
 
 pub fn generate_frag_match(stream: TokenStream) -> syn::Result<TokenStream> {
@@ -30,8 +30,16 @@ fn generate_from_match(stream: TokenStream) -> syn::Result<TokenStream> {
         }
 
         let ref body = arm.body;
+        let cfgs: Vec<_> = arm.attrs.iter().filter(is_conditional).collect();
 
-        decls.push(quote!(let mut #name = ::core::option::Option::None));
+        // an arm that is configured out does not determine the type of its variant
+        let removed = if cfgs.is_empty() {
+            None
+        } else {
+            Some(quote!(let #name = ::core::option::Option::<()>::None;))
+        };
+
+        decls.push(quote!(#removed #(#cfgs)* let mut #name = ::core::option::Option::None));
         arm.body = Box::new(parse_quote!(#name = ::core::option::Option::Some(#body)));
         vars.push(name);
     }
@@ -86,6 +94,10 @@ fn generate_from_if(stream: TokenStream) -> syn::Result<TokenStream> {
     }))
 }
 
+fn is_conditional(attr: &&Attribute) -> bool {
+    attr.path.is_ident("cfg") || attr.path.is_ident("cfg_attr")
+}
+
 /// Marks the braces of a block as generated code.
 ///
 /// A block that becomes a function argument would otherwise be reported by `unused_braces`, although
-- 
2.43.0


From 56bb42de21dcc491141bd02e47aa028f902f64e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 13/14] fix: do not require component parameters that are
 configured out

---
 laby_macros/src/component.rs | 68 +++++++++++++++++++++++++++++++++++-
 1 file changed, 67 insertions(+), 1 deletion(-)

diff --git a/laby_macros/src/component.rs b/laby_macros/src/component.rs
index 36debd5..8c9050b 100644
--- a/laby_macros/src/component.rs
+++ b/laby_macros/src/component.rs
@@ -6,7 +6,7 @@
 //
 //   https://opensource.org/licenses/MIT
 //
-use proc_macro2::{Span, TokenStream};
+use proc_macro2::{Span, TokenStream, TokenTree};
 use quote::{quote, ToTokens};
 use std::collections::HashMap;
 use syn::{
@@ -26,6 +26,11 @@ pub fn generate_component_macro(
     Parser::parse2(Nothing::parse, args)?;
 
     let mut func = Parser::parse2(ItemFn::parse, stream)?;
+
+    if let Some(variants) = split_conditional_arg(&func)? {
+        return Ok(variants);
+    }
+
     let mut func_sig = func.sig.clone();
 
     // bounds are irrelevant to the call, and an unterminated clause would absorb the call arguments
@@ -80,6 +85,67 @@ pub fn generate_component_macro(
     }
 }
 
+/// Generates a component for either outcome of the first conditional attribute of a parameter.
+///
+/// Parameters are not configured yet when the component macro is generated.
+fn split_conditional_arg(func: &ItemFn) -> syn::Result<Option<TokenStream>> {
+    for (i, arg) in func.sig.inputs.iter().enumerate() {
+        let attrs = match arg {
+            FnArg::Typed(pat) => &pat.attrs,
+            FnArg::Receiver(_) => continue,
+        };
+
+        for (j, attr) in attrs.iter().enumerate() {
+            let removes = attr.path.is_ident("cfg");
+
+            if !removes && !attr.path.is_ident("cfg_attr") {
+                continue;
+            }
+
+            let tokens: Vec<_> = attr.parse_args::<TokenStream>()?.into_iter().collect();
+            let mut parts = tokens.split(|token| matches!(token, TokenTree::Punct(p) if p.as_char() == ','));
+            let predicate: TokenStream = parts.next().into_iter().flatten().cloned().collect();
+
+            let (mut with, mut without) = (func.clone(), func.clone());
+
+            for func in [&mut with, &mut without] {
+                unwrap_typed_arg(&mut func.sig.inputs[i])?.attrs.remove(j);
+            }
+
+            if removes {
+                without.sig.inputs = without
+                    .sig
+                    .inputs
+                    .into_iter()
+                    .enumerate()
+                    .filter(|(k, _)| *k != i)
+                    .map(|(_, arg)| arg)
+                    .collect();
+            } else {
+                let added = parts
+                    .filter(|part| !part.is_empty())
+                    .map(|part| part.iter().cloned().collect::<TokenStream>());
+
+                let added = Attribute::parse_outer.parse2(quote!(#(#[#added])*))?;
+                let attrs = &mut unwrap_typed_arg(&mut with.sig.inputs[i])?.attrs;
+                attrs.splice(j..j, added);
+            }
+
+            return Ok(Some(quote!(
+                #[cfg(#predicate)]
+                #[::laby::laby]
+                #with
+
+                #[cfg(not(#predicate))]
+                #[::laby::laby]
+                #without
+            )));
+        }
+    }
+
+    Ok(None)
+}
+
 fn unwrap_typed_arg(arg: &mut FnArg) -> syn::Result<&mut PatType> {
     match arg {
         FnArg::Typed(ref mut pat) => Ok(pat),
-- 
2.43.0


From 607c66304cf00e682603de197418337fc866b2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 14/14] fix: let render! with several values keep their
 temporaries alive

---
 laby/src/helpers.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/laby/src/helpers.rs b/laby/src/helpers.rs
index a64bb65..f514ced 100644
--- a/laby/src/helpers.rs
+++ b/laby/src/helpers.rs
@@ -142,10 +142,9 @@ macro_rules! render {
         buf.into_string()
     }};
 
-    ($($expr:expr),* $(,)?) => {{
-        let frag = $crate::frag!($($expr),*);
-        $crate::render!(frag)
-    }};
+    ($($expr:expr),* $(,)?) => {
+        $crate::render!($crate::frag!($($expr),*))
+    };
 }
 
 /// Wraps an [`Iterator`], making it implement [`Render`].
-- 
2.43.0

