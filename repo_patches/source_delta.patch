From 681edd6d78734d15d22d4e700684ddaa7c7e52e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:43 +0000
Subject: [PATCH 01/12] fix: stop a short bundle after an inline `=value` of an
 optional-value argument

`-f=val` for an `Option<Option<_>>` argument consumed the value, but then went on
to interpret `=val` as further bundled options and failed on `-=`.
---
 src/runtime.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime.rs b/src/runtime.rs
index a49aec4..8f05174 100644
--- a/src/runtime.rs
+++ b/src/runtime.rs
@@ -623,6 +623,9 @@ fn visit_named(
 
     let require_value = attrs.contains(ArgAttrs::REQUIRE_VALUE);
     let require_eq = attrs.contains(ArgAttrs::REQUIRE_EQ);
+    // The rest of the token belongs to this argument if it is taken as a value. Note that an
+    // `Option<Option<_>>` argument does not require a value but still accepts `-s=value`.
+    let consume_rest = require_value || matches!(inline_value, RawInlineValue::Eq(_));
     let ret = match inline_value {
         RawInlineValue::Eq(v) => Ok(Some(Cow::Borrowed(v))),
         RawInlineValue::None => {
@@ -675,9 +678,7 @@ fn visit_named(
     });
 
     match ret {
-        Ok(()) => {
-            Ok(if require_value { ControlFlow::Break(()) } else { ControlFlow::Continue(()) })
-        }
+        Ok(()) => Ok(if consume_rest { ControlFlow::Break(()) } else { ControlFlow::Continue(()) }),
         Err(err) => {
             let desc = info.get_description(attrs.get_index());
             Err(err.with_arg_desc(desc).maybe_render_help(frame))
-- 
2.43.0


From 11ba16e0988b2babbce877d971c18decec0bb253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:57 +0000
Subject: [PATCH 02/12] fix: do not panic in derive(Subcommand) on an invalid
 variant

A rejected variant was left out of `variants` but kept in `name_map`, so sorting
indexed out of bounds and the macro crashed instead of reporting the error.
---
 derive/src/derive_subcommand.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 465523e..24afdcb 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -63,18 +63,15 @@ enum VariantKind<'i> {
 
 fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandImpl<'a> {
     let enum_name = &def.ident;
-    let mut name_map = Vec::new();
 
     let variants = data
         .variants
         .iter()
-        .enumerate()
-        .filter_map(|(idx, variant)| {
+        .filter_map(|variant| {
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
             let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
-            name_map.push(idx);
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
@@ -120,6 +117,8 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
         })
         .collect::<Vec<_>>();
 
+    // NB. Invalid variants are already filtered out, so indices must be taken from here.
+    let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
     // FIXME: Duplication check.
-- 
2.43.0


From b57aa986559bc0e08c1a485b237f63a16f187cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:58 +0000
Subject: [PATCH 03/12] fix: reject duplicated subcommand names after case
 conversion

The documentation promises a compile error, but one of the variants silently
became unreachable instead.
---
 derive/src/derive_subcommand.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 24afdcb..091e9c2 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -121,7 +121,14 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
     let mut name_map = (0..variants.len()).collect::<Vec<_>>();
     name_map
         .sort_unstable_by(|&lhs, &rhs| Ord::cmp(&variants[lhs].arg_str, &variants[rhs].arg_str));
-    // FIXME: Duplication check.
+    if let Some(w) = name_map
+        .windows(2)
+        .map(|w| [&variants[w[0]], &variants[w[1]]])
+        .find(|[lhs, rhs]| lhs.arg_str == rhs.arg_str)
+    {
+        emit_error!(w[0].ident, "duplicated subcommand names {:?}", w[0].arg_str);
+        emit_error!(w[1].ident, "second variant here");
+    }
 
     SubcommandImpl { enum_name, variants, name_map }
 }
-- 
2.43.0


From 3489c4b6684d57347b718d6972f4be0be1164158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:38 +0000
Subject: [PATCH 04/12] fix: strip `r#` of raw identifiers before deriving
 names

A field `r#type` got the option `--r-type` (and `-r`), and the same happened to
subcommand and value names.
---
 derive/src/derive_args.rs       | 3 ++-
 derive/src/derive_subcommand.rs | 3 ++-
 derive/src/derive_value_enum.rs | 3 ++-
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 0a24d21..6d55303 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -2,6 +2,7 @@ use std::collections::HashMap;
 
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote, quote_spanned};
+use syn::ext::IdentExt;
 use syn::spanned::Spanned;
 use syn::{Data, DeriveInput, Fields, FieldsNamed, Ident, Lit, LitChar, LitStr};
 
@@ -307,7 +308,7 @@ pub fn expand_args_parse<'i>(
     for field in fields {
         let attrs = ArgOrCommand::parse_attrs(&field.attrs);
         let ident = field.ident.as_ref().expect("named struct");
-        let ident_str = ident.to_string();
+        let ident_str = ident.unraw().to_string();
 
         let mut arg = match attrs {
             ArgOrCommand::Arg(arg) => arg,
diff --git a/derive/src/derive_subcommand.rs b/derive/src/derive_subcommand.rs
index 091e9c2..7a77324 100644
--- a/derive/src/derive_subcommand.rs
+++ b/derive/src/derive_subcommand.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Ident, Type};
 
 use crate::common::{CommandMeta, wrap_anon_item};
@@ -71,7 +72,7 @@ fn expand_for_enum<'a>(def: &'a DeriveInput, data: &'a DataEnum) -> SubcommandIm
             let variant_ident = &variant.ident;
             let cmd_meta = CommandMeta::parse_attrs_opt(&variant.attrs);
 
-            let arg_str = heck::AsKebabCase(variant_ident.to_string()).to_string();
+            let arg_str = heck::AsKebabCase(variant_ident.unraw().to_string()).to_string();
 
             let (args_info, kind) = match &variant.fields {
                 syn::Fields::Unit => {
diff --git a/derive/src/derive_value_enum.rs b/derive/src/derive_value_enum.rs
index d95e6cf..bb74d50 100644
--- a/derive/src/derive_value_enum.rs
+++ b/derive/src/derive_value_enum.rs
@@ -1,5 +1,6 @@
 use proc_macro2::{Span, TokenStream};
 use quote::{ToTokens, quote};
+use syn::ext::IdentExt;
 use syn::{Data, DataEnum, DeriveInput, Generics, Ident};
 
 use crate::{
@@ -48,7 +49,7 @@ fn expand_for_enum<'a>(input: &'a DeriveInput, data: &'a DataEnum) -> ValueEnumI
 
             let parse_name = match variant_meta.name {
                 Some(name) => name,
-                None => enum_meta.rename_all.rename(variant.ident.to_string()),
+                None => enum_meta.rename_all.rename(variant.ident.unraw().to_string()),
             };
 
             if parse_name.contains(|c: char| c.is_ascii_control()) {
-- 
2.43.0


From 459056901982bf915111ec1b7f50e3a1bfc48c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 05/12] fix: use `arg(help)` and `arg(long_help)` as the
 argument's help text

They were accepted but silently ignored.
---
 derive/src/common.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/derive/src/common.rs b/derive/src/common.rs
index 2235298..ce1342c 100644
--- a/derive/src/common.rs
+++ b/derive/src/common.rs
@@ -112,7 +112,11 @@ impl ArgOrCommand {
             Self::Command(c)
         } else {
             let mut arg = arg.unwrap_or_default();
-            arg.doc = doc;
+            // Only the long help is supported, thus the more detailed one wins.
+            arg.doc = match arg.long_help.take().or(arg.help.take()) {
+                Some(help) => Doc(help.value()),
+                None => doc,
+            };
             Self::Arg(arg)
         }
     }
-- 
2.43.0


From 9964cee16bd67c4517d498b879ad152d2c37fd1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 06/12] fix: reject `arg(alias, short_alias)` on positional
 arguments

They were silently ignored.
---
 derive/src/derive_args.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 6d55303..14b33ab 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -503,6 +503,12 @@ pub fn expand_args_parse<'i>(
                     "arg(require_equals, global, ignore_case) only support named arguments"
                 );
             }
+            if let Some(lit) = arg.alias.iter().next() {
+                emit_error!(lit, "arg(alias) only supports named arguments");
+            }
+            if let Some(lit) = arg.short_alias.iter().next() {
+                emit_error!(lit, "arg(short_alias) only supports named arguments");
+            }
             if arg.default_value_t.is_some() {
                 emit_error!(ident, "TODO: arg(default_value_t) supports named arguments yet");
             }
-- 
2.43.0


From e1d48654fbd920cb8c36ab2051ae3e3efcc1db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 07/12] fix: reject positional arguments of type `bool`

No value could ever be given to them.
---
 derive/src/derive_args.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 14b33ab..e5f053f 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -512,6 +512,13 @@ pub fn expand_args_parse<'i>(
             if arg.default_value_t.is_some() {
                 emit_error!(ident, "TODO: arg(default_value_t) supports named arguments yet");
             }
+            if kind == MagicKind::Bool {
+                emit_error!(
+                    field.ty,
+                    "magic type `bool` only supports named arguments, \
+                    add `arg(long)` or `arg(short)`",
+                );
+            }
             if accept_hyphen != ArgAttrs::default() {
                 emit_error!(
                     ident,
-- 
2.43.0


From f47f7e1d9c68400b9b2bd935f11dcc26eb358038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 08/12] fix: reject `arg(trailing_var_arg)` on non-Vec-like
 types

It was silently treated as an ordinary positional argument.
---
 derive/src/derive_args.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index e5f053f..3426f9f 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -560,6 +560,10 @@ pub fn expand_args_parse<'i>(
                 hide: arg.hide,
             };
 
+            if arg.trailing_var_arg && !is_variable_num {
+                emit_error!(ident, "arg(trailing_var_arg) only supports Vec-like types");
+            }
+
             if arg.last {
                 // Last argument(s).
                 if !is_variable_num {
-- 
2.43.0


From 7ee131d49ae9061a205ed108215700d98ea192a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:15 +0000
Subject: [PATCH 09/12] fix: reject `arg(require_equals)` on `bool` flags

A short flag with it could not be bundled with other short flags.
---
 derive/src/derive_args.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 3426f9f..dcc0160 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -407,6 +407,13 @@ pub fn expand_args_parse<'i>(
             );
         }
 
+        if kind == MagicKind::Bool && arg.require_equals {
+            emit_error!(
+                ident,
+                "arg(require_equals) is incompatible with argument that takes no value",
+            );
+        }
+
         let mut attrs = ArgAttrs::default().union(accept_hyphen);
         attrs.set(ArgAttrs::REQUIRE_VALUE, kind.require_value());
         attrs.set(ArgAttrs::REQUIRE_EQ, arg.require_equals);
-- 
2.43.0


From bd1c71417c3be35bb73fb3c5fa8a77b3f3135732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 10/12] fix: reject arg(value_enum) on types which are not a
 ValueEnum

---
 derive/src/derive_args.rs | 10 +++++++++-
 src/lib.rs                |  1 +
 src/values.rs             |  3 +++
 3 files changed, 13 insertions(+), 1 deletion(-)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index dcc0160..b3ab623 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -132,6 +132,7 @@ struct FieldInfo<'i> {
     attrs: ArgAttrs,
 
     // Validations //
+    value_enum: bool,
     required: bool,
     default_value: Option<DefaultValue>,
     exclusive: bool,
@@ -490,6 +491,7 @@ pub fn expand_args_parse<'i>(
                 enc_names,
                 value_delimiter: arg.value_delimiter,
                 attrs,
+                value_enum: arg.value_enum,
                 required,
                 default_value,
                 exclusive: arg.exclusive,
@@ -555,6 +557,7 @@ pub fn expand_args_parse<'i>(
                 enc_names: Vec::new(),
                 value_delimiter: arg.value_delimiter,
                 attrs,
+                value_enum: arg.value_enum,
                 required,
                 default_value,
                 exclusive: arg.exclusive,
@@ -699,7 +702,12 @@ impl ToTokens for ArgsParse<'_> {
                 );
             });
         }
-        for FieldInfo { value_ty, attrs, .. } in &self.direct_fields {
+        for FieldInfo { value_ty, attrs, value_enum, .. } in &self.direct_fields {
+            if *value_enum {
+                asserts.extend(quote_spanned! {value_ty.span()=>
+                    __rt::assert_impl_value_enum::<#value_ty>();
+                });
+            }
             if attrs.contains(ArgAttrs::MAKE_LOWERCASE) {
                 asserts.extend(quote_spanned! {value_ty.span()=>
                     __rt::assert!(
diff --git a/src/lib.rs b/src/lib.rs
index 557b8a6..fe982de 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -54,6 +54,7 @@ pub mod __private {
     pub use crate::values::{
         InferDisplayDefaultValue, InferValueParser, ValueEnum, ValueParser,
         assert_auto_infer_value_parser_ok, assert_impl_display_default_value,
+        assert_impl_value_enum,
     };
 
     pub use crate::refl::{RawArgsInfo, RawSubcommandInfo};
diff --git a/src/values.rs b/src/values.rs
index 636b328..972dc37 100644
--- a/src/values.rs
+++ b/src/values.rs
@@ -102,6 +102,9 @@ pub fn assert_impl_display_default_value<T: DisplayDefaultValue>(x: T) -> T {
     x
 }
 
+/// For `arg(value_enum)`.
+pub const fn assert_impl_value_enum<T: ValueEnum>() {}
+
 /// Deref-specialization for parser impl selection:
 /// prefer `ValueEnum`, then `TryFrom<&OsStr>`, finally `FromStr`.
 ///
-- 
2.43.0


From f32da66c081e4422fda8f6aa103546ee4b042555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:32 +0000
Subject: [PATCH 11/12] fix: reject arg(value_name) on flags

---
 derive/src/derive_args.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index b3ab623..5d06788 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -399,6 +399,9 @@ pub fn expand_args_parse<'i>(
         if value_name.contains(|ch: char| ch.is_ascii_control()) {
             emit_error!(ident, "arg(value_name) must NOT contain ASCII control characters");
         }
+        if kind == MagicKind::Bool && arg.value_name.is_some() {
+            emit_error!(ident, "arg(value_name) is incompatible with argument that takes no value");
+        }
 
         if kind == MagicKind::OptionOption && !arg.require_equals {
             emit_error!(
-- 
2.43.0


From 4599138401bd9dc71d90afda4385a884403b50b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:33 +0000
Subject: [PATCH 12/12] fix: make arg(default_value) of bool flags work instead
 of panicking

---
 derive/src/derive_args.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/derive/src/derive_args.rs b/derive/src/derive_args.rs
index 5d06788..0c6da19 100644
--- a/derive/src/derive_args.rs
+++ b/derive/src/derive_args.rs
@@ -344,6 +344,18 @@ pub fn expand_args_parse<'i>(
             (Some(Override::Explicit(e)), None) => {
                 Some(DefaultValue::ValueExpr(e.into_token_stream()))
             }
+            (None, Some(default_str)) if kind == MagicKind::Bool => {
+                // Flags take no value, thus there is nothing to parse this at runtime.
+                let value = default_str.value().parse::<bool>();
+                if value.is_err() {
+                    emit_error!(
+                        default_str,
+                        "arg(default_value) of `bool` must be `true` or `false`"
+                    );
+                }
+                let value = value.unwrap_or_default();
+                Some(DefaultValue::ValueExpr(quote! { #value }))
+            }
             (None, Some(default_str)) => Some(DefaultValue::ParseStr(default_str)),
             (None, None) => None,
             (Some(_), Some(tt)) => {
-- 
2.43.0

