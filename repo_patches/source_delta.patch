From 8181416d788d20aa371944c4cc1c35ad342e935f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 01/12] fix: radix placeholders accepted one character beyond
 the radix

The character class for radix 10 contained 'a' and the one for every larger
radix contained the letter after its last digit (e.g. 'g' for {:x}), so a
number swallowed a character it could not parse.
---
 sscanf_macro/src/regex_parts.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 8d7db06..3597f18 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -275,9 +275,10 @@ fn regex_from_radix(
     use std::cmp::Ordering::*;
     let possible_chars = match radix.cmp(&10) {
         Less => format!("0-{}", radix - 1),
-        Equal => "0-9a".to_string(),
+        Equal => "0-9".to_string(),
         Greater => {
-            let last_letter = (b'a' + radix - 10) as char;
+            // radix 11 has the additional digit 'a', radix 12 has 'a' and 'b', etc.
+            let last_letter = (b'a' + radix - 11) as char;
             format!("0-9a-{}", last_letter)
         }
     };
-- 
2.43.0


From ec4ad4945233396cda4196c699e88098c1796758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 02/12] fix: FromScanf::from_str did not anchor both ends of a
 regex with a top-level alternation

'^a|b$' matches any string starting with a, so a type whose regex is a top-level
alternation accepted trailing (or leading) text that sscanf! rejects.
---
 src/from_scanf.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/from_scanf.rs b/src/from_scanf.rs
index 596840f..655c143 100644
--- a/src/from_scanf.rs
+++ b/src/from_scanf.rs
@@ -248,7 +248,8 @@ where
     where
         Self: crate::RegexRepresentation,
     {
-        let regex = format!("^{}$", Self::REGEX);
+        // the group prevents a top-level `|` in REGEX from splitting off the anchors
+        let regex = format!("^(?:{})$", Self::REGEX);
         #[allow(unused_qualifications)] // would complain about the `crate::` prefix, but we
         // specifically want the bundled regex rather than whatever a user has renamed to `regex`
         let regex = crate::regex::Regex::new(&regex).unwrap_or_else(|err| {
-- 
2.43.0


From 3fa10820b78a0423e75f9f340214d1ae6dfea355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 03/12] fix: sscanf_unescaped did not anchor both ends of a
 format with a top-level alternation

---
 sscanf_macro/src/lib.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 0340920..2fb5848 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -197,8 +197,14 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
 
 fn generate_regex(input: &ScanfInner, escape_input: bool) -> Result<(TokenStream, Vec<Matcher>)> {
     let mut format = FormatString::new(input.fmt.to_slice(), escape_input)?;
-    format.parts[0].insert(0, '^');
-    format.parts.last_mut().unwrap().push('$');
+    if escape_input {
+        format.parts[0].insert(0, '^');
+        format.parts.last_mut().unwrap().push('$');
+    } else {
+        // the group prevents a top-level `|` in the format from splitting off the anchors
+        format.parts[0].insert_str(0, "^(?:");
+        format.parts.last_mut().unwrap().push_str(")$");
+    }
 
     // inner function to use ?-operator. This should be a closure, but those can't have lifetimes
     fn find_ph_type<'a>(
-- 
2.43.0


From 2e5191b65e856e7b72630b74c34f82b4ad3064d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:22 +0000
Subject: [PATCH 04/12] fix: radix placeholders matched non-ASCII letters
 through unicode case folding

(?i:[0-9a-z]) also matches U+212A and U+017F, which no radix can parse.
---
 sscanf_macro/src/regex_parts.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index 3597f18..fb43991 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -293,7 +293,8 @@ fn regex_from_radix(
     };
 
     let regex = format!(
-        "(?i:{sign}{prefix}[{digits}]{{1,{n}}})",
+        // -u: unicode case folding would add non-ASCII characters, like the Kelvin sign for 'k'
+        "(?i-u:{sign}{prefix}[{digits}]{{1,{n}}})",
         sign = sign,
         prefix = prefix_string,
         digits = possible_chars,
-- 
2.43.0


From c18fc36414e79efb43354d79723e5aaf34690c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 05/12] fix: escape sequences in non-raw format strings were
 matched literally

The format string was processed as it is written in the source code, so "\n",
"\"" or "\\" in a regular string literal never matched the text they stand for,
and the braces of "\u{..}" were taken for a placeholder.
---
 sscanf_macro/src/format_option.rs | 19 -------------
 sscanf_macro/src/format_string.rs |  2 +-
 sscanf_macro/src/str_lit.rs       | 46 +++++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 20 deletions(-)

diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index ee8a8e3..ef09193 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -67,25 +67,6 @@ impl<'a> FormatOption<'a> {
                             break;
                         }
                     } else if c == '\\' {
-                        if !src.is_raw() {
-                            let (_, next) = input
-                                .next()
-                                .ok_or_else(|| src.slice(i..).error("unexpected end of regex"))?;
-                            // the above error is probably not possible, since a single \ at
-                            // the end of a non-raw string would escape the closing " and the
-                            // compiler would already complain about that.
-                            // the check is still here just in case
-
-                            if next != '\\' {
-                                // regular escaped char (\n, \t, etc)
-                                if escape.take().is_some() {
-                                    regex.push('\\');
-                                }
-                                regex.push('\\');
-                                regex.push(next);
-                                continue;
-                            }
-                        }
                         if escape.take().is_some() {
                             regex.push('\\');
                             regex.push('\\');
diff --git a/sscanf_macro/src/format_string.rs b/sscanf_macro/src/format_string.rs
index 4f673ca..1f33282 100644
--- a/sscanf_macro/src/format_string.rs
+++ b/sscanf_macro/src/format_string.rs
@@ -12,7 +12,7 @@ impl<'a> FormatString<'a> {
         let mut current_part = String::new();
 
         // keep the iterator as a variable to allow peeking and advancing in a sub-function
-        let mut iter = src.text().char_indices().peekable();
+        let mut iter = src.chars().into_iter().peekable();
 
         while let Some((i, c)) = iter.next() {
             if c == '{' {
diff --git a/sscanf_macro/src/str_lit.rs b/sscanf_macro/src/str_lit.rs
index 46c1f81..c912a07 100644
--- a/sscanf_macro/src/str_lit.rs
+++ b/sscanf_macro/src/str_lit.rs
@@ -60,6 +60,13 @@ impl StrLit {
     }
 }
 
+/// Converts the digits of a `\x..` or `\u{...}` escape sequence to the escaped character
+fn from_hex_digits(digits: impl Iterator<Item = char>) -> char {
+    let digits = digits.filter_map(|c| c.to_digit(16)); // skips the `_` that are allowed in `\u{...}`
+    let value = digits.fold(0, |value, digit| value * 16 + digit);
+    char::from_u32(value).unwrap_or(char::REPLACEMENT_CHARACTER)
+}
+
 /// A slice into [`StrLit`]
 #[derive(Clone)]
 pub struct StrLitSlice<'a> {
@@ -75,6 +82,45 @@ impl<'a> StrLitSlice<'a> {
         self.src.is_raw()
     }
 
+    /// The characters that the literal stands for, with the index where they start in `text()`.
+    ///
+    /// These are the characters of `text()`, except that the escape sequences of a non-raw string
+    /// (which the compiler already checked for validity) are replaced by the escaped character.
+    pub fn chars(&self) -> Vec<(usize, char)> {
+        let mut iter = self.text().char_indices().peekable();
+        let mut ret = vec![];
+        while let Some((start, c)) = iter.next() {
+            if c != '\\' || self.is_raw() {
+                ret.push((start, c));
+                continue;
+            }
+            let escaped = match iter.next() {
+                Some((_, 'n')) => '\n',
+                Some((_, 'r')) => '\r',
+                Some((_, 't')) => '\t',
+                Some((_, '0')) => '\0',
+                Some((_, 'x')) => {
+                    let digits = iter.by_ref().take(2);
+                    from_hex_digits(digits.map(|(_, c)| c))
+                }
+                Some((_, 'u')) => {
+                    let digits = iter.by_ref().skip(1).take_while(|(_, c)| *c != '}');
+                    from_hex_digits(digits.map(|(_, c)| c))
+                }
+                Some((_, '\n')) | Some((_, '\r')) => {
+                    // escaped line break: skips all whitespace up to the next character
+                    let is_space = |c: char| matches!(c, ' ' | '\t' | '\n' | '\r');
+                    while iter.next_if(|(_, c)| is_space(*c)).is_some() {}
+                    continue;
+                }
+                Some((_, c)) => c, // '\\', '\'' and '\"' escape themselves
+                None => c,         // not possible, since it would escape the closing quote
+            };
+            ret.push((start, escaped));
+        }
+        ret
+    }
+
     #[track_caller]
     pub fn slice<R>(&'_ self, range: R) -> StrLitSlice<'a>
     where
-- 
2.43.0


From 6a9570f11462259bf168807e8ad1007f493f867a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:48 +0000
Subject: [PATCH 06/12] fix: autogen used the r# of a raw identifier as part of
 the variant name

---
 sscanf_macro/src/derive.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index 5f8d17a..c8f66e3 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -1,5 +1,7 @@
 use std::collections::{HashMap, HashSet};
 
+use syn::ext::IdentExt;
+
 use crate::*;
 
 pub struct Field {
@@ -432,7 +434,7 @@ pub fn parse_enum(
 Use `#[sscanf(format = \"...\")]` to specify a format for a variant with fields or `#[sscanf(skip)]` to skip a variant";
                 return Error::err_spanned(variant.fields, msg); // checked in tests/fail/derive_enum_attributes.rs
             }
-            autogen.create_struct_attr(&variant.ident.to_string(), src.clone())
+            autogen.create_struct_attr(&variant.ident.unraw().to_string(), src.clone())
         } else {
             continue;
         };
-- 
2.43.0


From 8d12b922d79567fa228894dff8203774334e8106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:15 +0000
Subject: [PATCH 07/12] fix: sscanf! could not be used with a type from a
 macro_rules! parameter

The generated code referred to its local variable with the span of the type, which
does not resolve if that type is from a different hygiene context.
---
 sscanf_macro/src/regex_parts.rs | 10 +++++-----
 sscanf_macro/src/utils.rs       | 11 +++++++++++
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/sscanf_macro/src/regex_parts.rs b/sscanf_macro/src/regex_parts.rs
index fb43991..1ed6523 100644
--- a/sscanf_macro/src/regex_parts.rs
+++ b/sscanf_macro/src/regex_parts.rs
@@ -97,13 +97,14 @@ impl ToTokens for Converter {
                 )
             }),
             Converter::FromType(ty, span) => {
-                let call = span.apply(
+                let function = span.apply(
                     quote! { ::sscanf::FromScanf },
-                    quote! { ::from_matches(&mut *src) },
+                    quote! { ::from_matches },
                 );
+                let args = span.apply_to_args(quote! { &mut * }, "src");
                 tokens.extend(quote! {
                     {
-                        let value: #ty = #call?;
+                        let value: #ty = #function #args?;
                         value
                     }
                 });
@@ -304,7 +305,6 @@ fn regex_from_radix(
     // we know ty is a primitive type without path, which are always just one token
     // => no Span voodoo necessary
     let ty = ty.inner();
-    let span = ty.span();
 
     let get_input = quote! { src.next()
         .expect(::sscanf::errors::EXPECT_NEXT_HINT)
@@ -380,7 +380,7 @@ fn regex_from_radix(
 
     Ok((
         RegexPart::Custom(regex),
-        Converter::Custom(converter.with_span(span)),
+        Converter::Custom(converter),
     ))
 }
 
diff --git a/sscanf_macro/src/utils.rs b/sscanf_macro/src/utils.rs
index d066afb..3fad0b6 100644
--- a/sscanf_macro/src/utils.rs
+++ b/sscanf_macro/src/utils.rs
@@ -40,6 +40,17 @@ impl FullSpan {
     pub fn apply_end(self, b: TokenStream) -> TokenStream {
         b.with_span(self.1)
     }
+    /// Creates a `(<prefix> <local>)` at the end of the span. `local` is resolved like the rest of
+    /// the macro, since the span of a type that was passed through a `macro_rules!` parameter
+    /// could not refer to a local variable of the macro.
+    pub fn apply_to_args(self, prefix: TokenStream, local: &str) -> proc_macro2::Group {
+        let local = syn::Ident::new(local, self.1.resolved_at(Span::call_site()));
+        let mut args = self.apply_end(prefix);
+        local.to_tokens(&mut args);
+        let mut group = proc_macro2::Group::new(proc_macro2::Delimiter::Parenthesis, args);
+        group.set_span(self.1);
+        group
+    }
 }
 
 /// Find the closest match to a string in a list of strings.
-- 
2.43.0


From 16e940fd7910d3b50a206861df4f816d59572639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 08/12] fix: sscanf! could not be used with an input expression
 from a macro_rules! parameter

All tokens of the expression were given a new span, so that its local variables were
looked up in the scope of the macro.
---
 sscanf_macro/src/lib.rs   | 7 +++++--
 sscanf_macro/src/utils.rs | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/sscanf_macro/src/lib.rs b/sscanf_macro/src/lib.rs
index 2fb5848..9f0ab52 100644
--- a/sscanf_macro/src/lib.rs
+++ b/sscanf_macro/src/lib.rs
@@ -161,11 +161,14 @@ fn sscanf_internal(input: Scanf, escape_input: bool) -> TokenStream1 {
     let src_str = {
         let src_str = input.src_str;
         let span = FullSpan::from_spanned(&src_str);
-        let param = span.apply(quote! { & }, quote! { (#src_str) });
+        let prefix = span.apply_start(quote! { & });
+        // only the parentheses get the span: the tokens of the expression have to keep theirs,
+        // because they might have been passed through a `macro_rules!` parameter
+        let param = span.apply_parenthesized(src_str.to_token_stream());
 
         // wrapping the input in a manual call to str::get ensures that the user
         // gets an appropriate error message if they try to use a non-string input
-        quote! { ::std::primitive::str::get(#param, ..).unwrap() }
+        quote! { ::std::primitive::str::get(#prefix #param, ..).unwrap() }
     };
     let ret = quote! {{
         #regex
diff --git a/sscanf_macro/src/utils.rs b/sscanf_macro/src/utils.rs
index 3fad0b6..16ed377 100644
--- a/sscanf_macro/src/utils.rs
+++ b/sscanf_macro/src/utils.rs
@@ -47,7 +47,11 @@ impl FullSpan {
         let local = syn::Ident::new(local, self.1.resolved_at(Span::call_site()));
         let mut args = self.apply_end(prefix);
         local.to_tokens(&mut args);
-        let mut group = proc_macro2::Group::new(proc_macro2::Delimiter::Parenthesis, args);
+        self.apply_parenthesized(args)
+    }
+    /// Puts `(` `)` with the end of the span around `tokens`, which keep their own spans.
+    pub fn apply_parenthesized(self, tokens: TokenStream) -> proc_macro2::Group {
+        let mut group = proc_macro2::Group::new(proc_macro2::Delimiter::Parenthesis, tokens);
         group.set_span(self.1);
         group
     }
-- 
2.43.0


From 6cbca44e16b9002a64cfcf198b0acbcaf8fde637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 09/12] fix: from and try_from could not be used with a type
 from a macro_rules! parameter

---
 sscanf_macro/src/derive.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/sscanf_macro/src/derive.rs b/sscanf_macro/src/derive.rs
index c8f66e3..be259c4 100644
--- a/sscanf_macro/src/derive.rs
+++ b/sscanf_macro/src/derive.rs
@@ -95,14 +95,25 @@ impl ValueConversion {
         let ValueConversion { from, to, with } = self;
         use ValueConversionMethod::*;
         match with {
-            From => FullSpan::from_spanned(from).apply(
-                quote! { <#to as ::std::convert::From<#from>> },
-                quote! { ::from(#value) },
-            ),
-            TryFrom => FullSpan::from_spanned(from).apply(
-                quote! { <#to as ::std::convert::TryFrom<#from>> },
-                quote! { ::try_from(#value)? },
-            ),
+            From => {
+                let span = FullSpan::from_spanned(from);
+                // value keeps its own spans, because it refers to local variables of the macro
+                let args = span.apply_parenthesized(value);
+                let mut ret = span.apply_start(quote! { <#to as ::std::convert::From<#from>> });
+                ret.extend(span.apply_end(quote! { ::from }));
+                ret.extend(quote! { #args });
+                ret
+            }
+            TryFrom => {
+                let span = FullSpan::from_spanned(from);
+                // value keeps its own spans, because it refers to local variables of the macro
+                let args = span.apply_parenthesized(value);
+                let mut ret = span.apply_start(quote! { <#to as ::std::convert::TryFrom<#from>> });
+                ret.extend(span.apply_end(quote! { ::try_from }));
+                ret.extend(quote! { #args });
+                ret.extend(span.apply_end(quote! { ? }));
+                ret
+            }
             Map(closure) => {
                 let span = closure.body.span();
                 quote::quote_spanned! {span=> {
-- 
2.43.0


From d8ae7b789e96cec8a99a956760e5ddc3e34a5f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:54 +0000
Subject: [PATCH 10/12] fix: derive did not recognize str and Cow<str> from a
 macro_rules! parameter

---
 sscanf_macro/src/ty.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sscanf_macro/src/ty.rs b/sscanf_macro/src/ty.rs
index 42b9180..f6c5acd 100644
--- a/sscanf_macro/src/ty.rs
+++ b/sscanf_macro/src/ty.rs
@@ -126,8 +126,15 @@ pub mod ty_check {
         let ty = ty.to_token_stream().to_string();
         possible.iter().any(|p| p.to_string() == ty)
     }
+    /// A type that was passed through a `macro_rules!` parameter is wrapped in an invisible group
+    fn ungroup(mut ty: &syn::Type) -> &syn::Type {
+        while let syn::Type::Group(group) = ty {
+            ty = &group.elem;
+        }
+        ty
+    }
     pub fn get_str(ty: &syn::Type) -> Option<Option<syn::Lifetime>> {
-        match ty {
+        match ungroup(ty) {
             syn::Type::Path(ref ty) => {
                 if is_str_path(ty) {
                     Some(None)
@@ -137,7 +144,7 @@ pub mod ty_check {
             }
             syn::Type::Reference(ref ty) => {
                 if ty.mutability.is_none()
-                    && matches!(*ty.elem, syn::Type::Path(ref inner) if is_str_path(inner))
+                    && matches!(ungroup(&ty.elem), syn::Type::Path(inner) if is_str_path(inner))
                 {
                     Some(ty.lifetime.clone())
                 } else {
@@ -173,9 +180,13 @@ pub mod ty_check {
             } else {
                 None
             };
-            if !matches!(ty, syn::GenericArgument::Type(syn::Type::Path(ref inner)) if is_str_path(inner))
-            {
-                return None;
+            match ty {
+                syn::GenericArgument::Type(ty) => {
+                    if !matches!(ungroup(ty), syn::Type::Path(inner) if is_str_path(inner)) {
+                        return None;
+                    }
+                }
+                _ => return None,
             }
             if args.next().is_some() {
                 return None;
@@ -207,7 +218,7 @@ pub mod ty_check {
         }
     }
     pub fn get_cow_str(ty: &syn::Type) -> Option<Option<syn::Lifetime>> {
-        match ty {
+        match ungroup(ty) {
             syn::Type::Path(ref ty) => get_cow_str_path(ty),
             _ => None,
         }
-- 
2.43.0


From bc09f0ff9d4ed876a4c579863679965c02eae675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:40 +0000
Subject: [PATCH 11/12] fix: reject custom regexes that end with a comment,
 which would swallow the closing parenthesis

---
 sscanf_macro/src/format_option.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sscanf_macro/src/format_option.rs b/sscanf_macro/src/format_option.rs
index ef09193..0808f73 100644
--- a/sscanf_macro/src/format_option.rs
+++ b/sscanf_macro/src/format_option.rs
@@ -106,6 +106,14 @@ impl<'a> FormatOption<'a> {
 Either make them non-capturing by adding '?:' after the '(' or remove/escape the '(' and ')'";
                             return src.err(msg);
                         }
+                        // the regex will be placed in parentheses, and a comment would swallow the `)`
+                        if regex_syntax::Parser::new()
+                            .parse(&format!("({})", regex))
+                            .is_err()
+                        {
+                            let msg = "custom regex cannot end with a comment";
+                            return src.err(msg);
+                        }
                     }
                     Err(err) => {
                         let msg = format!("{}\n\nIn custom Regex format option", err);
-- 
2.43.0


From 0f71ac399abc39b3a488a72301a2eaaf35610b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 12/12] fix: accept generic types as the value of from and
 try_from

---
 sscanf_macro/src/attribute.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/sscanf_macro/src/attribute.rs b/sscanf_macro/src/attribute.rs
index 768655d..79f216d 100644
--- a/sscanf_macro/src/attribute.rs
+++ b/sscanf_macro/src/attribute.rs
@@ -178,6 +178,21 @@ fn find_match<A: Attr>(s: &str, src: &TokenStream) -> syn::Result<A> {
     Err(syn::Error::new_spanned(src, msg)) // checked in tests/fail/derive_struct_attributes.rs
 }
 
+/// Parses the value of an attribute. Types for `from` and `try_from` are stored as verbatim
+/// expressions if they don't have the form of an expression, like `Vec<u8>` or `&'a str`.
+fn parse_value<A: Attr>(kind: A, input: ParseStream) -> syn::Result<syn::Expr> {
+    let name = kind.as_str();
+    if name == attr::All::From.as_str() || name == attr::All::TryFrom.as_str() {
+        let fork = input.fork();
+        let is_type = fork.parse::<syn::Type>().is_ok() && (fork.is_empty() || fork.peek(Token![,]));
+        if is_type {
+            let ty = input.parse::<syn::Type>()?;
+            return Ok(syn::Expr::Verbatim(ty.into_token_stream()));
+        }
+    }
+    input.parse()
+}
+
 pub struct Attribute<A: Attr> {
     kind: A,
     value: Option<syn::Expr>,
@@ -236,7 +251,7 @@ impl<A: Attr> Attribute<A> {
                 let msg = "expected an expression after `=`";
                 return Err(syn::Error::new_spanned(eq_sign, msg)); // checked in tests/fail/derive_struct_attributes.rs
             }
-            let expr = input.parse::<syn::Expr>()?;
+            let expr = parse_value(kind, input)?;
             src.extend(quote! { #eq_sign #expr });
             value = Some(expr);
         }
-- 
2.43.0

