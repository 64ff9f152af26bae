From a4520c1b0a3bbf3da35fae48de82596074dbfc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 01/29] fix: brackets inside strings must not count as nesting
 when parsing arrays and objects

---
 src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d379543..54bdc5b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -433,19 +433,19 @@ impl Json {
                     }
                     inner.push('\"');
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     inner.push('[');
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     inner.push(']');
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     inner.push('{');
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     inner.push('}');
                 }
@@ -527,7 +527,7 @@ impl Json {
                         v.push('\"');
                     }
                 }
-                Some('[') => {
+                Some('[') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('[');
@@ -535,7 +535,7 @@ impl Json {
                         v.push('[');
                     }
                 }
-                Some(']') => {
+                Some(']') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push(']');
@@ -543,7 +543,7 @@ impl Json {
                         v.push(']');
                     }
                 }
-                Some('{') => {
+                Some('{') if j == 0 => {
                     i += 1;
                     if on_key {
                         k.push('{');
@@ -551,7 +551,7 @@ impl Json {
                         v.push('{');
                     }
                 }
-                Some('}') => {
+                Some('}') if j == 0 => {
                     i -= 1;
                     if on_key {
                         k.push('}');
-- 
2.43.0


From a977f288e2a2b3a65f25d8079793471f5f1b2877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 02/29] fix: whitespace separates tokens in arrays and objects
 instead of joining them

---
 src/lib.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 54bdc5b..56a1ffa 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -404,7 +404,7 @@ impl Json {
         loop {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     loop {
                         match iter.next() {
                             Some(ch) if is_whitespace(ch) => (),
@@ -422,7 +422,7 @@ impl Json {
                     if let Some(']') = iter.peek() {
                         return Err(Error::new(ParseArrayError, "invalid trailing comma.".to_string()));
                     }
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     inner.clear();
                 }
                 Some('\"') => {
@@ -457,7 +457,6 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
                 Some(ch) => {
                     inner.push(ch);
                 }
@@ -481,8 +480,8 @@ impl Json {
         loop {
             match iter.next() {
                 Some('}') if i == 0 && j == 0 && !on_key => {
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         loop {
                             match iter.next() {
                                 Some(ch) if is_whitespace(ch) => (),
@@ -503,8 +502,8 @@ impl Json {
                     if let Some('}') = iter.peek() {
                         return Err(Error::new(ParseObjectError, "invalid trailing comma.".to_string()));
                     }
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         k.clear();
                         v.clear();
                         on_key = true;
@@ -577,7 +576,6 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
                 Some(ch) => {
                     if on_key {
                         k.push(ch);
-- 
2.43.0


From 798ebdd15a979224db6e5d343e73f0b41d93fd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 03/29] fix: empty array/object may contain whitespace and must
 not be followed by garbage

---
 src/lib.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 56a1ffa..9029e15 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -394,8 +394,15 @@ impl Json {
     fn parse_array(json: &str) -> Result<Json, Error> {
         let mut array = Vec::new();
         let mut iter = json.chars().skip(1).peekable();
+        while iter.peek().map_or(false, |ch| is_whitespace(*ch)) {
+            iter.next();
+        }
         if let Some(']') = iter.peek() {
-            return Ok(Json::Array(array));
+            return match iter.skip(1).find(|ch| !is_whitespace(*ch)) {
+                Some(ch) => Err(Error::new(ParseArrayError,
+                                           format!("invalid trailing character: {}.", ch))),
+                None => Ok(Json::Array(array)),
+            };
         }
 
         let mut i = 0;
@@ -468,8 +475,15 @@ impl Json {
     fn parse_object(json: &str) -> Result<Json, Error> {
         let mut object = HashMap::new();
         let mut iter = json.chars().skip(1).peekable();
+        while iter.peek().map_or(false, |ch| is_whitespace(*ch)) {
+            iter.next();
+        }
         if let Some('}') = iter.peek() {
-            return Ok(Json::Object(object));
+            return match iter.skip(1).find(|ch| !is_whitespace(*ch)) {
+                Some(ch) => Err(Error::new(ParseObjectError,
+                                           format!("invalid trailing character: {}.", ch))),
+                None => Ok(Json::Object(object)),
+            };
         }
 
         let mut i = 0;
-- 
2.43.0


From 4e995ec9fa33f1e93431a24d1a32db00da926adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 04/29] fix: reject repeated colons in an object member

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 9029e15..8327395 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -525,7 +525,7 @@ impl Json {
                         return Err(Error::new(ParseObjectError, "error parsing key string.".to_string()));
                     }
                 }
-                Some(':') if i == 0 && j == 0 => {
+                Some(':') if i == 0 && j == 0 && on_key => {
                     on_key = false;
                 }
                 Some('\"') => {
-- 
2.43.0


From c2c34f7a600c7626a6415c99f13a25e86501e751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 05/29] fix: reject numbers with leading zeros

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 8327395..91c1508 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -759,7 +759,7 @@ fn valid_number(num: &str) -> bool {
         _ => ()
     }
 
-    true
+    iter.peek().is_none()
 }
 
 #[inline]
-- 
2.43.0


From a9f1eac4f9a397fdfa13c4b4ffbd22ec6539e5a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 06/29] fix: Json::remove returns IndexOutOfRange instead of
 panicking

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 91c1508..c7c1c2b 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -218,6 +218,10 @@ impl Json {
     pub fn remove(&mut self, i: usize) -> Result<(), Error> {
         match self {
             Json::Array(vec) => {
+                if i >= vec.len() {
+                    return Err(Error::new(IndexOutOfRange,
+                                          format!("index {} out of range.", i)));
+                }
                 vec.remove(i);
                 Ok(())
             }
-- 
2.43.0


From 878896ed655a4851238d5fe4caf4a05230b5b24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 07/29] fix: serialize non-finite numbers as null, NaN and inf
 are not json

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index c7c1c2b..23a0e4a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,6 +140,7 @@ impl ToString for Json {
                             .join(", "))
             }
             Json::String(s) => escape(s),
+            Json::Number(f) if !f.is_finite() => "null".to_string(),
             Json::Number(f) => (*f).to_string(),
             Json::Boolean(b) => (*b).to_string(),
             Json::Null => "null".to_string(),
-- 
2.43.0


From 7337f2ab429231b54f9ee9ae87b18d02df6fbd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 08/29] fix: #[ignore] was rejected as ambiguous with the
 builtin attribute, do not declare it as helper

---
 json_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 2ff7c10..9cc2d60 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -5,7 +5,7 @@ use json_quote::quote;
 use json_parse::Item;
 use json_parse::field::Fields;
 
-#[proc_macro_derive(JsonEncode, attributes(key, ignore))]
+#[proc_macro_derive(JsonEncode, attributes(key))]
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
@@ -57,7 +57,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
     }
 }
 
-#[proc_macro_derive(JsonDecode, attributes(key, ignore))]
+#[proc_macro_derive(JsonDecode, attributes(key))]
 pub fn json_decode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
-- 
2.43.0


From 69689c7b0dc4e4bdb642398c49f430eb2290134c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 09/29] fix: key attribute takes any string literal, including
 raw strings and escaped quotes

---
 json_derive/src/lib.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 9cc2d60..aa73e67 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -22,14 +22,16 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    // keep the source form of the literal, which needs no escaping
+                                    key.string().expect("key attribute should be string");
+                                    key.to_string()
                                 } else {
-                                    x.ident.clone()
+                                    format!("\"{}\"", x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                format!("\"{}\"", x.ident)
                             };
-                            (format!("\"{}\".to_string()", k), x.ident.clone())
+                            (format!("{}.to_string()", k), x.ident.clone())
                         })
                         .collect();
                     quote! {
@@ -74,14 +76,16 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    // keep the source form of the literal, which needs no escaping
+                                    key.string().expect("key attribute should be string");
+                                    key.to_string()
                                 } else {
-                                    x.ident.clone()
+                                    format!("\"{}\"", x.ident)
                                 }
                             } else {
-                                x.ident.clone()
+                                format!("\"{}\"", x.ident)
                             };
-                            (format!("\"{}\"", k), x.ident.clone(), x.ty.used_ty())
+                            (k, x.ident.clone(), x.ty.used_ty())
                         })
                         .collect();
                     quote! {
-- 
2.43.0


From d20ee6b6e305feb1bb74aa020e6255c1894ca83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 10/29] fix: the default key of a raw identifier field is the
 field name without r#

---
 json_derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index aa73e67..2f32200 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -26,10 +26,10 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                                     key.string().expect("key attribute should be string");
                                     key.to_string()
                                 } else {
-                                    format!("\"{}\"", x.ident)
+                                    format!("\"{}\"", x.ident.trim_start_matches("r#"))
                                 }
                             } else {
-                                format!("\"{}\"", x.ident)
+                                format!("\"{}\"", x.ident.trim_start_matches("r#"))
                             };
                             (format!("{}.to_string()", k), x.ident.clone())
                         })
@@ -80,10 +80,10 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                                     key.string().expect("key attribute should be string");
                                     key.to_string()
                                 } else {
-                                    format!("\"{}\"", x.ident)
+                                    format!("\"{}\"", x.ident.trim_start_matches("r#"))
                                 }
                             } else {
-                                format!("\"{}\"", x.ident)
+                                format!("\"{}\"", x.ident.trim_start_matches("r#"))
                             };
                             (k, x.ident.clone(), x.ty.used_ty())
                         })
-- 
2.43.0


From 0ab265490a2bac8e7859291d6c4b3e0b6d80cc80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:35 +0000
Subject: [PATCH 11/29] fix: derive on a struct with braces and no fields

---
 json_derive/parse/src/field.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_derive/parse/src/field.rs b/json_derive/parse/src/field.rs
index d211a28..fdb47c2 100644
--- a/json_derive/parse/src/field.rs
+++ b/json_derive/parse/src/field.rs
@@ -124,6 +124,7 @@ impl Parse for Fields {
             Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => {
                 return Ok(Fields::StructFields(utils::split_tokens_by(group.stream(), ",")
                     .into_iter()
+                    .filter(|x| !x.is_empty())
                     .map(|x| StructFieldItem::parse(x))
                     .collect::<Result<Vec<StructFieldItem>>>()?));
             }
-- 
2.43.0


From a867a830c932e28d495ff388d0030a311750061e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:42 +0000
Subject: [PATCH 12/29] fix: attributes with an empty argument list, like
 #[cfg(all())], were rejected by the derives

---
 json_derive/parse/src/meta.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 6ec8067..1e7a97e 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -406,11 +406,6 @@ impl ToString for NestedMeta {
 
 impl Parse for NestedMeta {
     fn parse(input: TokenStream) -> Result<NestedMeta> {
-        // handle empty input
-        if input.is_empty() {
-            return Err(Error::new("got empty input when parsing nested meta item."));
-        }
-
         // convert single TokenStream to Vec<MetaItem> split by ','
         let items: Vec<MetaItem> = input
             // into iterator
-- 
2.43.0


From 6b237b8567b47d969484bf68f0fbfc28ac010ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 13/29] fix: quote! keeps only the first branch of a
 conditional whose condition holds

#elif did not look at the branches before it, and #else only at the one
before it, so #if(true){A} #elif(true){B} gave A and B, and
#if(true){A} #elif(false){B} #else{C} gave A and C.
---
 json_derive/quote/src/lib.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 5326a1b..68b4946 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -237,40 +237,43 @@ macro_rules! __scope_command {
             let e: Option<()> = None;
             e.expect("unexpected #ifdef in #foreach scope.");
         }
-        $flag.1 = Some(());
         $flag.0 = $hashmap.contains_key(__stringify!($param));
+        $flag.1 = Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident ifndef($param:ident) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #ifndef in #foreach scope.");
         }
-        $flag.1 = Some(());
         $flag.0 = !$hashmap.contains_key(__stringify!($param));
+        $flag.1 = Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident if($expr:expr) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #if in #foreach scope.");
         }
-        $flag.1 = Some(());
         $flag.0 = $expr;
+        $flag.1 = Some($flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident elif($expr:expr) ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #elif in #foreach scope.");
         }
-        $flag.1.expect("expect #if before #elif.");
-        $flag.0 = $expr;
+        // only the first branch whose condition holds is kept
+        let taken = $flag.1.expect("expect #if before #elif.");
+        $flag.0 = !taken && $expr;
+        $flag.1 = Some(taken || $flag.0);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident else ) => {
         if $iter.0.is_some() {
             let e: Option<()> = None;
             e.expect("unexpected #else in #foreach scope.");
         }
-        $flag.1.expect("expect #if before #else.");
-        $flag.0 = !$flag.0;
+        let taken = $flag.1.expect("expect #if before #else.");
+        $flag.0 = !taken;
+        $flag.1 = Some(true);
     };
     ( $token:ident $span:ident $flag:ident $iter:ident $hashmap:ident endif ) => {
         if $iter.0.is_some() {
@@ -364,7 +367,7 @@ macro_rules! __append_to_token {
       $($rest:tt)* ) =>
     {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
-        struct _Flag(bool, Option<()>);
+        struct _Flag(bool, Option<bool>);
         struct _Iter(Option<Vec<$crate::__pm::TokenStream>>, &'static str);
         let mut _flag = _Flag(true, None);
         let mut _iter = _Iter(None, "");
-- 
2.43.0


From abd9597be46b4e861505778f0d6d852d51043a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:20 +0000
Subject: [PATCH 14/29] fix: #foreach without a variable names TokenStream by
 its path

It only compiled where the caller had imported proc_macro::TokenStream.
---
 json_derive/quote/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 68b4946..e6edafa 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -302,7 +302,7 @@ macro_rules! __scope_command {
             e.expect("unexpected nested #foreach.");
         }
         let mut _sized_vec = Vec::with_capacity($expr.into_iter().count());
-        _sized_vec.resize(_sized_vec.capacity(), TokenStream::new());
+        _sized_vec.resize(_sized_vec.capacity(), $crate::__pm::TokenStream::new());
         $iter.0 = Some(_sized_vec);
         $iter.1 = "_";
     };
-- 
2.43.0


From 8c95df7e8fc5d1908855b8fad65b9956d7a014eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:31 +0000
Subject: [PATCH 15/29] fix: an arrow in a macro argument of a quote! scope is
 not a closing bracket

#(m(x => y, z)) counted the '>' of '=>' as the end of generics, so that
the following comma did not separate the arguments any more.
---
 json_derive/quote/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index e6edafa..28611e2 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -1217,7 +1217,7 @@ fn split_tokens_by(input: TokenStream, sep: &str) -> Vec<TokenStream> {
             match iter.next() {
                 Some(next) => {
                     match &next {
-                        TokenTree::Punct(punct) if punct.as_char() == '-' => {
+                        TokenTree::Punct(punct) if punct.as_char() == '-' || punct.as_char() == '=' => {
                             match iter.peek() {
                                 Some(TokenTree::Punct(peek)) if peek.as_char() == '>' => {
                                     inner.push(next);
-- 
2.43.0


From b5fe893cc022aae45278085fd36911a9eb58bf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:06 +0000
Subject: [PATCH 16/29] fix: values given in #(@params(x = ..): ..) end with
 that part of the template

The rest of the template saw them in place of the variables of the same
name around the macro.
---
 json_derive/quote/src/lib.rs | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/json_derive/quote/src/lib.rs b/json_derive/quote/src/lib.rs
index 28611e2..807caa6 100644
--- a/json_derive/quote/src/lib.rs
+++ b/json_derive/quote/src/lib.rs
@@ -334,13 +334,15 @@ macro_rules! __append_to_token {
     // @params modifier uses the given variable's value as token
     ( $token:ident $span:ident $($ident:ident)* # ( @ params($($param:ident$(=$expr:expr)?),+$(,)?) : $($tt:tt)+ ) $($rest:tt)* ) => {{
         $($token.extend($crate::__parse(__stringify!($ident), $span));)*
-        let mut _hashmap = std::collections::HashMap::new();
-        $(
-        $(let $param = $expr;)?
-        _hashmap.insert(__stringify!($param).to_string(), $crate::__parse(&$param.to_string(), $span));
-        )+
-        let _input = $crate::__parse(__stringify!($($tt)+), $span);
-        $token.extend($crate::__translate(_input, $span, &_hashmap));
+        {
+            let mut _hashmap = std::collections::HashMap::new();
+            $(
+            $(let $param = $expr;)?
+            _hashmap.insert(__stringify!($param).to_string(), $crate::__parse(&$param.to_string(), $span));
+            )+
+            let _input = $crate::__parse(__stringify!($($tt)+), $span);
+            $token.extend($crate::__translate(_input, $span, &_hashmap));
+        }
         __append_to_token!($token $span $($rest)*);
     }};
     // @scope modifier create an isolated scope, which include some useful behaviours
-- 
2.43.0


From 2c62b3f773f3666df8776a373cb9d911e27c5469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 17/29] fix: a negative literal in an attribute kept its sign
 only in the value

#[a = -5] was printed as #[a = 5].
---
 json_derive/parse/src/meta.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 1e7a97e..ca1eca0 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -540,8 +540,8 @@ impl Parse for MetaItem {
                 // parse negative value
                 if utils::punct_eq('-')(&meta[0]) {
                     match Lit::parse(meta[1].clone().into())? {
-                        Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw })),
-                        Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw })),
+                        Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw: format!("-{}", raw) })),
+                        Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw: format!("-{}", raw) })),
                         _ => return Err(Error::new(format!("error parsing negative literal: {}.", input)))
                     }
                 }
@@ -612,8 +612,8 @@ impl Parse for MetaItem {
                 // match negative value literal
                 if utils::punct_eq('-')(&meta[2]) {
                     match Lit::parse(meta[3].clone().into())? {
-                        Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw }; }
-                        Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw }; }
+                        Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw: format!("-{}", raw) }; }
+                        Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw: format!("-{}", raw) }; }
                         _ => return Err(Error::new(format!("error parsing negative literal: - {}.", &meta[3])))
                     }
                 } else {
-- 
2.43.0


From 945023eaaf67851d2227f7ac08cde55c19e5af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 18/29] fix: quotes that belong to a string literal in an
 attribute were cut off with the delimiters

The string of "a\"" was a\, without its quote.
---
 json_derive/parse/src/meta.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index ca1eca0..357dd39 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -280,9 +280,7 @@ macro_rules! fix_bytes {
         $(if $ident.starts_with($prefix) && $ident.ends_with($suffix) {
             return Ok(
                 Lit::Bytes {
-                    bytes: $ident
-                        .trim_start_matches($prefix)
-                        .trim_end_matches($suffix)
+                    bytes: $ident[$prefix.len()..$ident.len() - $suffix.len()]
                         .as_bytes()
                         .to_vec(),
                     raw: $ident,
@@ -297,9 +295,7 @@ macro_rules! fix_string {
         $(if $ident.starts_with($prefix) && $ident.ends_with($suffix) {
             return Ok(
                 Lit::String {
-                    string: $ident
-                        .trim_start_matches($prefix)
-                        .trim_end_matches($suffix)
+                    string: $ident[$prefix.len()..$ident.len() - $suffix.len()]
                         .to_string(),
                     raw: $ident,
                 }
-- 
2.43.0


From c702ab26f8208390147eb7d38d09190590b358f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 19/29] fix: print the where clause of a struct without fields

---
 json_derive/parse/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index e9b0d01..b0387c8 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -195,6 +195,9 @@ impl ToString for StructItem {
 
         match &self.fields {
             Fields::NoFields => {
+                if let Some(where_clause) = &self.where_clause {
+                    s.push_str(&where_clause.to_string());
+                }
                 s.push(';');
             }
             fields @ Fields::TupleFields(_) => {
-- 
2.43.0


From c4082a9af0f024341dfb7351906dac1b67170d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 20/29] fix: parse functions without parameters, and empty
 enums and tuple structs

fn f() {}, enum E {} and struct S(); were rejected.
---
 json_derive/parse/src/enum_value.rs | 1 +
 json_derive/parse/src/field.rs      | 1 +
 json_derive/parse/src/param.rs      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/json_derive/parse/src/enum_value.rs b/json_derive/parse/src/enum_value.rs
index 3d79369..fb7c6df 100644
--- a/json_derive/parse/src/enum_value.rs
+++ b/json_derive/parse/src/enum_value.rs
@@ -41,6 +41,7 @@ impl Parse for EnumValues {
                 return Ok(EnumValues {
                     items: utils::split_tokens_by(group.stream(), ",")
                         .into_iter()
+                        .filter(|x| !x.is_empty())
                         .map(|x| EnumValueItem::parse(x))
                         .collect::<Result<Vec<EnumValueItem>>>()?
                 });
diff --git a/json_derive/parse/src/field.rs b/json_derive/parse/src/field.rs
index fdb47c2..358fac1 100644
--- a/json_derive/parse/src/field.rs
+++ b/json_derive/parse/src/field.rs
@@ -102,6 +102,7 @@ impl Parse for Fields {
             Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Parenthesis => {
                 let mut vec: Vec<TupleFieldItem> = utils::split_tokens_by(group.stream(), ",")
                     .into_iter()
+                    .filter(|x| !x.is_empty())
                     .map(|x| TupleFieldItem::parse(x))
                     .collect::<Result<Vec<TupleFieldItem>>>()?;
 
diff --git a/json_derive/parse/src/param.rs b/json_derive/parse/src/param.rs
index 726510b..f9633f0 100644
--- a/json_derive/parse/src/param.rs
+++ b/json_derive/parse/src/param.rs
@@ -40,6 +40,7 @@ impl Parse for Params {
                 return Ok(Params {
                     items: utils::split_tokens_by(group.stream(), ",")
                         .into_iter()
+                        .filter(|x| !x.is_empty())
                         .map(|x| ParamItem::parse(x))
                         .collect::<Result<Vec<ParamItem>>>()?
                 });
-- 
2.43.0


From c35e5a3b65b99bd8059c7ad4342a5e9b16b33205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 21/29] fix: parse parameters whose type is a path, and keep
 the name of mut parameters

fn f(x: std::string::String) was rejected, and fn f(mut x: u8) was taken
for a parameter named mut.
---
 json_derive/parse/src/param.rs | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/json_derive/parse/src/param.rs b/json_derive/parse/src/param.rs
index f9633f0..6e79385 100644
--- a/json_derive/parse/src/param.rs
+++ b/json_derive/parse/src/param.rs
@@ -82,28 +82,24 @@ impl Parse for ParamItem {
             return Err(Error::new("got empty input when parsing param item."));
         }
 
-        // split ident and type by ':'
-        let mut tokens = utils::split_tokens_by(input.clone(), ":");
-
-        // validate
-        if ![1, 2].contains(&tokens.len()) {
-            return Err(Error::new(format!("malformed field: {}.", input)));
-        }
-
-        // parse type
-        let ty = match tokens.pop() {
-            Some(token) => Type::parse(token)?,
-            _ => return Err(Error::new(format!("malformed field: {}.", input)))
+        // split ident and type by the first ':', the type may contain "::"
+        let mut name: Vec<TokenTree> = input.clone().into_iter().collect();
+        let (name, ty) = match name.iter().position(|x| utils::punct_eq(':')(x)) {
+            Some(colon) => {
+                let ty = name.split_off(colon).into_iter().skip(1).collect();
+                (name, Type::parse(ty)?)
+            }
+            None => (Vec::new(), Type::parse(input.clone())?)
         };
 
         // parse name
-        let ident = match tokens.pop() {
-            Some(token) => match token.into_iter().next() {
-                Some(TokenTree::Ident(ident)) => Some(ident.to_string()),
-                Some(other) => return Err(Error::new(format!("field name should be an ident, got {}.", other))),
-                _ => None,
+        let ident = match name.as_slice() {
+            [] => None,
+            [TokenTree::Ident(ident)] => Some(ident.to_string()),
+            [TokenTree::Ident(mutable), TokenTree::Ident(ident)] if &mutable.to_string() == "mut" => {
+                Some(format!("mut {}", ident))
             }
-            _ => None,
+            _ => return Err(Error::new(format!("param name should be an ident, got {}.", input)))
         };
 
         // return
-- 
2.43.0


From d2731647527ed3febe330f14876f7a9f69a35fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 22/29] fix: skip the tokens of a return type that are there

The number worked out from the parsed type was wrong for function types
and trailing commas, so that fn f() -> Box<dyn Fn(u8) -> u8> {} was
rejected.
---
 json_derive/parse/src/lib.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index b0387c8..3b4ea6c 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -709,7 +709,7 @@ impl Parse for FnItem {
                 match peek.peek() {
                     Some(TokenTree::Punct(punct)) if punct.as_char() == '>' => {
                         peek.next();
-                        let return_ty = Type::parse(peek.clone()
+                        let tokens: Vec<TokenTree> = peek.clone()
                             .take_while(|x| {
                                 match x {
                                     TokenTree::Group(group) => group.delimiter() != Delimiter::Brace,
@@ -717,8 +717,11 @@ impl Parse for FnItem {
                                     _ => true
                                 }
                             })
-                            .collect())?;
-                        peek.nth(return_ty.__token_num() - 1);
+                            .collect();
+                        let n = tokens.len();
+                        let return_ty = Type::parse(tokens.into_iter().collect())?;
+                        // skip return type tokens
+                        peek.nth(n - 1);
                         Some(return_ty)
                     }
                     _ => {
-- 
2.43.0


From 0890466dd4afe582efd9e4c2f0eb9a5dfccb4ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 23/29] fix: extern fn without an ABI was taken for a plain fn

---
 json_derive/parse/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/lib.rs b/json_derive/parse/src/lib.rs
index 3b4ea6c..eaa9957 100644
--- a/json_derive/parse/src/lib.rs
+++ b/json_derive/parse/src/lib.rs
@@ -651,7 +651,8 @@ impl Parse for FnItem {
                         peek.next();
                         extern_abi
                     }
-                    _ => None
+                    // extern without an ABI means extern "C"
+                    _ => Some(Literal::string("C"))
                 }
             }
             _ => None
-- 
2.43.0


From 1162795f5ff6cf9bc6bc9d71548aa11044e85dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 24/29] fix: a const generic parameter was taken for a lifetime

struct S<const N: usize> was printed as struct S<'N: usize>.
---
 json_derive/parse/src/generic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 9cefbf0..b309616 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -32,7 +32,7 @@ impl Generics {
         if !self.items.is_empty() {
             format!("<{}>", self.items
                 .iter()
-                .map(|x| x.ident.clone())
+                .map(|x| x.ident.trim_start_matches("const ").to_string())
                 .collect::<Vec<String>>()
                 .join(", "))
         } else {
@@ -302,7 +302,7 @@ impl Parse for GenericItem {
                     }
                     TokenTree::Ident(ident) if &ident.to_string() == "const" => {
                         if let TokenTree::Ident(name) = &ident_tokens[1] {
-                            format!("'{}", name.to_string())
+                            format!("const {}", name.to_string())
                         } else {
                             return Err(Error::new(format!("const generic name should be an Ident, got {}.", &ident_tokens[1])));
                         }
-- 
2.43.0


From e08c0ecc62bbc3d8ddf969f4be58ea2b9dcbb4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:25 +0000
Subject: [PATCH 25/29] fix: the lifetime of a printed reference ran into the
 name of its type

---
 json_derive/parse/src/name.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index afbd19c..075980b 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -295,6 +295,7 @@ impl ToString for Type {
 
             if let Some(lifetime) = &self.lifetime {
                 ty.push_str(&lifetime.to_string());
+                ty.push(' ');
             }
 
             if self.is_mut {
-- 
2.43.0


From 9c34998b7710e6b1d13b1243ba9e62bd847bc77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 26/29] fix: an associated type that is a reference, dyn or
 impl was printed with its name in the wrong place

---
 json_derive/parse/src/name.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index 075980b..2ad4b5a 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -290,6 +290,11 @@ impl ToString for Type {
     fn to_string(&self) -> String {
         let mut ty = String::new();
 
+        if let Some(ident) = &self.ident {
+            ty.push_str(ident);
+            ty.push_str(" = ");
+        }
+
         if self.is_ref {
             ty.push('&');
 
@@ -311,11 +316,6 @@ impl ToString for Type {
             ty.push_str("impl ");
         }
 
-        if let Some(ident) = &self.ident {
-            ty.push_str(ident);
-            ty.push_str(" = ");
-        }
-
         ty.push_str(&self.names
             .iter()
             .map(|x| x.to_string())
-- 
2.43.0


From a3b180fd78467c59deefbec318b4e78cef5258a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:09 +0000
Subject: [PATCH 27/29] fix: negative enum discriminants were rejected

---
 json_derive/parse/src/enum_value.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/json_derive/parse/src/enum_value.rs b/json_derive/parse/src/enum_value.rs
index fb7c6df..f606b2f 100644
--- a/json_derive/parse/src/enum_value.rs
+++ b/json_derive/parse/src/enum_value.rs
@@ -101,7 +101,8 @@ impl Parse for EnumValueItem {
         // first we parse discrimination
         let tokens = utils::split_tokens_by(input.clone(), "=");
         let disc = if tokens.len() >= 2 {
-            let s = tokens[1].to_string();
+            // a negative number is two tokens
+            let s = tokens[1].clone().into_iter().map(|x| x.to_string()).collect::<String>();
             match s.parse::<isize>() {
                 Ok(n) => Some(n),
                 _ => {
-- 
2.43.0


From 4ab8a3696e27c59118c37f70d2f4d86cbdfd313d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:53 +0000
Subject: [PATCH 28/29] fix: paths of many steps overflowed the stack

Path was a linked list that new steps, reads, writes and drops walked
recursively, so a path string of some tens of thousands of segments
aborted the process.
---
 src/lib.rs | 68 ++++++++++++++++++------------------------------------
 1 file changed, 23 insertions(+), 45 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 23a0e4a..cfea96e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1027,72 +1027,50 @@ macro_rules! array {
 
 #[derive(Debug)]
 pub struct Path {
-    finder: Finder,
-    next: Option<Box<Path>>,
+    // never empty
+    finders: Vec<Finder>,
 }
 
 impl Path {
     pub fn new<F: Into<Finder>>(f: F) -> Path {
-        Path { finder: f.into(), next: None }
+        Path { finders: vec![f.into()] }
     }
 
     pub fn append<F: Into<Finder>>(&mut self, f: F) -> &mut Path {
-        match &mut self.next {
-            Some(path) => { path.append(f); }
-            None => self.next = Some(Box::new(Path::new(f))),
-        }
+        self.finders.push(f.into());
         self
     }
 
+    // the last step and those before it
+    fn split(&self) -> (&Finder, &[Finder]) {
+        let n = self.finders.len() - 1;
+        (&self.finders[n], &self.finders[..n])
+    }
+
     fn find<'a>(&self, json: &'a Json) -> Result<&'a Json, Error> {
-        match self.finder.find(json) {
-            Ok(inner) => {
-                match &self.next {
-                    Some(path) => path.find(inner),
-                    None => Ok(inner),
-                }
-            }
-            err @ Err(_) => err,
-        }
+        self.finders.iter().try_fold(json, |json, finder| finder.find(json))
     }
 
     fn find_mut<'a>(&self, json: &'a mut Json) -> Result<&'a mut Json, Error> {
-        match self.finder.find_mut(json) {
-            Ok(inner) => {
-                match &self.next {
-                    Some(path) => path.find_mut(inner),
-                    None => Ok(inner),
-                }
-            }
-            err @ Err(_) => err,
-        }
+        self.finders.iter().try_fold(json, |json, finder| finder.find_mut(json))
     }
 
     fn discard(&self, json: &mut Json) -> Result<Json, Error> {
-        match &self.next {
-            Some(path) => {
-                match self.finder.find_mut(json) {
-                    Ok(inner) => path.discard(inner),
-                    Err(err) => Err(err)
-                }
-            }
-            None => self.finder.discard(json)
-        }
+        let (last, init) = self.split();
+        let json = init.iter().try_fold(json, |json, finder| finder.find_mut(json))?;
+        last.discard(json)
     }
 
     fn update<'a, V: ToJson>(&self, json: &'a mut Json, v: V) -> Result<&'a mut Json, Error> {
-        match &self.next {
-            Some(path) => {
-                if self.finder.find(json).is_ok() {
-                    let inner = self.finder.find_mut(json)?;
-                    path.update(inner, v)
-                } else {
-                    let inner = self.finder.update(json, Json::Null)?;
-                    path.update(inner, v)
-                }
+        let (last, init) = self.split();
+        let json = init.iter().try_fold(json, |json, finder| {
+            if finder.find(json).is_ok() {
+                finder.find_mut(json)
+            } else {
+                finder.update(json, Json::Null)
             }
-            None => self.finder.update(json, v.to_json()),
-        }
+        })?;
+        last.update(json, v.to_json())
     }
 }
 
-- 
2.43.0


From 286c7247bd071b1ac5f051d207ebcf0ff9699843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:33 +0000
Subject: [PATCH 29/29] fix: the smallest i32 was taken for a float in an
 attribute

---
 json_derive/parse/src/meta.rs | 57 +++++++++++++++++++++++------------
 1 file changed, 38 insertions(+), 19 deletions(-)

diff --git a/json_derive/parse/src/meta.rs b/json_derive/parse/src/meta.rs
index 357dd39..936dfe7 100644
--- a/json_derive/parse/src/meta.rs
+++ b/json_derive/parse/src/meta.rs
@@ -304,6 +304,35 @@ macro_rules! fix_string {
     };
 }
 
+impl Lit {
+    // parse an int or a float, with its sign if there is one
+    fn parse_number(raw: String) -> Option<Lit> {
+        // parse int
+        if let Ok(integer) = fix_suffix!(raw: i32 => (
+                                    "u8", "u16", "u32", "u64",
+                                    "u128", "usize", "i8", "i16",
+                                    "i32", "i64", "i128", "isize")) {
+            return Some(Lit::Integer { integer, raw });
+        }
+
+        // parse float
+        if let Ok(float) = fix_suffix!(raw: f64 => ("f32", "f64")) {
+            return Some(Lit::Float { float, raw });
+        }
+
+        None
+    }
+
+    // parse the int or float after a '-'
+    // HINT: the digits of i32::MIN do not fit into an i32 without their sign.
+    fn parse_negative(token: &TokenTree) -> Option<Lit> {
+        match token {
+            TokenTree::Literal(lit) => Lit::parse_number(format!("-{}", lit)),
+            _ => None
+        }
+    }
+}
+
 impl Parse for Lit {
     fn parse(input: TokenStream) -> Result<Lit> {
         // handle emtpy token
@@ -342,17 +371,9 @@ impl Parse for Lit {
                                     ("r#\"", "\"#"),
                                     ("r##\"", "\"##")));
 
-                // parse int
-                if let Ok(integer) = fix_suffix!(raw: i32 => (
-                                            "u8", "u16", "u32", "u64",
-                                            "u128", "usize", "i8", "i16",
-                                            "i32", "i64", "i128", "isize")) {
-                    return Ok(Lit::Integer { integer, raw });
-                }
-
-                // parse float
-                if let Ok(float) = fix_suffix!(raw: f64 => ("f32", "f64")) {
-                    return Ok(Lit::Float { float, raw });
+                // parse int or float
+                if let Some(lit) = Lit::parse_number(raw) {
+                    return Ok(lit);
                 }
             }
 
@@ -535,10 +556,9 @@ impl Parse for MetaItem {
             2 => {
                 // parse negative value
                 if utils::punct_eq('-')(&meta[0]) {
-                    match Lit::parse(meta[1].clone().into())? {
-                        Lit::Integer { integer, raw } => return Ok(MetaItem::Literal(Lit::Integer { integer: -integer, raw: format!("-{}", raw) })),
-                        Lit::Float { float, raw } => return Ok(MetaItem::Literal(Lit::Float { float: -float, raw: format!("-{}", raw) })),
-                        _ => return Err(Error::new(format!("error parsing negative literal: {}.", input)))
+                    match Lit::parse_negative(&meta[1]) {
+                        Some(lit) => return Ok(MetaItem::Literal(lit)),
+                        None => return Err(Error::new(format!("error parsing negative literal: {}.", input)))
                     }
                 }
 
@@ -607,10 +627,9 @@ impl Parse for MetaItem {
 
                 // match negative value literal
                 if utils::punct_eq('-')(&meta[2]) {
-                    match Lit::parse(meta[3].clone().into())? {
-                        Lit::Integer { integer, raw } => { lit = Lit::Integer { integer: -integer, raw: format!("-{}", raw) }; }
-                        Lit::Float { float, raw } => { lit = Lit::Float { float: -float, raw: format!("-{}", raw) }; }
-                        _ => return Err(Error::new(format!("error parsing negative literal: - {}.", &meta[3])))
+                    match Lit::parse_negative(&meta[3]) {
+                        Some(negative) => { lit = negative; }
+                        None => return Err(Error::new(format!("error parsing negative literal: - {}.", &meta[3])))
                     }
                 } else {
                     return Err(Error::new(format!("negative value should starts with a '-' punct, got {}.", &meta[2])));
-- 
2.43.0

