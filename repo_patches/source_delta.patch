From 7bc3ac77f30e23cecc10b06bb6179ed550832daa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 01/14] fix: brackets and braces inside strings do not count as
 nesting

---
 src/lib.rs | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index d379543..cb83473 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -434,19 +434,27 @@ impl Json {
                     inner.push('\"');
                 }
                 Some('[') => {
-                    i += 1;
+                    if j == 0 {
+                        i += 1;
+                    }
                     inner.push('[');
                 }
                 Some(']') => {
-                    i -= 1;
+                    if j == 0 {
+                        i -= 1;
+                    }
                     inner.push(']');
                 }
                 Some('{') => {
-                    i += 1;
+                    if j == 0 {
+                        i += 1;
+                    }
                     inner.push('{');
                 }
                 Some('}') => {
-                    i -= 1;
+                    if j == 0 {
+                        i -= 1;
+                    }
                     inner.push('}');
                 }
                 Some('\\') => {
@@ -528,7 +536,9 @@ impl Json {
                     }
                 }
                 Some('[') => {
-                    i += 1;
+                    if j == 0 {
+                        i += 1;
+                    }
                     if on_key {
                         k.push('[');
                     } else {
@@ -536,7 +546,9 @@ impl Json {
                     }
                 }
                 Some(']') => {
-                    i -= 1;
+                    if j == 0 {
+                        i -= 1;
+                    }
                     if on_key {
                         k.push(']');
                     } else {
@@ -544,7 +556,9 @@ impl Json {
                     }
                 }
                 Some('{') => {
-                    i += 1;
+                    if j == 0 {
+                        i += 1;
+                    }
                     if on_key {
                         k.push('{');
                     } else {
@@ -552,7 +566,9 @@ impl Json {
                     }
                 }
                 Some('}') => {
-                    i -= 1;
+                    if j == 0 {
+                        i -= 1;
+                    }
                     if on_key {
                         k.push('}');
                     } else {
-- 
2.43.0


From 04e4fbe92770766d24aef92011feb728ad916082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 02/14] fix: empty arrays may hold whitespace and may not be
 followed by other text

---
 src/lib.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index cb83473..21b9080 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -394,17 +394,15 @@ impl Json {
     fn parse_array(json: &str) -> Result<Json, Error> {
         let mut array = Vec::new();
         let mut iter = json.chars().skip(1).peekable();
-        if let Some(']') = iter.peek() {
-            return Ok(Json::Array(array));
-        }
-
         let mut i = 0;
         let mut j = 0;
         let mut inner = String::new();
         loop {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
-                    array.push(Json::_parse(&inner)?);
+                    if !array.is_empty() || !inner.is_empty() {
+                        array.push(Json::_parse(&inner)?);
+                    }
                     loop {
                         match iter.next() {
                             Some(ch) if is_whitespace(ch) => (),
-- 
2.43.0


From a87ba45a9217c9a96cf094d0dd17b08424d5deda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 03/14] fix: empty objects may hold whitespace and may not be
 followed by other text

---
 src/lib.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 21b9080..a01b7e1 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -475,10 +475,6 @@ impl Json {
     fn parse_object(json: &str) -> Result<Json, Error> {
         let mut object = HashMap::new();
         let mut iter = json.chars().skip(1).peekable();
-        if let Some('}') = iter.peek() {
-            return Ok(Json::Object(object));
-        }
-
         let mut i = 0;
         let mut j = 0;
         let mut k = String::new();
@@ -486,6 +482,17 @@ impl Json {
         let mut on_key = true;
         loop {
             match iter.next() {
+                Some('}') if i == 0 && j == 0 && on_key && k.is_empty() && object.is_empty() => {
+                    loop {
+                        match iter.next() {
+                            Some(ch) if is_whitespace(ch) => (),
+                            Some(ch) => return Err(Error::new(ParseObjectError,
+                                                              format!("invalid trailing character: {}.", ch))),
+                            None => break
+                        }
+                    }
+                    return Ok(Json::Object(object));
+                }
                 Some('}') if i == 0 && j == 0 && !on_key => {
                     if let Ok(Json::String(key)) = Json::_parse(&k) {
                         object_insert(&mut object, key, Json::_parse(&v)?);
-- 
2.43.0


From d4eabf3962948c74fb4f065b1010c978ba1a11e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 04/14] fix: whitespace inside a number or literal in a
 container is an error

---
 src/lib.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index a01b7e1..57efa5e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -401,7 +401,7 @@ impl Json {
             match iter.next() {
                 Some(']') if i == 0 && j == 0 => {
                     if !array.is_empty() || !inner.is_empty() {
-                        array.push(Json::_parse(&inner)?);
+                        array.push(Json::parse(&inner)?);
                     }
                     loop {
                         match iter.next() {
@@ -420,7 +420,7 @@ impl Json {
                     if let Some(']') = iter.peek() {
                         return Err(Error::new(ParseArrayError, "invalid trailing comma.".to_string()));
                     }
-                    array.push(Json::_parse(&inner)?);
+                    array.push(Json::parse(&inner)?);
                     inner.clear();
                 }
                 Some('\"') => {
@@ -463,7 +463,7 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
+                Some(ch) if i == 0 && j == 0 && inner.is_empty() && is_whitespace(ch) => (),
                 Some(ch) => {
                     inner.push(ch);
                 }
@@ -494,8 +494,8 @@ impl Json {
                     return Ok(Json::Object(object));
                 }
                 Some('}') if i == 0 && j == 0 && !on_key => {
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         loop {
                             match iter.next() {
                                 Some(ch) if is_whitespace(ch) => (),
@@ -516,8 +516,8 @@ impl Json {
                     if let Some('}') = iter.peek() {
                         return Err(Error::new(ParseObjectError, "invalid trailing comma.".to_string()));
                     }
-                    if let Ok(Json::String(key)) = Json::_parse(&k) {
-                        object_insert(&mut object, key, Json::_parse(&v)?);
+                    if let Ok(Json::String(key)) = Json::parse(&k) {
+                        object_insert(&mut object, key, Json::parse(&v)?);
                         k.clear();
                         v.clear();
                         on_key = true;
@@ -598,7 +598,8 @@ impl Json {
                                                    "missing escaped character.".to_string()))
                     }
                 }
-                Some(ch) if i == 0 && j == 0 && is_whitespace(ch) => (),
+                Some(ch) if i == 0 && j == 0 && on_key && k.is_empty() && is_whitespace(ch) => (),
+                Some(ch) if i == 0 && j == 0 && !on_key && v.is_empty() && is_whitespace(ch) => (),
                 Some(ch) => {
                     if on_key {
                         k.push(ch);
-- 
2.43.0


From 735dcaa4896b62b1f7d217aafee963bb6ae89218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 05/14] fix: numbers with leading zeros are errors

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 57efa5e..f10c7a9 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -769,7 +769,7 @@ fn valid_number(num: &str) -> bool {
         _ => ()
     }
 
-    true
+    iter.next().is_none()
 }
 
 #[inline]
-- 
2.43.0


From 114277197dd6097fce49faaeb134ee35b948752d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 06/14] fix: a second colon in an object member is an error

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index f10c7a9..8b585e0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -525,7 +525,7 @@ impl Json {
                         return Err(Error::new(ParseObjectError, "error parsing key string.".to_string()));
                     }
                 }
-                Some(':') if i == 0 && j == 0 => {
+                Some(':') if i == 0 && j == 0 && on_key => {
                     on_key = false;
                 }
                 Some('\"') => {
-- 
2.43.0


From c54f14e75528cb0382863af4275b68afb9490f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 07/14] fix: numbers that JSON cannot express are written as
 null

---
 src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib.rs b/src/lib.rs
index 8b585e0..b663299 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -140,6 +140,7 @@ impl ToString for Json {
                             .join(", "))
             }
             Json::String(s) => escape(s),
+            Json::Number(f) if !f.is_finite() => "null".to_string(),
             Json::Number(f) => (*f).to_string(),
             Json::Boolean(b) => (*b).to_string(),
             Json::Null => "null".to_string(),
-- 
2.43.0


From 1a9bcf44e48b1d3af6458ca13c80652a969b5848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 08/14] fix: removing an index out of range is an error, not a
 panic

---
 src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index b663299..fbc5feb 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -219,6 +219,10 @@ impl Json {
     pub fn remove(&mut self, i: usize) -> Result<(), Error> {
         match self {
             Json::Array(vec) => {
+                if i >= vec.len() {
+                    return Err(Error::new(IndexOutOfRange,
+                                          format!("index {} out of range.", i)));
+                }
                 vec.remove(i);
                 Ok(())
             }
-- 
2.43.0


From 00996cac680e25b87681a86feba4f6c7e3a44258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 09/14] fix: the documented #[ignore] attribute is usable on
 fields

As a derive helper it collides with the built-in attribute of the same name.
---
 json_derive/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 2ff7c10..9cc2d60 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -5,7 +5,7 @@ use json_quote::quote;
 use json_parse::Item;
 use json_parse::field::Fields;
 
-#[proc_macro_derive(JsonEncode, attributes(key, ignore))]
+#[proc_macro_derive(JsonEncode, attributes(key))]
 pub fn json_encode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
@@ -57,7 +57,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
     }
 }
 
-#[proc_macro_derive(JsonDecode, attributes(key, ignore))]
+#[proc_macro_derive(JsonDecode, attributes(key))]
 pub fn json_decode(input: TokenStream) -> TokenStream {
     let item: Item = json_parse::parse(input).expect("error parsing item");
     match item {
-- 
2.43.0


From 82ceb05d2e288d78753c4fbd2f15ce97e9b5f56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:37 +0000
Subject: [PATCH 10/14] fix: structs without fields can be derived

---
 json_derive/parse/src/field.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/json_derive/parse/src/field.rs b/json_derive/parse/src/field.rs
index d211a28..992912d 100644
--- a/json_derive/parse/src/field.rs
+++ b/json_derive/parse/src/field.rs
@@ -124,6 +124,8 @@ impl Parse for Fields {
             Some(TokenTree::Group(group)) if group.delimiter() == Delimiter::Brace => {
                 return Ok(Fields::StructFields(utils::split_tokens_by(group.stream(), ",")
                     .into_iter()
+                    // a struct without any field has no tokens to parse
+                    .filter(|x| !x.is_empty())
                     .map(|x| StructFieldItem::parse(x))
                     .collect::<Result<Vec<StructFieldItem>>>()?));
             }
-- 
2.43.0


From 4d2de2906076ce8336efd30383b88c4ae6646d2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:04 +0000
Subject: [PATCH 11/14] fix: fields named by raw identifiers are members under
 their plain name

---
 json_derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 9cc2d60..9049a78 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -24,10 +24,10 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                                 if let Some(key) = meta.get("key") {
                                     key.string().expect("key attribute should be string").to_string()
                                 } else {
-                                    x.ident.clone()
+                                    x.ident.trim_start_matches("r#").to_string()
                                 }
                             } else {
-                                x.ident.clone()
+                                x.ident.trim_start_matches("r#").to_string()
                             };
                             (format!("\"{}\".to_string()", k), x.ident.clone())
                         })
@@ -76,10 +76,10 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                                 if let Some(key) = meta.get("key") {
                                     key.string().expect("key attribute should be string").to_string()
                                 } else {
-                                    x.ident.clone()
+                                    x.ident.trim_start_matches("r#").to_string()
                                 }
                             } else {
-                                x.ident.clone()
+                                x.ident.trim_start_matches("r#").to_string()
                             };
                             (format!("\"{}\"", k), x.ident.clone(), x.ty.used_ty())
                         })
-- 
2.43.0


From e5a054573ae0c89225869c578308dc367f00faf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 12/14] fix: key attributes given as raw or escaped strings
 name the member they denote

---
 json_derive/src/lib.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index 9049a78..aa672a4 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -22,14 +22,14 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    key.string().map(|_| key.to_string()).expect("key attribute should be string")
                                 } else {
-                                    x.ident.trim_start_matches("r#").to_string()
+                                    format!("\"{}\"", x.ident.trim_start_matches("r#"))
                                 }
                             } else {
-                                x.ident.trim_start_matches("r#").to_string()
+                                format!("\"{}\"", x.ident.trim_start_matches("r#"))
                             };
-                            (format!("\"{}\".to_string()", k), x.ident.clone())
+                            (format!("{}.to_string()", k), x.ident.clone())
                         })
                         .collect();
                     quote! {
@@ -74,14 +74,14 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         .map(|x| {
                             let k = if let Some(meta) = &x.meta {
                                 if let Some(key) = meta.get("key") {
-                                    key.string().expect("key attribute should be string").to_string()
+                                    key.string().map(|_| key.to_string()).expect("key attribute should be string")
                                 } else {
-                                    x.ident.trim_start_matches("r#").to_string()
+                                    format!("\"{}\"", x.ident.trim_start_matches("r#"))
                                 }
                             } else {
-                                x.ident.trim_start_matches("r#").to_string()
+                                format!("\"{}\"", x.ident.trim_start_matches("r#"))
                             };
-                            (format!("\"{}\"", k), x.ident.clone(), x.ty.used_ty())
+                            (k, x.ident.clone(), x.ty.used_ty())
                         })
                         .collect();
                     quote! {
-- 
2.43.0


From eaae882dbb66ad59d8721218d12d723dbd58e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:04 +0000
Subject: [PATCH 13/14] fix: derive keeps a lifetime apart from the type it
 precedes inside a bound

---
 json_derive/parse/src/name.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/json_derive/parse/src/name.rs b/json_derive/parse/src/name.rs
index afbd19c..075980b 100644
--- a/json_derive/parse/src/name.rs
+++ b/json_derive/parse/src/name.rs
@@ -295,6 +295,7 @@ impl ToString for Type {
 
             if let Some(lifetime) = &self.lifetime {
                 ty.push_str(&lifetime.to_string());
+                ty.push(' ');
             }
 
             if self.is_mut {
-- 
2.43.0


From 777a282485e5a43b33dc127dc7b0ca5aacfb710b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:17 +0000
Subject: [PATCH 14/14] fix: derive leaves type parameter defaults out of the
 impl header

---
 json_derive/parse/src/generic.rs | 26 +++++++++++++++++++++++---
 json_derive/src/lib.rs           |  4 ++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/json_derive/parse/src/generic.rs b/json_derive/parse/src/generic.rs
index 9cefbf0..a13f35f 100644
--- a/json_derive/parse/src/generic.rs
+++ b/json_derive/parse/src/generic.rs
@@ -28,6 +28,19 @@ impl Generics {
         self.n + 2
     }
 
+    // for impl headers, where default types are not allowed
+    pub fn without_defaults(&self) -> String {
+        if !self.items.is_empty() {
+            format!("<{}>", self.items
+                .iter()
+                .map(|x| x.without_default())
+                .collect::<Vec<String>>()
+                .join(", "))
+        } else {
+            String::default()
+        }
+    }
+
     pub fn only_idents(&self) -> String {
         if !self.items.is_empty() {
             format!("<{}>", self.items
@@ -176,10 +189,9 @@ impl GenericItem {
     pub fn is_static(&self) -> bool {
         &self.ident == "'static"
     }
-}
 
-impl ToString for GenericItem {
-    fn to_string(&self) -> String {
+    // this parameter with its bounds, but without its default type
+    fn without_default(&self) -> String {
         let mut gen = self.ident.clone();
 
         let mut buf = self.traits
@@ -199,6 +211,14 @@ impl ToString for GenericItem {
             gen.push_str(&buf.join(" + "));
         }
 
+        gen
+    }
+}
+
+impl ToString for GenericItem {
+    fn to_string(&self) -> String {
+        let mut gen = self.without_default();
+
         if let Some(ref default) = self.default {
             gen.push_str(" = ");
             gen.push_str(&default.to_string());
diff --git a/json_derive/src/lib.rs b/json_derive/src/lib.rs
index aa672a4..7912e90 100644
--- a/json_derive/src/lib.rs
+++ b/json_derive/src/lib.rs
@@ -33,7 +33,7 @@ pub fn json_encode(input: TokenStream) -> TokenStream {
                         })
                         .collect();
                     quote! {
-                        impl#(#(&s.generics))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
+                        impl#(#(&s.generics):x #(x.without_defaults()))? json::ToJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
                             fn to_json(&self) -> json::Json {
@@ -85,7 +85,7 @@ pub fn json_decode(input: TokenStream) -> TokenStream {
                         })
                         .collect();
                     quote! {
-                        impl#(#(&s.generics))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
+                        impl#(#(&s.generics):x #(x.without_defaults()))? json::FromJson for #(s.ident)#(#(&s.generics):x #(x.only_idents()))?
                         #(#(&s.where_clause))?
                         {
                             fn from_json(json: &json::Json) -> Result<Self, json::Error> {
-- 
2.43.0

