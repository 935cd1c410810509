From 415e1804fe01776dfd2950e2fd1204c0d4e94606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:58 +0000
Subject: [PATCH 01/20] fix: report division by zero and overflow in
 expressions rather than panicking

---
 src/parsers.rs |  8 ++++++-
 src/types.rs   | 57 ++++++++++++++++++++++++++++++--------------------
 2 files changed, 41 insertions(+), 24 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index dc2b7ec..d84a2f0 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -1082,7 +1082,13 @@ pub(crate) fn expr_value<'s, I>() -> impl Parser<'s, I, ExprValue, Extra<'s>>
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    expr().map(ExprValue::from)
+    expr().validate(|expr, e, emitter| {
+        // validate allows us to emit an error for an expression without a value but still consume the input
+        ExprValue::try_evaluate(expr).unwrap_or_else(|(dummy, reason)| {
+            emitter.emit(Rich::custom(e.span(), reason));
+            dummy
+        })
+    })
 }
 
 /// Match an expression
diff --git a/src/types.rs b/src/types.rs
index 59919e0..386976b 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2227,10 +2227,28 @@ impl PartialEq<Decimal> for ExprValue {
 
 impl From<Expr> for ExprValue {
     /// Evaluate the `Expr` rounding to the max scale it contains.
+    ///
+    /// # Panics
+    /// If the `Expr` has no value, because of division by zero or a number out of range.
     fn from(expr: Expr) -> Self {
-        let (mut value, scale) = expr.evaluate();
-        value.rescale(scale);
-        Self { value, expr }
+        Self::try_evaluate(expr).unwrap_or_else(|(_, e)| panic!("{}", e))
+    }
+}
+
+impl ExprValue {
+    /// Evaluate the `Expr` rounding to the max scale it contains,
+    /// or return the `Expr` with value zero and the reason for it having no value.
+    pub(crate) fn try_evaluate(expr: Expr) -> Result<Self, (Self, &'static str)> {
+        match expr.evaluate() {
+            Ok((mut value, scale)) => {
+                value.rescale(scale);
+                Ok(Self { value, expr })
+            }
+            Err(e) => {
+                let value = Decimal::ZERO;
+                Err((Self { value, expr }, e))
+            }
+        }
     }
 }
 
@@ -2260,32 +2278,25 @@ pub enum Expr {
 }
 
 impl Expr {
-    fn evaluate(&self) -> (Decimal, u32) {
-        fn evaluate_unary<F>(op: F, e1: &Expr) -> (Decimal, u32)
-        where
-            F: Fn(Decimal) -> Decimal,
-        {
-            let (d1, s1) = e1.evaluate();
-            (op(d1), s1)
-        }
-
-        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> (Decimal, u32)
+    fn evaluate(&self) -> Result<(Decimal, u32), &'static str> {
+        fn evaluate_binary<F>(op: F, e1: &Expr, e2: &Expr) -> Result<(Decimal, u32), &'static str>
         where
-            F: Fn(Decimal, Decimal) -> Decimal,
+            F: Fn(Decimal, Decimal) -> Option<Decimal>,
         {
-            let (d1, s1) = e1.evaluate();
-            let (d2, s2) = e2.evaluate();
-            (op(d1, d2), max(s1, s2))
+            let (d1, s1) = e1.evaluate()?;
+            let (d2, s2) = e2.evaluate()?;
+            let d = op(d1, d2).ok_or("division by zero or number out of range")?;
+            Ok((d, max(s1, s2)))
         }
 
         use Expr::*;
         match self {
-            Value(d) => (*d, d.scale()),
-            Add(e1, e2) => evaluate_binary(std::ops::Add::add, e1, e2),
-            Sub(e1, e2) => evaluate_binary(std::ops::Sub::sub, e1, e2),
-            Mul(e1, e2) => evaluate_binary(std::ops::Mul::mul, e1, e2),
-            Div(e1, e2) => evaluate_binary(std::ops::Div::div, e1, e2),
-            Neg(e1) => evaluate_unary(std::ops::Neg::neg, e1),
+            Value(d) => Ok((*d, d.scale())),
+            Add(e1, e2) => evaluate_binary(Decimal::checked_add, e1, e2),
+            Sub(e1, e2) => evaluate_binary(Decimal::checked_sub, e1, e2),
+            Mul(e1, e2) => evaluate_binary(Decimal::checked_mul, e1, e2),
+            Div(e1, e2) => evaluate_binary(Decimal::checked_div, e1, e2),
+            Neg(e1) => e1.evaluate().map(|(d1, s1)| (-d1, s1)),
             Paren(e) => e.evaluate(),
         }
     }
-- 
2.43.0


From c10b3004b206b030a38a480a8ce1bd4c16317e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:35:58 +0000
Subject: [PATCH 02/20] fix: keep whole of trailing multi-byte character when
 trimming whitespace from a span

---
 src/trim.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/trim.rs b/src/trim.rs
index 5922e1a..59151f1 100644
--- a/src/trim.rs
+++ b/src/trim.rs
@@ -3,8 +3,11 @@ use test_case::test_case;
 
 // adjust the span to exclude trailing whitespace
 pub fn trim_trailing_whitespace(content: &str, start: usize, end: usize) -> usize {
-    match &content[start..end].rfind(|c: char| !c.is_whitespace()) {
-        Some(i) => start + *i + 1,
+    match content[start..end]
+        .char_indices()
+        .rfind(|(_, c)| !c.is_whitespace())
+    {
+        Some((i, c)) => start + i + c.len_utf8(),
         None => end,
     }
 }
-- 
2.43.0


From 281facf48f29006a9fa781e955f7c681b1a72980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:43:11 +0000
Subject: [PATCH 03/20] fix: reject non-ASCII currencies without panicking

---
 src/types.rs | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 386976b..355029b 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -9,7 +9,6 @@ use std::{
     collections::{HashMap, HashSet, hash_map},
     fmt::{self, Display, Formatter},
     hash::{Hash, Hasher},
-    iter::empty,
     mem::swap,
     ops::Deref,
 };
@@ -1691,16 +1690,8 @@ impl<'a> TryFrom<&'a str> for Currency<'a> {
         } else {
             let mut chars = s.chars();
             let first = chars.next().unwrap();
-            let intermediate: Vec<char> = if s.len() > 2 {
-                chars.by_ref().take(s.len() - 2).collect()
-            } else {
-                empty::<char>().collect()
-            };
-            let last = if s.len() > 1 {
-                chars.next().unwrap()
-            } else {
-                first
-            };
+            let last = chars.next_back().unwrap_or(first);
+            let intermediate = chars.collect::<Vec<char>>();
 
             use CurrencyErrorKind::*;
             if !Currency::is_valid_initial(&first) {
-- 
2.43.0


From 20803d27fea37c5af09ae135c25487593cf042b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:04 +0000
Subject: [PATCH 04/20] fix: match only ASCII digits in dates, times and
 numbers

---
 src/lexer.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 99fae24..89f0b00 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -22,12 +22,12 @@ use unescaper::unescape;
 #[logos(subpattern ignored_whole_line= r"([*!&#?%:].*\r?\n)")] // rolled into end-of-line handling below
 #[logos(subpattern comment_to_eol= r"(;.*)")] // rolled into end-of-line handling below
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern time = r"\d{1,2}:\d{2}(:\d{2})?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern time = r"[0-9]{1,2}:[0-9]{2}(:[0-9]{2})?")]
 #[logos(subpattern account_type = r"[\p{Lu}\p{Lo}][\p{L}\p{N}\-]*")]
 #[logos(subpattern account_name = r"[\p{Lu}\p{Lo}\p{N}][\p{L}\p{N}\-]*")]
 #[logos(subpattern string_literal = r#""([^\\"]|\\.)*""#)]
-#[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
+#[logos(subpattern number = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?")]
 #[logos(subpattern tag_or_link_identifier = r"[A-Za-z0-9\-_/.]+")]
 #[logos(subpattern key = r"[a-z][a-zA-Z0-9\-_]+")]
 pub enum Token<'a> {
@@ -266,8 +266,8 @@ type SpannedToken<'a> = (Token<'a>, Span_);
 #[derive(Logos, Clone, Debug, PartialEq, Eq)]
 #[logos(error = LexerError)]
 #[logos(subpattern currency = r"[A-Z][A-Z0-9'\._-]*|/[0-9'\._-]*[A-Z][A-Z0-9'\._-]*")]
-#[logos(subpattern date = r"\d{4}[\-/]\d{2}[\-/]\d{2}")]
-#[logos(subpattern number = r"\d+(,\d{3})*(\.\d+)?")]
+#[logos(subpattern date = r"[0-9]{4}[\-/][0-9]{2}[\-/][0-9]{2}")]
+#[logos(subpattern number = r"[0-9]+(,[0-9]{3})*(\.[0-9]+)?")]
 enum RecoveryToken {
     #[token("-")]
     Minus,
-- 
2.43.0


From a8f2a5cc12fd0b3713d651a87a1e8800dfe06279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:03 +0000
Subject: [PATCH 05/20] fix: reject numbers with too many decimal places rather
 than silently rounding them

---
 src/lexer.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 89f0b00..699a5a2 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -6,7 +6,6 @@ use std::{
     error::Error,
     fmt::{self, Debug, Display, Formatter},
     ops::Range,
-    str::FromStr,
 };
 use time::{Date, Month, Time};
 use unescaper::unescape;
@@ -707,14 +706,12 @@ fn parse_number(s: &str) -> Result<Decimal, LexerError> {
     let result = if s.contains(',') {
         let mut without_commas = s.to_string();
         without_commas.retain(|c| c != ',');
-        FromStr::from_str(&without_commas)
+        Decimal::from_str_exact(&without_commas)
     } else {
-        FromStr::from_str(s)
+        Decimal::from_str_exact(s)
     };
 
-    result.map_err(|e: <rust_decimal::Decimal as std::str::FromStr>::Err| {
-        LexerError::new(e.to_string())
-    })
+    result.map_err(|e| LexerError::new(e.to_string()))
 }
 
 #[derive(PartialEq, Eq, Clone, Debug)]
-- 
2.43.0


From cd7783c5a19e4c5555f7367b1d1e9952475fd5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:18 +0000
Subject: [PATCH 06/20] fix: parse included files in the order they were
 discovered, not in hash table order

---
 src/lib.rs     |  2 +-
 src/sources.rs | 26 +++++++++++++++-----------
 2 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 46715c4..de83878 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -206,7 +206,7 @@ type ParseDeclarationsResult<'t> = (
 impl<'s> BeancountParser<'s> {
     /// Create a `BeancountParser` from `BeancountSources` read from all input files.
     pub fn new(sources: &'s BeancountSources) -> Self {
-        // `content_iter()` walks a `HashMap`, so iteration order is not guaranteed.
+        // There may be gaps in the `SourceId`s from `content_iter()` because of files which couldn't be read.
         // We must index by `SourceId` rather than relying on iteration order.
         let mut tokenized_sources = vec![Vec::new(); sources.num_sources()];
 
diff --git a/src/sources.rs b/src/sources.rs
index 589d251..8b5b82a 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -349,23 +349,27 @@ impl BeancountSources {
         .collect()
     }
 
+    /// Iterate through the sources in order of `SourceId`, which is the order in which they were discovered.
     pub(crate) fn content_iter(&self) -> impl Iterator<Item = (SourceId, Option<&Path>, &str)> {
+        let mut included = self
+            .included_content
+            .iter()
+            .filter_map(|(pathbuf, included_source)| {
+                if let IncludedSource::Content(source_id, content, _) = included_source {
+                    Some((*source_id, Some(pathbuf.as_path()), content.as_str()))
+                } else {
+                    None
+                }
+            })
+            .collect::<Vec<_>>();
+        included.sort_by_key(|(source_id, _, _)| Into::<usize>::into(*source_id));
+
         once((
             self.root_source_id,
             self.root_path.as_deref(),
             self.root_content.as_str(),
         ))
-        .chain(
-            self.included_content
-                .iter()
-                .filter_map(|(pathbuf, included_source)| {
-                    if let IncludedSource::Content(source_id, content, _) = included_source {
-                        Some((*source_id, Some(pathbuf.as_path()), content.as_str()))
-                    } else {
-                        None
-                    }
-                }),
-        )
+        .chain(included)
     }
 
     /// Number of real sources, excluding synthetic ones
-- 
2.43.0


From 70135fa1eb74cb6dccb0f5e93e322d8d83a9c3dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 07/20] fix: offset char indices of synthetic spans by bytes
 not characters

---
 src/sources.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 8b5b82a..50170e5 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -490,12 +490,7 @@ impl<'a> SyntheticSources<'a> {
                 end,
             };
 
-            let original_len = char_indices.len();
-            char_indices.extend(
-                content_fragment
-                    .char_indices()
-                    .map(|(i, _)| i + original_len),
-            );
+            char_indices.extend(content_fragment.char_indices().map(|(i, _)| i + start));
             content.push_str(content_fragment);
 
             span
-- 
2.43.0


From d90dee4dd1456d0ea1c3212252940b33235747e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:57 +0000
Subject: [PATCH 08/20] fix: no file name when resolving a span of inline
 source alongside synthetic sources

---
 src/sources.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 50170e5..1d6f3f7 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -560,7 +560,11 @@ impl<'a> SyntheticSources<'a> {
     /// Resolve the span into filename, line number range, and spanned content.
     /// Filename will be present unless the sources were created from an inline string.
     pub fn resolve_span<'s>(&'s self, span: &Span) -> SpannedSource<'s> {
-        resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        if self.is_synthetic(span) {
+            resolve_span(*span, &|span| self.get_adjusted_source(span), true)
+        } else {
+            self.sources.resolve_span(span)
+        }
     }
 
     pub fn error_source_text<'s, K>(&'s self, error_or_warning: &ErrorOrWarning<K>) -> &'s str
@@ -572,9 +576,12 @@ impl<'a> SyntheticSources<'a> {
         &source_content[byte_span.start..byte_span.end]
     }
 
+    fn is_synthetic(&self, span: &Span) -> bool {
+        span.source >= self.base_id && span.source < self.base_id + self.source_id_strings.len()
+    }
+
     fn get_adjusted_source(&self, span: Span) -> (&str, &str, Span, Span) {
-        if span.source >= self.base_id && span.source < self.base_id + self.source_id_strings.len()
-        {
+        if self.is_synthetic(&span) {
             let source_id_str = self.source_id_strings[span.source - self.base_id].as_str();
 
             let (_, content, content_char_indices) = self.content.get(source_id_str).unwrap();
-- 
2.43.0


From 1930010b0faecb9015527b5d1bf0eb828d9e9ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:03 +0000
Subject: [PATCH 09/20] fix: a file included by two different paths is a
 duplicate whichever of them comes first

---
 src/sources.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 1d6f3f7..41f09ed 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -2,7 +2,7 @@ use ariadne::{Color, Label};
 use glob::{self, glob_with};
 use lazy_format::lazy_format;
 use std::{
-    collections::{HashMap, HashSet, VecDeque},
+    collections::{HashMap, VecDeque},
     ffi::OsStr,
     fmt::{self, Formatter},
     fs::File,
@@ -70,13 +70,13 @@ impl BeancountSources {
         let mut included_globs = HashMap::new();
         let mut included_content: HashMap<PathBuf, IncludedSource> = HashMap::new();
 
-        // for duplicate detection
-        let mut canonical_paths =
-            if let Some(canonical_root) = root_path.as_ref().and_then(|p| p.canonicalize().ok()) {
-                HashSet::from([canonical_root])
-            } else {
-                HashSet::default()
-            };
+        // for duplicate detection, the path by which each file was first read, by canonical path
+        let mut first_paths = HashMap::new();
+        if let Some(root_path) = root_path.as_ref() {
+            if let Ok(canonical_root) = root_path.canonicalize() {
+                first_paths.insert(canonical_root, root_path.clone());
+            }
+        }
 
         while !pending_includes.is_empty() {
             let included = pending_includes.pop_front().unwrap();
@@ -105,16 +105,18 @@ impl BeancountSources {
                                 included_content.insert(path, IncludedSource::Error(e.to_string()));
                             }
                             Ok(globbed_include) => {
-                                glob_expansions.push(globbed_include.clone());
-
                                 if let Ok(canonical_path) = globbed_include.canonicalize() {
-                                    if canonical_paths.contains(&canonical_path) {
+                                    if let Some(first_path) = first_paths.get(&canonical_path) {
+                                        // already read, perhaps by some other path, so refer to that one
+                                        glob_expansions.push(first_path.clone());
+
                                         // don't overwrite existing content
                                         included_content
                                             .entry(globbed_include)
                                             .or_insert(IncludedSource::Duplicate);
                                     } else {
-                                        canonical_paths.insert(canonical_path);
+                                        glob_expansions.push(globbed_include.clone());
+                                        first_paths.insert(canonical_path, globbed_include.clone());
 
                                         let source_id = SourceId::from(source_id_strings.len());
                                         source_id_strings
@@ -162,6 +164,8 @@ impl BeancountSources {
                                             pending_includes.append(&mut includes);
                                         }
                                     }
+                                } else {
+                                    glob_expansions.push(globbed_include);
                                 }
                             }
                         }
-- 
2.43.0


From af81ac558cb6b7db5589eec53d6657846c73e523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:40 +0000
Subject: [PATCH 10/20] fix: process consecutive pragmas without recursion,
 which could overflow the stack

---
 src/lib.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index de83878..ac4c02d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -432,6 +432,18 @@ impl<'s> Iterator for PragmaProcessor<'s> {
     type Item = Spanned<Directive<'s>>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // iterate rather than recurse, since there may be any number of consecutive pragmas
+        loop {
+            if let Some(directive) = self.step()? {
+                return Some(directive);
+            }
+        }
+    }
+}
+
+impl<'s> PragmaProcessor<'s> {
+    // process the next declaration, if any, which yields a directive unless it was a pragma
+    fn step(&mut self) -> Option<Option<Spanned<Directive<'s>>>> {
         match self.current_declarations.pop_front() {
             Some(declaration) => {
                 match declaration.item {
@@ -439,7 +451,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         directive.metadata.augment_tags(&self.tags);
                         directive.metadata.augment_key_values(&self.meta_key_values);
 
-                        Some(spanned(directive, declaration.span))
+                        Some(Some(spanned(directive, declaration.span)))
                     }
 
                     Declaration::Pragma(pragma) => {
@@ -651,7 +663,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                         }
 
                         // having silently consumed a pragma, go on to the next declaration
-                        self.next()
+                        Some(None)
                     }
                 }
             }
@@ -659,7 +671,7 @@ impl<'s> Iterator for PragmaProcessor<'s> {
                 Some((path, declarations)) => {
                     self.current_path = path;
                     self.current_declarations = declarations;
-                    self.next()
+                    Some(None)
                 }
                 None => None,
             },
-- 
2.43.0


From 71edbf835f1e3e8faf29b0ae83a9704b111b5cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:48 +0000
Subject: [PATCH 11/20] fix: compare pushed metadata by key and value, not by
 location, for a repeated include

---
 src/lib.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ac4c02d..e830399 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -358,6 +358,18 @@ fn fmt_include_context<'s>(
     format!("{} {}", tags_s, meta_s)
 }
 
+// whether the pushed key/values are the same, regardless of where they were pushed
+fn eq_meta_key_values<'s>(
+    lhs: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
+    rhs: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
+) -> bool {
+    lhs.len() == rhs.len()
+        && lhs.iter().all(|(key, l)| {
+            rhs.get(key)
+                .is_some_and(|r| l.iter().map(|(_, v)| v).eq(r.iter().map(|(_, v)| v)))
+        })
+}
+
 impl<'s> PragmaProcessor<'s> {
     fn new(
         root_path: Option<&Path>,
@@ -618,9 +630,11 @@ impl<'s> PragmaProcessor<'s> {
                                                                 .get(&canonical_path)
                                                             {
                                                                 if include_context.tags == self.tags
-                                                                    && include_context
-                                                                        .meta_key_values
-                                                                        == self.meta_key_values
+                                                                    && eq_meta_key_values(
+                                                                        &include_context
+                                                                            .meta_key_values,
+                                                                        &self.meta_key_values,
+                                                                    )
                                                                 {
                                                                     // include context is identical, so the include is harmless
                                                                     // and we ignore it
-- 
2.43.0


From 729ae0be32e2d61ed42f115ccf57c4e9b32a3b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:37 +0000
Subject: [PATCH 12/20] fix: ignore first and last lines like any others, and
 white space at the end of the file

---
 src/lexer.rs | 45 +++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 41 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 699a5a2..a701ce9 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -179,6 +179,18 @@ impl Token<'_> {
 
         *self == EolThenIndent || *self == Eol || *self == EolComment
     }
+
+    // Whether a line starting with this token without any indent is to be ignored.
+    // Such a line is rolled into end-of-line handling unless it is the last one and lacks a newline.
+    fn is_ignored_line_start(&self) -> bool {
+        use Token::*;
+
+        match self {
+            DedicatedFlag(flag) => !matches!(flag, Flag::Letter(_)),
+            Asterisk | Hash | Tag(_) | Colon => true,
+            _ => false,
+        }
+    }
 }
 
 impl Display for Token<'_> {
@@ -255,6 +267,9 @@ impl Display for Token<'_> {
     }
 }
 
+// as for subpattern `ignored_whole_line` in `Token`
+const IGNORED_LINE_INITIALS: [char; 7] = ['*', '!', '&', '#', '?', '%', ':'];
+
 type RangedToken<'a> = (Token<'a>, Range<usize>);
 type RangedTokenOrError<'a> = (Result<Token<'a>, LexerError>, Range<usize>);
 type SpannedToken<'a> = (Token<'a>, Span_);
@@ -315,13 +330,27 @@ fn lex_with_final_eol<'a>(
     s: &'a str,
     final_eol: Option<Range<usize>>,
 ) -> impl Iterator<Item = RangedToken<'a>> {
-    Token::lexer(s)
+    let mut lexer = Token::lexer(s);
+    if final_eol.is_some() {
+        // ignored lines are otherwise recognised only following a newline
+        lexer.bump(leading_ignored_lines(s));
+    }
+
+    lexer
         .spanned()
         .attempt_recovery(s)
         .keyword_then_colon_to_key()
         .handle_eol_indent(final_eol)
 }
 
+// Length in bytes of any ignored lines at the start of the source.
+fn leading_ignored_lines(s: &str) -> usize {
+    s.split_inclusive('\n')
+        .take_while(|line| line.starts_with(IGNORED_LINE_INITIALS))
+        .map(|line| line.len())
+        .sum()
+}
+
 // This is a work-around for Logos issue #315.
 // Logos starts matching text like '/1.24' as a currency, and when it fails, it doesn't retry as slash followed by number.
 //
@@ -501,6 +530,8 @@ impl<'a, I: Iterator<Item = RangedToken<'a>>> KeywordThenColonToKeyIteratorAdapt
 /// 3. Drop any initial Eol
 /// 4. Optionally, force a final Eol (unless input was empty)
 /// 5. Drop tokens for indent followed by colon (Logos deficiency precludes using Logos regexes for this)
+/// 6. Drop tokens for a final ignored line which lacks a newline
+/// 7. Drop any final indent
 struct EolIndentHandler<'a, I> {
     iter: I,
     first_tok: Option<RangedToken<'a>>,
@@ -515,15 +546,19 @@ where
     I: Iterator<Item = RangedToken<'a>>,
 {
     fn new(mut iter: I, final_eol: Option<Range<usize>>) -> Self {
-        let mut first_tok = Some((Token::Eol, Range::default()));
+        let mut first_tok = Some((Token::EolThenIndent, Range::default()));
         let mut ready = false;
 
         while !ready {
+            let mut indented = true;
             while first_tok.as_ref().is_some_and(|tok| tok.0.is_eol()) {
+                indented = first_tok.as_ref().is_some_and(|tok| tok.0 != Token::Eol);
                 first_tok = iter.next()
             }
             // handle the colon-at-start-of-file case here
-            if first_tok.as_ref().is_some_and(|tok| tok.0 == Token::Colon) {
+            if first_tok.as_ref().is_some_and(|tok| {
+                tok.0 == Token::Colon || !indented && tok.0.is_ignored_line_start()
+            }) {
                 first_tok = iter.next();
 
                 while first_tok.as_ref().is_some_and(|tok| !tok.0.is_eol()) {
@@ -578,7 +613,8 @@ where
                     second_tok = self.iter.next();
                 }
                 (Some(first), Some(second))
-                    if first.0 == Token::EolThenIndent && second.0 == Token::Colon =>
+                    if first.0 == Token::EolThenIndent && second.0 == Token::Colon
+                        || first.0 == Token::Eol && second.0.is_ignored_line_start() =>
                 {
                     first_tok = self.skip_to_end_of_line();
                     second_tok = self.get_second_tok_if_required(&first_tok);
@@ -590,6 +626,7 @@ where
         }
 
         match first_tok {
+            Some((Token::EolThenIndent, span)) if second_tok.is_none() => Some((Token::Eol, span)),
             Some((Token::EolThenIndent, span)) => {
                 self.pending = [Some((Token::Indent, span.end - 1..span.end)), second_tok];
                 Some((Token::Eol, span))
-- 
2.43.0


From 135ce138a1dd8e9bc80bf5886fea35d29626216b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:30 +0000
Subject: [PATCH 13/20] fix: print the total price of a posting using @@

---
 src/types.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 355029b..4d398d6 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1784,7 +1784,16 @@ impl Display for Posting<'_> {
         simple_format(f, &self.amount, Some(" "))?;
         simple_format(f, self.currency, Some(" "))?;
         simple_format(f, &self.cost_spec, Some(" "))?;
-        simple_format(f, &self.price_annotation, Some(" @ "))?;
+        if let Some(price) = &self.price_annotation {
+            use PriceSpec::*;
+            use ScopedExprValue::Total;
+
+            match price.item() {
+                BareAmount(Total(e)) => write!(f, " @@ {}", e)?,
+                CurrencyAmount(Total(e), cur) => write!(f, " @@ {} {}", e, cur)?,
+                per_unit => write!(f, " @ {}", per_unit)?,
+            }
+        }
 
         self.metadata.fmt(f)
     }
-- 
2.43.0


From f488d8d244c7e2439ffe34466026504b5f3062e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:30 +0000
Subject: [PATCH 14/20] fix: print the tolerance of a balance before its
 currency

---
 src/types.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 4d398d6..f259ab5 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -2435,7 +2435,13 @@ impl<'a> AmountWithTolerance<'a> {
 impl Display for AmountWithTolerance<'_> {
     fn fmt(&self, format: &mut Formatter<'_>) -> fmt::Result {
         if let Some(tolerance) = self.tolerance {
-            write!(format, "{} ~ {}", &self.amount, tolerance)
+            write!(
+                format,
+                "{} ~ {} {}",
+                self.amount.number(),
+                tolerance,
+                self.amount.currency()
+            )
         } else {
             write!(format, "{}", &self.amount)
         }
-- 
2.43.0


From 0ba328139dabfbd910e0f8a2e2582cab53b1dba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:26:58 +0000
Subject: [PATCH 15/20] fix: escape strings when printing directives and
 plugins

---
 src/format.rs |  5 +++--
 src/types.rs  | 40 ++++++++++++++++++++++++++++++----------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/src/format.rs b/src/format.rs
index a911537..705e18d 100644
--- a/src/format.rs
+++ b/src/format.rs
@@ -59,12 +59,13 @@ where
     lazy_format!("'{s}'")
 }
 
-/// Format in double quotes.
+/// Format in double quotes, escaping as required for a string literal.
 pub fn double_quoted<S>(s: S) -> impl Display
 where
     S: Display,
 {
-    lazy_format!("\"{s}\"")
+    let escaped = s.to_string().replace('\\', "\\\\").replace('"', "\\\"");
+    lazy_format!("\"{escaped}\"")
 }
 
 /// Format key/value.
diff --git a/src/types.rs b/src/types.rs
index f259ab5..0a4327c 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -1049,7 +1049,13 @@ pub struct Document<'a> {
 
 impl<'a> Document<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} document {} \"{}\"", date, self.account, self.path)?;
+        write!(
+            f,
+            "{} document {} {}",
+            date,
+            self.account,
+            double_quoted(self.path)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1076,7 +1082,13 @@ pub struct Note<'a> {
 
 impl<'a> Note<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} note {} \"{}\"", date, self.account, self.comment)?;
+        write!(
+            f,
+            "{} note {} {}",
+            date,
+            self.account,
+            double_quoted(self.comment)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1104,8 +1116,10 @@ impl<'a> Event<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
         write!(
             f,
-            "{} event \"{}\" \"{}\"",
-            date, self.event_type, self.description
+            "{} event {} {}",
+            date,
+            double_quoted(self.event_type),
+            double_quoted(self.description)
         )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
@@ -1132,7 +1146,13 @@ pub struct Query<'a> {
 
 impl<'a> Query<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} query \"{}\" \"{}\"", date, self.name, self.content)?;
+        write!(
+            f,
+            "{} query {} {}",
+            date,
+            double_quoted(self.name),
+            double_quoted(self.content)
+        )?;
         // we prefer to show tags and links inline rather then line by line in metadata
         metadata.fmt_tags_links_inline(f)?;
         metadata.fmt_keys_values(f)
@@ -1158,7 +1178,7 @@ pub struct Custom<'a> {
 
 impl<'a> Custom<'a> {
     fn fmt(&self, f: &mut Formatter<'_>, date: Date, metadata: &Metadata) -> fmt::Result {
-        write!(f, "{} custom \"{}\"", date, self.type_)?;
+        write!(f, "{} custom {}", date, double_quoted(self.type_))?;
         format(f, &self.values, plain, SPACE, Some(SPACE))?;
         // show tags and links on separate lines rather than inline to avoid ambiguity with custom values
         metadata.fmt_tags_links_on_separate_lines(f)?;
@@ -1197,9 +1217,9 @@ impl<'a> Plugin<'a> {
 
 impl Display for Plugin<'_> {
     fn fmt(&self, f: &mut Formatter<'_>) -> fmt::Result {
-        write!(f, "plugin \"{}\"", self.module_name)?;
+        write!(f, "plugin {}", double_quoted(self.module_name))?;
         if let Some(config) = &self.config {
-            write!(f, " \"{}\"", config)?;
+            write!(f, " {}", double_quoted(config))?;
         }
         writeln!(f)
     }
@@ -1933,7 +1953,7 @@ impl Display for SimpleValue<'_> {
         use SimpleValue::*;
 
         match self {
-            String(x) => write!(f, r#""{}""#, x),
+            String(x) => double_quoted(x).fmt(f),
             Currency(x) => x.fmt(f),
             Account(x) => x.fmt(f),
             Tag(x) => x.fmt(f),
@@ -2575,7 +2595,7 @@ impl Display for CostSpec<'_> {
         }
 
         if let Some(label) = &self.label {
-            write!(f, "{}\"{}\"", sep, label)?;
+            write!(f, "{}{}", sep, double_quoted(label))?;
             sep = comma_space;
         }
 
-- 
2.43.0


From 1fc15e1aacf87ec5ae7237ea3f2d6aaa20e2065b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:21 +0000
Subject: [PATCH 16/20] fix: treat the directory of the including file
 literally when expanding an include glob

---
 src/sources.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sources.rs b/src/sources.rs
index 41f09ed..f6d9368 100644
--- a/src/sources.rs
+++ b/src/sources.rs
@@ -601,13 +601,13 @@ impl<'a> SyntheticSources<'a> {
     }
 }
 
-// get included path relative to including path
+// get included path relative to including path, as a glob pattern in which the directory stands for itself
 pub(crate) fn resolve_included_path(
     including_path: Option<&PathBuf>,
     included_path: &Path,
 ) -> PathBuf {
     match including_path.and_then(|p| path_dir(p.as_ref())) {
-        Some(p) => p.join(included_path),
+        Some(p) => Path::new(&glob::Pattern::escape(&p.to_string_lossy())).join(included_path),
         None => included_path.to_path_buf(),
     }
 }
-- 
2.43.0


From 5f06108a331cd635e05964bf8e10346d62ee57ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:36 +0000
Subject: [PATCH 17/20] fix: keep declarations before an unrecoverable error,
 so that their own errors are reported

---
 src/parsers.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index d84a2f0..27802f2 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -7,7 +7,7 @@ use chumsky::{
     input::BorrowInput,
     prelude::{
         IterParser, Parser, Rich, any_ref, choice, end, extra, group, just, recursive, select_ref,
-        skip_then_retry_until,
+        skip_then_retry_until, via_parser,
     },
 };
 use either::Either;
@@ -44,7 +44,11 @@ pub(crate) fn file<'s, I>(
 where
     I: BorrowInput<'s, Token = Token<'s>, Span = Span_>,
 {
-    declaration(source_path).repeated().collect::<Vec<_>>()
+    declaration(source_path)
+        .repeated()
+        .collect::<Vec<_>>()
+        // if there is no recovery from an error, skip the rest but keep what was parsed before it
+        .then_ignore(end().recover_with(via_parser(any_ref().repeated())))
 }
 
 /// Matches a [Declaration], and returns with Span.
-- 
2.43.0


From 465d64dccf883d8f862672f92832e2759036ddd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:52 +0000
Subject: [PATCH 18/20] fix: report pragma errors in an order and with a text
 independent of hash order

---
 src/lib.rs | 60 ++++++++++++++++++++++++++++++------------------------
 1 file changed, 33 insertions(+), 27 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index e830399..003bc46 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -83,11 +83,13 @@
 //!```
 
 use chumsky::prelude::{Input, Parser};
+use itertools::Itertools;
 use lexer::{lex, Token};
 use parsers::{file, ParserState};
 use sort::SortIteratorAdaptor;
 use std::{
     collections::{HashMap, VecDeque},
+    iter::once,
     path::{Path, PathBuf},
 };
 
@@ -336,22 +338,25 @@ fn fmt_include_context<'s>(
     meta_key_values: &HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
 ) -> String {
     let tags_s = itertools::intersperse(
-        tags.keys().map(|tag| tag.item().to_string()),
+        tags.keys().map(|tag| tag.item().to_string()).sorted(),
         " ".to_string(),
     )
     .collect::<String>();
     let meta_s = itertools::intersperse(
-        meta_key_values.iter().map(|(k, v)| {
-            format!(
-                "{}: [{}]",
-                k.item(),
-                itertools::intersperse(
-                    v.iter().map(|(_, v)| v.item().to_string()),
-                    " ".to_string()
+        meta_key_values
+            .iter()
+            .map(|(k, v)| {
+                format!(
+                    "{}: [{}]",
+                    k.item(),
+                    itertools::intersperse(
+                        v.iter().map(|(_, v)| v.item().to_string()),
+                        " ".to_string()
+                    )
+                    .collect::<String>()
                 )
-                .collect::<String>()
-            )
-        }),
+            })
+            .sorted(),
         " ".to_string(),
     )
     .collect::<String>();
@@ -414,26 +419,27 @@ impl<'s> PragmaProcessor<'s> {
         let mut errors = self.errors;
         let warnings = self.warnings;
 
-        for (key, _value) in self.meta_key_values {
-            let e = Error::new(
-                "invalid pushmeta",
-                "missing corresponding popmeta",
-                key.span,
-            );
+        // in order of location, because hash table order is arbitrary
+        let in_order = |span: &Span| (span.source, span.start);
+
+        for span in self
+            .meta_key_values
+            .into_keys()
+            .map(|key| key.span)
+            .sorted_by_key(in_order)
+        {
+            let e = Error::new("invalid pushmeta", "missing corresponding popmeta", span);
             errors.push(e);
         }
 
-        for (tag, others) in self.tags {
-            let e = Error::new("invalid pushtag", "missing corresponding poptag", tag.span);
+        for span in self
+            .tags
+            .into_iter()
+            .flat_map(|(tag, others)| once(tag.span).chain(others.into_iter().map(|t| t.span)))
+            .sorted_by_key(in_order)
+        {
+            let e = Error::new("invalid pushtag", "missing corresponding poptag", span);
             errors.push(e);
-            for other in others {
-                let e = Error::new(
-                    "invalid pushtag",
-                    "missing corresponding poptag",
-                    other.span,
-                );
-                errors.push(e);
-            }
         }
 
         (self.options, self.plugins, errors, warnings)
-- 
2.43.0


From fe9b7d182aa66187930072a3bd8579aae72a8381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:10 +0000
Subject: [PATCH 19/20] fix: report duplicate tags and links in order of
 location

The errors for several tags or links given both on the first line and below
came in hash table order, different for each run.
---
 src/parsers.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/parsers.rs b/src/parsers.rs
index 27802f2..b426d72 100644
--- a/src/parsers.rs
+++ b/src/parsers.rs
@@ -11,6 +11,7 @@ use chumsky::{
     },
 };
 use either::Either;
+use itertools::Itertools;
 use rust_decimal::Decimal;
 use std::{
     collections::{HashMap, HashSet, hash_map},
@@ -1246,7 +1247,8 @@ impl<'a> Metadata<'a> {
     where
         E: Emit<ParserError<'a>>,
     {
-        for tag in tags {
+        // in order of location, because hash table order is arbitrary
+        for tag in tags.iter().sorted_by_key(|tag| tag.span.start) {
             match self.tags.get(tag) {
                 None => {
                     self.tags.insert(*tag);
@@ -1283,7 +1285,8 @@ impl<'a> Metadata<'a> {
     where
         E: Emit<ParserError<'a>>,
     {
-        for link in links {
+        // in order of location, because hash table order is arbitrary
+        for link in links.iter().sorted_by_key(|link| link.span.start) {
             match self.links.get(link) {
                 None => {
                     self.links.insert(*link);
-- 
2.43.0


From c3ae0c44bdda97fb92180a332b456f653ca36eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:43 +0000
Subject: [PATCH 20/20] fix: judge repeated includes by what was read, not by
 the files as they are when parsing

Whether a repeated include was harmless depended on canonicalizing its path while parsing,
so that with the file gone, or the working directory changed, every one was an error.
---
 src/lib.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 003bc46..622df9c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -315,7 +315,8 @@ struct PragmaProcessor<'s> {
     remaining: HashMap<Option<PathBuf>, VecDeque<Spanned<Declaration<'s>>>>,
     included_globs: &'s HashMap<PathBuf, IncludedGlob>,
     error_paths: HashMap<Option<PathBuf>, String>,
-    include_by_canonical_path: HashMap<PathBuf, IncludeContext<'s>>,
+    // every file is included by the path from which it was first read
+    include_by_path: HashMap<PathBuf, IncludeContext<'s>>,
     // tags and meta key/values for pragma push/pop
     tags: HashMap<Spanned<Tag<'s>>, Vec<Spanned<Tag<'s>>>>,
     meta_key_values: HashMap<Spanned<Key<'s>>, Vec<(Span, Spanned<MetaValue<'s>>)>>,
@@ -404,7 +405,7 @@ impl<'s> PragmaProcessor<'s> {
             remaining,
             included_globs,
             error_paths,
-            include_by_canonical_path: HashMap::default(),
+            include_by_path: HashMap::default(),
             tags: HashMap::new(),
             meta_key_values: HashMap::new(),
             options,
@@ -583,14 +584,9 @@ impl<'s> PragmaProcessor<'s> {
                                                     ));
 
                                                     // record the span in case of a duplicate include error later
-                                                    if let Ok(canonical_path) = self
-                                                        .current_path
-                                                        .as_ref()
-                                                        .unwrap()
-                                                        .canonicalize()
-                                                    {
-                                                        self.include_by_canonical_path.insert(
-                                                            canonical_path,
+                                                    if let Some(path) = self.current_path.as_ref() {
+                                                        self.include_by_path.insert(
+                                                            path.clone(),
                                                             IncludeContext {
                                                                 tags: self.tags.clone(),
                                                                 meta_key_values: self
@@ -627,13 +623,10 @@ impl<'s> PragmaProcessor<'s> {
                                                         );
 
                                                         // relate the error to the first include if we can
-                                                        let e = if let Some(canonical_path) =
-                                                            included.and_then(|included| {
-                                                                included.canonicalize().ok()
-                                                            }) {
+                                                        let e = if let Some(path) = included {
                                                             if let Some(include_context) = self
-                                                                .include_by_canonical_path
-                                                                .get(&canonical_path)
+                                                                .include_by_path
+                                                                .get(&path)
                                                             {
                                                                 if include_context.tags == self.tags
                                                                     && eq_meta_key_values(
-- 
2.43.0

