From 71c093b0d135e0df8e94949d3753a3b6b8b6726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:55 +0000
Subject: [PATCH 01/23] fix: reject truncated unicode escapes instead of
 panicking

The streaming one_of reports Incomplete at the end of the input, which
the parser treats as unreachable: parsing '$["\u' panicked.
---
 serde_json_path/src/parser/primitive/string.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index bf7f61d..4c8d5f1 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -1,6 +1,5 @@
 use nom::bytes::complete::{tag, take_while};
-use nom::character::complete::{anychar, char};
-use nom::character::streaming::one_of;
+use nom::character::complete::{anychar, char, one_of};
 use nom::combinator::{cut, map, recognize, verify};
 use nom::error::context;
 use nom::sequence::{pair, separated_pair, tuple};
-- 
2.43.0


From 3ccfedd15d55fc8dbe3481d57557b7931ee74edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:16 +0000
Subject: [PATCH 02/23] fix: accept lowercase hex digits in high surrogate
 escapes

---
 serde_json_path/src/parser/primitive/string.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/primitive/string.rs b/serde_json_path/src/parser/primitive/string.rs
index 4c8d5f1..db11538 100644
--- a/serde_json_path/src/parser/primitive/string.rs
+++ b/serde_json_path/src/parser/primitive/string.rs
@@ -70,7 +70,11 @@ fn parse_high_surrogate(input: &str) -> PResult<u16> {
     context(
         "high surrogate",
         map_res(
-            recognize(tuple((char('D'), one_of("89AB"), parse_n_hex_digits(2)))),
+            recognize(tuple((
+                one_of("Dd"),
+                one_of("89ABab"),
+                parse_n_hex_digits(2),
+            ))),
             |hex| u16::from_str_radix(hex, 16),
         ),
     )(input)
-- 
2.43.0


From ea34a72a8102e8bd8998da13b3cbd115f23b985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:20 +0000
Subject: [PATCH 03/23] fix: allow blank space before descendant segments

---
 serde_json_path/src/parser/segment.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path/src/parser/segment.rs b/serde_json_path/src/parser/segment.rs
index 6ff4528..fa42ac2 100644
--- a/serde_json_path/src/parser/segment.rs
+++ b/serde_json_path/src/parser/segment.rs
@@ -112,7 +112,7 @@ fn parse_child_segment(input: &str) -> PResult<Segment> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_descendant_segment(input: &str) -> PResult<Segment> {
     preceded(
-        tag(".."),
+        pair(multispace0, tag("..")),
         alt((
             map(parse_wildcard_selector, |_| Segment::Wildcard),
             parse_child_long_hand,
-- 
2.43.0


From 80ee306e3178f659e152090a0920f016b4e1faeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 04/23] fix: support negative indices in singular queries

---
 serde_json_path_core/src/spec/selector/filter.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index a81b831..e56b859 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -561,10 +561,14 @@ impl SingularQuery {
                     }
                 }
                 SingularQuerySegment::Index(index) => {
-                    if let Some(t) = target
-                        .as_array()
-                        .and_then(|l| usize::try_from(index.0).ok().and_then(|i| l.get(i)))
-                    {
+                    if let Some(t) = target.as_array().and_then(|list| {
+                        let i = usize::try_from(index.0.abs()).ok()?;
+                        if index.0 < 0 {
+                            list.get(list.len().checked_sub(i)?)
+                        } else {
+                            list.get(i)
+                        }
+                    }) {
                         target = t;
                     } else {
                         return None;
-- 
2.43.0


From b8ebf9e8c3d35b32c633ac69fa414fb700f7a89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:52 +0000
Subject: [PATCH 05/23] fix: compare numbers nested in arrays and objects by
 value

---
 serde_json_path_core/src/spec/selector/filter.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index e56b859..a4730d1 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -258,6 +258,14 @@ fn check_equal_to(left: &JsonPathValue, right: &JsonPathValue) -> bool {
 fn value_equal_to(left: &Value, right: &Value) -> bool {
     match (left, right) {
         (Value::Number(l), Value::Number(r)) => number_equal_to(l, r),
+        (Value::Array(l), Value::Array(r)) => {
+            l.len() == r.len() && l.iter().zip(r.iter()).all(|(l, r)| value_equal_to(l, r))
+        }
+        (Value::Object(l), Value::Object(r)) => {
+            l.len() == r.len()
+                && l.iter()
+                    .all(|(k, l)| r.get(k).is_some_and(|r| value_equal_to(l, r)))
+        }
         _ => left == right,
     }
 }
-- 
2.43.0


From 7d391ea7db5f2cb9990bb821fa0474e3e6c2f086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:56 +0000
Subject: [PATCH 06/23] fix: evaluate >, <= and >= as RFC 9535 defines them

'>' is '<' with the operands swapped, '<=' and '>=' also hold for equal
operands. The negation of '<' made '>' and '>=' true for booleans,
arrays and objects that are not ordered, and the type check made '<='
and '>=' false for two absent operands, which are equal.
---
 .../src/spec/selector/filter.rs               | 34 +++----------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index a4730d1..a31dbc6 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -300,25 +300,6 @@ fn check_less_than(left: &JsonPathValue, right: &JsonPathValue) -> bool {
     }
 }
 
-fn value_same_type(left: &Value, right: &Value) -> bool {
-    matches!((left, right), (Value::Null, Value::Null))
-        | matches!((left, right), (Value::Bool(_), Value::Bool(_)))
-        | matches!((left, right), (Value::Number(_), Value::Number(_)))
-        | matches!((left, right), (Value::String(_), Value::String(_)))
-        | matches!((left, right), (Value::Array(_), Value::Array(_)))
-        | matches!((left, right), (Value::Object(_), Value::Object(_)))
-}
-
-fn check_same_type(left: &JsonPathValue, right: &JsonPathValue) -> bool {
-    match (left, right) {
-        (JsonPathValue::Node(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Node(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Value(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
-        (JsonPathValue::Value(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
-        _ => false,
-    }
-}
-
 impl std::fmt::Display for ComparisonExpr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(
@@ -339,20 +320,13 @@ impl TestFilter for ComparisonExpr {
         match self.op {
             ComparisonOperator::EqualTo => check_equal_to(&left, &right),
             ComparisonOperator::NotEqualTo => !check_equal_to(&left, &right),
-            ComparisonOperator::LessThan => {
-                check_same_type(&left, &right) && check_less_than(&left, &right)
-            }
-            ComparisonOperator::GreaterThan => {
-                check_same_type(&left, &right)
-                    && !check_less_than(&left, &right)
-                    && !check_equal_to(&left, &right)
-            }
+            ComparisonOperator::LessThan => check_less_than(&left, &right),
+            ComparisonOperator::GreaterThan => check_less_than(&right, &left),
             ComparisonOperator::LessThanEqualTo => {
-                check_same_type(&left, &right)
-                    && (check_less_than(&left, &right) || check_equal_to(&left, &right))
+                check_less_than(&left, &right) || check_equal_to(&left, &right)
             }
             ComparisonOperator::GreaterThanEqualTo => {
-                check_same_type(&left, &right) && !check_less_than(&left, &right)
+                check_less_than(&right, &left) || check_equal_to(&left, &right)
             }
         }
     }
-- 
2.43.0


From ec35bd5841b5fa38223d87d11ef37c70ef5fd527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:30 +0000
Subject: [PATCH 07/23] fix: escape member names in the string form of
 normalized paths

---
 serde_json_path_core/src/path.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/path.rs b/serde_json_path_core/src/path.rs
index d2c3d19..bd38c8f 100644
--- a/serde_json_path_core/src/path.rs
+++ b/serde_json_path_core/src/path.rs
@@ -192,7 +192,11 @@ impl Display for NormalizedPath<'_> {
         write!(f, "$")?;
         for elem in &self.0 {
             match elem {
-                PathElement::Name(name) => write!(f, "['{name}']")?,
+                PathElement::Name(name) => {
+                    write!(f, "[")?;
+                    fmt_quoted(name, f)?;
+                    write!(f, "]")?
+                }
                 PathElement::Index(index) => write!(f, "[{index}]")?,
             }
         }
@@ -209,6 +213,28 @@ impl Serialize for NormalizedPath<'_> {
     }
 }
 
+/// Write a string as a single-quoted JSONPath string literal, escaped as in [Normalized
+/// Paths][norm-paths]
+///
+/// [norm-paths]: https://www.rfc-editor.org/rfc/rfc9535.html#name-normalized-paths
+pub(crate) fn fmt_quoted(s: &str, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
+    write!(f, "'")?;
+    for c in s.chars() {
+        match c {
+            '\u{0008}' => write!(f, "\\b")?,
+            '\u{0009}' => write!(f, "\\t")?,
+            '\u{000A}' => write!(f, "\\n")?,
+            '\u{000C}' => write!(f, "\\f")?,
+            '\u{000D}' => write!(f, "\\r")?,
+            '\'' => write!(f, "\\'")?,
+            '\\' => write!(f, "\\\\")?,
+            '\u{0000}'..='\u{001F}' => write!(f, "\\u{:04x}", c as u32)?,
+            _ => write!(f, "{c}")?,
+        }
+    }
+    write!(f, "'")
+}
+
 /// An element within a [`NormalizedPath`]
 #[derive(Debug, Eq, PartialEq, Clone)]
 pub enum PathElement<'a> {
-- 
2.43.0


From c87fad2fb8e851d853487ff4fd2c9cffbf476cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:35 +0000
Subject: [PATCH 08/23] fix: escape names and string literals when displaying a
 query

---
 serde_json_path_core/src/spec/selector/filter.rs | 4 ++--
 serde_json_path_core/src/spec/selector/name.rs   | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index a31dbc6..84d2b08 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -3,7 +3,7 @@ use serde_json::{Number, Value};
 
 use crate::{
     node::LocatedNode,
-    path::NormalizedPath,
+    path::{fmt_quoted, NormalizedPath},
     spec::{
         functions::{FunctionExpr, JsonPathValue, Validated},
         query::{Query, QueryKind, Queryable},
@@ -454,7 +454,7 @@ impl std::fmt::Display for Literal {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Literal::Number(n) => write!(f, "{n}"),
-            Literal::String(s) => write!(f, "'{s}'"),
+            Literal::String(s) => fmt_quoted(s, f),
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Null => write!(f, "null"),
         }
diff --git a/serde_json_path_core/src/spec/selector/name.rs b/serde_json_path_core/src/spec/selector/name.rs
index 758ef66..50e1051 100644
--- a/serde_json_path_core/src/spec/selector/name.rs
+++ b/serde_json_path_core/src/spec/selector/name.rs
@@ -1,7 +1,11 @@
 //! Name selector for selecting object keys in JSONPath
 use serde_json::Value;
 
-use crate::{node::LocatedNode, path::NormalizedPath, spec::query::Queryable};
+use crate::{
+    node::LocatedNode,
+    path::{fmt_quoted, NormalizedPath},
+    spec::query::Queryable,
+};
 
 /// Select a single JSON object key
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -16,7 +20,7 @@ impl Name {
 
 impl std::fmt::Display for Name {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        write!(f, "'{name}'", name = self.0)
+        fmt_quoted(&self.0, f)
     }
 }
 
-- 
2.43.0


From 1c3b1ed8d6e48958c4e8f19b525e4f2e2025627f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:38 +0000
Subject: [PATCH 09/23] fix: display the negation of a function expression

---
 serde_json_path_core/src/spec/selector/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 84d2b08..7eeb6ef 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -182,7 +182,7 @@ impl std::fmt::Display for BasicExpr {
             BasicExpr::Exist(exist) => write!(f, "{exist}"),
             BasicExpr::NotExist(exist) => write!(f, "!{exist}"),
             BasicExpr::FuncExpr(expr) => write!(f, "{expr}"),
-            BasicExpr::NotFuncExpr(expr) => write!(f, "{expr}"),
+            BasicExpr::NotFuncExpr(expr) => write!(f, "!{expr}"),
         }
     }
 }
-- 
2.43.0


From 03d292dda9ada106e0f836073825110a880efe41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:42 +0000
Subject: [PATCH 10/23] fix: display shorthand descendant segments with two
 dots

---
 serde_json_path_core/src/spec/segment.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/segment.rs b/serde_json_path_core/src/spec/segment.rs
index 20e036e..ce989bb 100644
--- a/serde_json_path_core/src/spec/segment.rs
+++ b/serde_json_path_core/src/spec/segment.rs
@@ -29,7 +29,11 @@ impl QuerySegment {
 impl std::fmt::Display for QuerySegment {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if matches!(self.kind, QuerySegmentKind::Descendant) {
-            write!(f, "..")?;
+            // the shorthand forms display with a leading `.`
+            match self.segment {
+                Segment::LongHand(_) => write!(f, "..")?,
+                Segment::DotName(_) | Segment::Wildcard => write!(f, ".")?,
+            }
         }
         write!(f, "{segment}", segment = self.segment)
     }
-- 
2.43.0


From b2062d8bda1426d1037db7c2f775eb83d92cab27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:46 +0000
Subject: [PATCH 11/23] fix: accept function names of a single letter

---
 serde_json_path/src/parser/selector/function/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index d4aadfe..c8d046c 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -6,7 +6,7 @@ use nom::{
     branch::alt,
     character::complete::{multispace0, satisfy},
     combinator::map,
-    multi::fold_many1,
+    multi::fold_many0,
     sequence::{delimited, pair},
 };
 use serde_json_path_core::spec::functions::{
@@ -40,7 +40,7 @@ fn parse_function_name(input: &str) -> PResult<String> {
     map(
         pair(
             parse_function_name_first,
-            fold_many1(
+            fold_many0(
                 parse_function_name_char,
                 String::new,
                 |mut string, fragment| {
-- 
2.43.0


From 1ed79aa5e46bd5c26e4c9b618d9eed3aad7f1039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 12/23] fix: report the expected and received number of
 arguments correctly

---
 serde_json_path_macros/src/internal/common/define.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serde_json_path_macros/src/internal/common/define.rs b/serde_json_path_macros/src/internal/common/define.rs
index 9902b8b..8dd5f06 100644
--- a/serde_json_path_macros/src/internal/common/define.rs
+++ b/serde_json_path_macros/src/internal/common/define.rs
@@ -78,8 +78,8 @@ pub(crate) fn expand(input: ItemFn, name_str: Option<LitStr>) -> Result<Expanded
             std::boxed::Box::new(|a: &[#core::FunctionExprArg]| {
                 if a.len() != #args_len {
                     return #res::Err(#core::FunctionValidationError::NumberOfArgsMismatch {
-                        expected: a.len(),
-                        received: #args_len,
+                        expected: #args_len,
+                        received: a.len(),
                     });
                 }
                 #(#arg_checks)*
-- 
2.43.0


From d0fd49b47348e8ba4593df06e7a4072874bdd464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:15 +0000
Subject: [PATCH 13/23] fix: document the parse error position as the byte
 offset that it is

---
 serde_json_path/src/error.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path/src/error.rs b/serde_json_path/src/error.rs
index 2369c61..cff8748 100644
--- a/serde_json_path/src/error.rs
+++ b/serde_json_path/src/error.rs
@@ -10,7 +10,7 @@ pub struct ParseError {
 }
 
 impl ParseError {
-    /// Get the 1-indexed error position
+    /// Get the error position, as a 0-based byte offset into the input
     pub fn position(&self) -> usize {
         self.err.position
     }
-- 
2.43.0


From b05dc6968c5bbb10bc18b79530399336714e39cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:19 +0000
Subject: [PATCH 14/23] fix: do not match patterns that are not valid regular
 expressions

---
 serde_json_path/src/parser/selector/function/registry.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/registry.rs b/serde_json_path/src/parser/selector/function/registry.rs
index 8174ca3..d88ebe2 100644
--- a/serde_json_path/src/parser/selector/function/registry.rs
+++ b/serde_json_path/src/parser/selector/function/registry.rs
@@ -57,7 +57,9 @@ fn count(nodes: NodesType) -> ValueType {
 fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)^({r})$").as_str())
+            // the pattern needs to be valid by itself, and not only within the group
+            regex::Regex::new(r)
+                .and_then(|_| regex::Regex::new(format!("(?R)^({r})$").as_str()))
                 .map(|r| r.is_match(s))
                 .map(Into::into)
                 .unwrap_or_default()
@@ -71,7 +73,9 @@ fn match_func(value: ValueType, rgx: ValueType) -> LogicalType {
 fn search(value: ValueType, rgx: ValueType) -> LogicalType {
     match (value.as_value(), rgx.as_value()) {
         (Some(Value::String(s)), Some(Value::String(r))) => {
-            regex::Regex::new(format!("(?R)({r})").as_str())
+            // the pattern needs to be valid by itself, and not only within the group
+            regex::Regex::new(r)
+                .and_then(|_| regex::Regex::new(format!("(?R)({r})").as_str()))
                 .map(|r| r.is_match(s))
                 .map(Into::into)
                 .unwrap_or_default()
-- 
2.43.0


From 0be072aed4bdb663cb8cd8c55b1844cb86f1fd34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:24 +0000
Subject: [PATCH 15/23] fix: parse logical expressions as function arguments

---
 .../src/parser/selector/function/mod.rs       | 39 +++++++++++++------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index c8d046c..363e090 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -1,10 +1,10 @@
 use nom::character::complete::char;
-use nom::combinator::{cut, map_res};
-use nom::multi::separated_list0;
+use nom::combinator::{cut, map_res, peek, value};
+use nom::multi::separated_list1;
 use nom::sequence::{preceded, terminated};
 use nom::{
     branch::alt,
-    character::complete::{multispace0, satisfy},
+    character::complete::{multispace0, one_of, satisfy},
     combinator::map,
     multi::fold_many0,
     sequence::{delimited, pair},
@@ -55,26 +55,43 @@ fn parse_function_name(input: &str) -> PResult<String> {
 
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
+    // a literal, query, or function can also be the start of a logical expression, so those are
+    // only arguments by themselves when that is where the argument ends:
     alt((
-        map(parse_literal, FunctionExprArg::Literal),
-        map(parse_singular_path, FunctionExprArg::SingularQuery),
-        map(parse_query, FunctionExprArg::FilterQuery),
-        map(parse_function_expr, FunctionExprArg::FunctionExpr),
+        terminated(
+            alt((
+                map(parse_literal, FunctionExprArg::Literal),
+                map(parse_singular_path, FunctionExprArg::SingularQuery),
+                map(parse_query, FunctionExprArg::FilterQuery),
+                map(parse_function_expr, FunctionExprArg::FunctionExpr),
+            )),
+            peek(preceded(multispace0, one_of(",)"))),
+        ),
         map(parse_logical_or_expr, FunctionExprArg::LogicalExpr),
     ))(input)
 }
 
+#[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
+fn parse_function_arguments(input: &str) -> PResult<Vec<FunctionExprArg>> {
+    alt((
+        value(vec![], peek(char(')'))),
+        separated_list1(
+            delimited(multispace0, char(','), multispace0),
+            parse_function_argument,
+        ),
+    ))(input)
+}
+
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_function_expr(input: &str) -> PResult<FunctionExpr<Validated>> {
+    // do not rule out other alternatives unless this is a function expression:
+    peek(pair(parse_function_name, char('(')))(input)?;
     cut(map_res(
         pair(
             parse_function_name,
             delimited(
                 terminated(char('('), multispace0),
-                separated_list0(
-                    delimited(multispace0, char(','), multispace0),
-                    parse_function_argument,
-                ),
+                parse_function_arguments,
                 preceded(multispace0, char(')')),
             ),
         ),
-- 
2.43.0


From e5b46b238ec24bbf0e61b74d51837fe0f02866e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:57 +0000
Subject: [PATCH 16/23] fix: give the exact size hint of the locations and
 nodes iterators

They implement ExactSizeIterator, which requires it: for example
list.nodes().zip(list.locations()).len() panicked.
---
 serde_json_path_core/src/node.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/serde_json_path_core/src/node.rs b/serde_json_path_core/src/node.rs
index 3b9577e..a1f1f0f 100644
--- a/serde_json_path_core/src/node.rs
+++ b/serde_json_path_core/src/node.rs
@@ -550,6 +550,10 @@ impl<'a> Iterator for Locations<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.location())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Locations<'_> {
@@ -580,6 +584,10 @@ impl<'a> Iterator for Nodes<'a> {
     fn next(&mut self) -> Option<Self::Item> {
         self.inner.next().map(|l| l.node())
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.inner.size_hint()
+    }
 }
 
 impl DoubleEndedIterator for Nodes<'_> {
-- 
2.43.0


From e7a1939385d291ee7fe1388331c4c6832da71a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 17/23] Revert "fix: display shorthand descendant segments with
 two dots"

This reverts commit 03d292dda9ada106e0f836073825110a880efe41.
---
 serde_json_path_core/src/spec/segment.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/serde_json_path_core/src/spec/segment.rs b/serde_json_path_core/src/spec/segment.rs
index ce989bb..20e036e 100644
--- a/serde_json_path_core/src/spec/segment.rs
+++ b/serde_json_path_core/src/spec/segment.rs
@@ -29,11 +29,7 @@ impl QuerySegment {
 impl std::fmt::Display for QuerySegment {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         if matches!(self.kind, QuerySegmentKind::Descendant) {
-            // the shorthand forms display with a leading `.`
-            match self.segment {
-                Segment::LongHand(_) => write!(f, "..")?,
-                Segment::DotName(_) | Segment::Wildcard => write!(f, ".")?,
-            }
+            write!(f, "..")?;
         }
         write!(f, "{segment}", segment = self.segment)
     }
-- 
2.43.0


From 252fe10550408396c05e92f778826b4e6a10ecb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 18/23] Revert "fix: display the negation of a function
 expression"

This reverts commit 1c3b1ed8d6e48958c4e8f19b525e4f2e2025627f.
---
 serde_json_path_core/src/spec/selector/filter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 7eeb6ef..84d2b08 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -182,7 +182,7 @@ impl std::fmt::Display for BasicExpr {
             BasicExpr::Exist(exist) => write!(f, "{exist}"),
             BasicExpr::NotExist(exist) => write!(f, "!{exist}"),
             BasicExpr::FuncExpr(expr) => write!(f, "{expr}"),
-            BasicExpr::NotFuncExpr(expr) => write!(f, "!{expr}"),
+            BasicExpr::NotFuncExpr(expr) => write!(f, "{expr}"),
         }
     }
 }
-- 
2.43.0


From e6a870c278bb715a15c730496fa502a4b206be12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 19/23] Revert "fix: escape names and string literals when
 displaying a query"

This reverts commit c87fad2fb8e851d853487ff4fd2c9cffbf476cbc.
---
 serde_json_path_core/src/spec/selector/filter.rs | 4 ++--
 serde_json_path_core/src/spec/selector/name.rs   | 8 ++------
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index 84d2b08..a31dbc6 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -3,7 +3,7 @@ use serde_json::{Number, Value};
 
 use crate::{
     node::LocatedNode,
-    path::{fmt_quoted, NormalizedPath},
+    path::NormalizedPath,
     spec::{
         functions::{FunctionExpr, JsonPathValue, Validated},
         query::{Query, QueryKind, Queryable},
@@ -454,7 +454,7 @@ impl std::fmt::Display for Literal {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         match self {
             Literal::Number(n) => write!(f, "{n}"),
-            Literal::String(s) => fmt_quoted(s, f),
+            Literal::String(s) => write!(f, "'{s}'"),
             Literal::Bool(b) => write!(f, "{b}"),
             Literal::Null => write!(f, "null"),
         }
diff --git a/serde_json_path_core/src/spec/selector/name.rs b/serde_json_path_core/src/spec/selector/name.rs
index 50e1051..758ef66 100644
--- a/serde_json_path_core/src/spec/selector/name.rs
+++ b/serde_json_path_core/src/spec/selector/name.rs
@@ -1,11 +1,7 @@
 //! Name selector for selecting object keys in JSONPath
 use serde_json::Value;
 
-use crate::{
-    node::LocatedNode,
-    path::{fmt_quoted, NormalizedPath},
-    spec::query::Queryable,
-};
+use crate::{node::LocatedNode, path::NormalizedPath, spec::query::Queryable};
 
 /// Select a single JSON object key
 #[derive(Debug, PartialEq, Eq, Clone)]
@@ -20,7 +16,7 @@ impl Name {
 
 impl std::fmt::Display for Name {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
-        fmt_quoted(&self.0, f)
+        write!(f, "'{name}'", name = self.0)
     }
 }
 
-- 
2.43.0


From a3336070fe77caaf7fbfa431bc85f7cfc2b922b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 20/23] Revert "fix: evaluate >, <= and >= as RFC 9535 defines
 them"

This reverts commit 7d391ea7db5f2cb9990bb821fa0474e3e6c2f086.
---
 .../src/spec/selector/filter.rs               | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index a31dbc6..a4730d1 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -300,6 +300,25 @@ fn check_less_than(left: &JsonPathValue, right: &JsonPathValue) -> bool {
     }
 }
 
+fn value_same_type(left: &Value, right: &Value) -> bool {
+    matches!((left, right), (Value::Null, Value::Null))
+        | matches!((left, right), (Value::Bool(_), Value::Bool(_)))
+        | matches!((left, right), (Value::Number(_), Value::Number(_)))
+        | matches!((left, right), (Value::String(_), Value::String(_)))
+        | matches!((left, right), (Value::Array(_), Value::Array(_)))
+        | matches!((left, right), (Value::Object(_), Value::Object(_)))
+}
+
+fn check_same_type(left: &JsonPathValue, right: &JsonPathValue) -> bool {
+    match (left, right) {
+        (JsonPathValue::Node(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Node(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Value(v1), JsonPathValue::Node(v2)) => value_same_type(v1, v2),
+        (JsonPathValue::Value(v1), JsonPathValue::Value(v2)) => value_same_type(v1, v2),
+        _ => false,
+    }
+}
+
 impl std::fmt::Display for ComparisonExpr {
     fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
         write!(
@@ -320,13 +339,20 @@ impl TestFilter for ComparisonExpr {
         match self.op {
             ComparisonOperator::EqualTo => check_equal_to(&left, &right),
             ComparisonOperator::NotEqualTo => !check_equal_to(&left, &right),
-            ComparisonOperator::LessThan => check_less_than(&left, &right),
-            ComparisonOperator::GreaterThan => check_less_than(&right, &left),
+            ComparisonOperator::LessThan => {
+                check_same_type(&left, &right) && check_less_than(&left, &right)
+            }
+            ComparisonOperator::GreaterThan => {
+                check_same_type(&left, &right)
+                    && !check_less_than(&left, &right)
+                    && !check_equal_to(&left, &right)
+            }
             ComparisonOperator::LessThanEqualTo => {
-                check_less_than(&left, &right) || check_equal_to(&left, &right)
+                check_same_type(&left, &right)
+                    && (check_less_than(&left, &right) || check_equal_to(&left, &right))
             }
             ComparisonOperator::GreaterThanEqualTo => {
-                check_less_than(&right, &left) || check_equal_to(&left, &right)
+                check_same_type(&left, &right) && !check_less_than(&left, &right)
             }
         }
     }
-- 
2.43.0


From 407f8479031f60dd8dfffa80ee9d54f0a55dcbee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 21/23] Revert "fix: compare numbers nested in arrays and
 objects by value"

This reverts commit b8ebf9e8c3d35b32c633ac69fa414fb700f7a89a.
---
 serde_json_path_core/src/spec/selector/filter.rs | 8 --------
 1 file changed, 8 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index a4730d1..e56b859 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -258,14 +258,6 @@ fn check_equal_to(left: &JsonPathValue, right: &JsonPathValue) -> bool {
 fn value_equal_to(left: &Value, right: &Value) -> bool {
     match (left, right) {
         (Value::Number(l), Value::Number(r)) => number_equal_to(l, r),
-        (Value::Array(l), Value::Array(r)) => {
-            l.len() == r.len() && l.iter().zip(r.iter()).all(|(l, r)| value_equal_to(l, r))
-        }
-        (Value::Object(l), Value::Object(r)) => {
-            l.len() == r.len()
-                && l.iter()
-                    .all(|(k, l)| r.get(k).is_some_and(|r| value_equal_to(l, r)))
-        }
         _ => left == right,
     }
 }
-- 
2.43.0


From 869b46d19d56417f1afe012aeeedfa88c86c646f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:51 +0000
Subject: [PATCH 22/23] Revert "fix: support negative indices in singular
 queries"

This reverts commit 80ee306e3178f659e152090a0920f016b4e1faeb.
---
 serde_json_path_core/src/spec/selector/filter.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/serde_json_path_core/src/spec/selector/filter.rs b/serde_json_path_core/src/spec/selector/filter.rs
index e56b859..a81b831 100644
--- a/serde_json_path_core/src/spec/selector/filter.rs
+++ b/serde_json_path_core/src/spec/selector/filter.rs
@@ -561,14 +561,10 @@ impl SingularQuery {
                     }
                 }
                 SingularQuerySegment::Index(index) => {
-                    if let Some(t) = target.as_array().and_then(|list| {
-                        let i = usize::try_from(index.0.abs()).ok()?;
-                        if index.0 < 0 {
-                            list.get(list.len().checked_sub(i)?)
-                        } else {
-                            list.get(i)
-                        }
-                    }) {
+                    if let Some(t) = target
+                        .as_array()
+                        .and_then(|l| usize::try_from(index.0).ok().and_then(|i| l.get(i)))
+                    {
                         target = t;
                     } else {
                         return None;
-- 
2.43.0


From 0141a440240b7f666d34400f5cc5bbbb5ac378d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:02 +0000
Subject: [PATCH 23/23] fix: functions whose names begin with true, false or
 null could not be called

---
 serde_json_path/src/parser/selector/filter.rs       | 3 ++-
 serde_json_path/src/parser/selector/function/mod.rs | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/serde_json_path/src/parser/selector/filter.rs b/serde_json_path/src/parser/selector/filter.rs
index 40c332c..bcf0cbf 100644
--- a/serde_json_path/src/parser/selector/filter.rs
+++ b/serde_json_path/src/parser/selector/filter.rs
@@ -185,9 +185,10 @@ fn parse_function_expr_comparable(input: &str) -> PResult<Comparable> {
 #[cfg_attr(feature = "trace", tracing::instrument(level = "trace", parent = None, ret, err))]
 pub(crate) fn parse_comparable(input: &str) -> PResult<Comparable> {
     uncut(alt((
+        // before literals: the name of a function may begin with `true`, `false` or `null`
+        parse_function_expr_comparable,
         parse_literal_comparable,
         parse_singular_path_comparable,
-        parse_function_expr_comparable,
     )))(input)
 }
 
diff --git a/serde_json_path/src/parser/selector/function/mod.rs b/serde_json_path/src/parser/selector/function/mod.rs
index 363e090..d0ea222 100644
--- a/serde_json_path/src/parser/selector/function/mod.rs
+++ b/serde_json_path/src/parser/selector/function/mod.rs
@@ -60,10 +60,11 @@ fn parse_function_argument(input: &str) -> PResult<FunctionExprArg> {
     alt((
         terminated(
             alt((
+                // before literals: the name of a function may begin with `true`, `false` or `null`
+                map(parse_function_expr, FunctionExprArg::FunctionExpr),
                 map(parse_literal, FunctionExprArg::Literal),
                 map(parse_singular_path, FunctionExprArg::SingularQuery),
                 map(parse_query, FunctionExprArg::FilterQuery),
-                map(parse_function_expr, FunctionExprArg::FunctionExpr),
             )),
             peek(preceded(multispace0, one_of(",)"))),
         ),
-- 
2.43.0

