From 30a026a8c2ab6bfbcdb23b8a864615e0cc94e568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 01/49] fix: do not panic on a binary operator followed by the
 same prefix operator

---
 cpparser/src/subparsers/operators/usage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/usage.rs b/cpparser/src/subparsers/operators/usage.rs
index a9c3fe0..2e90f99 100644
--- a/cpparser/src/subparsers/operators/usage.rs
+++ b/cpparser/src/subparsers/operators/usage.rs
@@ -111,7 +111,10 @@ impl EntityParser {
                     AddPlus | SubNeg => false,
                     AndRef | Or | AssignEq | Less => true,
                     Greater => allow_greater,
-                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => unreachable!(),
+                    // These do not exist as two-character operators, but the
+                    // single-character version may be followed by a prefix
+                    // operator that uses the same symbol, as in `x**y`.
+                    Xor | Mod | Div | MulDeref | BitNot | Not | Comma => false,
                 }
             }
             // This may need to be revised as C++ evolves
-- 
2.43.0


From 925fe3a9871747b86aa933cf20ae269be3c2fb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 02/49] fix: report relative file paths in activity arguments
 and lambda locations as errors instead of panicking

---
 .../src/stats/activity/argument.rs            |  2 +-
 cpparser/src/lib.rs                           | 20 ++++++++++++-------
 cpparser/src/subparsers/anonymous.rs          |  4 ++--
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index a1ff0ef..30a302c 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -88,7 +88,7 @@ impl RawActivityArgument {
                     Ok(ParsedActivityArgument::Module)
                 } else {
                     Ok(ParsedActivityArgument::FilePath(
-                        parser.intern_path(&detail),
+                        parser.try_intern_path(&detail)?,
                     ))
                 }
             }
diff --git a/cpparser/src/lib.rs b/cpparser/src/lib.rs
index 7ab4502..2f5918f 100644
--- a/cpparser/src/lib.rs
+++ b/cpparser/src/lib.rs
@@ -158,16 +158,22 @@ impl EntityParser {
     /// appearing in C++ entity names, but appear in other context, can be
     /// interned using the same infrastructure for key comparability.
     ///
+    /// Panics if the path is relative, use `try_intern_path()` to handle paths
+    /// from untrusted sources.
+    ///
     pub fn intern_path(&mut self, path: &str) -> PathKey {
-        self.intern_path_imut(path)
+        self.try_intern_path(path)
+            .expect("Encountered relative (and thus non-interpretable) file path")
     }
 
-    /// Implementation of intern_path with internal mutability
-    pub(crate) fn intern_path_imut(&self, path: &str) -> PathKey {
-        self.paths
-            .borrow_mut()
-            .intern(path)
-            .expect("Encountered relative (and thus non-interpretable) file path")
+    /// Like `intern_path()`, but reports relative paths as an error
+    pub fn try_intern_path(&mut self, path: &str) -> Result<PathKey, path::PathError> {
+        self.try_intern_path_imut(path)
+    }
+
+    /// Implementation of try_intern_path with internal mutability
+    pub(crate) fn try_intern_path_imut(&self, path: &str) -> Result<PathKey, path::PathError> {
+        self.paths.borrow_mut().intern(path)
     }
 
     /// Retrieve a previously interned path
diff --git a/cpparser/src/subparsers/anonymous.rs b/cpparser/src/subparsers/anonymous.rs
index 4efec91..9bfd1c8 100644
--- a/cpparser/src/subparsers/anonymous.rs
+++ b/cpparser/src/subparsers/anonymous.rs
@@ -148,7 +148,7 @@ impl EntityParser {
         use nom::{
             bytes::complete::take_till1,
             character::complete::{anychar, char, u32},
-            combinator::{opt, recognize},
+            combinator::{map_res, opt, recognize},
             sequence::separated_pair,
         };
 
@@ -156,7 +156,7 @@ impl EntityParser {
 
         let disk_designator = anychar.and(char(':'));
         let path_str = recognize(opt(disk_designator).and(take_till1(|c| c == ':')));
-        let path = path_str.map(|path| self.intern_path_imut(path));
+        let path = map_res(path_str, |path| self.try_intern_path_imut(path));
 
         let source_location = separated_pair(path, char(':'), location);
         source_location
-- 
2.43.0


From 57891a10599c7ecd09e6e33089e785c2742c8a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 03/49] fix: do not display a spurious comma for functions that
 only take variadic arguments

---
 cpparser/src/subparsers/functions.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cpparser/src/subparsers/functions.rs b/cpparser/src/subparsers/functions.rs
index 02c0a1f..7cecbdd 100644
--- a/cpparser/src/subparsers/functions.rs
+++ b/cpparser/src/subparsers/functions.rs
@@ -376,6 +376,7 @@ impl CustomDisplay for FunctionSignatureView<'_> {
     fn recursion_depth(&self) -> usize {
         self.parameters()
             .recursion_depth()
+            .max(self.variadic().into())
             .max(self.noexcept().recursion_depth())
             .max(self.trailing_return().recursion_depth())
     }
@@ -386,8 +387,13 @@ impl CustomDisplay for FunctionSignatureView<'_> {
         }
 
         self.parameters().display_impl(f, state)?;
-        if state.can_recurse() && self.variadic() {
-            write!(f, ", ...")?;
+        if self.variadic() {
+            match (state.can_recurse(), self.parameters().is_empty()) {
+                (true, true) => write!(f, "...")?,
+                (true, false) => write!(f, ", ...")?,
+                (false, true) => write!(f, "…")?,
+                (false, false) => {}
+            }
         }
         write!(f, ")")?;
 
-- 
2.43.0


From 90f7eb11b3d1b2c4fb6db913acf7677ac60ebbc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:45 +0000
Subject: [PATCH 04/49] fix: keep the leading :: of unscoped names in bounded
 display

---
 cpparser/src/subparsers/names/scopes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cpparser/src/subparsers/names/scopes.rs b/cpparser/src/subparsers/names/scopes.rs
index c8ae1aa..19128da 100644
--- a/cpparser/src/subparsers/names/scopes.rs
+++ b/cpparser/src/subparsers/names/scopes.rs
@@ -348,12 +348,12 @@ impl CustomDisplay for NestedNameSpecifierView<'_> {
     }
 
     fn display_impl(&self, f: &mut Formatter<'_>, state: &DisplayState) -> Result<(), fmt::Error> {
-        if state.can_recurse() {
+        if state.can_recurse() || self.scopes().is_empty() {
             if self.is_rooted() {
                 write!(f, "::")?;
             }
             self.scopes().display_impl(f, state)?;
-        } else if !self.scopes().is_empty() {
+        } else {
             write!(f, "…::")?;
         }
         Ok(())
-- 
2.43.0


From 346e888e193cd5bdd05f465221c6f078bdeef927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:53 +0000
Subject: [PATCH 05/49] fix: do not merge consecutive prefix operators when
 displaying values

---
 cpparser/src/subparsers/values/mod.rs | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/cpparser/src/subparsers/values/mod.rs b/cpparser/src/subparsers/values/mod.rs
index 54b4a69..5bf8ec6 100644
--- a/cpparser/src/subparsers/values/mod.rs
+++ b/cpparser/src/subparsers/values/mod.rs
@@ -2,7 +2,7 @@
 
 pub mod literals;
 
-use self::literals::{Literal, LiteralView};
+use self::literals::{Literal, LiteralValue, LiteralView};
 use crate::{
     display::{CustomDisplay, DisplayState},
     interning::slice::{SliceItemView, SliceView},
@@ -15,7 +15,7 @@ use crate::{
         operators::{
             self,
             usage::{NewExpression, NewExpressionView},
-            Operator, OperatorView,
+            Operator, OperatorView, Symbol,
         },
         types::{TypeKey, TypeView},
     },
@@ -456,6 +456,25 @@ impl<'entities> ValueHeaderView<'entities> {
             ValueHeader::DeclVal(t) => Self::DeclVal(entities.type_like(t)),
         }
     }
+
+    /// Truth that displaying this value right after a certain prefix operator
+    /// would yield another operator (`++`, `--` or `&&`)
+    fn would_merge_with(&self, prefix: &OperatorView<'_>) -> bool {
+        let OperatorView::Basic {
+            symbol: prefix @ (Symbol::AddPlus | Symbol::SubNeg | Symbol::AndRef),
+            ..
+        } = prefix
+        else {
+            return false;
+        };
+        match self {
+            Self::UnaryOp(OperatorView::Basic { symbol, .. }, _) => symbol == prefix,
+            Self::Literal(l) => {
+                *prefix == Symbol::SubNeg && matches!(l.value(), LiteralValue::I64(i) if i < 0)
+            }
+            _ => false,
+        }
+    }
 }
 //
 impl Display for ValueHeaderView<'_> {
@@ -489,6 +508,10 @@ impl CustomDisplay for ValueHeaderView<'_> {
             }
             Self::UnaryOp(o, v) => {
                 o.display(f, state, operators::DisplayContext::PrefixUsage)?;
+                // Prevent e.g. `- -x` from turning into `--x`
+                if v.header().would_merge_with(o) {
+                    write!(f, " ")?;
+                }
                 v.display_impl(f, state)
             }
             Self::NewExpression(n) => n.display_impl(f, state),
-- 
2.43.0


From fd4d1aa6c411a139919e2d7f82e13fdb72c9d8fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:51 +0000
Subject: [PATCH 06/49] fix: parse x++ as a postfix operator even if a binary
 operator could match

---
 cpparser/src/subparsers/values/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/values/mod.rs b/cpparser/src/subparsers/values/mod.rs
index 5bf8ec6..15fd1e5 100644
--- a/cpparser/src/subparsers/values/mod.rs
+++ b/cpparser/src/subparsers/values/mod.rs
@@ -244,7 +244,8 @@ impl EntityParser {
             Some(b'?') => ternary_op.parse(s),
             Some(b'.') => member_access.or(ellipsis).parse(s),
             Some(b'[') => array_index.parse(s),
-            _ => binary_op.or(postfix_op).parse(s),
+            // Must try postfix operators first as binary_op matches e.g. `x + +y`
+            _ => postfix_op.or(binary_op).parse(s),
         }
     }
 
-- 
2.43.0


From da6e442a394424fc105f901a69cb590a469b09d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 07/49] fix: display unprintable character literals with C++
 escapes

---
 cpparser/src/subparsers/values/literals.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpparser/src/subparsers/values/literals.rs b/cpparser/src/subparsers/values/literals.rs
index 7658e80..be8d0a6 100644
--- a/cpparser/src/subparsers/values/literals.rs
+++ b/cpparser/src/subparsers/values/literals.rs
@@ -145,6 +145,10 @@ impl Display for LiteralValue {
         match self {
             Self::I64(i) => write!(f, "{i}"),
             Self::U64(u) => write!(f, "{u}"),
+            // Rust's unicode escapes are not valid in C++
+            Self::Char(c) if format!("{c:?}").starts_with("'\\u{") => {
+                write!(f, "'\\x{:x}'", *c as u32)
+            }
             Self::Char(c) => write!(f, "{c:?}"),
         }
     }
-- 
2.43.0


From fa99e2e9a83b72cff03babe00787f10e4d0dbea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 08/49] fix: reject non-ASCII identifiers instead of panicking
 in debug builds

---
 cpparser/src/subparsers/names/atoms.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/cpparser/src/subparsers/names/atoms.rs b/cpparser/src/subparsers/names/atoms.rs
index 634621a..0783ca0 100644
--- a/cpparser/src/subparsers/names/atoms.rs
+++ b/cpparser/src/subparsers/names/atoms.rs
@@ -124,7 +124,6 @@ fn identifier(s: &str) -> IResult<&str> {
     }
     #[cfg(not(feature = "unicode-xid"))]
     {
-        debug_assert!(s.is_ascii());
         let bytes = s.as_bytes().split_first();
         match bytes {
             Some((first, others)) if is_id_start(*first) => {
@@ -154,7 +153,6 @@ fn end_of_identifier(s: &str) -> IResult<()> {
     }
     #[cfg(not(feature = "unicode-xid"))]
     {
-        debug_assert!(s.is_ascii());
         match s.as_bytes().first().copied() {
             Some(b) if is_id_continue(b) => Err(nom::Err::Error(Error::new(s, ErrorKind::Satisfy))),
             _ => Ok((s, ())),
@@ -171,11 +169,10 @@ fn is_id_start(c: char) -> bool {
 }
 //
 /// Truth that a character can be used as the start of a C++ identifier
-// This version assumes ASCII input
+// This version only supports ASCII identifiers
 #[cfg(not(feature = "unicode-xid"))]
 #[inline]
 fn is_id_start(b: u8) -> bool {
-    debug_assert!(b.is_ascii());
     b.is_ascii_alphabetic() || (b == b'_') || (b == b'$')
 }
 
@@ -188,11 +185,10 @@ fn is_id_continue(c: char) -> bool {
 }
 //
 /// Truth that a character can be used in the middle of a C++ identifier
-// This version assumes ASCII input
+// This version only supports ASCII identifiers
 #[cfg(not(feature = "unicode-xid"))]
 #[inline]
 fn is_id_continue(b: u8) -> bool {
-    debug_assert!(b.is_ascii());
     is_id_start(b) || b.is_ascii_digit()
 }
 
-- 
2.43.0


From b984fa87593a38f3ea51ada86b675d74db27f093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 09/49] fix: accept operator names at the end of template
 parameters

---
 .../src/subparsers/operators/overloads.rs     | 27 ++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/overloads.rs b/cpparser/src/subparsers/operators/overloads.rs
index a068739..bc2e83d 100644
--- a/cpparser/src/subparsers/operators/overloads.rs
+++ b/cpparser/src/subparsers/operators/overloads.rs
@@ -33,7 +33,10 @@ impl EntityParser {
         // that matches optimally.
         let arith_and_templates = (|s| self.parse_arith_and_templates_imut(s, 1))
             .or(|s| self.parse_arith_and_templates_imut(s, 2))
-            .or(|s| self.parse_arith_and_templates_imut(s, 3));
+            .or(|s| self.parse_arith_and_templates_imut(s, 3))
+            // When an operator name ends a template parameter, the symbol that
+            // comes next is not part of the operator name.
+            .or(|s| self.parse_arith_as_template_parameter_imut(s));
 
         // The other operator parses don't care about template parameters
         let template_oblivious = (call_or_index
@@ -98,6 +101,28 @@ impl EntityParser {
         )(s)
     }
 
+    /// Try to parse input as an arithmetic or comparison operator name that is
+    /// followed by the end of a template parameter, as in `A<&B::operator==>`.
+    fn parse_arith_as_template_parameter_imut<'source>(
+        &self,
+        s: &'source str,
+    ) -> IResult<'source, (Operator, Option<TemplateParameters>)> {
+        use nom::{
+            character::complete::{char, multispace0},
+            combinator::{opt, peek},
+            sequence::preceded,
+        };
+        super::arithmetic_or_comparison::<3>
+            .or(super::arithmetic_or_comparison::<2>)
+            .or(super::arithmetic_or_comparison::<1>)
+            .and(preceded(
+                multispace0,
+                opt(|s| self.parse_template_parameters_imut(s)),
+            ))
+            .terminated(peek(multispace0.and(char(',').or(char('>')))))
+            .parse(s)
+    }
+
     /// Parse custom literal
     fn parse_custom_literal_imut<'source>(&self, s: &'source str) -> IResult<'source, Operator> {
         use nom::{character::complete::multispace0, sequence::preceded};
-- 
2.43.0


From 06a313de3e415b73ddad13fab72fdc059e382f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 10/49] fix: do not read identifiers that start with new as a
 new expression

---
 cpparser/src/subparsers/operators/usage.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cpparser/src/subparsers/operators/usage.rs b/cpparser/src/subparsers/operators/usage.rs
index 2e90f99..95261e9 100644
--- a/cpparser/src/subparsers/operators/usage.rs
+++ b/cpparser/src/subparsers/operators/usage.rs
@@ -150,7 +150,7 @@ impl EntityParser {
         let rooted = opt(tag("::")).map(|o| o.is_some());
         separated_pair(
             rooted,
-            tag("new").and(multispace0),
+            Self::keyword_parser("new").and(multispace0),
             tuple((
                 opt(|s| self.parse_function_call_imut(s)).terminated(multispace0),
                 (|s| self.parse_type_like_imut(s)).terminated(multispace0),
-- 
2.43.0


From 609c620775131c67cfa97f2d62a4804bdfdcf60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:51 +0000
Subject: [PATCH 11/49] fix: accept whitespace after decltype, sizeof, declval,
 noexcept, new and delete keywords

---
 cpparser/src/subparsers/functions.rs           |  2 +-
 cpparser/src/subparsers/names/unqualified.rs   |  5 ++++-
 cpparser/src/subparsers/operators/mod.rs       |  7 +++++--
 cpparser/src/subparsers/operators/overloads.rs |  7 +++++--
 cpparser/src/subparsers/values/mod.rs          | 16 ++++++++++++----
 5 files changed, 27 insertions(+), 10 deletions(-)

diff --git a/cpparser/src/subparsers/functions.rs b/cpparser/src/subparsers/functions.rs
index 7cecbdd..368c64b 100644
--- a/cpparser/src/subparsers/functions.rs
+++ b/cpparser/src/subparsers/functions.rs
@@ -246,7 +246,7 @@ impl EntityParser {
         preceded(
             Self::keyword_parser("noexcept"),
             opt(delimited(
-                char('(').and(multispace0),
+                multispace0.and(char('(')).and(multispace0),
                 |s| self.parse_value_like_imut(s, false, true),
                 multispace0.and(char(')')),
             )),
diff --git a/cpparser/src/subparsers/names/unqualified.rs b/cpparser/src/subparsers/names/unqualified.rs
index 08eab2e..5254584 100644
--- a/cpparser/src/subparsers/names/unqualified.rs
+++ b/cpparser/src/subparsers/names/unqualified.rs
@@ -64,7 +64,10 @@ impl EntityParser {
 
         // A decltype expression
         let decltype = delimited(
-            tag("decltype(").and(multispace0),
+            Self::keyword_parser("decltype")
+                .and(multispace0)
+                .and(char('('))
+                .and(multispace0),
             |s| self.parse_value_like_imut(s, false, true),
             multispace0.and(char(')')),
         )
diff --git a/cpparser/src/subparsers/operators/mod.rs b/cpparser/src/subparsers/operators/mod.rs
index 4e55d94..aa78e37 100644
--- a/cpparser/src/subparsers/operators/mod.rs
+++ b/cpparser/src/subparsers/operators/mod.rs
@@ -356,9 +356,12 @@ fn arithmetic_or_comparison<const LEN: usize>(s: &str) -> IResult<Operator> {
 
 /// Parse deallocation function
 fn delete(s: &str) -> IResult<Operator> {
-    use nom::{combinator::opt, sequence::preceded};
+    use nom::{character::complete::multispace0, combinator::opt, sequence::preceded};
     use nom_supreme::tag::complete::tag;
-    preceded(EntityParser::keyword_parser("delete"), opt(tag("[]")))
+    preceded(
+        EntityParser::keyword_parser("delete"),
+        opt(preceded(multispace0, tag("[]"))),
+    )
         .map(|array| Operator::NewDelete {
             is_delete: true,
             array: array.is_some(),
diff --git a/cpparser/src/subparsers/operators/overloads.rs b/cpparser/src/subparsers/operators/overloads.rs
index bc2e83d..3271a51 100644
--- a/cpparser/src/subparsers/operators/overloads.rs
+++ b/cpparser/src/subparsers/operators/overloads.rs
@@ -145,9 +145,12 @@ fn call_or_index(s: &str) -> IResult<Operator> {
 
 /// Parse allocation function overload declaration
 fn new(s: &str) -> IResult<Operator> {
-    use nom::{combinator::opt, sequence::preceded};
+    use nom::{character::complete::multispace0, combinator::opt, sequence::preceded};
     use nom_supreme::tag::complete::tag;
-    preceded(EntityParser::keyword_parser("new"), opt(tag("[]")))
+    preceded(
+        EntityParser::keyword_parser("new"),
+        opt(preceded(multispace0, tag("[]"))),
+    )
         .map(|array| Operator::NewDelete {
             is_delete: false,
             array: array.is_some(),
diff --git a/cpparser/src/subparsers/values/mod.rs b/cpparser/src/subparsers/values/mod.rs
index 15fd1e5..5d6ac60 100644
--- a/cpparser/src/subparsers/values/mod.rs
+++ b/cpparser/src/subparsers/values/mod.rs
@@ -157,10 +157,18 @@ impl EntityParser {
 
         let ellipsis = tag("...").value(ValueHeader::Ellipsis);
 
-        let sizeof = delimited(tag("sizeof("), |s| self.parse_type_like_imut(s), char(')'))
-            .map(ValueHeader::SizeOf);
-        let declval = delimited(tag("declval("), |s| self.parse_type_like_imut(s), char(')'))
-            .map(ValueHeader::DeclVal);
+        let keyword_and_type = |keyword| {
+            delimited(
+                Self::keyword_parser(keyword)
+                    .and(multispace0)
+                    .and(char('('))
+                    .and(multispace0),
+                |s| self.parse_type_like_imut(s),
+                multispace0.and(char(')')),
+            )
+        };
+        let sizeof = keyword_and_type("sizeof").map(ValueHeader::SizeOf);
+        let declval = keyword_and_type("declval").map(ValueHeader::DeclVal);
 
         literal
             .or(new_expression)
-- 
2.43.0


From 44d6d71feb0e47e99b787fc39639a915eed01965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:52 +0000
Subject: [PATCH 12/49] fix: Do not panic on an empty activity detail

---
 clang-time-trace/src/stats/activity/argument.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/argument.rs b/clang-time-trace/src/stats/activity/argument.rs
index 30a302c..bded7fa 100644
--- a/clang-time-trace/src/stats/activity/argument.rs
+++ b/clang-time-trace/src/stats/activity/argument.rs
@@ -275,13 +275,11 @@ impl ActivityArgumentType {
         // entity without invoking a C++ parser, which is expensive, so that
         // will be our default case when things does not look like info text.
         //
-        if !detail
-            .chars()
-            .next()
-            .expect("detail is not empty if detail_arg() returned Ok")
-            .is_uppercase()
-        {
-            return ActivityArgumentType::CppEntity;
+        match detail.chars().next() {
+            // Not a C++ entity name, nor anything else of interest
+            None => return ActivityArgumentType::String,
+            Some(first) if !first.is_uppercase() => return ActivityArgumentType::CppEntity,
+            Some(_) => {}
         }
         let mut can_be_string = true;
         'words: for word in detail.split(' ') {
-- 
2.43.0


From c7d9a92dea66e1faa7904ea8b884f35a916344b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:57 +0000
Subject: [PATCH 13/49] fix: Report an empty event list as an error instead of
 crashing

---
 clang-time-trace/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/clang-time-trace/src/lib.rs b/clang-time-trace/src/lib.rs
index d42f745..dca3f3b 100644
--- a/clang-time-trace/src/lib.rs
+++ b/clang-time-trace/src/lib.rs
@@ -252,7 +252,8 @@ impl FromStr for ClangTrace {
         };
 
         // Process the trace events
-        let mut activities = ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len() - 1);
+        let mut activities =
+            ActivityTreeBuilder::with_capacity(profile_ctf.traceEvents.len().saturating_sub(1));
         let mut global_stats = HashMap::new();
         let mut process_name = None;
         let mut thread_name = None;
-- 
2.43.0


From 44b361f5f7792c5b32ba6e71d26d9d81f975107d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:33 +0000
Subject: [PATCH 14/49] fix: Flag a wall time of 2^64 seconds as invalid
 instead of truncating it

---
 cmakeperf/src/output.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmakeperf/src/output.rs b/cmakeperf/src/output.rs
index d62a320..0c1e43a 100644
--- a/cmakeperf/src/output.rs
+++ b/cmakeperf/src/output.rs
@@ -101,7 +101,7 @@ impl UnitProfile {
         if secs_f32 < 0.0 {
             return Some(Err(secs_f32));
         }
-        if secs_f32 > u64::MAX as f32 + 0.999_999_999 {
+        if secs_f32 >= u64::MAX as f32 {
             return Some(Err(secs_f32));
         }
         Some(Ok(Duration::from_secs(secs_f32 as u64).saturating_add(
-- 
2.43.0


From 8ca9efacdfd29a40dc4f7fb865cbf789fbff71f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:08 +0000
Subject: [PATCH 15/49] fix: Report a build profile that cannot be read as an
 error, not as an empty profile

---
 cmakeperf/src/output.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmakeperf/src/output.rs b/cmakeperf/src/output.rs
index 0c1e43a..fd4df70 100644
--- a/cmakeperf/src/output.rs
+++ b/cmakeperf/src/output.rs
@@ -27,6 +27,8 @@ pub fn load(path: impl AsRef<Path>) -> Result<BuildProfile, ProfileLoadError> {
 
 /// Like `load()`, but takes any CSV reader, not necessarily a file reader
 fn from_csv_reader<R: Read>(mut reader: csv::Reader<R>) -> Result<BuildProfile, ProfileLoadError> {
+    // Deserialization silently ignores errors in the header row
+    reader.headers()?;
     let mut result = Vec::new();
     for unit in reader.deserialize() {
         result.push(unit?);
-- 
2.43.0


From 792ff446a0823e86de9fec7e644637d75ba5243f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 16/49] fix: do not overflow when only the last worker of a
 stop word is left

---
 cmakeperf/src/measure/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index d9107f8..c2f81f9 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -433,7 +433,9 @@ impl<'flags> StopServer<'flags> {
                     }
                     let offset_after_first_one = word_value.trailing_zeros() as usize + 1;
                     bit_offset += offset_after_first_one;
-                    word_value >>= offset_after_first_one;
+                    word_value = word_value
+                        .checked_shr(offset_after_first_one as u32)
+                        .unwrap_or(0);
                     Some(bit_offset - 1)
                 })
             })
-- 
2.43.0


From e975d0aad5a43f1f8ec6f31fc2905c87bd60efe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 17/49] fix: count the memory of multi-threaded commands once,
 not once per thread

---
 cmakeperf/src/measure/worker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index d8ce954..302e66a 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -193,7 +193,8 @@ impl ProcessTree {
             for parent_pid in self.parents.drain(..) {
                 // Look for children of each parent...
                 for (&child_pid, child) in system.processes() {
-                    if child.parent() == Some(parent_pid) {
+                    // (threads are not children, they share their process' memory)
+                    if child.parent() == Some(parent_pid) && child.thread_kind().is_none() {
                         // ...and collect them in children list
                         self.children.push(child_pid);
                     }
-- 
2.43.0


From cf9a446c13fa4dc7a39c5f8d098928f515ddb590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:57 +0000
Subject: [PATCH 18/49] fix: monitor memory and cancellation at regular
 intervals even if many jobs finish quickly

---
 cmakeperf/src/measure/main.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index c2f81f9..dabb294 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -17,6 +17,7 @@ use std::{
         mpsc::{self, RecvTimeoutError},
         Arc,
     },
+    time::Instant,
 };
 use sysinfo::RefreshKind;
 use thiserror::Error;
@@ -67,6 +68,7 @@ pub(super) fn run(
             let mut work_sender = work_queue.sender();
             work_sender.start();
             let mut poll_clock = PollClock::start();
+            let mut next_poll = Instant::now() + poll_clock.poll_delay();
             while remaining_jobs > 0 {
                 // Handle external request to terminate the job
                 if kill.load(Ordering::Relaxed) {
@@ -75,9 +77,21 @@ pub(super) fn run(
                     return Err(MeasureError::Killed);
                 }
 
+                // Monitor the system at regular intervals, no matter how many
+                // results come in meanwhile
+                let poll_delay = next_poll.saturating_duration_since(Instant::now());
+                if poll_delay.is_zero() {
+                    match monitor_server.update() {
+                        MonitorStatus::Running => {}
+                        MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),
+                    }
+                    next_poll = Instant::now() + poll_clock.poll_delay();
+                    continue;
+                }
+
                 // Wait for a job to be complete or a timeout
                 // TODO: Move to recv_deadline once available
-                match results_receiver.recv_timeout(poll_clock.poll_delay()) {
+                match results_receiver.recv_timeout(poll_delay) {
                     // A worker had to abort its current job as a result of running
                     // out of memory, send it back to other workers.
                     Ok(Err(JobError::Killed(job))) => {
@@ -99,10 +113,7 @@ pub(super) fn run(
                     }
 
                     // System monitor wakeup
-                    Err(RecvTimeoutError::Timeout) => match monitor_server.update() {
-                        MonitorStatus::Running => {}
-                        MonitorStatus::KilledEveryone => return Err(MeasureError::OutOfMemory),
-                    },
+                    Err(RecvTimeoutError::Timeout) => {}
 
                     // No worker threads left to send job results
                     //
-- 
2.43.0


From 22c65488d41de73a9ee4d0906bb93becbbf663c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 19/49] fix: stop running and queued jobs when the measurement
 fails

---
 cmakeperf/src/measure/main.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmakeperf/src/measure/main.rs b/cmakeperf/src/measure/main.rs
index dabb294..e19c736 100644
--- a/cmakeperf/src/measure/main.rs
+++ b/cmakeperf/src/measure/main.rs
@@ -64,8 +64,12 @@ pub(super) fn run(
             }
 
             // Wait for results while monitoring free RAM
-            let mut monitor_server = monitor.server();
+            //
+            // On early exit, monitor_server must be dropped before work_sender
+            // so that workers stop before they can start another job.
+            //
             let mut work_sender = work_queue.sender();
+            let mut monitor_server = monitor.server();
             work_sender.start();
             let mut poll_clock = PollClock::start();
             let mut next_poll = Instant::now() + poll_clock.poll_delay();
@@ -377,6 +381,13 @@ impl<'monitor> MonitorServer<'monitor> {
     }
 }
 //
+impl Drop for MonitorServer<'_> {
+    /// Whatever the reason why monitoring ends, workers should not go on
+    fn drop(&mut self) {
+        self.stop_all();
+    }
+}
+//
 /// Error returned when all threads have been killed due to OOM
 #[must_use]
 #[derive(Clone, Copy, Debug, Eq, PartialEq)]
-- 
2.43.0


From 595eb861f48384616dda71797d9e984dd49883bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:28 +0000
Subject: [PATCH 20/49] fix: kill all processes of a job, even those that were
 started after the last poll

---
 cmakeperf/src/measure/worker.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 302e66a..110f6a3 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -14,7 +14,7 @@ use std::{
     },
     time::Instant,
 };
-use sysinfo::{Pid, Process, Signal, System};
+use sysinfo::{Pid, Process, ProcessRefreshKind, RefreshKind, Signal, System};
 use thiserror::Error;
 use wait_timeout::ChildExt;
 
@@ -68,12 +68,18 @@ fn process_job(
     let exit_status = loop {
         match process.wait_timeout(poll_clock.poll_delay()) {
             Ok(None) => {
-                let system = monitor_client.system();
-                tree.refresh(&system);
                 if let Err(MustStop) = monitor_client.keep_job() {
+                    // The main thread may have last looked at processes before
+                    // this one, or some of its children, was started
+                    let system = System::new_with_specifics(
+                        RefreshKind::new().with_processes(ProcessRefreshKind::new()),
+                    );
+                    tree.refresh(&system);
                     tree.kill(&system);
                     return Err(JobError::Killed(job));
                 } else {
+                    let system = monitor_client.system();
+                    tree.refresh(&system);
                     max_rss_bytes = max_rss_bytes.max(tree.memory(&system));
                 }
             }
-- 
2.43.0


From 52d30aec7ca584ed5dc5f60bb84cdcb7333f7706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:57 +0000
Subject: [PATCH 21/49] fix: do not hang on or choke on the output of commands

---
 cmakeperf/src/measure/worker.rs | 55 ++++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/cmakeperf/src/measure/worker.rs b/cmakeperf/src/measure/worker.rs
index 110f6a3..5ad7f61 100644
--- a/cmakeperf/src/measure/worker.rs
+++ b/cmakeperf/src/measure/worker.rs
@@ -4,7 +4,8 @@ use super::{Monitor, PollClock, WorkQueue};
 use crate::{commands::DatabaseEntry, output::UnitProfile};
 use crossbeam_deque::{Steal, Worker};
 use std::{
-    io::{self, Read},
+    fs::File,
+    io::{self, Read, Seek},
     panic::AssertUnwindSafe,
     process::{Child, Command, ExitStatus, Stdio},
     sync::{
@@ -59,7 +60,7 @@ fn process_job(
         return Err(JobError::Killed(job));
     }
     let start = measure_time.then(Instant::now);
-    let mut process = start_job(&job)?;
+    let (mut process, stdout, stderr) = start_job(&job)?;
     let mut poll_clock = PollClock::start();
 
     // Monitor the job to completion or error
@@ -90,7 +91,7 @@ fn process_job(
     let wall_time = start.map(|start| start.elapsed());
 
     // Decide if job has succeeded or failed, log output accordingly
-    report_process(process, exit_status)?;
+    report_process(stdout, stderr, exit_status)?;
 
     // Compute relative path to the input, if possible
     let rel_path = std::env::current_dir()
@@ -131,21 +132,31 @@ pub enum JobError {
 }
 
 /// Start a compilation process
-fn start_job(job: &DatabaseEntry) -> Result<Child, JobError> {
+///
+/// Its output goes to temporary files. Unlike pipes, these can take in any
+/// amount of output without the process having to wait for us to read it.
+///
+fn start_job(job: &DatabaseEntry) -> Result<(Child, File, File), JobError> {
     let Some(program) = job.program() else {
         return Err(JobError::NoProgram);
     };
+    let output_file = || {
+        let file = tempfile::tempfile()?;
+        Ok((Stdio::from(file.try_clone()?), file))
+    };
+    let (stdout_writer, stdout) = output_file().map_err(JobError::SpawnFailed)?;
+    let (stderr_writer, stderr) = output_file().map_err(JobError::SpawnFailed)?;
     let mut command = Command::new(program.as_ref());
     command
         .current_dir(job.current_dir())
         .stdin(Stdio::null())
-        .stdout(Stdio::piped())
-        .stderr(Stdio::piped());
+        .stdout(stdout_writer)
+        .stderr(stderr_writer);
     for arg in job.args() {
         command.arg(arg.as_ref());
     }
     match command.spawn() {
-        Ok(process) => Ok(process),
+        Ok(process) => Ok((process, stdout, stderr)),
         Err(e) => Err(JobError::SpawnFailed(e)),
     }
 }
@@ -236,33 +247,33 @@ impl ProcessTree {
 }
 
 /// Report on process failure or unexpected output
-fn report_process(process: Child, exit_status: ExitStatus) -> Result<(), JobError> {
-    let stdpipe_report = report_stdpipe(process);
+fn report_process(stdout: File, stderr: File, exit_status: ExitStatus) -> Result<(), JobError> {
+    let output_report = report_output(stdout, stderr);
     if !exit_status.success() {
         let mut message = format!("Job failed with {exit_status}");
-        if !stdpipe_report.is_empty() {
-            message = format!("{message}, it had {stdpipe_report}");
+        if !output_report.is_empty() {
+            message = format!("{message}, it had {output_report}");
         }
         log::error!("{message}");
         return Err(JobError::JobFailed);
     }
-    if !stdpipe_report.is_empty() {
-        log::warn!("Job had {stdpipe_report}");
+    if !output_report.is_empty() {
+        log::warn!("Job had {output_report}");
     }
     Ok(())
 }
 
 /// Report on non-empty stdout and/or stderr from a compilation process
-fn report_stdpipe(process: Child) -> String {
-    fn read_stdpipe(pipe: Option<impl Read>) -> String {
-        let mut buf = String::new();
-        pipe.expect("Process output/error should have been piped and available")
-            .read_to_string(&mut buf)
-            .expect("Reading from pipes should be infaillible");
-        buf
+fn report_output(stdout: File, stderr: File) -> String {
+    fn read_output(mut file: File) -> String {
+        let mut buf = Vec::new();
+        file.rewind()
+            .and_then(|()| file.read_to_end(&mut buf))
+            .expect("Reading back process output should be infaillible");
+        String::from_utf8_lossy(&buf).into_owned()
     }
-    let stdout = read_stdpipe(process.stdout);
-    let stderr = read_stdpipe(process.stderr);
+    let stdout = read_output(stdout);
+    let stderr = read_output(stderr);
     let mut report = String::new();
     let has_stdout = !stdout.is_empty();
     if has_stdout {
-- 
2.43.0


From 3963e3a00f5d890b3fe1a5dc24c9a6c3555ddd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:56 +0000
Subject: [PATCH 22/49] fix: show a file path unmodified when it fits exactly

---
 src/ui/display/path.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/ui/display/path.rs b/src/ui/display/path.rs
index 18fd446..14c4ad8 100644
--- a/src/ui/display/path.rs
+++ b/src/ui/display/path.rs
@@ -41,6 +41,12 @@ pub fn truncate_path_iter(
     assert!(cols > 0, "Need at least one column to display something");
     let cols = usize::from(cols);
 
+    // No truncation is needed if the full path fits
+    let full_path = full_path(components.clone());
+    if full_path.width() <= cols {
+        return full_path.into();
+    }
+
     // Determine how many complete path components we can display
     let (accepted_front, accepted_back) = select_components(components.clone(), cols);
 
@@ -68,6 +74,18 @@ pub fn truncate_path_iter(
     result
 }
 
+/// Render all components of a path
+fn full_path(components: impl Iterator<Item = impl AsRef<str>>) -> String {
+    let mut buffer = String::new();
+    for component in components {
+        if !(buffer.is_empty() || buffer.ends_with(PATH_SEPARATOR)) {
+            buffer.push(PATH_SEPARATOR);
+        }
+        buffer.push_str(component.as_ref());
+    }
+    buffer
+}
+
 /// Minimal filename width (in terminal columns) for partial display
 ///
 /// Above this limit, if truncate_path doesn't have enough terminal columns to
-- 
2.43.0


From 05c8741cd8957f6e59e30d69280a62d386a9ecf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:07 +0000
Subject: [PATCH 23/49] fix: do not crash on very narrow displays

---
 src/main.rs     | 3 ++-
 src/ui/stdio.rs | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ace3734..6722565 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,7 +58,8 @@ pub struct CliArgs {
     ///
     /// Only used by the stdio user interface, the TUI detects the screen width.
     ///
-    #[clap(short = 'c', long = "cols", default_value = "200")]
+    #[clap(short = 'c', long = "cols", default_value = "200",
+           value_parser = clap::value_parser!(u16).range(1..))]
     max_cols: u16,
 
     /// Granularity to be used when measuring time-trace profiles (in µs)
diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index bc6597f..e59c629 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -106,6 +106,8 @@ fn print_flat_profile(
     );
     let hottest_ids = hottest.iter().map(ActivityTrace::id).collect::<Vec<_>>();
     let num_hottest = hottest_ids.len();
+    // Leave the list bullet out if it leaves no room for the activities
+    let bullet = if max_cols > 2 { "- " } else { "" };
     for id in hottest_ids.into_iter() {
         // Parse activity argument
         let parsed_arg = crate::ui::force_parse_arg(trace, id);
@@ -113,12 +115,12 @@ fn print_flat_profile(
 
         // Display activity
         let duration = activity_trace.self_duration();
-        print!("- ");
+        print!("{bullet}");
         display_activity(
             std::io::stdout(),
             activity_trace.activity().id(),
             &parsed_arg.resolve(trace),
-            max_cols - 2,
+            max_cols - bullet.width() as u16,
             duration,
             duration_norm,
         )
-- 
2.43.0


From ed37dbbd690ca02886ed16477053d8eaf81cf3df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:32 +0000
Subject: [PATCH 24/49] fix: display the hierarchical profile of traces with
 several root activities

---
 src/ui/stdio.rs | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index e59c629..8ae6f16 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -153,16 +153,14 @@ fn print_hierarchical_profile(
         skip_indent: " ",
     };
     println!("\nHierarchical profile:");
-    assert_eq!(trace.root_activities().count(), 1);
-    let root_id = trace
-        .root_activities()
-        .next()
-        .expect("There should be one ExecuteCompiler root activity")
-        .id();
-    println!(
-        "{}",
-        hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)
-    );
+    let roots = trace::hottest_activities(trace.root_activities(), |a| a.duration(), 0.0);
+    let root_ids = roots.iter().map(ActivityTrace::id).collect::<Vec<_>>();
+    for root_id in root_ids {
+        println!(
+            "{}",
+            hierarchical_profile_tree(trace, palette, root_id, duration_norm, threshold, max_cols)
+        );
+    }
 }
 
 /// Make a tree display of the hierarchical profile of some build
-- 
2.43.0


From 90a96f433c9cd20a95950d8a2a58c5431c9333a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 25/49] fix: display activities whose share is equal to the
 display threshold

---
 src/main.rs     |  4 ++--
 src/ui/stdio.rs | 12 ++++++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 6722565..6b0e83a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -45,14 +45,14 @@ pub struct CliArgs {
     /// Only used by the stdio user interface, the TUI displays everything.
     ///
     #[clap(short, long, default_value = "0.5")]
-    self_threshold: f32,
+    self_threshold: f64,
 
     /// Hierarchical profile display threshold, as a percentage of total duration
     ///
     /// Only used by the stdio user interface, the TUI displays everything.
     ///
     #[clap(short = 'i', long, default_value = "0.5")]
-    hierarchical_threshold: f32,
+    hierarchical_threshold: f64,
 
     /// Maximal number of terminal columns to be used in the display
     ///
diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index 8ae6f16..7d33012 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -52,7 +52,7 @@ pub fn run(args: CliArgs) {
     let duration_norm = trace::duration_norm(trace.root_activities());
 
     // Activity types by self-duration
-    let self_threshold = args.self_threshold as Duration / 100.0;
+    let self_threshold = relative_threshold(args.self_threshold);
     print_activity_type_profile(&trace, duration_norm, self_threshold);
 
     // Flat activity profile by self-duration
@@ -62,7 +62,7 @@ pub fn run(args: CliArgs) {
     print_hierarchical_profile(
         &mut trace,
         duration_norm,
-        args.hierarchical_threshold as Duration / 100.0,
+        relative_threshold(args.hierarchical_threshold),
         max_cols,
     );
 
@@ -71,6 +71,14 @@ pub fn run(args: CliArgs) {
     trace.log_interner_usage();
 }
 
+/// Convert a display threshold from a percentage to a fraction of total duration
+///
+/// Activities whose share of the total duration is equal to the threshold should
+/// be displayed, so some room is left for rounding errors in this share.
+fn relative_threshold(percentage: f64) -> Duration {
+    percentage / 100.0 * (1.0 - 1e-9)
+}
+
 /// Display the amount of time spent on various activity types
 fn print_activity_type_profile(trace: &ClangTrace, duration_norm: Duration, threshold: Duration) {
     println!("\nSelf-duration breakdown by activity type:");
-- 
2.43.0


From dd71a9f8cd5c2afaabfb47d1c199d59225a9ba30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 26/49] fix: stop the build measurement before restoring the
 earlier profile

---
 src/ui/tui/build/measure.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 9c95246..6205a3b 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -140,8 +140,8 @@ struct MeasureHandle<'cursive, 'output> {
     /// Truth that the job has succeeded (in which case backups need not be restored)
     success: Arc<AtomicBool>,
 
-    /// Live cmakeperf data collection process
-    _measurement: Measurement,
+    /// Live cmakeperf data collection process, stopped first on drop
+    measurement: Option<Measurement>,
 }
 //
 impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
@@ -197,7 +197,7 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
             output_path,
             backup_path,
             success,
-            _measurement: measurement,
+            measurement: Some(measurement),
         })
     }
 
@@ -223,6 +223,8 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
 //
 impl Drop for MeasureHandle<'_, '_> {
     fn drop(&mut self) {
+        // Wait for data collection to stop before touching its output
+        std::mem::drop(self.measurement.take());
         if !self.success.load(Ordering::Acquire) {
             Self::restore_or_delete(self.cursive, &self.backup_path, self.output_path);
         }
-- 
2.43.0


From 7ce4b6b8f7874fbd5cfd6f44e2c2efedb987f002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 27/49] fix: delete the backup of the earlier build profile
 once measured

---
 src/ui/tui/build/measure.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 6205a3b..da2102d 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -125,7 +125,7 @@ pub fn measure_profile(
 ///
 /// If an old profile already exists, a backup will be taken, and restored in
 /// case this is dropped without seeing the whole data collection process
-/// through. This provides RAII-based data collection error & cancelation handling.
+/// through. Otherwise, the backup is deleted. This provides RAII-based data collection error & cancelation handling.
 ///
 struct MeasureHandle<'cursive, 'output> {
     /// Cursive handle
@@ -206,6 +206,18 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
         self.cursive
     }
 
+    /// Delete a full build profile backup that is not needed anymore
+    fn delete_backup(cursive: &mut CursiveRunnable, backup_path: &Path) {
+        match std::fs::remove_file(backup_path) {
+            Ok(()) => {}
+            Err(e) if e.kind() == io::ErrorKind::NotFound => {}
+            Err(other) => super::error(
+                cursive,
+                format!("Failed to remove build profile backup: {other}"),
+            ),
+        }
+    }
+
     /// Attempt to restore a full build profile backup
     fn restore_or_delete(cursive: &mut CursiveRunnable, backup_path: &Path, output_path: &Path) {
         match std::fs::rename(backup_path, output_path)
@@ -225,7 +237,9 @@ impl Drop for MeasureHandle<'_, '_> {
     fn drop(&mut self) {
         // Wait for data collection to stop before touching its output
         std::mem::drop(self.measurement.take());
-        if !self.success.load(Ordering::Acquire) {
+        if self.success.load(Ordering::Acquire) {
+            Self::delete_backup(self.cursive, &self.backup_path);
+        } else {
             Self::restore_or_delete(self.cursive, &self.backup_path, self.output_path);
         }
     }
-- 
2.43.0


From 999ac4db86389879c689bb9b0347fbed7b0093b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:24 +0000
Subject: [PATCH 28/49] fix: do not mistake a build profile whose name ends
 with .bak for its backup

---
 src/ui/tui/build/measure.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index da2102d..52564f9 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -13,7 +13,7 @@ use cursive::{
 use std::{
     io,
     panic::UnwindSafe,
-    path::Path,
+    path::{Path, PathBuf},
     sync::{
         atomic::{AtomicBool, Ordering},
         Arc, Mutex,
@@ -156,7 +156,9 @@ impl<'cursive, 'output> MeasureHandle<'cursive, 'output> {
         // FIXME: Ask user what kind of profile they want (memory-only or wall-time too ? What concurrency ?)
 
         // If a cmakeperf output already exists, back it up
-        let backup_path = output_path.with_extension("bak").into_boxed_path();
+        let mut backup_path = output_path.as_os_str().to_owned();
+        backup_path.push(".bak");
+        let backup_path = PathBuf::from(backup_path).into_boxed_path();
         match std::fs::rename(output_path, &backup_path) {
             Ok(()) => {}
             Err(e) if e.kind() == io::ErrorKind::NotFound => {}
-- 
2.43.0


From 9bdd006605092c6eb0d5fae4685ba2538ea72942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:57 +0000
Subject: [PATCH 29/49] fix: settle the trace files before a new trace can be
 measured

---
 src/ui/tui/trace/measure.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 87d6a9f..23a2217 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -162,9 +162,9 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
 
         // Wait for clang to finish or for the cancelation signal to be sent
         let wait_result = clang.wait();
-        callback(cb_sink, move |cursive| end_measure(cursive, state));
 
-        // Handle success and failure
+        // Handle success and failure, only let the user start new measurements
+        // once we are done manipulating the output and backup files
         let error_message = match wait_result {
             // Clang completed successfully
             Ok(false) => {
@@ -172,6 +172,7 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
                 let (output_path, backup_error) = backup.cleanup();
 
                 // Show the trace loading screen
+                callback(cb_sink, move |cursive| end_measure(cursive, state));
                 callback(cb_sink, move |cursive| {
                     trace::load::show_loader(cursive, output_path)
                 });
@@ -192,15 +193,13 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
             Err(error) => Some(error),
         };
 
-        // We're on the failure/abort path, so start by displaying any error messages
-        if let Some(error) = error_message {
-            callback(cb_sink, move |cursive| {
-                cursive.add_layer(Dialog::info(error))
-            });
-        }
+        // We're on the failure/abort path, so start by bringing back our backup
+        // or deleting any partial output from clang
+        let backup_error = backup.restore_or_delete();
 
-        // Bring back our backup or delete any partial output from clang
-        if let Some(error) = backup.restore_or_delete() {
+        // Then display any error message
+        callback(cb_sink, move |cursive| end_measure(cursive, state));
+        for error in error_message.into_iter().chain(backup_error) {
             callback(cb_sink, move |cursive| {
                 cursive.add_layer(Dialog::info(error))
             });
@@ -359,8 +358,8 @@ impl CancelableClang {
             Ok(Some(error_status)) => Err(child_failure_message(self.child, error_status)),
 
             // The work was canceled, kill clang and exit through the error path
-            Ok(None) => match self.child.kill() {
-                Ok(()) => Ok(true),
+            Ok(None) => match self.child.kill().and_then(|()| self.child.wait()) {
+                Ok(_status) => Ok(true),
                 Err(e)
                     if e.kind() == io::ErrorKind::InvalidInput
                         || e.kind() == io::ErrorKind::NotFound =>
-- 
2.43.0


From f92b1732a7f82491762df1455ae26abf3933f829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:20 +0000
Subject: [PATCH 30/49] fix: keep the earlier trace when clang does not produce
 a new one

---
 src/ui/tui/trace/measure.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 23a2217..b751ba6 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -167,7 +167,7 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
         // once we are done manipulating the output and backup files
         let error_message = match wait_result {
             // Clang completed successfully
-            Ok(false) => {
+            Ok(false) if backup.has_output() => {
                 // Delete the backup file
                 let (output_path, backup_error) = backup.cleanup();
 
@@ -186,6 +186,9 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
                 return;
             }
 
+            // Clang claims that it did, but there is no output to show for it
+            Ok(false) => Some("clang did not produce a time trace".to_owned()),
+
             // Clang execution was successfully canceled
             Ok(true) => None,
 
@@ -261,6 +264,11 @@ impl TraceBackup {
         Ok(Self { output, backup })
     }
 
+    /// Truth that clang has produced an output file
+    fn has_output(&self) -> bool {
+        self.output.exists()
+    }
+
     /// In case of clang failure, this restores the backup if there is one or
     /// deletes any incomplete output file if there is no backup.
     ///
-- 
2.43.0


From c17ee7df5e15f81a5f435df8c222d77dd0d085c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:42 +0000
Subject: [PATCH 31/49] fix: cancel an ongoing trace measurement when the user
 quits

---
 src/ui/tui/mod.rs           |  9 +++++++-
 src/ui/tui/trace/measure.rs | 42 ++++++++++++++++++++++++++++++++-----
 2 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/src/ui/tui/mod.rs b/src/ui/tui/mod.rs
index a1ca0a8..1022e20 100644
--- a/src/ui/tui/mod.rs
+++ b/src/ui/tui/mod.rs
@@ -9,7 +9,10 @@ mod trace;
 
 use self::{
     processing::ProcessingThread,
-    trace::display::{ProfileDisplay, ProfileLayer},
+    trace::{
+        display::{ProfileDisplay, ProfileLayer},
+        measure::TraceMeasurement,
+    },
 };
 use crate::CliArgs;
 use clang_time_trace::Duration;
@@ -46,6 +49,7 @@ pub fn run(args: CliArgs) {
     // Start the processing thread and set up the text user interface
     let mut cursive = init::setup_cursive(State {
         processing_thread: ProcessingThread::start(),
+        trace_measurement: None,
         global_percent_norm: None,
         profile_stack: Vec::new(),
         showing_full_build: false,
@@ -81,6 +85,9 @@ pub struct State {
     /// Handle to the processing thread
     processing_thread: ProcessingThread,
 
+    /// Latest time-trace measurement, if any was started
+    trace_measurement: Option<TraceMeasurement>,
+
     /// Norm to compute percentages of the full clang execution time
     ///
     /// Will be set when the first layer of hierarchical profiling is displayed.
diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index b751ba6..12432ae 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -13,6 +13,7 @@ use std::{
         atomic::{self, AtomicBool, Ordering},
         Arc,
     },
+    thread::JoinHandle,
     time::Duration,
 };
 use wait_timeout::ChildExt;
@@ -140,24 +141,24 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
     let state = MeasureState { old_fps };
 
     // Set up the measurement screen
+    let abort_trigger = cancel_trigger.clone();
     cursive.add_layer(
         Dialog::text("Measuring time trace, please minimize system activity...")
-            .button("Abort", move |_cursive| cancel_trigger.cancel()),
+            .button("Abort", move |_cursive| abort_trigger.cancel()),
     );
 
     // Start a thread that measures a clang time-trace and arranges for the
     // next steps to be taken once that's done
     let cb_sink = cursive.cb_sink().clone();
-    std::thread::spawn(move || {
+    let thread = std::thread::spawn(move || {
         // Force-send a callback to the cursive thread with less verbosity
         let cb_sink = &cb_sink;
         fn callback(
             cb_sink: &cursive::CbSink,
             callback: impl FnOnce(&mut Cursive) + Send + 'static,
         ) {
-            cb_sink
-                .send(Box::new(callback))
-                .expect("Failed to send cursive callback to main thread");
+            // If this fails, the user has quit and no one cares anymore
+            std::mem::drop(cb_sink.send(Box::new(callback)));
         }
 
         // Wait for clang to finish or for the cancelation signal to be sent
@@ -208,6 +209,36 @@ pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<P
             });
         }
     });
+
+    // Make sure that this is canceled if the user quits
+    with_state(cursive, |state| {
+        state.trace_measurement = Some(TraceMeasurement {
+            cancel_trigger,
+            thread: Some(thread),
+        })
+    });
+}
+
+/// Handle to an ongoing clang time-trace measurement
+///
+/// If this is dropped before the measurement is over, then the measurement is
+/// canceled and any previous measurement is restored.
+///
+pub struct TraceMeasurement {
+    /// Mechanism to cancel the measurement
+    cancel_trigger: CancelTrigger,
+
+    /// Thread that performs the measurement
+    thread: Option<JoinHandle<()>>,
+}
+//
+impl Drop for TraceMeasurement {
+    fn drop(&mut self) {
+        self.cancel_trigger.cancel();
+        if let Some(thread) = self.thread.take() {
+            std::mem::drop(thread.join());
+        }
+    }
 }
 
 /// Saved Cursive state returned by start_measure, to be passed back to
@@ -384,6 +415,7 @@ impl CancelableClang {
 }
 //
 /// Cancelation trigger for CancelableClang
+#[derive(Clone)]
 struct CancelTrigger(Arc<AtomicBool>);
 //
 impl CancelTrigger {
-- 
2.43.0


From 71a038fba1fbadb2ee64a11dd092ee0fdb32e514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:28 +0000
Subject: [PATCH 32/49] fix: read clang's output while a trace is being
 measured

Clang's stdout and stderr were only read once it had ended. A clang that
writes more than what fits in a pipe would wait for them to be read
forever, with crofiler waiting for clang.
---
 src/ui/tui/trace/measure.rs | 62 +++++++++++++++++++++++--------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index 12432ae..ae0b2e4 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -337,6 +337,12 @@ struct CancelableClang {
     /// Child process
     child: Child,
 
+    /// Thread that collects the child's stdout
+    stdout: JoinHandle<Vec<u8>>,
+
+    /// Thread that collects the child's stderr
+    stderr: JoinHandle<Vec<u8>>,
+
     /// Cancelation flag
     canceled: Arc<AtomicBool>,
 }
@@ -345,7 +351,7 @@ impl CancelableClang {
     /// Start clang and set up cancelation, emit an error message if it goes wrong
     fn start(mut command: Command) -> Result<(Self, CancelTrigger), String> {
         // Start clang process
-        let child = match command
+        let mut child = match command
             .stdin(Stdio::null())
             .stdout(Stdio::piped())
             .stderr(Stdio::piped())
@@ -357,12 +363,25 @@ impl CancelableClang {
             }
         };
 
+        // Collect clang's output as it comes, otherwise clang would wait for us
+        // forever once the pipe is full
+        let stdout = collect_output(child.stdout.take().expect("Failed to access stdout"));
+        let stderr = collect_output(child.stderr.take().expect("Failed to access stderr"));
+
         // Set up cancelation
         let canceled = Arc::new(AtomicBool::new(false));
         let cancel_trigger = CancelTrigger(canceled.clone());
 
         // Return all of that
-        Ok((Self { child, canceled }, cancel_trigger))
+        Ok((
+            Self {
+                child,
+                stdout,
+                stderr,
+                canceled,
+            },
+            cancel_trigger,
+        ))
     }
 
     /// Wait for the process to terminate or be canceled
@@ -394,7 +413,11 @@ impl CancelableClang {
             Ok(Some(status)) if status.success() => Ok(false),
 
             // Clang terminated with an error status
-            Ok(Some(error_status)) => Err(child_failure_message(self.child, error_status)),
+            Ok(Some(error_status)) => {
+                let [stdout, stderr] =
+                    [self.stdout, self.stderr].map(|thread| thread.join().unwrap_or_default());
+                Err(child_failure_message(&stdout, &stderr, error_status))
+            }
 
             // The work was canceled, kill clang and exit through the error path
             Ok(None) => match self.child.kill().and_then(|()| self.child.wait()) {
@@ -425,28 +448,21 @@ impl CancelTrigger {
     }
 }
 
-/// Generate an error message for a failing Child process
+/// Collect everything that a Child process writes to some pipe
 ///
 /// Ignore failure to extract info from stdout and stderr as that's difficult
 /// to handle and ultimately these are just nice-to-have details.
 ///
-fn child_failure_message(mut child: Child, error_status: ExitStatus) -> String {
-    let mut stdout = Vec::new();
-    let mut stderr = Vec::new();
-    std::mem::drop(
-        child
-            .stdout
-            .take()
-            .expect("Failed to access stdout")
-            .read_to_end(&mut stdout),
-    );
-    std::mem::drop(
-        child
-            .stderr
-            .take()
-            .expect("Failed to access stderr")
-            .read_to_end(&mut stderr),
-    );
+fn collect_output(mut pipe: impl Read + Send + 'static) -> JoinHandle<Vec<u8>> {
+    std::thread::spawn(move || {
+        let mut output = Vec::new();
+        std::mem::drop(pipe.read_to_end(&mut output));
+        output
+    })
+}
+
+/// Generate an error message for a failing Child process
+fn child_failure_message(stdout: &[u8], stderr: &[u8], error_status: ExitStatus) -> String {
     let mut error = format!("clang time-trace run failed ({})", error_status);
     let append_pipe = |error: &mut String, is_first, stream_name: &str, stream_data| {
         write!(
@@ -461,10 +477,10 @@ fn child_failure_message(mut child: Child, error_status: ExitStatus) -> String {
         .expect("Writing to String always succeeds");
     };
     if !stdout.is_empty() {
-        append_pipe(&mut error, true, "stdout", &stdout[..]);
+        append_pipe(&mut error, true, "stdout", stdout);
     }
     if !stderr.is_empty() {
-        append_pipe(&mut error, stdout.is_empty(), "stderr", &stderr[..]);
+        append_pipe(&mut error, stdout.is_empty(), "stderr", stderr);
     }
     error
 }
-- 
2.43.0


From 661bbdac836b202f539ea728d2ebd5f8f6c48f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:23 +0000
Subject: [PATCH 33/49] fix: keep the sort direction when switching duration
 units

Switching units while activities were sorted by description in the
reverse direction went back to the default direction.
---
 src/ui/tui/trace/display.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index adefacd..5d075c3 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -565,8 +565,10 @@ fn add_duration_cols_and_sort(
             sort_config.key = sort_config.key.into_flat();
         }
     }
-    table.set_default_column(sort_config.key.into_column(duration_display));
-    table.sort();
+    table.sort_by(
+        sort_config.key.into_column(duration_display),
+        sort_config.order[sort_config.key as usize],
+    );
 }
 
 /// Hierarchical profile column
-- 
2.43.0


From 703a27ba46f7d9519b440bdee7847be5ba58a3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:49 +0000
Subject: [PATCH 34/49] fix: do not crash on activities without a duration

Zooming on an activity whose duration is recorded as zero, or loading a
trace whose total duration is zero, crashed the TUI when computing
percentages of that duration.
---
 src/ui/tui/trace/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/mod.rs b/src/ui/tui/trace/mod.rs
index fce9aa2..5dbfe31 100644
--- a/src/ui/tui/trace/mod.rs
+++ b/src/ui/tui/trace/mod.rs
@@ -9,5 +9,10 @@ use decorum::Finite;
 
 /// Compute the percentage norm associated with a set of activities
 fn percent_norm(total_duration: Duration) -> Finite<Duration> {
-    Finite::<Duration>::from_inner(100.0 / total_duration)
+    Finite::<Duration>::from_inner(if total_duration > 0.0 {
+        100.0 / total_duration
+    } else {
+        // No percentage makes sense here, but 0% does little harm
+        0.0
+    })
 }
-- 
2.43.0


From d7d3ab434c8fc77e257a7e4bc9cd9e0bfc5c7a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 35/49] fix: do not crash on narrow terminals

The width of the last column was computed by an unchecked subtraction, which
underflowed when the terminal is narrower than the other columns.
---
 src/ui/tui/build/display.rs | 2 +-
 src/ui/tui/trace/display.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index 92e9954..1ed820f 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -44,7 +44,7 @@ pub fn display_profile(
     if has_walltime {
         non_file_width += WALL_TIME_WIDTH + 3;
     }
-    let file_width = terminal_width as usize - non_file_width;
+    let file_width = (terminal_width as usize).saturating_sub(non_file_width);
 
     // Set up table display
     type FullBuildProfileView = TableView<UnitProfile, ProfileColumn>;
diff --git a/src/ui/tui/trace/display.rs b/src/ui/tui/trace/display.rs
index 5d075c3..9347151 100644
--- a/src/ui/tui/trace/display.rs
+++ b/src/ui/tui/trace/display.rs
@@ -781,7 +781,7 @@ fn description_column_width(profile_kind: ProfileKind, terminal_width: u16) -> u
         ProfileKind::Hierarchical => DURATION_WIDTH + 4,
         ProfileKind::Flat => 0,
     };
-    terminal_width - durations_scroll_width as u16
+    terminal_width.saturating_sub(durations_scroll_width as u16)
 }
 
 /// Construct the cursive view used to provide the detailed name of an activity,
-- 
2.43.0


From 9497fdcb3a58a17b8e433356d8179adf1f12d68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:24 +0000
Subject: [PATCH 36/49] fix: exit once a failure to load the only trace was
 acknowledged

The error message was dismissed to an empty screen, from which nothing but
Ctrl+C would lead anywhere.
---
 src/ui/tui/trace/load.rs | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ui/tui/trace/load.rs b/src/ui/tui/trace/load.rs
index 9a1b274..c658bee 100644
--- a/src/ui/tui/trace/load.rs
+++ b/src/ui/tui/trace/load.rs
@@ -34,9 +34,7 @@ pub fn show_loader(cursive: &mut Cursive, trace_path: impl AsRef<Path>) {
 
                         // Handle trace loading errors
                         if let Err(error) = result {
-                            cursive.add_layer(Dialog::info(format!(
-                                "Failed to process input: {error}"
-                            )));
+                            show_error(cursive, format!("Failed to process input: {error}"));
                             return;
                         }
 
@@ -68,6 +66,20 @@ pub fn show_loader(cursive: &mut Cursive, trace_path: impl AsRef<Path>) {
     });
 }
 
+/// Tell the user that a trace cannot be displayed
+///
+/// If there is nothing to go back to (because the trace was specified on the
+/// command line), the application exits once the message is dismissed.
+///
+fn show_error(cursive: &mut Cursive, message: impl Into<String>) {
+    cursive.add_layer(Dialog::text(message).button("Ok", |cursive| {
+        cursive.pop_layer();
+        if cursive.screen().is_empty() {
+            cursive.quit();
+        }
+    }));
+}
+
 /// Start displaying a pretty loading screen
 ///
 /// Returns a WaitForInputState token that should be passed back to
-- 
2.43.0


From 42e8522d0a8b5f337ce5cb1e3fe4aa4463e809c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:28 +0000
Subject: [PATCH 37/49] fix: do not crash on time traces without any activity

The profile display needs an activity to select.
---
 src/ui/tui/trace/load.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/ui/tui/trace/load.rs b/src/ui/tui/trace/load.rs
index c658bee..48f020c 100644
--- a/src/ui/tui/trace/load.rs
+++ b/src/ui/tui/trace/load.rs
@@ -38,6 +38,15 @@ pub fn show_loader(cursive: &mut Cursive, trace_path: impl AsRef<Path>) {
                             return;
                         }
 
+                        // There is nothing to display in a trace without any activity
+                        let is_empty = with_state(cursive, |state| {
+                            state.processing_thread.get_root_activities().is_empty()
+                        });
+                        if is_empty {
+                            show_error(cursive, "The time trace does not contain any activity");
+                            return;
+                        }
+
                         // Query the list of root activities and deduce the global percentage norm
                         let (root_activities, global_percent_norm) = with_state(cursive, |state| {
                             let root_activities = state.processing_thread.get_root_activities();
-- 
2.43.0


From 74ef9a65cc4b434efb7c25922c8f70b4e94957ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:42 +0000
Subject: [PATCH 38/49] fix: do not crash on narrow terminals in the table of
 files

Paths cannot be shortened to zero columns.
---
 src/ui/tui/build/display.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index 1ed820f..f7dddbb 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -44,7 +44,9 @@ pub fn display_profile(
     if has_walltime {
         non_file_width += WALL_TIME_WIDTH + 3;
     }
-    let file_width = (terminal_width as usize).saturating_sub(non_file_width);
+    let file_width = (terminal_width as usize)
+        .saturating_sub(non_file_width)
+        .max(1);
 
     // Set up table display
     type FullBuildProfileView = TableView<UnitProfile, ProfileColumn>;
-- 
2.43.0


From 9f4643a5491c5736776c182976ac21db68b14591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:08 +0000
Subject: [PATCH 39/49] fix: do not crash when a trace is loaded after the user
 has quit

---
 src/ui/tui/trace/load.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/trace/load.rs b/src/ui/tui/trace/load.rs
index 48f020c..9ffd64f 100644
--- a/src/ui/tui/trace/load.rs
+++ b/src/ui/tui/trace/load.rs
@@ -70,7 +70,8 @@ pub fn show_loader(cursive: &mut Cursive, trace_path: impl AsRef<Path>) {
                             |state| state.processing_thread.get_all_activities(),
                         );
                     }))
-                    .expect("Failed to send callback to main thread");
+                    // If this fails, the user has quit and no one cares anymore
+                    .ok();
             });
     });
 }
-- 
2.43.0


From 54f363035d20a2133485e164e03b9a35592f7ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:56 +0000
Subject: [PATCH 40/49] fix: do not invent an age for build profiles from the
 future

---
 src/ui/tui/create.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ui/tui/create.rs b/src/ui/tui/create.rs
index b1c12fa..035839c 100644
--- a/src/ui/tui/create.rs
+++ b/src/ui/tui/create.rs
@@ -40,9 +40,9 @@ impl CreatePrompt {
             // might still be because we are not omniscient. Prompt if it's older
             // than one minute and we're using the default path (not manual choice)
             ProductFreshness::MaybeOutdated(age) => {
-                let age_mins = age.map(|d| d.as_secs() / 60).unwrap_or(u64::MAX);
-                if age_mins > 0 && !manually_specified {
-                    Some(CreatePrompt::maybe_stale_build_profile(Some(age_mins)))
+                let age_mins = age.map(|d| d.as_secs() / 60);
+                if age_mins != Some(0) && !manually_specified {
+                    Some(CreatePrompt::maybe_stale_build_profile(age_mins))
                 } else {
                     None
                 }
-- 
2.43.0


From 682055a772fd50376c18cb1bcd0a15781238c444 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:58 +0000
Subject: [PATCH 41/49] fix: do not crash when profiling a build without any
 file

---
 src/ui/tui/build/measure.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ui/tui/build/measure.rs b/src/ui/tui/build/measure.rs
index 52564f9..59a6ad0 100644
--- a/src/ui/tui/build/measure.rs
+++ b/src/ui/tui/build/measure.rs
@@ -79,7 +79,8 @@ pub fn measure_profile(
                     ))
                     .child(
                         ProgressBar::new()
-                            .max(compilation_database.entries().count())
+                            // ProgressBar cannot handle an empty range
+                            .max(compilation_database.entries().count().max(1))
                             .with_value(progress_counter),
                     ),
             )
-- 
2.43.0


From e49f59e0eba3c69c2fa2efbcb98e26a9b9f7df11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:16 +0000
Subject: [PATCH 42/49] fix: do not crash when writing a report to a terminal
 of unknown size

---
 src/ui/stdio.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ui/stdio.rs b/src/ui/stdio.rs
index 7d33012..c9c5860 100644
--- a/src/ui/stdio.rs
+++ b/src/ui/stdio.rs
@@ -31,8 +31,10 @@ pub fn run(args: CliArgs) {
         );
     };
 
-    // Determine column budget
+    // Determine column budget (terminals of unknown size report a width of 0)
     let max_cols = termion::terminal_size()
+        .ok()
+        .filter(|(width, _height)| *width > 0)
         .map(|(width, _height)| width.min(args.max_cols))
         .unwrap_or(args.max_cols);
 
-- 
2.43.0


From e2e072b29f03fda4698da2e70e209a133c200336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:52 +0000
Subject: [PATCH 43/49] fix: report excessively long C++ names and file paths
 as errors instead of panicking

---
 asylum/src/lib.rs                            | 15 +++++---
 asylum/src/path.rs                           | 12 +++++--
 asylum/src/sequence.rs                       | 37 +++++++++++++++-----
 cpparser/src/interning/recursion.rs          | 19 +++++++++-
 cpparser/src/subparsers/functions.rs         | 13 ++++---
 cpparser/src/subparsers/names/atoms.rs       |  6 +++-
 cpparser/src/subparsers/names/scopes.rs      | 21 +++++------
 cpparser/src/subparsers/templates.rs         |  5 +--
 cpparser/src/subparsers/types/declarators.rs | 20 ++++++-----
 cpparser/src/subparsers/types/mod.rs         | 19 +++++-----
 cpparser/src/subparsers/values/mod.rs        | 12 ++++---
 11 files changed, 123 insertions(+), 56 deletions(-)

diff --git a/asylum/src/lib.rs b/asylum/src/lib.rs
index d76d36f..0b3f20b 100644
--- a/asylum/src/lib.rs
+++ b/asylum/src/lib.rs
@@ -111,7 +111,15 @@ impl<Item: Clone + Eq + Hash, K: Key> Interner<Item, K> {
     /// comparison, as it is guaranteed that two keys are the same if and only
     /// if the underlying items are the same.
     ///
+    /// Panics if there are too many items, use `try_intern()` to handle this.
+    ///
     pub fn intern(&mut self, item: Item) -> K {
+        self.try_intern(item)
+            .expect("Key space exhausted, must use a larger K")
+    }
+
+    /// Like `intern()`, but returns None if the key space is exhausted
+    pub fn try_intern(&mut self, item: Item) -> Option<K> {
         // Hash the item
         let item_hash = self.random_state.hash_one(&item);
 
@@ -119,17 +127,16 @@ impl<Item: Clone + Eq + Hash, K: Key> Interner<Item, K> {
         self.keys
             .get(item_hash, |key| self.items[key.into_usize()] == item)
             .cloned()
-            .unwrap_or_else(|| {
+            .or_else(|| {
                 // Push new item back, use its position as a key
-                let key = K::try_from_usize(self.items.len())
-                    .expect("Key space exhausted, must use a larger K");
+                let key = K::try_from_usize(self.items.len())?;
                 self.items.push(item);
 
                 // Take note that this item was interned
                 self.keys.insert(item_hash, key, |key| {
                     self.random_state.hash_one(&self.items[key.into_usize()])
                 });
-                key
+                Some(key)
             })
     }
 
diff --git a/asylum/src/path.rs b/asylum/src/path.rs
index 504b86f..ef47a8b 100644
--- a/asylum/src/path.rs
+++ b/asylum/src/path.rs
@@ -258,7 +258,11 @@ impl<ComponentKey: Key + Hash, PK: InternerKey<ImplKey = Range<usize>>>
                         .as_os_str()
                         .to_str()
                         .expect("Since this path comes from an &str, it must be valid Unicode");
-                    sequence.push(self.components.get_or_intern(component_str))
+                    let component_key = self
+                        .components
+                        .try_get_or_intern(component_str)
+                        .map_err(|_| PathError::KeySpaceExhausted)?;
+                    sequence.push(component_key)
                 }
                 ParentDir => {
                     // Do not erase root when resolving parents
@@ -271,7 +275,7 @@ impl<ComponentKey: Key + Hash, PK: InternerKey<ImplKey = Range<usize>>>
         }
 
         // Intern the sequence that makes up the path
-        Ok(sequence.intern())
+        sequence.try_intern().ok_or(PathError::KeySpaceExhausted)
     }
 
     /// Retrieve a previously interned path
@@ -347,6 +351,10 @@ pub enum PathError {
     ///
     #[error("Expected an absolute file path, got {0:?}")]
     RelativePath(Box<Path>),
+
+    /// File path has too many components, or there are too many file paths
+    #[error("Encountered an excessively long file path, or too many of them")]
+    KeySpaceExhausted,
 }
 
 #[cfg(test)]
diff --git a/asylum/src/sequence.rs b/asylum/src/sequence.rs
index 0e9a8aa..a630fdb 100644
--- a/asylum/src/sequence.rs
+++ b/asylum/src/sequence.rs
@@ -142,19 +142,28 @@ impl<Item: Clone + Eq + Hash, K: InternerKey<ImplKey = Range<usize>>> SequenceIn
     }
 
     /// Intern a new sequence
+    ///
+    /// Panics if the sequence is too long or there are too many sequences, use
+    /// `try_intern()` to handle this.
+    ///
     pub fn intern(&mut self, sequence: &[Item]) -> K {
+        self.try_intern(sequence)
+            .expect("Key space exhausted, must use a larger K")
+    }
+
+    /// Like `intern()`, but returns None if the key space is exhausted
+    pub fn try_intern(&mut self, sequence: &[Item]) -> Option<K> {
         // Hash the input sequence
         let hash = self.random_state.hash_one(sequence);
 
         // If this sequence was interned before, return the same key
-        self.get_sequence_key(hash, sequence).unwrap_or_else(|| {
+        self.get_sequence_key(hash, sequence).or_else(|| {
             // Otherwise intern the sequence
             let start = self.concatenated.len();
-            let key = K::try_from_impl_key(start..start + sequence.len())
-                .expect("Key space exhausted, must use a larger K");
+            let key = K::try_from_impl_key(start..start + sequence.len())?;
             self.concatenated.extend_from_slice(sequence);
             self.insert_sequence_key(hash, key);
-            key
+            Some(key)
         })
     }
 
@@ -258,23 +267,33 @@ impl<Item: Clone + Eq + Hash, K: InternerKey<ImplKey = Range<usize>>> SequenceEn
     }
 
     /// Finish the interning transaction
+    ///
+    /// Panics if the sequence is too long or there are too many sequences, use
+    /// `try_intern()` to handle this.
+    ///
     pub fn intern(self) -> K {
-        // Hash the input sequence and figure what its interning key would be
+        self.try_intern()
+            .expect("Key space exhausted, please use a bigger K")
+    }
+
+    /// Like `intern()`, but returns None if the key space is exhausted
+    pub fn try_intern(self) -> Option<K> {
+        // Hash the input sequence
         let sequence = &self.interner.concatenated[self.initial_concatenated_len..];
         let hash = self.interner.random_state.hash_one(sequence);
         let start = self.initial_concatenated_len;
-        let new_key = K::try_from_impl_key(start..start + sequence.len())
-            .expect("Key space exhausted, please use a bigger K");
 
         // If this sequence was interned before, return the same key
         if let Some(old_key) = self.interner.get_sequence_key(hash, sequence) {
-            old_key
+            Some(old_key)
         } else {
+            let new_key = K::try_from_impl_key(start..start + sequence.len())?;
+
             // Otherwise, intern the sequence, and inhibit drop so that the
             // items that we just interned are not discarded
             self.interner.insert_sequence_key(hash, new_key);
             std::mem::forget(self);
-            new_key
+            Some(new_key)
         }
     }
 }
diff --git a/cpparser/src/interning/recursion.rs b/cpparser/src/interning/recursion.rs
index 43673cb..3f76a76 100644
--- a/cpparser/src/interning/recursion.rs
+++ b/cpparser/src/interning/recursion.rs
@@ -90,6 +90,11 @@ impl<Item: Clone + Eq + Hash, Key: InternerKey<ImplKey = Range<usize>>> Default
     }
 }
 
+/// Error indicating that a sequence is too long to be interned, or that too many
+/// entities were interned already
+#[derive(Clone, Copy, Debug, Eq, PartialEq)]
+pub struct KeySpaceExhausted;
+
 /// Mechanism to gradually intern a sequence element by element
 pub struct SequenceEntry<
     'interner,
@@ -112,12 +117,24 @@ impl<Item: Clone + Eq + Hash, Key: InternerKey<ImplKey = Range<usize>>>
     }
 
     /// Finish the interning transaction
+    ///
+    /// Panics if the sequence is too long or there are too many sequences, use
+    /// `try_intern()` to handle this.
+    ///
+    #[allow(unused)]
     pub fn intern(self) -> Key {
+        self.try_intern()
+            .expect("Key space exhausted, must use a larger Key")
+    }
+
+    /// Like `intern()`, but reports key space exhaustion
+    pub fn try_intern(self) -> Result<Key, KeySpaceExhausted> {
         self.interner
             .0
             .borrow_mut()
             .interner
-            .intern(&self.sequence[..])
+            .try_intern(&self.sequence[..])
+            .ok_or(KeySpaceExhausted)
     }
 }
 //
diff --git a/cpparser/src/subparsers/functions.rs b/cpparser/src/subparsers/functions.rs
index 368c64b..6f07ee1 100644
--- a/cpparser/src/subparsers/functions.rs
+++ b/cpparser/src/subparsers/functions.rs
@@ -84,9 +84,10 @@ impl EntityParser {
                 entry
             },
         )
-        .map(|entry| entry.intern());
+        .map_res_cut(|entry| entry.try_intern());
 
-        let empty_parameters = char(')').map(|_| self.function_arguments.entry().intern());
+        let empty_parameters =
+            char(')').map_res_cut(|_| self.function_arguments.entry().try_intern());
 
         preceded(arguments_header, non_empty_parameters.or(empty_parameters)).parse(s)
     }
@@ -202,10 +203,12 @@ impl EntityParser {
             },
         )
         .verify(|(_entry, _ellipsis, bad)| !bad)
-        .map(|(entry, ellipsis, _bad)| (entry.intern(), ellipsis));
+        .map_res_cut(|(entry, ellipsis, _bad)| entry.try_intern().map(|key| (key, ellipsis)));
 
-        let empty_parameters =
-            char(')').map(|_| (self.function_parameters.entry().intern(), false));
+        let empty_parameters = char(')').map_res_cut(|_| {
+            let key = self.function_parameters.entry().try_intern();
+            key.map(|key| (key, false))
+        });
 
         preceded(arguments_header, non_empty_parameters.or(empty_parameters))
             .map(|(parameters, variadic)| FunctionParameterSet {
diff --git a/cpparser/src/subparsers/names/atoms.rs b/cpparser/src/subparsers/names/atoms.rs
index 0783ca0..025d69a 100644
--- a/cpparser/src/subparsers/names/atoms.rs
+++ b/cpparser/src/subparsers/names/atoms.rs
@@ -75,7 +75,11 @@ impl EntityParser {
         input: &'input str,
     ) -> IResult<'input, IdentifierKey> {
         let (rest, id) = identifier(input)?;
-        let id_key = self.identifiers.borrow_mut().get_or_intern(id);
+        let id_key = self
+            .identifiers
+            .borrow_mut()
+            .try_get_or_intern(id)
+            .map_err(|_| nom::Err::Failure(Error::new(input, ErrorKind::TooLarge)))?;
         Ok((rest, id_key))
     }
 
diff --git a/cpparser/src/subparsers/names/scopes.rs b/cpparser/src/subparsers/names/scopes.rs
index 19128da..397b118 100644
--- a/cpparser/src/subparsers/names/scopes.rs
+++ b/cpparser/src/subparsers/names/scopes.rs
@@ -11,10 +11,10 @@ use crate::{
         functions::{FunctionSignature, FunctionSignatureView},
         types::qualifiers::{ConstVolatile, Reference},
     },
-    EntityParser, IResult,
+    EntityParser, Error, IResult,
 };
 use asylum::{lasso::Spur, sequence::SequenceKey};
-use nom::Parser;
+use nom::{error::ErrorKind, Parser};
 use nom_supreme::ParserExt;
 use std::fmt::{self, Display, Formatter};
 
@@ -110,14 +110,11 @@ impl EntityParser {
 
         // Parse sequence of scope_or_unqualified_id, accumulating scopes
         let mut scopes = self.scope_sequences.entry();
-        let make_output = |scopes: SequenceEntry<Scope, ScopesKey>, id_opt| {
-            (
-                NestedNameSpecifier {
-                    rooted,
-                    scopes: scopes.intern(),
-                },
-                id_opt,
-            )
+        let make_output = |rest, scopes: SequenceEntry<Scope, ScopesKey>, id_opt| {
+            let scopes = scopes
+                .try_intern()
+                .map_err(|_| nom::Err::Failure(Error::new(rest, ErrorKind::TooLarge)))?;
+            Ok((rest, (NestedNameSpecifier { rooted, scopes }, id_opt)))
         };
         //
         while let Ok((rest, scope_or_id)) = self.parse_scope_or_unqualified_id_imut(input) {
@@ -128,7 +125,7 @@ impl EntityParser {
                 // If a trailing UnqualifiedId is found, we reached the end of the
                 // grammar, return it + input string to allow backtracking
                 ScopeOrUnqualifiedId::UnqualifiedId(id) => {
-                    return Ok((rest, make_output(scopes, Some((input, id)))));
+                    return make_output(rest, scopes, Some((input, id)));
                 }
             }
 
@@ -138,7 +135,7 @@ impl EntityParser {
 
         // If control reaches this point, no trailing unqualified-id was found, the
         // scope list ended on its own
-        Ok((input, make_output(scopes, None)))
+        make_output(input, scopes, None)
     }
 
     /// Access a previously parsed sequence of scopes
diff --git a/cpparser/src/subparsers/templates.rs b/cpparser/src/subparsers/templates.rs
index 5bcf031..ad8ecc2 100644
--- a/cpparser/src/subparsers/templates.rs
+++ b/cpparser/src/subparsers/templates.rs
@@ -63,9 +63,10 @@ impl EntityParser {
                 entry
             },
         )
-        .map(|entry| entry.intern());
+        .map_res_cut(|entry| entry.try_intern());
 
-        let empty_arguments = char('>').map(|_| self.template_parameter_lists.entry().intern());
+        let empty_arguments =
+            char('>').map_res_cut(|_| self.template_parameter_lists.entry().try_intern());
 
         let invalid_arguments = tag(", void>");
 
diff --git a/cpparser/src/subparsers/types/declarators.rs b/cpparser/src/subparsers/types/declarators.rs
index ab8530a..88ba453 100644
--- a/cpparser/src/subparsers/types/declarators.rs
+++ b/cpparser/src/subparsers/types/declarators.rs
@@ -56,7 +56,7 @@ impl EntityParser {
                 acc
             },
         )
-        .map(|entry| entry.intern())
+        .map_res_cut(|entry| entry.try_intern())
         .parse(s)
     }
 
@@ -110,12 +110,15 @@ impl EntityParser {
             .map(|(cv1, restrict, cv2)| (cv1 | cv2, restrict))
         };
         let mut basic_pointer =
-            preceded(char('*').and(multispace0), cv_restrict()).map(|(cv, restrict)| {
-                DeclOperator::Pointer {
-                    path: self.scope_sequences.entry().intern().into(),
-                    cv,
-                    restrict,
-                }
+            preceded(char('*').and(multispace0), cv_restrict()).map_res_cut(|(cv, restrict)| {
+                self.scope_sequences
+                    .entry()
+                    .try_intern()
+                    .map(|path| DeclOperator::Pointer {
+                        path: path.into(),
+                        cv,
+                        restrict,
+                    })
             });
 
         // The member pointer declarator is very exotic (2/1M parses) and harder to
@@ -138,7 +141,8 @@ impl EntityParser {
         // Parenthesized declarator (to override operator priorities)
         let parenthesized = delimited(
             char('(').and(multispace0),
-            (|s| self.parse_declarator_imut(s)).verify(|d| d != &self.declarators.entry().intern()),
+            (|s| self.parse_declarator_imut(s))
+                .verify(|&d| Ok(d) != self.declarators.entry().try_intern()),
             multispace0.and(char(')')),
         )
         .map(DeclOperator::Parenthesized);
diff --git a/cpparser/src/subparsers/types/mod.rs b/cpparser/src/subparsers/types/mod.rs
index e0ab11c..b2c6aa9 100644
--- a/cpparser/src/subparsers/types/mod.rs
+++ b/cpparser/src/subparsers/types/mod.rs
@@ -10,7 +10,7 @@ use self::{
 };
 use crate::{
     display::{CustomDisplay, DisplayState},
-    interning::slice::SliceItemView,
+    interning::{recursion::KeySpaceExhausted, slice::SliceItemView},
     subparsers::functions::{FunctionArgumentsKey, FunctionArgumentsView},
     EntityParser, IResult,
 };
@@ -55,7 +55,7 @@ impl EntityParser {
             |s| self.parse_function_call_imut(s),
             char(')'),
         ))
-        .map(|opt| opt.unwrap_or_else(|| self.function_arguments.entry().intern()));
+        .map_res_cut(|opt| opt.map_or_else(|| self.function_arguments.entry().try_intern(), Ok));
 
         // Then come the type specifier and declarator
         tuple((
@@ -63,12 +63,15 @@ impl EntityParser {
             (|s| self.parse_type_specifier_imut(s)).terminated(multispace0),
             |s| self.parse_declarator_imut(s),
         ))
-        .map(|(attributes, type_specifier, declarator)| {
-            self.types.borrow_mut().intern(TypeLike {
-                attributes,
-                type_specifier,
-                declarator,
-            })
+        .map_res_cut(|(attributes, type_specifier, declarator)| {
+            self.types
+                .borrow_mut()
+                .try_intern(TypeLike {
+                    attributes,
+                    type_specifier,
+                    declarator,
+                })
+                .ok_or(KeySpaceExhausted)
         })
         .parse(s)
     }
diff --git a/cpparser/src/subparsers/values/mod.rs b/cpparser/src/subparsers/values/mod.rs
index 5d6ac60..5166a91 100644
--- a/cpparser/src/subparsers/values/mod.rs
+++ b/cpparser/src/subparsers/values/mod.rs
@@ -5,7 +5,10 @@ pub mod literals;
 use self::literals::{Literal, LiteralValue, LiteralView};
 use crate::{
     display::{CustomDisplay, DisplayState},
-    interning::slice::{SliceItemView, SliceView},
+    interning::{
+        recursion::KeySpaceExhausted,
+        slice::{SliceItemView, SliceView},
+    },
     subparsers::{
         functions::{FunctionArgumentsKey, FunctionArgumentsView},
         names::{
@@ -87,14 +90,15 @@ impl EntityParser {
                 entry
             },
         )
-        .map(|entry| entry.intern());
+        .map_res_cut(|entry| entry.try_intern());
 
         (|s| self.parse_value_header_imut(s, allow_comma, allow_greater))
             .and(value_trailer)
-            .map(|(header, trailer)| {
+            .map_res_cut(|(header, trailer)| {
                 self.values
                     .borrow_mut()
-                    .intern(ValueLike { header, trailer })
+                    .try_intern(ValueLike { header, trailer })
+                    .ok_or(KeySpaceExhausted)
             })
             .parse(s)
     }
-- 
2.43.0


From 248bbeae59ef8131e67b204cbce3e4c98f240a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:31 +0000
Subject: [PATCH 44/49] fix: cope with build profiles where some files have no
 valid wall-time

---
 src/ui/tui/build/display.rs | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index f7dddbb..473de3d 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -28,10 +28,7 @@ pub fn display_profile(
     profile: BuildProfile,
 ) {
     // Determine if the profile contains wall-clock time information
-    let has_walltime = profile
-        .first()
-        .map(|unit| unit.wall_time().is_some())
-        .unwrap_or(false);
+    let has_walltime = profile.iter().any(|unit| unit.wall_time().is_some());
 
     // Check terminal dimensions
     let (terminal_width, terminal_height) =
@@ -124,13 +121,10 @@ impl TableViewItem<ProfileColumn> for UnitProfile {
     fn to_column(&self, column: ProfileColumn) -> String {
         match column {
             ProfileColumn::MaxRSS => format!("{:.2} GB", self.max_rss_bytes() as f32 / 1e9),
-            ProfileColumn::WallTime => format!(
-                "{:.1}s",
-                self.wall_time()
-                    .expect("Wall-time should be present if this is probed")
-                    .map(|dur| dur.as_secs_f32())
-                    .unwrap_or_else(|raw_secs| raw_secs)
-            ),
+            // Not every unit of a profile needs to have a wall-time measurement
+            ProfileColumn::WallTime => wall_time_secs(self)
+                .map(|secs| format!("{secs:.1}s"))
+                .unwrap_or_default(),
             ProfileColumn::RelPath(cols) => truncate_path_iter(
                 self.rel_path()
                     .components()
@@ -147,12 +141,20 @@ impl TableViewItem<ProfileColumn> for UnitProfile {
     {
         match column {
             ProfileColumn::MaxRSS => self.max_rss_bytes().cmp(&other.max_rss_bytes()),
-            ProfileColumn::WallTime => self
-                .wall_time()
-                .zip(other.wall_time())
-                .map(|(x, y)| x.partial_cmp(&y).expect("Failed to compare wall-time"))
-                .expect("Wall-time should be present if this is probed"),
+            // Wall-times that are not a proper duration (e.g. NaN) must be orderable
+            ProfileColumn::WallTime => match (wall_time_secs(self), wall_time_secs(other)) {
+                (Some(x), Some(y)) => x.total_cmp(&y),
+                (x, y) => x.is_some().cmp(&y.is_some()),
+            },
             ProfileColumn::RelPath(_cols) => self.rel_path().cmp(other.rel_path()),
         }
     }
 }
+
+/// Elapsed wall-clock time in seconds, if it was recorded
+fn wall_time_secs(unit: &UnitProfile) -> Option<f32> {
+    unit.wall_time().map(|time| {
+        time.map(|dur| dur.as_secs_f32())
+            .unwrap_or_else(|raw_secs| raw_secs)
+    })
+}
-- 
2.43.0


From e83d7a3f94e5ccfe1e3f277d3332140b22d2af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:31 +0000
Subject: [PATCH 45/49] fix: display traces whose beginning of time is not a
 valid date instead of panicking

---
 src/ui/display/metadata.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ui/display/metadata.rs b/src/ui/display/metadata.rs
index 9b4e817..9b1220e 100644
--- a/src/ui/display/metadata.rs
+++ b/src/ui/display/metadata.rs
@@ -49,11 +49,12 @@ pub fn metadata(trace: &ClangTrace, max_cols: u16) -> String {
     }
     if let Some(bot) = trace.beginning_of_time() {
         let mut display = "recorded ".to_owned();
-        let bot = OffsetDateTime::from_unix_timestamp_nanos((bot / MICROSECOND) as i128 * 1000)
-            .unwrap()
-            .format(&Rfc3339)
-            .unwrap();
-        display.push_str(&bot);
+        // Not every number of microseconds is a date with a year from 0 to 9999
+        let nanos = ((bot / MICROSECOND) as i128).saturating_mul(1000);
+        let bot = OffsetDateTime::from_unix_timestamp_nanos(nanos)
+            .ok()
+            .and_then(|bot| bot.format(&Rfc3339).ok());
+        display.push_str(bot.as_deref().unwrap_or("at an unknown date"));
         display_more(&mut buf, display);
     }
     buf.push('.');
-- 
2.43.0


From 5f5276ace180823631a221c3871b1bd2058f0fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:48 +0000
Subject: [PATCH 46/49] fix: display control characters of labels as spaces
 instead of panicking or breaking lines

---
 src/ui/display/mod.rs       | 16 +++++++++++++---
 src/ui/display/path.rs      |  4 ++--
 src/ui/tui/build/display.rs |  4 ++--
 3 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/ui/display/mod.rs b/src/ui/display/mod.rs
index d82a5d2..cd630b3 100644
--- a/src/ui/display/mod.rs
+++ b/src/ui/display/mod.rs
@@ -1,6 +1,6 @@
 //! Generic utilities to display things
 
-use std::io;
+use std::{borrow::Cow, io};
 use unicode_segmentation::UnicodeSegmentation;
 use unicode_width::UnicodeWidthStr;
 
@@ -39,8 +39,18 @@ pub enum DisplayConfig {
     },
 }
 
+/// Replace the control characters of a string, such as line feeds, by spaces so
+/// that they do not disrupt a single-line display
+pub fn single_line(input: &str) -> Cow<'_, str> {
+    if input.chars().any(char::is_control) {
+        input.replace(char::is_control, " ").into()
+    } else {
+        input.into()
+    }
+}
+
 /// Truncate a string so that it only eats up n columns, by eating up the middle
-/// Assumes absence of line feeds in the input string.
+/// Control characters such as line feeds are displayed as spaces.
 pub fn display_string(
     mut output: impl io::Write,
     input: &str,
@@ -51,12 +61,12 @@ pub fn display_string(
         DisplayConfig::SingleLine { max_cols } => max_cols,
         DisplayConfig::MultiLine { .. } => return write!(output, "{input}"),
     } as usize;
+    let input = &*single_line(input);
     if input.width() <= max_cols {
         return write!(output, "{input}");
     }
 
     // Make sure the request makes sense
-    debug_assert!(input.chars().all(|c| c != '\r' && c != '\n'));
     assert!(max_cols >= 1);
 
     // Split our column budget into a header and trailer
diff --git a/src/ui/display/path.rs b/src/ui/display/path.rs
index 14c4ad8..ac1dc03 100644
--- a/src/ui/display/path.rs
+++ b/src/ui/display/path.rs
@@ -1,6 +1,6 @@
 //! File path handling
 
-use super::DisplayConfig;
+use super::{single_line, DisplayConfig};
 use clang_time_trace::InternedPath;
 use std::{path::MAIN_SEPARATOR as PATH_SEPARATOR, sync::OnceLock};
 use unicode_segmentation::UnicodeSegmentation;
@@ -24,7 +24,7 @@ use unicode_width::UnicodeWidthStr;
 pub fn display_path(path: &InternedPath, config: DisplayConfig) -> Box<str> {
     match config {
         DisplayConfig::SingleLine { max_cols } => {
-            truncate_path_iter(path.components().map(|c| c.value()), max_cols)
+            truncate_path_iter(path.components().map(|c| single_line(c.value())), max_cols)
         }
         DisplayConfig::MultiLine { .. } => path.to_boxed_path().display().to_string().into(),
     }
diff --git a/src/ui/tui/build/display.rs b/src/ui/tui/build/display.rs
index 473de3d..307332e 100644
--- a/src/ui/tui/build/display.rs
+++ b/src/ui/tui/build/display.rs
@@ -2,7 +2,7 @@
 
 use crate::{
     ui::{
-        display::path::truncate_path_iter,
+        display::{path::truncate_path_iter, single_line},
         tui::{names::ViewName::FullBuildProfile, trace, with_state},
     },
     CliArgs,
@@ -128,7 +128,7 @@ impl TableViewItem<ProfileColumn> for UnitProfile {
             ProfileColumn::RelPath(cols) => truncate_path_iter(
                 self.rel_path()
                     .components()
-                    .map(|s| s.as_os_str().to_string_lossy()),
+                    .map(|s| single_line(&s.as_os_str().to_string_lossy()).into_owned()),
                 cols,
             )
             .into(),
-- 
2.43.0


From 26d37f5ec646c992c3f77e0e6399b7adc67aacfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:58:49 +0000
Subject: [PATCH 47/49] fix: find source files that are links or are located in
 linked directories in the compilation database

---
 src/ui/tui/trace/measure.rs | 37 ++++++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/src/ui/tui/trace/measure.rs b/src/ui/tui/trace/measure.rs
index ae0b2e4..9259065 100644
--- a/src/ui/tui/trace/measure.rs
+++ b/src/ui/tui/trace/measure.rs
@@ -1,13 +1,13 @@
 //! Wizard that guides the user through the process of measuring a time-trace
 
 use crate::ui::tui::{create::CreatePrompt, trace, with_state};
-use cmakeperf::commands::CompilationDatabase;
+use cmakeperf::commands::{CompilationDatabase, DatabaseEntry};
 use cursive::{views::Dialog, Cursive};
 use std::{
     fmt::Write,
     io::{self, Read},
     num::NonZeroU32,
-    path::Path,
+    path::{Component, Path},
     process::{Child, Command, ExitStatus, Stdio},
     sync::{
         atomic::{self, AtomicBool, Ordering},
@@ -40,7 +40,7 @@ pub fn show_wizard(
     };
 
     // Find the compilation database entry for the target file
-    let entry = match compilation_database.entry(&abs_path) {
+    let entry = match find_entry(compilation_database, rel_path, &abs_path) {
         Some(entry) => entry,
         None => {
             cursive.add_layer(Dialog::info(format!(
@@ -105,6 +105,37 @@ pub fn show_wizard(
     }
 }
 
+/// Find the compilation database entry of a source file
+///
+/// Source files may be links, or be located in a linked directory, and several
+/// of them may lead to the same file. So a file is first looked up under its own
+/// name, and only then by following links.
+///
+fn find_entry<'db>(
+    compilation_database: &'db CompilationDatabase,
+    rel_path: &Path,
+    abs_path: &Path,
+) -> Option<&'db DatabaseEntry> {
+    let mut own_path = std::env::current_dir().unwrap_or_default();
+    for component in rel_path.components() {
+        match component {
+            Component::CurDir => {}
+            Component::ParentDir => {
+                own_path.pop();
+            }
+            component => own_path.push(component),
+        }
+    }
+    compilation_database
+        .entry(&own_path)
+        .or_else(|| compilation_database.entry(abs_path))
+        .or_else(|| {
+            compilation_database
+                .entries()
+                .find(|entry| matches!(entry.input().canonicalize(), Ok(path) if path == abs_path))
+        })
+}
+
 /// Start measuring a clang time-trace
 pub fn start_measure(cursive: &mut Cursive, command: Command, output_path: Box<Path>) {
     // Back up the previous measurement, if any
-- 
2.43.0


From a120b032335618922604b99c9e3e4f6d599bc0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:23 +0000
Subject: [PATCH 48/49] fix: accept the symbols that clang passes to
 CoroSplitPass and OpenMPOptCGSCCPass instead of rejecting the trace

---
 clang-time-trace/src/stats/activity/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/clang-time-trace/src/stats/activity/mod.rs b/clang-time-trace/src/stats/activity/mod.rs
index dc9c1cf..f606d29 100644
--- a/clang-time-trace/src/stats/activity/mod.rs
+++ b/clang-time-trace/src/stats/activity/mod.rs
@@ -344,7 +344,7 @@ generate_activities! {
     "CoroCleanupPass" => (CoroCleanupPass, Symbol),
     "CoroEarlyPass" => (CoroEarlyPass, Symbol),
     "CoroElidePass" => (CoroElidePass, Symbol),
-    "CoroSplitPass" => (CoroSplitPass, Nothing),
+    "CoroSplitPass" => (CoroSplitPass, SymbolOpt),
     "CorrelatedValuePropagationPass" => (CorrelatedValuePropagationPass, Symbol),
     "DeadArgumentEliminationPass" => (DeadArgumentEliminationPass, FilePathOrModule),
     "DebugConstGlobalVariable" => (DebugConstGlobalVariable, CppEntity),
@@ -404,7 +404,7 @@ generate_activities! {
     "ModuleInlinerWrapperPass" => (ModuleInlinerWrapperPass, FilePathOrModule),
     "ModuleToFunctionPassAdaptor" => (ModuleToFunctionPassAdaptor, FilePathOrModule),
     "ModuleToPostOrderCGSCCPassAdaptor" => (ModuleToPostOrderCGSCCPassAdaptor, FilePathOrModule),
-    "OpenMPOptCGSCCPass" => (OpenMPOptCGSCCPass, Nothing),
+    "OpenMPOptCGSCCPass" => (OpenMPOptCGSCCPass, SymbolOpt),
     "OpenMPOptPass" => (OpenMPOptPass, FilePathOrModule),
     "OptFunction" => (OptFunction, Symbol),
     "Optimizer" => (Optimizer, Nothing),
-- 
2.43.0


From bc161d2d8030d8d501c6937a9ca2d8ea3211db4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:17 +0000
Subject: [PATCH 49/49] fix: parse the character literals of the alert,
 backspace, vertical tab and form feed characters

---
 cpparser/src/subparsers/values/literals.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cpparser/src/subparsers/values/literals.rs b/cpparser/src/subparsers/values/literals.rs
index be8d0a6..fb45472 100644
--- a/cpparser/src/subparsers/values/literals.rs
+++ b/cpparser/src/subparsers/values/literals.rs
@@ -185,6 +185,10 @@ fn character(s: &str) -> IResult<char> {
     let escape_sequence = (char('t').value('\t'))
         .or(char('r').value('\r'))
         .or(char('n').value('\n'))
+        .or(char('a').value('\x07'))
+        .or(char('b').value('\x08'))
+        .or(char('v').value('\x0b'))
+        .or(char('f').value('\x0c'))
         .or(char('\''))
         .or(char('"'))
         .or(char('\\'))
-- 
2.43.0

