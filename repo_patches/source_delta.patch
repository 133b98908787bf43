From 3cfecea336c55688b97a16deee1f8d446cfd5460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:58 +0000
Subject: [PATCH 01/37] fix: parse boolean connectives of matchers by operator
 precedence

Expressions such as "a && b ^ c || d" were rejected, even though a
chain of connectives is well-formed at any length (&& binds tighter
than ^, which binds tighter than ||). Moreover every operand has been
parsed once per precedence level, so that the time to parse nested
groups was exponential in the nesting depth.
---
 src/matcher/field/parser.rs    | 112 +++++++++++++--------------------
 src/matcher/subfield/parser.rs | 102 ++++++++++++------------------
 2 files changed, 82 insertions(+), 132 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 7581149..011e610 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -259,13 +259,7 @@ fn parse_field_group_matcher(
 ) -> ModalResult<FieldMatcher> {
     delimited(
         terminated(ws('('), group_level_inc),
-        alt((
-            parse_field_composite_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_group_matcher,
-        )),
+        parse_field_or_matcher,
         ws(')').map(|_| group_level_dec()),
     )
     .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
@@ -289,94 +283,72 @@ fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
     .parse_next(i)
 }
 
-fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_xor_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
+/// Parses an operand of a boolean connective.
+fn parse_field_atom_matcher(
+    i: &mut &[u8],
+) -> ModalResult<FieldMatcher> {
+    ws(alt((
+        parse_field_group_matcher,
+        parse_field_cardinality_matcher,
+        parse_field_singleton_matcher,
+        parse_field_not_matcher,
+        parse_field_exists_matcher,
+    )))
+    .parse_next(i)
+}
 
-    (atom, repeat(1.., preceded(ws("||"), atom)))
+/// Parses a sequence of xor-expressions, which are connected by the
+/// `||` operator (lowest precedence).
+fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
+    (
+        parse_field_xor_matcher,
+        repeat(0.., preceded(ws("||"), parse_field_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
         .parse_next(i)
 }
 
+/// Parses a sequence of and-expressions, which are connected by the
+/// `^` (or `XOR`) operator.
 fn parse_field_xor_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_and_matcher,
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_field_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_field_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
         .parse_next(i)
 }
 
+/// Parses a sequence of operands, which are connected by the `&&`
+/// operator (highest precedence).
 fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<FieldMatcher> {
-        ws(alt((
-            parse_field_group_matcher,
-            parse_field_cardinality_matcher,
-            parse_field_singleton_matcher,
-            parse_field_not_matcher,
-            parse_field_exists_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(ws("&&"), atom)))
+    (
+        parse_field_atom_matcher,
+        repeat(0.., preceded(ws("&&"), parse_field_atom_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
         .parse_next(i)
 }
 
-#[inline(always)]
-fn parse_field_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<FieldMatcher> {
-    alt((
-        parse_field_or_matcher,
-        parse_field_xor_matcher,
-        parse_field_and_matcher,
-    ))
-    .parse_next(i)
-}
-
 /// Parse a [FieldMatcher] expression.
 pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    ws(alt((
-        parse_field_composite_matcher,
-        parse_field_group_matcher,
-        parse_field_not_matcher,
-        parse_field_singleton_matcher,
-        parse_field_cardinality_matcher,
-    )))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    ws(parse_field_or_matcher)
+        .map(|matcher| {
+            group_level_reset();
+            matcher
+        })
+        .parse_next(i)
 }
 
 #[cfg(test)]
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 6ee7d52..9c99594 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -312,12 +312,7 @@ fn parse_subfield_group_matcher(
 ) -> ModalResult<SubfieldMatcher> {
     delimited(
         terminated(ws('('), group_level_inc),
-        alt((
-            parse_subfield_composite_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-            parse_subfield_group_matcher,
-        )),
+        parse_subfield_or_matcher,
         ws(')').map(|_| group_level_dec),
     )
     .map(|m| SubfieldMatcher::Group(Box::new(m)))
@@ -350,92 +345,75 @@ fn parse_subfield_not_matcher(
     .parse_next(i)
 }
 
-fn parse_subfield_or_matcher(
+/// Parses an operand of a boolean connective.
+fn parse_subfield_atom_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_xor_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
+    ws(alt((
+        parse_subfield_group_matcher,
+        parse_subfield_singleton_matcher,
+        parse_subfield_not_matcher,
+    )))
+    .parse_next(i)
+}
 
-    (atom, repeat(1.., preceded("||", atom)))
+/// Parses a sequence of xor-expressions, which are connected by the
+/// `||` operator (lowest precedence).
+fn parse_subfield_or_matcher(
+    i: &mut &[u8],
+) -> ModalResult<SubfieldMatcher> {
+    (
+        parse_subfield_xor_matcher,
+        repeat(0.., preceded("||", parse_subfield_xor_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev | next)
         })
         .parse_next(i)
 }
 
+/// Parses a sequence of and-expressions, which are connected by the
+/// `^` (or `XOR`) operator.
 fn parse_subfield_xor_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_and_matcher,
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded(alt(("^", "XOR")), atom)))
+    (
+        parse_subfield_and_matcher,
+        repeat(
+            0..,
+            preceded(alt(("^", "XOR")), parse_subfield_and_matcher),
+        ),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev ^ next)
         })
         .parse_next(i)
 }
 
+/// Parses a sequence of operands, which are connected by the `&&`
+/// operator (highest precedence).
 fn parse_subfield_and_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    let atom = |i: &mut &[u8]| -> ModalResult<SubfieldMatcher> {
-        ws(alt((
-            parse_subfield_group_matcher,
-            parse_subfield_singleton_matcher,
-            parse_subfield_not_matcher,
-        )))
-        .parse_next(i)
-    };
-
-    (atom, repeat(1.., preceded("&&", atom)))
+    (
+        parse_subfield_atom_matcher,
+        repeat(0.., preceded("&&", parse_subfield_atom_matcher)),
+    )
         .map(|(head, tail): (_, Vec<_>)| {
             tail.into_iter().fold(head, |prev, next| prev & next)
         })
         .parse_next(i)
 }
 
-#[inline(always)]
-fn parse_subfield_composite_matcher(
-    i: &mut &[u8],
-) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_or_matcher,
-        parse_subfield_xor_matcher,
-        parse_subfield_and_matcher,
-    ))
-    .parse_next(i)
-}
-
 pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    alt((
-        parse_subfield_composite_matcher,
-        parse_subfield_singleton_matcher,
-        parse_subfield_group_matcher,
-        parse_subfield_not_matcher,
-    ))
-    .map(|matcher| {
-        group_level_reset();
-        matcher
-    })
-    .parse_next(i)
+    parse_subfield_or_matcher
+        .map(|matcher| {
+            group_level_reset();
+            matcher
+        })
+        .parse_next(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From e8dd713cc869194678e20e3e4b11164341433e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:19 +0000
Subject: [PATCH 02/37] fix: keep track of the group level of matchers
 correctly

The level was never decremented by the subfield matcher, and neither the
field nor the subfield matcher restored it if a group couldn't be
parsed. Hence valid expressions were rejected, depending on the number
of groups in the expression and on the expressions parsed before.
---
 src/matcher/field/parser.rs    | 51 +++++++++++++++-------------------
 src/matcher/subfield/parser.rs | 51 +++++++++++++++-------------------
 2 files changed, 44 insertions(+), 58 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 011e610..07ea69b 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -232,38 +232,36 @@ thread_local! {
         = const { RefCell::new(0) };
 }
 
-fn group_level_reset() {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
-}
-
-fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 256 {
+/// Applies `parser` one level deeper; the level is restored regardless
+/// of whether the parser succeeds or fails.
+fn nested<'a, O>(
+    mut parser: impl FnMut(&mut &'a [u8]) -> ModalResult<O>,
+) -> impl FnMut(&mut &'a [u8]) -> ModalResult<O> {
+    move |i: &mut &'a [u8]| {
+        let level = FIELD_MATCHER_GROUP_LEVEL.with(|level| {
+            *level.borrow_mut() += 1;
+            *level.borrow()
+        });
+
+        let result = if level >= 256 {
             Err(winnow::error::ErrMode::from_input(i))
         } else {
-            Ok(())
-        }
-    })
-}
+            parser(i)
+        };
 
-fn group_level_dec() {
-    FIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() -= 1;
-    })
+        FIELD_MATCHER_GROUP_LEVEL
+            .with(|level| *level.borrow_mut() -= 1);
+        result
+    }
 }
 
 #[inline]
 fn parse_field_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        parse_field_or_matcher,
-        ws(')').map(|_| group_level_dec()),
-    )
-    .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
-    .parse_next(i)
+    delimited(ws('('), nested(parse_field_or_matcher), ws(')'))
+        .map(|matcher| FieldMatcher::Group(Box::new(matcher)))
+        .parse_next(i)
 }
 
 #[inline]
@@ -343,12 +341,7 @@ fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
 pub(crate) fn parse_field_matcher(
     i: &mut &[u8],
 ) -> ModalResult<FieldMatcher> {
-    ws(parse_field_or_matcher)
-        .map(|matcher| {
-            group_level_reset();
-            matcher
-        })
-        .parse_next(i)
+    ws(parse_field_or_matcher).parse_next(i)
 }
 
 #[cfg(test)]
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 9c99594..9b700e8 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -285,38 +285,36 @@ thread_local! {
         = const { RefCell::new(0) };
 }
 
-fn group_level_reset() {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| *level.borrow_mut() = 0);
-}
-
-fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 256 {
+/// Applies `parser` one level deeper; the level is restored regardless
+/// of whether the parser succeeds or fails.
+fn nested<'a, O>(
+    mut parser: impl FnMut(&mut &'a [u8]) -> ModalResult<O>,
+) -> impl FnMut(&mut &'a [u8]) -> ModalResult<O> {
+    move |i: &mut &'a [u8]| {
+        let level = SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
+            *level.borrow_mut() += 1;
+            *level.borrow()
+        });
+
+        let result = if level >= 256 {
             Err(winnow::error::ErrMode::from_input(i))
         } else {
-            Ok(())
-        }
-    })
-}
+            parser(i)
+        };
 
-fn group_level_dec() {
-    SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() -= 1;
-    })
+        SUBFIELD_MATCHER_GROUP_LEVEL
+            .with(|level| *level.borrow_mut() -= 1);
+        result
+    }
 }
 
 #[inline(always)]
 fn parse_subfield_group_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    delimited(
-        terminated(ws('('), group_level_inc),
-        parse_subfield_or_matcher,
-        ws(')').map(|_| group_level_dec),
-    )
-    .map(|m| SubfieldMatcher::Group(Box::new(m)))
-    .parse_next(i)
+    delimited(ws('('), nested(parse_subfield_or_matcher), ws(')'))
+        .map(|m| SubfieldMatcher::Group(Box::new(m)))
+        .parse_next(i)
 }
 
 #[inline(always)]
@@ -408,12 +406,7 @@ fn parse_subfield_and_matcher(
 pub(crate) fn parse_subfield_matcher(
     i: &mut &[u8],
 ) -> ModalResult<SubfieldMatcher> {
-    parse_subfield_or_matcher
-        .map(|matcher| {
-            group_level_reset();
-            matcher
-        })
-        .parse_next(i)
+    parse_subfield_or_matcher.parse_next(i)
 }
 
 #[cfg(test)]
-- 
2.43.0


From b2b4ce331586fdc9ca8dac084f9333d03f5b38a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:05 +0000
Subject: [PATCH 03/37] fix: limit the nesting of negated matchers

A long chain of negations overflowed the stack and aborted the process.
Negations count towards the maximum group level now.
---
 src/matcher/field/parser.rs    | 12 ++++++------
 src/matcher/subfield/parser.rs | 12 ++++++------
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index 07ea69b..caa2a84 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -5,7 +5,7 @@ use winnow::ascii::digit1;
 use winnow::combinator::{
     alt, delimited, opt, preceded, repeat, terminated,
 };
-use winnow::error::ParserError;
+use winnow::error::{ContextError, ErrMode, ParserError};
 use winnow::{ModalResult, Parser};
 
 use super::{
@@ -235,7 +235,7 @@ thread_local! {
 /// Applies `parser` one level deeper; the level is restored regardless
 /// of whether the parser succeeds or fails.
 fn nested<'a, O>(
-    mut parser: impl FnMut(&mut &'a [u8]) -> ModalResult<O>,
+    mut parser: impl Parser<&'a [u8], O, ErrMode<ContextError>>,
 ) -> impl FnMut(&mut &'a [u8]) -> ModalResult<O> {
     move |i: &mut &'a [u8]| {
         let level = FIELD_MATCHER_GROUP_LEVEL.with(|level| {
@@ -244,9 +244,9 @@ fn nested<'a, O>(
         });
 
         let result = if level >= 256 {
-            Err(winnow::error::ErrMode::from_input(i))
+            Err(ErrMode::from_input(i))
         } else {
-            parser(i)
+            parser.parse_next(i)
         };
 
         FIELD_MATCHER_GROUP_LEVEL
@@ -268,14 +268,14 @@ fn parse_field_group_matcher(
 fn parse_field_not_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
     preceded(
         ws('!'),
-        alt((
+        nested(alt((
             parse_field_group_matcher,
             parse_subfields_matcher_bracket
                 .map(SingletonMatcher::Subfields)
                 .map(FieldMatcher::Singleton),
             parse_field_exists_matcher,
             parse_field_not_matcher,
-        )),
+        ))),
     )
     .map(|matcher| FieldMatcher::Not(Box::new(matcher)))
     .parse_next(i)
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 9b700e8..f9665b1 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -7,7 +7,7 @@ use winnow::ascii::{digit1, multispace1};
 use winnow::combinator::{
     alt, delimited, opt, preceded, repeat, separated, terminated,
 };
-use winnow::error::ParserError;
+use winnow::error::{ContextError, ErrMode, ParserError};
 use winnow::prelude::*;
 
 use super::{
@@ -288,7 +288,7 @@ thread_local! {
 /// Applies `parser` one level deeper; the level is restored regardless
 /// of whether the parser succeeds or fails.
 fn nested<'a, O>(
-    mut parser: impl FnMut(&mut &'a [u8]) -> ModalResult<O>,
+    mut parser: impl Parser<&'a [u8], O, ErrMode<ContextError>>,
 ) -> impl FnMut(&mut &'a [u8]) -> ModalResult<O> {
     move |i: &mut &'a [u8]| {
         let level = SUBFIELD_MATCHER_GROUP_LEVEL.with(|level| {
@@ -297,9 +297,9 @@ fn nested<'a, O>(
         });
 
         let result = if level >= 256 {
-            Err(winnow::error::ErrMode::from_input(i))
+            Err(ErrMode::from_input(i))
         } else {
-            parser(i)
+            parser.parse_next(i)
         };
 
         SUBFIELD_MATCHER_GROUP_LEVEL
@@ -333,11 +333,11 @@ fn parse_subfield_not_matcher(
 ) -> ModalResult<SubfieldMatcher> {
     preceded(
         ws('!'),
-        alt((
+        nested(alt((
             parse_subfield_group_matcher,
             parse_subfield_exists_matcher,
             parse_subfield_not_matcher,
-        )),
+        ))),
     )
     .map(|matcher| SubfieldMatcher::Not(Box::new(matcher)))
     .parse_next(i)
-- 
2.43.0


From 2f8c0af65876a8334ed9a7b04628eec9d7fa8c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:53 +0000
Subject: [PATCH 04/37] fix: restore the group level of format expressions

The group level leaked if a group couldn't be parsed, so that valid
format expressions were rejected after a number of failed attempts.
Lists are parsed by precedence, because the time to parse nested groups
would be exponential in the nesting depth otherwise.
---
 src/fmt/parser.rs | 119 ++++++++++++++++++++++++----------------------
 1 file changed, 61 insertions(+), 58 deletions(-)

diff --git a/src/fmt/parser.rs b/src/fmt/parser.rs
index 8882592..e5a0dc0 100644
--- a/src/fmt/parser.rs
+++ b/src/fmt/parser.rs
@@ -4,9 +4,9 @@ use std::ops::RangeTo;
 use bstr::ByteSlice;
 use winnow::ascii::digit1;
 use winnow::combinator::{
-    alt, delimited, empty, opt, preceded, repeat, separated, terminated,
+    alt, delimited, empty, opt, preceded, repeat, separated,
 };
-use winnow::error::ParserError;
+use winnow::error::{ContextError, ErrMode, ParserError};
 use winnow::{ModalResult, Parser};
 
 use super::{Format, Fragments, Group, List, Modifier, Value};
@@ -43,11 +43,41 @@ pub(crate) fn parse_format(i: &mut &[u8]) -> ModalResult<Format> {
 }
 
 fn parse_fragments(i: &mut &[u8]) -> ModalResult<Fragments> {
-    alt((
-        ws(parse_list).map(Fragments::List),
-        ws(parse_group).map(Fragments::Group),
-        ws(parse_value).map(Fragments::Value),
-    ))
+    ws(parse_list_cons).map(unwrap_singleton).parse_next(i)
+}
+
+/// A list with a single item is equivalent to the item itself.
+fn unwrap_singleton(list: List) -> Fragments {
+    match list {
+        List::Cons(mut items) | List::AndThen(mut items)
+            if items.len() == 1 =>
+        {
+            items.remove(0)
+        }
+        _ => Fragments::List(list),
+    }
+}
+
+/// Parses a list of fragments, which are connected by the `<*>`
+/// operator (lowest precedence).
+fn parse_list_cons(i: &mut &[u8]) -> ModalResult<List> {
+    separated(1.., parse_list_and_then.map(unwrap_singleton), ws("<*>"))
+        .map(List::Cons)
+        .parse_next(i)
+}
+
+/// Parses a list of fragments, which are connected by the `<$>`
+/// operator (highest precedence).
+fn parse_list_and_then(i: &mut &[u8]) -> ModalResult<List> {
+    separated(
+        1..,
+        alt((
+            parse_group.map(Fragments::Group),
+            parse_value.map(Fragments::Value),
+        )),
+        ws("<$>"),
+    )
+    .map(List::AndThen)
     .parse_next(i)
 }
 
@@ -55,32 +85,37 @@ thread_local! {
     pub static GROUP_LEVEL: RefCell<u32> = const { RefCell::new(0) };
 }
 
-fn group_level_inc(i: &mut &[u8]) -> ModalResult<()> {
-    GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() += 1;
-        if *level.borrow() >= 32 {
-            Err(winnow::error::ErrMode::from_input(i))
+/// Applies `parser` one level deeper; the level is restored regardless
+/// of whether the parser succeeds or fails.
+fn nested<'a, O>(
+    mut parser: impl Parser<&'a [u8], O, ErrMode<ContextError>>,
+) -> impl FnMut(&mut &'a [u8]) -> ModalResult<O> {
+    move |i: &mut &'a [u8]| {
+        let level = GROUP_LEVEL.with(|level| {
+            *level.borrow_mut() += 1;
+            *level.borrow()
+        });
+
+        let result = if level >= 32 {
+            Err(ErrMode::from_input(i))
         } else {
-            Ok(())
-        }
-    })
-}
+            parser.parse_next(i)
+        };
 
-fn group_level_dec() {
-    GROUP_LEVEL.with(|level| {
-        *level.borrow_mut() -= 1;
-    })
+        GROUP_LEVEL.with(|level| *level.borrow_mut() -= 1);
+        result
+    }
 }
 
 fn parse_group(i: &mut &[u8]) -> ModalResult<Group> {
     (
-        terminated(ws('('), group_level_inc),
+        ws('('),
         parse_modifier,
-        alt((
-            ws(parse_list).map(Fragments::List),
-            ws(parse_value).map(Fragments::Value),
-        )),
-        ws(')').map(|_| group_level_dec()),
+        nested(
+            parse_fragments
+                .verify(|f| !matches!(f, Fragments::Group(_))),
+        ),
+        ws(')'),
         alt((
             preceded(
                 "..",
@@ -135,38 +170,6 @@ fn parse_value(i: &mut &[u8]) -> ModalResult<Value> {
         .parse_next(i)
 }
 
-#[inline]
-fn parse_list(i: &mut &[u8]) -> ModalResult<List> {
-    alt((parse_list_cons, parse_list_and_then)).parse_next(i)
-}
-
-fn parse_list_cons(i: &mut &[u8]) -> ModalResult<List> {
-    separated(
-        2..,
-        alt((
-            parse_list_and_then.map(Fragments::List),
-            parse_group.map(Fragments::Group),
-            parse_value.map(Fragments::Value),
-        )),
-        ws("<*>"),
-    )
-    .map(List::Cons)
-    .parse_next(i)
-}
-
-fn parse_list_and_then(i: &mut &[u8]) -> ModalResult<List> {
-    separated(
-        2..,
-        alt((
-            parse_group.map(Fragments::Group),
-            parse_value.map(Fragments::Value),
-        )),
-        ws("<$>"),
-    )
-    .map(List::AndThen)
-    .parse_next(i)
-}
-
 fn parse_modifier(i: &mut &[u8]) -> ModalResult<Option<Modifier>> {
     opt(preceded(
         '?',
-- 
2.43.0


From 5917f3cfac0933f888abf150b9ed1f6f10ce5786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 05/37] fix: compare case-insensitive values regardless of
 their length

Two values that only differ in case may have a different number of bytes
(e.g. U+1E9E and U+00DF). Such values were considered to be unequal by
the == and != operators, but equal by the other operators.
---
 src/matcher/subfield/mod.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/matcher/subfield/mod.rs b/src/matcher/subfield/mod.rs
index 5bd6da9..447a492 100644
--- a/src/matcher/subfield/mod.rs
+++ b/src/matcher/subfield/mod.rs
@@ -232,10 +232,6 @@ impl RelationMatcher {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn compare(&self, value: &[u8], options: &MatcherOptions) -> bool {
-        if value.len() != self.value.len() {
-            return false;
-        }
-
         if options.case_ignore {
             self.value.to_lowercase() == value.to_lowercase()
         } else {
-- 
2.43.0


From 678e0a36e41484fcbdb0010e2f8fe04e58e4ab0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 06/37] fix: match occurrence ranges only if the number of
 digits is equal

The range /01-05 matched the occurrence 010, because the digits were
compared lexicographically.
---
 src/matcher/occurrence.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/matcher/occurrence.rs b/src/matcher/occurrence.rs
index 78af4fa..524f526 100644
--- a/src/matcher/occurrence.rs
+++ b/src/matcher/occurrence.rs
@@ -74,7 +74,8 @@ impl OccurrenceMatcher {
                 Self::None => occ == b"00",
                 Self::Exact(rhs) => occ == rhs,
                 Self::Range(min, max) => {
-                    (occ.as_bytes() >= min.as_bytes())
+                    occ.as_bytes().len() == min.as_bytes().len()
+                        && (occ.as_bytes() >= min.as_bytes())
                         && (occ.as_bytes() <= max.as_bytes())
                 }
             },
-- 
2.43.0


From b7ebcb1e6086db8d0fed68d7cb90c3846dce2729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 07/37] fix: invalidate the raw data of a record if it's
 mutably dereferenced

Fields removed through a mutable reference to the underlying record were
still written, hashed and compared.
---
 src/record.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/record.rs b/src/record.rs
index b9776d9..aab2b75 100644
--- a/src/record.rs
+++ b/src/record.rs
@@ -222,6 +222,9 @@ impl<'a> Deref for ByteRecord<'a> {
 impl DerefMut for ByteRecord<'_> {
     #[inline]
     fn deref_mut(&mut self) -> &mut Self::Target {
+        // The record might be altered through the reference and the
+        // cached raw data would be out of date.
+        self.raw_data = None;
         &mut self.record
     }
 }
-- 
2.43.0


From 78bf61852737cc96b58ba763eb6b61cc482599e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 08/37] fix: report the correct line number of records with
 invalid UTF-8

---
 src/reader.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/reader.rs b/src/reader.rs
index 8bb8952..6fa2274 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -258,7 +258,7 @@ impl<R: Read> RecordsIter for Reader<R> {
     /// # Ok::<(), Box<dyn std::error::Error>>(())
     /// ```
     fn next_string_record(&mut self) -> Option<Self::StringItem<'_>> {
-        let line = self.line;
+        let line = self.line + 1;
         match self.next_byte_record() {
             Some(Ok(record)) => match StringRecord::try_from(record) {
                 Ok(record) => Some(Ok(record)),
-- 
2.43.0


From 1cce395103b7d1a4550990273fa75b222a8a2e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:40 +0000
Subject: [PATCH 09/37] fix: read all members of a gzip file

The writer appends a new member to an existing gzip file (--append), but
only the records of the first member were read.
---
 crates/pica-cli/src/commands/invalid.rs |  4 ++--
 src/reader.rs                           | 26 ++++++++++++-------------
 2 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/crates/pica-cli/src/commands/invalid.rs b/crates/pica-cli/src/commands/invalid.rs
index d93fe15..13882b8 100644
--- a/crates/pica-cli/src/commands/invalid.rs
+++ b/crates/pica-cli/src/commands/invalid.rs
@@ -7,7 +7,7 @@ use std::path::{Path, PathBuf};
 use std::process::ExitCode;
 
 use clap::Parser;
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use pica_record::ByteRecord;
 
 use crate::config::Config;
@@ -38,7 +38,7 @@ fn reader(filename: &OsString) -> io::Result<BufReader<Box<dyn Read>>> {
     let path = PathBuf::from(filename);
     let ext = path.extension().and_then(OsStr::to_str);
     let inner: Box<dyn Read> = match ext {
-        Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
+        Some("gz") => Box::new(MultiGzDecoder::new(File::open(path)?)),
         _ => {
             if path.to_str() != Some("-") {
                 Box::new(File::open(path)?)
diff --git a/src/reader.rs b/src/reader.rs
index 6fa2274..d8b64b5 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,7 +4,7 @@ use std::io::{self, BufRead, BufReader, Read, stdin};
 use std::path::Path;
 use std::str::Utf8Error;
 
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 
 use crate::primitives::ParsePicaError;
 use crate::{ByteRecord, StringRecord};
@@ -101,19 +101,19 @@ impl ReaderBuilder {
     ) -> io::Result<Reader<Box<dyn Read>>> {
         let path = path.as_ref();
         let source = path.to_str().map(ToString::to_string);
-        let reader: Box<dyn Read> = match path
-            .extension()
-            .and_then(OsStr::to_str)
-        {
-            Some("gz") => Box::new(GzDecoder::new(File::open(path)?)),
-            _ => {
-                if path.to_str() != Some("-") {
-                    Box::new(File::open(path)?)
-                } else {
-                    Box::new(stdin().lock())
+        let reader: Box<dyn Read> =
+            match path.extension().and_then(OsStr::to_str) {
+                Some("gz") => {
+                    Box::new(MultiGzDecoder::new(File::open(path)?))
                 }
-            }
-        };
+                _ => {
+                    if path.to_str() != Some("-") {
+                        Box::new(File::open(path)?)
+                    } else {
+                        Box::new(stdin().lock())
+                    }
+                }
+            };
 
         Ok(self.from_reader(reader, source))
     }
-- 
2.43.0


From 6649be341b78acdd0b313860dbc9ddd1b7214fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 10/37] fix: slice counts invalid lines and respects the length

The documentation states that positions are numbered consecutively even
if a line isn't a valid record. An invalid line in front of the start
position extended the slice, which then got longer than --length.
---
 crates/pica-cli/src/commands/slice.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index a5d9372..9df3977 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -100,7 +100,7 @@ impl Slice {
         let mut range = if self.end > 0 {
             self.start..self.end
         } else if self.length > 0 {
-            self.start..(self.start + self.length)
+            self.start..self.start.saturating_add(self.length)
         } else {
             self.start..usize::MAX
         };
@@ -116,9 +116,10 @@ impl Slice {
                 match result {
                     Err(e) if e.skip_parse_err(skip_invalid) => {
                         progress.update(true);
-                        if self.length > 0 && range.end < usize::MAX {
-                            range.end += 1;
+                        if self.length > 0 && range.contains(&i) {
+                            range.end = range.end.saturating_add(1);
                         }
+                        i += 1;
                         continue;
                     }
                     Err(e) => return Err(e.into()),
-- 
2.43.0


From 9b5839b7e1265fa2e50477c255b365cfb16f09e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 11/37] fix: apply the frequency threshold in reverse order

The combination of --reverse and --threshold stopped at the first value
below the threshold, which usually is the first value of the table.
---
 crates/pica-cli/src/commands/frequency.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/crates/pica-cli/src/commands/frequency.rs b/crates/pica-cli/src/commands/frequency.rs
index e53ae8f..44249d1 100644
--- a/crates/pica-cli/src/commands/frequency.rs
+++ b/crates/pica-cli/src/commands/frequency.rs
@@ -216,12 +216,12 @@ impl Frequency {
         }
 
         let translit = crate::translit::translit(self.nf.clone());
-        for (i, (values, freq)) in ftable_sorted.iter().enumerate() {
-            if self.num > 0 && i >= self.num {
-                break;
-            }
+        let ftable_filtered = ftable_sorted
+            .iter()
+            .filter(|(_, freq)| **freq >= self.threshold);
 
-            if **freq < self.threshold {
+        for (i, (values, freq)) in ftable_filtered.enumerate() {
+            if self.num > 0 && i >= self.num {
                 break;
             }
 
-- 
2.43.0


From cadb759914804598e56093c2f8de36618886cd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 12/37] fix: ignore records without IDN in concat --unique

According to the command's help these records aren't written to OUTPUT,
but the command panicked.
---
 crates/pica-cli/src/commands/concat.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 69da18a..0e71d9e 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -76,7 +76,9 @@ pub(crate) enum Strategy {
 #[inline]
 fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
     match strategy {
-        Strategy::Idn => record.ppn().expect("ppn").to_string(),
+        Strategy::Idn => {
+            record.ppn().map(ToString::to_string).unwrap_or_default()
+        }
         Strategy::Hash => {
             record.sha256().iter().fold(String::new(), |mut out, b| {
                 let _ = write!(out, "{b:02x}");
-- 
2.43.0


From 987c23315e8cafd50c614b076f919c7335b011b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:07 +0000
Subject: [PATCH 13/37] fix: respect the --limit option of the count command

---
 crates/pica-cli/src/commands/count.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/count.rs b/crates/pica-cli/src/commands/count.rs
index 7e99f11..853efef 100644
--- a/crates/pica-cli/src/commands/count.rs
+++ b/crates/pica-cli/src/commands/count.rs
@@ -86,7 +86,7 @@ impl Count {
         let mut fields = 0;
         let mut subfields = 0;
 
-        for filename in self.filenames {
+        'outer: for filename in self.filenames {
             let mut reader =
                 ReaderBuilder::new().from_path(filename)?;
 
@@ -117,6 +117,12 @@ impl Count {
                             .iter()
                             .map(|field| field.subfields().len())
                             .sum::<usize>();
+
+                        if self.filter_opts.limit > 0
+                            && records >= self.filter_opts.limit
+                        {
+                            break 'outer;
+                        }
                     }
                 }
             }
-- 
2.43.0


From e581076f004aeab2c2f631a5a996a6328c33608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:47 +0000
Subject: [PATCH 14/37] fix: print records with invalid UTF-8 values

The command panicked if a value isn't valid UTF-8. Such values are
written lossy, as already done by the other commands.
---
 crates/pica-cli/src/commands/print.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/print.rs b/crates/pica-cli/src/commands/print.rs
index 0e80e67..16e7777 100644
--- a/crates/pica-cli/src/commands/print.rs
+++ b/crates/pica-cli/src/commands/print.rs
@@ -89,7 +89,7 @@ impl Print {
                                 write!(writer, " ${code}")?;
 
                                 let value = translit(
-                                    subfield.value().to_str().unwrap(),
+                                    subfield.value().to_str_lossy(),
                                 );
                                 write!(writer, " {value}")?;
                             }
-- 
2.43.0


From e4d2037502beb3a3231adcc6c73793aded1bc893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:14 +0000
Subject: [PATCH 15/37] fix: don't panic when writing PICA XML and report write
 errors

The XML writer panicked on values with invalid UTF-8 and on I/O errors;
errors while flushing the last buffer were ignored.
---
 crates/pica-cli/src/commands/convert/xml.rs | 53 +++++++++------------
 1 file changed, 23 insertions(+), 30 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index 27bead9..c01315a 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -23,13 +23,11 @@ impl XmlWriter {
             };
 
         let mut writer = Writer::new_with_indent(inner, b' ', 4);
-        writer
-            .write_event(Event::Decl(BytesDecl::new(
-                "1.0",
-                Some("UTF-8"),
-                None,
-            )))
-            .unwrap();
+        writer.write_event(Event::Decl(BytesDecl::new(
+            "1.0",
+            Some("UTF-8"),
+            None,
+        )))?;
 
         let attributes = [
             ("targetNamespace", "info:srw/schema/5/picaXML-v1.0"),
@@ -37,12 +35,10 @@ impl XmlWriter {
             ("xmlns", "info:srw/schema/5/picaXML-v1.0"),
         ];
 
-        writer
-            .write_event(Event::Start(
-                BytesStart::from_content("collection", 0)
-                    .with_attributes(attributes),
-            ))
-            .unwrap();
+        writer.write_event(Event::Start(
+            BytesStart::from_content("collection", 0)
+                .with_attributes(attributes),
+        ))?;
 
         Ok(Self { writer })
     }
@@ -53,9 +49,8 @@ impl ByteRecordWrite for XmlWriter {
         &mut self,
         record: &ByteRecord,
     ) -> std::io::Result<()> {
-        self.writer
-            .create_element("record")
-            .write_inner_content(|r| {
+        self.writer.create_element("record").write_inner_content(
+            |r| {
                 for field in record.fields() {
                     r.create_element("datafield")
                         .with_attribute((
@@ -72,31 +67,29 @@ impl ByteRecordWrite for XmlWriter {
                                             .to_string()
                                             .as_str(),
                                     ))
-                                    .write_text_content(BytesText::new(
-                                        subfield
-                                            .value()
-                                            .to_str()
-                                            .unwrap(),
-                                    ))
-                                    .unwrap();
+                                    .write_text_content(
+                                        BytesText::new(
+                                            &subfield
+                                                .value()
+                                                .to_str_lossy(),
+                                        ),
+                                    )?;
                             }
 
                             Ok::<(), std::io::Error>(())
-                        })
-                        .unwrap();
+                        })?;
                 }
 
                 Ok::<(), std::io::Error>(())
-            })
-            .unwrap();
+            },
+        )?;
 
         Ok(())
     }
 
     fn finish(&mut self) -> io::Result<()> {
         self.writer
-            .write_event(Event::End(BytesEnd::new("collection")))
-            .unwrap();
-        Ok(())
+            .write_event(Event::End(BytesEnd::new("collection")))?;
+        self.writer.get_mut().flush()
     }
 }
-- 
2.43.0


From e760cc7e90ae752d0455954ec013a2d50f5516ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 16/37] fix: separate records in the PICA plain format

The boundaries of the records were lost if more than one record has been
converted.
---
 crates/pica-cli/src/commands/convert/plain.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/convert/plain.rs b/crates/pica-cli/src/commands/convert/plain.rs
index 7ea5262..14951b0 100644
--- a/crates/pica-cli/src/commands/convert/plain.rs
+++ b/crates/pica-cli/src/commands/convert/plain.rs
@@ -7,6 +7,7 @@ use pica_record::prelude::*;
 
 pub(crate) struct PlainWriter {
     writer: BufWriter<Box<dyn Write>>,
+    count: usize,
 }
 
 impl PlainWriter {
@@ -18,7 +19,7 @@ impl PlainWriter {
                 BufWriter::new(Box::new(stdout()))
             };
 
-        Ok(Self { writer })
+        Ok(Self { writer, count: 0 })
     }
 }
 
@@ -27,6 +28,11 @@ impl ByteRecordWrite for PlainWriter {
         &mut self,
         record: &ByteRecord,
     ) -> std::io::Result<()> {
+        // Consecutive records are separated by an empty line.
+        if self.count > 0 {
+            self.writer.write_all(b"\n")?;
+        }
+
         for field in record.fields() {
             field.tag().write_to(&mut self.writer)?;
             if let Some(occurrence) = field.occurrence() {
@@ -46,6 +52,7 @@ impl ByteRecordWrite for PlainWriter {
             self.writer.write_all(b"\n")?;
         }
 
+        self.count += 1;
         Ok(())
     }
 
-- 
2.43.0


From 54a05cd1b4fcb337f92b26337ef3e1964d998917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:37 +0000
Subject: [PATCH 17/37] fix: report errors when writing the describe table to
 stdout

---
 crates/pica-cli/src/commands/describe.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/describe.rs b/crates/pica-cli/src/commands/describe.rs
index bcd0803..8bba32c 100644
--- a/crates/pica-cli/src/commands/describe.rs
+++ b/crates/pica-cli/src/commands/describe.rs
@@ -1,5 +1,6 @@
 use std::ffi::OsString;
 use std::fs::File;
+use std::io::{self, Write};
 use std::process::ExitCode;
 
 use clap::Parser;
@@ -164,7 +165,9 @@ impl Describe {
                     tmp_env::set_var("POLARS_FMT_MAX_ROWS", "50"),
                 );
 
-                println!("{df}");
+                let mut stdout = io::stdout();
+                writeln!(stdout, "{df}")?;
+                stdout.flush()?;
             }
             Some(path)
                 if path.to_string_lossy().ends_with(".tsv")
-- 
2.43.0


From 313a9229c3b481736ea81eb391907fd9e975b2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 18/37] fix: don't exhaust the stack on long filter expressions

The operands of a chain were folded into a tree as deep as the chain is
long, which overflowed the stack when the matcher was evaluated.
---
 src/matcher/field/parser.rs    |  8 ++++----
 src/matcher/subfield/parser.rs | 10 ++++++----
 src/parser.rs                  | 28 ++++++++++++++++++++++++++++
 3 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/matcher/field/parser.rs b/src/matcher/field/parser.rs
index caa2a84..1a53ee3 100644
--- a/src/matcher/field/parser.rs
+++ b/src/matcher/field/parser.rs
@@ -21,7 +21,7 @@ use crate::matcher::subfield::parser::{
 };
 use crate::matcher::tag::parse_tag_matcher;
 use crate::matcher::{RelationalOp, subfield};
-use crate::parser::ws;
+use crate::parser::{fold_balanced, ws};
 
 pub(super) fn parse_exists_matcher(
     i: &mut &[u8],
@@ -303,7 +303,7 @@ fn parse_field_or_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
         repeat(0.., preceded(ws("||"), parse_field_xor_matcher)),
     )
         .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev | next)
+            fold_balanced(head, tail, |lhs, rhs| lhs | rhs)
         })
         .parse_next(i)
 }
@@ -319,7 +319,7 @@ fn parse_field_xor_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
         ),
     )
         .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev ^ next)
+            fold_balanced(head, tail, |lhs, rhs| lhs ^ rhs)
         })
         .parse_next(i)
 }
@@ -332,7 +332,7 @@ fn parse_field_and_matcher(i: &mut &[u8]) -> ModalResult<FieldMatcher> {
         repeat(0.., preceded(ws("&&"), parse_field_atom_matcher)),
     )
         .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev & next)
+            fold_balanced(head, tail, |lhs, rhs| lhs & rhs)
         })
         .parse_next(i)
 }
diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index f9665b1..8e01437 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -19,7 +19,9 @@ use crate::matcher::operator::{
     RelationalOp, parse_relational_operator,
 };
 use crate::matcher::quantifier::parse_quantifier;
-use crate::parser::{parse_string, parse_subfield_codes, ws};
+use crate::parser::{
+    fold_balanced, parse_string, parse_subfield_codes, ws,
+};
 
 /// Parses a [ExistsMatcher] expression.
 pub(crate) fn parse_exists_matcher(
@@ -365,7 +367,7 @@ fn parse_subfield_or_matcher(
         repeat(0.., preceded("||", parse_subfield_xor_matcher)),
     )
         .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev | next)
+            fold_balanced(head, tail, |lhs, rhs| lhs | rhs)
         })
         .parse_next(i)
 }
@@ -383,7 +385,7 @@ fn parse_subfield_xor_matcher(
         ),
     )
         .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev ^ next)
+            fold_balanced(head, tail, |lhs, rhs| lhs ^ rhs)
         })
         .parse_next(i)
 }
@@ -398,7 +400,7 @@ fn parse_subfield_and_matcher(
         repeat(0.., preceded("&&", parse_subfield_atom_matcher)),
     )
         .map(|(head, tail): (_, Vec<_>)| {
-            tail.into_iter().fold(head, |prev, next| prev & next)
+            fold_balanced(head, tail, |lhs, rhs| lhs & rhs)
         })
         .parse_next(i)
 }
diff --git a/src/parser.rs b/src/parser.rs
index bec4f23..a719a70 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -101,6 +101,34 @@ pub(crate) fn parse_subfield_codes_compat(
         .parse_next(i)
 }
 
+/// Combines the operands of an associative operator to a balanced tree.
+///
+/// The height of the tree grows logarithmically with the number of
+/// operands, so that long expressions don't exhaust the stack.
+pub(crate) fn fold_balanced<T>(
+    head: T,
+    tail: Vec<T>,
+    op: impl Fn(T, T) -> T,
+) -> T {
+    let mut operands = Vec::with_capacity(tail.len() + 1);
+    operands.push(head);
+    operands.extend(tail);
+
+    while operands.len() > 1 {
+        let mut iter = operands.into_iter();
+        let mut next = Vec::with_capacity(iter.len().div_ceil(2));
+        while let Some(lhs) = iter.next() {
+            next.push(match iter.next() {
+                Some(rhs) => op(lhs, rhs),
+                None => lhs,
+            });
+        }
+        operands = next;
+    }
+
+    operands.remove(0)
+}
+
 /// Strip whitespaces from the beginning and end.
 pub(crate) fn ws<I, O, E: ParserError<I>, F>(
     mut inner: F,
-- 
2.43.0


From 35d1ec2d04c7fc0fd8308beeaa0deb5461b7fd87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 19/37] fix: report a malformed config file instead of
 panicking

A malformed or truncated config made every command panic, and an
unreadable config given with --config was silently ignored.
---
 crates/pica-cli/src/config.rs | 13 +++++++++++--
 crates/pica-cli/src/main.rs   |  7 ++++++-
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index 9905247..7a75974 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -52,10 +52,19 @@ impl Config {
     where
         P: AsRef<Path>,
     {
-        let path = path.as_ref().into();
+        let path: PathBuf = path.as_ref().into();
         let content = fs::read_to_string(&path)?;
         let mut config: Self =
-            toml::from_str(&content).expect("valid config");
+            toml::from_str(&content).map_err(|err| {
+                io::Error::new(
+                    io::ErrorKind::InvalidData,
+                    format!(
+                        "invalid config '{}': {}",
+                        path.display(),
+                        err.message()
+                    ),
+                )
+            })?;
         config.path = path;
 
         Ok(config)
diff --git a/crates/pica-cli/src/main.rs b/crates/pica-cli/src/main.rs
index a530bd4..87dc736 100644
--- a/crates/pica-cli/src/main.rs
+++ b/crates/pica-cli/src/main.rs
@@ -20,7 +20,12 @@ fn run() -> CliResult {
 
     #[allow(unused_mut)]
     let mut config = if let Some(ref path) = args.config {
-        Config::from_path(path).unwrap_or(Config::new(path))
+        match Config::from_path(path) {
+            Err(err) if err.kind() == ErrorKind::NotFound => {
+                Config::new(path)
+            }
+            result => result?,
+        }
     } else {
         Config::discover()?
     };
-- 
2.43.0


From bcb56191e0639b527b64203c0fef4a55de47c65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 20/37] fix: flush the destination when finishing a gzip stream

---
 src/writer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/writer.rs b/src/writer.rs
index 0ed8669..2edc310 100644
--- a/src/writer.rs
+++ b/src/writer.rs
@@ -220,6 +220,6 @@ impl<W: Write> ByteRecordWrite for GzipWriter<W> {
     #[inline(always)]
     fn finish(&mut self) -> io::Result<()> {
         self.0.try_finish()?;
-        Ok(())
+        self.0.get_mut().flush()
     }
 }
-- 
2.43.0


From f0a03fa9cd2d62da9996d8f63f7fb9c9143f1a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:41 +0000
Subject: [PATCH 21/37] fix: apply the limit of the partition command to
 records

---
 crates/pica-cli/src/commands/partition.rs | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index cf60513..e7892cd 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -110,6 +110,10 @@ impl Partition {
                         values.sort_unstable();
                         values.dedup();
 
+                        if values.is_empty() {
+                            continue;
+                        }
+
                         for value in values {
                             let mut entry =
                                 writers.entry(value.to_vec());
@@ -134,12 +138,13 @@ impl Partition {
                             };
 
                             writer.write_byte_record(record)?;
-                            count += 1;
-                            if self.filter_opts.limit > 0
-                                && count >= self.filter_opts.limit
-                            {
-                                break 'outer;
-                            }
+                        }
+
+                        count += 1;
+                        if self.filter_opts.limit > 0
+                            && count >= self.filter_opts.limit
+                        {
+                            break 'outer;
                         }
                     }
                 }
-- 
2.43.0


From b480194b71caf0b4fa8e996c37be9b5c742bc7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:58 +0000
Subject: [PATCH 22/37] fix: reject the slice options gzip and append in
 combination

---
 crates/pica-cli/src/commands/slice.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/slice.rs b/crates/pica-cli/src/commands/slice.rs
index 9df3977..7d831d9 100644
--- a/crates/pica-cli/src/commands/slice.rs
+++ b/crates/pica-cli/src/commands/slice.rs
@@ -58,7 +58,7 @@ pub(crate) struct Slice {
     gzip: bool,
 
     /// Append to the given file, do not overwrite
-    #[arg(long, short)]
+    #[arg(long, short, conflicts_with = "gzip")]
     append: bool,
 
     /// Show progress bar (requires `-o`/`--output`).
-- 
2.43.0


From ff2ec9c3f79819cecfb35a4ca32d024f256c1c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:14 +0000
Subject: [PATCH 23/37] fix: distinguish invalid UTF-8 identification numbers
 in concat --unique

---
 crates/pica-cli/src/commands/concat.rs | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/crates/pica-cli/src/commands/concat.rs b/crates/pica-cli/src/commands/concat.rs
index 0e71d9e..ae60704 100644
--- a/crates/pica-cli/src/commands/concat.rs
+++ b/crates/pica-cli/src/commands/concat.rs
@@ -1,5 +1,4 @@
 use std::ffi::OsString;
-use std::fmt::Write;
 use std::process::ExitCode;
 
 use clap::{Parser, ValueEnum};
@@ -74,17 +73,12 @@ pub(crate) enum Strategy {
 }
 
 #[inline]
-fn record_key(record: &ByteRecord, strategy: &Strategy) -> String {
+fn record_key(record: &ByteRecord, strategy: &Strategy) -> Vec<u8> {
     match strategy {
         Strategy::Idn => {
-            record.ppn().map(ToString::to_string).unwrap_or_default()
-        }
-        Strategy::Hash => {
-            record.sha256().iter().fold(String::new(), |mut out, b| {
-                let _ = write!(out, "{b:02x}");
-                out
-            })
+            record.ppn().map(|ppn| ppn.to_vec()).unwrap_or_default()
         }
+        Strategy::Hash => record.sha256(),
     }
 }
 
-- 
2.43.0


From 942baf77ad662030847c1e7e331ff943f4bc07be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:44 +0000
Subject: [PATCH 24/37] fix: write records with the same partition file name to
 one file

---
 crates/pica-cli/src/commands/partition.rs | 31 +++++++++++------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/crates/pica-cli/src/commands/partition.rs b/crates/pica-cli/src/commands/partition.rs
index e7892cd..4ffbecc 100644
--- a/crates/pica-cli/src/commands/partition.rs
+++ b/crates/pica-cli/src/commands/partition.rs
@@ -78,7 +78,7 @@ impl Partition {
             fs::create_dir_all(&self.outdir)?;
         }
 
-        let mut writers: HashMap<Vec<u8>, Box<dyn ByteRecordWrite>> =
+        let mut writers: HashMap<String, Box<dyn ByteRecordWrite>> =
             HashMap::new();
 
         'outer: for filename in self.filenames {
@@ -105,27 +105,26 @@ impl Partition {
                             continue;
                         }
 
-                        let mut values: Vec<_> =
-                            record.path(&self.path, &options).collect();
-                        values.sort_unstable();
-                        values.dedup();
-
-                        if values.is_empty() {
+                        let mut filenames: Vec<_> = record
+                            .path(&self.path, &options)
+                            .map(|value| {
+                                template
+                                    .replace("{}", &value.to_string())
+                            })
+                            .collect();
+                        filenames.sort_unstable();
+                        filenames.dedup();
+
+                        if filenames.is_empty() {
                             continue;
                         }
 
-                        for value in values {
-                            let mut entry =
-                                writers.entry(value.to_vec());
+                        for filename in filenames {
+                            let mut entry = writers.entry(filename);
                             let writer = match entry {
                                 Entry::Vacant(vacant) => {
-                                    let filename = template.replace(
-                                        "{}",
-                                        &value.to_string(),
-                                    );
-
                                     let path =
-                                        self.outdir.join(filename);
+                                        self.outdir.join(vacant.key());
                                     let writer = WriterBuilder::new()
                                         .gzip(self.gzip)
                                         .from_path(path)?;
-- 
2.43.0


From c9ffee7f561e2843770f7ef696b091c5f61bbe1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:42 +0000
Subject: [PATCH 25/37] fix: escape carriage returns in PICA XML

---
 crates/pica-cli/src/commands/convert/xml.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/convert/xml.rs b/crates/pica-cli/src/commands/convert/xml.rs
index c01315a..53a4564 100644
--- a/crates/pica-cli/src/commands/convert/xml.rs
+++ b/crates/pica-cli/src/commands/convert/xml.rs
@@ -4,6 +4,7 @@ use std::io::{self, BufWriter, Write, stdout};
 
 use bstr::ByteSlice;
 use pica_record::prelude::*;
+use quick_xml::escape::escape;
 use quick_xml::events::{
     BytesDecl, BytesEnd, BytesStart, BytesText, Event,
 };
@@ -68,10 +69,13 @@ impl ByteRecordWrite for XmlWriter {
                                             .as_str(),
                                     ))
                                     .write_text_content(
-                                        BytesText::new(
-                                            &subfield
-                                                .value()
-                                                .to_str_lossy(),
+                                        BytesText::from_escaped(
+                                            escape(
+                                                subfield
+                                                    .value()
+                                                    .to_str_lossy(),
+                                            )
+                                            .replace('\r', "&#13;"),
                                         ),
                                     )?;
                             }
-- 
2.43.0


From 2e0a17b112eac79352c673c2602b6f1efdea87f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:24 +0000
Subject: [PATCH 26/37] fix: make the reports of the check command
 deterministic

---
 crates/pica-cli/src/commands/check/checks/duplicates.rs | 5 +++--
 crates/pica-cli/src/commands/check/checks/link.rs       | 6 ++++--
 crates/pica-cli/src/commands/check/set.rs               | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/duplicates.rs b/crates/pica-cli/src/commands/check/checks/duplicates.rs
index d5950e0..5da5a96 100644
--- a/crates/pica-cli/src/commands/check/checks/duplicates.rs
+++ b/crates/pica-cli/src/commands/check/checks/duplicates.rs
@@ -1,4 +1,5 @@
-use hashbrown::HashMap;
+use std::collections::BTreeMap;
+
 use pica_record::prelude::*;
 
 #[inline(always)]
@@ -38,7 +39,7 @@ impl Duplicates {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let mut freqs = HashMap::new();
+        let mut freqs = BTreeMap::new();
 
         for row in record.query(&self.query, &options).iter() {
             let values =
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index ed5f14b..487da85 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -1,5 +1,7 @@
+use std::collections::BTreeMap;
+
 use bstr::{BString, ByteSlice};
-use hashbrown::{HashMap, HashSet};
+use hashbrown::HashSet;
 use pica_record::prelude::*;
 
 #[derive(Debug, serde::Deserialize)]
@@ -15,7 +17,7 @@ pub(crate) struct Link {
     case_ignore: bool,
 
     #[serde(skip, default)]
-    unseen: HashMap<BString, Vec<BString>>,
+    unseen: BTreeMap<BString, Vec<BString>>,
 
     #[serde(skip, default)]
     seen: HashSet<BString>,
diff --git a/crates/pica-cli/src/commands/check/set.rs b/crates/pica-cli/src/commands/check/set.rs
index d12c244..567ddde 100644
--- a/crates/pica-cli/src/commands/check/set.rs
+++ b/crates/pica-cli/src/commands/check/set.rs
@@ -1,7 +1,7 @@
+use std::collections::BTreeMap;
 use std::fs::read_to_string;
 use std::path::Path;
 
-use hashbrown::HashMap;
 use pica_record::prelude::*;
 use unicode_normalization::UnicodeNormalization;
 
@@ -18,7 +18,7 @@ pub(crate) struct RuleSet {
     pub(crate) termination: Termination,
 
     #[serde(rename = "rule", default)]
-    pub(crate) rules: HashMap<String, Rule>,
+    pub(crate) rules: BTreeMap<String, Rule>,
 }
 
 #[derive(Debug, PartialEq, Default, serde::Deserialize)]
-- 
2.43.0


From 5d3b06c77b85a20c0707e6f60cba607e426e0746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 27/37] fix: report empty values in the allow, iso639-2b, jelc
 and link checks

---
 crates/pica-cli/src/commands/check/checks/allow.rs  | 9 ++++-----
 crates/pica-cli/src/commands/check/checks/iso639.rs | 9 ++++-----
 crates/pica-cli/src/commands/check/checks/jelc.rs   | 9 ++++-----
 crates/pica-cli/src/commands/check/checks/link.rs   | 9 ++++-----
 4 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/allow.rs b/crates/pica-cli/src/commands/check/checks/allow.rs
index 9a8032d..8eb9ee9 100644
--- a/crates/pica-cli/src/commands/check/checks/allow.rs
+++ b/crates/pica-cli/src/commands/check/checks/allow.rs
@@ -54,15 +54,14 @@ impl Allow {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let values = record
             .path(&self.path, &options)
             .filter(|value| !self.values.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !values.is_empty() {
+            (true, Some(values.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/iso639.rs b/crates/pica-cli/src/commands/check/checks/iso639.rs
index ae39956..f073cb5 100644
--- a/crates/pica-cli/src/commands/check/checks/iso639.rs
+++ b/crates/pica-cli/src/commands/check/checks/iso639.rs
@@ -90,15 +90,14 @@ impl Iso639 {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let values = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !values.is_empty() {
+            (true, Some(values.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index aa09efa..f5ec209 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -149,15 +149,14 @@ impl Jel {
             .strsim_threshold(self.strsim_threshold)
             .case_ignore(self.case_ignore);
 
-        let message = record
+        let values = record
             .path(&self.path, &options)
             .filter(|value| !CODES.contains(value.as_bstr()))
             .map(ToString::to_string)
-            .collect::<Vec<_>>()
-            .join(", ");
+            .collect::<Vec<_>>();
 
-        if !message.is_empty() {
-            (true, Some(message))
+        if !values.is_empty() {
+            (true, Some(values.join(", ")))
         } else {
             (false, None)
         }
diff --git a/crates/pica-cli/src/commands/check/checks/link.rs b/crates/pica-cli/src/commands/check/checks/link.rs
index 487da85..d805b33 100644
--- a/crates/pica-cli/src/commands/check/checks/link.rs
+++ b/crates/pica-cli/src/commands/check/checks/link.rs
@@ -89,15 +89,14 @@ impl Link {
         let mut result = vec![];
 
         for (ppn, values) in self.unseen.iter() {
-            let message = values
+            let missing = values
                 .iter()
                 .filter(|k| !self.seen.contains(k.as_bstr()))
                 .map(ToString::to_string)
-                .collect::<Vec<_>>()
-                .join(", ");
+                .collect::<Vec<_>>();
 
-            if !message.is_empty() {
-                result.push((ppn.to_owned(), Some(message)));
+            if !missing.is_empty() {
+                result.push((ppn.to_owned(), Some(missing.join(", "))));
             }
         }
 
-- 
2.43.0


From 0d5e88de21f84b6a56d2f59137fb06067aa6dd2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 28/37] fix: compare rows instead of joined values in the
 duplicates check

---
 .../src/commands/check/checks/duplicates.rs      | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/duplicates.rs b/crates/pica-cli/src/commands/check/checks/duplicates.rs
index 5da5a96..881eae5 100644
--- a/crates/pica-cli/src/commands/check/checks/duplicates.rs
+++ b/crates/pica-cli/src/commands/check/checks/duplicates.rs
@@ -42,17 +42,12 @@ impl Duplicates {
         let mut freqs = BTreeMap::new();
 
         for row in record.query(&self.query, &options).iter() {
-            let values =
-                row.iter().map(ToString::to_string).collect::<Vec<_>>();
-
-            if values.iter().all(String::is_empty) {
+            if row.iter().all(|value| value.is_empty()) {
                 continue;
             }
 
-            let value = values.join(&self.separator);
-
             freqs
-                .entry(value)
+                .entry(row.clone())
                 .and_modify(|count| *count += 1)
                 .or_insert(1);
         }
@@ -61,7 +56,12 @@ impl Duplicates {
         if !freqs.is_empty() {
             let message = freqs
                 .keys()
-                .map(ToString::to_string)
+                .map(|row| {
+                    row.iter()
+                        .map(ToString::to_string)
+                        .collect::<Vec<_>>()
+                        .join(&self.separator)
+                })
                 .collect::<Vec<_>>()
                 .join("; ");
             (true, Some(message))
-- 
2.43.0


From 8c1539eeb4246aff8037c1c487c3382b331636ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 29/37] fix: report identifiers with letters in the isni check

---
 crates/pica-cli/src/commands/check/checks/isni.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/pica-cli/src/commands/check/checks/isni.rs b/crates/pica-cli/src/commands/check/checks/isni.rs
index 9dc8a9d..630e704 100644
--- a/crates/pica-cli/src/commands/check/checks/isni.rs
+++ b/crates/pica-cli/src/commands/check/checks/isni.rs
@@ -42,7 +42,9 @@ impl Isni {
                 })
                 .collect();
 
-            if digits.len() != 16 {
+            if digits.len() != 16
+                || digits[0..15].iter().any(|digit| *digit > 9)
+            {
                 messages.push(value.to_string());
                 retval = true;
                 continue;
-- 
2.43.0


From cc6a32df40c38fcca259e636db6c71563665587e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 30/37] fix: skip characters instead of bytes in the datetime
 check

---
 .../pica-cli/src/commands/check/checks/datetime.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/datetime.rs b/crates/pica-cli/src/commands/check/checks/datetime.rs
index 8c137a9..98141b7 100644
--- a/crates/pica-cli/src/commands/check/checks/datetime.rs
+++ b/crates/pica-cli/src/commands/check/checks/datetime.rs
@@ -1,3 +1,4 @@
+use bstr::ByteSlice;
 use jiff::civil;
 use pica_record::prelude::*;
 
@@ -36,13 +37,18 @@ impl DateTime {
             .case_ignore(self.case_ignore);
 
         for value in record.path(&self.path, &options) {
-            if self.offset >= value.len()
-                || civil::DateTime::strptime(
+            let start = value
+                .char_indices()
+                .nth(self.offset)
+                .map(|(start, _, _)| start);
+
+            if start.is_none_or(|start| {
+                civil::DateTime::strptime(
                     &self.format,
-                    &value[self.offset..],
+                    &value[start..],
                 )
                 .is_err()
-            {
+            }) {
                 messages.push(value.to_string());
                 retval = true;
             }
-- 
2.43.0


From d5c7b9ec48ebbce837c27e830b117232c6236182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 31/37] fix: accept the JEL code Z0

---
 crates/pica-cli/src/commands/check/checks/jelc.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/check/checks/jelc.rs b/crates/pica-cli/src/commands/check/checks/jelc.rs
index f5ec209..2697607 100644
--- a/crates/pica-cli/src/commands/check/checks/jelc.rs
+++ b/crates/pica-cli/src/commands/check/checks/jelc.rs
@@ -135,8 +135,8 @@ static CODES: LazyLock<HashSet<Vec<u8>>> = LazyLock::new(|| {
         "N6", "N7", "N8", "N9", "O0", "O1", "O2", "O3", "O4", "O5",
         "P0", "P0", "P1", "P2", "P3", "P4", "P5", "Q0", "Q1", "Q2",
         "Q3", "Q4", "Q5", "R0", "R1", "R2", "R3", "R4", "R5", "Y1",
-        "Y2", "Y3", "Y4", "Y5", "Y6", "Y7", "Y8", "Y9", "Z1", "Z2",
-        "Z3",
+        "Y2", "Y3", "Y4", "Y5", "Y6", "Y7", "Y8", "Y9", "Z0", "Z1",
+        "Z2", "Z3",
     ])
 });
 
-- 
2.43.0


From 3ca75fffaad145e32244473a9845ad5041980f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 32/37] fix: report errors when printing a config option

---
 crates/pica-cli/src/commands/config.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/crates/pica-cli/src/commands/config.rs b/crates/pica-cli/src/commands/config.rs
index 49a3c86..b15e58b 100644
--- a/crates/pica-cli/src/commands/config.rs
+++ b/crates/pica-cli/src/commands/config.rs
@@ -1,3 +1,4 @@
+use std::io::{self, Write};
 use std::process::ExitCode;
 
 use clap::Parser;
@@ -28,14 +29,19 @@ pub(crate) struct Config {
 }
 
 #[inline]
-fn print_option<T: ToString>(value: Option<T>) {
-    println!(
+fn print_option<T: ToString>(value: Option<T>) -> io::Result<()> {
+    let mut stdout = io::stdout().lock();
+
+    writeln!(
+        stdout,
         "{}",
         match value {
             Some(value) => value.to_string(),
             None => "None".to_string(),
         }
-    );
+    )?;
+
+    stdout.flush()
 }
 
 impl Config {
@@ -88,10 +94,10 @@ impl Config {
         } else if self.get || (!self.unset && !self.set) {
             match name {
                 "skip-invalid" => {
-                    print_option(Some(&config.skip_invalid));
+                    print_option(Some(&config.skip_invalid))?;
                 }
                 "normalization" => {
-                    print_option(config.normalization.as_ref())
+                    print_option(config.normalization.as_ref())?;
                 }
                 _ => unreachable!(),
             }
-- 
2.43.0


From 27be2e1f4afb8e98f0765f1198436fded977c867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:57 +0000
Subject: [PATCH 33/37] fix: report errors when writing shell completions

---
 crates/pica-cli/src/commands/completions.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/pica-cli/src/commands/completions.rs b/crates/pica-cli/src/commands/completions.rs
index 38272ce..5569f48 100644
--- a/crates/pica-cli/src/commands/completions.rs
+++ b/crates/pica-cli/src/commands/completions.rs
@@ -28,15 +28,19 @@ impl Completions {
             None => Box::new(io::stdout().lock()),
         };
 
+        // Note: `generate` panics if the data can't be written.
+        let mut buf = Vec::<u8>::new();
+
         match self.shell {
-            Bash => generate(Bash, cmd, "pica", &mut wtr),
-            Elvish => generate(Elvish, cmd, "pica", &mut wtr),
-            Fish => generate(Fish, cmd, "pica", &mut wtr),
-            PowerShell => generate(PowerShell, cmd, "pica", &mut wtr),
-            Zsh => generate(Zsh, cmd, "pica", &mut wtr),
+            Bash => generate(Bash, cmd, "pica", &mut buf),
+            Elvish => generate(Elvish, cmd, "pica", &mut buf),
+            Fish => generate(Fish, cmd, "pica", &mut buf),
+            PowerShell => generate(PowerShell, cmd, "pica", &mut buf),
+            Zsh => generate(Zsh, cmd, "pica", &mut buf),
             _ => unreachable!(),
         }
 
+        wtr.write_all(&buf)?;
         wtr.flush()?;
 
         Ok(ExitCode::SUCCESS)
-- 
2.43.0


From e23475e5a1cf7ef1db13813a711cde5dc35cc551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:55 +0000
Subject: [PATCH 34/37] fix: don't allocate memory for the whole sample in
 advance

---
 crates/pica-cli/src/commands/sample.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/pica-cli/src/commands/sample.rs b/crates/pica-cli/src/commands/sample.rs
index d764f8d..4e88c51 100644
--- a/crates/pica-cli/src/commands/sample.rs
+++ b/crates/pica-cli/src/commands/sample.rs
@@ -66,8 +66,7 @@ impl Sample {
             None => StdRng::from_rng(&mut rng()),
         };
 
-        let mut reservoir: Vec<Vec<u8>> =
-            Vec::with_capacity(sample_size);
+        let mut reservoir: Vec<Vec<u8>> = Vec::new();
 
         'outer: for filename in self.filenames {
             let mut reader =
-- 
2.43.0


From 14e1742502f00f61354d3a0e8cfdffbc0a440d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 35/37] fix: replace the config file atomically

---
 crates/pica-cli/src/config.rs | 34 ++++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/crates/pica-cli/src/config.rs b/crates/pica-cli/src/config.rs
index 7a75974..706ba52 100644
--- a/crates/pica-cli/src/config.rs
+++ b/crates/pica-cli/src/config.rs
@@ -92,7 +92,7 @@ impl Config {
 
     /// Saves the config.
     pub(crate) fn save(&self) -> io::Result<()> {
-        use std::fs::{File, create_dir_all};
+        use std::fs::{File, create_dir_all, remove_file, rename};
         use std::io::Write;
 
         if let Some(parent) = self.path.parent()
@@ -102,8 +102,34 @@ impl Config {
         }
 
         let content = toml::to_string(self).unwrap();
-        let mut out = File::create(&self.path)?;
-        out.write_all(content.as_bytes())?;
-        Ok(())
+
+        // Follow symbolic links; special files are written in place.
+        let path =
+            self.path.canonicalize().unwrap_or(self.path.clone());
+        if path.exists() && !path.is_file() {
+            let mut out = File::create(&path)?;
+            return out.write_all(content.as_bytes());
+        }
+
+        // The existing config file is replaced at the end, so that no
+        // settings are lost if the new file can't be written.
+        let mut tmp = path.clone().into_os_string();
+        tmp.push(format!(".{}.tmp", std::process::id()));
+
+        let result = File::create(&tmp)
+            .and_then(|mut out| {
+                if let Ok(metadata) = path.metadata() {
+                    out.set_permissions(metadata.permissions())?;
+                }
+                out.write_all(content.as_bytes())?;
+                out.sync_all()
+            })
+            .and_then(|()| rename(&tmp, &path));
+
+        if result.is_err() {
+            let _ = remove_file(&tmp);
+        }
+
+        result
     }
 }
-- 
2.43.0


From cf9deb7f73a314bd16fac0746097380e4d54090d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:40 +0000
Subject: [PATCH 36/37] fix: filter with an expression file drops the standard
 input

'pica filter -F expr a.dat -' only read a.dat: an explicit "-" after the
first file name could not be told from the default value.
---
 crates/pica-cli/src/commands/filter.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/crates/pica-cli/src/commands/filter.rs b/crates/pica-cli/src/commands/filter.rs
index 531177e..e34c986 100644
--- a/crates/pica-cli/src/commands/filter.rs
+++ b/crates/pica-cli/src/commands/filter.rs
@@ -153,7 +153,6 @@ pub(crate) struct Filter {
     ///
     /// If no filenames where given or a filename is "-", data is read
     /// from standard input (stdin).
-    #[arg(default_value = "-", hide_default_value = true)]
     filenames: Vec<OsString>,
 }
 
@@ -194,11 +193,7 @@ impl Filter {
             // a expression file is given, it makes no sense to provide
             // an filter expression as CLI argument.
             if !self.filter.is_empty() {
-                if filenames != ["-"] {
-                    filenames.insert(0, self.filter.into());
-                } else {
-                    filenames = vec![self.filter.into()];
-                }
+                filenames.insert(0, self.filter.into());
             }
 
             read_to_string(filename)?
@@ -206,6 +201,10 @@ impl Filter {
             self.filter
         };
 
+        if filenames.is_empty() {
+            filenames.push("-".into());
+        }
+
         let matcher =
             RecordMatcherBuilder::with_transform(filter_str, translit)?
                 .and(self.and)?
-- 
2.43.0


From ef2364bc463b3f2fb0dc8b0b79d372eec4b74acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:49 +0000
Subject: [PATCH 37/37] fix: reject regexes that can't be compiled as a set or
 ignoring case

---
 src/matcher/subfield/parser.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/matcher/subfield/parser.rs b/src/matcher/subfield/parser.rs
index 8e01437..e364a37 100644
--- a/src/matcher/subfield/parser.rs
+++ b/src/matcher/subfield/parser.rs
@@ -2,7 +2,7 @@ use std::cell::RefCell;
 
 use bstr::ByteSlice;
 use hashbrown::HashSet;
-use regex::bytes::Regex;
+use regex::bytes::{RegexBuilder, RegexSetBuilder};
 use winnow::ascii::{digit1, multispace1};
 use winnow::combinator::{
     alt, delimited, opt, preceded, repeat, separated, terminated,
@@ -118,6 +118,22 @@ pub(crate) fn parse_contains_matcher(
         .parse_next(i)
 }
 
+/// Returns true if the regex can be compiled, whether or not the case
+/// is ignored.
+fn is_valid_regex(re: &str) -> bool {
+    [false, true].into_iter().all(|yes| {
+        RegexBuilder::new(re).case_insensitive(yes).build().is_ok()
+    })
+}
+
+/// Returns true if the regexes can be compiled as a set, whether or not
+/// the case is ignored.
+fn is_valid_regex_set(re: &[String]) -> bool {
+    [false, true].into_iter().all(|yes| {
+        RegexSetBuilder::new(re).case_insensitive(yes).build().is_ok()
+    })
+}
+
 /// Parse a [RegexMatcher] expression.
 pub(crate) fn parse_regex_matcher(
     i: &mut &[u8],
@@ -127,7 +143,7 @@ pub(crate) fn parse_regex_matcher(
         ws(parse_subfield_codes),
         ws(alt(("=~".value(false), "!~".value(true)))),
         parse_string.verify_map(|re| {
-            String::from_utf8(re).ok().filter(|s| Regex::new(s).is_ok())
+            String::from_utf8(re).ok().filter(|s| is_valid_regex(s))
         }),
     )
         .with_taken()
@@ -157,17 +173,15 @@ pub(crate) fn parse_regex_set_matcher(
             terminated(
                 separated(
                     1..,
-                    parse_string.verify_map(|re| {
-                        String::from_utf8(re)
-                            .ok()
-                            .filter(|s| Regex::new(s).is_ok())
-                    }),
+                    parse_string
+                        .verify_map(|re| String::from_utf8(re).ok()),
                     ws(','),
                 ),
                 opt(ws(',')),
             ),
             ws(']'),
-        ),
+        )
+        .verify(|re: &Vec<String>| is_valid_regex_set(re)),
     )
         .with_taken()
         .map(|((quantifier, codes, invert, re), raw_data)| {
-- 
2.43.0

