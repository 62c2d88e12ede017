From 8052df7b6ce946b5ff2a90f5ee0f029167a969ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 1/7] fix: accept extension options after a single extension
 number

`extensions 100 [opt = 1];` is valid, but was rejected because a '[' was not
expected directly after a number without a 'to'.
---
 protox-parse/src/parse/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index d04733d..4e1486b 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -846,7 +846,9 @@ impl<'a> Parser<'a> {
                     _ => self.unexpected_token("an integer or 'max'")?,
                 }
             }
-            Some((Token::Comma | Token::Semicolon, _)) => ast::ReservedRangeEnd::None,
+            Some((Token::Comma | Token::Semicolon | Token::LeftBracket, _)) => {
+                ast::ReservedRangeEnd::None
+            }
             _ => self.unexpected_token("'to', ',' or ';'")?,
         };
 
-- 
2.43.0


From a379bc98b86d72fb9e27dc712434a8efc49f8f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 2/7] fix: accept reserved names starting with an underscore

`_foo` is a valid identifier (the lexer accepts it as a field name), so
`reserved "_foo";` is valid too.
---
 protox-parse/src/case.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/case.rs b/protox-parse/src/case.rs
index 97f9302..2d5fbfe 100644
--- a/protox-parse/src/case.rs
+++ b/protox-parse/src/case.rs
@@ -1,6 +1,6 @@
 pub(crate) fn is_valid_ident(s: &str) -> bool {
     !s.is_empty()
-        && s.as_bytes()[0].is_ascii_alphabetic()
+        && (s.as_bytes()[0].is_ascii_alphabetic() || s.as_bytes()[0] == b'_')
         && s.as_bytes()[1..]
             .iter()
             .all(|&ch| ch.is_ascii_alphanumeric() || ch == b'_')
-- 
2.43.0


From 3793e1710648c67b07a8a723d1776077d5b369b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 3/7] fix: keep blank lines in block comments

Stripping the indentation of a line also stripped any following blank lines,
as a newline counts as whitespace.
---
 protox-parse/src/lex/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index b9eb3df..e28dd33 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -398,7 +398,9 @@ fn block_comment<'a>(lex: &mut Lexer<'a, Token<'a>>) -> Cow<'a, str> {
             }
             Some(Ok(Component::Newline)) => {
                 cow_push_str(&mut result, "\n");
-                let stripped = comment_lexer.remainder().trim_start();
+                let stripped = comment_lexer
+                    .remainder()
+                    .trim_start_matches([' ', '\t', '\x0b', '\x0c', '\r']);
                 comment_lexer.bump(comment_lexer.remainder().len() - stripped.len());
                 if stripped.starts_with('*') && !stripped.starts_with("*/") {
                     comment_lexer.bump(1);
-- 
2.43.0


From 47d0314dab48f929839c6fa83271db649c2d1c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:14 +0000
Subject: [PATCH 4/7] fix: attach a block comment on the same line to the
 preceding element

A block comment following an element on the same line is its trailing comment,
but was attached to the element on the next line as leading comment. Line
comments already behaved correctly.
---
 protox-parse/src/parse/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index 4e1486b..c230bfc 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -1200,6 +1200,7 @@ impl<'a> Parser<'a> {
                     if let Some((Token::Newline, _)) = self.peek_comments()? {
                         self.bump();
                         self.comments.block_comment(comment);
+                        self.comments.flush();
                     } else {
                         return self.peek_skip_comments();
                     }
-- 
2.43.0


From f59d610aaf2d2ba2bf4c496485ce71b9014b9387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:51 +0000
Subject: [PATCH 5/7] fix: limit the nesting depth of messages to avoid a stack
 overflow

Parsing deeply nested messages or groups overflowed the stack and aborted the
process. Use the same limit as protoc.
---
 protox-parse/src/error.rs     | 11 ++++++++++-
 protox-parse/src/lib.rs       |  3 +++
 protox-parse/src/parse/mod.rs | 18 ++++++++++++++++++
 3 files changed, 31 insertions(+), 1 deletion(-)

diff --git a/protox-parse/src/error.rs b/protox-parse/src/error.rs
index d7ca868..be335a3 100644
--- a/protox-parse/src/error.rs
+++ b/protox-parse/src/error.rs
@@ -4,7 +4,7 @@ use logos::Span;
 use miette::{Diagnostic, NamedSource, SourceCode};
 use thiserror::Error;
 
-use crate::MAX_MESSAGE_FIELD_NUMBER;
+use crate::{MAX_MESSAGE_FIELD_NUMBER, MAX_MESSAGE_NESTING};
 
 /// An error that may occur while parsing a protobuf source file.
 #[derive(Error, Diagnostic)]
@@ -210,6 +210,14 @@ pub(crate) enum ParseErrorKind {
         #[label("defined here")]
         span: Span,
     },
+    #[error(
+        "messages may not be nested more than {} levels deep",
+        MAX_MESSAGE_NESTING
+    )]
+    MessageNestingTooDeep {
+        #[label("found here")]
+        span: Span,
+    },
     #[error("file is too large")]
     #[diagnostic(help("the maximum file length is 2,147,483,647 bytes"))]
     FileTooLarge,
@@ -274,6 +282,7 @@ impl ParseError {
             ParseErrorKind::ValueInvalidType { span, .. } => Some(span.clone()),
             ParseErrorKind::IntegerValueOutOfRange { span, .. } => Some(span.clone()),
             ParseErrorKind::EmptyOneof { span } => Some(span.clone()),
+            ParseErrorKind::MessageNestingTooDeep { span } => Some(span.clone()),
             ParseErrorKind::FileTooLarge => None,
         }
     }
diff --git a/protox-parse/src/lib.rs b/protox-parse/src/lib.rs
index 290dc35..8d09cc4 100644
--- a/protox-parse/src/lib.rs
+++ b/protox-parse/src/lib.rs
@@ -22,6 +22,9 @@ mod tests;
 
 const MAX_MESSAGE_FIELD_NUMBER: i32 = 536_870_911;
 
+/// The maximum depth of nested message (or group) definitions, matching the limit used by `protoc`.
+const MAX_MESSAGE_NESTING: u32 = 31;
+
 /// Parses a single protobuf source file into a [`FileDescriptorProto`].
 ///
 /// This function only looks at the syntax of the file, without resolving type names or reading
diff --git a/protox-parse/src/parse/mod.rs b/protox-parse/src/parse/mod.rs
index c230bfc..32d36b9 100644
--- a/protox-parse/src/parse/mod.rs
+++ b/protox-parse/src/parse/mod.rs
@@ -13,6 +13,7 @@ use crate::{
     error::ParseErrorKind,
     join_span,
     lex::{EqFloat, Token},
+    MAX_MESSAGE_NESTING,
 };
 
 mod comments;
@@ -31,6 +32,7 @@ struct Parser<'a> {
     lexer: Lexer<'a, Token<'a>>,
     peek: Option<Result<(Token<'a>, Span), ()>>,
     comments: Comments,
+    message_depth: u32,
 }
 
 #[derive(Debug, Clone)]
@@ -56,6 +58,7 @@ impl<'a> Parser<'a> {
             lexer: Token::lexer(source),
             comments: Comments::new(),
             peek: None,
+            message_depth: 0,
         }
     }
 
@@ -261,6 +264,21 @@ impl<'a> Parser<'a> {
     }
 
     fn parse_message_body(&mut self) -> Result<(ast::MessageBody, Span), ()> {
+        // Limit the depth of nested messages and groups, to avoid overflowing the stack.
+        if self.message_depth >= MAX_MESSAGE_NESTING {
+            self.add_error(ParseErrorKind::MessageNestingTooDeep {
+                span: self.lexer.span(),
+            });
+            return Err(());
+        }
+
+        self.message_depth += 1;
+        let result = self.parse_message_items();
+        self.message_depth -= 1;
+        result
+    }
+
+    fn parse_message_items(&mut self) -> Result<(ast::MessageBody, Span), ()> {
         let mut items = Vec::new();
         let mut options = Vec::new();
         let mut reserved = Vec::new();
-- 
2.43.0


From 8227488f152220b586179a63486758e4109a5567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:37 +0000
Subject: [PATCH 6/7] fix: reject integers with a leading zero that are not
 octal

'08' was read as the value 0, and '018' hit a debug assertion.
---
 protox-parse/src/lex/mod.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index e28dd33..3955c9c 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -15,7 +15,7 @@ pub(crate) enum Token<'a> {
     #[regex("[A-Za-z_][A-Za-z0-9_]*")]
     Ident(&'a str),
     #[regex("0", |_| 0)]
-    #[regex("0[0-7]+", |lex| int(lex, 8, 1))]
+    #[regex("0[0-9]+", |lex| int(lex, 8, 1))]
     #[regex("[1-9][0-9]*", |lex| int(lex, 10, 0))]
     #[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]
     IntLiteral(u64),
@@ -188,10 +188,11 @@ fn int<'a>(lex: &mut Lexer<'a, Token<'a>>, radix: u32, prefix_len: usize) -> Res
     match u64::from_str_radix(&lex.source()[span.clone()], radix) {
         Ok(value) => Ok(value),
         Err(err) => {
-            debug_assert_eq!(err.kind(), &IntErrorKind::PosOverflow);
-            lex.extras
-                .errors
-                .push(ParseErrorKind::IntegerOutOfRange { span });
+            lex.extras.errors.push(match err.kind() {
+                // A literal starting with zero that is not a valid octal number
+                IntErrorKind::InvalidDigit => ParseErrorKind::InvalidToken { span: lex.span() },
+                _ => ParseErrorKind::IntegerOutOfRange { span },
+            });
             Ok(Default::default())
         }
     }
-- 
2.43.0


From 33f10cab56a74f519ef4536b5234256f243f8289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 7/7] fix: require space between a zero literal and an
 identifier

---
 protox-parse/src/lex/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protox-parse/src/lex/mod.rs b/protox-parse/src/lex/mod.rs
index 3955c9c..e80f96c 100644
--- a/protox-parse/src/lex/mod.rs
+++ b/protox-parse/src/lex/mod.rs
@@ -14,7 +14,7 @@ use super::error::ParseErrorKind;
 pub(crate) enum Token<'a> {
     #[regex("[A-Za-z_][A-Za-z0-9_]*")]
     Ident(&'a str),
-    #[regex("0", |_| 0)]
+    #[regex("0", |lex| int(lex, 10, 0))]
     #[regex("0[0-9]+", |lex| int(lex, 8, 1))]
     #[regex("[1-9][0-9]*", |lex| int(lex, 10, 0))]
     #[regex("0[xX][0-9A-Fa-f]+", |lex| int(lex, 16, 2))]
-- 
2.43.0

