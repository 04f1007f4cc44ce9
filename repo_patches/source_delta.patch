From 0c18a32bd04c8ffcff3cb99b18ce04f1fa8926c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:55 +0000
Subject: [PATCH 01/91] fix: stop at the end of source in unterminated template
 and regex literals

The template and regular expression readers never looked for the
terminating NUL, so they read past the end of the source buffer.
---
 ratel/src/lexer/mod.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 923361b..da2a333 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -775,6 +775,10 @@ impl<'arena> Lexer<'arena> {
                         _ => self.bump()
                     }
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return;
+                },
                 _ => self.bump()
             }
         }
@@ -1014,6 +1018,10 @@ impl<'arena> Lexer<'arena> {
                     self.token = UnexpectedToken;
                     return "";
                 },
+                0 => {
+                    self.token = UnexpectedEndOfProgram;
+                    return "";
+                },
                 _     => self.bump()
             }
         }
-- 
2.43.0


From add48c1441e12df6f8397443c4e2e9976b411b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 02/91] fix: make progress on non-identifier unicode characters

An unexpected non-ASCII character was reported without being consumed,
so the parser kept reporting the same character forever.
---
 ratel/src/lexer/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index da2a333..e722142 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -463,6 +463,9 @@ const UNI: ByteHandler = Some(|lex| {
     let first = lex.slice_source(start, start + 4).chars().next().expect("Has to have one");
 
     if !first.is_alphanumeric() {
+        // Step over the character, so that the lexer always makes progress.
+        lex.index += first.len_utf8();
+
         return lex.token = UnexpectedToken;
     }
 
-- 
2.43.0


From c98f98c145a8dc663bdbecc08fce1b660897973c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:41 +0000
Subject: [PATCH 03/91] fix: accept unicode property names, stop at the end of
 source after a dot
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

`a.é` hit an `unimplemented!()`, and a trailing dot made the lexer skip
the terminating NUL and read past the end of the source buffer.
---
 ratel/src/lexer/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index e722142..209504c 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -889,8 +889,17 @@ impl<'arena> Lexer<'arena> {
                 self.accessor_start = self.index;
 
                 if ch > 127 {
-                    unimplemented!();
-                    // return unicode(self)
+                    let start = self.index;
+                    let first = self.slice_source(start, start + 4).chars().next().expect("Has to have one");
+
+                    if !first.is_alphanumeric() {
+                        self.index += first.len_utf8();
+
+                        return self.token = UnexpectedToken;
+                    }
+
+                    self.read_label();
+                    return self.token = Accessor;
                 } else if TABLE[ch as usize] {
                     self.read_label();
                     return self.token = Accessor;
@@ -899,6 +908,10 @@ impl<'arena> Lexer<'arena> {
                 }
             }
 
+            if ch == 0 {
+                return self.token = UnexpectedEndOfProgram;
+            }
+
             self.bump();
         })
     }
-- 
2.43.0


From 96dc9c7bcf2c9c404e000199b3944e44b9e1d1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:02 +0000
Subject: [PATCH 04/91] fix: do not lose line terminators around comments for
 semicolon insertion

A block comment after a line break dropped the line break, and a line
break inside of a block comment was not recognised at all.
---
 ratel/src/lexer/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 209504c..72c0c3f 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -403,7 +403,7 @@ const SLH: ByteHandler = Some(|lex| {
             unwind_loop!({
                 match lex.next_byte() {
                     0 | b'\n' => {
-                        return lex.consume();
+                        return lex.consume_next();
                     }
                     _ => {}
                 }
@@ -420,12 +420,16 @@ const SLH: ByteHandler = Some(|lex| {
                         match lex.next_byte() {
                             b'/' => {
                                 lex.bump();
-                                return lex.consume();
+                                return lex.consume_next();
                             },
                             0 => return lex.token = UnexpectedEndOfProgram,
                             _ => {}
                         }
                     },
+                    b'\n' => {
+                        lex.bump();
+                        lex.asi = Asi::ImplicitSemicolon;
+                    },
                     0 => return lex.token = UnexpectedEndOfProgram,
                     _ => lex.bump()
                 }
@@ -660,6 +664,13 @@ impl<'arena> Lexer<'arena> {
     pub fn consume(&mut self) {
         self.asi = Asi::NoSemicolon;
 
+        self.consume_next()
+    }
+
+    /// Same as `consume`, but keeps track of line terminators already seen since the
+    /// previous token. This is how the lexer continues after skipping a comment.
+    #[inline]
+    fn consume_next(&mut self) {
         let mut ch;
 
         unwind_loop!({
-- 
2.43.0


From abc7c84576bfbed4729a8cec969352f79e8f5007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 05/91] fix: treat a lone carriage return as a line terminator

---
 ratel/src/lexer/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 72c0c3f..a721d03 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -402,7 +402,7 @@ const SLH: ByteHandler = Some(|lex| {
             // Keep consuming bytes until new line or end of source
             unwind_loop!({
                 match lex.next_byte() {
-                    0 | b'\n' => {
+                    0 | b'\n' | b'\r' => {
                         return lex.consume_next();
                     }
                     _ => {}
@@ -426,7 +426,7 @@ const SLH: ByteHandler = Some(|lex| {
                             _ => {}
                         }
                     },
-                    b'\n' => {
+                    b'\n' | b'\r' => {
                         lex.bump();
                         lex.asi = Asi::ImplicitSemicolon;
                     },
@@ -683,7 +683,7 @@ impl<'arena> Lexer<'arena> {
 
             self.bump();
 
-            if ch == b'\n' {
+            if ch == b'\n' || ch == b'\r' {
                 self.asi = Asi::ImplicitSemicolon;
             }
         })
-- 
2.43.0


From e3f79b6317dad5f9e491bee356bbdfea70ef002b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:17 +0000
Subject: [PATCH 06/91] fix: end an unterminated switch case at the end of
 program

The loop reading the statements of a case never stopped at the end of
the source.
---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 3e56e67..14988bd 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -139,7 +139,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
 
         loop {
             match par.lexer.token {
-                Case | Default | BraceClose => break,
+                Case | Default | BraceClose | EndOfProgram => break,
                 _ => {
                     let statement = par.statement();
                     end = statement.end;
-- 
2.43.0


From 0f042dfbfca6e58601e61016b04b0250e787020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 07/91] fix: parse exponentiation as right associative

---
 ratel/src/parser/nested.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 96b8980..32d6f9d 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -426,7 +426,8 @@ binary!(SUB  , B13 => Subtraction);
 binary!(MUL  , B14 => Multiplication);
 binary!(DIV  , B14 => Division);
 binary!(REM  , B14 => Remainder);
-binary!(EXPN , B15 => Exponent);
+// Exponentiation is right associative
+binary!(EXPN , B14 => Exponent);
 
 
 impl<'ast> Parser<'ast> {
-- 
2.43.0


From 1bdeb6d0708a18cfb0ca1aebc1f2ab9f9a66ca2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 08/91] fix: require closing brackets

Blocks, array and object literals, patterns and call arguments consumed
whatever token came after their last item, so unclosed ones were
accepted without an error.
---
 ratel/src/parser/expression.rs | 8 ++++++--
 ratel/src/parser/function.rs   | 8 ++++++--
 ratel/src/parser/mod.rs        | 8 ++++++--
 ratel/src/parser/nested.rs     | 4 +++-
 ratel/src/parser/statement.rs  | 4 +++-
 5 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 7b3aebc..3256660 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -348,7 +348,9 @@ impl<'ast> Parser<'ast> {
     pub fn object_expression(&mut self) -> ExpressionNode<'ast> {
         let start = self.lexer.start_then_consume();
         let body = self.property_list();
-        let end = self.lexer.end_then_consume();
+        let end = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, ObjectExpression {
             body
@@ -477,7 +479,9 @@ impl<'ast> Parser<'ast> {
     pub fn array_expression(&mut self) -> ExpressionNode<'ast> {
         let start = self.lexer.start_then_consume();
         let body = self.array_elements(|par| par.expression_in_context::<B0>(ARRAY_CONTEXT));
-        let end = self.lexer.end_then_consume();
+        let end = self.lexer.end();
+
+        expect!(self, BracketClose);
 
         self.alloc_at_loc(start, end, ArrayExpression { body })
     }
diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index a9bcbdd..965c66c 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -246,7 +246,9 @@ impl<'ast> Parser<'ast> {
     fn pattern_array(&mut self) -> Node<'ast, Pattern<'ast>> {
         let start = self.lexer.start_then_consume();
         let elements = self.array_elements(Parser::pattern_array_element);
-        let end = self.lexer.end_then_consume();
+        let end = self.lexer.end();
+
+        expect!(self, BracketClose);
 
         self.alloc_at_loc(start, end, Pattern::ArrayPattern {
             elements
@@ -257,7 +259,9 @@ impl<'ast> Parser<'ast> {
     fn pattern_object(&mut self) -> Node<'ast, Pattern<'ast>> {
         let start = self.lexer.start_then_consume();
         let properties = self.property_list();
-        let end = self.lexer.end_then_consume();
+        let end = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, Pattern::ObjectPattern {
             properties,
diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 9b99d1a..2f76879 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -127,7 +127,9 @@ impl<'ast> Parser<'ast> {
         }
 
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
@@ -139,7 +141,9 @@ impl<'ast> Parser<'ast> {
     {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 32d6f9d..63cc290 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -286,7 +286,9 @@ const ACCS: NestedHandler = Some(|par, left| {
 const CALL: NestedHandler = Some(|par, left| {
     let start = par.lexer.start_then_consume();
     let arguments = par.call_arguments();
-    let end = par.lexer.end_then_consume();
+    let end = par.lexer.end();
+
+    expect!(par, ParenClose);
 
     par.alloc_at_loc(start, end, CallExpression {
         callee: left,
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 14988bd..64e36a9 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -176,7 +176,9 @@ impl<'ast> Parser<'ast> {
     pub fn block_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
         let block = self.raw_block();
-        let end   = self.lexer.end_then_consume();
+        let end   = self.lexer.end();
+
+        expect!(self, BraceClose);
 
         self.alloc_at_loc(start, end, block)
     }
-- 
2.43.0


From 776896f8f2ad7dd1ce3cbf31670666450dc07433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 09/91] fix: report a NUL byte in the source instead of
 ignoring the rest of it

---
 ratel/src/parser/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 2f76879..e42a749 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -231,6 +231,12 @@ pub fn parse<'src, 'ast>(source: &'src str) -> Result<Module<'ast>, Vec<Error>>
 
         parser.parse();
 
+        // The lexer ends the program at the first NUL byte, which
+        // does not need to be the end of the source.
+        if (parser.lexer.end() as usize) < source.len() {
+            parser.error::<()>();
+        }
+
         (parser.body.into_unsafe(), parser.errors)
     };
 
-- 
2.43.0


From ca5f7c77f1f375b24020699988b5f7290441e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 10/91] fix: report the right line for errors at the start of a
 line

---
 ratel/src/error.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/ratel/src/error.rs b/ratel/src/error.rs
index a4d15d7..ee37fe7 100644
--- a/ratel/src/error.rs
+++ b/ratel/src/error.rs
@@ -49,13 +49,11 @@ impl Display for ParseError {
                 start,
                 end
             } => {
-                let (lineno, line) = source[..start]
-                                       .lines()
-                                       .enumerate()
-                                       .last()
-                                       .unwrap_or((0, ""));
+                let before = &source[..start];
+                let line_start = before.rfind('\n').map(|index| index + 1).unwrap_or(0);
 
-                let colno = line.chars().count();
+                let lineno = before.matches('\n').count();
+                let colno = before[line_start..].chars().count();
                 let token_len = source[start..end].chars().count();
 
                 writeln!(f, "Unexpected token at {}:{}\n", lineno + 1, colno + 1)?;
-- 
2.43.0


From ab43eb8fe5fc7e1b4b1b91111ad0f95f3f2a7855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 11/91] fix: bind the operand of `new` to a member expression

`new Foo().bar` was parsed as `new (Foo().bar)`, and the parenthesis of
`new (foo())` had no effect.
---
 ratel/src/parser/expression.rs | 42 ++++++++++++++++++++++++++++++++--
 ratel/src/parser/nested.rs     | 24 +++++++++++--------
 2 files changed, 54 insertions(+), 12 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 3256660..f548371 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, BindingPower, ANY, B0, B15};
+use parser::{Parser, Parse, BindingPower, ANY, B0, B15, MEMBER};
 use lexer::Token::*;
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
 use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode};
@@ -153,7 +153,7 @@ create_handlers! {
             par.lexer.consume();
             par.alloc_at_loc(start, end, expression)
         } else {
-            let expression = par.prefix_expression(OperatorKind::New);
+            let expression = par.new_expression();
             let end = par.lexer.end();
             par.alloc_at_loc(start, end, expression)
         }
@@ -344,6 +344,44 @@ impl<'ast> Parser<'ast> {
         }
     }
 
+    /// The callee of `new` is a member expression, the first argument list
+    /// following it belongs to `new` itself.
+    #[inline]
+    pub fn new_expression(&mut self) -> PrefixExpression<'ast> {
+        let callee = self.expression::<MEMBER>();
+
+        let operand = match (self.lexer.token, callee.item) {
+            (ParenOpen, _) => self.call_expression(callee),
+
+            // `new (foo())` calls the result of `foo()`
+            (_, Expression::Call(_)) => self.alloc_at_loc(callee.start, callee.end, CallExpression {
+                callee,
+                arguments: NodeList::empty(),
+            }),
+
+            _ => callee,
+        };
+
+        PrefixExpression {
+            operator: OperatorKind::New,
+            operand,
+        }
+    }
+
+    #[inline]
+    pub fn call_expression(&mut self, callee: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
+        let start = self.lexer.start_then_consume();
+        let arguments = self.call_arguments();
+        let end = self.lexer.end();
+
+        expect!(self, ParenClose);
+
+        self.alloc_at_loc(start, end, CallExpression {
+            callee,
+            arguments,
+        })
+    }
+
     #[inline]
     pub fn object_expression(&mut self) -> ExpressionNode<'ast> {
         let start = self.lexer.start_then_consume();
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 63cc290..2878b3a 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -224,6 +224,19 @@ bp!(B15, [
     ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
 ]);
 
+// Member expressions only, for the callee of `new`
+bp!(MEMBER, [
+    ____, ____, ____, ____, ____, ____, CMEM, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
+]);
+
 const ____: NestedHandler = None;
 
 const SEQ: NestedHandler = Some(|par, left| {
@@ -284,16 +297,7 @@ const ACCS: NestedHandler = Some(|par, left| {
 });
 
 const CALL: NestedHandler = Some(|par, left| {
-    let start = par.lexer.start_then_consume();
-    let arguments = par.call_arguments();
-    let end = par.lexer.end();
-
-    expect!(par, ParenClose);
-
-    par.alloc_at_loc(start, end, CallExpression {
-        callee: left,
-        arguments,
-    })
+    par.call_expression(left)
 });
 
 const CMEM: NestedHandler = Some(|par, left| {
-- 
2.43.0


From 25f380048d129700b58e074c4aed889a8588b8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 12/91] fix: serialize `new` expressions without arguments

---
 ratel/src/astgen/expression.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/expression.rs b/ratel/src/astgen/expression.rs
index f9732ee..20fd6f1 100644
--- a/ratel/src/astgen/expression.rs
+++ b/ratel/src/astgen/expression.rs
@@ -164,15 +164,14 @@ impl<'ast> SerializeInLoc for PrefixExpression<'ast> {
                         state.serialize_field("arguments", arguments)
                     })
                 },
-                Literal(_) => {
+                _ => {
                     self.in_loc(serializer, expr_type, 2, |state| {
                         // 0 byte array, will be optimized away
                         let arguments: [(); 0] = [];
                         state.serialize_field("callee", &self.operand)?;
                         state.serialize_field("arguments", &arguments)
                     })
-                },
-                _ => unimplemented!()
+                }
             }
         } else {
             self.in_loc(serializer, expr_type, 3, |state| {
-- 
2.43.0


From f82274dc46e0b656418b55a5e35f4e362c4b1a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:28 +0000
Subject: [PATCH 13/91] fix: serialize array patterns with holes

---
 ratel/src/astgen/value.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 35a17c1..369364a 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -259,6 +259,15 @@ impl<'ast> SerializeInLoc for Pattern<'ast> {
                 state.serialize_field("keys", &properties)
             }),
             ArrayPattern { elements } => self.in_loc(serializer, "ArrayPattern", 1, |state| {
+                // Same as in ArrayExpression: holes are `null`, except for the trailing ones
+                let mut elements = elements.iter()
+                                           .map(|loc| if loc.item != Void { Some(loc) } else { None })
+                                           .collect::<Vec<_>>();
+
+                while let Some(&None) = elements.last() {
+                    elements.pop();
+                }
+
                 state.serialize_field("elements", &elements)
             }),
             AssignmentPattern { left, right } => {
-- 
2.43.0


From 051a252c721d83d1424b970888c6d115c3d39c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 14/91] fix: serialize class properties and the computed flag
 of methods

---
 ratel/src/astgen/function.rs | 11 ++++++++---
 ratel/src/astgen/value.rs    | 20 ++++++++++++--------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 63bb687..15888b0 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -31,13 +31,18 @@ impl<'ast> SerializeInLoc for ClassMember<'ast> {
                 self.in_loc(serializer, "MethodDefinition", 5, |state| {
                     state.serialize_field("kind", &kind)?;
                     state.serialize_field("static", &is_static)?;
-                    state.serialize_field("computed", &false)?;
+                    state.serialize_field("computed", &key.is_computed())?;
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("value", &value)
                 })
             },
-            Literal { .. } => {
-                unimplemented!()
+            Literal { is_static, key, value } => {
+                self.in_loc(serializer, "PropertyDefinition", 4, |state| {
+                    state.serialize_field("static", &is_static)?;
+                    state.serialize_field("computed", &key.is_computed())?;
+                    state.serialize_field("key", &*key)?;
+                    state.serialize_field("value", &value)
+                })
             }
         }
     }
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 369364a..095bea7 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -114,17 +114,11 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                 Expression::Identifier(value).serialize(serializer)
             }
             Literal { key, value } => {
-                let computed = if let PropertyKey::Computed(_) = key.item {
-                    true
-                } else {
-                    false
-                };
-
                 self.in_loc(serializer, "Property", 6, |state| {
                     state.serialize_field("key", &*key)?;
                     state.serialize_field("method", &false)?;
                     state.serialize_field("shorthand", &false)?;
-                    state.serialize_field("computed", &computed)?;
+                    state.serialize_field("computed", &key.is_computed())?;
                     state.serialize_field("value", &value)?;
                     state.serialize_field("kind", &"init")
                 })
@@ -133,7 +127,7 @@ impl<'ast> SerializeInLoc for Property<'ast> {
                 state.serialize_field("key", &*key)?;
                 state.serialize_field("method", &true)?;
                 state.serialize_field("shorthand", &false)?;
-                state.serialize_field("computed", &false)?;
+                state.serialize_field("computed", &key.is_computed())?;
                 state.serialize_field("value", &value)?;
                 state.serialize_field("kind", &"init")
             }),
@@ -144,6 +138,16 @@ impl<'ast> SerializeInLoc for Property<'ast> {
     }
 }
 
+impl<'ast> PropertyKey<'ast> {
+    #[inline]
+    pub(crate) fn is_computed(&self) -> bool {
+        match *self {
+            PropertyKey::Computed(_) => true,
+            _                        => false,
+        }
+    }
+}
+
 impl<'ast> Serialize for Loc<PropertyKey<'ast>> {
     fn serialize<S>(&self, serializer: S) -> Result<S::Ok, S::Error>
     where
-- 
2.43.0


From f35f4b945eb1da5b59d8401dc4e154753ee3e5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 15/91] fix: reject numbers without digits after the prefix or
 exponent

---
 ratel/src/lexer/mod.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index a721d03..30deebc 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -847,6 +847,11 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_binary(&mut self) {
+        match self.read_byte() {
+            b'0' | b'1' => {},
+            _ => return self.token = UnexpectedToken,
+        }
+
         loop {
             match self.read_byte() {
                 b'0' => {
@@ -954,6 +959,11 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_octal(&mut self) {
+        match self.read_byte() {
+            b'0'..=b'7' => {},
+            _ => return self.token = UnexpectedToken,
+        }
+
         while match self.read_byte() {
             b'0'..=b'7' => true,
             _ => false,
@@ -966,6 +976,10 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     fn read_hexadec(&mut self) {
+        if !self.read_byte().is_ascii_hexdigit() {
+            return self.token = UnexpectedToken;
+        }
+
         while match self.read_byte() {
             b'0'..=b'9' |
             b'a'..=b'f' |
@@ -1001,6 +1015,10 @@ impl<'arena> Lexer<'arena> {
             _           => {}
         }
 
+        if !self.read_byte().is_ascii_digit() {
+            return self.token = UnexpectedToken;
+        }
+
         while match self.read_byte() {
             b'0'..=b'9' => true,
             _ => false,
-- 
2.43.0


From 175d3456998850a8441265fbeb0394797c640d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 16/91] fix: serialize numbers with exponents and numbers over
 31 bits

---
 ratel/src/astgen/value.rs | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 095bea7..ba17bd4 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -27,7 +27,27 @@ pub fn parse_regex(value: &str) -> RegExLiteral {
 
 #[inline]
 pub fn is_float(value: &str) -> bool {
-    value.bytes().any(|c| c == b'.')
+    value.bytes().any(|c| c == b'.' || c == b'e' || c == b'E')
+}
+
+/// Value of an integer literal. Integers that do not fit in 64 bits are not
+/// necessarily precise.
+#[derive(Debug, Serialize)]
+#[serde(untagged)]
+pub enum Integer {
+    Exact(u64),
+    Approximate(f64),
+}
+
+#[inline]
+pub fn parse_integer(digits: &str, radix: u32) -> Integer {
+    match u64::from_str_radix(digits, radix) {
+        Ok(value)             => Integer::Exact(value),
+        Err(_) if radix == 10 => Integer::Approximate(digits.parse().expect("Invalid number")),
+        Err(_)                => Integer::Approximate(digits.chars().fold(0.0, |value, digit| {
+            value * f64::from(radix) + f64::from(digit.to_digit(radix).unwrap_or(0))
+        })),
+    }
 }
 
 #[derive(Debug)]
@@ -211,7 +231,7 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                             let radix = if is_hexdecimal { 16 } else { 8 };
                             state.serialize_field(
                                 "value",
-                                &i32::from_str_radix(value, radix).expect("Invalid number"),
+                                &parse_integer(value, radix),
                             )?;
                             return state.serialize_field("raw", &number)
                         }
@@ -223,15 +243,14 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                         return state.serialize_field("raw", &number)
                     }
 
-                    let value: i64 = number.parse().expect("Invalid number");
-                    state.serialize_field("value", &value)?;
+                    state.serialize_field("value", &parse_integer(number, 10))?;
                     state.serialize_field("raw", &number)
                 }
                 Binary(number) => {
                     let value = unsafe { number.get_unchecked(2..number.len()) };
                     state.serialize_field(
                         "value",
-                        &i32::from_str_radix(value, 2).expect("Invalid number"),
+                        &parse_integer(value, 2),
                     )?;
                     state.serialize_field("raw", &number)
                 }
-- 
2.43.0


From 0fcb56014562a4f23dbcfc986b2c5c14c21a9d31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 17/91] fix: parse the whole right side of for-in statements

---
 ratel/src/parser/statement.rs | 36 +++++++++++------------------------
 1 file changed, 11 insertions(+), 25 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 64e36a9..6d60a4a 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,16 +1,14 @@
 use toolshed::list::{ListBuilder, GrowableList};
-use parser::{Parser, Parse, ANY, B0};
+use parser::{Parser, Parse, ANY, B0, B15};
 use lexer::Token::*;
 use lexer::Asi;
 use ast::{Node, NodeList, Declarator, DeclarationKind};
-use ast::{Statement, StatementNode, Expression, ExpressionNode, Class, Function, Pattern};
-use ast::expression::BinaryExpression;
+use ast::{Statement, StatementNode, ExpressionNode, Class, Function, Pattern};
 use ast::statement::{ThrowStatement, ContinueStatement, BreakStatement, ReturnStatement};
 use ast::statement::{TryStatement, CatchClause, IfStatement, WhileStatement, DoStatement};
 use ast::statement::{DeclarationStatement, ForStatement, ForInStatement, ForOfStatement};
 use ast::statement::{SwitchStatement, SwitchCase, LabeledStatement, ForInit};
 use ast::statement::{ImportDeclaration, ImportDefaultSpecifier, ImportNamespaceSpecifier, ImportSpecifier, ForImportSpecifier};
-use ast::OperatorKind::*;
 
 
 type StatementHandler = for<'ast> fn(&mut Parser<'ast>) -> StatementNode<'ast>;
@@ -506,19 +504,19 @@ impl<'ast> Parser<'ast> {
             DeclarationLet   => Some(self.for_init(DeclarationKind::Let)),
             DeclarationConst => Some(self.for_init(DeclarationKind::Const)),
             _ => {
-                let init = self.expression::<ANY>();
+                let init = self.expression::<B15>();
 
-                if let Expression::Binary(BinaryExpression {
-                    operator: In,
-                    left,
-                    right,
-                    ..
-                }) = init.item {
-                    let left = self.alloc_at_loc(left.start, left.end, left);
+                // `in` following the first operand separates the two sides
+                // of the for-in statement, and is never a binary operator.
+                if self.lexer.token == OperatorIn {
+                    let left = self.alloc_at_loc(init.start, init.end, init);
 
-                    return self.for_in_statement_from_parts(start, left, right);
+                    self.lexer.consume();
+                    return self.for_in_statement(start, left);
                 }
 
+                let init = self.nested_expression::<ANY>(init);
+
                 Some(self.alloc_at_loc(init.start, init.end, init))
             },
         };
@@ -573,18 +571,6 @@ impl<'ast> Parser<'ast> {
         })
     }
 
-    fn for_in_statement_from_parts(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>, right: ExpressionNode<'ast>) -> StatementNode<'ast> {
-        expect!(self, ParenClose);
-
-        let body = self.statement();
-
-        self.alloc_at_loc(start, body.end, ForInStatement {
-            left,
-            right,
-            body,
-        })
-    }
-
     fn for_in_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
         let right = self.expression::<ANY>();
 
-- 
2.43.0


From 8a4b17e5bd9fb20e405f7df3a3db0f113c41f432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:18 +0000
Subject: [PATCH 18/91] fix: consume the semicolon of a debugger statement

---
 ratel/src/parser/statement.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 6d60a4a..aeb5c08 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -74,6 +74,7 @@ create_handlers! {
     const DBGGR = |par| {
         let stmt = par.alloc_in_loc(Statement::Debugger);
         par.lexer.consume();
+        par.expect_semicolon();
 
         stmt
     };
-- 
2.43.0


From 34a9ff5223e4d6af3d4e40654edeeadebd8c8080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 19/91] fix: consume the optional semicolon of a do-while
 statement

---
 ratel/src/parser/statement.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index aeb5c08..e7d4be9 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -473,6 +473,11 @@ impl<'ast> Parser<'ast> {
         let end = self.lexer.end();
         expect!(self, ParenClose);
 
+        // The semicolon is always optional here, even on the same line.
+        if self.lexer.token == Semicolon {
+            self.lexer.consume();
+        }
+
         self.alloc_at_loc(start, end, DoStatement {
             body,
             test,
-- 
2.43.0


From 1a18333955666172b6f3ba8f16673a4dfc6c0f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:20 +0000
Subject: [PATCH 20/91] fix: end import declarations with a semicolon

---
 ratel/src/parser/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index e7d4be9..f57fbe3 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -658,6 +658,7 @@ impl<'ast> Parser<'ast> {
                 let str_ltr = self.lexer.token_as_str();
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
+                self.expect_semicolon();
 
                 return self.alloc_at_loc(start, end, ImportDeclaration {
                     specifiers: NodeList::empty(),
@@ -744,6 +745,7 @@ impl<'ast> Parser<'ast> {
             }
         };
         let end = self.lexer.end_then_consume();
+        self.expect_semicolon();
         self.alloc_at_loc(start, end, ImportDeclaration {
             specifiers: builder.as_list(),
             source,
-- 
2.43.0


From b79c432da3e61efbb11770e6ffe89a4a8570a46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:40 +0000
Subject: [PATCH 21/91] fix: start bare import declarations at the import
 keyword

---
 ratel/src/parser/statement.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index f57fbe3..4942aea 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -654,7 +654,6 @@ impl<'ast> Parser<'ast> {
                 }
             }
             LiteralString => { // empty import entry
-                let start = self.lexer.start();
                 let str_ltr = self.lexer.token_as_str();
                 let source = &str_ltr[1..str_ltr.len() - 1];
                 let end = self.lexer.end_then_consume();
-- 
2.43.0


From b2a08f280e3e5500058f4430b0f22409c9929fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:41 +0000
Subject: [PATCH 22/91] fix: accept empty import lists and trailing commas in
 them

---
 ratel/src/parser/statement.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 4942aea..a80a469 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -700,6 +700,10 @@ impl<'ast> Parser<'ast> {
                                     }
                                 }
                             },
+                            BraceClose => {
+                                self.lexer.consume();
+                                break;
+                            },
                             _ => {
                                 self.error::<()>();
                                 break;
-- 
2.43.0


From e0f0348b662dbffc3c744ef7b6abd2ffb3eaadfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 23/91] fix: parse member access on import, not a sequence

---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index a80a469..be33d29 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -627,7 +627,7 @@ impl<'ast> Parser<'ast> {
 
         let builder: GrowableList<Node<'ast, ForImportSpecifier>> = GrowableList::new();
         self.lexer.consume();
-        if self.lexer.token == Comma || self.lexer.token == ParenOpen {
+        if self.lexer.token == Accessor || self.lexer.token == ParenOpen {
             // call or access. example: `import()` `import.filed`
             let expression = self.alloc_at_loc(start, end, import);
             let expression = self.nested_expression::<ANY>(expression);
-- 
2.43.0


From 95086cc5d2aa515ddc90287487f088dcb4c539bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:22 +0000
Subject: [PATCH 24/91] fix: write the finally keyword

---
 ratel-codegen/src/statement.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 134d26a..a402ca5 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -257,6 +257,8 @@ impl<'ast, G: Generator> ToCode<G> for TryStatement<'ast> {
             gen.write(&handler.body);
         }
         if let Some(ref finalizer) = self.finalizer {
+            gen.write_pretty(b' ');
+            gen.write_bytes(b"finally");
             gen.write_pretty(b' ');
             gen.write(finalizer);
         }
-- 
2.43.0


From 999c26eaf765610b56b5ef968fc02b3072f23c64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 25/91] fix: write generator functions as generators

---
 ratel-codegen/src/function.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index c9e23f8..e47477b 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -59,6 +59,9 @@ impl<'ast, G, N> ToCode<G> for Function<'ast, N> where
     #[inline]
     fn to_code(&self, gen: &mut G) {
         N::write_function(gen);
+        if self.generator {
+            gen.write_byte(b'*');
+        }
         gen.write(&self.name);
         gen.write_byte(b'(');
         gen.write_list(&self.params);
-- 
2.43.0


From 078e0b2b3983718941e87bd9c2bdae1b348c4308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 26/91] fix: keep the quotes of import sources containing
 single quotes

---
 ratel-codegen/src/statement.rs | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index a402ca5..290eccf 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -319,11 +319,23 @@ impl<'ast, G: Generator> ToCode<G> for SwitchCase<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
+        // The source is kept without its quotes, and an unescaped single
+        // quote can only come from a double-quoted string.
+        let mut escaped = false;
+        let mut quote = b'\'';
+
+        for byte in self.source.bytes() {
+            if byte == b'\'' && !escaped {
+                quote = b'"';
+            }
+            escaped = byte == b'\\' && !escaped;
+        }
+
         gen.write_bytes(b"import ");
         if self.specifiers.is_empty() {
-            gen.write_byte(b'\'');
+            gen.write_byte(quote);
             gen.write(&self.source);
-            gen.write_byte(b'\'');
+            gen.write_byte(quote);
             return
         }
 
@@ -350,9 +362,10 @@ impl<'ast, G: Generator> ToCode<G> for ImportDeclaration<'ast> {
             gen.write_byte(b'}');
         }
 
-        gen.write_bytes(b" from '");
+        gen.write_bytes(b" from ");
+        gen.write_byte(quote);
         gen.write_bytes(self.source.as_bytes());
-        gen.write_byte(b'\'');
+        gen.write_byte(quote);
     }
 }
 impl<'ast, G: Generator> ToCode<G> for ForImportSpecifier<'ast> {
-- 
2.43.0


From 78678e095ebf07a72ce2a4d64ec67480a4b99c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 27/91] fix: keep the parentheses expressions need in generated
 code

---
 ratel-codegen/src/expression.rs | 124 +++++++++++++++++++++++++-------
 ratel-codegen/src/function.rs   |   4 +-
 ratel-codegen/src/lib.rs        |  35 ++++++++-
 ratel-codegen/src/statement.rs  |  12 +---
 ratel/src/ast/expression.rs     |  21 +++++-
 5 files changed, 156 insertions(+), 40 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 4796e5e..6d9e531 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -1,9 +1,62 @@
-use ratel::ast::{Expression, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
+use ratel::ast::{Expression, ExpressionNode, Literal, OperatorKind, OperatorCategory, Property, PropertyKey, Pattern};
 use ratel::ast::expression::*;
 
 use {ToCode, Generator};
 
 
+/// The operand that the code of an expression starts with
+pub fn leftmost<'a, 'ast>(mut expression: &'a Expression<'ast>) -> &'a Expression<'ast> {
+    use ratel::ast::Expression::*;
+
+    loop {
+        expression = match *expression {
+            Sequence(ref sequence) => match sequence.body.iter().next() {
+                Some(first) => &first.item,
+                None        => return expression,
+            },
+            Member(ref member)           => &member.object.item,
+            ComputedMember(ref computed) => &computed.object.item,
+            Call(ref call)               => &call.callee.item,
+            Binary(ref binary)           => &binary.left.item,
+            Postfix(ref postfix)         => &postfix.operand.item,
+            Conditional(ref conditional) => &conditional.test.item,
+            TaggedTemplate(ref tagged)   => &tagged.tag.item,
+            _                            => return expression,
+        };
+    }
+}
+
+/// Writes the object of a member expression
+#[inline]
+fn write_object<'ast, G: Generator>(gen: &mut G, object: &ExpressionNode<'ast>) {
+    let bp = match object.item {
+        // A dot following an integer would be read as a decimal point
+        Expression::Literal(Literal::Binary(_)) => 101,
+        Expression::Literal(Literal::Number(number)) if number.bytes().all(|ch| ch.is_ascii_digit()) => 101,
+        _ => 17,
+    };
+
+    gen.write_expression(object, bp);
+}
+
+/// Writes the callee of `new`, in which a call would end the expression
+#[inline]
+fn write_constructor<'ast, G: Generator>(gen: &mut G, callee: &ExpressionNode<'ast>) {
+    use ratel::ast::Expression::*;
+
+    let mut expression = &callee.item;
+
+    loop {
+        expression = match *expression {
+            Member(ref member)           => &member.object.item,
+            ComputedMember(ref computed) => &computed.object.item,
+            TaggedTemplate(ref tagged)   => &tagged.tag.item,
+            Call(_)                      => return gen.write_expression(callee, 101),
+            _                            => return gen.write_expression(callee, 18),
+        };
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for Expression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
@@ -68,7 +121,7 @@ impl<'ast, G: Generator> ToCode<G> for PropertyKey<'ast> {
         match *self {
             Computed(ref val) => {
                 gen.write_byte(b'[');
-                gen.write(val);
+                gen.write_expression(val, 3);
                 gen.write_byte(b']');
             },
             Literal(ref val) => gen.write(val),
@@ -91,7 +144,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 gen.write(key);
                 gen.write_byte(b':');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, 3);
             },
             Method {
                 ref key,
@@ -104,7 +157,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
                 ref argument
             } => {
                 gen.write_bytes(b"...");
-                gen.write(argument);
+                gen.write_expression(argument, 3);
             }
         }
     }
@@ -113,7 +166,7 @@ impl<'ast, G: Generator> ToCode<G> for Property<'ast> {
 impl<'ast, G: Generator> ToCode<G> for SequenceExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_list(&self.body);
+        gen.write_expressions(&self.body);
     }
 }
 
@@ -121,7 +174,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_byte(b'[');
-        gen.write_list(&self.body);
+        gen.write_expressions(&self.body);
         gen.write_byte(b']');
     }
 }
@@ -129,7 +182,7 @@ impl<'ast, G: Generator> ToCode<G> for ArrayExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        write_object(gen, &self.object);
         gen.write_byte(b'.');
         gen.write(&self.property);
     }
@@ -138,7 +191,7 @@ impl<'ast, G: Generator> ToCode<G> for MemberExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ComputedMemberExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write_expression(&self.object, 19);
+        gen.write_expression(&self.object, 17);
         gen.write_byte(b'[');
         gen.write(&self.property);
         gen.write_byte(b']');
@@ -157,9 +210,9 @@ impl<'ast, G: Generator> ToCode<G> for MetaPropertyExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for CallExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.callee);
+        gen.write_expression(&self.callee, 17);
         gen.write_byte(b'(');
-        gen.write_list(&self.arguments);
+        gen.write_expressions(&self.arguments);
         gen.write_byte(b')');
     }
 }
@@ -192,7 +245,21 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             }
         };
 
-        gen.write_expression(&self.left, bp);
+        let (left_bp, right_bp) = if self.operator.assignment() {
+            (17, bp)
+        } else if self.operator == OperatorKind::Exponent {
+            match self.right.item {
+                Expression::Binary(BinaryExpression { operator: OperatorKind::Exponent, .. }) => (16, bp),
+                _ => (16, bp + 1),
+            }
+        } else {
+            // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
+            // hence the need for parenthesis in a right-balanced tree
+            // even if binding power of operators is exactly the same.
+            (bp, bp + 1)
+        };
+
+        gen.write_expression(&self.left, left_bp);
 
         if spacing_left {
             gen.write_byte(b' ');
@@ -208,10 +275,7 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
             gen.write_pretty(b' ');
         }
 
-        // `2 / 2 * 2` and `2 / (2 * 2)` are different expressions,
-        // hence the need for parenthesis in a right-balanced tree
-        // even if binding power of operators is exactly the same.
-        gen.write_expression(&self.right, bp + 1);
+        gen.write_expression(&self.right, right_bp);
     }
 }
 
@@ -222,14 +286,23 @@ impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
         }
-        gen.write(&self.operand);
+        match (self.operator, &self.operand.item) {
+            (OperatorKind::New, &Expression::Call(ref call)) => {
+                write_constructor(gen, &call.callee);
+                gen.write_byte(b'(');
+                gen.write_expressions(&call.arguments);
+                gen.write_byte(b')');
+            },
+            (OperatorKind::New, _) => write_constructor(gen, &self.operand),
+            _                      => gen.write_expression(&self.operand, 15),
+        }
     }
 }
 
 impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.operand);
+        gen.write_expression(&self.operand, 17);
         gen.write(&self.operator);
     }
 }
@@ -237,15 +310,15 @@ impl<'ast, G: Generator> ToCode<G> for PostfixExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for ConditionalExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.test);
+        gen.write_expression(&self.test, 5);
         gen.write_pretty(b' ');
         gen.write_byte(b'?');
         gen.write_pretty(b' ');
-        gen.write(&self.consequent);
+        gen.write_expression(&self.consequent, 3);
         gen.write_pretty(b' ');
         gen.write_byte(b':');
         gen.write_pretty(b' ');
-        gen.write(&self.alternate);
+        gen.write_expression(&self.alternate, 3);
     }
 }
 
@@ -281,7 +354,7 @@ impl<'ast, G: Generator> ToCode<G> for TemplateLiteral<'ast> {
 impl<'ast, G: Generator> ToCode<G> for TaggedTemplateExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
-        gen.write(&self.tag);
+        gen.write_expression(&self.tag, 17);
         gen.write(&self.quasi);
     }
 }
@@ -290,7 +363,7 @@ impl<'ast, G: Generator> ToCode<G> for SpreadExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"...");
-        gen.write(&self.argument);
+        gen.write_expression(&self.argument, 3);
     }
 }
 
@@ -298,8 +371,11 @@ impl<'ast, G: Generator> ToCode<G> for ArrowBody<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         match *self {
-            ArrowBody::Expression(ref expression) => gen.write(expression),
-            ArrowBody::Block(ref block)           => gen.write(block),
+            ArrowBody::Expression(ref expression) => gen.write_leading(expression, 3, |leftmost| match *leftmost {
+                Expression::Object(_) => true,
+                _                     => false,
+            }),
+            ArrowBody::Block(ref block) => gen.write(block),
         }
     }
 }
diff --git a/ratel-codegen/src/function.rs b/ratel-codegen/src/function.rs
index e47477b..6a85834 100644
--- a/ratel-codegen/src/function.rs
+++ b/ratel-codegen/src/function.rs
@@ -107,7 +107,7 @@ impl<'ast, G: Generator> ToCode<G> for ClassMember<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(value);
+                gen.write_expression(value, 3);
                 gen.write_byte(b';');
             }
         }
@@ -124,7 +124,7 @@ impl<'ast, G, N> ToCode<G> for Class<'ast, N> where
         gen.write(&self.name);
         if let Some(ref super_class) = self.extends {
             gen.write_bytes(b" extends ");
-            gen.write(super_class);
+            gen.write_expression(super_class, 17);
         }
         gen.write_pretty(b' ');
         gen.write(&self.body);
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 7481831..bd0fa61 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -3,7 +3,7 @@
 extern crate pretty_assertions;
 extern crate ratel;
 
-use ratel::ast::{Node, ExpressionNode, Loc, Block, Pattern};
+use ratel::ast::{Node, Expression, ExpressionNode, Loc, Block, Pattern};
 use ratel::Module;
 
 mod expression;
@@ -37,6 +37,37 @@ pub trait Generator: Sized {
         }
     }
 
+    /// Same as `write_expression`, but for a place where code starting with
+    /// a `reserved` operand would be read as something else.
+    #[inline]
+    fn write_leading<'ast>(&mut self, item: &ExpressionNode<'ast>, bp: u8, reserved: fn(&Expression<'ast>) -> bool) {
+        if item.binding_power() < bp || reserved(expression::leftmost(item)) {
+            self.write_byte(b'(');
+            item.to_code(self);
+            self.write_byte(b')');
+        } else {
+            item.to_code(self);
+        }
+    }
+
+    /// Write a list of expressions that aren't sequences
+    #[inline]
+    fn write_expressions<'a, 'ast: 'a, I>(&mut self, items: I) where
+        I: IntoIterator<Item = &'a ExpressionNode<'ast>>,
+    {
+        let mut items = items.into_iter();
+
+        if let Some(item) = items.next() {
+            self.write_expression(item, 3);
+        }
+
+        for item in items {
+            self.write_byte(b',');
+            self.write_pretty(b' ');
+            self.write_expression(item, 3);
+        }
+    }
+
     #[inline]
     fn write_list<'a, T, I>(&mut self, items: I) where
         T: ToCode<Self> + 'a,
@@ -314,7 +345,7 @@ impl<'ast, G: Generator> ToCode<G> for Pattern<'ast> {
                 gen.write_pretty(b' ');
                 gen.write_byte(b'=');
                 gen.write_pretty(b' ');
-                gen.write(right);
+                gen.write_expression(right, 3);
             }
         }
     }
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 290eccf..bfd4804 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -16,13 +16,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
                 gen.write_bytes(b"debugger");
             },
             Expression(ref expression) => {
-                if expression.is_allowed_as_bare_statement() {
-                    gen.write(expression);
-                } else {
-                    gen.write_byte(b'(');
-                    gen.write(expression);
-                    gen.write_byte(b')');
-                }
+                gen.write_leading(expression, 0, |leftmost| !leftmost.is_allowed_as_bare_statement());
                 gen.write_byte(b';');
             },
             Declaration(ref declaration) => {
@@ -72,7 +66,7 @@ impl<'ast, G: Generator> ToCode<G> for Declarator<'ast> {
             gen.write_pretty(b' ');
             gen.write_byte(b'=');
             gen.write_pretty(b' ');
-            gen.write(init);
+            gen.write_expression(init, 3);
         }
     }
 }
@@ -233,7 +227,7 @@ impl<'ast, G: Generator> ToCode<G> for ForOfStatement<'ast> {
         gen.write_byte(b'(');
         gen.write(&self.left);
         gen.write_bytes(b" of ");
-        gen.write(&self.right);
+        gen.write_expression(&self.right, 3);
         gen.write_byte(b')');
         gen.write_pretty(b' ');
         gen.write(&self.body);
diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index b25d1db..6ca7a6b 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -191,17 +191,32 @@ impl<'ast> Expression<'ast> {
         use self::Expression::*;
 
         match *self {
-            Member(_) | MetaProperty(_) | Arrow(_) => 18,
+            Member(_)         |
+            ComputedMember(_) |
+            MetaProperty(_)   |
+            TaggedTemplate(_) => 18,
 
             Call(_) => 17,
 
+            // `new` with arguments is a member expression, while without
+            // arguments it would take the next ones that follow it.
+            Prefix(PrefixExpression { operator: OperatorKind::New, ref operand }) => {
+                match operand.item {
+                    Call(_) => 18,
+                    _       => 16,
+                }
+            },
+
+            Postfix(_) => 16,
+
             Prefix(_) => 15,
 
-            Binary(BinaryExpression { ref operator, .. })   |
-            Postfix(PostfixExpression { ref operator, .. }) => operator.binding_power(),
+            Binary(BinaryExpression { ref operator, .. }) => operator.binding_power(),
 
             Conditional(_) => 4,
 
+            Arrow(_) => 3,
+
             Sequence(_) => 0,
 
             _  => 100,
-- 
2.43.0


From f449088fc993cb9847ab2585ae496b39a84dfaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 28/91] fix: keep tokens apart in generated code

---
 ratel-codegen/src/expression.rs |  8 ++++++--
 ratel-codegen/src/lib.rs        | 24 ++++++++++++++++++++++++
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/ratel-codegen/src/expression.rs b/ratel-codegen/src/expression.rs
index 6d9e531..b3f415c 100644
--- a/ratel-codegen/src/expression.rs
+++ b/ratel-codegen/src/expression.rs
@@ -100,8 +100,11 @@ impl<'ast, G: Generator> ToCode<G> for Literal<'ast> {
             False             => gen.write_bytes(b"false"),
             Binary(n)         => gen.write(&n),
             Number(ref val)   |
-            String(ref val)   |
-            RegEx(ref val)    => gen.write(val),
+            String(ref val)   => gen.write(val),
+            RegEx(ref val)    => {
+                gen.write_space_before(b'/');
+                gen.write(val);
+            },
         }
     }
 }
@@ -282,6 +285,7 @@ impl<'ast, G: Generator> ToCode<G> for BinaryExpression<'ast> {
 impl<'ast, G: Generator> ToCode<G> for PrefixExpression<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
+        gen.write_space_before(self.operator.as_str().as_bytes()[0]);
         gen.write(&self.operator);
         if self.operator.category() == OperatorCategory::Word {
             gen.write_byte(b' ');
diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index bd0fa61..fff309d 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -17,6 +17,20 @@ pub trait Generator: Sized {
     fn write_byte(&mut self, u8);
     fn write_bytes(&mut self, &[u8]);
     fn write_pretty(&mut self, u8);
+    fn last_byte(&self) -> Option<u8>;
+
+    /// Add a space if writing `first` right away would make
+    /// it a part of the token that has been written last.
+    #[inline]
+    fn write_space_before(&mut self, first: u8) {
+        match (self.last_byte(), first) {
+            (Some(b'+'), b'+') |
+            (Some(b'-'), b'-') |
+            (Some(b'/'), b'/') |
+            (Some(b'<'), b'!') => self.write_byte(b' '),
+            _                  => {},
+        }
+    }
 
     #[inline]
     fn write<T>(&mut self, item: &T) where
@@ -148,6 +162,11 @@ impl Generator for MinifyingGenerator {
     #[inline]
     fn write_pretty(&mut self, _: u8) {}
 
+    #[inline]
+    fn last_byte(&self) -> Option<u8> {
+        self.code.last().cloned()
+    }
+
     #[inline]
     fn write_bytes(&mut self, slice: &[u8]) {
         extend_from_slice(&mut self.code, slice);
@@ -185,6 +204,11 @@ impl Generator for PrettyGenerator {
         self.code.push(ch);
     }
 
+    #[inline]
+    fn last_byte(&self) -> Option<u8> {
+        self.code.last().cloned()
+    }
+
     #[inline]
     fn write_bytes(&mut self, slice: &[u8]) {
         extend_from_slice(&mut self.code, slice);
-- 
2.43.0


From 8a128a751357aa4de37ad4bc64bef5191df418b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:08 +0000
Subject: [PATCH 29/91] fix: write empty statements

---
 ratel-codegen/src/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index bfd4804..e41bb7b 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -11,7 +11,7 @@ impl<'ast, G: Generator> ToCode<G> for Statement<'ast> {
         use ratel::ast::Statement::*;
 
         match *self {
-            Empty => {},
+            Empty => gen.write_byte(b';'),
             Debugger => {
                 gen.write_bytes(b"debugger");
             },
-- 
2.43.0


From f9911df328fc6afe37448996782223d0d6dbd9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:09 +0000
Subject: [PATCH 30/91] fix: end debugger statements and imports before the
 code following them

---
 ratel-codegen/src/lib.rs       | 18 ++++++++++++++++++
 ratel-codegen/src/statement.rs |  2 ++
 2 files changed, 20 insertions(+)

diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index fff309d..7528710 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -32,6 +32,21 @@ pub trait Generator: Sized {
         }
     }
 
+    /// Debugger statements and import declarations are written without
+    /// a semicolon, this adds it if there is code following them.
+    #[inline]
+    fn write_missing_semicolon(&mut self) {
+        match self.last_byte() {
+            None       |
+            Some(b';') |
+            Some(b':') |
+            Some(b'{') |
+            Some(b'}') |
+            Some(b')') => {},
+            _          => self.write_byte(b';'),
+        }
+    }
+
     #[inline]
     fn write<T>(&mut self, item: &T) where
         T: ToCode<Self>,
@@ -117,6 +132,7 @@ pub trait Generator: Sized {
         }
 
         for item in items {
+            self.write_missing_semicolon();
             self.new_line();
             self.write(item);
         }
@@ -238,6 +254,7 @@ pub fn codegen(module: &Module, minify: bool) -> String {
         let mut gen = MinifyingGenerator::default();
 
         for statement in module.body() {
+            gen.write_missing_semicolon();
             gen.write(statement);
         }
 
@@ -249,6 +266,7 @@ pub fn codegen(module: &Module, minify: bool) -> String {
         gen.write(&body.next().cloned());
 
         for statement in body {
+            gen.write_missing_semicolon();
             gen.new_line();
             gen.write(statement);
         }
diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index e41bb7b..0e0f270 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -128,6 +128,7 @@ impl<'ast, G: Generator> ToCode<G> for IfStatement<'ast> {
         gen.write(&self.consequent);
 
         if let Some(ref alternate) = self.alternate {
+            gen.write_missing_semicolon();
             if self.consequent.is_block() {
                 gen.write_pretty(b' ');
             } else {
@@ -167,6 +168,7 @@ impl<'ast, G: Generator> ToCode<G> for DoStatement<'ast> {
             gen.write_byte(b' ');
         }
         gen.write(&self.body);
+        gen.write_missing_semicolon();
         gen.write_bytes(b"while");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
-- 
2.43.0


From a67d32c05d6966523436e8ab5fa95bfedde042f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:17 +0000
Subject: [PATCH 31/91] fix: enclose in operators in the head of for statements

---
 ratel-codegen/src/statement.rs | 59 ++++++++++++++++++++++++++++++++--
 1 file changed, 57 insertions(+), 2 deletions(-)

diff --git a/ratel-codegen/src/statement.rs b/ratel-codegen/src/statement.rs
index 0e0f270..6788577 100644
--- a/ratel-codegen/src/statement.rs
+++ b/ratel-codegen/src/statement.rs
@@ -1,4 +1,5 @@
-use ratel::ast::{Statement, Declarator, DeclarationKind};
+use ratel::ast::{Statement, Declarator, DeclarationKind, ExpressionNode, OperatorKind};
+use ratel::ast::expression::ArrowBody;
 use ratel::ast::statement::*;
 
 use {ToCode, Generator};
@@ -187,13 +188,67 @@ impl<'ast, G: Generator> ToCode<G> for ForInit<'ast> {
     }
 }
 
+/// Whether there is an `in` operator in the expression that
+/// isn't enclosed by brackets of any kind.
+fn has_in_operator<'ast>(expression: &ExpressionNode<'ast>) -> bool {
+    use ratel::ast::Expression::*;
+
+    match expression.item {
+        Sequence(ref sequence)       => sequence.body.iter().any(has_in_operator),
+        Member(ref member)           => has_in_operator(&member.object),
+        ComputedMember(ref computed) => has_in_operator(&computed.object),
+        Call(ref call)               => has_in_operator(&call.callee),
+        Binary(ref binary)           => {
+            binary.operator == OperatorKind::In ||
+            has_in_operator(&binary.left) ||
+            has_in_operator(&binary.right)
+        },
+        Prefix(ref prefix)           => has_in_operator(&prefix.operand),
+        Postfix(ref postfix)         => has_in_operator(&postfix.operand),
+        Conditional(ref conditional) => {
+            has_in_operator(&conditional.test) ||
+            has_in_operator(&conditional.alternate)
+        },
+        TaggedTemplate(ref tagged)   => has_in_operator(&tagged.tag),
+        Arrow(ref arrow)             => match arrow.body {
+            ArrowBody::Expression(ref body) => has_in_operator(body),
+            ArrowBody::Block(_)             => false,
+        },
+        _                            => false,
+    }
+}
+
 impl<'ast, G: Generator> ToCode<G> for ForStatement<'ast> {
     #[inline]
     fn to_code(&self, gen: &mut G) {
         gen.write_bytes(b"for");
         gen.write_pretty(b' ');
         gen.write_byte(b'(');
-        gen.write(&self.init);
+        // An `in` outside of parentheses would make it a for-in statement
+        let bp_for = |init| if has_in_operator(init) { 101 } else { 0 };
+
+        match self.init.as_ref().map(|init| &init.item) {
+            Some(&ForInit::Expression(ref init)) => gen.write_expression(init, bp_for(init)),
+            Some(&ForInit::Declaration(ref declaration)) => {
+                gen.write(&declaration.kind);
+
+                for (index, declarator) in declaration.declarators.iter().enumerate() {
+                    if index > 0 {
+                        gen.write_byte(b',');
+                        gen.write_pretty(b' ');
+                    }
+                    gen.write(&declarator.id);
+
+                    if let Some(ref init) = declarator.init {
+                        gen.write_pretty(b' ');
+                        gen.write_byte(b'=');
+                        gen.write_pretty(b' ');
+                        gen.write_expression(init, bp_for(init).max(3));
+                    }
+                }
+            },
+            None => {},
+        }
         gen.write_byte(b';');
         gen.write_pretty(b' ');
         gen.write(&self.test);
-- 
2.43.0


From 9867eab129eb2cb515b06d378319898661be4de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:34 +0000
Subject: [PATCH 32/91] fix: reject line terminators in string and regex
 literals

---
 ratel/src/lexer/mod.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 30deebc..5bc41c8 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -589,7 +589,17 @@ const QOT: ByteHandler = Some(|lex| {
             },
             b'\\' => {
                 lex.bump();
-                expect_byte!(lex);
+
+                match lex.read_byte() {
+                    // Both characters make up a single line terminator
+                    b'\r' => if lex.next_byte() == b'\n' {
+                        lex.bump();
+                    },
+                    _ => expect_byte!(lex),
+                }
+            },
+            b'\n' | b'\r' => {
+                return lex.token = UnexpectedToken;
             },
             0 => {
                 return lex.token = UnexpectedEndOfProgram;
@@ -1055,10 +1065,11 @@ impl<'arena> Lexer<'arena> {
                             self.token = UnexpectedEndOfProgram;
                             return "";
                         },
+                        b'\n' | b'\r' => {},
                         _ => self.bump()
                     }
                 },
-                b'\n' => {
+                b'\n' | b'\r' => {
                     self.bump();
                     self.token = UnexpectedToken;
                     return "";
-- 
2.43.0


From ea92b0940e5d6c59b760a95651056a058b5c6525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:10 +0000
Subject: [PATCH 33/91] fix: accept regular expressions starting with an equals
 sign

---
 ratel/src/lexer/mod.rs         | 2 +-
 ratel/src/parser/expression.rs | 6 +++---
 ratel/src/parser/statement.rs  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 5bc41c8..df3f3ab 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1041,7 +1041,7 @@ impl<'arena> Lexer<'arena> {
 
     #[inline]
     pub fn read_regular_expression(&mut self) -> &'arena str {
-        let start = self.index - 1;
+        let start = self.token_start;
         let mut in_class = false;
         loop {
             match self.read_byte() {
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index f548371..ed759fe 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -23,7 +23,7 @@ static DEF_CONTEXT: Context = &[
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  ==    !=    &     ^     |     &&    ||    ?     =     +=    -=    **=
 
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  *=    /=    %=    <<=   >>=   >>>=  &=    ^=    |=    ...   VAR   LET
 
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
@@ -45,7 +45,7 @@ pub static ARRAY_CONTEXT: Context = &[
     OP,   OP,   OP,   OP,   OP,   OP,   OP,   ____, REG,  ____, ____, OP,
     OP,   ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
     ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
@@ -58,7 +58,7 @@ pub static CALL_CONTEXT: Context = &[
     OP,   OP,   OP,   OP,   OP,   OP,   OP,   ____, REG,  ____, ____, OP,
     OP,   ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, SPRD, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
     ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index be33d29..0841cb5 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -26,7 +26,7 @@ static STMT_HANDLERS: [StatementHandler; 108] = [
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
 //  ==    !=    &     ^     |     &&    ||    ?     =     +=    -=    **=
 
-    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, VAR,  LET,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, VAR,  LET,
 //  *=    /=    %=    <<=   >>=   >>>=  &=    ^=    |=    ...   VAR   LET
 
     CONS, BRK,  DO,   ____, ____, ____, ____, CLAS, ____, RET,  WHL,  ____,
-- 
2.43.0


From 064bb757c01d27fa62d134a18a9e792e5b047163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 34/91] fix: treat unicode spaces and line separators as such

---
 ratel/src/lexer/labels.rs |  6 ++--
 ratel/src/lexer/mod.rs    | 71 +++++++++++++++++++++++++++++++++++++--
 2 files changed, 71 insertions(+), 6 deletions(-)

diff --git a/ratel/src/lexer/labels.rs b/ratel/src/lexer/labels.rs
index ed32d99..6120fdf 100644
--- a/ratel/src/lexer/labels.rs
+++ b/ratel/src/lexer/labels.rs
@@ -1,11 +1,11 @@
-use lexer::{util, ByteHandler};
+use lexer::ByteHandler;
 use lexer::token::Token::*;
 
 macro_rules! match_label {
     ($lex:ident [$( $byte:expr )* => $token:expr]) => {
         if $(
             $lex.next_byte() == $byte &&
-        )* {$lex.bump(); !util::legal_in_label($lex.read_byte())} {
+        )* {$lex.bump(); !$lex.is_in_label()} {
             return $lex.token = $token;
         }
     };
@@ -15,7 +15,7 @@ macro_rules! match_label {
             $(
                 $match => match_label!($lex $cont),
             )*
-            ch if !util::legal_in_label(ch) => return $lex.token = $token,
+            _ if !$lex.is_in_label() => return $lex.token = $token,
             _ => {}
         }
     };
diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index df3f3ab..00badd9 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -405,6 +405,9 @@ const SLH: ByteHandler = Some(|lex| {
                     0 | b'\n' | b'\r' => {
                         return lex.consume_next();
                     }
+                    0xE2 if lex.is_unicode_newline() => {
+                        return lex.consume_next();
+                    }
                     _ => {}
                 }
             });
@@ -431,6 +434,7 @@ const SLH: ByteHandler = Some(|lex| {
                         lex.asi = Asi::ImplicitSemicolon;
                     },
                     0 => return lex.token = UnexpectedEndOfProgram,
+                    0xE2 if lex.skip_unicode_space() => {},
                     _ => lex.bump()
                 }
             });
@@ -461,6 +465,10 @@ const PRC: ByteHandler = Some(|lex| {
 
 // Unicode character
 const UNI: ByteHandler = Some(|lex| {
+    if lex.skip_unicode_space() {
+        return lex.consume_next();
+    }
+
     let start = lex.index;
 
     // TODO: unicodes with different lengths
@@ -908,9 +916,13 @@ impl<'arena> Lexer<'arena> {
 
         let mut ch;
 
-        unwind_loop!({
+        loop {
             ch = self.read_byte();
 
+            if self.skip_unicode_space() {
+                continue;
+            }
+
             if ch > 0x20 {
                 self.accessor_start = self.index;
 
@@ -939,16 +951,69 @@ impl<'arena> Lexer<'arena> {
             }
 
             self.bump();
-        })
+        }
     }
 
     #[inline]
     fn read_label(&mut self) {
-        while util::legal_in_label(self.read_byte()) {
+        while self.is_in_label() {
             self.bump();
         }
     }
 
+    /// Whether the current byte continues an identifier.
+    #[inline]
+    fn is_in_label(&self) -> bool {
+        let ch = self.read_byte();
+
+        util::legal_in_label(ch) && (ch < 0x80 || self.unicode_space_len() == 0)
+    }
+
+    /// Length in bytes of the unicode white space character or
+    /// line terminator at current index, 0 if there is none.
+    #[inline]
+    fn unicode_space_len(&self) -> usize {
+        let byte = |offset| unsafe { *self.ptr.add(self.index + offset) };
+
+        match byte(0) {
+            0xC2 if byte(1) == 0xA0 => 2,
+            0xE1 if byte(1) == 0x9A && byte(2) == 0x80 => 3,
+            0xE2 => match (byte(1), byte(2)) {
+                (0x80, 0x80..=0x8A) |
+                (0x80, 0xA8..=0xA9) |
+                (0x80, 0xAF)        |
+                (0x81, 0x9F)        => 3,
+                _                   => 0,
+            },
+            0xE3 if byte(1) == 0x80 && byte(2) == 0x80 => 3,
+            0xEF if byte(1) == 0xBB && byte(2) == 0xBF => 3,
+            _ => 0,
+        }
+    }
+
+    /// Whether there is a line or paragraph separator at current index.
+    #[inline]
+    fn is_unicode_newline(&self) -> bool {
+        let byte = |offset| unsafe { *self.ptr.add(self.index + offset) };
+
+        byte(0) == 0xE2 && byte(1) == 0x80 && (byte(2) == 0xA8 || byte(2) == 0xA9)
+    }
+
+    /// Step over the unicode white space character or line
+    /// terminator at current index, returns false if there is none.
+    #[inline]
+    fn skip_unicode_space(&mut self) -> bool {
+        let len = self.unicode_space_len();
+
+        if self.is_unicode_newline() {
+            self.asi = Asi::ImplicitSemicolon;
+        }
+
+        self.index += len;
+
+        len != 0
+    }
+
     #[inline]
     fn slice_from(&self, start: usize) -> &'arena str {
         let end = self.index;
-- 
2.43.0


From 31c93022248bb75e0f3125b0f900669db82d4f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:29 +0000
Subject: [PATCH 35/91] fix: skip comments between a dot and the property name

---
 ratel/src/lexer/mod.rs | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 00badd9..3e1e3f8 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -919,7 +919,7 @@ impl<'arena> Lexer<'arena> {
         loop {
             ch = self.read_byte();
 
-            if self.skip_unicode_space() {
+            if self.skip_unicode_space() || self.skip_comment() {
                 continue;
             }
 
@@ -1014,6 +1014,40 @@ impl<'arena> Lexer<'arena> {
         len != 0
     }
 
+    /// Step over the comment at current index, returns false if there is none.
+    #[inline]
+    fn skip_comment(&mut self) -> bool {
+        if self.read_byte() != b'/' {
+            return false;
+        }
+
+        match unsafe { *self.ptr.add(self.index + 1) } {
+            b'/' => loop {
+                match self.next_byte() {
+                    0 | b'\n' | b'\r' => return true,
+                    0xE2 if self.is_unicode_newline() => return true,
+                    _ => {},
+                }
+            },
+            b'*' => {
+                self.bump();
+                self.bump();
+
+                loop {
+                    match self.read_byte() {
+                        0    => return true,
+                        b'*' => if self.next_byte() == b'/' {
+                            self.bump();
+                            return true;
+                        },
+                        _    => self.bump(),
+                    }
+                }
+            },
+            _ => false,
+        }
+    }
+
     #[inline]
     fn slice_from(&self, start: usize) -> &'arena str {
         let end = self.index;
-- 
2.43.0


From 3978894e65e1854de82556a5656b8b3b150ff6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 36/91] fix: end arrow functions after their block

---
 ratel/src/parser/expression.rs | 6 +++++-
 ratel/src/parser/mod.rs        | 5 +++++
 ratel/src/parser/nested.rs     | 4 ++++
 3 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index ed759fe..a1a5f9d 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -270,7 +270,11 @@ impl<'ast> Parser<'ast> {
         let params = self.params_from_expressions(params);
 
         let body = match self.lexer.token {
-            BraceOpen => ArrowBody::Block(self.unchecked_block()),
+            BraceOpen => {
+                let block = self.unchecked_block();
+                self.arrow_end = self.lexer.start();
+                ArrowBody::Block(block)
+            },
             _         => ArrowBody::Expression(self.expression::<B0>()),
         };
 
diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index e42a749..5d06557 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -36,6 +36,10 @@ pub struct Parser<'ast> {
     /// Errors occurred during parsing
     errors: Vec<Error>,
 
+    /// Start of the token following the block of the last arrow function. An arrow
+    /// function can't be an operand, so no operator can apply to it at this point.
+    arrow_end: u32,
+
     /// AST under construction
     body: NodeList<'ast, Statement<'ast>>,
 }
@@ -46,6 +50,7 @@ impl<'ast> Parser<'ast> {
             arena,
             lexer: Lexer::new(arena, source),
             errors: Vec::new(),
+            arrow_end: u32::max_value(),
             body: NodeList::empty(),
         }
     }
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 2878b3a..8a81004 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -443,6 +443,10 @@ impl<'ast> Parser<'ast> {
         B: BindingPower
     {
         while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
+            if self.lexer.start() == self.arrow_end && self.lexer.token != Comma {
+                break;
+            }
+
             left = handler(self, left);
         }
 
-- 
2.43.0


From e929941421ee1727cea61771f52c0bd4d2ec9e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:15 +0000
Subject: [PATCH 37/91] fix: locate getter and setter names, not the keyword

---
 ratel/src/parser/function.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 965c66c..229acfe 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -115,8 +115,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
         let mut kind = MethodKind::Method;
 
-        let token_start = par.lexer.start();
-        let token_end;
+        let mut token_start = par.lexer.start();
+        let mut token_end;
 
         let key = match par.lexer.token {
             _ if par.lexer.token.is_word() => {
@@ -130,7 +130,8 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                         _     => return par.error()
                     };
                     label = par.lexer.token_as_str();
-                    par.lexer.consume();
+                    token_start = par.lexer.start();
+                    token_end = par.lexer.end_then_consume();
                 } else if !is_static && label == "constructor" {
                     kind = MethodKind::Constructor;
                 }
-- 
2.43.0


From bbc38cd4046d001baca1527c6c0b1a6607b121a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 38/91] fix: require a separator after class fields

---
 ratel/src/parser/function.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 229acfe..225fecc 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -1,5 +1,6 @@
 use toolshed::list::ListBuilder;
 use parser::{Parser, Parse, ANY, B0};
+use lexer::Asi;
 use lexer::Token::*;
 use ast::{Node, NodeList, EmptyName, OptionalName, MandatoryName, Name};
 use ast::{MethodKind, Pattern, Function, Class, ClassMember, PropertyKey};
@@ -183,6 +184,10 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
                 end = expression.end;
 
+                if let Asi::NoSemicolon = par.asi() {
+                    return par.error();
+                }
+
                 ClassMember::Literal {
                     is_static,
                     key,
-- 
2.43.0


From fad4f1755e0137bf03a27d25295e20cb6a0708ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 39/91] fix: report imported names as declarations, with the
 import as parent

---
 ratel-visitor/src/statement.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index a5e3bc9..839de14 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -114,6 +114,7 @@ impl<'ast> Visitable<'ast> for StatementNode<'ast> {
             },
             Import(ref import) => {
                 visitor.on_import_declaration_statement(import, self);
+                visitor.push_parent(ParentNode::from(self));
                 import.visit_with(visitor);
             }
         }
@@ -392,7 +393,6 @@ impl<'ast> Visitable<'ast> for ImportDeclaration<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.source.visit_with(visitor);
         self.specifiers.visit_with(visitor);
     }
 }
@@ -421,8 +421,7 @@ impl<'ast> Visitable<'ast> for ImportSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
-        self.imported.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local);
     }
 }
 
@@ -434,7 +433,7 @@ impl<'ast> Visitable<'ast> for ImportDefaultSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local);
     }
 }
 
@@ -446,6 +445,6 @@ impl<'ast> Visitable<'ast> for ImportNamespaceSpecifier<'ast> {
     where
         V: Visitor<'ast>,
     {
-        self.local.visit_with(visitor);
+        visitor.on_reference_declaration(&self.local);
     }
 }
-- 
2.43.0


From 82e0fcffd16bd03ebf5bd20a7d3d1b1b314ed3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:59 +0000
Subject: [PATCH 40/91] fix: declare the catch parameter inside of the catch
 block

---
 ratel-visitor/src/statement.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/statement.rs b/ratel-visitor/src/statement.rs
index 839de14..b96f2df 100644
--- a/ratel-visitor/src/statement.rs
+++ b/ratel-visitor/src/statement.rs
@@ -325,8 +325,11 @@ impl<'ast> Visitable<'ast> for CatchClause<'ast> {
     where
         V: Visitor<'ast>,
     {
+        // Same as with functions, the parameter needs to end up inside the block
+        visitor.on_enter_scope(ScopeKind::Block);
         self.param.visit_with(visitor);
-        self.body.visit_with(visitor);
+        self.body.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From 73108e5c085634a4f4e245f7665f0295af76917b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 41/91] fix: new.target is not a reference

---
 ratel-visitor/src/expression.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index b6b1b3c..c615081 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -198,13 +198,7 @@ impl<'ast> Visitable<'ast> for MetaPropertyExpression<'ast> {
     type Parent = ExpressionNode<'ast>;
 
     #[inline]
-    fn visit_with<V>(&'ast self, visitor: &mut V)
-    where
-        V: Visitor<'ast>,
-    {
-        self.meta.visit_with(visitor);
-        self.property.visit_with(visitor);
-    }
+    fn visit_with<V: Visitor<'ast>>(&self, _: &mut V) {}
 }
 
 impl<'ast> Visitable<'ast> for CallExpression<'ast> {
-- 
2.43.0


From d5b412582f9d672135375e35d8bf49488e0e0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 42/91] fix: arrow functions have a scope of their own

---
 ratel-visitor/src/expression.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ratel-visitor/src/expression.rs b/ratel-visitor/src/expression.rs
index c615081..ff9d7d3 100644
--- a/ratel-visitor/src/expression.rs
+++ b/ratel-visitor/src/expression.rs
@@ -1,7 +1,7 @@
 use ratel::ast::{Identifier, Expression, ExpressionNode, StatementNode, Literal};
 use ratel::ast::expression::*;
 
-use {Visitor, Visitable, ParentNode};
+use {Visitor, Visitable, ParentNode, ScopeKind};
 
 
 impl<'ast> Visitable<'ast> for ExpressionNode<'ast> {
@@ -325,8 +325,10 @@ impl<'ast> Visitable<'ast> for ArrowExpression<'ast> {
     where
         V: Visitor<'ast>,
     {
+        visitor.on_enter_scope(ScopeKind::Function);
         self.params.visit_with(visitor);
         self.body.visit_with(visitor);
+        visitor.on_leave_scope();
     }
 }
 
-- 
2.43.0


From 205c01324428ddf6552df1989d9b4348eb483a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 43/91] fix: report the statement list of the module

---
 ratel-visitor/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index 6cdd0a6..75fb47e 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -126,6 +126,8 @@ impl<'ast> Visitable<'ast> for Module<'ast> {
         V: Visitor<'ast>,
     {
         let body = self.body();
+
+        visitor.on_statement_list(body);
         for item in body {
             item.visit_with(visitor);
         }
-- 
2.43.0


From 5fff3962f47a7656430ebabe84ba20392c9bcfa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:10 +0000
Subject: [PATCH 44/91] fix: names bound by object patterns and rest elements
 are declarations

---
 ratel-visitor/src/lib.rs | 51 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/ratel-visitor/src/lib.rs b/ratel-visitor/src/lib.rs
index 75fb47e..b965416 100644
--- a/ratel-visitor/src/lib.rs
+++ b/ratel-visitor/src/lib.rs
@@ -6,7 +6,7 @@ extern crate ratel;
 use ratel::ast::expression::*;
 use ratel::ast::statement::*;
 use ratel::ast::{ExpressionList, ExpressionNode, StatementList, StatementNode};
-use ratel::ast::{Identifier, Literal, Node, NodeList, Pattern};
+use ratel::ast::{Identifier, Literal, Node, NodeList, OperatorKind, Pattern};
 
 use ratel::Module;
 
@@ -146,13 +146,15 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
             Pattern::Void => {}
             Pattern::Identifier(ref ident) => visitor.on_reference_declaration(ident),
             Pattern::ObjectPattern { ref properties } => {
-                properties.visit_with(visitor);
+                for property in properties {
+                    visit_binding_property(property, visitor);
+                }
             }
             Pattern::ArrayPattern { ref elements } => {
                 elements.visit_with(visitor);
             }
             Pattern::RestElement { ref argument } => {
-                argument.visit_with(visitor);
+                visitor.on_reference_declaration(argument);
             }
             Pattern::AssignmentPattern {
                 ref left,
@@ -165,6 +167,49 @@ impl<'ast> Visitable<'ast> for Pattern<'ast> {
     }
 }
 
+/// Properties of an object pattern bind names, even though
+/// they are stored the same way as those of an object expression.
+fn visit_binding_property<'ast, V>(property: &'ast Property<'ast>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    match *property {
+        Property::Shorthand(ref ident) => visitor.on_reference_declaration(ident),
+        Property::Literal { ref key, ref value } => {
+            key.visit_with(visitor);
+            visit_binding(value, visitor);
+        }
+        Property::Method { .. } => property.visit_with(visitor),
+        Property::Spread { ref argument } => visit_binding(argument, visitor),
+    }
+}
+
+/// Visit an expression found in the place of a binding target.
+fn visit_binding<'ast, V>(expression: &'ast ExpressionNode<'ast>, visitor: &mut V)
+where
+    V: Visitor<'ast>,
+{
+    match expression.item {
+        Expression::Identifier(ref ident) => visitor.on_reference_declaration(ident),
+        Expression::Object(ref object) => {
+            for property in &object.body {
+                visit_binding_property(property, visitor);
+            }
+        }
+        Expression::Array(ref array) => {
+            for element in &array.body {
+                visit_binding(element, visitor);
+            }
+        }
+        Expression::Spread(ref spread) => visit_binding(&spread.argument, visitor),
+        Expression::Binary(ref binary) if binary.operator == OperatorKind::Assign => {
+            visit_binding(&binary.left, visitor);
+            binary.right.visit_with(visitor);
+        }
+        _ => expression.visit_with(visitor),
+    }
+}
+
 impl<'ast> Visitable<'ast> for PropertyKey<'ast> {
     type Parent = Node<'ast, Self>;
 
-- 
2.43.0


From 9d76a04f59f6c62e625ccf0019b77ee036ccd9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:20 +0000
Subject: [PATCH 45/91] fix: swap the node in the tree instead of a copy of it

---
 ratel-transformer/src/es2015/arrow.rs | 2 +-
 ratel-transformer/src/lib.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratel-transformer/src/es2015/arrow.rs b/ratel-transformer/src/es2015/arrow.rs
index c01ea7b..3c51daa 100644
--- a/ratel-transformer/src/es2015/arrow.rs
+++ b/ratel-transformer/src/es2015/arrow.rs
@@ -32,7 +32,7 @@ impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
             }
         };
 
-        self.ctx.swap(*ptr, Function {
+        self.ctx.swap(ptr, Function {
             name: OptionalName::empty(),
             generator: false,
             params: node.params,
diff --git a/ratel-transformer/src/lib.rs b/ratel-transformer/src/lib.rs
index 7a345a4..a9c6589 100644
--- a/ratel-transformer/src/lib.rs
+++ b/ratel-transformer/src/lib.rs
@@ -61,7 +61,7 @@ impl<'ast> TransformerCtxt<'ast> {
     }
 
     #[inline]
-    pub fn swap<T, I>(&self, ptr: Node<'ast, T>, item: I) where
+    pub fn swap<T, I>(&self, ptr: &Node<'ast, T>, item: I) where
         T: Copy + 'ast,
         I: Into<T>,
     {
-- 
2.43.0


From 06cd2e8ce5a8159adbf9e915d1e55e809675cf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:46 +0000
Subject: [PATCH 46/91] fix: transform arrow functions returned by arrow
 functions

---
 ratel-transformer/src/es2015/arrow.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ratel-transformer/src/es2015/arrow.rs b/ratel-transformer/src/es2015/arrow.rs
index 3c51daa..38ec7df 100644
--- a/ratel-transformer/src/es2015/arrow.rs
+++ b/ratel-transformer/src/es2015/arrow.rs
@@ -1,4 +1,4 @@
-use ratel::ast::{NodeList, ExpressionNode, Function, Name, OptionalName, Block};
+use ratel::ast::{NodeList, Expression, ExpressionNode, Function, Name, OptionalName, Block};
 use ratel::ast::expression::{ArrowExpression, ArrowBody};
 use ratel::ast::statement::ReturnStatement;
 use ratel_visitor::Visitor;
@@ -22,8 +22,15 @@ impl<'ast> Visitor<'ast> for TransformArrow<'ast> {
         let body = match node.body {
             ArrowBody::Block(block)     => block,
             ArrowBody::Expression(expr) => {
+                let value = self.ctx.arena.alloc(expr);
+
+                // The visitor only gets to see the original of this node
+                if let Expression::Arrow(ref arrow) = value.item {
+                    self.on_arrow_expression(arrow, value);
+                }
+
                 let ret = self.ctx.alloc_as_loc(&expr, ReturnStatement {
-                    value: Some(expr)
+                    value: Some(*value)
                 });
 
                 self.ctx.alloc_as_loc(&ret, Block {
-- 
2.43.0


From 3f51c2c114d86f38eed07f5fefbc7dfc4caa9986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:50 +0000
Subject: [PATCH 47/91] fix: arrow functions are not operands of binary
 operators

---
 ratel/src/parser/nested.rs | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 8a81004..c17c18d 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -93,7 +93,7 @@ bp!(B1, [
 ]);
 
 bp!(B5, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   STEQ, SIEQ,
     EQ,   INEQ, BWAN, BWXO, BWOR, AND,  ____, ____, ____, ____, ____, ____,
@@ -105,7 +105,7 @@ bp!(B5, [
 ]);
 
 bp!(B6, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   STEQ, SIEQ,
     EQ,   INEQ, BWAN, BWXO, BWOR, ____, ____, ____, ____, ____, ____, ____,
@@ -117,7 +117,7 @@ bp!(B6, [
 ]);
 
 bp!(B7, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   STEQ, SIEQ,
     EQ,   INEQ, BWAN, BWXO, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -129,7 +129,7 @@ bp!(B7, [
 ]);
 
 bp!(B8, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   STEQ, SIEQ,
     EQ,   INEQ, BWAN, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -141,7 +141,7 @@ bp!(B8, [
 ]);
 
 bp!(B9, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   STEQ, SIEQ,
     EQ,   INEQ, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -153,7 +153,7 @@ bp!(B9, [
 ]);
 
 bp!(B10, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, LESS, LSEQ, GRTR, GREQ, INOF, IN,   ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -165,7 +165,7 @@ bp!(B10, [
 ]);
 
 bp!(B11, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  BSL,  BSR,  UBSR, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -177,7 +177,7 @@ bp!(B11, [
 ]);
 
 bp!(B12, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ADD,
     SUB,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -189,7 +189,7 @@ bp!(B12, [
 ]);
 
 bp!(B13, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, MUL,  DIV,  REM,  EXPN, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -201,7 +201,7 @@ bp!(B13, [
 ]);
 
 bp!(B14, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, ____, ____, ____, EXPN, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
@@ -213,7 +213,7 @@ bp!(B14, [
 ]);
 
 bp!(B15, [
-    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
     INC,  DEC,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
     ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
-- 
2.43.0


From 61978862f8bc002901f8219a911d3f88d735c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 48/91] fix: no line terminator before the arrow of an arrow
 function

---
 ratel/src/parser/expression.rs | 9 ++++++++-
 ratel/src/parser/nested.rs     | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index a1a5f9d..aa2f643 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -1,5 +1,6 @@
 use toolshed::list::ListBuilder;
 use parser::{Parser, Parse, BindingPower, ANY, B0, B15, MEMBER};
+use lexer::Asi;
 use lexer::Token::*;
 use ast::{Node, NodeList, Expression, ExpressionNode, IdentifierNode, ExpressionList};
 use ast::{Property, PropertyKey, OperatorKind, Literal, Function, Class, StatementNode};
@@ -323,7 +324,13 @@ impl<'ast> Parser<'ast> {
         match self.lexer.token {
             ParenClose => {
                 self.lexer.consume();
-                expect!(self, OperatorFatArrow);
+
+                match self.asi() {
+                    // No line terminators are allowed before the arrow
+                    Asi::NoSemicolon => expect!(self, OperatorFatArrow),
+                    _                => self.error(),
+                }
+
                 let expression = self.arrow_function_expression(NodeList::empty());
                 let end = self.lexer.end();
                 self.alloc_at_loc(start, end, expression)
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index c17c18d..d19e194 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -19,7 +19,7 @@ pub trait BindingPower {
         // TODO: find a cleaner solution, roll it the ASI check into lookup table somehow?
         if asi == Asi::ImplicitSemicolon {
             match token {
-                OperatorIncrement | OperatorDecrement => return None,
+                OperatorIncrement | OperatorDecrement | OperatorFatArrow => return None,
                 _ => {}
             }
         }
-- 
2.43.0


From 70d093a53f217ab1e9280838acd37725e05f26ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:12 +0000
Subject: [PATCH 49/91] fix: no line terminator after throw

---
 ratel/src/parser/statement.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 0841cb5..6f2d8de 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -368,6 +368,12 @@ impl<'ast> Parser<'ast> {
     #[inline]
     pub fn throw_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
+
+        // No line terminators are allowed after `throw`
+        if let Asi::ImplicitSemicolon = self.asi() {
+            self.error::<()>();
+        }
+
         let value = self.expression::<ANY>();
 
         self.expect_semicolon();
-- 
2.43.0


From 2e7c0f67a63efd58fdb0e0c707a0e025514bdcc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:14 +0000
Subject: [PATCH 50/91] fix: all reserved words can be property names

---
 ratel/src/lexer/token.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/ratel/src/lexer/token.rs b/ratel/src/lexer/token.rs
index e1f0eef..61a8324 100644
--- a/ratel/src/lexer/token.rs
+++ b/ratel/src/lexer/token.rs
@@ -161,6 +161,17 @@ impl Token {
             OperatorVoid       |
             OperatorDelete     |
             OperatorInstanceof |
+            OperatorIn         |
+            DeclarationVar     |
+            DeclarationLet     |
+            DeclarationConst   |
+            ReservedEnum       |
+            ReservedImplements |
+            ReservedPackage    |
+            ReservedProtected  |
+            ReservedInterface  |
+            ReservedPrivate    |
+            ReservedPublic     |
             LiteralTrue        |
             LiteralFalse       |
             LiteralNull        |
-- 
2.43.0


From 9a7ed6761a41842c813cf764debc5412fb5d03cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 51/91] fix: reserved words can't be shorthand properties

---
 ratel/src/parser/expression.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index aa2f643..a8d2f9d 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -454,7 +454,7 @@ impl<'ast> Parser<'ast> {
         let start = self.lexer.start();
 
         let key = match self.lexer.token {
-            _ if self.lexer.token.is_word() => {
+            token if token.is_word() => {
                 let (start, end) = self.lexer.loc();
                 let label = self.lexer.token_as_str();
 
@@ -463,7 +463,14 @@ impl<'ast> Parser<'ast> {
                 match self.lexer.token {
                     Colon | ParenOpen => self.alloc_at_loc(start, end, PropertyKey::Literal(label)),
 
-                    _ => return self.alloc_at_loc(start, end, Property::Shorthand(label)),
+                    _ => {
+                        // Reserved words are not references
+                        if token != Identifier && token != LiteralUndefined {
+                            self.error::<()>();
+                        }
+
+                        return self.alloc_at_loc(start, end, Property::Shorthand(label));
+                    },
                 }
             },
             OperatorSpread => {
-- 
2.43.0


From 4edd70cfacc44d52769c792b330f356fa94ff7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 52/91] fix: strings can be names of class members

---
 ratel/src/parser/function.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 225fecc..e6e41da 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -139,6 +139,7 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
 
                 PropertyKey::Literal(label)
             },
+            LiteralString |
             LiteralNumber => {
                 let num = par.lexer.token_as_str();
                 token_end = par.lexer.end_then_consume();
-- 
2.43.0


From 79d82339963081c1a541cb1de2afabf3fc97fbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 53/91] fix: right side of for-of is not a sequence

---
 ratel/src/parser/statement.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 6f2d8de..e3b9245 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -598,7 +598,7 @@ impl<'ast> Parser<'ast> {
     }
 
     fn for_of_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
-        let right = self.expression::<ANY>();
+        let right = self.expression::<B0>();
 
         expect!(self, ParenClose);
 
-- 
2.43.0


From a9d4115cc7abd0582add0abe8715e1fd8cf48974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 54/91] fix: result of a postfix operator can't be accessed or
 called

---
 ratel/src/parser/mod.rs    | 5 +++++
 ratel/src/parser/nested.rs | 8 ++++++++
 2 files changed, 13 insertions(+)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 5d06557..4ff30b8 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -40,6 +40,10 @@ pub struct Parser<'ast> {
     /// function can't be an operand, so no operator can apply to it at this point.
     arrow_end: u32,
 
+    /// Start of the token following the last postfix operator. Its result can't be
+    /// accessed, called or used as a template tag unless it's in parentheses.
+    postfix_end: u32,
+
     /// AST under construction
     body: NodeList<'ast, Statement<'ast>>,
 }
@@ -51,6 +55,7 @@ impl<'ast> Parser<'ast> {
             lexer: Lexer::new(arena, source),
             errors: Vec::new(),
             arrow_end: u32::max_value(),
+            postfix_end: u32::max_value(),
             body: NodeList::empty(),
         }
     }
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index d19e194..896b6e5 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -332,6 +332,7 @@ macro_rules! postfix {
             fn handler<'ast>(par: &mut Parser<'ast>, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
                 let end = par.lexer.end();
                 par.lexer.consume();
+                par.postfix_end = par.lexer.start();
 
                 if !left.is_lvalue() {
                     par.error::<()>();
@@ -447,6 +448,13 @@ impl<'ast> Parser<'ast> {
                 break;
             }
 
+            if self.lexer.start() == self.postfix_end {
+                match self.lexer.token {
+                    Accessor | ParenOpen | BracketOpen | TemplateOpen | TemplateClosed => break,
+                    _ => {},
+                }
+            }
+
             left = handler(self, left);
         }
 
-- 
2.43.0


From cdf116bee9c7714efeba7f3ef8ae74dae43a6205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:37 +0000
Subject: [PATCH 55/91] fix: patterns and values are not operands of update
 operators

---
 ratel/src/ast/expression.rs    | 13 +++++++++++++
 ratel/src/parser/expression.rs |  7 +++++++
 ratel/src/parser/nested.rs     |  9 +++++++--
 3 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 6ca7a6b..0c70f8c 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -235,6 +235,19 @@ impl<'ast> Expression<'ast> {
         }
     }
 
+    /// Whether the expression can be a target of an operator other than `=`.
+    #[inline]
+    pub fn is_simple_lvalue(&self) -> bool {
+        use self::Expression::*;
+
+        match *self {
+            Identifier(_)     |
+            Member(_)         |
+            ComputedMember(_) => true,
+            _ => false,
+        }
+    }
+
     #[inline]
     pub fn is_lvalue(&self) -> bool {
         use self::Expression::*;
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index a8d2f9d..bf23cc8 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -349,6 +349,13 @@ impl<'ast> Parser<'ast> {
     pub fn prefix_expression(&mut self, operator: OperatorKind) -> PrefixExpression<'ast> {
         let operand = self.expression::<B15>();
 
+        match operator {
+            OperatorKind::Increment | OperatorKind::Decrement => if !operand.is_simple_lvalue() {
+                self.error::<()>();
+            },
+            _ => {},
+        }
+
         PrefixExpression {
             operator,
             operand,
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 896b6e5..898c1c4 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -334,7 +334,7 @@ macro_rules! postfix {
                 par.lexer.consume();
                 par.postfix_end = par.lexer.start();
 
-                if !left.is_lvalue() {
+                if !left.is_simple_lvalue() {
                     par.error::<()>();
                 }
 
@@ -355,7 +355,12 @@ macro_rules! assign {
             fn handler<'ast>(par: &mut Parser<'ast>, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
                 par.lexer.consume();
 
-                if !left.is_lvalue() {
+                let is_target = match $op {
+                    Assign => left.is_lvalue(),
+                    _      => left.is_simple_lvalue(),
+                };
+
+                if !is_target {
                     par.error::<()>();
                 }
 
-- 
2.43.0


From a35460cb2a7c5e3a7839936adaf4c3700cc6d657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:01 +0000
Subject: [PATCH 56/91] fix: unary operators need parentheses as the base of an
 exponent

---
 ratel/src/parser/expression.rs |  2 +-
 ratel/src/parser/mod.rs        |  5 +++++
 ratel/src/parser/nested.rs     | 17 ++++++++++++++++-
 3 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index bf23cc8..36299c1 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -353,7 +353,7 @@ impl<'ast> Parser<'ast> {
             OperatorKind::Increment | OperatorKind::Decrement => if !operand.is_simple_lvalue() {
                 self.error::<()>();
             },
-            _ => {},
+            _ => self.unary_end = self.lexer.start(),
         }
 
         PrefixExpression {
diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 4ff30b8..b0ef91c 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -44,6 +44,10 @@ pub struct Parser<'ast> {
     /// accessed, called or used as a template tag unless it's in parentheses.
     postfix_end: u32,
 
+    /// Start of the token following the last unary operator and its operand,
+    /// which can't be the base of an exponent unless it's in parentheses.
+    unary_end: u32,
+
     /// AST under construction
     body: NodeList<'ast, Statement<'ast>>,
 }
@@ -56,6 +60,7 @@ impl<'ast> Parser<'ast> {
             errors: Vec::new(),
             arrow_end: u32::max_value(),
             postfix_end: u32::max_value(),
+            unary_end: u32::max_value(),
             body: NodeList::empty(),
         }
     }
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 898c1c4..86072c4 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -438,8 +438,23 @@ binary!(SUB  , B13 => Subtraction);
 binary!(MUL  , B14 => Multiplication);
 binary!(DIV  , B14 => Division);
 binary!(REM  , B14 => Remainder);
+
 // Exponentiation is right associative
-binary!(EXPN , B14 => Exponent);
+const EXPN: NestedHandler = Some(|par, left| {
+    if par.lexer.start() == par.unary_end {
+        par.error::<()>();
+    }
+
+    par.lexer.consume();
+
+    let right = par.expression::<B14>();
+
+    par.alloc_at_loc(left.start, right.end, BinaryExpression {
+        operator: Exponent,
+        left,
+        right,
+    })
+});
 
 
 impl<'ast> Parser<'ast> {
-- 
2.43.0


From bd17ad60ac01c1bd84484be29d10403091da97af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:17 +0000
Subject: [PATCH 57/91] fix: numbers can't be followed by an identifier

---
 ratel/src/lexer/mod.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 3e1e3f8..a5169e0 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -533,7 +533,7 @@ const ZER: ByteHandler = Some(|lex| {
         }
     }
 
-    lex.token = LiteralNumber;
+    lex.finish_number(LiteralNumber);
 });
 
 // 1 to 9
@@ -552,7 +552,7 @@ const DIG: ByteHandler = Some(|lex| {
                 return lex.read_scientific();
             },
             _ => {
-                return lex.token = LiteralNumber;
+                return lex.finish_number(LiteralNumber);
             },
         }
     });
@@ -882,7 +882,7 @@ impl<'arena> Lexer<'arena> {
             }
         }
 
-        self.token = LiteralBinary;
+        self.finish_number(LiteralBinary);
     }
 
     /// This is a specialized method that expects the next token to be an identifier,
@@ -1066,6 +1066,18 @@ impl<'arena> Lexer<'arena> {
         }
     }
 
+    /// A number can't be directly followed by an identifier or a digit.
+    #[inline]
+    fn finish_number(&mut self, token: Token) {
+        if self.is_in_label() {
+            self.read_label();
+
+            return self.token = UnexpectedToken;
+        }
+
+        self.token = token;
+    }
+
     #[inline]
     fn read_octal(&mut self) {
         match self.read_byte() {
@@ -1080,7 +1092,7 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.finish_number(LiteralNumber);
     }
 
     #[inline]
@@ -1098,7 +1110,7 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.finish_number(LiteralNumber);
     }
 
     #[inline]
@@ -1114,7 +1126,7 @@ impl<'arena> Lexer<'arena> {
             }
         }
 
-        self.token = LiteralNumber;
+        self.finish_number(LiteralNumber);
     }
 
     #[inline]
@@ -1135,7 +1147,7 @@ impl<'arena> Lexer<'arena> {
             self.bump();
         }
 
-        self.token = LiteralNumber;
+        self.finish_number(LiteralNumber);
     }
 
     #[inline]
-- 
2.43.0


From f5d6dbff1256b28ee20c963eeb3af4bbaddf982d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 58/91] fix: end of computed member expressions

---
 ratel/src/parser/nested.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 86072c4..0d68208 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -304,8 +304,8 @@ const CMEM: NestedHandler = Some(|par, left| {
     par.lexer.consume();
     let property = par.expression::<ANY>();
 
-    expect!(par, BracketClose);
     let end = par.lexer.end();
+    expect!(par, BracketClose);
 
     par.alloc_at_loc(left.start, end, ComputedMemberExpression {
         object: left,
-- 
2.43.0


From 3b2e2140fc880f84c667aeeeaef67145ffe1451e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 59/91] fix: end of arrow functions

---
 ratel/src/ast/expression.rs    | 10 ++++++++++
 ratel/src/parser/expression.rs |  2 +-
 ratel/src/parser/nested.rs     |  2 +-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 0c70f8c..c9d4d87 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -112,6 +112,16 @@ pub enum ArrowBody<'ast> {
     Block(BlockNode<'ast, Statement<'ast>>)
 }
 
+impl<'ast> ArrowBody<'ast> {
+    #[inline]
+    pub fn end(&self) -> u32 {
+        match *self {
+            ArrowBody::Expression(ref expression) => expression.end,
+            ArrowBody::Block(ref block)           => block.end,
+        }
+    }
+}
+
 #[derive(Debug, PartialEq, Clone, Copy)]
 pub struct ArrowExpression<'ast> {
     pub params: NodeList<'ast, Pattern<'ast>>,
diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 36299c1..bb18633 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -332,7 +332,7 @@ impl<'ast> Parser<'ast> {
                 }
 
                 let expression = self.arrow_function_expression(NodeList::empty());
-                let end = self.lexer.end();
+                let end = expression.body.end();
                 self.alloc_at_loc(start, end, expression)
             },
             _ => {
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 0d68208..9374768 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -280,7 +280,7 @@ const ARRW: NestedHandler = Some(|par, left| {
 
     let expression = par.arrow_function_expression(params);
     let start = left.start;
-    let end = par.lexer.end();
+    let end = expression.body.end();
     par.alloc_at_loc(start, end, expression)
 });
 
-- 
2.43.0


From 737466569105393058eb75a10603a12cebc9b708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:50 +0000
Subject: [PATCH 60/91] fix: end of prefix expressions

---
 ratel/src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index bb18633..2344704 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -138,7 +138,7 @@ create_handlers! {
         let op = OperatorKind::from_token(par.lexer.token).expect("Must be a prefix operator");
         par.lexer.consume();
         let expression = par.prefix_expression(op);
-        let end = par.lexer.end();
+        let end = expression.operand.end;
         par.alloc_at_loc(start, end, expression)
     };
 
-- 
2.43.0


From 0b04b7dd0eb3a02f6987dcd21ee9f5783b9d8a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:51 +0000
Subject: [PATCH 61/91] fix: end of spread properties

---
 ratel/src/parser/expression.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 2344704..20e441c 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -483,7 +483,7 @@ impl<'ast> Parser<'ast> {
             OperatorSpread => {
                 let start = self.lexer.start_then_consume();
                 let argument = self.expression::<B0>();
-                let end = self.lexer.end();
+                let end = argument.end;
                 return self.alloc_at_loc(start, end, Property::Spread { argument });
             },
             LiteralString |
-- 
2.43.0


From b53c0517d06c61e0c13ad1102967e7b8f2570e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:06 +0000
Subject: [PATCH 62/91] fix: end of declarations without a semicolon

---
 ratel/src/parser/statement.rs | 31 ++++++++++++++-----------------
 1 file changed, 14 insertions(+), 17 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index e3b9245..9151113 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -240,8 +240,11 @@ impl<'ast> Parser<'ast> {
     #[inline]
     pub fn variable_declaration_statement(&mut self, kind: DeclarationKind) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
-        let declarators = self.variable_declarators();
-        let end = self.lexer.end();
+        let (declarators, end) = self.variable_declarators();
+        let end = match self.asi() {
+            Asi::ExplicitSemicolon => self.lexer.end(),
+            _                      => end,
+        };
         let declaration = self.alloc_at_loc(start, end, DeclarationStatement {
             kind,
             declarators
@@ -273,22 +276,17 @@ impl<'ast> Parser<'ast> {
     }
 
     #[inline]
-    pub fn variable_declarators(&mut self) -> NodeList<'ast, Declarator<'ast>> {
-        let builder = ListBuilder::new(self.arena, self.variable_declarator());
+    pub fn variable_declarators(&mut self) -> (NodeList<'ast, Declarator<'ast>>, u32) {
+        let mut declarator = self.variable_declarator();
+        let builder = ListBuilder::new(self.arena, declarator);
 
-        match self.lexer.token {
-            Comma => self.lexer.consume(),
-            _     => return builder.as_list(),
+        while self.lexer.token == Comma {
+            self.lexer.consume();
+            declarator = self.variable_declarator();
+            builder.push(self.arena, declarator);
         }
 
-        loop {
-            builder.push(self.arena, self.variable_declarator());
-
-            match self.lexer.token {
-                Comma => self.lexer.consume(),
-                _     => return builder.as_list(),
-            }
-        }
+        (builder.as_list(), declarator.end)
     }
 
     #[inline]
@@ -493,8 +491,7 @@ impl<'ast> Parser<'ast> {
     #[inline]
     fn for_init(&mut self, kind: DeclarationKind) -> Node<'ast, ForInit<'ast>> {
         let start = self.lexer.start_then_consume();
-        let declarators = self.variable_declarators();
-        let end = self.lexer.end();
+        let (declarators, end) = self.variable_declarators();
         
         self.alloc_at_loc(start, end, DeclarationStatement {
             kind,
-- 
2.43.0


From 4829d3db59a37921757e3ff1b5e869e773b7fcf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:21 +0000
Subject: [PATCH 63/91] fix: superclass is a member or call expression

---
 ratel/src/parser/function.rs |  4 ++--
 ratel/src/parser/nested.rs   | 13 +++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index e6e41da..d32b59a 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, ANY, B0};
+use parser::{Parser, Parse, ANY, B0, HERITAGE};
 use lexer::Asi;
 use lexer::Token::*;
 use ast::{Node, NodeList, EmptyName, OptionalName, MandatoryName, Name};
@@ -219,7 +219,7 @@ impl<'ast, N> Parse<'ast> for Class<'ast, N> where
             Extends => {
                 par.lexer.consume();
 
-                Some(par.expression::<B0>())
+                Some(par.expression::<HERITAGE>())
             },
             _ => None
         };
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 9374768..8da9dd9 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -237,6 +237,19 @@ bp!(MEMBER, [
     ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
 ]);
 
+// Member and call expressions only, for the superclass
+bp!(HERITAGE, [
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
+]);
+
 const ____: NestedHandler = None;
 
 const SEQ: NestedHandler = Some(|par, left| {
-- 
2.43.0


From fe59d8ebd7177bb9fef343831b8e9dfd29b4a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:21 +0000
Subject: [PATCH 64/91] fix: keep import specifiers in optimized builds

GrowableList mutates itself behind a shared reference, so that an optimized
build may assume the list is still empty when the declaration is built.
---
 ratel/src/parser/statement.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 9151113..1383c61 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -628,7 +628,7 @@ impl<'ast> Parser<'ast> {
         let import = self.lexer.token_as_str();
         let (start , end) = self.lexer.loc();
 
-        let builder: GrowableList<Node<'ast, ForImportSpecifier>> = GrowableList::new();
+        let mut specifiers: Vec<Node<'ast, ForImportSpecifier>> = Vec::new();
         self.lexer.consume();
         if self.lexer.token == Accessor || self.lexer.token == ParenOpen {
             // call or access. example: `import()` `import.filed`
@@ -646,7 +646,7 @@ impl<'ast> Parser<'ast> {
                 let node = self.alloc_at_loc(start, end, ImportDefaultSpecifier {
                     local: id,
                 });
-                builder.push(self.arena, node);
+                specifiers.push(node);
 
                 match self.lexer.token {
                     Comma => {
@@ -689,7 +689,7 @@ impl<'ast> Parser<'ast> {
                                     import.local = local;
                                 }
                                 let end = self.lexer.end();
-                                builder.push(self.arena, self.alloc_at_loc(start, end, import));
+                                specifiers.push(self.alloc_at_loc(start, end, import));
                                 match self.lexer.token {
                                     Comma => {
                                         self.lexer.consume();
@@ -726,7 +726,7 @@ impl<'ast> Parser<'ast> {
                     let ns = self.alloc_at_loc(start, end, ImportNamespaceSpecifier{
                         local,
                     });
-                    builder.push(self.arena, ns);
+                    specifiers.push(ns);
                 },
                 _ => {
                     self.error::<()>();
@@ -753,7 +753,7 @@ impl<'ast> Parser<'ast> {
         let end = self.lexer.end_then_consume();
         self.expect_semicolon();
         self.alloc_at_loc(start, end, ImportDeclaration {
-            specifiers: builder.as_list(),
+            specifiers: NodeList::from_iter(self.arena, specifiers),
             source,
         })
     }
-- 
2.43.0


From 746aeeb24cc8fd33f53b9aa993430d318438a29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 65/91] fix: unary operators start neither the callee of new
 nor a superclass

---
 ratel/src/parser/expression.rs | 15 ++++++++++++++-
 ratel/src/parser/function.rs   |  3 ++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 20e441c..afe3277 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -66,6 +66,19 @@ pub static CALL_CONTEXT: Context = &[
     ____, ____, ____, ____, ____, ____, IDEN, ____, TPLE, TPLS, ____, ____,
 ];
 
+// No handlers for unary operators, for the callee of `new` and the superclass
+pub static MEMBER_CONTEXT: Context = &[
+    ____, ____, ____, ____, PRN,  ____, ARR,  ____, OBJ,  ____, ____, NEW,
+    ____, ____, ____, ____, ____, ____, ____, ____, REG,  ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, REG,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, CLAS, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, FUNC, THIS, ____, ____, ____,
+    ____, ____, ____, TRUE, FALS, NULL, UNDE, STR,  NUM,  BIN,  ____, ____,
+    ____, ____, ____, ____, ____, ____, IDEN, ____, TPLE, TPLS, ____, ____,
+];
+
 macro_rules! create_handlers {
     ($( const $name:ident = |$par:ident| $code:expr; )* $( pub const $pname:ident = |$ppar:ident| $pcode:expr; )*) => {
         $(
@@ -366,7 +379,7 @@ impl<'ast> Parser<'ast> {
     /// following it belongs to `new` itself.
     #[inline]
     pub fn new_expression(&mut self) -> PrefixExpression<'ast> {
-        let callee = self.expression::<MEMBER>();
+        let callee = self.expression_in_context::<MEMBER>(MEMBER_CONTEXT);
 
         let operand = match (self.lexer.token, callee.item) {
             (ParenOpen, _) => self.call_expression(callee),
diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index d32b59a..3028cdd 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -1,5 +1,6 @@
 use toolshed::list::ListBuilder;
 use parser::{Parser, Parse, ANY, B0, HERITAGE};
+use parser::expression::MEMBER_CONTEXT;
 use lexer::Asi;
 use lexer::Token::*;
 use ast::{Node, NodeList, EmptyName, OptionalName, MandatoryName, Name};
@@ -219,7 +220,7 @@ impl<'ast, N> Parse<'ast> for Class<'ast, N> where
             Extends => {
                 par.lexer.consume();
 
-                Some(par.expression::<HERITAGE>())
+                Some(par.expression_in_context::<HERITAGE>(MEMBER_CONTEXT))
             },
             _ => None
         };
-- 
2.43.0


From 28312e7290e93b0a95e6ed54d5e9b4d237d55b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:07 +0000
Subject: [PATCH 66/91] fix: accessors are not class fields

---
 ratel/src/parser/function.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index 3028cdd..c4e63b7 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -179,7 +179,7 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
                     value,
                 }
             },
-            OperatorAssign => {
+            OperatorAssign if kind != MethodKind::Get && kind != MethodKind::Set => {
                 par.lexer.consume();
 
                 let expression = par.expression::<B0>();
-- 
2.43.0


From 96f006fe9b83be50093f29814764e3d8b34d217f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:14 +0000
Subject: [PATCH 67/91] fix: keep the bodies of switch cases in optimized
 builds

GrowableList mutates itself behind a shared reference, so that an optimized
build may assume the list is still empty when the case is built.
---
 ratel/src/parser/statement.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 1383c61..8e3e1c3 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,4 +1,4 @@
-use toolshed::list::{ListBuilder, GrowableList};
+use toolshed::list::ListBuilder;
 use parser::{Parser, Parse, ANY, B0, B15};
 use lexer::Token::*;
 use lexer::Asi;
@@ -134,7 +134,7 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
         let mut end = par.lexer.end();
         expect!(par, Colon);
 
-        let builder = GrowableList::new();
+        let mut consequent = Vec::new();
 
         loop {
             match par.lexer.token {
@@ -142,14 +142,14 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
                 _ => {
                     let statement = par.statement();
                     end = statement.end;
-                    builder.push(par.arena, statement);
+                    consequent.push(statement);
                 }
             }
         }
 
         par.alloc_at_loc(start, end, SwitchCase {
             test,
-            consequent: builder.as_list()
+            consequent: NodeList::from_iter(par.arena, consequent)
         })
     }
 }
-- 
2.43.0


From f825362114d7b26a82f6b564064c2ef0e2cb60f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 68/91] fix: end of member expressions

---
 ratel/src/parser/nested.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 8da9dd9..9b54526 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -299,11 +299,12 @@ const ARRW: NestedHandler = Some(|par, left| {
 
 const ACCS: NestedHandler = Some(|par, left| {
     let member = par.lexer.accessor_as_str();
+    let end = par.lexer.end();
     par.lexer.consume();
 
     let right = par.alloc_in_loc(member);
 
-    par.alloc_at_loc(left.start, right.end, MemberExpression {
+    par.alloc_at_loc(left.start, end, MemberExpression {
         object: left,
         property: right,
     })
-- 
2.43.0


From 366eaa461ed504615a80dbd5949c6eadfe6c2ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:09 +0000
Subject: [PATCH 69/91] fix: round large integers once

---
 ratel/src/astgen/value.rs | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index ba17bd4..634cc2c 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -30,8 +30,8 @@ pub fn is_float(value: &str) -> bool {
     value.bytes().any(|c| c == b'.' || c == b'e' || c == b'E')
 }
 
-/// Value of an integer literal. Integers that do not fit in 64 bits are not
-/// necessarily precise.
+/// Value of an integer literal. Integers that do not fit in 64 bits are
+/// rounded to the nearest `f64`.
 #[derive(Debug, Serialize)]
 #[serde(untagged)]
 pub enum Integer {
@@ -44,9 +44,24 @@ pub fn parse_integer(digits: &str, radix: u32) -> Integer {
     match u64::from_str_radix(digits, radix) {
         Ok(value)             => Integer::Exact(value),
         Err(_) if radix == 10 => Integer::Approximate(digits.parse().expect("Invalid number")),
-        Err(_)                => Integer::Approximate(digits.chars().fold(0.0, |value, digit| {
-            value * f64::from(radix) + f64::from(digit.to_digit(radix).unwrap_or(0))
-        })),
+        Err(_)                => {
+            // The radix is a power of two: keep the leading bits, all further ones
+            // only matter for rounding, which is done once.
+            let bits = radix.trailing_zeros();
+            let mut value = 0u64;
+            let mut exponent = 0;
+
+            for digit in digits.chars().map(|digit| u64::from(digit.to_digit(radix).unwrap_or(0))) {
+                if value >> 59 == 0 {
+                    value = (value << bits) | digit;
+                } else {
+                    value |= (digit != 0) as u64;
+                    exponent += bits as i32;
+                }
+            }
+
+            Integer::Approximate(value as f64 * 2f64.powi(exponent))
+        }
     }
 }
 
-- 
2.43.0


From ac39e48505d83ad498d57e3a5b73e0f60d3df151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:47 +0000
Subject: [PATCH 70/91] fix: no empty statements after the cases of a switch

---
 ratel-codegen/src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ratel-codegen/src/lib.rs b/ratel-codegen/src/lib.rs
index 7528710..102ce58 100644
--- a/ratel-codegen/src/lib.rs
+++ b/ratel-codegen/src/lib.rs
@@ -42,8 +42,10 @@ pub trait Generator: Sized {
             Some(b':') |
             Some(b'{') |
             Some(b'}') |
-            Some(b')') => {},
-            _          => self.write_byte(b';'),
+            Some(b')') |
+            Some(b' ') |
+            Some(b'\n') => {},
+            _           => self.write_byte(b';'),
         }
     }
 
-- 
2.43.0


From 259469f25cd0eb7bc5047cd276e93ca0efabfe59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:44 +0000
Subject: [PATCH 71/91] fix: line terminators after the dot of a member name
 don't count as ones before it

---
 ratel/src/lexer/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index a5169e0..05ab0bb 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -919,7 +919,13 @@ impl<'arena> Lexer<'arena> {
         loop {
             ch = self.read_byte();
 
-            if self.skip_unicode_space() || self.skip_comment() {
+            // Line terminators after the `.` are part of the token and not before it,
+            // they don't count for semicolon insertion.
+            let space = self.unicode_space_len();
+
+            self.index += space;
+
+            if space != 0 || self.skip_comment() {
                 continue;
             }
 
-- 
2.43.0


From 69e1cf26e9b137e6ed382f320bad5d09ed920ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:36 +0000
Subject: [PATCH 72/91] fix: announce the number of members a serialized node
 has

---
 ratel/src/astgen/function.rs  | 2 +-
 ratel/src/astgen/statement.rs | 2 +-
 ratel/src/astgen/value.rs     | 7 ++++++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/function.rs b/ratel/src/astgen/function.rs
index 15888b0..5e7f3e9 100644
--- a/ratel/src/astgen/function.rs
+++ b/ratel/src/astgen/function.rs
@@ -125,7 +125,7 @@ where
     where
         S: Serializer,
     {
-        self.in_loc(serializer, N::IN_FUNCTION, 3, |state| {
+        self.in_loc(serializer, N::IN_FUNCTION, 4, |state| {
             state.serialize_field("generator", &self.generator)?;
             state.serialize_field("id", &self.name)?;
             state.serialize_field("params", &self.params)?;
diff --git a/ratel/src/astgen/statement.rs b/ratel/src/astgen/statement.rs
index 8c23823..e6a42f8 100644
--- a/ratel/src/astgen/statement.rs
+++ b/ratel/src/astgen/statement.rs
@@ -207,7 +207,7 @@ impl<'ast> SerializeInLoc for ImportDeclaration<'ast> {
     where
         S: Serializer,
     {
-        self.in_loc(serializer, "ImportDeclaration", 1, |state| {
+        self.in_loc(serializer, "ImportDeclaration", 2, |state| {
             state.serialize_field("specifiers", &self.specifiers)?;
             state.serialize_field("source", &self.source)
         })
diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 634cc2c..95faf62 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -219,7 +219,12 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
             _ => "Literal",
         };
 
-        self.in_loc(serializer, literal_type, 1, |state| {
+        let length = match *self {
+            Undefined => 1,
+            _ => 2,
+        };
+
+        self.in_loc(serializer, literal_type, length, |state| {
             match *self {
                 Undefined => {
                     state.serialize_field("raw", &"undefined")
-- 
2.43.0


From 8d017c285c7febc6a8f0a256ba7d097a4cda1fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:56:32 +0000
Subject: [PATCH 73/91] fix: legacy octal literals are octal

---
 ratel/src/astgen/value.rs | 11 +++++++++++
 ratel/src/lexer/mod.rs    | 14 +++++++++++---
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/ratel/src/astgen/value.rs b/ratel/src/astgen/value.rs
index 95faf62..805e92e 100644
--- a/ratel/src/astgen/value.rs
+++ b/ratel/src/astgen/value.rs
@@ -30,6 +30,12 @@ pub fn is_float(value: &str) -> bool {
     value.bytes().any(|c| c == b'.' || c == b'e' || c == b'E')
 }
 
+/// Octal literals without a prefix start with a zero, and have no 8 or 9 among their digits.
+#[inline]
+fn is_legacy_octal(value: &str) -> bool {
+    value.len() > 1 && value.starts_with('0') && value.bytes().all(|c| c >= b'0' && c <= b'7')
+}
+
 /// Value of an integer literal. Integers that do not fit in 64 bits are
 /// rounded to the nearest `f64`.
 #[derive(Debug, Serialize)]
@@ -257,6 +263,11 @@ impl<'ast> SerializeInLoc for Literal<'ast> {
                         }
                     }
 
+                    if is_legacy_octal(number) {
+                        state.serialize_field("value", &parse_integer(number, 8))?;
+                        return state.serialize_field("raw", &number)
+                    }
+
                     if is_float(number) {
                         let value: f64 = number.parse().expect("Invalid number");
                         state.serialize_field("value", &value)?;
diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 05ab0bb..7a02a0a 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -514,17 +514,25 @@ const ZER: ByteHandler = Some(|lex| {
         _ => {}
     }
 
+    // Digits after a zero are those of a legacy octal, which has neither
+    // fraction nor exponent, unless there is an 8 or a 9 among them.
+    let mut octal = lex.read_byte().is_ascii_digit();
+
     loop {
         match lex.read_byte() {
-            b'0'..=b'9' => {
+            b'0'..=b'7' => {
                 lex.bump();
             },
-            b'.' => {
+            b'8' | b'9' => {
+                octal = false;
+                lex.bump();
+            },
+            b'.' if !octal => {
                 lex.bump();
 
                 return lex.read_float();
             },
-            b'e' | b'E' => {
+            b'e' | b'E' if !octal => {
                 lex.bump();
 
                 return lex.read_scientific();
-- 
2.43.0


From 31f8f65fe665ee6f879117c605d4b6007dd474a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:09 +0000
Subject: [PATCH 74/91] fix: assignment targets within patterns are checked

---
 ratel/src/ast/expression.rs | 65 +++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 7 deletions(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index c9d4d87..6423e10 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -258,18 +258,69 @@ impl<'ast> Expression<'ast> {
         }
     }
 
+    /// Whether the expression can be a target of the `=` operator.
     #[inline]
     pub fn is_lvalue(&self) -> bool {
         use self::Expression::*;
 
         match *self {
-            Identifier(_)     |
-            Member(_)         |
-            ComputedMember(_) |
-            Object(_)         |
-            Array(_)          |
-            Spread(_)         => true,
-            _ => false,
+            Object(_) |
+            Array(_)  => self.is_pattern(Expression::is_simple_lvalue),
+            Spread(_) => true,
+            _         => self.is_simple_lvalue(),
+        }
+    }
+
+    /// Whether the expression can be read as a pattern with given targets.
+    pub fn is_pattern(&self, is_target: fn(&Expression<'ast>) -> bool) -> bool {
+        use self::Expression::*;
+
+        match *self {
+            Object(ref object) => {
+                let mut properties = object.body.iter().peekable();
+
+                while let Some(property) = properties.next() {
+                    let is_pattern = match property.item {
+                        Property::Shorthand(_)           => true,
+                        Property::Literal { value, .. }  => value.is_pattern_element(is_target),
+                        Property::Method { .. }          => false,
+                        Property::Spread { argument }    => properties.peek().is_none() && is_target(&argument),
+                    };
+
+                    if !is_pattern {
+                        return false;
+                    }
+                }
+
+                true
+            },
+            Array(ref array) => {
+                let mut elements = array.body.iter().peekable();
+
+                while let Some(element) = elements.next() {
+                    let is_pattern = match element.item {
+                        Spread(SpreadExpression { argument }) => elements.peek().is_none() && argument.is_pattern(is_target),
+                        Void => true,
+                        _    => element.is_pattern_element(is_target),
+                    };
+
+                    if !is_pattern {
+                        return false;
+                    }
+                }
+
+                true
+            },
+            _ => is_target(self),
+        }
+    }
+
+    /// Elements and properties of patterns may have a default value.
+    #[inline]
+    fn is_pattern_element(&self, is_target: fn(&Expression<'ast>) -> bool) -> bool {
+        match *self {
+            Expression::Binary(BinaryExpression { operator: OperatorKind::Assign, left, .. }) => left.is_pattern(is_target),
+            _ => self.is_pattern(is_target),
         }
     }
 }
-- 
2.43.0


From 0af2271da17afa1c41733c03a34ac62f6dd82578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:18 +0000
Subject: [PATCH 75/91] fix: properties of object patterns can only bind names

---
 ratel/src/ast/expression.rs  | 8 ++++++++
 ratel/src/parser/function.rs | 8 +++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/ratel/src/ast/expression.rs b/ratel/src/ast/expression.rs
index 6423e10..24c39cb 100644
--- a/ratel/src/ast/expression.rs
+++ b/ratel/src/ast/expression.rs
@@ -258,6 +258,14 @@ impl<'ast> Expression<'ast> {
         }
     }
 
+    #[inline]
+    pub fn is_identifier(&self) -> bool {
+        match *self {
+            Expression::Identifier(_) => true,
+            _                         => false,
+        }
+    }
+
     /// Whether the expression can be a target of the `=` operator.
     #[inline]
     pub fn is_lvalue(&self) -> bool {
diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index c4e63b7..e0df935 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -4,7 +4,8 @@ use parser::expression::MEMBER_CONTEXT;
 use lexer::Asi;
 use lexer::Token::*;
 use ast::{Node, NodeList, EmptyName, OptionalName, MandatoryName, Name};
-use ast::{MethodKind, Pattern, Function, Class, ClassMember, PropertyKey};
+use ast::{MethodKind, Pattern, Function, Class, ClassMember, PropertyKey, Expression};
+use ast::expression::ObjectExpression;
 
 impl<'ast> Parse<'ast> for EmptyName {
     type Output = Self;
@@ -271,6 +272,11 @@ impl<'ast> Parser<'ast> {
 
         expect!(self, BraceClose);
 
+        // Values of the properties have been read as expressions
+        if !Expression::from(ObjectExpression { body: properties }).is_pattern(Expression::is_identifier) {
+            self.error::<()>();
+        }
+
         self.alloc_at_loc(start, end, Pattern::ObjectPattern {
             properties,
         })
-- 
2.43.0


From 8441999b257610044f68044f54936169119537f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:03:46 +0000
Subject: [PATCH 76/91] fix: loops can only assign to what can be assigned to

---
 ratel/src/parser/statement.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 8e3e1c3..f7ed80c 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -518,7 +518,7 @@ impl<'ast> Parser<'ast> {
                 // `in` following the first operand separates the two sides
                 // of the for-in statement, and is never a binary operator.
                 if self.lexer.token == OperatorIn {
-                    let left = self.alloc_at_loc(init.start, init.end, init);
+                    let left = self.for_target(init);
 
                     self.lexer.consume();
                     return self.for_in_statement(start, left);
@@ -526,6 +526,13 @@ impl<'ast> Parser<'ast> {
 
                 let init = self.nested_expression::<ANY>(init);
 
+                if self.lexer.token == Identifier && self.lexer.token_as_str() == "of" {
+                    let left = self.for_target(init);
+
+                    self.lexer.consume();
+                    return self.for_of_statement(start, left);
+                }
+
                 Some(self.alloc_at_loc(init.start, init.end, init))
             },
         };
@@ -580,6 +587,16 @@ impl<'ast> Parser<'ast> {
         })
     }
 
+    /// Left side of a for-in or for-of statement that isn't a declaration
+    #[inline]
+    fn for_target(&mut self, target: ExpressionNode<'ast>) -> Node<'ast, ForInit<'ast>> {
+        if !target.is_lvalue() {
+            self.error::<()>();
+        }
+
+        self.alloc_at_loc(target.start, target.end, target)
+    }
+
     fn for_in_statement(&mut self, start: u32, left: Node<'ast, ForInit<'ast>>) -> StatementNode<'ast> {
         let right = self.expression::<ANY>();
 
-- 
2.43.0


From 6ee624ea49d87feeb291a9bdddf9b1899ae0aaa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:19 +0000
Subject: [PATCH 77/91] fix: a computed key is a single expression

---
 ratel/src/parser/expression.rs | 2 +-
 ratel/src/parser/function.rs   | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index afe3277..82da0e4 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -518,7 +518,7 @@ impl<'ast> Parser<'ast> {
             },
             BracketOpen => {
                 let start = self.lexer.start_then_consume();
-                let expression = self.expression::<ANY>();
+                let expression = self.expression::<B0>();
                 let end = self.lexer.end();
 
                 expect!(self, BracketClose);
diff --git a/ratel/src/parser/function.rs b/ratel/src/parser/function.rs
index e0df935..b6f8a44 100644
--- a/ratel/src/parser/function.rs
+++ b/ratel/src/parser/function.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, ANY, B0, HERITAGE};
+use parser::{Parser, Parse, B0, HERITAGE};
 use parser::expression::MEMBER_CONTEXT;
 use lexer::Asi;
 use lexer::Token::*;
@@ -155,7 +155,7 @@ impl<'ast> Parse<'ast> for ClassMember<'ast> {
             BracketOpen => {
                 par.lexer.consume();
 
-                let expression = par.expression::<ANY>();
+                let expression = par.expression::<B0>();
                 token_end = par.lexer.end();
 
                 expect!(par, BracketClose);
-- 
2.43.0


From 73a420e8df574eb7bdb6881db5434a4e6f5fa05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:32 +0000
Subject: [PATCH 78/91] fix: declarations can't be bodies of other statements

---
 ratel/src/parser/statement.rs | 39 ++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index f7ed80c..c940389 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -205,7 +205,7 @@ impl<'ast> Parser<'ast> {
         if self.lexer.token == Colon {
             self.lexer.consume();
 
-            let body = self.statement();
+            let body = self.body_or_function();
 
             return self.alloc_at_loc(start, body.end, LabeledStatement {
                 label,
@@ -427,6 +427,29 @@ impl<'ast> Parser<'ast> {
         })
     }
 
+    /// Declarations are only allowed among the statements of a block or program
+    #[inline]
+    fn body(&mut self) -> StatementNode<'ast> {
+        if let Function = self.lexer.token {
+            self.error::<()>();
+        }
+
+        self.body_or_function()
+    }
+
+    /// Branches of an if statement, and what is labeled, can be functions
+    #[inline]
+    fn body_or_function(&mut self) -> StatementNode<'ast> {
+        match self.lexer.token {
+            DeclarationLet   |
+            DeclarationConst |
+            Class            => self.error::<()>(),
+            _                => {}
+        }
+
+        self.statement()
+    }
+
     #[inline]
     pub fn if_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
@@ -434,12 +457,12 @@ impl<'ast> Parser<'ast> {
         let test = self.expression::<ANY>();
         expect!(self, ParenClose);
 
-        let consequent = self.statement();
+        let consequent = self.body_or_function();
 
         let (alternate, end) = match self.lexer.token {
             Else => {
                 self.lexer.consume();
-                let alternate = self.statement();
+                let alternate = self.body_or_function();
                 (Some(alternate), alternate.end)
             },
             _ => (None, consequent.end)
@@ -459,7 +482,7 @@ impl<'ast> Parser<'ast> {
         let test = self.expression::<ANY>();
         expect!(self, ParenClose);
 
-        let body = self.statement();
+        let body = self.body();
 
         self.alloc_at_loc(start, body.end, WhileStatement {
             test,
@@ -470,7 +493,7 @@ impl<'ast> Parser<'ast> {
     #[inline]
     pub fn do_statement(&mut self) -> StatementNode<'ast> {
         let start = self.lexer.start_then_consume();
-        let body = self.statement();
+        let body = self.body();
         expect!(self, While);
         expect!(self, ParenOpen);
         let test = self.expression::<ANY>();
@@ -577,7 +600,7 @@ impl<'ast> Parser<'ast> {
             }
         };
 
-        let body = self.statement();
+        let body = self.body();
 
         self.alloc_at_loc(start, body.end, ForStatement {
             init,
@@ -602,7 +625,7 @@ impl<'ast> Parser<'ast> {
 
         expect!(self, ParenClose);
 
-        let body = self.statement();
+        let body = self.body();
 
         self.alloc_at_loc(start, body.end, ForInStatement {
             left,
@@ -616,7 +639,7 @@ impl<'ast> Parser<'ast> {
 
         expect!(self, ParenClose);
 
-        let body = self.statement();
+        let body = self.body();
 
         self.alloc_at_loc(start, body.end, ForOfStatement {
             left,
-- 
2.43.0


From 33794b92f89d8048861fe887f92e5c2409ccb3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:04:45 +0000
Subject: [PATCH 79/91] fix: line separators end regular expressions

---
 ratel/src/lexer/mod.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 7a02a0a..5aec9c3 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1169,6 +1169,12 @@ impl<'arena> Lexer<'arena> {
         let start = self.token_start;
         let mut in_class = false;
         loop {
+            if self.is_unicode_newline() {
+                self.index += self.unicode_space_len();
+                self.token = UnexpectedToken;
+                return "";
+            }
+
             match self.read_byte() {
                 b'['  => {
                     self.bump();
@@ -1191,6 +1197,7 @@ impl<'arena> Lexer<'arena> {
                             return "";
                         },
                         b'\n' | b'\r' => {},
+                        _ if self.is_unicode_newline() => {},
                         _ => self.bump()
                     }
                 },
-- 
2.43.0


From 679999c1e9fe28705c759002984ffa85bd653277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:07:16 +0000
Subject: [PATCH 80/91] fix: loops can't assign to arrow functions

---
 ratel/src/parser/statement.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index c940389..43f7cdc 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -549,14 +549,11 @@ impl<'ast> Parser<'ast> {
 
                 let init = self.nested_expression::<ANY>(init);
 
-                if self.lexer.token == Identifier && self.lexer.token_as_str() == "of" {
-                    let left = self.for_target(init);
-
-                    self.lexer.consume();
-                    return self.for_of_statement(start, left);
+                match self.lexer.token {
+                    OperatorIn => Some(self.for_target(init)),
+                    Identifier if self.lexer.token_as_str() == "of" => Some(self.for_target(init)),
+                    _ => Some(self.alloc_at_loc(init.start, init.end, init)),
                 }
-
-                Some(self.alloc_at_loc(init.start, init.end, init))
             },
         };
 
-- 
2.43.0


From 4b911086d3f1892b37ef6a429cbaeb5f74b9529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:34 +0000
Subject: [PATCH 81/91] fix: control characters are no white space

---
 ratel/src/lexer/mod.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 5aec9c3..c792824 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -59,8 +59,8 @@ type ByteHandler = Option<for<'arena> fn(&mut Lexer<'arena>)>;
 /// Lookup table mapping any incoming byte to a handler function defined below.
 static BYTE_HANDLERS: [ByteHandler; 256] = [
 //   0    1    2    3    4    5    6    7    8    9    A    B    C    D    E    F   //
-    EOF, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, // 0
-    ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, ___, // 1
+    EOF, ERR, ERR, ERR, ERR, ERR, ERR, ERR, ERR, ___, ___, ___, ___, ___, ERR, ERR, // 0
+    ERR, ERR, ERR, ERR, ERR, ERR, ERR, ERR, ERR, ERR, ERR, ERR, ERR, ERR, ERR, ERR, // 1
     ___, EXL, QOT, ERR, IDT, PRC, AMP, QOT, PNO, PNC, ATR, PLS, COM, MIN, PRD, SLH, // 2
     ZER, DIG, DIG, DIG, DIG, DIG, DIG, DIG, DIG, DIG, COL, SEM, LSS, EQL, MOR, QST, // 3
     ERR, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, // 4
@@ -960,11 +960,11 @@ impl<'arena> Lexer<'arena> {
                 }
             }
 
-            if ch == 0 {
-                return self.token = UnexpectedEndOfProgram;
+            match ch {
+                b'\t' | b'\n' | 0x0B | 0x0C | b'\r' | b' ' => self.bump(),
+                0 => return self.token = UnexpectedEndOfProgram,
+                _ => return self.token = UnexpectedToken,
             }
-
-            self.bump();
         }
     }
 
-- 
2.43.0


From 6abd5bcfc3b5c1569d44a0aa85d48370853d3939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 82/91] fix: only unicode escapes are part of identifiers

---
 ratel/src/lexer/mod.rs | 85 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 80 insertions(+), 5 deletions(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index c792824..c6c3d2f 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -64,7 +64,7 @@ static BYTE_HANDLERS: [ByteHandler; 256] = [
     ___, EXL, QOT, ERR, IDT, PRC, AMP, QOT, PNO, PNC, ATR, PLS, COM, MIN, PRD, SLH, // 2
     ZER, DIG, DIG, DIG, DIG, DIG, DIG, DIG, DIG, DIG, COL, SEM, LSS, EQL, MOR, QST, // 3
     ERR, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, // 4
-    IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, BTO, IDT, BTC, CRT, IDT, // 5
+    IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, IDT, BTO, ESC, BTC, CRT, IDT, // 5
     TPL, IDT, L_B, L_C, L_D, L_E, L_F, IDT, IDT, L_I, IDT, IDT, L_L, IDT, L_N, IDT, // 6
     L_P, IDT, L_R, L_S, L_T, L_U, L_V, L_W, IDT, L_Y, IDT, BEO, PIP, BEC, TLD, ERR, // 7
     UNI, UNI, UNI, UNI, UNI, UNI, UNI, UNI, UNI, UNI, UNI, UNI, UNI, UNI, UNI, UNI, // 8
@@ -463,6 +463,19 @@ const PRC: ByteHandler = Some(|lex| {
     };
 });
 
+// Identifier starting with an escape sequence
+const ESC: ByteHandler = Some(|lex| {
+    if !lex.is_escape_start() {
+        lex.bump();
+
+        return lex.token = UnexpectedToken;
+    }
+
+    lex.read_label();
+
+    lex.token = Identifier;
+});
+
 // Unicode character
 const UNI: ByteHandler = Some(|lex| {
     if lex.skip_unicode_space() {
@@ -952,7 +965,7 @@ impl<'arena> Lexer<'arena> {
 
                     self.read_label();
                     return self.token = Accessor;
-                } else if TABLE[ch as usize] {
+                } else if TABLE[ch as usize] && (ch != b'\\' || self.is_escape_start()) {
                     self.read_label();
                     return self.token = Accessor;
                 } else {
@@ -971,16 +984,78 @@ impl<'arena> Lexer<'arena> {
     #[inline]
     fn read_label(&mut self) {
         while self.is_in_label() {
-            self.bump();
+            match self.unicode_escape() {
+                Some((len, _)) => self.index += len,
+                None           => self.bump(),
+            }
         }
     }
 
     /// Whether the current byte continues an identifier.
     #[inline]
     fn is_in_label(&self) -> bool {
-        let ch = self.read_byte();
+        match self.read_byte() {
+            b'\\'        => self.is_escape_in_label(),
+            0x80..=0xFF  => self.unicode_space_len() == 0,
+            ch           => util::legal_in_label(ch),
+        }
+    }
+
+    /// Whether there is an escape sequence at current index
+    /// that can be a part of an identifier.
+    #[inline]
+    fn is_escape_in_label(&self) -> bool {
+        match self.unicode_escape() {
+            Some((_, code)) => match ::std::char::from_u32(code) {
+                Some(ch) if ch.is_ascii() => ch != '\\' && util::legal_in_label(ch as u8),
+                Some(ch)                  => !ch.is_whitespace(),
+                None                      => false,
+            },
+            None => false,
+        }
+    }
 
-        util::legal_in_label(ch) && (ch < 0x80 || self.unicode_space_len() == 0)
+    /// Same as above, but for the beginning of an identifier.
+    #[inline]
+    fn is_escape_start(&self) -> bool {
+        match self.unicode_escape() {
+            Some((_, 0x30..=0x39)) => false,
+            _                      => self.is_escape_in_label(),
+        }
+    }
+
+    /// Length in bytes and value of the unicode escape sequence at current index.
+    #[inline]
+    fn unicode_escape(&self) -> Option<(usize, u32)> {
+        let byte = |offset| unsafe { *self.ptr.add(self.index + offset) };
+        let digit = |offset| (byte(offset) as char).to_digit(16);
+
+        if byte(0) != b'\\' || byte(1) != b'u' {
+            return None;
+        }
+
+        if byte(2) != b'{' {
+            let code = digit(2)? << 12 | digit(3)? << 8 | digit(4)? << 4 | digit(5)?;
+
+            return Some((6, code));
+        }
+
+        let mut code = digit(3)?;
+        let mut len = 4;
+
+        while let Some(digit) = digit(len) {
+            code = code << 4 | digit;
+            len += 1;
+
+            if code > 0x10FFFF {
+                return None;
+            }
+        }
+
+        match byte(len) {
+            b'}' => Some((len + 1, code)),
+            _    => None,
+        }
     }
 
     /// Length in bytes of the unicode white space character or
-- 
2.43.0


From dc8e35060c7d68a0cda27f16c4541cd07dd15b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:26 +0000
Subject: [PATCH 83/91] fix: escape sequences of strings have to be complete

---
 ratel/src/lexer/mod.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index c6c3d2f..4e69532 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -610,13 +610,19 @@ const QOT: ByteHandler = Some(|lex| {
 
     lex.bump();
 
+    let mut token = LiteralString;
+
     unwind_loop!({
         match lex.read_byte() {
             ch if ch == style => {
                 lex.bump();
-                return lex.token = LiteralString;
+                return lex.token = token;
             },
             b'\\' => {
+                if lex.is_bad_escape() {
+                    token = UnexpectedToken;
+                }
+
                 lex.bump();
 
                 match lex.read_byte() {
@@ -1024,6 +1030,18 @@ impl<'arena> Lexer<'arena> {
         }
     }
 
+    /// Whether there is an incomplete escape sequence at current index.
+    #[inline]
+    fn is_bad_escape(&self) -> bool {
+        let byte = |offset| unsafe { *self.ptr.add(self.index + offset) };
+
+        match byte(1) {
+            b'x' => !byte(2).is_ascii_hexdigit() || !byte(3).is_ascii_hexdigit(),
+            b'u' => self.unicode_escape().is_none(),
+            _    => false,
+        }
+    }
+
     /// Length in bytes and value of the unicode escape sequence at current index.
     #[inline]
     fn unicode_escape(&self) -> Option<(usize, u32)> {
-- 
2.43.0


From 7103490c55777c0f601430fefc282fc82bf5cebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:22 +0000
Subject: [PATCH 84/91] fix: import declarations are only allowed at the top
 level

---
 ratel/src/parser/mod.rs       | 14 +++++++++++---
 ratel/src/parser/statement.rs | 35 ++++++++++++++++++++++++++++-------
 2 files changed, 39 insertions(+), 10 deletions(-)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index b0ef91c..f92e2d4 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -14,7 +14,7 @@ use module::Module;
 use self::error::ToError;
 use self::nested::*;
 
-use ast::{Loc, Node, Statement, NodeList, Block, BlockNode};
+use ast::{Loc, Node, Statement, StatementNode, NodeList, Block, BlockNode};
 use ast::{Expression, ExpressionNode, ExpressionList, IdentifierNode};
 use ast::{OperatorKind, Pattern};
 use ast::expression::BinaryExpression;
@@ -120,16 +120,24 @@ impl<'ast> Parser<'ast> {
             return;
         }
 
-        let statement = self.statement();
+        let statement = self.module_item();
         let builder = ListBuilder::new(self.arena, statement);
 
         while self.lexer.token != EndOfProgram {
-            builder.push(self.arena, self.statement());
+            builder.push(self.arena, self.module_item());
         }
 
         self.body = builder.as_list()
     }
 
+    #[inline]
+    fn module_item(&mut self) -> StatementNode<'ast> {
+        match self.lexer.token {
+            Import => self.import_declaration(),
+            _      => self.statement(),
+        }
+    }
+
     #[inline]
     fn block<I>(&mut self) -> BlockNode<'ast, I> where
         I: Parse<'ast, Output = Node<'ast, I>> + Copy
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 43f7cdc..8a52f8d 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -95,7 +95,7 @@ create_handlers! {
     const TRY  = |par| par.try_statement();
     const SWCH = |par| par.switch_statement();
     const LABL = |par| par.labeled_or_expression_statement();
-    const IMPT = |par| par.import_declaration();
+    const IMPT = |par| par.import_statement();
 }
 
 impl<'ast> Parse<'ast> for Statement<'ast> {
@@ -661,18 +661,39 @@ impl<'ast> Parser<'ast> {
         })
     }
 
-    fn import_declaration(&mut self) -> StatementNode<'ast> {
+    /// call or access. example: `import()` `import.filed`
+    #[inline]
+    fn import_expression(&mut self, start: u32, end: u32, import: &'ast str) -> StatementNode<'ast> {
+        let expression = self.alloc_at_loc(start, end, import);
+        let expression = self.nested_expression::<ANY>(expression);
+        self.expect_semicolon();
+        self.alloc_at_loc(start, expression.end, expression)
+    }
+
+    /// Within other statements there can only be import expressions
+    #[inline]
+    fn import_statement(&mut self) -> StatementNode<'ast> {
+        let import = self.lexer.token_as_str();
+        let (start, end) = self.lexer.loc();
+
+        self.lexer.consume();
+
+        match self.lexer.token {
+            Accessor | ParenOpen => {},
+            _                    => self.error(),
+        }
+
+        self.import_expression(start, end, import)
+    }
+
+    pub fn import_declaration(&mut self) -> StatementNode<'ast> {
         let import = self.lexer.token_as_str();
         let (start , end) = self.lexer.loc();
 
         let mut specifiers: Vec<Node<'ast, ForImportSpecifier>> = Vec::new();
         self.lexer.consume();
         if self.lexer.token == Accessor || self.lexer.token == ParenOpen {
-            // call or access. example: `import()` `import.filed`
-            let expression = self.alloc_at_loc(start, end, import);
-            let expression = self.nested_expression::<ANY>(expression);
-            self.expect_semicolon();
-            return self.alloc_at_loc(start, expression.end, expression)
+            return self.import_expression(start, end, import);
         }
 
         let has_next = match self.lexer.token {
-- 
2.43.0


From f0f2f51d585d075fddcc4fa39e4b6812a7c509e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:34 +0000
Subject: [PATCH 85/91] fix: flags of regular expressions can't be repeated

---
 ratel/src/lexer/mod.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 4e69532..7f38971 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1307,7 +1307,15 @@ impl<'arena> Lexer<'arena> {
             }
         }
 
-        while let b'g' | b'i' | b'm' | b'u' | b'y' = self.read_byte() {
+        let flags = self.index;
+
+        while let flag @ (b'g' | b'i' | b'm' | b'u' | b'y') = self.read_byte() {
+            if self.slice_from(flags).as_bytes().contains(&flag) {
+                self.bump();
+                self.token = UnexpectedToken;
+                return "";
+            }
+
             self.bump();
         }
 
-- 
2.43.0


From c3dfeebdaaf0d014a49ce27951565b22b18cf869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:18 +0000
Subject: [PATCH 86/91] fix: arrow functions are no operands

---
 ratel/src/parser/expression.rs |  8 +++-----
 ratel/src/parser/mod.rs        |  2 +-
 ratel/src/parser/nested.rs     | 18 ++++++++++++++++++
 ratel/src/parser/statement.rs  |  4 ++--
 4 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 82da0e4..7295576 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -284,14 +284,12 @@ impl<'ast> Parser<'ast> {
         let params = self.params_from_expressions(params);
 
         let body = match self.lexer.token {
-            BraceOpen => {
-                let block = self.unchecked_block();
-                self.arrow_end = self.lexer.start();
-                ArrowBody::Block(block)
-            },
+            BraceOpen => ArrowBody::Block(self.unchecked_block()),
             _         => ArrowBody::Expression(self.expression::<B0>()),
         };
 
+        self.arrow_end = self.lexer.start();
+
         ArrowExpression {
             params,
             body,
diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index f92e2d4..3492dd6 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -36,7 +36,7 @@ pub struct Parser<'ast> {
     /// Errors occurred during parsing
     errors: Vec<Error>,
 
-    /// Start of the token following the block of the last arrow function. An arrow
+    /// Start of the token following the last arrow function. An arrow
     /// function can't be an operand, so no operator can apply to it at this point.
     arrow_end: u32,
 
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 9b54526..55674ae 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -224,6 +224,19 @@ bp!(B15, [
     ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
 ]);
 
+// First operand in the head of a loop, or an arrow function
+bp!(HEAD, [
+    ____, ____, ____, ____, CALL, ____, CMEM, ____, ____, ____, ARRW, ____,
+    INC,  DEC,  ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____, ____,
+    ____, ____, ____, ____, ____, ____, ____, ACCS, TPLE, TPLS, ____, ____,
+]);
+
 // Member expressions only, for the callee of `new`
 bp!(MEMBER, [
     ____, ____, ____, ____, ____, ____, CMEM, ____, ____, ____, ____, ____,
@@ -477,6 +490,11 @@ impl<'ast> Parser<'ast> {
     where
         B: BindingPower
     {
+        // An arrow function is no operand
+        if self.lexer.start() == self.arrow_end && B::LUT[OperatorFatArrow as usize].is_none() {
+            self.error::<()>();
+        }
+
         while let Some(handler) = B::handler(self.asi(), self.lexer.token) {
             if self.lexer.start() == self.arrow_end && self.lexer.token != Comma {
                 break;
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 8a52f8d..10193e8 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,5 +1,5 @@
 use toolshed::list::ListBuilder;
-use parser::{Parser, Parse, ANY, B0, B15};
+use parser::{Parser, Parse, ANY, B0, HEAD};
 use lexer::Token::*;
 use lexer::Asi;
 use ast::{Node, NodeList, Declarator, DeclarationKind};
@@ -536,7 +536,7 @@ impl<'ast> Parser<'ast> {
             DeclarationLet   => Some(self.for_init(DeclarationKind::Let)),
             DeclarationConst => Some(self.for_init(DeclarationKind::Const)),
             _ => {
-                let init = self.expression::<B15>();
+                let init = self.expression::<HEAD>();
 
                 // `in` following the first operand separates the two sides
                 // of the for-in statement, and is never a binary operator.
-- 
2.43.0


From 2591cf7b4756566940742b44d18af489e644a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:59 +0000
Subject: [PATCH 87/91] fix: patterns assigned to can't be in parentheses

---
 ratel/src/parser/expression.rs |  2 ++
 ratel/src/parser/mod.rs        | 14 ++++++++++++++
 ratel/src/parser/nested.rs     |  6 +++---
 ratel/src/parser/statement.rs  |  2 +-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/ratel/src/parser/expression.rs b/ratel/src/parser/expression.rs
index 7295576..cd83fba 100644
--- a/ratel/src/parser/expression.rs
+++ b/ratel/src/parser/expression.rs
@@ -351,6 +351,8 @@ impl<'ast> Parser<'ast> {
 
                 expect!(self, ParenClose);
 
+                self.paren_end = self.lexer.start();
+
                 expression
             }
         }
diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index 3492dd6..c4383a5 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -48,6 +48,10 @@ pub struct Parser<'ast> {
     /// which can't be the base of an exponent unless it's in parentheses.
     unary_end: u32,
 
+    /// Start of the token following the last expression in parentheses,
+    /// which can't be a pattern.
+    paren_end: u32,
+
     /// AST under construction
     body: NodeList<'ast, Statement<'ast>>,
 }
@@ -61,6 +65,7 @@ impl<'ast> Parser<'ast> {
             arrow_end: u32::max_value(),
             postfix_end: u32::max_value(),
             unary_end: u32::max_value(),
+            paren_end: u32::max_value(),
             body: NodeList::empty(),
         }
     }
@@ -202,6 +207,15 @@ impl<'ast> Parser<'ast> {
         }
     }
 
+    /// Whether the expression that has just been parsed can be assigned to
+    #[inline]
+    fn is_lvalue(&self, expression: ExpressionNode<'ast>) -> bool {
+        match expression.item {
+            Expression::Array(_) | Expression::Object(_) if self.lexer.start() == self.paren_end => false,
+            _ => expression.is_lvalue(),
+        }
+    }
+
     #[inline]
     fn pattern_from_expression(&mut self, expression: ExpressionNode<'ast>) -> Node<'ast, Pattern<'ast>> {
         let pattern = match expression.item {
diff --git a/ratel/src/parser/nested.rs b/ratel/src/parser/nested.rs
index 55674ae..509aa41 100644
--- a/ratel/src/parser/nested.rs
+++ b/ratel/src/parser/nested.rs
@@ -380,13 +380,13 @@ macro_rules! assign {
     ($name:ident => $op:ident) => {
         const $name: NestedHandler = {
             fn handler<'ast>(par: &mut Parser<'ast>, left: ExpressionNode<'ast>) -> ExpressionNode<'ast> {
-                par.lexer.consume();
-
                 let is_target = match $op {
-                    Assign => left.is_lvalue(),
+                    Assign => par.is_lvalue(left),
                     _      => left.is_simple_lvalue(),
                 };
 
+                par.lexer.consume();
+
                 if !is_target {
                     par.error::<()>();
                 }
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 10193e8..d9217a1 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -610,7 +610,7 @@ impl<'ast> Parser<'ast> {
     /// Left side of a for-in or for-of statement that isn't a declaration
     #[inline]
     fn for_target(&mut self, target: ExpressionNode<'ast>) -> Node<'ast, ForInit<'ast>> {
-        if !target.is_lvalue() {
+        if !self.is_lvalue(target) {
             self.error::<()>();
         }
 
-- 
2.43.0


From bc085d1f462e3dcd164145287b8fc108e44a79b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:34 +0000
Subject: [PATCH 88/91] fix: generators can't be bodies of other statements

---
 ratel/src/parser/statement.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index d9217a1..1c55a73 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -447,7 +447,14 @@ impl<'ast> Parser<'ast> {
             _                => {}
         }
 
-        self.statement()
+        let body = self.statement();
+
+        match body.item {
+            Statement::Function(ref function) if function.generator => self.error::<()>(),
+            _ => {}
+        }
+
+        body
     }
 
     #[inline]
-- 
2.43.0


From 94c547ebad07872e997d2de2abbc7b74134d4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:42 +0000
Subject: [PATCH 89/91] fix: a switch has at most one default clause

---
 ratel/src/parser/mod.rs       | 4 ++++
 ratel/src/parser/statement.rs | 7 ++++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/ratel/src/parser/mod.rs b/ratel/src/parser/mod.rs
index c4383a5..db87ba0 100644
--- a/ratel/src/parser/mod.rs
+++ b/ratel/src/parser/mod.rs
@@ -52,6 +52,9 @@ pub struct Parser<'ast> {
     /// which can't be a pattern.
     paren_end: u32,
 
+    /// Whether the switch statement being parsed has a default clause already
+    has_default: bool,
+
     /// AST under construction
     body: NodeList<'ast, Statement<'ast>>,
 }
@@ -66,6 +69,7 @@ impl<'ast> Parser<'ast> {
             postfix_end: u32::max_value(),
             unary_end: u32::max_value(),
             paren_end: u32::max_value(),
+            has_default: false,
             body: NodeList::empty(),
         }
     }
diff --git a/ratel/src/parser/statement.rs b/ratel/src/parser/statement.rs
index 1c55a73..2f80117 100644
--- a/ratel/src/parser/statement.rs
+++ b/ratel/src/parser/statement.rs
@@ -1,3 +1,5 @@
+use std::mem;
+
 use toolshed::list::ListBuilder;
 use parser::{Parser, Parse, ANY, B0, HEAD};
 use lexer::Token::*;
@@ -119,7 +121,8 @@ impl<'ast> Parse<'ast> for SwitchCase<'ast> {
 
                 Some(par.expression::<ANY>())
             },
-            Default => {
+            Default if !par.has_default => {
+                par.has_default = true;
                 par.lexer.consume();
 
                 None
@@ -660,7 +663,9 @@ impl<'ast> Parser<'ast> {
 
         expect!(self, ParenClose);
 
+        let outer = mem::replace(&mut self.has_default, false);
         let cases = self.block();
+        self.has_default = outer;
 
         self.alloc_at_loc(start, cases.end, SwitchStatement {
             discriminant,
-- 
2.43.0


From 80c8e1095e9310ba93f2d72d2a0978c49b8eba7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:35:22 +0000
Subject: [PATCH 90/91] fix: printing a module passes on the failure of a
 writer

---
 ratel/src/module.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratel/src/module.rs b/ratel/src/module.rs
index e9067a9..8d03e31 100644
--- a/ratel/src/module.rs
+++ b/ratel/src/module.rs
@@ -38,9 +38,9 @@ impl<'ast> Module<'ast> {
 
 impl<'ast> fmt::Debug for Module<'ast> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        write!(f, "Module:").unwrap();
+        write!(f, "Module:")?;
         for elem in self.body().iter() {
-            write!(f, "\n\t{:?}", elem).unwrap()
+            write!(f, "\n\t{:?}", elem)?;
         }
         Ok(())
     }
-- 
2.43.0


From beff3a62168368f592ee4558ac239cc2f1f4b914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:44:19 +0000
Subject: [PATCH 91/91] fix: an escaped byte order mark is no part of an
 identifier

---
 ratel/src/lexer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratel/src/lexer/mod.rs b/ratel/src/lexer/mod.rs
index 7f38971..6e86b9e 100644
--- a/ratel/src/lexer/mod.rs
+++ b/ratel/src/lexer/mod.rs
@@ -1014,7 +1014,7 @@ impl<'arena> Lexer<'arena> {
         match self.unicode_escape() {
             Some((_, code)) => match ::std::char::from_u32(code) {
                 Some(ch) if ch.is_ascii() => ch != '\\' && util::legal_in_label(ch as u8),
-                Some(ch)                  => !ch.is_whitespace(),
+                Some(ch)                  => !ch.is_whitespace() && ch != '\u{FEFF}',
                 None                      => false,
             },
             None => false,
-- 
2.43.0

