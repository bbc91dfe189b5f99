From 9e2b817587f44b05714cc6b4c6c1a9f27e6d31fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:19 +0000
Subject: [PATCH 01/19] fix: do not loop forever on an outdent between two
 indentation levels

---
 src/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e6ef974..76635b8 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -354,7 +354,8 @@ where
                             self.indentation.pop();
                             self.add_token(TokenType::Outdent);
                         }
-                        Ordering::Less => {}
+                        // No enclosing block has this indentation.
+                        Ordering::Less => break,
                     }
                 }
                 if !found && self.bol_spaces > 0 {
-- 
2.43.0


From 6212cfa53d16f6326e985ee86efc988af7ac404e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:35 +0000
Subject: [PATCH 02/19] fix: accept CR LF line endings, which are one grapheme
 cluster

---
 src/scanner.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 76635b8..b1d94fb 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -243,7 +243,7 @@ where
                         // Optional carriage return.
                         self.matches("\r");
 
-                        if self.matches("\n") {
+                        if self.matches("\n") || self.matches("\r\n") {
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
@@ -267,7 +267,8 @@ where
                         // Ignore this character for the most part.
                         is_whitespace = true;
                     }
-                    "\n" => {
+                    // A carriage return and line feed is a single cluster.
+                    "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
                         if !self.is_bol
@@ -444,7 +445,7 @@ where
             match self.grapheme_indices.peek() {
                 None => break,
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         // Keep the newline next.
                         break;
                     }
@@ -462,7 +463,7 @@ where
             match self.grapheme_indices.peek() {
                 None => (),
                 Some((_, grapheme_cluster)) => {
-                    if *grapheme_cluster == "\n" {
+                    if is_newline(grapheme_cluster) {
                         self.line = self.line.saturating_add(1);
                         self.column = 0;
                     }
@@ -608,6 +609,10 @@ where
     }
 }
 
+fn is_newline(grapheme: &str) -> bool {
+    matches!(grapheme, "\n" | "\r\n")
+}
+
 fn is_digit(grapheme: &str) -> bool {
     // Note: built-in is_numeric() uses a more complicated unicode definition of
     // numeric.
-- 
2.43.0


From cd35bb87c70896b4789fcec03d1438a7ee15883d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:38 +0000
Subject: [PATCH 03/19] fix: do not underflow when the first token is already
 an error

---
 src/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index 43f655f..e3f1034 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1140,7 +1140,7 @@ impl<'a> Parser<'a> {
     }
 
     fn previous(&self) -> Option<&Token<'a>> {
-        self.tokens.get(self.current - 1)
+        self.tokens.get(self.current.checked_sub(1)?)
     }
 
     fn previous_source_loc(&self) -> SourceLoc {
-- 
2.43.0


From 4154f2f84907d9b176e0b4d0b9d96671e49676e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:51 +0000
Subject: [PATCH 04/19] fix: reject the 256th name of a scope instead of
 truncating its slot

---
 src/resolver.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 1cef972..018f4ac 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -516,7 +516,7 @@ impl Resolver {
             slot_index,
             defined_state: UndefinedVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        ensure_scope_index_limit(scope, identifier, loc)?;
         match scope.entry(identifier.to_owned()) {
             entry @ Entry::Vacant(_) => entry.or_insert(var_resolve_state),
             Entry::Occupied(_) => panic!("Resolver::forward_reserve_global_var: I'm trying to forward reserve something that's already declared: {}", identifier),
@@ -537,7 +537,7 @@ impl Resolver {
             slot_index,
             defined_state: DeclaredVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        ensure_scope_index_limit(scope, identifier, loc)?;
 
         let mut already_declared = false;
         scope
@@ -585,7 +585,7 @@ impl Resolver {
             slot_index: scope.len(),
             defined_state: DefinedVar,
         };
-        ensure_scope_index_limit(scope.len(), identifier, loc)?;
+        ensure_scope_index_limit(scope, identifier, loc)?;
         let mut already_defined = false;
         scope
             .entry(identifier.to_owned())
@@ -613,13 +613,14 @@ impl Default for Resolver {
     }
 }
 
-// The 256th local should fail.
+// The 256th local should fail.  Slot indices are a u8 and the greatest one is a
+// placeholder.  A name that already has a slot doesn't need another one.
 fn ensure_scope_index_limit(
-    new_scope_len: usize,
+    scope: &HashMap<String, VarResolveState>,
     identifier: &str,
     loc: &SourceLoc,
 ) -> Result<(), ParseErrorCause> {
-    if new_scope_len > VAR_LOC_MAX_DISTANCE_USIZE {
+    if scope.len() >= u8::MAX as usize && !scope.contains_key(identifier) {
         Err(ParseErrorCause::new_with_location(
             *loc,
             identifier,
-- 
2.43.0


From 5248a18988a17ad998e50c580e042c90de6a7786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:53 +0000
Subject: [PATCH 05/19] fix: end the REPL at the end of input

---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 6f513dd..b690d56 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -58,6 +58,8 @@ fn run_repl() {
 
         let mut input = String::new();
         match stdin.lock().read_line(&mut input) {
+            // End of input.
+            Ok(0) => break,
             Ok(_) => {
                 let result = run(&mut resolver, input, true);
                 print_result(&result, true);
-- 
2.43.0


From 8c8a6db3ce80d7ba46d251dc66d9877a08e140f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:13 +0000
Subject: [PATCH 06/19] fix: let spaces and comments after a trailing operator
 not end the line

---
 src/scanner.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index b1d94fb..d8fd6d7 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -227,6 +227,8 @@ where
                         if self.matches("/") {
                             // A comment until the end of the line.
                             self.advance_to_eol();
+                            following_line_continuation =
+                                self.following_line_continuation;
                             self.only_comment_on_line = was_bol;
                         } else {
                             self.add_token(Slash);
@@ -259,6 +261,8 @@ where
                     }
                     " " => {
                         is_whitespace = true;
+                        following_line_continuation =
+                            self.following_line_continuation;
                         if self.is_bol {
                             self.bol_spaces = self.bol_spaces.saturating_add(1);
                         }
@@ -266,6 +270,8 @@ where
                     "\r" => {
                         // Ignore this character for the most part.
                         is_whitespace = true;
+                        following_line_continuation =
+                            self.following_line_continuation;
                     }
                     // A carriage return and line feed is a single cluster.
                     "\n" | "\r\n" => {
-- 
2.43.0


From d64f623326e9a094e478f08025f428ea3b102cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:16 +0000
Subject: [PATCH 07/19] fix: ignore the indentation of a line with only a
 comment

---
 src/scanner.rs | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index d8fd6d7..b3fb8fb 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -54,7 +54,6 @@ pub struct Scanner<'source, 'g> {
     // Beginning of line spaces used for indentation.
     bol_spaces: u16,
     is_bol: bool,
-    only_comment_on_line: bool,
     is_line_continuation: bool,
     following_line_continuation: bool,
     is_abutting: bool,
@@ -79,7 +78,6 @@ where
             eof: false,
             bol_spaces: 0,
             is_bol: true,
-            only_comment_on_line: false,
             is_line_continuation: false,
             following_line_continuation: false,
             is_abutting: false,
@@ -222,15 +220,14 @@ where
                         following_line_continuation = true;
                     }
                     "/" => {
-                        let was_bol = self.is_bol;
-                        self.bol_indentation_tokens();
                         if self.matches("/") {
-                            // A comment until the end of the line.
+                            // A comment until the end of the line.  When it's
+                            // the only thing on a line, the line is blank.
                             self.advance_to_eol();
                             following_line_continuation =
                                 self.following_line_continuation;
-                            self.only_comment_on_line = was_bol;
                         } else {
+                            self.bol_indentation_tokens();
                             self.add_token(Slash);
                             following_line_continuation = true;
                         }
@@ -277,12 +274,7 @@ where
                     "\n" | "\r\n" => {
                         is_whitespace = true;
                         let continue_line = self.following_line_continuation;
-                        if !self.is_bol
-                            && !continue_line
-                            // When there's only a comment on a line, don't
-                            // insert a terminator.
-                            && !self.only_comment_on_line
-                        {
+                        if !self.is_bol && !continue_line {
                             self.add_token(Terminator);
                         }
                         self.reset_line();
@@ -320,7 +312,6 @@ where
         self.column = 1;
         self.bol_spaces = 0;
         self.is_bol = true;
-        self.only_comment_on_line = false;
         // If the previous line was blank, do not affect line continuation
         // state.
         if !line_was_blank {
-- 
2.43.0


From 855e83b174a96a7fb99ea6e58eecc0fc20da27f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:38 +0000
Subject: [PATCH 08/19] fix: report lexical errors at the column of the
 character, not the next one

---
 src/scanner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index b3fb8fb..5783439 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -254,7 +254,7 @@ where
                     }
                     "\t" => {
                         is_whitespace = true;
-                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.column), "Illegal tab character; all whitespace must be spaces"));
+                        self.error(ParseErrorCause::new(SourceLoc::new(self.line, self.start_column), "Illegal tab character; all whitespace must be spaces"));
                     }
                     " " => {
                         is_whitespace = true;
@@ -291,7 +291,7 @@ where
                             self.scan_identifier();
                         } else {
                             self.error(ParseErrorCause::new(
-                                SourceLoc::new(self.line, self.column),
+                                SourceLoc::new(self.line, self.start_column),
                                 &format!(
                                     "Unexpected token: {}",
                                     grapheme_cluster
@@ -358,7 +358,7 @@ where
                 }
                 if !found && self.bol_spaces > 0 {
                     self.error(ParseErrorCause::new(
-                        SourceLoc::new(self.line, self.column),
+                        SourceLoc::new(self.line, self.start_column),
                         "Outdent does not match any previous indentation level",
                     ));
                 }
-- 
2.43.0


From 1daf3de8eff4406d568f9c549580f3a55e47414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:40 +0000
Subject: [PATCH 09/19] fix: a parenthesis at the start of a continued line
 touches no token

---
 src/scanner.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scanner.rs b/src/scanner.rs
index 5783439..205df33 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -243,6 +243,7 @@ where
                         self.matches("\r");
 
                         if self.matches("\n") || self.matches("\r\n") {
+                            is_whitespace = true;
                             self.reset_line();
                             self.is_line_continuation = true;
                         } else {
-- 
2.43.0


From 6a95d4f34f861506bb2a388d5a234c1f046c4e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:43 +0000
Subject: [PATCH 10/19] fix: accept an indented block after else

---
 src/parser.rs | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index e3f1034..a866698 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -399,18 +399,13 @@ impl<'a> Parser<'a> {
         let condition = self.expression()?;
         self.consume(TokenType::RightParen, "Expect ')' after if condition.")?;
 
-        let then_stmt = if self.check(TokenType::Terminator)
-            || self.check(TokenType::LeftBrace)
-        {
-            let end_block = self
-                .consume_begin_block("Expect '{' or indent before if body.")?;
-            self.finish_block(end_block).map(Stmt::Block)?
-        } else {
-            self.statement()?
-        };
+        let then_stmt =
+            self.branch_statement("Expect '{' or indent before if body.")?;
 
         let else_stmt = if self.match_token(TokenType::Else) {
-            Some(Box::new(self.statement()?))
+            let else_stmt = self
+                .branch_statement("Expect '{' or indent before else body.")?;
+            Some(Box::new(else_stmt))
         } else {
             None
         };
@@ -418,6 +413,21 @@ impl<'a> Parser<'a> {
         Ok(Stmt::If(condition, Box::new(then_stmt), else_stmt))
     }
 
+    // Parses either branch of an if statement.
+    fn branch_statement(
+        &mut self,
+        error_message: &str,
+    ) -> Result<Stmt, ParseErrorCause> {
+        if self.check(TokenType::Terminator)
+            || self.check(TokenType::LeftBrace)
+        {
+            let end_block = self.consume_begin_block(error_message)?;
+            self.finish_block(end_block).map(Stmt::Block)
+        } else {
+            self.statement()
+        }
+    }
+
     fn finish_block(
         &mut self,
         end_block: TokenType,
-- 
2.43.0


From 52b18362daf58381445919dd082b0b1d701bd7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:10 +0000
Subject: [PATCH 11/19] fix: accept an expression as the initializer of a for
 loop

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a866698..a8dac35 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -355,7 +355,12 @@ impl<'a> Parser<'a> {
         } else if self.match_token(TokenType::Var) {
             Some(self.finish_var_declaration(true)?)
         } else {
-            Some(self.expression_statement()?)
+            let expr = self.expression()?;
+            self.consume(
+                TokenType::Semicolon,
+                "Expect ';' after for-loop initializer.",
+            )?;
+            Some(Stmt::Expression(expr))
         };
         let condition = if self.check(TokenType::Semicolon) {
             Expr::LiteralBool(true)
-- 
2.43.0


From 951af5ac41c296b53ca6284425ba6e52d4c564c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:13 +0000
Subject: [PATCH 12/19] fix: reject break and continue in a function inside of
 a loop

---
 src/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/parser.rs b/src/parser.rs
index a8dac35..92c742f 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,4 +1,5 @@
 use std::cell::Cell;
+use std::mem;
 
 use crate::ast::*;
 use crate::environment::*;
@@ -227,7 +228,11 @@ impl<'a> Parser<'a> {
         let end_block = self.consume_begin_block(
             "Expect '{' or indent before function body.",
         )?;
-        let body = self.finish_block(end_block)?;
+        // A break or continue in the body can't refer to a loop outside of it.
+        let enclosing_loops = mem::take(&mut self.in_loops);
+        let body_result = self.finish_block(end_block);
+        self.in_loops = enclosing_loops;
+        let body = body_result?;
 
         let fun_def = FunctionDefinition::new(
             parameters,
-- 
2.43.0


From d388b346962ba083b9154f908c2c8d4c6f96f77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:15 +0000
Subject: [PATCH 13/19] fix: leave the loop when its body has no block

---
 src/parser.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 92c742f..007d343 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -506,10 +506,9 @@ impl<'a> Parser<'a> {
         let body_result = if self.check(TokenType::Terminator)
             || self.check(TokenType::LeftBrace)
         {
-            let end_block = self.consume_begin_block(
-                "Expect '{' or indent before loop body.",
-            )?;
-            self.finish_block(end_block).map(Stmt::Block)
+            self.consume_begin_block("Expect '{' or indent before loop body.")
+                .and_then(|end_block| self.finish_block(end_block))
+                .map(Stmt::Block)
         } else {
             self.statement()
         };
-- 
2.43.0


From ca73ddce49f65c324a629500e5cd706000e1d613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:18 +0000
Subject: [PATCH 14/19] fix: a class method named init is not an initializer

---
 src/resolver.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 018f4ac..cc2d253 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -3,7 +3,7 @@ use std::collections::hash_map::Entry;
 use std::collections::HashMap;
 use std::ops::Deref;
 
-use crate::ast::*;
+use crate::ast::{self, *};
 use crate::environment::*;
 use crate::error::*;
 use crate::source_loc::*;
@@ -399,10 +399,9 @@ impl Resolver {
 
         if result.is_ok() {
             for method in class_def.methods.iter_mut() {
-                let fun_type = if method.name == "init" {
-                    FunctionType::Initializer
-                } else {
-                    FunctionType::Method
+                let fun_type = match method.fun_def.fun_type {
+                    ast::FunctionType::Initializer => FunctionType::Initializer,
+                    _ => FunctionType::Method,
                 };
 
                 result = self.resolve_function(&mut method.fun_def, fun_type);
-- 
2.43.0


From 505e2050bf6ac73311c7d66bcc242c8d0f801aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:21 +0000
Subject: [PATCH 15/19] fix: a rejected REPL line declares nothing for later
 lines

---
 src/resolver.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/resolver.rs b/src/resolver.rs
index cc2d253..997fdc6 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -84,6 +84,9 @@ impl Resolver {
         mut statements: Vec<Stmt>,
     ) -> Result<ResolvedCode, ParseError> {
         let mut errors = Vec::new();
+        // Rejected code never runs, so it must not declare anything for the
+        // code that's resolved after it.
+        let scopes = self.scopes.clone();
         for statement in statements.iter_mut() {
             let result = self.resolve_statement(statement);
             if let Err(error) = result {
@@ -94,6 +97,7 @@ impl Resolver {
         if errors.is_empty() {
             Ok(ResolvedCode::new(statements))
         } else {
+            self.scopes = scopes;
             Err(ParseError::new(errors))
         }
     }
-- 
2.43.0


From 49ac01fbaeb34a1a1ba430af7ce40a399188e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:46 +0000
Subject: [PATCH 16/19] fix: a rejected initializer is not an error wherever
 the variable is read

---
 src/resolver.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/resolver.rs b/src/resolver.rs
index 997fdc6..3e1262c 100644
--- a/src/resolver.rs
+++ b/src/resolver.rs
@@ -192,10 +192,11 @@ impl Resolver {
             }
             Stmt::Var(identifier, slot_index_cell, expr, loc) => {
                 self.declare(identifier, slot_index_cell, loc)?;
-                self.resolve_expression(expr)?;
+                let result = self.resolve_expression(expr);
+                // The initializer is over even if it's rejected.
                 self.define(identifier, loc)?;
 
-                Ok(())
+                result
             }
             Stmt::While(condition, body) => {
                 self.resolve_expression(condition)?;
-- 
2.43.0


From d47cd7e2cb67f32edc8fc8e7e2592a064f6bc7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:17 +0000
Subject: [PATCH 17/19] fix: show true and false in the web page

They were shown like an empty object.
---
 index.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/index.html b/index.html
index 5cdee12..3721240 100644
--- a/index.html
+++ b/index.html
@@ -99,7 +99,7 @@
         parts.push('null');
       } else if (obj === undefined) {
         parts.push('undefined');
-      } else if (typ === 'number') {
+      } else if (typ === 'number' || typ === 'boolean') {
         parts.push(obj.toString());
       } else if (typ === 'string') {
         parts.push(escapeString(obj));
-- 
2.43.0


From 24c47dfb35847b7f199776c33d1bbf6b6ec9f336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 18/19] fix: show the result in the web page when it is ready
 last

If the module was loaded before the document was ready, nothing was shown
until the source was edited.
---
 index.html | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/index.html b/index.html
index 3721240..16ba6f0 100644
--- a/index.html
+++ b/index.html
@@ -170,6 +170,11 @@
 
         onChange(this);
       })
+
+      // The module may have been loaded before the document was ready.
+      if (isLoaded) {
+        onChange(sourceEl);
+      }
     });
   </script>
 </head>
-- 
2.43.0


From 15d3e8905fafd89ce029f0fa98e5eb861733fb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:48 +0000
Subject: [PATCH 19/19] fix: tell indentations of more than 65535 spaces apart

---
 src/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 205df33..113a582 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -43,7 +43,7 @@ pub struct Scanner<'source, 'g> {
     source: &'source str,
     tokens: Vec<Token<'source>>,
     errors: Vec<ParseErrorCause>,
-    indentation: Vec<u16>,
+    indentation: Vec<usize>,
     grapheme_indices: Peekable<GraphemeIndices<'g>>,
     start: usize,
     current: usize,
@@ -52,7 +52,7 @@ pub struct Scanner<'source, 'g> {
     start_column: u16,
     eof: bool,
     // Beginning of line spaces used for indentation.
-    bol_spaces: u16,
+    bol_spaces: usize,
     is_bol: bool,
     is_line_continuation: bool,
     following_line_continuation: bool,
-- 
2.43.0

