From 2dc6cec90a188c43a14197f3001a47e6c245bc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:58 +0000
Subject: [PATCH 01/31] fix: report reserved and unrecognized tokens instead of
 panicking

---
 dice-syntax/src/parser/rules.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/dice-syntax/src/parser/rules.rs b/dice-syntax/src/parser/rules.rs
index 7024442..45717c5 100644
--- a/dice-syntax/src/parser/rules.rs
+++ b/dice-syntax/src/parser/rules.rs
@@ -1,7 +1,11 @@
 use std::collections::HashMap;
 
-use dice_core::error::Error;
+use dice_core::error::{
+    codes::{RESERVED_KEYWORD, UNRECOGNIZED_INPUT},
+    Error,
+};
 use dice_core::span::Span;
+use dice_core::tags;
 
 use crate::{
     lexer::{Token, TokenKind},
@@ -226,16 +230,15 @@ impl<'a> ParserRules<'a> {
 
     pub fn for_token(&self, token: &Token) -> Result<&Rule<'a>, Error> {
         self.rules.get(&token.kind).ok_or_else(|| {
-            todo!()
-            // let error = if token.kind == TokenKind::Reserved {
-            //     RESERVED_KEYWORD
-            // } else {
-            //     UNRECOGNIZED_INPUT
-            // };
+            let error = if token.kind == TokenKind::Reserved {
+                RESERVED_KEYWORD
+            } else {
+                UNRECOGNIZED_INPUT
+            };
 
-            // Error::new(error).with_span(token.span).with_tags(tags! {
-            //     input => token.slice.to_string()
-            // })
+            Error::new(error).with_span(token.span).with_tags(tags! {
+                input => token.slice.to_string()
+            })
         })
     }
 
-- 
2.43.0


From a85ace4c8008f15e3751e35ee4fe578d549ed13a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:58 +0000
Subject: [PATCH 02/31] fix: accept empty line comments

---
 dice-syntax/src/lexer/token.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index a8ab006..48633f9 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -222,7 +222,7 @@ pub enum TokenKind {
     BackslashArg,
 
     #[error]
-    #[regex(r"[ \t\r\n\f]+|//[^\r\n]+", logos::skip)]
+    #[regex(r"[ \t\r\n\f]+|//[^\r\n]*", logos::skip)]
     Error,
 }
 
-- 
2.43.0


From 416584473403e794b4c16f8a791366d79395a37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:58 +0000
Subject: [PATCH 03/31] fix: reject input left over after the root expression
 sequence

---
 dice-syntax/src/parser/mod.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index c7cde60..b07ebd5 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -53,6 +53,7 @@ impl<'a> Parser<'a> {
 
     pub fn parse(mut self) -> Result<SyntaxTree, Error> {
         let root = self.expression_sequence()?;
+        self.lexer.consume(TokenKind::EndOfInput)?;
 
         Ok(SyntaxTree::new(root, self.arena))
     }
-- 
2.43.0


From 2866842bdc271850ea937f30a5c243d3ed305ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:58 +0000
Subject: [PATCH 04/31] fix: consume the identifier of an export declaration

---
 dice-syntax/src/parser/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index b07ebd5..3039728 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -321,9 +321,11 @@ impl<'a> Parser<'a> {
             TokenKind::Let => self.var_decl()?,
             TokenKind::Function => self.fn_decl()?,
             TokenKind::Class => self.class_decl()?,
-            TokenKind::Identifier => self
-                .arena
-                .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span))),
+            TokenKind::Identifier => {
+                self.lexer.consume(TokenKind::Identifier)?;
+                self.arena
+                    .alloc(SyntaxNode::LitIdent(LitIdent::synthesize(next.slice, next.span)))
+            }
             kind => self.unexpected_token(
                 kind,
                 &[
-- 
2.43.0


From 256277d8bc4e3beabc12a20d6c813354773e8260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:32 +0000
Subject: [PATCH 05/31] fix: report unterminated strings and backslash
 arguments as such

---
 data/locales/en-US/errors.ftl  | 1 +
 dice-syntax/src/lexer/token.rs | 6 +++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index d10c728..929c5e7 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -8,6 +8,7 @@ E1005 = Function has too many arguments (max: 255).
 E1006 = Operator has an incorrect number of arguments (1 for unary operators and 2 for binary).
 E1007 = Invalid integer value: {$message}
 E1008 = Invalid float value: {$message}
+E1009 = Unterminated backslash argument encountered.
 
 # Compiler errors
 E2000 = Internal Compiler Error (please report this as a bug with code to reproduce the issue).
diff --git a/dice-syntax/src/lexer/token.rs b/dice-syntax/src/lexer/token.rs
index 48633f9..85aae62 100644
--- a/dice-syntax/src/lexer/token.rs
+++ b/dice-syntax/src/lexer/token.rs
@@ -7,7 +7,7 @@ use logos::{Lexer, Logos};
 
 use dice_core::{
     error::{
-        codes::{INVALID_ESCAPE_SEQUENCE, UNTERMINATED_STRING},
+        codes::{INVALID_ESCAPE_SEQUENCE, UNTERMINATED_BACKSLASH_ARG, UNTERMINATED_STRING},
         Error, ResultExt,
     },
     source::Source,
@@ -319,7 +319,7 @@ fn lex_backslash_arg(lexer: &mut Lexer<TokenKind>) -> bool {
                 input.push(current);
             }
             None => {
-                // lexer.extras.set_error(Error::new(UNTERMINATED_BACKSLASH_ARG));
+                lexer.extras.set_error(Error::new(UNTERMINATED_BACKSLASH_ARG));
                 return false;
             }
         }
@@ -372,7 +372,7 @@ fn lex_string(lexer: &mut Lexer<TokenKind>) -> bool {
                 result.push(current);
             }
             None => {
-                //   lexer.extras.set_error(Error::new(UNTERMINATED_STRING));
+                lexer.extras.set_error(Error::new(UNTERMINATED_STRING));
                 return false;
             }
         }
-- 
2.43.0


From 19fc64c8e9c191268b36a80cfc75a8e2b7cac16e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:48:45 +0000
Subject: [PATCH 06/31] fix: decode escape sequences of string literals, and
 quoted object keys

---
 dice-syntax/src/parser/mod.rs | 46 ++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 6 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 3039728..6103e42 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -4,8 +4,8 @@ use id_arena::Arena;
 
 use dice_core::error::{
     codes::{
-        FUNCTION_HAS_TOO_MANY_ARGUMENTS, INVALID_FLOAT_VALUE, INVALID_IMPORT_USAGE, INVALID_INTEGER_VALUE,
-        UNEXPECTED_TOKEN,
+        FUNCTION_HAS_TOO_MANY_ARGUMENTS, INVALID_ESCAPE_SEQUENCE, INVALID_FLOAT_VALUE, INVALID_IMPORT_USAGE,
+        INVALID_INTEGER_VALUE, UNEXPECTED_TOKEN, UNTERMINATED_STRING,
     },
     context::{Context, ContextKind, IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED, IMPORT_REQUIRES_ITEMS_TO_BE_IMPORTED_HELP},
     Error, ResultExt,
@@ -951,7 +951,10 @@ impl<'a> Parser<'a> {
         while self.lexer.peek()?.kind != TokenKind::RightCurly {
             let next = self.lexer.next()?.clone();
             let key = match next.kind {
-                TokenKind::String | TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
+                TokenKind::String => process_string(next.slice, StringMode::Escaped)
+                    .with_source(|| self.source.clone())
+                    .with_span(|| next.span)?,
+                TokenKind::Integer | TokenKind::Identifier => next.slice.to_owned(),
                 kind => self.unexpected_token(
                     kind,
                     &[TokenKind::String, TokenKind::Integer, TokenKind::Identifier],
@@ -1132,8 +1135,39 @@ enum StringMode {
     Escaped,
 }
 
-fn process_string(input: &str, _mode: StringMode) -> Result<String, Error> {
-    // TODO: Process escape sequences.
+fn process_string(input: &str, mode: StringMode) -> Result<String, Error> {
+    let content = &input[1..input.len() - 1];
+
+    match mode {
+        StringMode::Raw => Ok(content.to_owned()),
+        StringMode::Escaped => unescape_string(content),
+    }
+}
+
+fn unescape_string(content: &str) -> Result<String, Error> {
+    let mut result = String::with_capacity(content.len());
+    let mut chars = content.chars();
+
+    while let Some(current) = chars.next() {
+        if current != '\\' {
+            result.push(current);
+            continue;
+        }
+
+        match chars.next() {
+            Some('"') => result.push('"'),
+            Some('\\') => result.push('\\'),
+            Some('n') => result.push('\n'),
+            Some('r') => result.push('\r'),
+            Some('t') => result.push('\t'),
+            Some(next) => {
+                return Err(Error::new(INVALID_ESCAPE_SEQUENCE).with_tags(tags! {
+                    sequence => format!("\\{}", next)
+                }))
+            }
+            None => return Err(Error::new(UNTERMINATED_STRING)),
+        }
+    }
 
-    Ok(input[1..input.len() - 1].to_owned())
+    Ok(result)
 }
-- 
2.43.0


From 8d48c0a8206cf001db389965dda767d5f6215fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:01 +0000
Subject: [PATCH 07/31] fix: reject exported destructuring declarations instead
 of panicking

---
 dice-compiler/src/visitor/decl_export.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/dice-compiler/src/visitor/decl_export.rs b/dice-compiler/src/visitor/decl_export.rs
index e10366e..1dcd43d 100644
--- a/dice-compiler/src/visitor/decl_export.rs
+++ b/dice-compiler/src/visitor/decl_export.rs
@@ -24,6 +24,17 @@ impl NodeVisitor<&ExportDecl> for Compiler {
                 .with_span(node.span));
         }
 
+        // NOTE: Only declarations that introduce a single name can be exported.
+        if let SyntaxNode::VarDecl(VarDecl {
+            kind: VarDeclKind::Destructured(_),
+            ..
+        }) = self.syntax_tree.get(node.export)
+        {
+            return Err(Error::new(INVALID_EXPORT_USAGE)
+                .with_source(self.source.clone())
+                .with_span(node.span));
+        }
+
         if self.context()?.scope_stack().top_mut()?.depth > 1 {
             return Err(Error::new(INVALID_EXPORT_USAGE)
                 .push_context(Context::new(EXPORT_ONLY_ALLOWED_IN_TOP_LEVEL_SCOPE, ContextKind::Note))
-- 
2.43.0


From 1f03d5dce7a6c78b00697d40fca6e4b8e7e62d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:01 +0000
Subject: [PATCH 08/31] fix: report functions and classes whose name is taken
 by another kind of declaration

---
 dice-compiler/src/visitor/decl_class.rs | 7 +++----
 dice-compiler/src/visitor/decl_fn.rs    | 5 ++---
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index d36bc6e..e76b597 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -55,16 +55,15 @@ impl NodeVisitor<&ClassDecl> for Compiler {
                 .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
             // NOTE: Check if a class of the given name has already been initialized.
-            if let State::Class { ref mut is_initialized } = &mut local.state {
-                if *is_initialized {
+            match &mut local.state {
+                State::Class { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+                _ => {
                     return Err(Error::new(CLASS_ALREADY_DECLARED)
                         .with_span(node.name.span)
                         .with_tags(tags! {
                             name => node.name.identifier.clone()
                         }));
                 }
-
-                *is_initialized = true;
             }
 
             local.slot as u8
diff --git a/dice-compiler/src/visitor/decl_fn.rs b/dice-compiler/src/visitor/decl_fn.rs
index 46222ae..137eeb9 100644
--- a/dice-compiler/src/visitor/decl_fn.rs
+++ b/dice-compiler/src/visitor/decl_fn.rs
@@ -68,15 +68,14 @@ impl Compiler {
 
         // NOTE: Check if a function of the given name has already been initialized.
         match &mut local.state {
-            State::Function { ref mut is_initialized } if *is_initialized => {
+            State::Function { ref mut is_initialized } if !*is_initialized => *is_initialized = true,
+            _ => {
                 return Err(Error::new(FUNCTION_ALREADY_DECLARED)
                     .with_span(fn_decl.name.span)
                     .with_tags(tags! {
                         name => fn_decl.name.identifier.clone()
                     }));
             }
-            State::Function { ref mut is_initialized } => *is_initialized = true,
-            _ => unreachable!("Unexpected non-function local state while compiling a function."),
         }
 
         let slot = local.slot as u8;
-- 
2.43.0


From cfe50a73415b2345fd1e94403622976bca6c7fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:01 +0000
Subject: [PATCH 09/31] fix: report super calls outside of methods instead of
 panicking

---
 dice-compiler/src/visitor/expr_super_call.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index 18788ec..c8d3300 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,20 +1,27 @@
 use dice_core::{
-    error::Error,
+    error::{codes::INVALID_SUPER_CALL, Error},
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
 
-use crate::compiler::Compiler;
+use crate::{compiler::Compiler, compiler_stack::CompilerKind};
 
 use super::NodeVisitor;
 
 impl NodeVisitor<&SuperCall> for Compiler {
     fn visit(&mut self, node: &SuperCall) -> Result<(), Error> {
+        if !matches!(
+            self.context()?.kind(),
+            CompilerKind::Method { .. } | CompilerKind::Constructor
+        ) {
+            return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
+        }
+
         let local_slot = self
             .context()?
             .scope_stack()
             .local(SELF)
-            .expect("self should always be declared in constructors.")
+            .expect("self should always be declared in methods and constructors.")
             .slot as u8;
         self.assembler()?.load_local(local_slot, node.span);
 
-- 
2.43.0


From 6b5888ebd145844f141b46b54f2cecba614881ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:01 +0000
Subject: [PATCH 10/31] fix: reject duplicate parameters of anonymous functions

---
 dice-compiler/src/visitor/literal_anonymous_fn.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dice-compiler/src/visitor/literal_anonymous_fn.rs b/dice-compiler/src/visitor/literal_anonymous_fn.rs
index ab35579..90d05f0 100644
--- a/dice-compiler/src/visitor/literal_anonymous_fn.rs
+++ b/dice-compiler/src/visitor/literal_anonymous_fn.rs
@@ -8,6 +8,8 @@ use super::NodeVisitor;
 
 impl NodeVisitor<&LitAnonymousFn> for Compiler {
     fn visit(&mut self, node: &LitAnonymousFn) -> Result<(), Error> {
+        Self::assert_unique_params(&node.args, node.span)?;
+
         let id = uuid::Uuid::new_v4();
         let name = format!("__anonymous_fn_{id}");
         let body = self.syntax_tree.child(node.body);
-- 
2.43.0


From 56f34eb64625bf251dcde8b259baa84b9698a844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:37 +0000
Subject: [PATCH 11/31] fix: short-circuit null propagation only to the end of
 its own call chain

---
 dice-compiler/src/visitor/syntax_node.rs | 33 +++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 39228bb..111f9cb 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -10,7 +10,36 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
     fn visit(&mut self, node: SyntaxNodeId) -> Result<(), Error> {
         let node = self.syntax_tree.get(node).clone();
 
-        match &node {
+        if Self::is_call_chain(&node) {
+            return self.visit_node(&node);
+        }
+
+        // NOTE: Any node that isn't a link of a call chain starts evaluation of its children with a new call context, so that
+        // chains contained within it short-circuit only to their own end.
+        let original_call_context = std::mem::take(&mut self.context()?.scope_stack().top_mut()?.call_context);
+        self.visit_node(&node)?;
+        self.context()?.scope_stack().top_mut()?.call_context = original_call_context;
+
+        Ok(())
+    }
+}
+
+impl Compiler {
+    fn is_call_chain(node: &SyntaxNode) -> bool {
+        matches!(
+            node,
+            SyntaxNode::NullPropagate(_)
+                | SyntaxNode::ErrorPropagate(_)
+                | SyntaxNode::FieldAccess(_)
+                | SyntaxNode::SuperAccess(_)
+                | SyntaxNode::FnCall(_)
+                | SyntaxNode::SuperCall(_)
+                | SyntaxNode::Index(_)
+        )
+    }
+
+    fn visit_node(&mut self, node: &SyntaxNode) -> Result<(), Error> {
+        match node {
             SyntaxNode::LitIdent(literal) => self.visit(literal)?,
             SyntaxNode::LitUnit(literal) => self.visit(literal)?,
             SyntaxNode::LitNull(literal) => self.visit(literal)?,
@@ -78,9 +107,7 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
 
         Ok(())
     }
-}
 
-impl Compiler {
     fn enter_call(&mut self) -> Result<(), Error> {
         let context = &mut self.context()?.scope_stack().top_mut()?.call_context;
         context.depth += 1;
-- 
2.43.0


From 2ffb663fbe7a34f48baf162beb402b337ddb7592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:37 +0000
Subject: [PATCH 12/31] fix: evaluate the operand of nullable type checks once

---
 dice-compiler/src/visitor/expr_is.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_is.rs b/dice-compiler/src/visitor/expr_is.rs
index 13a1a10..18fde44 100644
--- a/dice-compiler/src/visitor/expr_is.rs
+++ b/dice-compiler/src/visitor/expr_is.rs
@@ -8,18 +8,21 @@ impl NodeVisitor<&Is> for Compiler {
         if type_.is_nullable {
             // TODO: Replace this with an IS_TYPE_OR_NULL instruction.
             let type_check_jump;
+            let null_jump;
             emit_bytecode! {
                 self.assembler()?, *span => [
                     {self.visit(*value)?};
+                    DUP 0;
                     PUSH_NULL;
                     EQ;
-                    DUP 0;
-                    JUMP_IF_TRUE -> type_check_jump;
+                    JUMP_IF_FALSE -> type_check_jump;
                     POP;
-                    {self.visit(*value)?};
+                    PUSH_BOOL true;
+                    {null_jump = self.assembler()?.jump(*span)};
+                    PATCH_JUMP <- type_check_jump;
                     {self.visit(&type_.name)?};
                     IS;
-                    PATCH_JUMP <- type_check_jump;
+                    PATCH_JUMP <- null_jump;
                 ]
             }
         } else {
-- 
2.43.0


From 5ef45b1d1eb96d0910dc06c4d062832ebc9c8748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:37 +0000
Subject: [PATCH 13/31] fix: clean up the operands of every enclosing
 expression when leaving a function

---
 dice-compiler/src/visitor/expr_assignment.rs | 14 +++++++-------
 dice-compiler/src/visitor/expr_binary_op.rs  |  4 ++--
 dice-compiler/src/visitor/expr_for.rs        |  2 +-
 dice-compiler/src/visitor/expr_range_loop.rs |  4 ++--
 dice-compiler/src/visitor/literal_list.rs    |  4 ++--
 dice-compiler/src/visitor/literal_object.rs  |  2 +-
 dice-compiler/src/visitor/syntax_node.rs     | 10 ++++++++++
 7 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_assignment.rs b/dice-compiler/src/visitor/expr_assignment.rs
index 9d1ea6b..3af8c2a 100644
--- a/dice-compiler/src/visitor/expr_assignment.rs
+++ b/dice-compiler/src/visitor/expr_assignment.rs
@@ -37,13 +37,13 @@ impl NodeVisitor<&Assignment> for Compiler {
 impl Compiler {
     fn assign_index(&mut self, target: Index, assignment: &Assignment) -> Result<(), Error> {
         self.visit(target.expression)?;
-        self.visit(target.index_expression)?;
+        self.visit_with_temporaries(target.index_expression, 1)?;
 
         match assignment.operator {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, assignment.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         ASSIGN_INDEX;
                     ]
                 }
@@ -54,7 +54,7 @@ impl Compiler {
                         DUP 1;
                         DUP 1;
                         LOAD_INDEX;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 3)?};
                         {self.visit_operator(operator, assignment.span)?};
                         ASSIGN_INDEX;
                     ]
@@ -72,7 +72,7 @@ impl Compiler {
             AssignmentOperator::Assignment => {
                 emit_bytecode! {
                     self.assembler()?, target.span => [
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 1)?};
                         STORE_FIELD target.field;
                     ]
                 }
@@ -82,7 +82,7 @@ impl Compiler {
                     self.assembler()?, target.span => [
                         DUP 0;
                         LOAD_FIELD &*target.field;
-                        {self.visit(assignment.rhs_expression)?};
+                        {self.visit_with_temporaries(assignment.rhs_expression, 2)?};
                         {self.visit_operator(operator, target.span)?};
                         ASSIGN_FIELD target.field;
                     ]
@@ -150,7 +150,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_UPVALUE upvalue as u8;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_UPVALUE upvalue as u8;
                     ]
@@ -192,7 +192,7 @@ impl Compiler {
                 emit_bytecode! {
                     self.assembler()?, span => [
                         LOAD_LOCAL slot;
-                        {self.visit(rhs_expression)?};
+                        {self.visit_with_temporaries(rhs_expression, 1)?};
                         {self.visit_operator(operator, span)?};
                         ASSIGN_LOCAL slot;
                     ]
diff --git a/dice-compiler/src/visitor/expr_binary_op.rs b/dice-compiler/src/visitor/expr_binary_op.rs
index c800423..c9f2060 100644
--- a/dice-compiler/src/visitor/expr_binary_op.rs
+++ b/dice-compiler/src/visitor/expr_binary_op.rs
@@ -91,7 +91,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(rhs_expression)?;
-        self.visit(lhs_expression)?;
+        self.visit_with_temporaries(lhs_expression, 1)?;
         self.assembler()?.call(1, span);
 
         Ok(())
@@ -129,7 +129,7 @@ impl Compiler {
         span: Span,
     ) -> Result<(), Error> {
         self.visit(lhs_expression)?;
-        self.visit(rhs_expression)?;
+        self.visit_with_temporaries(rhs_expression, 1)?;
 
         match operator {
             BinaryOperator::Multiply => self.assembler()?.mul(span),
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 917561c..e3a5419 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -50,7 +50,7 @@ impl NodeVisitor<&ForLoop> for Compiler {
             ]
         }
 
-        self.visit(for_loop.body)?;
+        self.visit_with_temporaries(for_loop.body, 1)?;
 
         let context = self.context()?;
 
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index eb406a9..ad18b45 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -25,7 +25,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         // NOTE: Evaluate the end of the range first as a temporary so that it doesn't have to be evaluated again.
         self.visit(range_loop.end)?;
         // NOTE: The start is then evaluated. It will get popped and re-pushed later when stored as a local.
-        self.visit(range_loop.start)?;
+        self.visit_with_temporaries(range_loop.start, 1)?;
 
         let context = self.context()?;
         let loop_start = context.assembler().current_position();
@@ -52,7 +52,7 @@ impl NodeVisitor<&RangeLoop> for Compiler {
             ]
         }
 
-        self.visit(range_loop.body)?;
+        self.visit_with_temporaries(range_loop.body, 1)?;
 
         let context = self.context()?;
         // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index 5a8d988..b278674 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -5,8 +5,8 @@ use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
-        for item in value {
-            self.visit(*item)?;
+        for (index, item) in value.iter().enumerate() {
+            self.visit_with_temporaries(*item, index)?;
         }
 
         self.assembler()?.create_list(value.len() as u8, *span);
diff --git a/dice-compiler/src/visitor/literal_object.rs b/dice-compiler/src/visitor/literal_object.rs
index b9b82bc..b5376bb 100644
--- a/dice-compiler/src/visitor/literal_object.rs
+++ b/dice-compiler/src/visitor/literal_object.rs
@@ -9,7 +9,7 @@ impl NodeVisitor<&LitObject> for Compiler {
 
         for (field, value) in items {
             self.assembler()?.dup(0, *span);
-            self.visit(*value)?;
+            self.visit_with_temporaries(*value, 2)?;
             self.assembler()?.store_field(field.clone(), *span)?;
             self.assembler()?.pop(*span);
         }
diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 111f9cb..6868877 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -25,6 +25,16 @@ impl NodeVisitor<SyntaxNodeId> for Compiler {
 }
 
 impl Compiler {
+    /// Visit a node while `count` temporaries of the enclosing expression are on the stack, so that leaving the function or loop
+    /// from within the node cleans them up.
+    pub(super) fn visit_with_temporaries(&mut self, node: SyntaxNodeId, count: usize) -> Result<(), Error> {
+        *self.context()?.temporary_count() += count;
+        self.visit(node)?;
+        *self.context()?.temporary_count() -= count;
+
+        Ok(())
+    }
+
     fn is_call_chain(node: &SyntaxNode) -> bool {
         matches!(
             node,
-- 
2.43.0


From e141342e9de8cbe0e0b7a157a4c070a3742d9651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 14/31] fix: keep the stack balanced when breaking out of an
 iterator loop

---
 dice-compiler/src/visitor/expr_for.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index e3a5419..25f765c 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -64,16 +64,22 @@ impl NodeVisitor<&ForLoop> for Compiler {
             ]
         }
 
+        // NOTE: When the iterator is done, the last result is still on the stack.
+        emit_bytecode! {
+            context.assembler(), for_loop.span => [
+                PATCH_JUMP <- loop_exit;
+                POP;
+            ]
+        }
+
         // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
-        context.assembler().patch_jump(loop_exit);
         for exit_point in scope_context.exit_points {
             context.assembler().patch_jump(exit_point as u64);
         }
 
-        // NOTE: Clean up the temporaries stored on the stack and push a unit value.
+        // NOTE: Clean up the next method stored on the stack and push a unit value.
         emit_bytecode! {
             context.assembler(), for_loop.span => [
-                POP;
                 POP;
                 PUSH_UNIT;
             ]
-- 
2.43.0


From bc9b96a114e82a7661f05c8c19b7ff1d2f87ab6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 15/31] fix: support continue in for loops

---
 dice-compiler/src/scope_stack.rs             | 22 ++++++++++++++------
 dice-compiler/src/visitor/expr_continue.rs   | 10 +++++++--
 dice-compiler/src/visitor/expr_for.rs        |  3 +++
 dice-compiler/src/visitor/expr_range_loop.rs |  8 +++++--
 4 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 98504a3..e6e16df 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -56,6 +56,7 @@ pub struct ScopeContext {
     pub kind: ScopeKind,
     pub entry_point: Option<usize>,
     pub exit_points: Vec<usize>,
+    pub continue_points: Vec<usize>,
     pub variables: Vec<ScopeVariable>,
     pub call_context: CallContext,
     slot_count: usize,
@@ -68,6 +69,7 @@ impl Default for ScopeContext {
             kind: ScopeKind::Block,
             entry_point: None,
             exit_points: Vec::new(),
+            continue_points: Vec::new(),
             variables: Vec::new(),
             call_context: Default::default(),
             slot_count: 0,
@@ -157,16 +159,24 @@ impl ScopeStack {
         Ok(())
     }
 
-    /// Get the entry point of the first scope to match the specified kind.
-    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<usize, Error> {
+    /// Push the bytecode location of a continue point to the inner most loop's scope, to later be patched.
+    pub fn add_loop_continue_point(&mut self, continue_point: usize) -> Result<(), Error> {
+        let scope = self
+            .first_of_kind_mut(ScopeKind::Loop)
+            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
+
+        scope.continue_points.push(continue_point);
+
+        Ok(())
+    }
+
+    /// Get the entry point of the first scope to match the specified kind, if its position is already known.
+    pub fn entry_point(&mut self, kind: ScopeKind) -> Result<Option<usize>, Error> {
         let scope = self
             .first_of_kind(kind)
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))?;
 
-        scope
-            .entry_point
-            .clone()
-            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
+        Ok(scope.entry_point)
     }
 
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 2a54861..a5e68db 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -10,8 +10,14 @@ impl NodeVisitor<&Continue> for Compiler {
             return Err(Error::new(INVALID_CONTINUE_USAGE).with_span(*span));
         }
 
-        let loop_start = context.scope_stack().entry_point(ScopeKind::Loop)?;
-        context.assembler().jump_back(loop_start as u64, *span);
+        // NOTE: Loops that still have to advance at the end of an iteration have no entry point to jump back to.
+        match context.scope_stack().entry_point(ScopeKind::Loop)? {
+            Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
+            None => {
+                let patch_location = context.assembler().jump(*span);
+                context.scope_stack().add_loop_continue_point(patch_location as usize)?;
+            }
+        }
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 25f765c..e8a4959 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -59,6 +59,9 @@ impl NodeVisitor<&ForLoop> for Compiler {
         emit_bytecode! {
             context.assembler(), for_loop.span => [
                 POP;
+                for continue_point in scope_context.continue_points => [
+                    PATCH_JUMP <- continue_point as u64;
+                ]
                 CLOSE_UPVALUES scope_context.variables;
                 JUMP_BACK loop_start;
             ]
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index ad18b45..02cc494 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -55,18 +55,22 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         self.visit_with_temporaries(range_loop.body, 1)?;
 
         let context = self.context()?;
+        let scope_context = context.scope_stack().pop_scope()?;
+
         // NOTE: Pop off the value from evaluating the loop body and increment the loop variable by 1.
         emit_bytecode! {
             context.assembler(), range_loop.span => [
                 POP;
+                for continue_point in scope_context.continue_points => [
+                    PATCH_JUMP <- continue_point as u64;
+                ]
                 LOAD_LOCAL variable_slot;
                 PUSH_I1;
                 ADD;
             ]
         }
 
-        // NOTE: Close the scope and close out any upvalues at the end of the loop scope, before jumping back.
-        let scope_context = context.scope_stack().pop_scope()?;
+        // NOTE: Close out any upvalues at the end of the loop scope, before jumping back.
         emit_bytecode! {
             context.assembler(), range_loop.span => [
                 CLOSE_UPVALUES scope_context.variables;
-- 
2.43.0


From 82f79fca58dedceff005eb043ebf2c15cbc0c202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:22 +0000
Subject: [PATCH 16/31] fix: clean up the operands of enclosing expressions
 when leaving a loop iteration

---
 dice-compiler/src/scope_stack.rs             | 19 +++++++++++++++++++
 dice-compiler/src/visitor/expr_break.rs      |  6 ++++++
 dice-compiler/src/visitor/expr_continue.rs   |  6 ++++++
 dice-compiler/src/visitor/expr_for.rs        |  5 +++--
 dice-compiler/src/visitor/expr_loop.rs       |  6 ++++--
 dice-compiler/src/visitor/expr_range_loop.rs |  5 +++--
 dice-compiler/src/visitor/expr_while.rs      |  6 ++++--
 7 files changed, 45 insertions(+), 8 deletions(-)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index e6e16df..000dd3e 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -57,6 +57,7 @@ pub struct ScopeContext {
     pub entry_point: Option<usize>,
     pub exit_points: Vec<usize>,
     pub continue_points: Vec<usize>,
+    pub temporary_count: usize,
     pub variables: Vec<ScopeVariable>,
     pub call_context: CallContext,
     slot_count: usize,
@@ -70,6 +71,7 @@ impl Default for ScopeContext {
             entry_point: None,
             exit_points: Vec::new(),
             continue_points: Vec::new(),
+            temporary_count: 0,
             variables: Vec::new(),
             call_context: Default::default(),
             slot_count: 0,
@@ -102,6 +104,16 @@ impl ScopeStack {
         });
     }
 
+    pub fn push_loop_scope(&mut self, entry_point: Option<usize>, temporary_count: usize) {
+        self.stack.push(ScopeContext {
+            kind: ScopeKind::Loop,
+            depth: self.stack.len(),
+            entry_point,
+            temporary_count,
+            ..Default::default()
+        });
+    }
+
     pub fn pop_scope(&mut self) -> Result<ScopeContext, Error> {
         self.stack.pop().ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
@@ -179,6 +191,13 @@ impl ScopeStack {
         Ok(scope.entry_point)
     }
 
+    /// Get the number of temporaries that were on the stack when the inner most loop was entered.
+    pub fn loop_temporary_count(&self) -> Result<usize, Error> {
+        self.first_of_kind(ScopeKind::Loop)
+            .map(|scope| scope.temporary_count)
+            .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
+    }
+
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
         self.stack.iter().rev().find(|scope| scope.kind == kind)
     }
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 5f82642..897d915 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -11,6 +11,12 @@ impl NodeVisitor<&Break> for Compiler {
             return Err(Error::new(INVALID_BREAK_USAGE).with_span(*span));
         }
 
+        // NOTE: Cleanup any temporaries created since the loop was entered.
+        let temporary_count = *context.temporary_count() - context.scope_stack().loop_temporary_count()?;
+        for _ in 0..temporary_count {
+            context.assembler().pop(*span);
+        }
+
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index a5e68db..62194b5 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -10,6 +10,12 @@ impl NodeVisitor<&Continue> for Compiler {
             return Err(Error::new(INVALID_CONTINUE_USAGE).with_span(*span));
         }
 
+        // NOTE: Cleanup any temporaries created since the loop was entered.
+        let temporary_count = *context.temporary_count() - context.scope_stack().loop_temporary_count()?;
+        for _ in 0..temporary_count {
+            context.assembler().pop(*span);
+        }
+
         // NOTE: Loops that still have to advance at the end of an iteration have no entry point to jump back to.
         match context.scope_stack().entry_point(ScopeKind::Loop)? {
             Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index e8a4959..3f85321 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -6,7 +6,7 @@ use dice_syntax::ForLoop;
 
 use crate::{
     compiler::Compiler,
-    scope_stack::{ScopeKind, State},
+    scope_stack::State,
 };
 
 use super::NodeVisitor;
@@ -33,7 +33,8 @@ impl NodeVisitor<&ForLoop> for Compiler {
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        let temporary_count = *context.temporary_count() + 1;
+        context.scope_stack().push_loop_scope(None, temporary_count);
         let variable_slot = context
             .scope_stack()
             .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
diff --git a/dice-compiler/src/visitor/expr_loop.rs b/dice-compiler/src/visitor/expr_loop.rs
index d05af6a..7f85e22 100644
--- a/dice-compiler/src/visitor/expr_loop.rs
+++ b/dice-compiler/src/visitor/expr_loop.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{Loop, SyntaxNode};
 
@@ -9,9 +9,11 @@ impl NodeVisitor<&Loop> for Compiler {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
 
+            let temporary_count = *self.context()?.temporary_count();
+
             self.context()?
                 .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+                .push_loop_scope(Some(loop_start as usize), temporary_count);
 
             self.visit((&block, BlockKind::Loop))?;
             self.assembler()?.jump_back(loop_start, *span);
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index 02cc494..d49b88a 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -1,6 +1,6 @@
 use crate::{
     compiler::Compiler,
-    scope_stack::{ScopeKind, State},
+    scope_stack::State,
     visitor::NodeVisitor,
 };
 use dice_core::{error::Error, span::Span};
@@ -32,7 +32,8 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         let loop_exit;
 
         // NOTE: Start a new scope and define the loop variable.
-        context.scope_stack().push_scope(ScopeKind::Loop, None);
+        let temporary_count = *context.temporary_count() + 1;
+        context.scope_stack().push_loop_scope(None, temporary_count);
         let variable_slot = context
             .scope_stack()
             .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
diff --git a/dice-compiler/src/visitor/expr_while.rs b/dice-compiler/src/visitor/expr_while.rs
index 8a48e63..0833f66 100644
--- a/dice-compiler/src/visitor/expr_while.rs
+++ b/dice-compiler/src/visitor/expr_while.rs
@@ -1,5 +1,5 @@
 use super::{BlockKind, NodeVisitor};
-use crate::{compiler::Compiler, scope_stack::ScopeKind};
+use crate::compiler::Compiler;
 use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
 use dice_syntax::{SyntaxNode, WhileLoop};
 
@@ -9,9 +9,11 @@ impl NodeVisitor<&WhileLoop> for Compiler {
             let block = block.clone();
             let loop_start = self.assembler()?.current_position();
 
+            let temporary_count = *self.context()?.temporary_count();
+
             self.context()?
                 .scope_stack()
-                .push_scope(ScopeKind::Loop, Some(loop_start as usize));
+                .push_loop_scope(Some(loop_start as usize), temporary_count);
             self.visit(*condition)?;
 
             let loop_end = self.assembler()?.jump_if_false(*span);
-- 
2.43.0


From 1640dae6d8faac37d9dc896d122262b5266203ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:06 +0000
Subject: [PATCH 17/31] fix: close captured variables when leaving a loop
 iteration early

---
 dice-compiler/src/scope_stack.rs           | 20 ++++++++++++++++++++
 dice-compiler/src/visitor/expr_break.rs    |  5 +++++
 dice-compiler/src/visitor/expr_continue.rs |  6 ++++++
 3 files changed, 31 insertions(+)

diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 000dd3e..174b331 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -198,6 +198,26 @@ impl ScopeStack {
             .ok_or_else(|| Error::new(INTERNAL_COMPILER_ERROR))
     }
 
+    /// Get the slots of all captured variables declared since the inner most loop was entered, including the variables of the loop
+    /// itself if specified.
+    pub fn captured_loop_slots(&self, include_loop_variables: bool) -> Vec<usize> {
+        let mut slots = Vec::new();
+
+        for scope in self.stack.iter().rev() {
+            let is_loop = scope.kind == ScopeKind::Loop;
+
+            if !is_loop || include_loop_variables {
+                slots.extend(scope.variables.iter().filter(|var| var.is_captured).map(|var| var.slot));
+            }
+
+            if is_loop {
+                break;
+            }
+        }
+
+        slots
+    }
+
     fn first_of_kind(&self, kind: ScopeKind) -> Option<&ScopeContext> {
         self.stack.iter().rev().find(|scope| scope.kind == kind)
     }
diff --git a/dice-compiler/src/visitor/expr_break.rs b/dice-compiler/src/visitor/expr_break.rs
index 897d915..cf129c0 100644
--- a/dice-compiler/src/visitor/expr_break.rs
+++ b/dice-compiler/src/visitor/expr_break.rs
@@ -17,6 +17,11 @@ impl NodeVisitor<&Break> for Compiler {
             context.assembler().pop(*span);
         }
 
+        // NOTE: Close out any upvalues of the scopes that are left.
+        for slot in context.scope_stack().captured_loop_slots(true) {
+            context.assembler().close_upvalue(slot as u8, *span);
+        }
+
         let patch_location = context.assembler().jump(*span);
         context.scope_stack().add_loop_exit_point(patch_location as usize)?;
 
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index 62194b5..c6ec32d 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -16,6 +16,12 @@ impl NodeVisitor<&Continue> for Compiler {
             context.assembler().pop(*span);
         }
 
+        // NOTE: Close out any upvalues of the scopes that are left. The variables of the loop itself are closed out at the end of
+        // each iteration.
+        for slot in context.scope_stack().captured_loop_slots(false) {
+            context.assembler().close_upvalue(slot as u8, *span);
+        }
+
         // NOTE: Loops that still have to advance at the end of an iteration have no entry point to jump back to.
         match context.scope_stack().entry_point(ScopeKind::Loop)? {
             Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
-- 
2.43.0


From 8c8d0f204774ce0b8aeb62b00d869ce8a51b587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:06 +0000
Subject: [PATCH 18/31] fix: close captured variables when returning early

---
 dice-compiler/src/compiler_stack.rs           | 21 ++++++++--
 dice-compiler/src/visitor/expr_block.rs       | 40 ++++++++++++++++++-
 .../src/visitor/expr_error_propagate.rs       |  7 +---
 dice-compiler/src/visitor/expr_return.rs      | 32 +++------------
 4 files changed, 63 insertions(+), 37 deletions(-)

diff --git a/dice-compiler/src/compiler_stack.rs b/dice-compiler/src/compiler_stack.rs
index ea46348..a4f1793 100644
--- a/dice-compiler/src/compiler_stack.rs
+++ b/dice-compiler/src/compiler_stack.rs
@@ -1,4 +1,4 @@
-use std::fmt::Display;
+use std::{collections::BTreeSet, fmt::Display};
 
 use dice_bytecode::Bytecode;
 use dice_core::{
@@ -40,6 +40,8 @@ pub struct CompilerContext {
     upvalues: Vec<UpvalueDescriptor>,
     scope_stack: ScopeStack,
     temporary_count: usize,
+    captured_slots: BTreeSet<usize>,
+    return_points: Vec<u64>,
 }
 
 impl CompilerContext {
@@ -49,6 +51,8 @@ impl CompilerContext {
             scope_stack: ScopeStack::new(ScopeKind::Block),
             upvalues: Vec::new(),
             temporary_count: 0,
+            captured_slots: BTreeSet::new(),
+            return_points: Vec::new(),
             kind,
         }
     }
@@ -85,6 +89,16 @@ impl CompilerContext {
         &mut self.temporary_count
     }
 
+    /// The slots of all local variables that have been captured by closures, regardless of whether they're still in scope.
+    pub fn captured_slots(&mut self) -> &mut BTreeSet<usize> {
+        &mut self.captured_slots
+    }
+
+    /// The bytecode locations of all jumps to the end of the function, to later be patched.
+    pub fn return_points(&mut self) -> &mut Vec<u64> {
+        &mut self.return_points
+    }
+
     pub fn finish(mut self, source: Source) -> Bytecode {
         let slot_count = self.scope_stack.slot_count;
         let upvalue_count = self.upvalues().len();
@@ -125,10 +139,11 @@ impl CompilerStack {
     }
 
     pub fn resolve_upvalue(&mut self, name: String, depth: usize) -> Option<usize> {
-        let parent_local = self.offset(depth + 1)?.scope_stack().local(name.clone());
-        let descriptor = match parent_local {
+        let parent = self.offset(depth + 1)?;
+        let descriptor = match parent.scope_stack.local(name.clone()) {
             Some(parent_local) => {
                 parent_local.is_captured = true;
+                parent.captured_slots.insert(parent_local.slot);
 
                 UpvalueDescriptor::ParentLocal {
                     slot: parent_local.slot,
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 62df36f..75a0de2 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -81,7 +81,11 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
         self.visit_args(&kind, kind.args())?;
         self.scan_item_decls(block)?;
         self.visit(block)?;
-        self.visit_close_upvalues(block)?;
+
+        // NOTE: All returns from within the body end up here, with the return value on top of the stack.
+        for return_point in std::mem::take(self.context()?.return_points()) {
+            self.assembler()?.patch_jump(return_point);
+        }
 
         if let FunctionBlockKind::Function(_) | FunctionBlockKind::Method(_) = kind {
             self.visit_return(block.span)?
@@ -98,6 +102,7 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
                 self.assembler()?, block.span => [
                     POP;
                     LOAD_LOCAL local_slot;
+                    {self.visit_close_captured_slots(block.span)?};
                     RET;
                 ]
             }
@@ -173,7 +178,16 @@ impl Compiler {
         Ok(())
     }
 
-    pub(super) fn visit_return(&mut self, span: Span) -> Result<(), Error> {
+    // NOTE: A return can leave any number of scopes, so every slot that has been captured at some point has to be closed.
+    fn visit_close_captured_slots(&mut self, span: Span) -> Result<(), Error> {
+        for slot in self.context()?.captured_slots().clone() {
+            self.assembler()?.close_upvalue(slot as u8, span);
+        }
+
+        Ok(())
+    }
+
+    fn visit_return(&mut self, span: Span) -> Result<(), Error> {
         if let CompilerKind::Function {
             return_type: Some(return_type),
         }
@@ -184,6 +198,7 @@ impl Compiler {
             emit_bytecode! {
                 self.assembler()?, span => [
                     {self.visit(&return_type.name)?};
+                    {self.visit_close_captured_slots(span)?};
                     if return_type.is_nullable => [
                         ASSERT_TYPE_OR_NULL_AND_RETURN;
                     ] else [
@@ -192,9 +207,30 @@ impl Compiler {
                 ]
             }
         } else {
+            self.visit_close_captured_slots(span)?;
             self.assembler()?.ret(span)
         }
 
         Ok(())
     }
+
+    /// Return the value on top of the stack from within the body of a function.
+    pub(super) fn visit_early_return(&mut self, span: Span) -> Result<(), Error> {
+        let temporary_count = *self.context()?.temporary_count();
+
+        // NOTE: Cleanup any temporaries of the enclosing expressions, then leave through the end of the function.
+        emit_bytecode! {
+            self.assembler()?, span => [
+                for _ in 0..temporary_count => [
+                    SWAP;
+                    POP;
+                ]
+            ]
+        }
+
+        let return_point = self.assembler()?.jump(span);
+        self.context()?.return_points().push(return_point);
+
+        Ok(())
+    }
 }
diff --git a/dice-compiler/src/visitor/expr_error_propagate.rs b/dice-compiler/src/visitor/expr_error_propagate.rs
index c6fabf1..726e8c5 100644
--- a/dice-compiler/src/visitor/expr_error_propagate.rs
+++ b/dice-compiler/src/visitor/expr_error_propagate.rs
@@ -19,18 +19,13 @@ impl NodeVisitor<&ErrorPropagate> for Compiler {
 
         self.visit(*expression)?;
         let error_propagate_jump;
-        let temporary_count = *self.context()?.temporary_count();
 
         emit_bytecode! {
             self.assembler()?, *span => [
                 DUP 0;
                 LOAD_FIELD IS_OK;
                 JUMP_IF_TRUE -> error_propagate_jump;
-                for _ in 0..temporary_count => [
-                    SWAP;
-                    POP;
-                ]
-                {self.visit_return(*span)?};
+                {self.visit_early_return(*span)?};
                 PATCH_JUMP <- error_propagate_jump;
                 LOAD_FIELD RESULT;
             ]
diff --git a/dice-compiler/src/visitor/expr_return.rs b/dice-compiler/src/visitor/expr_return.rs
index 6153bd9..0fc8d9a 100644
--- a/dice-compiler/src/visitor/expr_return.rs
+++ b/dice-compiler/src/visitor/expr_return.rs
@@ -1,9 +1,6 @@
-use dice_core::{
-    error::{
-        codes::{INVALID_RETURN_USAGE, NEW_RETURN_CANNOT_HAVE_EXPRESSION},
-        Error,
-    },
-    protocol::class::SELF,
+use dice_core::error::{
+    codes::{INVALID_RETURN_USAGE, NEW_RETURN_CANNOT_HAVE_EXPRESSION},
+    Error,
 };
 use dice_syntax::Return;
 
@@ -20,13 +17,9 @@ impl NodeVisitor<&Return> for Compiler {
                 Some(expr) => self.visit(expr)?,
                 None => context.assembler().push_unit(expr_return.span),
             },
+            // NOTE: The end of a constructor always returns self in place of the value.
             CompilerKind::Constructor if expr_return.result.is_none() => {
-                let self_slot = context
-                    .scope_stack()
-                    .local(SELF)
-                    .expect("The self parameter should always be declared in constructors.")
-                    .slot;
-                self.assembler()?.load_local(self_slot as u8, expr_return.span);
+                context.assembler().push_unit(expr_return.span);
             }
             CompilerKind::Constructor if expr_return.result.is_some() => {
                 return Err(Error::new(NEW_RETURN_CANNOT_HAVE_EXPRESSION).with_span(expr_return.span))
@@ -34,19 +27,6 @@ impl NodeVisitor<&Return> for Compiler {
             _ => return Err(Error::new(INVALID_RETURN_USAGE).with_span(expr_return.span)),
         }
 
-        // NOTE: Cleanup any temporaries created while calling functions then return.
-        let temporary_count = *self.context()?.temporary_count();
-
-        emit_bytecode! {
-            self.assembler()?, expr_return.span => [
-                for _ in 0..temporary_count => [
-                    SWAP;
-                    POP;
-                ]
-                {self.visit_return(expr_return.span)?};
-            ]
-        }
-
-        Ok(())
+        self.visit_early_return(expr_return.span)
     }
 }
-- 
2.43.0


From 6da185e2160c3ce4cc988a2f1cd2d21fef752603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 19/31] fix: report jumps whose distance cannot be encoded

---
 data/locales/en-US/errors.ftl                |  1 +
 dice-compiler/src/assembler.rs               | 27 +++++++++++++-------
 dice-compiler/src/visitor/expr_binary_op.rs  |  6 ++---
 dice-compiler/src/visitor/expr_block.rs      |  2 +-
 dice-compiler/src/visitor/expr_continue.rs   |  2 +-
 dice-compiler/src/visitor/expr_for.rs        |  2 +-
 dice-compiler/src/visitor/expr_if.rs         |  4 +--
 dice-compiler/src/visitor/expr_loop.rs       |  4 +--
 dice-compiler/src/visitor/expr_range_loop.rs |  4 +--
 dice-compiler/src/visitor/expr_while.rs      |  6 ++---
 dice-compiler/src/visitor/syntax_node.rs     |  2 +-
 dice-core/src/error/codes.rs                 |  1 +
 12 files changed, 36 insertions(+), 25 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index 929c5e7..91ca21d 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -15,6 +15,7 @@ E2000 = Internal Compiler Error (please report this as a bug with code to reprod
 
 E2100 = The maximum number of upvalues (256) has been exceeded for this compilation unit.
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
+E2102 = The body of a conditional or loop is too large to be jumped over (max: 32767 bytes of bytecode).
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/assembler.rs b/dice-compiler/src/assembler.rs
index b034ee5..65da5fa 100644
--- a/dice-compiler/src/assembler.rs
+++ b/dice-compiler/src/assembler.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use std::{collections::HashMap, convert::TryFrom};
 
 use bytes::BufMut as _;
 
@@ -6,7 +6,7 @@ use dice_bytecode::Instruction;
 use dice_bytecode::{Bytecode, ConstantValue};
 use dice_core::{
     error::{
-        codes::{TOO_MANY_CONSTANTS, TOO_MANY_UPVALUES},
+        codes::{JUMP_TOO_FAR, TOO_MANY_CONSTANTS, TOO_MANY_UPVALUES},
         Error,
     },
     source::Source,
@@ -259,16 +259,25 @@ impl Assembler {
         patch_pos
     }
 
-    pub fn patch_jump(&mut self, jump_position: u64) {
-        let offset = (self.current_position() - jump_position - 2) as i16;
-        (&mut self.data[jump_position as usize..]).put_i16(offset)
+    pub fn patch_jump(&mut self, jump_position: u64) -> Result<(), Error> {
+        let distance = self.current_position() - jump_position - 2;
+        let offset = i16::try_from(distance).map_err(|_| {
+            let span = self.source_map.get(&(jump_position - 1)).copied();
+            Error::new(JUMP_TOO_FAR).with_span(span.unwrap_or_else(Span::empty))
+        })?;
+        (&mut self.data[jump_position as usize..]).put_i16(offset);
+
+        Ok(())
     }
 
-    pub fn jump_back(&mut self, position: u64, span: Span) {
+    pub fn jump_back(&mut self, position: u64, span: Span) -> Result<(), Error> {
         self.source_map.insert(self.data.len() as u64, span);
         self.data.put_u8(Instruction::Jump.into());
-        let offset = -((self.current_position() - position + 2) as i16);
+        let distance = self.current_position() - position + 2;
+        let offset = i16::try_from(-(distance as i64)).map_err(|_| Error::new(JUMP_TOO_FAR).with_span(span))?;
         self.data.put_i16(offset);
+
+        Ok(())
     }
 
     pub fn current_position(&self) -> u64 {
@@ -636,7 +645,7 @@ macro_rules! emit_bytecode {
 
 
     ($assembler:expr, $span:expr => [JUMP_BACK $offset:expr; $($rest:tt)*] ) => {
-        $assembler.jump_back($offset, $span);
+        $assembler.jump_back($offset, $span)?;
         emit_bytecode! { $assembler, $span => [$($rest)*] }
     };
 
@@ -771,7 +780,7 @@ macro_rules! emit_bytecode {
     };
 
     ($assembler:expr, $span:expr => [PATCH_JUMP <- $into:expr; $($rest:tt)*] ) => {
-        $assembler.patch_jump($into);
+        $assembler.patch_jump($into)?;
         emit_bytecode! { $assembler, $span => [$($rest)*] }
     };
 
diff --git a/dice-compiler/src/visitor/expr_binary_op.rs b/dice-compiler/src/visitor/expr_binary_op.rs
index c9f2060..8c6d58b 100644
--- a/dice-compiler/src/visitor/expr_binary_op.rs
+++ b/dice-compiler/src/visitor/expr_binary_op.rs
@@ -49,7 +49,7 @@ impl Compiler {
         self.compiler_stack
             .top_mut()?
             .assembler()
-            .patch_jump(short_circuit_jump);
+            .patch_jump(short_circuit_jump)?;
 
         Ok(())
     }
@@ -79,7 +79,7 @@ impl Compiler {
         self.compiler_stack
             .top_mut()?
             .assembler()
-            .patch_jump(short_circuit_jump);
+            .patch_jump(short_circuit_jump)?;
 
         Ok(())
     }
@@ -116,7 +116,7 @@ impl Compiler {
         }
 
         self.visit(rhs_expression)?;
-        self.assembler()?.patch_jump(coalesce_jump);
+        self.assembler()?.patch_jump(coalesce_jump)?;
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 75a0de2..98d70dd 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -84,7 +84,7 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
 
         // NOTE: All returns from within the body end up here, with the return value on top of the stack.
         for return_point in std::mem::take(self.context()?.return_points()) {
-            self.assembler()?.patch_jump(return_point);
+            self.assembler()?.patch_jump(return_point)?;
         }
 
         if let FunctionBlockKind::Function(_) | FunctionBlockKind::Method(_) = kind {
diff --git a/dice-compiler/src/visitor/expr_continue.rs b/dice-compiler/src/visitor/expr_continue.rs
index c6ec32d..e819306 100644
--- a/dice-compiler/src/visitor/expr_continue.rs
+++ b/dice-compiler/src/visitor/expr_continue.rs
@@ -24,7 +24,7 @@ impl NodeVisitor<&Continue> for Compiler {
 
         // NOTE: Loops that still have to advance at the end of an iteration have no entry point to jump back to.
         match context.scope_stack().entry_point(ScopeKind::Loop)? {
-            Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span),
+            Some(loop_start) => context.assembler().jump_back(loop_start as u64, *span)?,
             None => {
                 let patch_location = context.assembler().jump(*span);
                 context.scope_stack().add_loop_continue_point(patch_location as usize)?;
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 3f85321..845c614 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -78,7 +78,7 @@ impl NodeVisitor<&ForLoop> for Compiler {
 
         // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
         for exit_point in scope_context.exit_points {
-            context.assembler().patch_jump(exit_point as u64);
+            context.assembler().patch_jump(exit_point as u64)?;
         }
 
         // NOTE: Clean up the next method stored on the stack and push a unit value.
diff --git a/dice-compiler/src/visitor/expr_if.rs b/dice-compiler/src/visitor/expr_if.rs
index 28ff3d7..fdd9b5b 100644
--- a/dice-compiler/src/visitor/expr_if.rs
+++ b/dice-compiler/src/visitor/expr_if.rs
@@ -19,7 +19,7 @@ impl NodeVisitor<&IfExpression> for Compiler {
 
         let else_jump = self.assembler()?.jump(*span);
 
-        self.assembler()?.patch_jump(if_jump);
+        self.assembler()?.patch_jump(if_jump)?;
 
         if let Some(secondary) = secondary {
             self.visit(*secondary)?;
@@ -27,7 +27,7 @@ impl NodeVisitor<&IfExpression> for Compiler {
             self.assembler()?.push_unit(*span);
         }
 
-        self.assembler()?.patch_jump(else_jump);
+        self.assembler()?.patch_jump(else_jump)?;
 
         Ok(())
     }
diff --git a/dice-compiler/src/visitor/expr_loop.rs b/dice-compiler/src/visitor/expr_loop.rs
index 7f85e22..b46f6aa 100644
--- a/dice-compiler/src/visitor/expr_loop.rs
+++ b/dice-compiler/src/visitor/expr_loop.rs
@@ -16,12 +16,12 @@ impl NodeVisitor<&Loop> for Compiler {
                 .push_loop_scope(Some(loop_start as usize), temporary_count);
 
             self.visit((&block, BlockKind::Loop))?;
-            self.assembler()?.jump_back(loop_start, *span);
+            self.assembler()?.jump_back(loop_start, *span)?;
 
             let scope_close = self.context()?.scope_stack().pop_scope()?;
 
             for location in scope_close.exit_points.iter() {
-                self.assembler()?.patch_jump(*location as u64);
+                self.assembler()?.patch_jump(*location as u64)?;
             }
 
             self.assembler()?.push_unit(*span);
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index d49b88a..bdd2531 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -80,9 +80,9 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         }
 
         // NOTE: Patch all exit points from the loop to jump to after the end of the loop.
-        context.assembler().patch_jump(loop_exit);
+        context.assembler().patch_jump(loop_exit)?;
         for exit_point in scope_context.exit_points {
-            context.assembler().patch_jump(exit_point as u64);
+            context.assembler().patch_jump(exit_point as u64)?;
         }
 
         // NOTE: Clean up the temporaries stored on the stack and push a unit value.
diff --git a/dice-compiler/src/visitor/expr_while.rs b/dice-compiler/src/visitor/expr_while.rs
index 0833f66..df578cf 100644
--- a/dice-compiler/src/visitor/expr_while.rs
+++ b/dice-compiler/src/visitor/expr_while.rs
@@ -19,13 +19,13 @@ impl NodeVisitor<&WhileLoop> for Compiler {
             let loop_end = self.assembler()?.jump_if_false(*span);
 
             self.visit((&block, BlockKind::Loop))?;
-            self.assembler()?.jump_back(loop_start, *span);
-            self.assembler()?.patch_jump(loop_end);
+            self.assembler()?.jump_back(loop_start, *span)?;
+            self.assembler()?.patch_jump(loop_end)?;
 
             let scope_close = self.context()?.scope_stack().pop_scope()?;
 
             for location in scope_close.exit_points.iter() {
-                self.assembler()?.patch_jump(*location as u64);
+                self.assembler()?.patch_jump(*location as u64)?;
             }
 
             self.assembler()?.push_unit(*span);
diff --git a/dice-compiler/src/visitor/syntax_node.rs b/dice-compiler/src/visitor/syntax_node.rs
index 6868877..e87f662 100644
--- a/dice-compiler/src/visitor/syntax_node.rs
+++ b/dice-compiler/src/visitor/syntax_node.rs
@@ -132,7 +132,7 @@ impl Compiler {
         if context.depth == 0 {
             let exit_points = std::mem::take(&mut context.exit_points);
             for exit_point in exit_points.into_iter() {
-                self.assembler()?.patch_jump(exit_point as u64);
+                self.assembler()?.patch_jump(exit_point as u64)?;
             }
         }
 
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 6f240f7..a68c23d 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -17,6 +17,7 @@ pub static INTERNAL_COMPILER_ERROR: ErrorCode = "E2000";
 
 pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
+pub static JUMP_TOO_FAR: ErrorCode = "E2102";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
-- 
2.43.0


From df6109750f98622296f7e805716dc73dc475f498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 20/31] fix: report functions with more local variables than
 can be encoded

---
 data/locales/en-US/errors.ftl                |  1 +
 dice-compiler/src/decl_scan.rs               | 10 +++++++---
 dice-compiler/src/scope_stack.rs             | 13 +++++++++++--
 dice-compiler/src/visitor/decl_class.rs      |  5 +++--
 dice-compiler/src/visitor/decl_import.rs     |  8 +++++---
 dice-compiler/src/visitor/decl_var.rs        |  8 +++++---
 dice-compiler/src/visitor/expr_block.rs      | 14 ++++++--------
 dice-compiler/src/visitor/expr_for.rs        |  5 +++--
 dice-compiler/src/visitor/expr_range_loop.rs |  8 ++++++--
 dice-core/src/error/codes.rs                 |  1 +
 10 files changed, 48 insertions(+), 25 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index 91ca21d..9f9f6e6 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -16,6 +16,7 @@ E2000 = Internal Compiler Error (please report this as a bug with code to reprod
 E2100 = The maximum number of upvalues (256) has been exceeded for this compilation unit.
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
 E2102 = The body of a conditional or loop is too large to be jumped over (max: 32767 bytes of bytecode).
+E2103 = The maximum number of local variables (256) has been exceeded for this function.
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/decl_scan.rs b/dice-compiler/src/decl_scan.rs
index 07a16cf..f85e631 100644
--- a/dice-compiler/src/decl_scan.rs
+++ b/dice-compiler/src/decl_scan.rs
@@ -1,5 +1,5 @@
 use crate::{compiler::Compiler, scope_stack::State};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt};
 use dice_syntax::{Block, ClassDecl, FnDecl, SyntaxNode, SyntaxNodeId};
 
 impl Compiler {
@@ -37,19 +37,23 @@ impl Compiler {
     }
 
     fn scan_fn_decl(&mut self, fn_decl: FnDecl) -> Result<(), Error> {
+        let span = fn_decl.name.span;
         let name = fn_decl.name.identifier;
         self.context()?
             .scope_stack()
-            .add_local(name, State::Function { is_initialized: false })?;
+            .add_local(name, State::Function { is_initialized: false })
+            .with_span(|| span)?;
 
         Ok(())
     }
 
     fn scan_class_decl(&mut self, class_decl: ClassDecl) -> Result<(), Error> {
+        let span = class_decl.name.span;
         let name = class_decl.name.identifier;
         self.context()?
             .scope_stack()
-            .add_local(name, State::Class { is_initialized: false })?;
+            .add_local(name, State::Class { is_initialized: false })
+            .with_span(|| span)?;
 
         Ok(())
     }
diff --git a/dice-compiler/src/scope_stack.rs b/dice-compiler/src/scope_stack.rs
index 174b331..b61953a 100644
--- a/dice-compiler/src/scope_stack.rs
+++ b/dice-compiler/src/scope_stack.rs
@@ -1,4 +1,7 @@
-use dice_core::error::{codes::INTERNAL_COMPILER_ERROR, Error};
+use dice_core::error::{
+    codes::{INTERNAL_COMPILER_ERROR, TOO_MANY_LOCALS},
+    Error,
+};
 
 #[derive(Clone)]
 pub struct ScopeVariable {
@@ -129,8 +132,14 @@ impl ScopeStack {
     fn add_local_impl(&mut self, name: String, state: State) -> Result<usize, Error> {
         self.top_mut()?.slot_count += 1;
 
-        let slot_count = self.stack.iter().rev().map(|scope| scope.slot_count).sum();
+        let slot_count: usize = self.stack.iter().rev().map(|scope| scope.slot_count).sum();
         let slot = slot_count - 1;
+
+        // NOTE: Slots are encoded as a single byte.
+        if slot > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_LOCALS));
+        }
+
         let local = ScopeVariable {
             name,
             slot,
diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index e76b597..26d4176 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -4,7 +4,7 @@ use dice_core::{
             CLASS_ALREADY_DECLARED, INTERNAL_COMPILER_ERROR, METHOD_RECEIVER_CANNOT_HAVE_TYPE,
             NEW_METHOD_MUST_HAVE_RECEIVER, OPERATOR_MUST_HAVE_RECEIVER,
         },
-        Error,
+        Error, ResultExt,
     },
     protocol::{
         class::{NEW, SELF, SUPER},
@@ -38,7 +38,8 @@ impl NodeVisitor<&ClassDecl> for Compiler {
         let super_slot = self
             .context()?
             .scope_stack()
-            .add_local(SUPER, State::initialized(true))? as u8;
+            .add_local(SUPER, State::initialized(true))
+            .with_span(|| node.span)? as u8;
 
         emit_bytecode! {
             self.assembler()?, node.span => [
diff --git a/dice-compiler/src/visitor/decl_import.rs b/dice-compiler/src/visitor/decl_import.rs
index 236c333..3950fab 100644
--- a/dice-compiler/src/visitor/decl_import.rs
+++ b/dice-compiler/src/visitor/decl_import.rs
@@ -1,5 +1,5 @@
 use crate::{compiler::Compiler, scope_stack::State, visitor::NodeVisitor};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt};
 use dice_syntax::ImportDecl;
 
 impl NodeVisitor<&ImportDecl> for Compiler {
@@ -11,7 +11,8 @@ impl NodeVisitor<&ImportDecl> for Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                    .add_local(item.clone(), State::initialized(false))
+                    .with_span(|| node.span)?;
 
                 Ok((item.as_str(), slot as u8))
             })
@@ -34,7 +35,8 @@ impl NodeVisitor<&ImportDecl> for Compiler {
             let module_slot = self
                 .context()?
                 .scope_stack()
-                .add_local(module_import.clone(), State::initialized(false))?;
+                .add_local(module_import.clone(), State::initialized(false))
+                .with_span(|| node.span)?;
 
             self.assembler()?.store_local(module_slot as u8, node.span);
         }
diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index 934efb5..c66f05a 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -1,6 +1,6 @@
 use super::NodeVisitor;
 use crate::{compiler::Compiler, scope_stack::State};
-use dice_core::error::Error;
+use dice_core::error::{Error, ResultExt};
 use dice_syntax::{VarDecl, VarDeclKind};
 
 impl NodeVisitor<&VarDecl> for Compiler {
@@ -19,7 +19,8 @@ impl Compiler {
         let slot = self
             .context()?
             .scope_stack()
-            .add_local(name, State::initialized(var_decl.is_mutable))? as u8;
+            .add_local(name, State::initialized(var_decl.is_mutable))
+            .with_span(|| var_decl.span)? as u8;
 
         emit_bytecode! {
             self.assembler()?, var_decl.span => [
@@ -52,7 +53,8 @@ impl Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))?;
+                    .add_local(item.clone(), State::initialized(false))
+                    .with_span(|| var_decl.span)?;
 
                 Ok((item.as_str(), slot as u8))
             })
diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 98d70dd..46b730f 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -1,5 +1,5 @@
 use dice_core::{
-    error::{codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, Error},
+    error::{codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, Error, ResultExt},
     protocol::class::SELF,
     span::Span,
 };
@@ -139,13 +139,11 @@ impl Compiler {
         }
 
         for arg in args {
-            let slot = self.context()?.scope_stack().add_local(
-                arg.name.clone(),
-                State::Local {
-                    is_mutable: false,
-                    is_initialized: true,
-                },
-            )? as u8;
+            let slot = self
+                .context()?
+                .scope_stack()
+                .add_local(arg.name.clone(), State::initialized(false))
+                .with_span(|| arg.span)? as u8;
 
             if let Some(type_) = &arg.type_ {
                 emit_bytecode! {
diff --git a/dice-compiler/src/visitor/expr_for.rs b/dice-compiler/src/visitor/expr_for.rs
index 845c614..943512e 100644
--- a/dice-compiler/src/visitor/expr_for.rs
+++ b/dice-compiler/src/visitor/expr_for.rs
@@ -1,5 +1,5 @@
 use dice_core::{
-    error::Error,
+    error::{Error, ResultExt},
     protocol::iterator::{DONE, ITER, NEXT, VALUE},
 };
 use dice_syntax::ForLoop;
@@ -37,7 +37,8 @@ impl NodeVisitor<&ForLoop> for Compiler {
         context.scope_stack().push_loop_scope(None, temporary_count);
         let variable_slot = context
             .scope_stack()
-            .add_local(for_loop.variable.clone(), State::initialized(false))? as u8;
+            .add_local(for_loop.variable.clone(), State::initialized(false))
+            .with_span(|| for_loop.span)? as u8;
 
         emit_bytecode! {
             context.assembler(), for_loop.span => [
diff --git a/dice-compiler/src/visitor/expr_range_loop.rs b/dice-compiler/src/visitor/expr_range_loop.rs
index bdd2531..2640c1c 100644
--- a/dice-compiler/src/visitor/expr_range_loop.rs
+++ b/dice-compiler/src/visitor/expr_range_loop.rs
@@ -3,7 +3,10 @@ use crate::{
     scope_stack::State,
     visitor::NodeVisitor,
 };
-use dice_core::{error::Error, span::Span};
+use dice_core::{
+    error::{Error, ResultExt},
+    span::Span,
+};
 use dice_syntax::{BinaryOperator, ForLoop, SyntaxNode, SyntaxNodeId};
 
 enum RangeLoopKind {
@@ -36,7 +39,8 @@ impl NodeVisitor<&RangeLoop> for Compiler {
         context.scope_stack().push_loop_scope(None, temporary_count);
         let variable_slot = context
             .scope_stack()
-            .add_local(range_loop.variable.clone(), State::initialized(false))? as u8;
+            .add_local(range_loop.variable.clone(), State::initialized(false))
+            .with_span(|| range_loop.span)? as u8;
 
         // NOTE: Store the start condition and duplicate the end condition, to be consumed by the loop condition.
         // This effectively reverses the order of the end and start conditions on the stack.
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index a68c23d..3bf4b79 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -18,6 +18,7 @@ pub static INTERNAL_COMPILER_ERROR: ErrorCode = "E2000";
 pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
 pub static JUMP_TOO_FAR: ErrorCode = "E2102";
+pub static TOO_MANY_LOCALS: ErrorCode = "E2103";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
-- 
2.43.0


From 82900ee390b552d60a828700653f095106157848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 21/31] fix: report list literals and calls with more items
 than can be encoded

---
 data/locales/en-US/errors.ftl                | 2 ++
 dice-compiler/src/visitor/expr_fn_call.rs    | 6 +++++-
 dice-compiler/src/visitor/expr_super_call.rs | 9 ++++++++-
 dice-compiler/src/visitor/literal_list.rs    | 6 +++++-
 dice-core/src/error/codes.rs                 | 2 ++
 5 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index 9f9f6e6..deeb019 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -17,6 +17,8 @@ E2100 = The maximum number of upvalues (256) has been exceeded for this compilat
 E2101 = The maximum number of constants (256) has been exceeded for this compilation unit.
 E2102 = The body of a conditional or loop is too large to be jumped over (max: 32767 bytes of bytecode).
 E2103 = The maximum number of local variables (256) has been exceeded for this function.
+E2104 = The maximum number of items in a list literal (255) has been exceeded.
+E2105 = The maximum number of arguments in a call (255) has been exceeded.
 
 E2200 = The new method cannot specify a return type.
 E2201 = The new method must specify self as the first parameter.
diff --git a/dice-compiler/src/visitor/expr_fn_call.rs b/dice-compiler/src/visitor/expr_fn_call.rs
index fab31b9..b5336c1 100644
--- a/dice-compiler/src/visitor/expr_fn_call.rs
+++ b/dice-compiler/src/visitor/expr_fn_call.rs
@@ -1,12 +1,16 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use dice_core::error::{codes::TOO_MANY_CALL_ARGUMENTS, Error};
 use dice_syntax::FnCall;
 
 impl NodeVisitor<&FnCall> for Compiler {
     fn visit(&mut self, node: &FnCall) -> Result<(), Error> {
         self.visit(node.target)?;
 
+        if node.args.len() > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_CALL_ARGUMENTS).with_span(node.span));
+        }
+
         // NOTE: Store the temporary at the time the function call was started, to be restored later.
         let original_temporary_count = *self.context()?.temporary_count();
         for arg in &node.args {
diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index c8d3300..5f23fc6 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -1,5 +1,8 @@
 use dice_core::{
-    error::{codes::INVALID_SUPER_CALL, Error},
+    error::{
+        codes::{INVALID_SUPER_CALL, TOO_MANY_CALL_ARGUMENTS},
+        Error,
+    },
     protocol::class::{SELF, SUPER},
 };
 use dice_syntax::{LitIdent, SuperCall};
@@ -25,6 +28,10 @@ impl NodeVisitor<&SuperCall> for Compiler {
             .slot as u8;
         self.assembler()?.load_local(local_slot, node.span);
 
+        if node.args.len() > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_CALL_ARGUMENTS).with_span(node.span));
+        }
+
         // NOTE: Store the temporary at the time the function call was started, to be restored later.
         let original_temporary_count = *self.context()?.temporary_count();
         for arg in &node.args {
diff --git a/dice-compiler/src/visitor/literal_list.rs b/dice-compiler/src/visitor/literal_list.rs
index b278674..7204051 100644
--- a/dice-compiler/src/visitor/literal_list.rs
+++ b/dice-compiler/src/visitor/literal_list.rs
@@ -1,10 +1,14 @@
 use super::NodeVisitor;
 use crate::compiler::Compiler;
-use dice_core::error::Error;
+use dice_core::error::{codes::TOO_MANY_LIST_ITEMS, Error};
 use dice_syntax::LitList;
 
 impl NodeVisitor<&LitList> for Compiler {
     fn visit(&mut self, LitList { items: value, span }: &LitList) -> Result<(), Error> {
+        if value.len() > u8::MAX as usize {
+            return Err(Error::new(TOO_MANY_LIST_ITEMS).with_span(*span));
+        }
+
         for (index, item) in value.iter().enumerate() {
             self.visit_with_temporaries(*item, index)?;
         }
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index 3bf4b79..cea99fb 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -19,6 +19,8 @@ pub static TOO_MANY_UPVALUES: ErrorCode = "E2100";
 pub static TOO_MANY_CONSTANTS: ErrorCode = "E2101";
 pub static JUMP_TOO_FAR: ErrorCode = "E2102";
 pub static TOO_MANY_LOCALS: ErrorCode = "E2103";
+pub static TOO_MANY_LIST_ITEMS: ErrorCode = "E2104";
+pub static TOO_MANY_CALL_ARGUMENTS: ErrorCode = "E2105";
 
 pub static NEW_METHOD_CANNOT_HAVE_RETURN_TYPE: ErrorCode = "E2200";
 pub static NEW_METHOD_MUST_HAVE_RECEIVER: ErrorCode = "E2201";
-- 
2.43.0


From 7a6d277e25c4d4163f1e74439c745c08f214dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 22/31] fix: display the range operators as they are written

---
 dice-syntax/src/ast/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/ast/node.rs b/dice-syntax/src/ast/node.rs
index b3143c6..4c84fa1 100644
--- a/dice-syntax/src/ast/node.rs
+++ b/dice-syntax/src/ast/node.rs
@@ -277,8 +277,8 @@ impl Display for OverloadedOperator {
             OverloadedOperator::LessThanEquals => write!(f, "<="),
             OverloadedOperator::Equals => write!(f, "=="),
             OverloadedOperator::NotEquals => write!(f, "!="),
-            OverloadedOperator::RangeInclusive => write!(f, ".."),
-            OverloadedOperator::RangeExclusive => write!(f, "..="),
+            OverloadedOperator::RangeInclusive => write!(f, "..="),
+            OverloadedOperator::RangeExclusive => write!(f, ".."),
         }
     }
 }
-- 
2.43.0


From ecb6cf1c0da6dcb4b5154956826cb9b64b99e182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:17 +0000
Subject: [PATCH 23/31] fix: extend the span of prefix operators over their
 operand

---
 dice-syntax/src/parser/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 6103e42..28ccd41 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -676,10 +676,11 @@ impl<'a> Parser<'a> {
             TokenKind::Not => UnaryOperator::Not,
             _ => unreachable!(),
         };
+        let span_end = self.lexer.current().span;
         let node = SyntaxNode::Prefix(Prefix {
             operator,
             expression: child_node_id,
-            span: token.span,
+            span: token.span + span_end,
         });
 
         Ok(self.arena.alloc(node))
-- 
2.43.0


From c49184187b9343e1e5b390a4d23496abba8520a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:56 +0000
Subject: [PATCH 24/31] fix: report an else that is followed by neither if nor
 a block

---
 dice-syntax/src/parser/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dice-syntax/src/parser/mod.rs b/dice-syntax/src/parser/mod.rs
index 28ccd41..1af8fa1 100644
--- a/dice-syntax/src/parser/mod.rs
+++ b/dice-syntax/src/parser/mod.rs
@@ -151,10 +151,12 @@ impl<'a> Parser<'a> {
         let secondary = if self.lexer.peek()?.kind == TokenKind::Else {
             self.lexer.consume(TokenKind::Else)?;
 
-            match self.lexer.peek()?.kind {
+            let next_token = self.lexer.peek()?;
+
+            match next_token.kind {
                 TokenKind::If => Some(self.if_expression(false)?),
                 TokenKind::LeftCurly => Some(self.block_expression(false)?),
-                _ => None,
+                kind => self.unexpected_token(kind, &[TokenKind::If, TokenKind::LeftCurly], next_token.span)?,
             }
         } else {
             None
-- 
2.43.0


From 633362d09a0b3f726db15c2d3b75a2f8568a94c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:02 +0000
Subject: [PATCH 25/31] fix: derive classes without a base from the global Any
 class

---
 dice-compiler/src/visitor/decl_class.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/dice-compiler/src/visitor/decl_class.rs b/dice-compiler/src/visitor/decl_class.rs
index 26d4176..ffb99f5 100644
--- a/dice-compiler/src/visitor/decl_class.rs
+++ b/dice-compiler/src/visitor/decl_class.rs
@@ -12,7 +12,7 @@ use dice_core::{
     },
     tags,
 };
-use dice_syntax::{ClassDecl, FnDecl, LitIdent, OpDecl, SyntaxNode};
+use dice_syntax::{ClassDecl, FnDecl, OpDecl, SyntaxNode};
 
 use crate::{
     compiler::Compiler,
@@ -28,10 +28,7 @@ impl NodeVisitor<&ClassDecl> for Compiler {
             self.visit(base)?;
             ClassKind::Derived
         } else {
-            self.visit(&LitIdent {
-                identifier: ANY_CLASS.to_owned(),
-                span: node.span,
-            })?;
+            self.assembler()?.load_global(ANY_CLASS, node.span)?;
             ClassKind::Base
         };
 
-- 
2.43.0


From 509dacd064ad98d26bd79f0c38d5b23fdc8c1f4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:28 +0000
Subject: [PATCH 26/31] fix: return and use the receiver of a method even where
 self is shadowed

---
 dice-compiler/src/visitor/expr_block.rs        | 12 ++----------
 dice-compiler/src/visitor/expr_super_access.rs |  6 +++---
 dice-compiler/src/visitor/expr_super_call.rs   | 12 +++---------
 dice-compiler/src/visitor/mod.rs               |  3 +++
 4 files changed, 11 insertions(+), 22 deletions(-)

diff --git a/dice-compiler/src/visitor/expr_block.rs b/dice-compiler/src/visitor/expr_block.rs
index 46b730f..6cf5ed0 100644
--- a/dice-compiler/src/visitor/expr_block.rs
+++ b/dice-compiler/src/visitor/expr_block.rs
@@ -1,6 +1,5 @@
 use dice_core::{
     error::{codes::NEW_MUST_CALL_SUPER_FROM_SUBCLASS, Error, ResultExt},
-    protocol::class::SELF,
     span::Span,
 };
 use dice_syntax::{Block, FnArg, SyntaxNode};
@@ -12,7 +11,7 @@ use crate::{
     visitor::ClassKind,
 };
 
-use super::NodeVisitor;
+use super::{NodeVisitor, RECEIVER_SLOT};
 
 impl NodeVisitor<&Block> for Compiler {
     fn visit(&mut self, block: &Block) -> Result<(), Error> {
@@ -91,17 +90,10 @@ impl<'args> NodeVisitor<(&Block, FunctionBlockKind<'args>)> for Compiler {
             self.visit_return(block.span)?
         } else if let FunctionBlockKind::Constructor(..) = kind {
             // NOTE: If in context of a constructor, pop the last value, load self, return.
-            let local_slot = self
-                .context()?
-                .scope_stack()
-                .local(SELF)
-                .expect("Methods should always have a self.")
-                .slot as u8;
-
             emit_bytecode! {
                 self.assembler()?, block.span => [
                     POP;
-                    LOAD_LOCAL local_slot;
+                    LOAD_LOCAL RECEIVER_SLOT;
                     {self.visit_close_captured_slots(block.span)?};
                     RET;
                 ]
diff --git a/dice-compiler/src/visitor/expr_super_access.rs b/dice-compiler/src/visitor/expr_super_access.rs
index 9768200..b099d52 100644
--- a/dice-compiler/src/visitor/expr_super_access.rs
+++ b/dice-compiler/src/visitor/expr_super_access.rs
@@ -1,12 +1,12 @@
 use dice_core::{
     error::{codes::INVALID_SUPER_CALL, Error},
-    protocol::class::{SELF, SUPER},
+    protocol::class::SUPER,
 };
 use dice_syntax::{LitIdent, SuperAccess};
 
 use crate::{compiler::Compiler, compiler_stack::CompilerKind};
 
-use super::NodeVisitor;
+use super::{NodeVisitor, RECEIVER_SLOT};
 
 impl NodeVisitor<&SuperAccess> for Compiler {
     fn visit(
@@ -29,7 +29,7 @@ impl NodeVisitor<&SuperAccess> for Compiler {
             None => self.visit(&LitIdent::synthesize(SUPER, *span))?,
         }
 
-        self.visit(&LitIdent::synthesize(SELF, *span))?;
+        self.assembler()?.load_local(RECEIVER_SLOT, *span);
         self.assembler()?.load_method(&**field, *span)?;
 
         Ok(())
diff --git a/dice-compiler/src/visitor/expr_super_call.rs b/dice-compiler/src/visitor/expr_super_call.rs
index 5f23fc6..fbf7214 100644
--- a/dice-compiler/src/visitor/expr_super_call.rs
+++ b/dice-compiler/src/visitor/expr_super_call.rs
@@ -3,13 +3,13 @@ use dice_core::{
         codes::{INVALID_SUPER_CALL, TOO_MANY_CALL_ARGUMENTS},
         Error,
     },
-    protocol::class::{SELF, SUPER},
+    protocol::class::SUPER,
 };
 use dice_syntax::{LitIdent, SuperCall};
 
 use crate::{compiler::Compiler, compiler_stack::CompilerKind};
 
-use super::NodeVisitor;
+use super::{NodeVisitor, RECEIVER_SLOT};
 
 impl NodeVisitor<&SuperCall> for Compiler {
     fn visit(&mut self, node: &SuperCall) -> Result<(), Error> {
@@ -20,13 +20,7 @@ impl NodeVisitor<&SuperCall> for Compiler {
             return Err(Error::new(INVALID_SUPER_CALL).with_span(node.span));
         }
 
-        let local_slot = self
-            .context()?
-            .scope_stack()
-            .local(SELF)
-            .expect("self should always be declared in methods and constructors.")
-            .slot as u8;
-        self.assembler()?.load_local(local_slot, node.span);
+        self.assembler()?.load_local(RECEIVER_SLOT, node.span);
 
         if node.args.len() > u8::MAX as usize {
             return Err(Error::new(TOO_MANY_CALL_ARGUMENTS).with_span(node.span));
diff --git a/dice-compiler/src/visitor/mod.rs b/dice-compiler/src/visitor/mod.rs
index 1250b42..1d54e27 100644
--- a/dice-compiler/src/visitor/mod.rs
+++ b/dice-compiler/src/visitor/mod.rs
@@ -39,6 +39,9 @@ mod syntax_node;
 use dice_core::error::Error;
 pub use expr_block::{BlockKind, FunctionBlockKind};
 
+/// The slot the calling convention places the receiver of methods and constructors in.
+pub(super) const RECEIVER_SLOT: u8 = 0;
+
 pub(super) trait NodeVisitor<T> {
     fn visit(&mut self, node: T) -> Result<(), Error>;
 }
-- 
2.43.0


From 7e1eefee9e76ed9ed1c0af358d828372d4b41cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:21 +0000
Subject: [PATCH 27/31] fix: let destructured variables be assigned where they
 are declared mutable

---
 dice-compiler/src/visitor/decl_var.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-compiler/src/visitor/decl_var.rs b/dice-compiler/src/visitor/decl_var.rs
index c66f05a..3f0b64c 100644
--- a/dice-compiler/src/visitor/decl_var.rs
+++ b/dice-compiler/src/visitor/decl_var.rs
@@ -53,7 +53,7 @@ impl Compiler {
                 let slot = self
                     .context()?
                     .scope_stack()
-                    .add_local(item.clone(), State::initialized(false))
+                    .add_local(item.clone(), State::initialized(var_decl.is_mutable))
                     .with_span(|| var_decl.span)?;
 
                 Ok((item.as_str(), slot as u8))
-- 
2.43.0


From 5890281565fb3e7cd68965d25be509275b5119a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 28/31] fix: number each source line of a trace by itself

---
 dice-core/src/error/fmt.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dice-core/src/error/fmt.rs b/dice-core/src/error/fmt.rs
index 75fb5e8..3511aaf 100644
--- a/dice-core/src/error/fmt.rs
+++ b/dice-core/src/error/fmt.rs
@@ -152,6 +152,8 @@ impl HumanReadableErrorFormatter {
                 }
 
                 for line in trace.source.line_index().lines(trace.span) {
+                    let position = trace.source.line_index().position_of(line.start);
+
                     writeln!(
                         buffer,
                         "    {:<4} | {}",
-- 
2.43.0


From 9d2a9ae4eb266297889052ec571a28ddcd8ad556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:25 +0000
Subject: [PATCH 29/31] fix: give existing modules and globals error codes and
 messages of their own

---
 data/locales/en-US/errors.ftl | 4 +++-
 dice-core/src/error/codes.rs  | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/data/locales/en-US/errors.ftl b/data/locales/en-US/errors.ftl
index deeb019..05f2712 100644
--- a/data/locales/en-US/errors.ftl
+++ b/data/locales/en-US/errors.ftl
@@ -74,4 +74,6 @@ E3402 = Classes cannot inherit from value types.
 # System errors
 E4000 = A panic has occurred. {$message}
 E4001 = IO error occurred. {$message}
-E4002 = Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}
\ No newline at end of file
+E4002 = Modules cannot be loaded from outside the modules directory. Module must be inside of {$directory}
+E4003 = The module {$name} already exists.
+E4004 = The global {$name} already exists.
diff --git a/dice-core/src/error/codes.rs b/dice-core/src/error/codes.rs
index cea99fb..f94b14a 100644
--- a/dice-core/src/error/codes.rs
+++ b/dice-core/src/error/codes.rs
@@ -77,4 +77,4 @@ pub static PANIC: ErrorCode = "E4000";
 pub static IO_ERROR: ErrorCode = "E4001";
 pub static INVALID_SCRIPT_LOCATION: ErrorCode = "E4002";
 pub static MODULE_ALREADY_EXISTS: ErrorCode = "E4003";
-pub static GLOBAL_ALREADY_EXISTS: ErrorCode = "E4002";
+pub static GLOBAL_ALREADY_EXISTS: ErrorCode = "E4004";
-- 
2.43.0


From f93a1e31b0d6737f314791ab45597ad78fd39d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:28 +0000
Subject: [PATCH 30/31] fix: give derived classes static members of their own

---
 dice-runtime/src/value/object.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dice-runtime/src/value/object.rs b/dice-runtime/src/value/object.rs
index 6755cd5..6f9334d 100644
--- a/dice-runtime/src/value/object.rs
+++ b/dice-runtime/src/value/object.rs
@@ -36,7 +36,7 @@ impl<'gc> Object<'gc> {
                 ctx.mutation,
                 ObjectInner {
                     class: self.inner.class.clone(),
-                    fields: self.inner.fields.clone(),
+                    fields: Gc::new(ctx.mutation, RefLock::new(self.inner.fields.borrow().clone())),
                 },
             ),
         }
-- 
2.43.0


From 86b16162e5de2e7ea937d094720c536baf29d7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:22 +0000
Subject: [PATCH 31/31] fix: compare arrays by identity, so that comparing
 cyclic ones ends

---
 dice-runtime/src/value/array.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/dice-runtime/src/value/array.rs b/dice-runtime/src/value/array.rs
index 48cc388..9dac92f 100644
--- a/dice-runtime/src/value/array.rs
+++ b/dice-runtime/src/value/array.rs
@@ -10,7 +10,7 @@ use crate::{
     value::{Object, Value},
 };
 
-#[derive(Clone, PartialEq, Collect)]
+#[derive(Clone, Collect)]
 #[collect(no_drop)]
 pub struct Array<'gc> {
     inner: Gc<'gc, ArrayInner<'gc>>,
@@ -46,6 +46,12 @@ impl<'gc> Array<'gc> {
     }
 }
 
+impl PartialEq for Array<'_> {
+    fn eq(&self, other: &Self) -> bool {
+        self.inner.object == other.inner.object
+    }
+}
+
 // impl Display for Array<'_> {
 //     fn fmt(&self, fmt: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
 //         let items = self
@@ -69,7 +75,7 @@ impl<'gc> Deref for Array<'gc> {
     }
 }
 
-#[derive(Clone, PartialEq, Collect)]
+#[derive(Clone, Collect)]
 #[collect(no_drop)]
 struct ArrayInner<'gc> {
     array: Gc<'gc, RefLock<Vec<Value<'gc>>>>,
-- 
2.43.0

