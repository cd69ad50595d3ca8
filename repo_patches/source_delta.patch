From 8fecdd6473abf7530d23a059d7a706f85a855b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:33 +0000
Subject: [PATCH 01/75] fix: keep the source grouping when printing C
 expressions

---
 src/format_c.rs | 45 ++++++++++++++++++++++++++++++---------------
 1 file changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/format_c.rs b/src/format_c.rs
index 9747409..77ec32f 100644
--- a/src/format_c.rs
+++ b/src/format_c.rs
@@ -142,7 +142,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
                 s1 += &fmt_expr(&argument);
             }
             s1 += ")";
-            return format!("{}{}", fmt_expr(&function), s1);
+            return format!("{}{}", fmt_postfix_target(&function), s1);
         }
         Expr::Literal(x) => format_literal(x),
         Expr::Ident(x) => x.clone(),
@@ -185,15 +185,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
             target,
             field_name,
         } => {
-            match is_op(target) {
-                Some(targetop) => {
-                    if parser::operator_strength(&targetop) < parser::operator_strength(op) {
-                        return format!("({}){}{}", fmt_expr(target), op, field_name);
-                    }
-                }
-                None => {}
-            }
-            return format!("{}{}{}", fmt_expr(target), op, field_name);
+            return format!("{}{}{}", fmt_postfix_target(target), op, field_name);
         }
         Expr::BinaryOp(x) => format_binary_op(&x),
         Expr::PrefixOp { operator, operand } => {
@@ -220,18 +212,31 @@ pub fn fmt_expr(expr: &Expr) -> String {
                         fmt_expr(&operand)
                     )
                 ),
+                // Keep nested prefix operators apart: -(-x) is not --x.
+                Expr::PrefixOp { .. } => format!("{}({})", operator, fmt_expr(expr)),
                 _ => format!("{}{}", operator, fmt_expr(&operand)),
             };
         }
         Expr::PostfixOp { operator, operand } => {
-            return fmt_expr(&operand) + &operator;
+            return fmt_postfix_target(&operand) + &operator;
         }
         Expr::ArrayIndex { array, index } => {
-            return format!("{}[{}]", fmt_expr(array), fmt_expr(index));
+            return format!("{}[{}]", fmt_postfix_target(array), fmt_expr(index));
         }
     }
 }
 
+// Formats the operand of a postfix operation: a call, an index, a field access
+// or a postfix operator. Anything that binds weaker has to be wrapped.
+fn fmt_postfix_target(e: &Expr) -> String {
+    match e {
+        Expr::BinaryOp(_) | Expr::PrefixOp { .. } | Expr::Cast { .. } => {
+            format!("({})", fmt_expr(e))
+        }
+        _ => fmt_expr(e),
+    }
+}
+
 fn fmt_bare_typeform(node: &BareTypeform) -> String {
     format_type(&node.typename) + &"*".repeat(node.hops)
 }
@@ -254,10 +259,15 @@ fn is_op(e: &Expr) -> Option<String> {
 
 fn format_binary_op(x: &c::BinaryOp) -> String {
     let op = &x.op;
-    let fmtop = |a: &Expr| {
+    let fmtop = |a: &Expr, is_right: bool| {
         if let Some(k) = is_op(a) {
+            let operand_strength = parser::operator_strength(&k);
+            let strength = parser::operator_strength(op);
             // Wrap weaker operands in braces to keep precedence.
-            if parser::operator_strength(&k) < parser::operator_strength(op)
+            if operand_strength < strength
+				// Wrap right operands of the same strength to keep grouping:
+				// a - (b - c) is not a - b - c.
+                || (is_right && operand_strength == strength)
 				// Wrap these bit ops too even when precedence is ok
 				// because compilers are getting paranoid.
                 || op == "&"
@@ -269,7 +279,12 @@ fn format_binary_op(x: &c::BinaryOp) -> String {
         }
         fmt_expr(a)
     };
-    format!("{} {} {}", fmtop(&x.a), op.clone(), fmtop(&x.b))
+    format!(
+        "{} {} {}",
+        fmtop(&x.a, false),
+        op.clone(),
+        fmtop(&x.b, true)
+    )
 }
 
 fn indent(text: &str) -> String {
-- 
2.43.0


From 062e5f32ade8196cd81e93a6025d8c4aa3871457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:33 +0000
Subject: [PATCH 02/75] fix: result types of additions with constants and of
 bool comparisons

---
 src/types.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 1bb33c1..9c827ac 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -205,7 +205,7 @@ pub fn typeof_plusminus(op: &str, a: &Type, b: &Type) -> Result<Type, String> {
 
         // const + T = T
         (_, Class::CONSTNUM, Class::SINT | Class::UINT | Class::FLT) => Ok(b.clone()),
-        (_, Class::SINT | Class::UINT | Class::FLT, Class::CONSTNUM) => Ok(b.clone()),
+        (_, Class::SINT | Class::UINT | Class::FLT, Class::CONSTNUM) => Ok(a.clone()),
 
         // todo + T = todo
         (_, Class::UNK, _) => Ok(a.clone()),
@@ -216,7 +216,9 @@ pub fn typeof_plusminus(op: &str, a: &Type, b: &Type) -> Result<Type, String> {
 
         // ptr + any int = ptr
         (_, Class::PTR | Class::ARR, Class::CONSTNUM | Class::SINT | Class::UINT) => Ok(a.clone()),
-        (_, Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(a.clone()),
+        ("+", Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => {
+            Ok(b.clone())
+        }
 
         _ => Err(format!(
             "'{}' operation between {} and {}",
@@ -235,7 +237,7 @@ pub fn typeof_cmp(a: &Type, b: &Type) -> Result<Type, String> {
         (Class::SINT, Class::SINT) => Ok(just("bool")),
         (Class::UINT, Class::UINT) => Ok(just("bool")),
         (Class::CHAR, Class::CHAR) => Ok(just("bool")),
-        (Class::BOOL, Class::BOOL) => Ok(just("boo")),
+        (Class::BOOL, Class::BOOL) => Ok(just("bool")),
 
         // num == const
         (Class::FLT | Class::SINT | Class::UINT, Class::CONSTNUM) => Ok(just("bool")),
-- 
2.43.0


From 0befd042fff156b8d3cae5eb774e75dd8038fe4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:33 +0000
Subject: [PATCH 03/75] fix: translate <<= and >>= instead of crashing

---
 src/translator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index bf7d265..603fd91 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -749,7 +749,9 @@ fn tr_binary_op(x: &nodes::BinaryOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>,
         "==" | "<" | ">" | "!=" | ">=" | "<=" => types::typeof_cmp(&at, &bt),
         "-" | "+" => types::typeof_plusminus(x.op.as_str(), &at, &bt),
         "*" | "/" | "%" | "<<" | ">>" | "&" | "|" | "^" => types::typeof_arith(&at, &bt),
-        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" => Ok(types::just("void")),
+        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" | "<<=" | ">>=" => {
+            Ok(types::just("void"))
+        }
         _ => {
             todo!("{} binop", x.op);
         }
-- 
2.43.0


From ff51b33b7e128cbe7182a2b0bf247095f618bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:34 +0000
Subject: [PATCH 04/75] fix: evaluate the value of a string switch once and
 allow empty string switches

---
 src/translator.rs | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 603fd91..77d9243 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1364,13 +1364,47 @@ fn mk_str_switch(x: &nodes::Switch, ctx: &mut TrCtx) -> Result<c::Statement, Bui
     let value = &x.value;
     let cases = &x.cases;
     let default = &x.default_case;
-    let switchval = tr_expr(value, ctx)?.val;
+    let value = tr_expr(value, ctx)?.val;
+
+    if cases.len() == 0 {
+        let mut statements = vec![c::Statement::Expression(c::Expr::Cast {
+            type_name: c::BareTypeform {
+                typename: c::Typename {
+                    is_const: false,
+                    name: String::from("void"),
+                },
+                hops: 0,
+            },
+            operand: Box::new(value),
+        })];
+        if let Some(x) = default {
+            statements.append(&mut tr_body(x, ctx)?.statements);
+        }
+        return Ok(c::Statement::Block { statements });
+    }
 
+    // Store the value so that it's evaluated only once.
+    let switchval = mk_id("_switchval");
+    let valdecl = c::Statement::VarDecl {
+        type_name: c::Typename {
+            is_const: true,
+            name: String::from("char"),
+        },
+        forms: vec![c::Form {
+            stars: String::from("*"),
+            name: String::from("_switchval"),
+            indexes: vec![],
+        }],
+        values: vec![Some(value)],
+    };
     let c0 = &cases[0];
-    Ok(c::Statement::If {
+    let chain = c::Statement::If {
         condition: mk_switchstr_cond(ctx, c0, &switchval)?,
         body: tr_body(&c0.body, ctx)?,
         else_body: mk_switchstr_else(cases, 1, default, ctx, &switchval)?,
+    };
+    Ok(c::Statement::Block {
+        statements: vec![valdecl, chain],
     })
 }
 
-- 
2.43.0


From 133a4f5d9da1846b83c6224bf931178305ad1882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:18 +0000
Subject: [PATCH 05/75] fix: export a function that has a parameter with the
 function's own name

---
 src/translator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index 77d9243..a420d70 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -691,7 +691,9 @@ fn tr_form(x: &nodes::Form, ctx: &mut TrCtx, publishable: bool) -> Result<c::For
         })
     }
 
-    let b = find_binding(ctx, &x.name);
+    // Only module-level names are publishable, so skip the inner scopes:
+    // a function may have a parameter with the same name.
+    let b = ctx.scopes[0].iter().find(|b| b.name == x.name);
     let name = if publishable && b.is_some() && b.unwrap().ispub && x.name != "main" {
         nsprefix(&ctx.this_mod_head.uniqid, &x.name)
     } else {
-- 
2.43.0


From 32b10699df7013ac4bf8186d8556eccd39205a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:38 +0000
Subject: [PATCH 06/75] fix: treat a module imported through different
 directories as one module

---
 src/resolve.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index c4f295a..ba522a4 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,5 +1,5 @@
 use std::env;
-use std::path::Path;
+use std::path::{Component, Path, PathBuf};
 use substring::Substring;
 
 #[derive(Clone, Debug)]
@@ -23,7 +23,7 @@ pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String>
     // it inside the lib directory.
     let path = if name.ends_with(".c") {
         let p = Path::new(base_path).parent().unwrap().join(name);
-        String::from(p.to_str().unwrap())
+        String::from(squash(&p).to_str().unwrap())
     } else {
         format!("{}/lib/{}.c", homepath(), name)
     };
@@ -35,6 +35,26 @@ pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String>
     return Ok(ModuleRef { path, ns });
 }
 
+// Removes "." and "dir/.." parts so that the same file always gets the same path,
+// no matter where it's imported from.
+fn squash(p: &Path) -> PathBuf {
+    let mut r = PathBuf::new();
+    for c in p.components() {
+        match (c, r.components().last()) {
+            (Component::ParentDir, Some(Component::Normal(_))) => {
+                r.pop();
+            }
+            (Component::CurDir, _) => {}
+            _ => r.push(c),
+        }
+    }
+    // Keep the original path if there are symlinks that make a difference.
+    match (std::fs::canonicalize(&r), std::fs::canonicalize(p)) {
+        (Ok(a), Ok(b)) if a == b => r,
+        _ => p.to_path_buf(),
+    }
+}
+
 pub fn basename(s: &str) -> String {
     return s.split("/").last().unwrap().to_string();
 }
-- 
2.43.0


From a7d8ccc9dad2f635e1c4c14c946bdb162aced07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:48 +0000
Subject: [PATCH 07/75] fix: report duplicate definitions instead of crashing

---
 src/translator.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index a420d70..3897fe8 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -184,10 +184,20 @@ fn mark_binding_use(ctx: &mut TrCtx, name: &str) -> bool {
     };
 }
 
-fn add_binding(ctx: &mut TrCtx, name: &str, pos: Pos, ispub: bool, t: types::Type) {
+fn add_binding(
+    ctx: &mut TrCtx,
+    name: &str,
+    pos: Pos,
+    ispub: bool,
+    t: types::Type,
+) -> Result<(), BuildError> {
     let n = ctx.scopes.len();
-    if ctx.scopes[n - 1].iter().any(|x| x.name == name) {
-        panic!("{} was already defined at ???", name);
+    if let Some(x) = ctx.scopes[n - 1].iter().find(|x| x.name == name) {
+        return Err(BuildError {
+            path: ctx.this_mod_head.filepath.clone(),
+            pos: pos.fmt(),
+            message: format!("{} is already defined at {}", name, x.pos.fmt()),
+        });
     }
     ctx.scopes[n - 1].push(Binding {
         name: String::from(name),
@@ -196,6 +206,7 @@ fn add_binding(ctx: &mut TrCtx, name: &str, pos: Pos, ispub: bool, t: types::Typ
         ispub,
         typ: t,
     });
+    Ok(())
 }
 
 // fn addtype(ctx: &mut TrCtx, name: &str, ispub: bool, typ: Type) {
@@ -248,12 +259,12 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                     } else {
                         types::todo()
                     };
-                    add_binding(&mut ctx, &id, x.pos.clone(), false, typ);
+                    add_binding(&mut ctx, &id, x.pos.clone(), false, typ)?;
                 }
             }
             nodes::ModElem::Enum(x) => {
                 for e in &x.entries {
-                    add_binding(&mut ctx, &e.name, x.pos.clone(), x.is_pub, types::number());
+                    add_binding(&mut ctx, &e.name, x.pos.clone(), x.is_pub, types::number())?;
                 }
             }
             nodes::ModElem::StructAlias(x) => {
@@ -284,12 +295,12 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                     x.pos.clone(),
                     false,
                     typefrom_typename(&x.typename, &x.form),
-                );
+                )?;
             }
             nodes::ModElem::FuncDecl(x) => {
                 let ispub = x.ispub || x.form.name == "main";
                 let typ = typefrom_funcdecl(&x);
-                add_binding(&mut ctx, &x.form.name, x.pos.clone(), ispub, typ);
+                add_binding(&mut ctx, &x.form.name, x.pos.clone(), ispub, typ)?;
             }
         }
     }
@@ -1045,7 +1056,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
                 f.pos.clone(),
                 false,
                 typefrom_typename(&p.typename, &f),
-            );
+            )?;
         }
     }
 
@@ -1255,7 +1266,7 @@ fn tr_for(x: &nodes::For, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
                     form.pos.clone(),
                     false,
                     typefrom_typename(&type_name, &form),
-                );
+                )?;
                 c::ForInit::DeclLoopCounter(c::VarDecl {
                     typename: tr_typename(type_name, ctx)?,
                     form: tr_form(form, ctx, false)?,
@@ -1472,7 +1483,7 @@ fn tr_vardecl(x: &nodes::VarDecl, ctx: &mut TrCtx) -> Result<c::Statement, Build
         x.form.pos.clone(),
         false,
         typefrom_typename(&x.typename, &x.form),
-    );
+    )?;
     Ok(c::Statement::VarDecl {
         type_name: tr_typename(&x.typename, ctx)?,
         forms: vec![tr_form(&x.form, ctx, false)?],
-- 
2.43.0


From 340366f6223d841caaed8603bb55ed99cd4cd53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:00:43 +0000
Subject: [PATCH 08/75] fix: report truncated and malformed sources instead of
 hanging or crashing

---
 src/lexer.rs      | 10 ++++++----
 src/parser.rs     | 44 ++++++++++++++++++++++++++++----------------
 src/preparser.rs  | 15 ++++++++-------
 src/translator.rs |  4 ++--
 4 files changed, 44 insertions(+), 29 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ab5b1a6..2c0b843 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -121,7 +121,7 @@ fn read_number(buf: &mut Buf) -> Token {
 
     if buf.more() && (buf.peek().unwrap() == 'e' || buf.peek().unwrap() == 'E') {
         num += &buf.get().unwrap().to_string();
-        if buf.peek().unwrap() == '-' {
+        if buf.peek() == Some('-') {
             num += &buf.get().unwrap().to_string();
         }
         num += &buf.read_set(digits.to_string());
@@ -170,7 +170,7 @@ fn read_string_literal(buf: &mut Buf) -> Token {
         while buf.more() && buf.peek().unwrap() != '"' {
             let ch = buf.get().unwrap();
             substr += &ch.to_string();
-            if ch == '\\' {
+            if ch == '\\' && buf.more() {
                 substr += &buf.get().unwrap().to_string();
             }
         }
@@ -232,8 +232,10 @@ fn read_char_literal(buf: &mut Buf) -> Token {
         s.push(buf.get().unwrap());
     }
 
-    s.push(buf.get().unwrap());
-    if buf.get().unwrap() != '\'' {
+    if buf.more() {
+        s.push(buf.get().unwrap());
+    }
+    if buf.get() != Some('\'') {
         return Token {
             kind: "error".to_string(),
             content: "Single quote expected".to_string(),
diff --git a/src/parser.rs b/src/parser.rs
index ba65467..75d14ed 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -162,7 +162,7 @@ fn parse_module_object(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<ModE
     }
     let type_name = parse_typename(l, ctx)?;
     let form = parse_form(l, ctx)?;
-    if l.peek().unwrap().kind == "(" {
+    if l.follows("(") {
         let r = parse_function_declaration(l, is_pub, type_name, form, ctx, pos)?;
         return Ok(TWithErrors {
             obj: r.obj,
@@ -226,6 +226,12 @@ fn parse_seq_expr(l: &mut Lexer, strength: usize, ctx: &ParseCtx) -> Result<Expr
 }
 
 fn parse_prefix_expr(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
+    if !l.more() {
+        return Err(Error {
+            message: String::from("expression expected, got end of file"),
+            pos: l.pos(),
+        });
+    }
     let token = l.get().unwrap();
 
     // *{we are here}*foo
@@ -242,7 +248,7 @@ fn parse_prefix_expr(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
     // cast
     // * (foo_t)x
     if next == "("
-        && l.peek().unwrap().kind == "word"
+        && l.follows("word")
         && is_type(l.peek().unwrap().content.as_str(), &ctx.thismod.typedefs)
     {
         let typeform = parse_bare_typeform(l, ctx)?;
@@ -432,8 +438,8 @@ fn read_expression_atom(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
 
 fn is_op(token_type: &str) -> bool {
     let ops = [
-        "+", "-", "*", "/", "=", "|", "&", "~", "^", "<", ">", "%", "+=", "-=", "*=", "/=", "%=",
-        "&=", "^=", "|=", "++", "--", "->", ".", ">>", "<<", "<=", ">=", "&&", "||", "==", "!=",
+        "+", "-", "*", "/", "=", "|", "&", "^", "<", ">", "%", "+=", "-=", "*=", "/=", "%=",
+        "&=", "^=", "|=", "->", ".", ">>", "<<", "<=", ">=", "&&", "||", "==", "!=",
         "<<=", ">>=",
     ];
     return ops.contains(&token_type);
@@ -557,6 +563,12 @@ fn parse_anonymous_parameters(l: &mut Lexer, ctx: &ParseCtx) -> Result<Anonymous
 }
 
 fn parse_literal(l: &mut Lexer) -> Result<Literal, Error> {
+    if !l.more() {
+        return Err(Error {
+            message: String::from("literal expected, got end of file"),
+            pos: l.pos(),
+        });
+    }
     let next = l.peek().unwrap();
     if next.kind == "string".to_string() {
         let value = l.get().unwrap().content;
@@ -618,13 +630,11 @@ fn parse_composite_literal(l: &mut Lexer, ctx: &ParseCtx) -> Result<CompLiteral,
     };
     expect(l, "{", Some("composite literal"))?;
     loop {
-        if l.peek().unwrap().kind == "}" {
+        if l.follows("}") {
             break;
         }
         result.entries.push(parse_composite_literal_entry(l, ctx)?);
-        if l.peek().unwrap().kind == "," {
-            l.get();
-        } else {
+        if !l.eat(",") {
             break;
         }
     }
@@ -636,7 +646,7 @@ fn parse_composite_literal_entry(
     l: &mut Lexer,
     ctx: &ParseCtx,
 ) -> Result<CompositeLiteralEntry, Error> {
-    if l.peek().unwrap().kind == "." {
+    if l.follows(".") {
         expect(l, ".", Some("struct literal member"))?;
         let tok = expect(l, "word", Some("struct literal entry - identifier"))?;
         expect(l, "=", Some("struct literal member"))?;
@@ -788,8 +798,7 @@ fn parse_variable_declaration(l: &mut Lexer, ctx: &ParseCtx) -> Result<Statement
 
 fn parse_return(l: &mut Lexer, ctx: &ParseCtx) -> Result<Statement, Error> {
     expect(l, "return", None)?;
-    if l.peek().unwrap().kind == ";" {
-        l.get();
+    if l.eat(";") {
         return Ok(Statement::Return(nodes::Return { expression: None }));
     }
     let expression = parse_expr(l, 0, ctx)?;
@@ -807,7 +816,7 @@ fn parse_form(l: &mut Lexer, ctx: &ParseCtx) -> Result<Form, Error> {
         hops: 0,
         name: String::new(),
         indexes: vec![],
-        pos: l.peek().unwrap().pos.clone(),
+        pos: l.peek().map(|t| t.pos.clone()).unwrap_or(Pos { line: 0, col: 0 }),
     };
 
     while l.follows("*") {
@@ -877,7 +886,7 @@ fn parse_for(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>, Er
     let init: Option<ForInit>;
     if l.follows(";") {
         init = None;
-    } else if l.peek().unwrap().kind == "word"
+    } else if l.follows("word")
         && is_type(&l.peek().unwrap().content, &ctx.thismod.typedefs)
     {
         let type_name = parse_typename(l, ctx)?;
@@ -1078,7 +1087,7 @@ fn read_body(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Body>, Error>
     let mut statements: Vec<Statement> = Vec::new();
     let mut errors = Vec::new();
     expect(l, "{", None)?;
-    while !l.follows("}") {
+    while l.more() && !l.follows("}") {
         match parse_statement(l, ctx) {
             Ok(s) => {
                 statements.push(s.obj);
@@ -1178,7 +1187,10 @@ fn parse_typedef(is_pub: bool, l: &mut Lexer, ctx: &ParseCtx) -> Result<ModElem,
     if l.follows("[") {
         l.get();
         let num = expect(l, "num", None)?;
-        size = num.content.parse().unwrap();
+        size = num.content.parse().map_err(|_| Error {
+            message: format!("invalid array size: {}", num.content),
+            pos: num.pos.clone(),
+        })?;
         expect(l, "]", None)?;
     }
     expect(l, ";", Some("typedef"))?;
@@ -1226,7 +1238,7 @@ fn token_to_string(token: &Token) -> String {
     let n = 40;
     let mut c: String;
     if token.content.len() > n {
-        c = token.content[0..(n - 3)].to_string() + "...";
+        c = token.content.chars().take(n - 3).collect::<String>() + "...";
     } else {
         c = token.content.to_string();
     }
diff --git a/src/preparser.rs b/src/preparser.rs
index ee39067..e9fc0f8 100644
--- a/src/preparser.rs
+++ b/src/preparser.rs
@@ -39,7 +39,7 @@ pub fn preparse(path: &str) -> Result<ModuleInfo, String> {
                     // The special #type hint declares that a type name exists
                     // without defining it. These hints are needed in modules
                     // that interface with the OS headers.
-                    if t.kind == "macro" && t.content.starts_with("#type") {
+                    if t.kind == "macro" && t.content.starts_with("#type ") {
                         let name = t.content[6..].trim().to_string();
                         typenames.push(name);
                     }
@@ -65,8 +65,8 @@ fn get_typename(lexer: &mut Lexer) -> Result<String, String> {
     // typedef struct foo bar;
 
     if lexer.follows("{") {
-        skip_brackets(lexer);
-        let name = expect(lexer, "word", None).unwrap().content;
+        skip_brackets(lexer)?;
+        let name = expect(lexer, "word", None)?.content;
         expect(lexer, ";", None)?;
         return Ok(name);
     }
@@ -115,11 +115,11 @@ fn get_typename(lexer: &mut Lexer) -> Result<String, String> {
     return Ok(name.unwrap());
 }
 
-fn skip_brackets(lexer: &mut Lexer) {
-    expect(lexer, "{", None).unwrap();
+fn skip_brackets(lexer: &mut Lexer) -> Result<(), String> {
+    expect(lexer, "{", None)?;
     while lexer.more() {
         if lexer.follows("{") {
-            skip_brackets(lexer);
+            skip_brackets(lexer)?;
             continue;
         }
         if lexer.follows("}") {
@@ -127,7 +127,8 @@ fn skip_brackets(lexer: &mut Lexer) {
         }
         lexer.get();
     }
-    expect(lexer, "}", None).unwrap();
+    expect(lexer, "}", None)?;
+    Ok(())
 }
 
 fn expect(lexer: &mut Lexer, kind: &str, comment: Option<&str>) -> Result<Token, String> {
diff --git a/src/translator.rs b/src/translator.rs
index 3897fe8..d6a2e60 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -252,8 +252,8 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                 } else if x.name == "define" {
                     let def = x.value.clone();
                     let mut parts = def.trim().split_whitespace();
-                    let id = parts.next().unwrap();
-                    let val = parts.next().unwrap();
+                    let id = parts.next().unwrap_or("");
+                    let val = parts.next().unwrap_or("");
                     let typ = if is_numeric(&val) {
                         types::number()
                     } else {
-- 
2.43.0


From f3149c48771665eee837f41266834af137815500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:02 +0000
Subject: [PATCH 09/75] fix: translate index expressions in array literals

---
 src/translator.rs | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index d6a2e60..a419b62 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -915,18 +915,19 @@ fn tr_comp_literal(x: &nodes::CompLiteral, ctx: &mut TrCtx) -> Result<Typed<c::E
     let mut entries = Vec::new();
     for e in &x.entries {
         let key = match &e.key {
-            Some(x) => match x {
-                nodes::Expr::NsName(ns_name) => {
-                    if ns_name.ns != "" {
-                        panic!("expected field name")
-                    }
-                    Some(c::Expr::Ident(ns_name.name.clone()))
-                }
-                _ => {
-                    dbg!(x);
-                    panic!("unexpected entry");
-                }
-            },
+            // [<index>] = <...>
+            Some(x) if e.is_index => Some(tr_expr(x, ctx)?.val),
+            // .<field> = <...>
+            Some(nodes::Expr::NsName(ns_name)) if ns_name.ns == "" => {
+                Some(c::Expr::Ident(ns_name.name.clone()))
+            }
+            Some(x) => {
+                return Err(BuildError {
+                    message: String::from("expected field name"),
+                    path: ctx.this_mod_head.filepath.clone(),
+                    pos: expression_pos(x).fmt(),
+                })
+            }
             None => None,
         };
         let val = tr_expr(&e.value, ctx)?;
-- 
2.43.0


From f3756b31d5f95ba8fefa92b7d042645f11e4f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:37 +0000
Subject: [PATCH 10/75] fix: report a type name used as a value instead of
 crashing

---
 src/translator.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index a419b62..b07f9b1 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1170,8 +1170,11 @@ fn tr_nsid_in_expr(x: &nodes::NsName, ctx: &mut TrCtx) -> Result<Typed<String>,
         } else if let Some(s) = cspec::find_sym(&x.name) {
             s.t.clone()
         } else {
-            dbg!(x);
-            todo!()
+            return Err(BuildError {
+                message: format!("{} can't be used as a value", x.name),
+                path: ctx.this_mod_head.filepath.clone(),
+                pos: x.pos.fmt(),
+            });
         };
         return Ok(Typed { typ, val });
     }
@@ -1185,7 +1188,11 @@ fn tr_nsid_in_expr(x: &nodes::NsName, ctx: &mut TrCtx) -> Result<Typed<String>,
         match exports.fns.iter().find(|f| f.form.name == x.name) {
             Some(f) => typ = typefrom_funcdecl(&f),
             None => {
-                todo!();
+                return Err(BuildError {
+                    message: format!("{}.{} can't be used as a value", x.ns, x.name),
+                    path: ctx.this_mod_head.filepath.clone(),
+                    pos: x.pos.fmt(),
+                });
             }
         }
     }
-- 
2.43.0


From e790582c86cddb36c42b22daa8bce578d922c3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:44 +0000
Subject: [PATCH 11/75] fix: type of the address of an array

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 9c827ac..322b556 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -146,7 +146,7 @@ pub fn is_todo(x: &Type) -> bool {
 
 pub fn typeof_addr(t: Type) -> Type {
     let mut ops = t.ops;
-    ops.push(TypeOp::Deref);
+    ops.insert(0, TypeOp::Deref);
     Type {
         ops,
         base: nsname(&t.base.ns, &t.base.name),
-- 
2.43.0


From d6189ffe8dabe7620abe655709722d70daf06f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:09 +0000
Subject: [PATCH 12/75] fix: resolve aliases of aliases and aliases in
 conditions

---
 src/translator.rs | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index b07f9b1..3545c9c 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -731,22 +731,27 @@ fn tr_union(x: &nodes::Union, ctx: &mut TrCtx) -> Result<c::CUnion, BuildError>
 }
 
 fn root_type(t: &types::Type, ctx: &TrCtx) -> types::Type {
-    if t.base.ns != "" {
-        return types::todo();
-    }
-    if cspec::has_type(&t.base.name) {
-        return t.clone();
-    }
-    match ctx.other_typedefs.get(t.base.name.as_str()) {
-        Some(b) => {
-            let mut r = b.t.clone();
-            for (i, op) in t.ops.iter().enumerate() {
-                r.ops.insert(i, op.clone());
+    let mut t = t.clone();
+    // An alias may refer to another alias, and there is a limited number of them.
+    for _ in 0..ctx.other_typedefs.len() + 1 {
+        if t.base.ns != "" {
+            return types::todo();
+        }
+        if cspec::has_type(&t.base.name) {
+            return t;
+        }
+        match ctx.other_typedefs.get(t.base.name.as_str()) {
+            Some(b) => {
+                let mut r = b.t.clone();
+                for (i, op) in t.ops.iter().enumerate() {
+                    r.ops.insert(i, op.clone());
+                }
+                t = r;
             }
-            r
+            None => return t, // todo
         }
-        None => t.clone(), // todo
     }
+    t
 }
 
 // <..> <op> <..>
@@ -758,7 +763,7 @@ fn tr_binary_op(x: &nodes::BinaryOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>,
     let bt = root_type(&b.typ, ctx);
 
     let typ = match x.op.as_str() {
-        "||" | "&&" => types::typeof_boolcomp(&a.typ, &b.typ),
+        "||" | "&&" => types::typeof_boolcomp(&at, &bt),
         "==" | "<" | ">" | "!=" | ">=" | "<=" => types::typeof_cmp(&at, &bt),
         "-" | "+" => types::typeof_plusminus(x.op.as_str(), &at, &bt),
         "*" | "/" | "%" | "<<" | ">>" | "&" | "|" | "^" => types::typeof_arith(&at, &bt),
@@ -1288,7 +1293,7 @@ fn tr_for(x: &nodes::For, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
     let condition = match &x.condition {
         Some(x) => {
             let c = tr_expr(&x, ctx)?;
-            if !types::is_booly(&c.typ) {
+            if !types::is_booly(&root_type(&c.typ, ctx)) {
                 return Err(BuildError {
                     message: format!("{} used as condition", &c.typ.fmt()),
                     path: ctx.this_mod_head.filepath.clone(),
@@ -1505,7 +1510,7 @@ fn tr_vardecl(x: &nodes::VarDecl, ctx: &mut TrCtx) -> Result<c::Statement, Build
 // while (...) { ... }
 fn tr_while(x: &nodes::While, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
     let cond = tr_expr(&x.cond, ctx)?;
-    if !types::is_booly(&cond.typ) {
+    if !types::is_booly(&root_type(&cond.typ, ctx)) {
         return Err(BuildError {
             message: format!("{} used as condition", &cond.typ.fmt()),
             path: ctx.this_mod_head.filepath.clone(),
-- 
2.43.0


From f44a4df5353e1ffc4aa5335685fdc8e5065f694e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:10 +0000
Subject: [PATCH 13/75] fix: read numbers with an explicitly positive exponent

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 2c0b843..a3cb3ca 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -121,7 +121,7 @@ fn read_number(buf: &mut Buf) -> Token {
 
     if buf.more() && (buf.peek().unwrap() == 'e' || buf.peek().unwrap() == 'E') {
         num += &buf.get().unwrap().to_string();
-        if buf.peek() == Some('-') {
+        if buf.peek() == Some('-') || buf.peek() == Some('+') {
             num += &buf.get().unwrap().to_string();
         }
         num += &buf.read_set(digits.to_string());
-- 
2.43.0


From 8eba9c61e53cd9515e1ecb74c093b0b5e28f0f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:28 +0000
Subject: [PATCH 14/75] fix: keep numeric escapes apart when joining string
 literal parts

---
 src/lexer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index a3cb3ca..6d48cb5 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -181,6 +181,10 @@ fn read_string_literal(buf: &mut Buf) -> Token {
                 pos,
             };
         }
+        if ends_with_open_escape(&s) && substr.starts_with(|c: char| c.is_ascii_hexdigit()) {
+            // The escape would consume the next part's digits, so keep the parts apart.
+            s += "\" \"";
+        }
         s += &substr;
         buf.read_set(SPACES.to_string());
     }
@@ -191,6 +195,22 @@ fn read_string_literal(buf: &mut Buf) -> Token {
     };
 }
 
+// Returns true if the given string ends with a numeric escape sequence
+// that would be continued by a following digit: "\x1", "\12".
+fn ends_with_open_escape(s: &str) -> bool {
+    let head = s.trim_end_matches(|c: char| c.is_ascii_hexdigit());
+    let digits = s.len() - head.len();
+    let (slashes, open) = match head.strip_suffix('x') {
+        Some(h) => (h, digits > 0),
+        None => (
+            head,
+            (1..=2).contains(&digits) && s[head.len()..].chars().all(|c| c.is_digit(8)),
+        ),
+    };
+    let n = slashes.len() - slashes.trim_end_matches('\\').len();
+    open && n % 2 == 1
+}
+
 fn read_word(buf: &mut Buf) -> Token {
     let pos = buf.pos();
     let mut word = String::new();
-- 
2.43.0


From 305449a7effa98be8a0027029c1dea8cceb2c6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:36 +0000
Subject: [PATCH 15/75] fix: fail on an unknown command

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b3ce8e3..6f3c928 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,7 +53,10 @@ fn main() {
     let cmd = args[1].as_str();
     match SUBCOMMANDS.iter().find(|(name, _, _)| *name == cmd) {
         Some((_, _, func)) => exit(func(&args[2..])),
-        None => usage(),
+        None => {
+            usage();
+            exit(1);
+        }
     };
 }
 
-- 
2.43.0


From 3228518aaca67bd30da1bebcea2129de6f234189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:12 +0000
Subject: [PATCH 16/75] fix: move past unexpected characters so that a bad
 typedef doesn't hang the build

---
 src/lexer.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index 6d48cb5..2401915 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -96,6 +96,8 @@ fn read_token(buf: &mut Buf) -> Option<Token> {
         }
     }
 
+    // Move past the character so that skipping tokens always makes progress.
+    buf.get();
     return Some(Token {
         kind: "error".to_string(),
         content: format!("Unexpected character: '{}'", next),
-- 
2.43.0


From 3d55de15645466fd4d2d901fb008c0085bc0f112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:37 +0000
Subject: [PATCH 17/75] fix: separate parameters of the same type in the
 exports listing

---
 src/main_exports.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main_exports.rs b/src/main_exports.rs
index 7e1545c..09b8da3 100644
--- a/src/main_exports.rs
+++ b/src/main_exports.rs
@@ -50,9 +50,8 @@ fn print_exports(exports: Exports) {
                 }
                 params += &format_che::fmt_typename(&parameter.typename);
                 params += " ";
-                for form in &parameter.forms {
-                    params += &format_che::fmt_form(&form);
-                }
+                let forms: Vec<String> = parameter.forms.iter().map(format_che::fmt_form).collect();
+                params += &forms.join(", ");
             }
             if c.params.ellipsis {
                 params += ", ...";
-- 
2.43.0


From e9e3ffa82b25ef3569a40ea42a06e60d6b461440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:51 +0000
Subject: [PATCH 18/75] fix: don't report success when 256 tests fail

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6f3c928..7f6d5cd 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -52,7 +52,8 @@ fn main() {
     }
     let cmd = args[1].as_str();
     match SUBCOMMANDS.iter().find(|(name, _, _)| *name == cmd) {
-        Some((_, _, func)) => exit(func(&args[2..])),
+        // Only the low 8 bits of the status reach the parent, 256 must not become 0.
+        Some((_, _, func)) => exit(func(&args[2..]).min(255)),
         None => {
             usage();
             exit(1);
-- 
2.43.0


From 172c91dba9e0411244fbd5e165e4def2d6f0a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:49 +0000
Subject: [PATCH 19/75] fix: dereference values of pointer alias types

---
 src/translator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/translator.rs b/src/translator.rs
index 3545c9c..31d22e1 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -806,6 +806,8 @@ fn tr_prefop(x: &nodes::PrefixOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>, Bui
         "!" => Ok(types::just("bool")),
         "-" | "~" => Ok(operand.typ),
         "&" => Ok(types::typeof_addr(operand.typ)),
+        // A value of an alias type may also be a pointer.
+        "*" if operand.typ.ops.is_empty() => types::typeof_deref(&root_type(&operand.typ, ctx)),
         "*" => types::typeof_deref(&operand.typ),
         _ => {
             println!("op type = {}", operand.typ.fmt());
-- 
2.43.0


From 056f27cd1d3a613f4660702ad50c9fcdac262e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:36 +0000
Subject: [PATCH 20/75] fix: types of imported functions are those of their
 module

---
 src/translator.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index 31d22e1..1d55c27 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1193,7 +1193,14 @@ fn tr_nsid_in_expr(x: &nodes::NsName, ctx: &mut TrCtx) -> Result<Typed<String>,
         typ = types::number();
     } else {
         match exports.fns.iter().find(|f| f.form.name == x.name) {
-            Some(f) => typ = typefrom_funcdecl(&f),
+            Some(f) => {
+                let mut t = typefrom_funcdecl(&f);
+                // The type's name is a name in that module.
+                if t.base.ns == "" && !cspec::has_type(&t.base.name) {
+                    t.base.ns = x.ns.clone();
+                }
+                typ = t;
+            }
             None => {
                 return Err(BuildError {
                     message: format!("{}.{} can't be used as a value", x.ns, x.name),
-- 
2.43.0


From 91dbaf1986775f94e120d2edf8119f61d1930ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:58 +0000
Subject: [PATCH 21/75] fix: argument counts of abort, setvbuf, strtof and
 strtold

---
 src/cspec.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cspec.rs b/src/cspec.rs
index 084468d..26900ca 100644
--- a/src/cspec.rs
+++ b/src/cspec.rs
@@ -147,7 +147,7 @@ fn buildmap() -> HashMap<&'static str, CSymbol> {
         f("rename", vec![charp, charp], int), // depr
         f("rewind", vec![filep], void),
         f("scanf", vec![charp, &ellipsis()], int),
-        f("setvbuf", vec![__todo], __todo),
+        f("setvbuf", vec![filep, charp, int, size], int),
         f("snprintf", vec![voidp, size, charp, &ellipsis()], __todo),
         f("sprintf", vec![charp, charp, &ellipsis()], __todo),
         f("sscanf", vec![voidp, charp, &ellipsis()], int),
@@ -168,7 +168,7 @@ fn buildmap() -> HashMap<&'static str, CSymbol> {
         f("tolower", vec![int], int),
         f("toupper", vec![int], int),
         // stdlib
-        f("abort", vec![__todo], void), // depr
+        f("abort", vec![], void), // depr
         f("atof", vec![__todo], __todo),
         f("atoi", vec![__todo], __todo),
         f("atol_l", vec![__todo], __todo),
@@ -181,8 +181,8 @@ fn buildmap() -> HashMap<&'static str, CSymbol> {
         f("qsort", vec![voidp, size, size, __todo], void),
         f("realloc", vec![voidp, size], voidp),
         f("strtod", vec![__todo, __todo], __todo),
-        f("strtof", vec![__todo], __todo),
-        f("strtold", vec![__todo], __todo),
+        f("strtof", vec![__todo, __todo], __todo),
+        f("strtold", vec![__todo, __todo], __todo),
         f("strtoull", vec![__todo, __todo, __todo], __todo),
         // math
         c("M_PI", dbl),
-- 
2.43.0


From d24e1fca207527f71f11286885968ff530b44eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:05 +0000
Subject: [PATCH 22/75] fix: setting the empty key of a map twice

---
 lib/clip/map.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/clip/map.c b/lib/clip/map.c
index b030da6..cd289d2 100644
--- a/lib/clip/map.c
+++ b/lib/clip/map.c
@@ -46,13 +46,12 @@ pub void free(map_t *m) {
 pub void set(map_t *m, uint8_t *key, size_t keysize, void *val) {
 	// Find or create the entry.
 	entry_t *e = find(m, key, keysize);
-	if (!e) e = create(m);
-
-	// Set the key.
-	e->keysize = keysize;
-	e->key = realloc(e->key, e->keysize);
-	if (!e->key) panic("key realloc failed");
-	memcpy(e->key, key, e->keysize);
+	if (!e) {
+		e = create(m);
+		e->keysize = keysize;
+		e->key = calloc!(keysize + 1, 1);
+		memcpy(e->key, key, keysize);
+	}
 
 	// Set the value.
 	memcpy(e->value, val, m->valsize);
-- 
2.43.0


From 1f6c8f94eaf29b167b408a440250aafd5d46ce27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:05 +0000
Subject: [PATCH 23/75] fix: map2 keeps the new value's size and the empty key

---
 lib/clip/map2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/clip/map2.c b/lib/clip/map2.c
index 915b5d5..36b04a2 100644
--- a/lib/clip/map2.c
+++ b/lib/clip/map2.c
@@ -99,6 +99,7 @@ void inner_set(innermap_t *m, slice_t key, val) {
     if (s != NULL) {
         OS.free(s->val.bytes);
         s->val.bytes = clone(val.bytes, val.size);
+        s->val.size = val.size;
         return;
     }
     s = alloc_slot(m, key);
@@ -157,7 +158,7 @@ slot_t *find_slot(innermap_t *m, slice_t key) {
 
     for (size_t i = 0; i < n; i++) {
         slot_t *s = &m->slots[pos];
-        if (s->hash == h && slice_eq(s->key, key)) {
+        if (s->key.bytes != NULL && s->hash == h && slice_eq(s->key, key)) {
             return s;
         }
         pos = (pos + 1) % n;
-- 
2.43.0


From fb0d8b160449cf4ca51ba7d9ddaf6b85feb649fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:05 +0000
Subject: [PATCH 24/75] fix: free the buffer handle

---
 lib/clip/buffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/clip/buffer.c b/lib/clip/buffer.c
index bbd0b8b..a5a87cb 100644
--- a/lib/clip/buffer.c
+++ b/lib/clip/buffer.c
@@ -39,6 +39,7 @@ pub void free(t *b) {
         OS.free(c->data);
         OS.free(c);
     }
+    OS.free(b);
 }
 
 pub size_t size(t *b) {
-- 
2.43.0


From b632b0c68d7249f448fe62779026076d1a40405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:02 +0000
Subject: [PATCH 25/75] fix: a conditional returns only if both its branches do

---
 src/node_queries.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/node_queries.rs b/src/node_queries.rs
index 8bcf896..c9ba7d5 100644
--- a/src/node_queries.rs
+++ b/src/node_queries.rs
@@ -8,7 +8,10 @@ pub fn body_returns(b: &Body) -> bool {
     let last = &b.statements[n - 1];
     return match last {
         Statement::Return { .. } => true,
-        Statement::If(x) => body_returns(&x.body),
+        Statement::If(x) => match &x.else_body {
+            Some(else_body) => body_returns(&x.body) && body_returns(else_body),
+            None => false,
+        },
         Statement::Switch(x) => {
             let default_case = &x.default_case;
             let cases = &x.cases;
@@ -25,10 +28,8 @@ pub fn body_returns(b: &Body) -> bool {
         Statement::While(x) => is_ident(&x.cond, "true") || body_returns(&x.body),
         Statement::Expression(x) => match x {
             Expr::Call(function_call) => {
-                if is_ident(&function_call.func, "panic") {
-                    return true;
-                }
-                return false;
+                return is_ident(&function_call.func, "panic")
+                    || is_ident(&function_call.func, "exit");
             }
             _ => false,
         },
-- 
2.43.0


From 2b86df6915d4f8933a73adccb0209c52d5bb5e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:15 +0000
Subject: [PATCH 26/75] fix: mem.memgetc returns bytes above 127 as they are,
 memprintf stores its output

---
 lib/mem.c | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/lib/mem.c b/lib/mem.c
index ef00eef..cd2e360 100644
--- a/lib/mem.c
+++ b/lib/mem.c
@@ -73,7 +73,7 @@ pub int memgetc(mem_t *m)
 	if(m->pos >= m->datalen) {
 		return EOF;
 	}
-	int c = m->data[m->pos];
+	int c = (uint8_t) m->data[m->pos];
 	m->pos++;
 	return c;
 }
@@ -103,24 +103,21 @@ pub size_t memwrite(mem_t *m, const char *buf, size_t size)
 }
 
 pub int memprintf(mem_t *m, const char *format, ...) {
-	int available = (int) (m->size - m->datalen);
-
 	va_list l = {0};
 	va_start(l, format);
-	int total = vsnprintf(m->data + m->pos, available, format, l);
+	int total = vsnprintf(NULL, 0, format, l);
 	va_end(l);
-
-	/*
-	 * If there was not enough buffer, allocate more and try again.
-	 */
-	if (total >= available) {
-		if (!makespace(m, total + 1)) {
-			return total;
-		}
-		va_start(l, format);
-		total = vsnprintf(m->data + m->pos, available, format, l);
-		va_end(l);
+	if (total < 0) {
+		return total;
 	}
+
+	char *buf = calloc!(total + 1, 1);
+	va_start(l, format);
+	vsnprintf(buf, total + 1, format, l);
+	va_end(l);
+
+	total = (int) memwrite(m, buf, total);
+	free(buf);
 	return total;
 }
 
-- 
2.43.0


From 987390033f1badd46e6cd1b3c9ba92385be8a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:15 +0000
Subject: [PATCH 27/75] fix: linereader does not take the byte 0xFF for the end
 of the file

---
 lib/linereader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/linereader.c b/lib/linereader.c
index 204df28..737534b 100644
--- a/lib/linereader.c
+++ b/lib/linereader.c
@@ -22,7 +22,7 @@ pub bool read(t *b) {
 	}
 	size_t len = 0;
 	while (true) {
-		char c = fgetc(b->f);
+		int c = fgetc(b->f);
 		if (c == EOF) {
 			b->ended = true;
 			break;
-- 
2.43.0


From dfbcc71381d6b31a2388479898098c24049b6da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:15 +0000
Subject: [PATCH 28/75] fix: bits.read1 reports the end of readers that return
 zero there

---
 lib/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bits.c b/lib/bits.c
index 78f7458..7c77a2f 100644
--- a/lib/bits.c
+++ b/lib/bits.c
@@ -63,7 +63,7 @@ pub void closereader(reader_t *r) {
 // Returns -1 if there is no next bit.
 pub int read1(reader_t *s) {
 	if (s->rem == 0) {
-		if (reader.read(s->in, &s->byte, 1) < 0) {
+		if (reader.read(s->in, &s->byte, 1) != 1) {
 			return -1;
 		}
 		s->rem = 8;
-- 
2.43.0


From be77b8e4a28c54b508e4cadddfcbfd7d8f3f26a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:11:15 +0000
Subject: [PATCH 29/75] fix: strbuilder.addf does not cut its output at 999
 bytes

---
 lib/strbuilder.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/strbuilder.c b/lib/strbuilder.c
index 4bd9705..77f6d1b 100644
--- a/lib/strbuilder.c
+++ b/lib/strbuilder.c
@@ -57,12 +57,19 @@ pub bool adds(str *b, const char *s) {
 
 pub bool addf(str *b, const char *format, ...) {
 	if (b->err) return false;
-	char buf[1000] = {};
 	va_list l = {0};
 	va_start(l, format);
-	vsnprintf(buf, sizeof(buf), format, l);
+	int len = vsnprintf(NULL, 0, format, l);
 	va_end(l);
-	return adds(b, buf);
+	if (len < 0) return false;
+
+	char *buf = calloc!(len + 1, 1);
+	va_start(l, format);
+	vsnprintf(buf, len + 1, format, l);
+	va_end(l);
+	bool ok = adds(b, buf);
+	OS.free(buf);
+	return ok;
 }
 
 pub char *str_raw(str *s)
-- 
2.43.0


From 95cd34baa0b76b92b1c762f1225a98e132447ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 30/75] fix: strings.ends_with compares the whole suffix, trim
 trims the same spaces on both sides, split with no room stores nothing

---
 lib/strings.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/strings.c b/lib/strings.c
index 0e0daf7..51d36f0 100644
--- a/lib/strings.c
+++ b/lib/strings.c
@@ -39,7 +39,7 @@ pub void trim(char *s) {
 		memmove(s, &s[left], n);
 		s[n] = '\0';
 	}
-	rtrim(s, " \t\r\n");
+	rtrim(s, " \t\r\n\v\f");
 }
 
 // Trims all characters from the set at the end of string s by inserting zeros.
@@ -59,7 +59,7 @@ pub void rtrim(char *s, *set) {
  * If `str` is null, returns 0.
 */
 pub size_t split(const char *separator, const char *str, char **result, size_t result_size) {
-	if (!str) {
+	if (!str || result_size == 0) {
 		return 0;
 	}
 	size_t count = 0;
@@ -138,11 +138,11 @@ pub bool ends_with(const char *string, *suffix) {
 	while (*x != '\0') x++;
 	while (*y != '\0') y++;
 	while (x > string && y > suffix) {
+		x--;
+		y--;
 		if (*x != *y) {
 			return false;
 		}
-		x--;
-		y--;
 	}
 	return y == suffix;
 }
-- 
2.43.0


From 19847bcd271dcfed8a79b2724f2df39db5db01a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 31/75] fix: tokenizer does not overflow its buffers, looks
 ahead over short reads and takes bytes above 127 for what they are

---
 lib/tokenizer.c | 86 +++++++++++++++++++++++++++++++------------------
 1 file changed, 54 insertions(+), 32 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 7770316..85d0f9b 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -1,4 +1,5 @@
 #import reader
+#import strbuilder
 
 pub typedef {
 	reader.t *reader; // Byte reader.
@@ -11,7 +12,7 @@ pub typedef {
 	size_t cachesize;
 
 	// Buffer for a string with current position.
-	char posstrbuf[10];
+	char posstrbuf[50];
 } t;
 
 // Returns a new instance reading from file f.
@@ -69,7 +70,7 @@ pub void tail(t *b, char *buf, size_t len) {
 	for (size_t i = 0; i < n; i++) {
 		buf[i] = b->cache[i];
 	}
-	buf[len-1] = '\0';
+	buf[n] = '\0';
 }
 
 pub void dbg(t *b) {
@@ -108,14 +109,22 @@ void _track_pos(t *b, int c) {
 }
 
 void _prefetch(t *b, size_t n) {
-	if (b->cachesize >= n) return;
-	size_t len = n - b->cachesize;
-	int r = reader.read(b->reader, b->cache + b->cachesize, len);
-	if (r > 0) b->cachesize += r;
+	if (n > sizeof(b->cache)) n = sizeof(b->cache);
+	while (b->cachesize < n) {
+		int r = reader.read(b->reader, b->cache + b->cachesize, n - b->cachesize);
+		if (r <= 0) break;
+		b->cachesize += r;
+	}
+}
+
+// Returns true if the next character is one of the set.
+bool _set_follows(t *b, const char *set) {
+	int c = peek(b);
+	return c != EOF && c != 0 && strchr(set, c) != NULL;
 }
 
 pub void buf_skip_set(t *b, const char *set) {
-	while (more(b) && strchr(set, peek(b)) != NULL) {
+	while (_set_follows(b, set)) {
 		get(b);
 	}
 }
@@ -124,7 +133,7 @@ pub void buf_skip_set(t *b, const char *set) {
  * Skips one character if it's equal to c.
  */
 pub bool buf_skip(t *b, char c) {
-	if (peek(b) == c) {
+	if (peek(b) == (int) (uint8_t) c) {
 		get(b);
 		return true;
 	}
@@ -132,13 +141,18 @@ pub bool buf_skip(t *b, char c) {
 }
 
 pub char *buf_read_set(t *b, const char *set) {
-	char *s = calloc!(10000, 1);
-	char *p = s;
-	while (more(b) && strchr(set, peek(b)) != NULL) {
-		*p = get(b);
-		p++;
+	strbuilder.str *s = strbuilder.new();
+	while (_set_follows(b, set)) {
+		strbuilder.addc(s, get(b));
 	}
-	return s;
+	return _finish(s);
+}
+
+// Frees the builder and returns its string.
+char *_finish(strbuilder.str *s) {
+	char *r = strbuilder.str_unpack(s);
+	if (!r) r = calloc!(1, 1);
+	return r;
 }
 
 // Skips ASCII spaces.
@@ -184,13 +198,12 @@ pub bool id(t *b, char *buf, size_t n) {
 }
 
 // Reads a C-style floating-point number into buf.
-// Returns false on parse error.
+// Returns false on parse error or if the number doesn't fit into buf.
 pub bool num(t *b, char *buf, size_t n) {
-	(void) n;
-	char *p = buf;
+	size_t pos = 0;
 
 	if (peek(b) == '-') {
-		*p++ = get(b);
+		_take(b, buf, n, &pos);
 	}
 
 	// [digits]
@@ -198,29 +211,29 @@ pub bool num(t *b, char *buf, size_t n) {
 		return false;
 	}
 	while (isdigit(peek(b))) {
-		*p++ = get(b);
+		_take(b, buf, n, &pos);
 	}
 
 	// Optional fractional part
 	if (peek(b) == '.') {
-		*p++ = get(b);
+		_take(b, buf, n, &pos);
 		if (!isdigit(peek(b))) {
 			return false;
 		}
 		while (isdigit(peek(b))) {
-			*p++ = get(b);
+			_take(b, buf, n, &pos);
 		}
 	}
 
 	// Optional exponent
 	int c = peek(b);
 	if (c == 'e' || c == 'E') {
-		*p++ = get(b);
+		_take(b, buf, n, &pos);
 		
 		// Optional - or +
 		c = peek(b);
 		if (c == '-' || c == '+') {
-			*p++ = get(b);
+			_take(b, buf, n, &pos);
 		}
 
 		// Sequence of exponent digits
@@ -228,13 +241,25 @@ pub bool num(t *b, char *buf, size_t n) {
 			return false;
 		}
 		while (isdigit(peek(b))) {
-			*p++ = get(b);
+			_take(b, buf, n, &pos);
 		}
 	}
-	*p++ = '\0';
+	if (pos >= n) {
+		return false;
+	}
+	buf[pos] = '\0';
 	return true;
 }
 
+// Moves the next character to buf[pos] if it fits and advances pos.
+void _take(t *b, char *buf, size_t n, size_t *pos) {
+	int c = get(b);
+	if (*pos < n) {
+		buf[*pos] = c;
+	}
+	*pos = *pos + 1;
+}
+
 // Skips a literal string and returns true.
 // Returns false if the literal does not follow.
 pub bool skip_literal(t *b, const char *literal) {
@@ -275,17 +300,14 @@ pub const char *posstr(t *b) {
 }
 
 pub char *buf_skip_until(t *b, const char *literal) {
-	char *s = calloc!(10000, 1);
-	char *p = s;
-
+	strbuilder.str *s = strbuilder.new();
 	while (more(b)) {
 		if (literal_follows(b, literal)) {
 			break;
 		}
-		*p = get(b);
-		p++;
+		strbuilder.addc(s, get(b));
 	}
-	return s;
+	return _finish(s);
 }
 
 // Reads characters into buf until the character 'until' is encountered
@@ -293,7 +315,7 @@ pub char *buf_skip_until(t *b, const char *literal) {
 // without reaching the character.
 pub bool read_until(t *b, char until, char *buf, size_t len) {
 	size_t pos = 0;
-	while (more(b) && peek(b) != until) {
+	while (more(b) && peek(b) != (int) (uint8_t) until) {
 		if (pos == len-1) {
 			return false;
 		}
-- 
2.43.0


From eb1e755605cf09b46f4300730a352e25d420bda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 32/75] fix: url.parse does not write past its fields

---
 lib/url.c | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/lib/url.c b/lib/url.c
index b592149..56021e8 100644
--- a/lib/url.c
+++ b/lib/url.c
@@ -7,45 +7,60 @@ pub typedef {
     char path[100];
 } t;
 
+// Parses a URL.
+// Returns NULL if s is not a URL or if a part of it is too long.
 pub t *parse(const char *s) {
 	t *r = calloc!(1, sizeof(t));
     tokenizer.t *buf = tokenizer.from_str(s);
 
     // http
-    char *q = r->schema;
+    size_t n = 0;
     while (tokenizer.more(buf) && tokenizer.peek(buf) != ':') {
-        *q++ = tokenizer.get(buf);
+        if (!put(r->schema, &n, sizeof(r->schema), tokenizer.get(buf))) return fail(r, buf);
     }
 
     // ://
     if (tokenizer.get(buf) != ':' || tokenizer.get(buf) != '/' || tokenizer.get(buf) != '/') {
-        tokenizer.free(buf);
-		free(r);
-        return NULL;
+        return fail(r, buf);
     }
 
     // domain or ip address
-    q = r->hostname;
+    n = 0;
     while (tokenizer.more(buf) && tokenizer.peek(buf) != ':' && tokenizer.peek(buf) != '/') {
-        *q++ = tokenizer.get(buf);
+        if (!put(r->hostname, &n, sizeof(r->hostname), tokenizer.get(buf))) return fail(r, buf);
     }
 
-    q = r->port;
+    n = 0;
     if (tokenizer.peek(buf) == ':') {
         tokenizer.get(buf);
         while (tokenizer.more(buf) && tokenizer.peek(buf) != '/') {
-            *q++ = tokenizer.get(buf);
+            if (!put(r->port, &n, sizeof(r->port), tokenizer.get(buf))) return fail(r, buf);
         }
     }
 
-    q = r->path;
-	*q = '/';
+    n = 0;
+	r->path[0] = '/';
     if (tokenizer.peek(buf) == '/') {
         while (tokenizer.more(buf)) {
-            *q++ = tokenizer.get(buf);
+            if (!put(r->path, &n, sizeof(r->path), tokenizer.get(buf))) return fail(r, buf);
         }
     }
 
     tokenizer.free(buf);
     return r;
 }
+
+// Adds c to the string of length n in a zeroed buffer.
+// Returns false if there is no place left.
+bool put(char *buf, size_t *n, size_t size, int c) {
+	if (*n + 1 >= size) return false;
+	buf[*n] = c;
+	*n = *n + 1;
+	return true;
+}
+
+t *fail(t *r, tokenizer.t *buf) {
+	tokenizer.free(buf);
+	free(r);
+	return NULL;
+}
-- 
2.43.0


From 40d62ab062c5b63104fdd0a79730334961a72115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:08 +0000
Subject: [PATCH 33/75] fix: rune strings are searched and copied to their ends

---
 lib/utf.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/utf.c b/lib/utf.c
index 470ab3b..13f299e 100644
--- a/lib/utf.c
+++ b/lib/utf.c
@@ -95,6 +95,7 @@ pub Rune* runestrchr(Rune *s, Rune c) {
 	}
 	while (*s != 0) {
 		if (*s == c) return s;
+		s++;
 	}
 	return 0;
 }
@@ -105,9 +106,9 @@ pub Rune* runestrecpy(Rune *s1, Rune *es1, Rune *s2) {
 	}
 	while (true) {
 		*s1 = *s2;
+		if (!*s2) break;
 		s1++;
 		s2++;
-		if (!*s2) break;
 		if (s1 == es1) {
 			*--s1 = '\0';
 			break;
@@ -159,9 +160,9 @@ pub Rune* runestrncat(Rune *s1, *s2, int32_t n) {
 	s1 = runestrchr(s1, 0);
 	while (true) {
 		*s1 = *s2;
+		if (!*s2) break;
 		s1++;
 		s2++;
-		if (!*s2) break;
 		if (--n < 0) {
 			s1[-1] = 0;
 			break;
@@ -211,9 +212,9 @@ pub Rune *runestrcpy(Rune *s1, *s2) {
 	Rune *os1 = s1;
 	while (true) {
 		*s1 = *s2;
+		if (!*s2) break;
 		s1++;
 		s2++;
-		if (!*s2) break;
 	}
 	return os1;
 }
@@ -221,8 +222,8 @@ pub Rune *runestrcpy(Rune *s1, *s2) {
 pub Rune* runestrncpy(Rune *s1, *s2, int32_t n) {
 	Rune *os1 = s1;
 	for (int i = 0; i < n; i++) {
-		*s1++ = *s2++;
-		if (*s2 == 0) {
+		*s1++ = *s2;
+		if (*s2++ == 0) {
 			while (++i < n) {
 				*s1++ = 0;
 			}
@@ -1616,6 +1617,8 @@ void *nih_memcpy(void *dest, *src, int c, size_t n) {
 		if ((int)*to == c) {
 			return (void *) (to + 1);
 		}
+		to++;
+		from++;
 		n--;
 	}
 	return NULL;
-- 
2.43.0


From 4a417d52ede61783323472ea96552658c7177b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:16 +0000
Subject: [PATCH 34/75] fix: json.parse refuses text after the value

---
 lib/formats/json.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 6f66b11..e689a51 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -232,6 +232,11 @@ pub double numval(val_t *v) {
 pub val_t *parse(const char *s, error.t *err) {
 	tokenizer.t *p = tokenizer.from_str(s);
 	val_t *result = read_node(p, err);
+	if (result && tok_more(p)) {
+		error.set(err, "unexpected character: %c", tok_peek(p));
+		json_free(result);
+		result = NULL;
+	}
 	tokenizer.free(p);
 	return result;
 }
-- 
2.43.0


From e1b81810797be29ecb1604ca32c395b2d4b20718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:44 +0000
Subject: [PATCH 35/75] fix: json.parse decodes the escapes of strings

---
 lib/formats/json.c | 79 +++++++++++++++++++++++++++++++++++++++++++---
 1 file changed, 74 insertions(+), 5 deletions(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index e689a51..844ac73 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -2,6 +2,7 @@
 #import strbuilder
 #import strings
 #import tokenizer
+#import utf
 #import writer
 
 // JSON data is represented as a tree where each node is an object of type `val_t`.
@@ -375,24 +376,29 @@ char *readstr(tokenizer.t *p, error.t *err) {
 	size_t cap = 64;
 	size_t len = 0;
 	char *s = calloc!(cap, 1);
+	char seq[utf.UTFmax] = {};
 	while (tokenizer.more(p) && tokenizer.peek(p) != '"') {
+		int n = 1;
 		int c = tokenizer.get(p);
 		if (c == '\\') {
-			c = tokenizer.get(p);
-			if (c == EOF) {
-				error.set(err, "Unexpected end of input");
+			n = read_escape(p, seq, err);
+			if (n == 0) {
 				free(s);
 				return NULL;
 			}
+		} else {
+			seq[0] = c;
 		}
-		if (len + 1 == cap) {
+		if (len + (size_t) n >= cap) {
 			cap *= 2;
 			s = realloc(s, cap);
 			if (!s) {
 				panic("realloc failed");
 			}
 		}
-		s[len++] = c;
+		for (int i = 0; i < n; i++) {
+			s[len++] = seq[i];
+		}
 		s[len] = '\0';
 	}
 	if (!expect(p, '"', err)) {
@@ -402,6 +408,69 @@ char *readstr(tokenizer.t *p, error.t *err) {
 	return s;
 }
 
+// Reads the part of an escape sequence after the backslash and puts what it
+// stands for into seq. Returns the number of bytes put or 0 in case of error.
+int read_escape(tokenizer.t *p, char *seq, error.t *err) {
+	int c = tokenizer.get(p);
+	switch (c) {
+		case EOF: {
+			error.set(err, "Unexpected end of input");
+			return 0;
+		}
+		case 'b': { c = '\b'; }
+		case 'f': { c = '\f'; }
+		case 'n': { c = '\n'; }
+		case 'r': { c = '\r'; }
+		case 't': { c = '\t'; }
+		case 'u': {
+			int r = read_hex4(p);
+			if (r >= 0xD800 && r < 0xDC00 && tokenizer.skip_literal(p, "\\u")) {
+				int low = read_hex4(p);
+				if (low < 0xDC00 || low > 0xDFFF) {
+					r = -1;
+				} else {
+					r = 0x10000 + (r - 0xD800) * 0x400 + (low - 0xDC00);
+				}
+			}
+			if (r < 0) {
+				error.set(err, "invalid unicode escape");
+				return 0;
+			}
+			utf.Rune rune = r;
+			return utf.runetochar(seq, &rune);
+		}
+	}
+	seq[0] = c;
+	return 1;
+}
+
+// Reads four hexadecimal digits and returns their value.
+// Returns -1 if there aren't four digits.
+int read_hex4(tokenizer.t *p) {
+	int r = 0;
+	for (int i = 0; i < 4; i++) {
+		int d = hex_digit(tokenizer.peek(p));
+		if (d < 0) {
+			return -1;
+		}
+		tokenizer.get(p);
+		r = r * 16 + d;
+	}
+	return r;
+}
+
+// Returns the value of the hexadecimal digit c or -1 if it's not one.
+int hex_digit(int c) {
+	if (isdigit(c)) {
+		return c - (int) '0';
+	}
+	c = tolower(c);
+	if (c >= 'a' && c <= 'f') {
+		return c - (int) 'a' + 10;
+	}
+	return -1;
+}
+
 // Returns true if there are more characters to read.
 bool tok_more(tokenizer.t *p) {
 	tokenizer.spaces(p);
-- 
2.43.0


From 933b5635785f7e494a4cd7b2c7ac52cd2568a5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:44 +0000
Subject: [PATCH 36/75] fix: json.clone copies null

---
 lib/formats/json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 844ac73..2847166 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -93,6 +93,7 @@ pub val_t *clone(val_t *obj) {
 		case TBOOL: {
 			copy->val.boolval = obj->val.boolval;
 		}
+		case TNULL: {}
 		default: {
 			panic("json.clone: forgot case %d", obj->type);
 		}
-- 
2.43.0


From e181263e54c0d61c293a6b0d2b7de753ce5cb1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:44 +0000
Subject: [PATCH 37/75] fix: json.formatwr goes on after a short write

---
 lib/formats/json.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 2847166..3b71ece 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -522,7 +522,9 @@ pub void formatwr(writer.t *w, val_t *v) {
 			panic("write failed");
 		}
 		n -= (size_t) r;
+		buf += r;
 	}
+	free(s);
 }
 
 // Returns a string with the value n formatted as json.
-- 
2.43.0


From 99051760a6ff0df2254b1e647c6e2bdefcbb191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:46 +0000
Subject: [PATCH 38/75] fix: json writes control characters and keys escaped

---
 lib/formats/json.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 3b71ece..6ae2205 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -555,9 +555,8 @@ bool writeobj(val_t *n, strbuilder.str *s) {
 	bool ok = strbuilder.adds(s, "{");
 	for (size_t i = 0; i < len; i++) {
 		ok = ok
-			&& strbuilder.adds(s, "\"")
-			&& strbuilder.adds(s, key(n, i))
-			&& strbuilder.adds(s, "\":")
+			&& writequoted(key(n, i), s)
+			&& strbuilder.adds(s, ":")
 			&& writenode(val(n, i), s);
 		if (i + 1 < len) {
 			ok = ok && strbuilder.adds(s, ",");
@@ -581,17 +580,27 @@ bool writearr(val_t *n, strbuilder.str *s) {
 }
 
 void writestr(val_t *n, strbuilder.str *s) {
-	const char *content = n->val.str;
+	if (!writequoted(n->val.str, s)) {
+		panic("writestr failed");
+	}
+}
+
+// Writes the string content in quotes, escaped.
+bool writequoted(const char *content, strbuilder.str *s) {
 	size_t len = strlen(content);
 	bool ok = strbuilder.adds(s, "\"");
 	for (size_t i = 0; i < len; i++) {
 		const char c = content[i];
 		if (c == '\n') {
-			ok = ok && strbuilder.adds(s, "\\\\n");
+			ok = ok && strbuilder.adds(s, "\\n");
 			continue;
 		}
 		if (c == '\t') {
-			ok = ok && strbuilder.adds(s, "\\\\t");
+			ok = ok && strbuilder.adds(s, "\\t");
+			continue;
+		}
+		if (c > 0 && c < ' ') {
+			ok = ok && strbuilder.addf(s, "\\u%04x", c);
 			continue;
 		}
 		if (c == '\\' || c == '\"' || c == '/') {
@@ -600,9 +609,7 @@ void writestr(val_t *n, strbuilder.str *s) {
 		ok = ok && strbuilder.addc(s, c);
 	}
 	ok = ok && strbuilder.addc(s, '"');
-	if (!ok) {
-		panic("writestr failed");
-	}
+	return ok;
 }
 
 bool writenum(val_t *n, strbuilder.str *s) {
@@ -639,7 +646,13 @@ pub void write_string(FILE *f, const char *s) {
 			case '\t': { fputc('\\', f); fputc('t', f); }
 			case '\\': { fputc('\\', f); fputc('\\', f); }
 			case '\"': { fputc('\\', f); fputc('"', f); }
-			default: { fputc(*s, f); }
+			default: {
+				if (*s > 0 && *s < ' ') {
+					fprintf(f, "\\u%04x", *s);
+				} else {
+					fputc(*s, f);
+				}
+			}
 		}
 		s++;
 	}
-- 
2.43.0


From 5770259283bf4c9cb49a2a3b6a4f276863457572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:16 +0000
Subject: [PATCH 39/75] fix: json writes numbers so that they read back the
 same and does not overflow on large ones

---
 lib/formats/json.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 6ae2205..61c6c82 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -615,10 +615,16 @@ bool writequoted(const char *content, strbuilder.str *s) {
 bool writenum(val_t *n, strbuilder.str *s) {
 	char buf[100] = {0};
 	double v = n->val.num;
-	if (v == round(v)) {
-		sprintf(buf, "%.0f", n->val.num);
+	if (v == round(v) && fabs(v) < 1e15) {
+		sprintf(buf, "%.0f", v);
 	} else {
-		sprintf(buf, "%f", n->val.num);
+		// The shortest form that reads back as the same number.
+		double back = 0;
+		sprintf(buf, "%.15g", v);
+		sscanf(buf, "%lf", &back);
+		if (back != v) {
+			sprintf(buf, "%.17g", v);
+		}
 	}
 	return strbuilder.adds(s, buf);
 }
-- 
2.43.0


From 0fd64a2daac1e6e389b1ffd9c944c41a6f07e306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:50 +0000
Subject: [PATCH 40/75] fix: lzw decodes what it encoded for every alphabet,
 run length and reader

---
 lib/compress/lzw.c | 42 ++++++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 12 deletions(-)

diff --git a/lib/compress/lzw.c b/lib/compress/lzw.c
index 5960d3c..103e946 100644
--- a/lib/compress/lzw.c
+++ b/lib/compress/lzw.c
@@ -11,7 +11,7 @@
 const size_t MAX_DICT_LENGTH = 4096;
 
 pub typedef {
-	uint8_t len;
+	uint16_t len;
 	uint8_t *word;
 } word_t;
 
@@ -101,6 +101,7 @@ enc_t *init(size_t alphabet_size, writer.t *out) {
 
 pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 	enc_t *enc = init(alphabet_size, out);
+	uint8_t lag = 0;
 
 	peeker_t *p = calloc!(1, sizeof(peeker_t));
 	p->reader = r;
@@ -114,18 +115,25 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 			break;
 		}
 
-		size_t mi = match(enc, p->buf, q);
+		// Words don't get longer than that, even across resets.
+		size_t n = q;
+		if (n > 4095) n = 4095;
+
+		size_t mi = match(enc, p->buf, n);
 		size_t mlen = enc->dict.entries[mi].len;
-		comp_emit(enc, mi);
+		comp_emit(enc, mi, 0);
 
 		// If we have matched the peek fully, then the peek has reached EOF.
 		if (mlen == q) {
+			// The decoder expects the next code to be as wide as if
+			// there was an entry added after this one.
+			lag = 1;
 			break;
 		}
 		if (enc->dict.size == MAX_DICT_LENGTH) {
 			// Write the reset code before resetting the dictionary
 			// to stay at the current code width.
-			comp_emit(enc, enc->dict.resetcode);
+			comp_emit(enc, enc->dict.resetcode, 0);
 			resetdict(&enc->dict);
 		}
 		if (enc->dict.size < MAX_DICT_LENGTH) {
@@ -135,8 +143,9 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 	}
 
 	// Finalizes the compressed stream and frees the compressor.
+	free(p->buf);
 	free(p);
-	comp_emit(enc, enc->dict.endcode);
+	comp_emit(enc, enc->dict.endcode, lag);
 	bits.closewriter(enc->bw);
 	freedict(enc->dict);
 	free(enc);
@@ -164,8 +173,8 @@ size_t match(enc_t *enc, uint8_t *input, size_t inputlen) {
 	return mi;
 }
 
-void comp_emit(enc_t *enc, uint16_t code) {
-	uint8_t w = codewidth(enc->dict.size);
+void comp_emit(enc_t *enc, uint16_t code, uint8_t lag) {
+	uint8_t w = codewidth(enc->dict.size + lag);
 	writebits(enc->bw, code, w);
 }
 
@@ -196,11 +205,12 @@ size_t peek(peeker_t *p, size_t n) {
 	}
 
 	// Ensure the buffer has n, unless EOF.
-	if (p->datalen < n) {
+	while (p->datalen < n) {
 		int q = reader.read(p->reader, &p->buf[p->datalen], n - p->datalen);
-		if (q != EOF) {
-			p->datalen += (size_t) q;
+		if (q <= 0) {
+			break;
 		}
+		p->datalen += (size_t) q;
 	}
 
 	return p->datalen;
@@ -304,11 +314,16 @@ uint16_t readbits(bits.reader_t *r, uint8_t n) {
 // Returns the length of the decoded string or zero on end of decoded data.
 pub int decode(dec_t *dec, uint8_t *buf) {
 	uint16_t code = 0;
-	for (int i = 0; i < 2; i++) {
+	while (true) {
 		// The decoder lags one step behind the encoder:
 		// encoder writes code n while having updated the dict n-1 times,
 		// decoder reads code n while having updated the dict n-2 times.
-		uint8_t w = codewidth(dec->dict.size + 1);
+		// Except for the first code, for which there is nothing to add yet.
+		size_t size = dec->dict.size;
+		if (dec->prevlen > 0) {
+			size++;
+		}
+		uint8_t w = codewidth(size);
 		code = readbits(dec->br, w);
 		if (code == dec->dict.resetcode) {
 			resetdict(&dec->dict);
@@ -342,6 +357,9 @@ pub int decode(dec_t *dec, uint8_t *buf) {
 		memcpy(dec->curr, e->word, e->len);
 		dec->currlen = e->len;
 		}
+	if (dec->currlen > 4095) {
+		panic("word too long");
+	}
 
 	int ret = (int) dec->currlen;
 	memcpy(buf, dec->curr, dec->currlen);
-- 
2.43.0


From 3f8f68ea42f9415ea8b659e75af89614b02e2e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:53:50 +0000
Subject: [PATCH 41/75] fix: huffman handles single-character texts, long codes
 and incomplete trees

---
 lib/compress/huffman.c | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/lib/compress/huffman.c b/lib/compress/huffman.c
index 225734c..a66b89b 100644
--- a/lib/compress/huffman.c
+++ b/lib/compress/huffman.c
@@ -16,13 +16,13 @@ pub typedef {
 
 tree_t *newtree() {
 	tree_t *t = calloc!(1, sizeof(tree_t));
-	t->pool = calloc!(512, sizeof(node_t));
+	t->pool = calloc!(1024, sizeof(node_t));
 	t->poolpos = 0;
 	return t;
 }
 
 node_t *newnode(tree_t *t) {
-	if (t->poolpos == 512) {
+	if (t->poolpos == 1024) {
 		panic("too many nodes");
 	}
 	return &t->pool[t->poolpos++];
@@ -110,6 +110,14 @@ pub tree_t *buildtree(const char *s) {
 		list[listlen++] = n;
 	}
 
+	// A lone character still needs a code.
+	if (listlen == 1) {
+		t->root = newnode(t);
+		t->root->left = list[0];
+		t->root->right = list[0];
+		return t;
+	}
+
 	// Brute-force approach
 	while (listlen > 1) {
 		// Take two rarest a, b
@@ -169,10 +177,15 @@ pub int read(reader_t *r) {
 			}
 			return EOF;
 		}
-		if (bit == 1) {
-			r->curr = r->curr->right;
-		} else {
-			r->curr = r->curr->left;
+		if (r->curr) {
+			if (bit == 1) {
+				r->curr = r->curr->right;
+			} else {
+				r->curr = r->curr->left;
+			}
+		}
+		if (!r->curr) {
+			panic("invalid code");
 		}
 		if (!r->curr->left) {
 			int b = r->curr->val;
@@ -183,7 +196,7 @@ pub int read(reader_t *r) {
 }
 
 pub typedef {
-	uint8_t bits[16];
+	uint8_t bits[256];
 	uint8_t len;
 } bitslice_t;
 
@@ -203,8 +216,11 @@ pub writer_t *newwriter(tree_t *t, writer.t *out) {
 }
 
 void inittable(bitslice_t *table, node_t *n, uint8_t *pref, uint8_t len) {
+	if (!n) {
+		return;
+	}
 	if (n->left) {
-		uint8_t code[16] = {};
+		uint8_t code[256] = {};
 		for (uint8_t i = 0; i < len; i++) {
 			code[i] = pref[i];
 		}
-- 
2.43.0


From 497a3aced23125c3f6436ea464fc45169693a4ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:19:31 +0000
Subject: [PATCH 42/75] fix: sha1 of the empty message, format terminates its
 string

---
 lib/crypt/sha1.c | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/crypt/sha1.c b/lib/crypt/sha1.c
index 746dec0..609a011 100644
--- a/lib/crypt/sha1.c
+++ b/lib/crypt/sha1.c
@@ -29,7 +29,7 @@ pub void reset(digest_t *hash) {
  * Returns false on failure.
  */
 pub bool format(digest_t *hash, char *buf, size_t bufsize) {
-	if (bufsize < 40) return false;
+	if (bufsize < 41) return false;
 
 	uint8_t bytes[20];
 	as_bytes(hash, bytes);
@@ -38,6 +38,7 @@ pub bool format(digest_t *hash, char *buf, size_t bufsize) {
 	for (int i = 0; i < 20; i++) {
 		p = hex.writebyte(bytes[i], p);
 	}
+	*p = '\0';
 	return true;
 }
 
@@ -60,24 +61,27 @@ pub bool add(digest_t *hash, char byte) {
 	// Make sure add is not called after the end.
 	if (hash->finished) return false;
 
-	// On the first add set the initial sum.
-	if (!hash->init) {
-		hash->init = true;
-		hash->sum[0] = 0x67452301;
-		hash->sum[1] = 0xefcdab89;
-		hash->sum[2] = 0x98badcfe;
-		hash->sum[3] = 0x10325476;
-		hash->sum[4] = 0xc3d2e1f0;
-	}
-
+	init(hash);
 	hash->pos++;
 	hash->length += 8;
 	push_byte(hash, byte);
 	return true;
 }
 
+// Sets the initial sum, unless it's already set.
+void init(digest_t *hash) {
+	if (hash->init) return;
+	hash->init = true;
+	hash->sum[0] = 0x67452301;
+	hash->sum[1] = 0xefcdab89;
+	hash->sum[2] = 0x98badcfe;
+	hash->sum[3] = 0x10325476;
+	hash->sum[4] = 0xc3d2e1f0;
+}
+
 pub bool end(digest_t *hash) {
 	if (hash->finished) return false;
+	init(hash);
 	hash->finished = true;
 
 	// The internal "machinery" processes a stream of 64-byte blocks.
-- 
2.43.0


From abcc2831fcd12622356f150fdaf02b0f4750cce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:38 +0000
Subject: [PATCH 43/75] fix: opt refuses integers out of range and an eleventh
 subcommand

---
 lib/opt.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/opt.c b/lib/opt.c
index 711886e..1e77504 100644
--- a/lib/opt.c
+++ b/lib/opt.c
@@ -209,13 +209,13 @@ void set_flag(optspec_t *spec, char **arg) {
 				}
 				*( (size_t *) spec->value_pointer ) = val;
 			} else {
-				int val = 0;
-				if (sscanf(*arg, "%d", &val) < 1) {
+				int64_t val = OS.strtoll(*arg, NULL, 10);
+				if (val > INT_MAX || val < -INT_MAX - 1) {
 					fprintf(stderr, "Option %s: couldn't parse value: %s\n", spec->name, *arg);
 					exit(1);
 				}
 				int *p = spec->value_pointer;
-				*p = val;
+				*p = (int) val;
 			}
 		}
 		case OPT_FLOAT: {
@@ -291,6 +291,7 @@ pub int usage() {
 bool is_numeric(const char *s) {
 	const char *p = s;
 	if (*p == '-') p++;
+	if (*p == '\0') return false;
 	while (*p != '\0') {
 		if (!isdigit(*p)) return false;
 		p++;
@@ -310,6 +311,10 @@ size_t ncmds = 0;
 
 // Defines a subcommand.
 pub void addcmd(const char *name, mainfunc_t *f) {
+	if (ncmds >= nelem(cmds)) {
+		fprintf(stderr, "Too many subcommands, max is %zu\n", nelem(cmds));
+		exit(1);
+	}
 	cmds[ncmds].name = name;
 	cmds[ncmds].f = f;
 	ncmds++;
-- 
2.43.0


From 4a4b1bc0b805554754307780467f6143a03c18e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:20 +0000
Subject: [PATCH 44/75] fix: time: durations with hours and exact fractions,
 zones, day carry, buffer checks

---
 lib/time.c | 166 ++++++++++++++++++++++++-----------------------------
 1 file changed, 76 insertions(+), 90 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index aa9c27f..8d0f38e 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -47,26 +47,6 @@ pub duration_t dur_add(duration_t a, b) {
 	return r;
 }
 
-int tzoffset() {
-	tm_t *x = NULL;
-	time_t n = time(NULL);
-
-	x = OS.localtime(&n);
-	int mins = x->tm_hour * 60 + x->tm_min;
-	x = OS.gmtime(&n);
-	mins -= (x->tm_hour * 60 + x->tm_min);
-
-	// Possible diff range is -12:45 .. +14:45.
-	int min = -(12*60 + 45);
-	int max = 14*60+45;
-	if (mins < min) {
-		mins += 24 * 60;
-	} else if (mins > max) {
-		mins -= 24 * 60;
-	}
-	return mins;
-}
-
 pub void dur_set(duration_t *d, int64_t val, int unit) {
 	d->us = val * unit;
 }
@@ -125,7 +105,7 @@ pub bool dur_fmt(duration_t *d, char *buf, size_t bufsize, const char *fmt) {
 			len = snprintf(buf, bufsize, "%02d:%02d.%03d", mm, ss, ms);
 		}
 		case "hh:mm:ss,ms": {
-			len = snprintf(buf, bufsize, "%02d:%02d:%02d,%d", pp.h, pp.m, pp.s, pp.ms);
+			len = snprintf(buf, bufsize, "%02d:%02d:%02d,%03d", pp.h, pp.m, pp.s, pp.ms);
 		}
 		case "[h]:mm:ss.mmm": {
 			int ms = pp.ms;
@@ -158,51 +138,42 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 		return false;
 	}
 
-    p = readint(p, &nums[numslen++]);
-	if (p == s) {
-		error.set(err, "expected a number at %s", s);
-		return false;
-	}
-
-	// up to two more of (":" <int>)
-	if (*p == ':') {
-		p++;
-		p = readint(p, &nums[numslen++]);
-	}
-	if (*p == ':') {
+	// up to three numbers, separated by ":"
+	while (true) {
+		const char *q = readint(p, &nums[numslen]);
+		if (q == p) {
+			error.set(err, "expected a number at %s", p);
+			return false;
+		}
+		p = q;
+		numslen++;
+		if (*p != ':' || numslen == 3) break;
 		p++;
-		p = readint(p, &nums[numslen++]);
 	}
 
 	int64_t us = 0;
-	switch (numslen) {
-		case 2: { us = (nums[0] * 60 + nums[1]) * SECONDS; }
-		default: {
-			error.set(err, "unhandled format: %s", s);
-			return false;
-		}
+	if (numslen < 2) {
+		error.set(err, "unhandled format: %s", s);
+		return false;
+	}
+	for (int i = 0; i < numslen; i++) {
+		us = us * 60 + nums[i];
 	}
+	us *= SECONDS;
 
 	// Maybe sub-second fraction.
 	if (*p == '.') {
 		p++;
-		int32_t digits = 0;
-		int32_t fracsize = 1;
-		int32_t val = 0;
+		int64_t unit = SECONDS;
 		while (isdigit(*p)) {
-			// Prevent overflow.
-			if (digits > 6) {
-				p++;
-				continue;
-			}
-			digits++;
-			fracsize *= 10;
-			val *= 10;
-			val += (int) *p - (int) '0';
+			unit /= 10;
+			us += unit * ((int) *p - (int) '0');
 			p++;
 		}
-		int64_t diff = (double)SECONDS * ((double)val / (double)fracsize);
-		us += diff;
+	}
+	if (*p != '\0') {
+		error.set(err, "unexpected text: %s", p);
+		return false;
 	}
 
     d->us = us;
@@ -269,69 +240,84 @@ pub iso_t parse_iso(const char *p) {
 	q = readint(q, &r.s);
 	if (*q == '.') {
 		q++;
-		q = readint(q, &r.ms);
+		int unit = 100;
+		while (isdigit(*q)) {
+			r.ms += unit * ((int) *q - (int) '0');
+			unit /= 10;
+			q++;
+		}
 	}
 
-	// "Z" or "+02:00"
+	// "Z" or "+02:00" or "-02:00"
 	if (*q == 'Z') {
 		q++;
-	} else if (*q == '+') {
+	} else if (*q == '+' || *q == '-') {
+		bool neg = *q == '-';
 		q++;
 		q = readint(q, &r.zh);
 		if (*q++ != ':') panic(": expected");
 		q = readint(q, &r.zm);
+		if (neg) {
+			r.zh = -r.zh;
+			r.zm = -r.zm;
+		}
 	} else {
 		panic("trailing input");
 	}
 	return r;
 }
 
-tm_t totm(iso_t r) {
-	tm_t tm = {
-		.tm_sec = r.s, // 0-60 (60 for the leap second)
-		.tm_min = r.m, // 0-59
-		.tm_hour = r.h, // 0-23
-		.tm_mday = r.D, // 1-31
-		.tm_mon = r.M - 1, // 0-11
-		.tm_year = r.Y - 1900, // years since 1900
-		.tm_wday = -1, // 0-6
-		.tm_yday = -1, // 0..365
-		.tm_isdst = -1, // daylight saving; -1 = don't know
-	};
-	return tm;
+// Returns the unix time of r in seconds.
+int64_t unixtime(iso_t r) {
+	// Count years from March, so that the leap day is the last one.
+	int64_t y = r.Y;
+	int64_t m = r.M - 3;
+	if (m < 0) {
+		m += 12;
+		y--;
+	}
+	int64_t days = y * 365 + y / 4 - y / 100 + y / 400;
+	days += (m * 153 + 2) / 5 + r.D - 1;
+	days -= 719468; // 1970-01-01
+
+	int64_t minutes = (days * 24 + r.h - r.zh) * 60 + r.m - r.zm;
+	return minutes * 60 + r.s;
 }
 
 // Returns the difference a-b in milliseconds.
 pub int64_t sub(iso_t a, b) {
-	tm_t tm = totm(a);
-	time_t au = OS.mktime(&tm);
-	int64_t ms1 = ((int64_t) au) * 1000 + a.ms;
-
-	tm = totm(b);
-	time_t bu = OS.mktime(&tm);
-	int64_t ms2 = ((int64_t) bu) * 1000 + b.ms;
-
-	return ms1 - ms2;
+	return (unixtime(a) - unixtime(b)) * 1000 + a.ms - b.ms;
 }
 
+// Formats val as an ISO string.
+// Returns false if the buffer is too small.
 pub bool fmt_iso_iso(iso_t val, char *buf, size_t bufsize) {
-	snprintf(buf, bufsize, "%d-%02d-%02dT%02d:%02d:%02d.%03dZ", val.Y, val.M, val.D, val.h, val.m, val.s, val.ms);
-	return true;
+	char zone[20] = "Z";
+	if (val.zh != 0 || val.zm != 0) {
+		int z = val.zh * 60 + val.zm;
+		char sign = '+';
+		if (z < 0) {
+			sign = '-';
+			z = -z;
+		}
+		snprintf(zone, sizeof(zone), "%c%02d:%02d", sign, z / 60, z % 60);
+	}
+	int len = snprintf(buf, bufsize, "%04d-%02d-%02dT%02d:%02d:%02d.%03d%s", val.Y, val.M, val.D, val.h, val.m, val.s, val.ms, zone);
+	return (size_t) len < bufsize;
 }
 
 pub void iso_tolocal(iso_t *val) {
 	if (val->zh != 0 || val->zm != 0) {
 		panic("unhandled: non-utc iso");
 	}
-	val->m += tzoffset();
-	while (val->m > 60) {
-		val->m -= 60;
-		val->h += 1;
-	}
-	// while (val->h > 23) {
-	// 	val->D += 1;
-	// 	val->h -= 23;
-	// }
+	time_t s = unixtime(*val);
+	tm_t *tm = OS.localtime(&s);
+	val->Y = tm->tm_year + 1900;
+	val->M = tm->tm_mon + 1;
+	val->D = tm->tm_mday;
+	val->h = tm->tm_hour;
+	val->m = tm->tm_min;
+	val->s = tm->tm_sec;
 }
 
 
-- 
2.43.0


From a50c1394fa8a4a6beb21e1e5be6d93a7327b6cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:21 +0000
Subject: [PATCH 45/75] fix: csv: quotes are doubled, a last empty column is a
 column, long values fit

---
 lib/formats/csv.c | 48 +++++++++++++++++++++++++++++++----------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/lib/formats/csv.c b/lib/formats/csv.c
index 6a12d6f..d01bd01 100644
--- a/lib/formats/csv.c
+++ b/lib/formats/csv.c
@@ -3,7 +3,8 @@
 pub typedef {
 	tokenizer.t *b;
 	int vals;
-	char valbuf[4096];
+	char *valbuf;
+	size_t valcap;
 	bool firstval;
 
 } reader_t;
@@ -13,44 +14,59 @@ pub reader_t *newreader() {
 	reader_t *r = calloc!(1, sizeof(reader_t));
 	r->b = tokenizer.file(stdin);
 	r->firstval = true;
+	r->valcap = 4096;
+	r->valbuf = calloc!(r->valcap, 1);
 	return r;
 }
 
 // Releases the reader.
 pub void freereader(reader_t *r) {
 	if (r->b) tokenizer.free(r->b);
+	free(r->valbuf);
 	free(r);
 }
 
 // Reads the next column's value in the current line.
 // Returns false if there are no more columns in the current line.
 pub bool readval(reader_t *r) {
-	// If this is not the first column, expect a comma.
-	if (!r->firstval) {
-		if (tokenizer.peek(r->b) != ',') {
+	int next = tokenizer.peek(r->b);
+	if (r->firstval) {
+		r->firstval = false;
+		// An empty line has no columns.
+		if (next == '\n' || next == '\r') return false;
+		if (!tokenizer.more(r->b)) return false;
+	} else {
+		// If this is not the first column, expect a comma.
+		if (next != ',') {
 			return false;
 		}
 		tokenizer.get(r->b);
+		next = tokenizer.peek(r->b);
 	}
-	r->firstval = false;
-
-	int next = tokenizer.peek(r->b);
-	if (next == '\n' || next == '\r') return false;
-	if (!tokenizer.more(r->b)) return false;
 
 	if (next == '"') {
 		read_quoted_value(r);
 		return true;
 	}
 
-	char *p = r->valbuf;
+	size_t len = 0;
 	while (tokenizer.more(r->b) && !peekany(r->b, ",\r\n")) {
-		*p++ = tokenizer.get(r->b);
+		put(r, len++, tokenizer.get(r->b));
 	}
-	*p = '\0';
+	put(r, len, '\0');
 	return true;
 }
 
+// Puts c at position i of the value buffer, growing the buffer if needed.
+void put(reader_t *r, size_t i, char c) {
+	if (i == r->valcap) {
+		r->valcap *= 2;
+		r->valbuf = realloc(r->valbuf, r->valcap);
+		if (!r->valbuf) panic("failed to allocate memory");
+	}
+	r->valbuf[i] = c;
+}
+
 bool peekany(tokenizer.t *b, const char *chars) {
 	const char *p = chars;
 	while (*p != '\0') {
@@ -90,7 +106,7 @@ void read_quoted_value(reader_t *r) {
 	}
 
 	// Content + closing quote
-	char *p = r->valbuf;
+	size_t len = 0;
 	while (true) {
 		int c = tokenizer.get(b);
 		if (c == EOF) {
@@ -102,11 +118,11 @@ void read_quoted_value(reader_t *r) {
 			if (tokenizer.peek(b) == '\"') {
 				tokenizer.get(b);
 			} else {
-				*p = '\0';
+				put(r, len, '\0');
 				break;
 			}
 		}
-		*p++ = c;
+		put(r, len++, c);
 	}
 }
 
@@ -129,7 +145,7 @@ pub void writeval(writer_t *w, const char *x) {
 	w->col++;
 	fputc('"', w->f);
 	while (*x != '\0') {
-		if (*x == '"') fputc('\\', w->f);
+		if (*x == '"') fputc('"', w->f);
 		fputc(*x, w->f);
 		x++;
 	}
-- 
2.43.0


From 5011b974ac1d0c884d6d7c6c3de79173980717d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:21 +0000
Subject: [PATCH 46/75] fix: bencode: truncated data is refused, numbers above
 31 bits, byte 255 is not the end

---
 lib/formats/bencode.c        | 37 ++++++++++++++++++------------------
 lib/formats/bencode_writer.c | 14 +++++++-------
 prog/bencode/bencode.c       |  2 +-
 3 files changed, 26 insertions(+), 27 deletions(-)

diff --git a/lib/formats/bencode.c b/lib/formats/bencode.c
index f09f238..6604a66 100644
--- a/lib/formats/bencode.c
+++ b/lib/formats/bencode.c
@@ -31,8 +31,8 @@ pub void freereader(reader_t *r) {
  * Returns true if the current node has more entries.
  */
 pub bool more(reader_t *r) {
-    if (r->stacksize > 0) {
-        return peek(r) != 'e';
+    if (r->stacksize > 0 && peek(r) == 'e') {
+        return false;
     }
     return peek(r) != EOF;
 }
@@ -110,21 +110,21 @@ pub size_t readbuf(reader_t *r, uint8_t *buf, size_t bufsize) {
 }
 
 size_t _readbuf(reader_t *r, uint8_t *buf, size_t len) {
-	int n = num(r);
+	int64_t n = num(r);
 	if (n < 0) panic("got negative data length");
 	size_t nz = (size_t) n;
-	if (buf != NULL && nz > len) panic("buffer too small (need %d)", n);
+	if (buf != NULL && nz > len) panic("buffer too small (need %zu)", nz);
 
 	consume(r, ':');
 
 	// Write the data to the buffer.
 	if (buf) {
 		memset(buf, 0, len);
-		for (int i = 0; i < n; i++) {
+		for (int64_t i = 0; i < n; i++) {
 			buf[i] = pop(r);
 		}
 	} else {
-		for (int i = 0; i < n; i++) {
+		for (int64_t i = 0; i < n; i++) {
 			pop(r);
 		}
 	}
@@ -134,9 +134,9 @@ size_t _readbuf(reader_t *r, uint8_t *buf, size_t len) {
 /**
  * Reads the number that follows.
  */
-pub int readnum(reader_t *r) {
+pub int64_t readnum(reader_t *r) {
 	consume(r, 'i');
-	int n = num(r);
+	int64_t n = num(r);
 	consume(r, 'e');
 	return n;
 }
@@ -162,11 +162,7 @@ pub bool skip(reader_t *r) {
         }
         default: {
 			// string
-			int n = num(r);
-			consume(r, ':');
-			for (int i = 0; i < n; i++) {
-				pop(r);
-			}
+			_readbuf(r, NULL, 0);
         }
     }
 	return true;
@@ -177,22 +173,22 @@ pub bool skip(reader_t *r) {
 // }
 
 void consume(reader_t *r, char c) {
-    if (r->data[r->pos] != c) {
-        panic("wanted %c, got %c", c, r->data[r->pos]);
+    if (peek(r) != c) {
+        panic("wanted %c, got %c", c, peek(r));
     }
     r->pos++;
 }
 
 
-char peek(reader_t *r) {
+int peek(reader_t *r) {
     if (r->pos >= r->size) {
         return EOF;
     }
-    return r->data[r->pos];
+    return (uint8_t) r->data[r->pos];
 }
 
-int num(reader_t *r) {
-    int n = 0;
+int64_t num(reader_t *r) {
+    int64_t n = 0;
     bool neg = false;
     if (peek(r) == '-') {
         neg = true;
@@ -212,5 +208,8 @@ int num(reader_t *r) {
 }
 
 char pop(reader_t *r) {
+    if (r->pos >= r->size) {
+        panic("unexpected end of data");
+    }
     return r->data[r->pos++];
 }
diff --git a/lib/formats/bencode_writer.c b/lib/formats/bencode_writer.c
index 6f50384..bd51432 100644
--- a/lib/formats/bencode_writer.c
+++ b/lib/formats/bencode_writer.c
@@ -75,7 +75,7 @@ pub size_t pos(t *w) {
 	return w->pos;
 }
 
-pub bool num(t *w, int n) {
+pub bool num(t *w, int64_t n) {
 	return byte(w, 'i')
 		&& _writenum(w, n)
 		&& byte(w, 'e');
@@ -90,24 +90,24 @@ pub bool buf(t *w, const uint8_t *buff, size_t len) {
 	return true;
 }
 
-bool _writenum(t *w, int n) {
+bool _writenum(t *w, int64_t n) {
+	uint64_t N = (uint64_t) n;
 	// Write "-" if the number is negative.
 	if (n < 0) {
 		if (!byte(w, '-')) return false;
-		n *= -1;
+		N = -N;
 	}
-	size_t N = (size_t) n;
 
 	// Get the number's magnitude.
-	size_t m = 1;
-	while (m*10 <= N) {
+	uint64_t m = 1;
+	while (m <= N / 10) {
 		m *= 10;
 	}
 
 	// Write each digit from the biggest magnitude to the smallest.
 	while (m > 0) {
 		int digit = N / m;
-		N = n % m;
+		N = N % m;
 		m /= 10;
 		if (!byte(w, strings.ascii_digit(digit))) return false;
 	}
diff --git a/prog/bencode/bencode.c b/prog/bencode/bencode.c
index e2b658c..46e32d5 100644
--- a/prog/bencode/bencode.c
+++ b/prog/bencode/bencode.c
@@ -69,7 +69,7 @@ void printval(bencode.reader_t *r) {
             printf("}");
         }
         case 'i': {
-            printf("%d", bencode.readnum(r));
+            printf("%d", (int) bencode.readnum(r));
         }
         case 's': {
             int len = bencode.strsize(r);
-- 
2.43.0


From e95b3e054dde4b5f33ab7f1751b265031c6dcff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:21 +0000
Subject: [PATCH 47/75] fix: torrent: fields that fill their buffers stay
 terminated

---
 lib/formats/torrent.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/formats/torrent.c b/lib/formats/torrent.c
index 7c146da..a93fd09 100644
--- a/lib/formats/torrent.c
+++ b/lib/formats/torrent.c
@@ -107,13 +107,13 @@ pub info_t *parse(const char *data, size_t size) {
 	bencode.reader_t *r = bencode.newreader(data, size);
 	bencode.enter(r);
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf) - 1);
 		char *k = (char *)buf;
 		switch str (k) {
-			case "announce": { bencode.readbuf(r, (uint8_t *) tf->announce, sizeof(tf->announce)); }
+			case "announce": { bencode.readbuf(r, (uint8_t *) tf->announce, sizeof(tf->announce) - 1); }
 			case "creation date": { tf->creation_date = bencode.readnum(r); }
-			case "created by": { bencode.readbuf(r, (uint8_t *) tf->created_by, sizeof(tf->created_by)); }
-			case "comment": { bencode.readbuf(r, (uint8_t *) tf->comment, sizeof(tf->comment)); }
+			case "created by": { bencode.readbuf(r, (uint8_t *) tf->created_by, sizeof(tf->created_by) - 1); }
+			case "comment": { bencode.readbuf(r, (uint8_t *) tf->comment, sizeof(tf->comment) - 1); }
 			case "announce-list": { bencode.skip(r); }
 			case "info": {
 				info_begin = bencode.pos(r);
@@ -144,10 +144,10 @@ void parse_info(bencode.reader_t *r, info_t *tf) {
 	bencode.enter(r);
 	uint8_t buf[1000] = {};
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf) - 1);
 		char *k = (char *) buf;
 		if (strcmp(k, "name") == 0) {
-			bencode.readbuf(r, (uint8_t *) tf->name, sizeof(tf->name));
+			bencode.readbuf(r, (uint8_t *) tf->name, sizeof(tf->name) - 1);
 		} else if (strcmp(k, "piece length") == 0) {
 			tf->piece_length = bencode.readnum(r);
 		} else if (strcmp(k, "length") == 0) {
@@ -180,7 +180,7 @@ void parse_file(bencode.reader_t *r, info_t *tf) {
 
 	bencode.enter(r);
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf) - 1);
 		if (strcmp(k, "path") == 0) {
 			readpath(r, f->path, sizeof(f->path));
 		} else if (strcmp(k, "length") == 0) {
@@ -200,14 +200,14 @@ void readpath(bencode.reader_t *r, char *buf, size_t bufsize) {
 	bencode.enter(r);
 	bool first = true;
 	while (bencode.more(r)) {
-		bencode.readbuf(r, (uint8_t *)tmp, sizeof(tmp));
+		bencode.readbuf(r, (uint8_t *)tmp, sizeof(tmp) - 1);
 		if (first) {
-			if (strlen(buf) + strlen(tmp) > bufsize) {
+			if (strlen(buf) + strlen(tmp) >= bufsize) {
 				panic("buffer too small for the path");
 			}
 			strcat(buf, tmp);
 		} else {
-			if (strlen(buf) + strlen(tmp) + 1 > bufsize) {
+			if (strlen(buf) + strlen(tmp) + 1 >= bufsize) {
 				panic("buffer too small for the path");
 			}
 			strcat(buf, "/");
-- 
2.43.0


From 3c8a3abd81b8b3438f2ae7ca3275a3d28ec4d3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:04:21 +0000
Subject: [PATCH 48/75] fix: conf: byte 255 is not the end, keys and values
 that do not fit are refused

---
 lib/formats/conf.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/formats/conf.c b/lib/formats/conf.c
index 1a0ec3b..4b96002 100644
--- a/lib/formats/conf.c
+++ b/lib/formats/conf.c
@@ -10,7 +10,7 @@ pub typedef {
 } reader_t;
 
 int peek(FILE *f) {
-    char c = getc(f);
+    int c = getc(f);
     if (c != EOF) ungetc(c, f);
     return c;
 }
@@ -57,6 +57,10 @@ pub bool next(reader_t *p) {
 			exit (1);
 		}
 
+		if (strlen(base) >= sizeof(p->key) || strlen(ptr) >= sizeof(p->val)) {
+			fprintf (stderr, "config parse error at line %d\n", p->line);
+			exit (1);
+		}
 		strcpy(p->key, base);
 		strcpy(p->val, ptr);
 		return 1;
@@ -73,7 +77,7 @@ void next_line(reader_t *p, char *buf, size_t bufsize) {
     while (isspace(peek(p->f))) getc(p->f);
 
 	while (!feof (p->f)) {
-		char c = getc (p->f);
+		int c = getc (p->f);
 		if (c == EOF) {
 			*ptr = 0;
 			return;
-- 
2.43.0


From 18e506b5e9f9821c16df59557e24a96ab799c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 49/75] fix: fs: dir_next skips . and .. in whatever order they
 come

---
 lib/os/fs.c | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/lib/os/fs.c b/lib/os/fs.c
index e87d1b9..d02fd43 100644
--- a/lib/os/fs.c
+++ b/lib/os/fs.c
@@ -27,11 +27,8 @@ pub dir_t *dir_open(const char *path) {
 // Reads one entry from the directory iterator and returns the file name.
 pub const char *dir_next(dir_t *d) {
 	dirent_t *e = OS.readdir(d->d);
-	// Skip "." and "..".
-	if (e != NULL && strcmp(e->d_name, ".") == 0) {
-		e = OS.readdir(d->d);
-	}
-	if (e != NULL && strcmp(e->d_name, "..") == 0) {
+	// Skip "." and "..", which may come in any order.
+	while (e != NULL && (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)) {
 		e = OS.readdir(d->d);
 	}
 	if (e == NULL) {
-- 
2.43.0


From cdc460a240a04d9e4a21929b7c617435665ae797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 50/75] fix: proc: wait closes the child's pipes

---
 lib/os/proc.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/os/proc.c b/lib/os/proc.c
index 6279ad0..14960d0 100644
--- a/lib/os/proc.c
+++ b/lib/os/proc.c
@@ -11,6 +11,7 @@ pub typedef {
 	reader.t *stdout, *stderr;
 	writer.t *stdin;
     int pid;
+	int fds[3]; // The descriptors behind stdin, stdout and stderr.
 } proc_t;
 
 /*
@@ -52,6 +53,9 @@ pub proc_t *spawn(char *argv[], *env[]) {
         // Parent
         proc_t *p = calloc!(1, sizeof(proc_t));
         p->pid = pid;
+        p->fds[0] = in[1];
+        p->fds[1] = out[0];
+        p->fds[2] = err[0];
         p->stdin = writer.fd(in[1]);
         p->stdout = reader.fd(out[0]);
         p->stderr = reader.fd(err[0]);
@@ -83,6 +87,9 @@ pub bool wait(proc_t *p, int *status) {
     bool ok = OS.waitpid(p->pid, status, 0) == p->pid;
 	reader.free(p->stdout);
 	reader.free(p->stderr);
+	for (int i = 0; i < 3; i++) {
+		OS.close(p->fds[i]);
+	}
     free(p);
     return ok;
 }
-- 
2.43.0


From c7f7d25874f38d6f76268078d6b2b3181b10ee62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 51/75] fix: cgi: heads that do not fit are refused, values may
 be empty

---
 lib/protocols/cgi.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/protocols/cgi.c b/lib/protocols/cgi.c
index 03554b3..4b14202 100644
--- a/lib/protocols/cgi.c
+++ b/lib/protocols/cgi.c
@@ -16,6 +16,7 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
 
         // name
         while (pos < n && data[pos] != ':') {
+            if (strlen(name) + 1 == sizeof(name)) return 0;
             *d++ = data[pos];
             pos++;
         }
@@ -25,7 +26,7 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
         pos++;
 
         // skip spaces
-        while (pos < n && isspace(data[pos])) {
+        while (pos < n && (data[pos] == ' ' || data[pos] == '\t')) {
             pos++;
         }
         if (pos >= n) return false;
@@ -35,12 +36,14 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
 
         // everything until a newline
         while (pos < n && data[pos] != '\n' && data[pos] != '\r') {
+            if (strlen(value) + 1 == sizeof(value)) return 0;
             *d++ = data[pos];
             pos++;
         }
         if (pos >= n) return false;
         if (pos < n && data[pos] == '\r') pos++;
         if (pos < n && data[pos] == '\n') pos++;
+        if (r->nheaders == nelem(r->headers)) return 0;
         strcpy(r->headers[r->nheaders].name, name);
         strcpy(r->headers[r->nheaders].value, value);
         r->nheaders++;
-- 
2.43.0


From 14df2ceb9db9954fcae1efed02aa3e62ddfc7486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 52/75] fix: http: requests and responses are bounded, framed,
 and never end the server

---
 lib/protocols/http.c | 147 ++++++++++++++++++++++++-------------------
 1 file changed, 82 insertions(+), 65 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 50e5aa2..5e2acc1 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -66,7 +66,8 @@ pub typedef {
 
 const char *errors[] = {
 	"no error",
-	"unknown method"
+	"unknown method",
+	"path is too long"
 };
 
 pub const char *errstr(int err) {
@@ -93,7 +94,11 @@ pub void reqparams(request_t *r, const char *name, *value) {
 }
 
 pub void reqparam(request_t *r, const char *name, const char *data, size_t datalen) {
+	if (r->nparams == nelem(r->params)) panic("too many parameters");
 	kv_t *h = &r->params[r->nparams++];
+	if (strlen(name) >= sizeof(h->name) || datalen > sizeof(h->value)) {
+		panic("parameter is too long");
+	}
 	strcpy(h->name, name);
 	memcpy(h->value, data, datalen);
 	h->valuelen = datalen;
@@ -111,6 +116,10 @@ pub bool init_request(request_t *r, int method, const char *path) {
 			return false;
 		}
     }
+    if (strlen(path) >= sizeof(r->uri)) {
+        r->err = 2; // path is too long
+        return false;
+    }
     strcpy(r->method, methodstring);
     strcpy(r->uri, path);
     strcpy(r->version, "HTTP/1.0");
@@ -118,7 +127,10 @@ pub bool init_request(request_t *r, int method, const char *path) {
 }
 
 pub bool set_header(request_t *r, const char *name, *value) {
-    header_t *h = &r->headers[r->nheaders++];
+    if (r->nheaders == nelem(r->headers)) return false;
+    header_t *h = &r->headers[r->nheaders];
+    if (strlen(name) >= sizeof(h->name) || strlen(value) >= sizeof(h->value)) return false;
+    r->nheaders++;
     strcpy(h->name, name);
     strcpy(h->value, value);
     return true;
@@ -143,7 +155,7 @@ pub int write_request(writer.t *w, request_t *r) {
 		strbuilder.adds(sb, param->name);
 		strbuilder.adds(sb, "=");
 
-		uint8_t tmp[1000] = {};
+		uint8_t tmp[3 * sizeof(param->value) + 1] = {};
 		writer.t *w2 = writer.static_buffer(tmp, sizeof(tmp));
 		urlencode.write(w2, param->value, param->valuelen);
 		writer.free(w2);
@@ -239,11 +251,11 @@ pub bool parse_response(reader.t *re, response_t *r) {
 		if (tokenizer.skip_literal(b, "\r\n")) {
 			break;
 		}
-		header_t *h = &r->headers[r->nheaders++];
-		if (!read_header(b, h)) {
+		if (r->nheaders == nelem(r->headers) || !read_header(b, &r->headers[r->nheaders])) {
 			tokenizer.free(b);
 			return false;
 		}
+		r->nheaders++;
 	}
 	bool ok = read_body(b, r);
 	tokenizer.free(b);
@@ -254,8 +266,12 @@ bool read_body(tokenizer.t *b, response_t *r) {
 	const char *tmp = get_res_header(r, "Content-Length");
 	if (tmp) {
 		r->content_length = atoi(tmp);
+		if (r->content_length < 0) return false;
+		if ((size_t) r->content_length >= sizeof(r->body)) {
+			panic("body buffer too small");
+		}
 		for (int i = 0; i < r->content_length; i++) {
-			char c = tokenizer.get(b);
+			int c = tokenizer.get(b);
 			if (c == EOF) {
 				return false;
 			}
@@ -266,7 +282,7 @@ bool read_body(tokenizer.t *b, response_t *r) {
 
 	// Connection: close implies that the rest of the data is body.
 	tmp = get_res_header(r, "Connection");
-	if (!strcmp(tmp, "close")) {
+	if (tmp && !strcmp(tmp, "close")) {
 		size_t i = 0;
 		while (tokenizer.more(b)) {
 			if (i + 1 == sizeof(r->body)) {
@@ -295,9 +311,9 @@ bool read_status_line(tokenizer.t *b, response_t *r) {
 	// 200
 	r->status = 0;
 	for (int i = 0; i < 3; i++) {
-		char c = tokenizer.get(b);
+		int c = tokenizer.get(b);
+		if (!isdigit(c)) return false;
 		int n = strings.num_from_ascii(c);
-		if (n < 0) return false;
 		r->status *= 10;
 		r->status += n;
 	}
@@ -318,18 +334,16 @@ bool read_status_line(tokenizer.t *b, response_t *r) {
 }
 
 bool read_header(tokenizer.t *b, header_t *h) {
-	char *tmp = h->name;
-	while (tokenizer.more(b) && tokenizer.peek(b) != ':') {
-		*tmp++ = tokenizer.get(b);
+	if (!tokenizer.read_until(b, ':', h->name, sizeof(h->name))) {
+		return false;
 	}
 	// : space
 	if (!tokenizer.skip_literal(b, ": ")) {
 		return false;
 	}
 	// value
-	tmp = h->value;
-	while (tokenizer.more(b) && tokenizer.peek(b) != '\r') {
-		*tmp++ = tokenizer.get(b);
+	if (!tokenizer.read_until(b, '\r', h->value, sizeof(h->value))) {
+		return false;
 	}
 	// eol
 	if (!tokenizer.skip_literal(b, "\r\n")) {
@@ -359,6 +373,10 @@ pub bool read_request(reader.t *br, request_t *r) {
 		// Empty line terminates the headers list.
 		if (tokenizer.skip_literal(b, "\r\n")) break;
 
+		if (r->nheaders == nelem(r->headers)) {
+			ok = false;
+			break;
+		}
 		header_t *h = &r->headers[r->nheaders];
 		ok = true
 			&& tokenizer.read_until(b, ':', h->name, sizeof(h->name))
@@ -375,77 +393,77 @@ pub void write_404(request_t *req, net.net_t *conn) {
     const char *msg = "The file was not found on the server.";
 	char buf[1000] = {};
 	sprintf(buf,
-        "%s 404 Not Found\n"
-        "Content-Length: %ld\n"
-        "Content-Type: text/plain\n"
-        "\n"
-        "\n"
+        "%s 404 Not Found\r\n"
+        "Content-Length: %ld\r\n"
+        "Content-Type: text/plain\r\n"
+        "\r\n"
         "%s",
         req->version,
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    net.write(conn, buf, strlen(buf));
 }
 
 pub void write_405(request_t *req, net.net_t *conn) {
     const char *msg = "This method is not allowed for this path.";
 	char buf[1000] = {};
     sprintf(buf,
-        "%s 405 Method Not Allowed\n"
-        "Content-Length: %ld\n"
-        "Content-Type: text/plain\n"
-        "\n"
-        "\n"
+        "%s 405 Method Not Allowed\r\n"
+        "Content-Length: %ld\r\n"
+        "Content-Type: text/plain\r\n"
+        "\r\n"
         "%s",
         req->version,
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    net.write(conn, buf, strlen(buf));
+}
+
+pub void write_500(request_t *req, net.net_t *conn) {
+    const char *msg = "The server failed to produce a response.";
+	char buf[1000] = {};
+    sprintf(buf,
+        "%s 500 Internal Server Error\r\n"
+        "Content-Length: %ld\r\n"
+        "Content-Type: text/plain\r\n"
+        "\r\n"
+        "%s",
+        req->version,
+        strlen(msg),
+        msg
+    );
+    net.write(conn, buf, strlen(buf));
 }
 
 pub void write_501(request_t *req, net.net_t *conn) {
     const char *msg = "method not implemented\n";
 	char buf[1000] = {};
     sprintf(buf,
-        "%s 501 Not Implemented\n"
-        "Content-Length: %ld\n"
-        "Content-Type: text/plain\n"
-        "\n"
-        "\n"
+        "%s 501 Not Implemented\r\n"
+        "Content-Length: %ld\r\n"
+        "Content-Type: text/plain\r\n"
+        "\r\n"
         "%s",
         req->version,
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    net.write(conn, buf, strlen(buf));
 }
 
 pub void serve_text(request_t *req, net.net_t *conn, const char *s, *content_type) {
 	char buf[1000] = {};
-	sprintf(buf, "%s 200 OK\n"
-		"Content-Length: %ld\n"
-		"Content-Type: %s\n"
-		"\n",
+	sprintf(buf, "%s 200 OK\r\n"
+		"Content-Length: %ld\r\n"
+		"Content-Type: %s\r\n"
+		"\r\n",
 		req->version,
 		strlen(s),
 		content_type);
-	if (net.write(conn, buf, strlen(buf)) < 0) {
-		panic("net write failed");
-	}
-	if (net.write(conn, s, strlen(s)) < 0) {
-		panic("net write failed");
-	}
+	if (net.write(conn, buf, strlen(buf)) < 0) return;
+	net.write(conn, s, strlen(s));
 }
 
 pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
@@ -455,24 +473,23 @@ pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
 		content_type = "text/plain";
 	}
 	size_t filesize = 0;
-	if (!fs.filesize(filepath, &filesize)) {
-		panic("failed to get file size");
+	FILE *f = fopen(filepath, "rb");
+	if (!f || !fs.filesize(filepath, &filesize)) {
+		if (f) fclose(f);
+		write_404(req, conn);
+		return;
 	}
 	char buf[1000] = {};
-	sprintf(buf, "%s 200 OK\n"
-		"Content-Length: %ld\n"
-		"Content-Type: %s\n"
-		"\n",
+	sprintf(buf, "%s 200 OK\r\n"
+		"Content-Length: %ld\r\n"
+		"Content-Type: %s\r\n"
+		"\r\n",
 		req->version,
 		filesize,
 		content_type);
 	if (net.write(conn, buf, strlen(buf)) < 0) {
-		panic("net write failed");
-	}
-
-	FILE *f = fopen(filepath, "rb");
-	if (!f) {
-		panic("oops");
+		fclose(f);
+		return;
 	}
 
 	while (true) {
@@ -480,7 +497,7 @@ pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
 		size_t n = fread(tmp, 1, 4096, f);
 		if (n == 0) break;
 		int r = net.write(conn, tmp, n);
-		if (r < 0) panic("net write failed");
+		if (r < 0) break; // The client has left.
 	}
 	fclose(f);
 }
-- 
2.43.0


From 3d5a1b762e8ef593e178d8138a4201e9c8b3119b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 53/75] fix: webserver: a script's output is sent whole, a
 failing script is a 500

---
 prog/webserver/srvcgi.c | 55 ++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 22 deletions(-)

diff --git a/prog/webserver/srvcgi.c b/prog/webserver/srvcgi.c
index e89fc57..4c21112 100644
--- a/prog/webserver/srvcgi.c
+++ b/prog/webserver/srvcgi.c
@@ -9,45 +9,56 @@
 pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 	proc.proc_t *proc = start(path, req);
 
-	// Read the script's output.
-	char output[4096] = {};
-	int r = reader.read(proc->stdout, (uint8_t*)output, 4096);
-	if (r < 0) {
-		panic("read failed");
+	// Read the script's output until it ends.
+	size_t output_size = 0;
+	size_t cap = 4096;
+	char *output = calloc!(cap, 1);
+	while (true) {
+		if (output_size == cap) {
+			cap *= 2;
+			output = realloc(output, cap);
+			if (!output) panic("realloc failed");
+		}
+		int r = reader.read(proc->stdout, (uint8_t*)output + output_size, cap - output_size);
+		if (r <= 0) break;
+		output_size += (size_t) r;
 	}
-	size_t output_size = (size_t)r;
 
 	int status = 0;
 	proc.wait(proc, &status);
-	if (status != 0) {
-		panic("process exited with %d\n", status);
-	}
 
 	// Parse the output.
 	cgi.head_t head = {};
-	size_t headsize = cgi.parse_head(&head, output, (size_t) r);
+	size_t headsize = 0;
+	if (status == 0) headsize = cgi.parse_head(&head, output, output_size);
 	if (!headsize) {
-		panic("failed to parse cgi head");
+		http.write_500(req, conn);
+		OS.free(output);
+		return;
 	}
 
-	net.net_printf(conn, "%s 200 OK\n", req->version);
+	const char *code = "200";
+	for (size_t i = 0; i < head.nheaders; i++) {
+		if (!strcmp(head.headers[i].name, "Status")) {
+			code = head.headers[i].value;
+		}
+	}
+	if (!strcmp(code, "200")) code = "200 OK";
+
+	net.net_printf(conn, "%s %s\r\n", req->version, code);
 	for (size_t i = 0; i < head.nheaders; i++) {
 		char *name = head.headers[i].name;
 		char *value = head.headers[i].value;
-		if (!strcmp(name, "Status")) {
-			if (strcmp(value, "200")) {
-				panic("expected status '200', got '%s'", value);
-			}
+		// The status has been sent, and the length is known better here.
+		if (!strcmp(name, "Status") || !strcmp(name, "Content-Length")) {
 			continue;
 		}
-		if (!strcmp(name, "Content-Length")) {
-			panic("omitting content length");
-		}
-		net.net_printf(conn, "%s: %s\n", name, value);
+		net.net_printf(conn, "%s: %s\r\n", name, value);
 	}
 	net.net_printf(conn, "Content-Length: %zu\r\n", output_size - headsize);
 	net.net_printf(conn, "\r\n", 1);
 	net.write(conn, output + headsize, output_size - headsize);
+	OS.free(output);
 }
 
 proc.proc_t *start(char *path, http.request_t *req) {
@@ -59,7 +70,7 @@ proc.proc_t *start(char *path, http.request_t *req) {
 	char *env[100] = {};
 	char **p = env;
 	*p++ = strings.newstr("SERVER_NAME=%s", hostname);
-	*p++ = strings.newstr("SERVER_PORT", "todo", 1);
+	*p++ = strings.newstr("SERVER_PORT=%s", "todo");
 	*p++ = strings.newstr("SERVER_SOFTWARE=webserver");
 	*p++ = strings.newstr("SERVER_PROTOCOL=HTTP/1.0");
 	*p++ = strings.newstr("DOCUMENT_ROOT=%s", "todo");
@@ -83,7 +94,7 @@ proc.proc_t *start(char *path, http.request_t *req) {
 	printf("spawned process %d\n", proc->pid);
 	p = env;
 	while (*p) {
-		free(*p);
+		OS.free(*p);
 		p++;
 	}
 	return proc;
-- 
2.43.0


From ff2148d2022c8b482dfc8e15ed1f45003a30b222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 54/75] fix: webserver: a client that leaves does not end the
 server, sibling directories are not served

---
 prog/webserver/webserver.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index cf6a9d5..e3b7a2b 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -44,7 +44,7 @@ int main(int argc, char *argv[]) {
 
 		log_info("%s connected", net.net_addr(conn));
 
-		ctx_t *ctx = calloc!(1, sizeof(ctx));
+		ctx_t *ctx = calloc!(1, sizeof(ctx_t));
 		ctx->s = &SERVER;
 		ctx->conn = conn;
 		threads.start(client_routine, ctx);
@@ -61,7 +61,8 @@ void *client_routine(void *arg) {
 	http.request_t req = {};
 	while (true) {
 		if (!http.read_request(re, &req)) {
-			panic("failed to read request: %s", strerror(errno));
+			// The client has left or sent something that is not a request.
+			break;
 		}
 		log_info("%s %s", req.method, req.path);
 
@@ -93,9 +94,11 @@ void *client_routine(void *arg) {
 		} else {
 			http.servefile(&req, conn, filepath);
 		}
+		OS.free(filepath);
 	}
 	reader.free(re);
 	net.close(conn);
+	OS.free(ctx);
 	return NULL;
 }
 
@@ -116,10 +119,17 @@ char *resolve_path(const char *homedir, *reqpath) {
     if (!fs.realpath(naive_path, realpath, sizeof(realpath))) {
         return NULL;
     }
-    if (!strings.starts_with(realpath, homedir)) {
+    // The path has to continue with a separator: "/home/site-old" is not in "/home/site".
+    size_t n = strlen(homedir);
+    bool inside = strings.starts_with(realpath, homedir)
+        && (homedir[n-1] == '/' || realpath[n] == '/' || realpath[n] == '\0');
+    if (!inside) {
         printf("resolved path \"%s\" doesn't start with homedir=\"%s\"\n", realpath, homedir);
         return NULL;
     }
+    if (fs.is_dir(realpath)) {
+        return NULL;
+    }
     return strings.newstr("%s", realpath);
 }
 
-- 
2.43.0


From a625fe4998772757eef227ea49de152a8543a64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 55/75] fix: srt: text lines made of digits, empty files and
 long lines are read

---
 lib/formats/srt.c | 63 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 48 insertions(+), 15 deletions(-)

diff --git a/lib/formats/srt.c b/lib/formats/srt.c
index 30cd902..1860487 100644
--- a/lib/formats/srt.c
+++ b/lib/formats/srt.c
@@ -4,34 +4,42 @@
 pub typedef {
 	char linebuf[4096];
 	bool line_loaded;
+
+	// The line after linebuf, if it has been looked at.
+	char nextbuf[4096];
+	bool next_loaded;
 } reader_t;
 
 pub typedef {
 	int index;
-	char range[40];
+	char range[200];
 	char text[1000];
 	time.duration_t begin, end;
 } block_t;
 
 // Reads a subtitle block from r into b.
 pub bool readblock(reader_t *r, block_t *b) {
-	if (feof(stdin)) {
+	if (!r->line_loaded && !loadline(r)) {
 		return false;
 	}
-	if (!r->line_loaded) {
-		loadline(r);
-		r->line_loaded = true;
+	// Skip empty lines.
+	while (isblankline(r->linebuf)) {
+		if (!loadline(r)) return false;
 	}
 
 	b->index = parse_num(r->linebuf);
 	loadline(r);
 
+	if (strlen(r->linebuf) >= sizeof(b->range)) {
+		panic("range buffer is too small");
+	}
 	strcpy(b->range, r->linebuf);
 	loadline(r);
 
 	b->text[0] = '\0';
-	while (true) {
-		if (parse_num(r->linebuf)) break;
+	while (r->line_loaded) {
+		// A number begins the next block only if a time range follows.
+		if (parse_num(r->linebuf) && rangefollows(r)) break;
 		if (strlen(b->text) + strlen(r->linebuf) >= sizeof(b->text)) {
 			panic("text buffer is too small");
 		}
@@ -48,7 +56,7 @@ pub bool readblock(reader_t *r, block_t *b) {
 	// 00:01:32,320 --> 00:01:33,160
 	char sbegin[20] = {};
 	char send[20] = {};
-	sscanf(b->range, "%s --> %s", sbegin, send);	
+	sscanf(b->range, "%19s --> %19s", sbegin, send);	
 	b->begin = parsepos(sbegin);
 	b->end = parsepos(send);
 	return true;
@@ -85,20 +93,45 @@ pub void printblock(block_t *b) {
 	printf("\n");
 }
 
+// Replaces the current line with the next one.
+// Returns false and has no current line if there are no more lines.
 bool loadline(reader_t *r) {
-	char *p = r->linebuf;
+	if (r->next_loaded) {
+		strcpy(r->linebuf, r->nextbuf);
+		r->next_loaded = false;
+		r->line_loaded = true;
+	} else {
+		r->line_loaded = readline(r->linebuf, sizeof(r->linebuf));
+	}
+	return r->line_loaded;
+}
+
+// Returns true if the line after the current one is a time range.
+bool rangefollows(reader_t *r) {
+	if (!r->next_loaded) {
+		r->next_loaded = readline(r->nextbuf, sizeof(r->nextbuf));
+	}
+	return r->next_loaded && strstr(r->nextbuf, "-->") != NULL;
+}
+
+bool readline(char *buf, size_t size) {
+	size_t n = 0;
 	while (true) {
 		int c = fgetc(stdin);
 		if (c == EOF) break;
 		if (c == '\r') continue;
-		*p++ = c;
+		if (n + 1 == size) panic("line is too long");
+		buf[n++] = c;
 		if (c == '\n') break;
 	}
-	if (p == (char *) r->linebuf) {
-		return false;
-	}
-	*p++ = '\0';
-	return true;
+	buf[n] = '\0';
+	return n > 0;
+}
+
+bool isblankline(const char *s) {
+	const char *p = s;
+	while (isspace(*p)) p++;
+	return *p == '\0';
 }
 
 int parse_num(char *s) {
-- 
2.43.0


From 314b1d99b68a3bcb07c8eb2a4d1bf839cf04c870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 56/75] fix: vtt: the last cue needs no blank line, long cues
 do not overflow

---
 lib/formats/vtt.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/formats/vtt.c b/lib/formats/vtt.c
index 1727773..1193ef6 100644
--- a/lib/formats/vtt.c
+++ b/lib/formats/vtt.c
@@ -62,6 +62,8 @@ bool init(reader_t *r) {
 
 // Reads the next subtitle.
 pub bool read(reader_t *r) {
+	if (r->error) return false;
+
 	// Skip empty lines
 	while (true) {
 		if (!loadline(r)) return false;
@@ -77,13 +79,12 @@ pub bool read(reader_t *r) {
 	// Text lines
 	if (r->text) r->text[0] = '\0';
 	while (true) {
-		if (!loadline(r)) return false;
-
-		// Stop at an empty line.
+		// Stop at the end of the file or at an empty line.
+		if (!loadline(r)) break;
 		if (r->line[0] == '\0') break;
 
 		if (strlen(r->text) + strlen(r->line) + 2 > r->textcap) {
-			r->textcap *= 2;
+			r->textcap = 2 * (strlen(r->text) + strlen(r->line) + 2);
 			r->text = realloc(r->text, r->textcap);
 			if (!r->text) panic("realloc failed");
 		}
-- 
2.43.0


From 8a0846cb1c677bced6045f4e3197c4894713d129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 57/75] fix: cue: long index lines do not overflow, frames keep
 their precision

---
 lib/formats/cue.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/formats/cue.c b/lib/formats/cue.c
index c26fcee..42d5880 100644
--- a/lib/formats/cue.c
+++ b/lib/formats/cue.c
@@ -193,6 +193,7 @@ void index(tokenizer.t *b, index_t *r) {
 	int i = 0;
 	while (tokenizer.more(b)) {
 		int ch = tokenizer.get(b);
+		if (i + 1 == (int) sizeof(val)) panic("index is too long");
 		val[i++] = ch;
 		if(ch == '\n') break;
 	}
@@ -211,9 +212,12 @@ void index(tokenizer.t *b, index_t *r) {
 }
 
 time.duration_t index_pos(index_t *r) {
-	int sec = (r->frames / 75) + (r->sec ) + (60 * r->min);
+	// There are 75 frames in a second.
+	int64_t us = 1000000;
+	us *= r->sec + 60 * r->min;
+	us += r->frames * 1000000 / 75;
 	time.duration_t p = {};
-	time.dur_set(&p, sec, time.SECONDS);
+	p.us = us;
 	return p;
 }
 
-- 
2.43.0


From 24fccd76b94a4952e4fdc87e28783b823a93cbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:48:16 +0000
Subject: [PATCH 58/75] fix: xml: truncated documents end in an error, not in
 an endless loop

---
 lib/formats/xml.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/formats/xml.c b/lib/formats/xml.c
index 3f56f5b..fd7d512 100644
--- a/lib/formats/xml.c
+++ b/lib/formats/xml.c
@@ -180,7 +180,7 @@ pub bool xml_enter(xml *x)
 			return true;
 		}
 	}
-	panic("xml error 0152");
+	error(x, "Unexpected end of file");
 	return false;
 }
 
@@ -241,6 +241,16 @@ pub void xml_leave(xml *x)
 	 */
 	while(x->node.type != T_NULL) {
 		xml_next(x);
+		if (x->error[0]) {
+			return;
+		}
+	}
+
+	/*
+	 * There is nothing to leave at the top.
+	 */
+	if (x->pathlen == 0) {
+		return;
 	}
 
 	/*
-- 
2.43.0


From 340e69b95b61e577c13c2e125b4527358dc9ade1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:09 +0000
Subject: [PATCH 59/75] fix: image: blending keeps the sign of the colours
 apart, narrow test images do not divide by zero

---
 lib/image.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/image.c b/lib/image.c
index 046a20e..fcf29c7 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -74,7 +74,7 @@ pub void blend(image_t *img, int x, y, rgba_t color, float opacity) {
 }
 
 int blendcolor(int old, new, float opacity) {
-	float oldpart = (opacity-1) * (float) old;
+	float oldpart = (1-opacity) * (float) old;
 	float newpart = opacity * (float) new;
 	return oldpart + newpart;
 }
@@ -254,6 +254,7 @@ pub void testimage(image_t *img) {
 		{0, 0, 255, 0}, // Blue
 	};
 	int w = img->width / nelem(seq);
+	if (w == 0) w = 1;
 	for (int y = 0; y < img->height; y++) {
 		for (int x = 0; x < img->width; x++) {
 			int i = (x / w) % nelem(seq);
-- 
2.43.0


From c08c57be87b8e972824b9080aedfa0cbb7de7edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:10 +0000
Subject: [PATCH 60/75] fix: ppm: pixels are written red, green, blue

---
 lib/formats/ppm.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/formats/ppm.c b/lib/formats/ppm.c
index b97700c..387b962 100644
--- a/lib/formats/ppm.c
+++ b/lib/formats/ppm.c
@@ -11,7 +11,8 @@ pub void writeimg(image.image_t *img, FILE *f) {
 			uint32_t ir = c0.red;
 			uint32_t ig = c0.green;
 			uint32_t ib = c0.blue;
-			buf = (ir << 16) | (ig << 8) | ib;
+			// Three bytes in the order red, green, blue.
+			buf = (ib << 16) | (ig << 8) | ir;
 			fwrite(&buf, 3, 1, f);
 		}
 	}
-- 
2.43.0


From 7b01030540c9621070de09a31cd6028534701ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:10 +0000
Subject: [PATCH 61/75] fix: wav: samples are rounded and clamped, truncated
 and oversized chunks are refused, reading ends with the file

---
 lib/formats/wav.c | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/lib/formats/wav.c b/lib/formats/wav.c
index 7ab45d3..dc24df4 100644
--- a/lib/formats/wav.c
+++ b/lib/formats/wav.c
@@ -141,7 +141,7 @@ bool read_headers(reader.t *r, wav_t *wp, uint32_t *datalen) {
 	if (strcmp(tag, "data") != 0) {
 		panic("expected \"data\" chunk, got \"%s\"", tag);
 	}
-    endian.read4le(r, datalen);
+    if (endian.read4le(r, datalen) != 4) return false;
 	return true;
 }
 
@@ -207,7 +207,12 @@ void write_fmt(writer.t *bw, wav_t fmt) {
 }
 
 pub bool more(reader_t *r) {
-	return r->done < r->datalen;
+	if (r->done >= r->datalen) return false;
+	// The length of a stream is not known in advance, it ends with the file.
+	int c = fgetc(r->file);
+	if (c == EOF) return false;
+	ungetc(c, r->file);
+	return true;
 }
 
 int read_sample0(reader_t *r) {
@@ -265,13 +270,18 @@ pub void write_sample(writer_t *w, double left, right) {
 	// Assuming 16-bit stereo.
 	double scale = (1 << 15) - 1;
 
-	int s = (int) (left * scale);
-	if (s < 0) s += 65536;
-	endian.write2le(w->writer, (uint16_t) s);
+	endian.write2le(w->writer, pcm16(left * scale));
+	endian.write2le(w->writer, pcm16(right * scale));
+}
 
-	s = (int) (right * scale);
+// Returns the 16-bit representation of the sample value nearest to v.
+uint16_t pcm16(double v) {
+	double x = floor(v + 0.5);
+	if (x < -32768) x = -32768;
+	if (x > 32767) x = 32767;
+	int s = (int) x;
 	if (s < 0) s += 65536;
-	endian.write2le(w->writer, (uint16_t) s);
+	return (uint16_t) s;
 }
 
 pub void close_reader(reader_t *r) {
@@ -291,18 +301,21 @@ bool readinfo(reader.t *r) {
     if (!expect_tag(r, "INFO")) {
 		return false;
 	}
+    if (listlen < 4) return false;
     listlen -= 4;
 
     while (listlen > 0) {
+		if (listlen < 8) return false;
 		// Read 4-byte entry name.
         char key[5] = {};
         reader.read(r, (uint8_t*)key, 4);
 		listlen -= 4;
 
 		// Read 4-byte value length.
-        uint32_t infolen;
-        endian.read4le(r, &infolen);
+        uint32_t infolen = 0;
+        if (endian.read4le(r, &infolen) != 4) return false;
         listlen -= 4;
+        if (infolen > listlen || infolen >= sizeof(tmp)) return false;
 
         reader.read(r, (uint8_t*)tmp, infolen);
         tmp[infolen] = '\0';
@@ -311,7 +324,7 @@ bool readinfo(reader.t *r) {
 
 		// Wav postulates 2-byte chunk boundaries, so skip a trailing byte
 		// for odd chunks.
-        if (infolen % 2 != 0) {
+        if (infolen % 2 != 0 && listlen > 0) {
             reader.read(r, (uint8_t*)tmp, 1);
             listlen -= 1;
         }
-- 
2.43.0


From 1d56b8944daeff037fb45fd158658763c0f6da34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:10 +0000
Subject: [PATCH 62/75] fix: tiff: reads stay inside the file, directory loops
 are refused, short strings are inline

---
 lib/formats/tiff.c | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/lib/formats/tiff.c b/lib/formats/tiff.c
index b10e8de..9cedb80 100644
--- a/lib/formats/tiff.c
+++ b/lib/formats/tiff.c
@@ -11,6 +11,7 @@ pub typedef {
 } file_t;
 
 pub typedef {
+	size_t pos; // where the directory is in the file
 	size_t nentries;
 	entry_t **entries;
 } dir_t;
@@ -84,6 +85,9 @@ pub file_t *parse(uint8_t *data, size_t n) {
 		if (!pos) {
 			break;
 		}
+		for (size_t i = 0; i < f->ndirs; i++) {
+			if (f->dirs[i]->pos == pos) panic("directories form a loop");
+		}
 		f->pos = pos;
 		read_dir(f);
 	}
@@ -107,9 +111,11 @@ pub void setpos(file_t *f, uint32_t pos) {
 // Reads a directory at current file position
 pub void read_dir(file_t *tiff) {
 	// Number of entries in the directory.
+	size_t pos = tiff->pos;
 	int n = readbytes(tiff, 2);
 
 	dir_t *dir = calloc!(1, sizeof(dir_t));
+	dir->pos = pos;
 	dir->entries = calloc!(n, sizeof( dir->entries[0] ));
 	dir->nentries = n;
 
@@ -153,14 +159,34 @@ pub void freefile(file_t *tf) {
 // The string must be freed by the caller.
 pub char *getstring(entry_t *e) {
 	file_t *tf = e->file;
+	if (e->count > tf->datalen) {
+		panic("value is out of the file");
+	}
 	char *buffer = calloc!(e->count + 1, 1);
+	// A value that fits into the entry is there itself.
+	if (e->count <= 4) {
+		for (size_t i = 0; i < e->count; i++) {
+			size_t k = i;
+			if (tf->endiannes == BIG) k = 3 - i;
+			buffer[i] = (char) ((e->value >> (8 * k)) & 255);
+		}
+		return buffer;
+	}
 	tf->pos = e->value;
+	checkrange(tf, e->count);
 	for (size_t i = 0; i < e->count; i++) {
 		buffer[i] = (char) tf->data[tf->pos++];
 	}
 	return buffer;
 }
 
+// Panics if there are less than n bytes at the current position.
+void checkrange(file_t *tf, size_t n) {
+	if (tf->pos > tf->datalen || tf->datalen - tf->pos < n) {
+		panic("value is out of the file");
+	}
+}
+
 // Reads a rational value at the current position.
 pub double read_rational(file_t *tf) {
 	uint32_t num = readbytes(tf, 4);
@@ -170,6 +196,7 @@ pub double read_rational(file_t *tf) {
 
 // Reads n bytes at the current position.
 pub uint32_t readbytes(file_t *tf, size_t n) {
+	checkrange(tf, n);
 	uint32_t val = 0;
 	switch (tf->endiannes) {
 		case BIG: {
-- 
2.43.0


From 371d88ea0f312e184faf2b49394da195a2e0d60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:10 +0000
Subject: [PATCH 63/75] fix: table: every column has room for its longest value

---
 lib/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/table.c b/lib/table.c
index 632a55d..6856992 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -41,7 +41,7 @@ pub void print(table_t *t) {
 	for (size_t i = 0; i < t->pos; i++) {
 		size_t col = i % t->ncols;
 		size_t len = strlen(t->values[i]);
-		if (len > widths[col]) {
+		if (len + 2 > widths[col]) {
 			widths[col] = len + 2;
 		}
 	}
-- 
2.43.0


From ce34eaebfd24f658765f8374364f028cfbf9142b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:10 +0000
Subject: [PATCH 64/75] fix: stats: the 100th percentile and an empty series
 stay inside the values

---
 lib/stats.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/stats.c b/lib/stats.c
index 3a2e4b6..ea1329c 100644
--- a/lib/stats.c
+++ b/lib/stats.c
@@ -89,7 +89,7 @@ pub double sd(series_t *s) {
 }
 
 pub double percentile(series_t *s, int p) {
-    if (p < 0 || p > 100) {
+    if (p < 0 || p > 100 || s->len == 0) {
         return 0;
     }
     if (!s->sorted_values) {
@@ -100,7 +100,9 @@ pub double percentile(series_t *s, int p) {
         qsort(tmp, s->len, sizeof(double), doublecmp);
         s->sorted_values = tmp;
     }
-    double val = s->sorted_values[(int) (s->len * p / 100)];
+    size_t i = s->len * p / 100;
+    if (i == s->len) i--;
+    double val = s->sorted_values[i];
     return val;
 }
 
-- 
2.43.0


From fc9fbc3353fbfdd8c6998e4136be4feef056bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:10 +0000
Subject: [PATCH 65/75] fix: rnd: u stays below one

---
 lib/rnd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rnd.c b/lib/rnd.c
index 3d80d17..02c3fc1 100644
--- a/lib/rnd.c
+++ b/lib/rnd.c
@@ -36,5 +36,5 @@ pub uint32_t intn(uint32_t n) {
 
 // Returns a random number uniformly distributed in [0, 1).
 pub double u() {
-    return (double) pcg32() / 0xffffffff;
+    return (double) pcg32() / 4294967296.0;
 }
-- 
2.43.0


From f6283a62f7982e5b35c645eaded9afdf70ae8190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:10 +0000
Subject: [PATCH 66/75] fix: functions that return pointers to pointers to void
 need a return too

---
 src/translator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index 1d55c27..c677eb5 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1090,7 +1090,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
     }
     end_scope(ctx)?;
 
-    if (!nodes::is_void(&x.typename) || x.form.hops == 1) && !body_returns(&x.body) {
+    if (!nodes::is_void(&x.typename) || x.form.hops > 0) && !body_returns(&x.body) {
         return Err(BuildError {
             message: format!("{}: missing return", x.form.name),
             pos: x.pos.fmt(),
-- 
2.43.0


From af61626958735ee80c029adf54e3a25e9b6c4a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:06 +0000
Subject: [PATCH 67/75] fix: mime: the types of ppt, webm, webp and 3g2 are the
 registered ones

---
 lib/mime.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/mime.c b/lib/mime.c
index 0b0baf3..6b0d99c 100644
--- a/lib/mime.c
+++ b/lib/mime.c
@@ -50,7 +50,7 @@ kv_t table[] = {
     { "png",  "image/png" },
     { "pdf",  "application/pdf" },
     { "php",  "application/x-httpd-php" },
-    { "ppt",  "application.vnd.openxmlformats-officedocument.presentationml.presentation" },
+    { "ppt",  "application/vnd.ms-powerpoint" },
     { "rar",  "application/vnd.rar" },
     { "rtf",  "application/rtf" },
     { "svg",  "image/svg+xml" },
@@ -63,8 +63,8 @@ kv_t table[] = {
     { "vsd",  "application/vnd.visio" },
     { "wav",  "audio/wav" },
     { "weba", "audio/webm" },
-    { "webm", "audio/webm" },
-    { "webp", "audio/webp" },
+    { "webm", "video/webm" },
+    { "webp", "image/webp" },
     { "woff2","font/woff2" },
     { "xhtml","application/xhtml+xml" },
     { "xls",  "application/vnd.ms-excel" },
@@ -73,7 +73,7 @@ kv_t table[] = {
     { "xul",  "application/vnd.mozilla.xul+xml" },
     { "zip",  "application/zip" },
     { "3gp",  "video/3gpp" },
-    { "3g2",  "video/3gpp" },
+    { "3g2",  "video/3gpp2" },
     { "7z",   "application/x-7z-compressed" },
     { NULL, NULL }
 };
-- 
2.43.0


From a9eecf85ae3d8a93a4e38e85f3375b745a8e8dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:06 +0000
Subject: [PATCH 68/75] fix: fs: dots in directory names are no file extension,
 a name without one has an empty extension

---
 lib/os/fs.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/os/fs.c b/lib/os/fs.c
index d02fd43..a8b6977 100644
--- a/lib/os/fs.c
+++ b/lib/os/fs.c
@@ -191,21 +191,21 @@ pub bool file_exists(const char *path) {
 
 // Returns ptr to the start of file extension within filepath.
 // Ex. "path/to/index.html" returns "html"
+// If the file name has no extension, returns an empty string.
 pub const char *fileext(const char *filepath) {
-    int filepath_len = strlen(filepath);
-    // filepath of "" returns ext of "".
-    if (filepath_len == 0) {
-        return filepath;
-    }
-
-    const char *p = filepath + strlen(filepath) - 1;
-    while (p >= filepath) {
+    const char *end = filepath + strlen(filepath);
+    const char *p = end;
+    while (p > filepath) {
+        p--;
         if (*p == '.') {
             return p+1;
         }
-        p--;
+        // Dots in the names of directories don't count.
+        if (*p == '/') {
+            break;
+        }
     }
-    return filepath;
+    return end;
 }
 
 // Returns "base name" of a file path.
-- 
2.43.0


From cc6fd4bd26f918fc0e1f8c6ff953528187bf1b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:06 +0000
Subject: [PATCH 69/75] fix: fs: realpath does not write into a buffer of no
 bytes

---
 lib/os/fs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/os/fs.c b/lib/os/fs.c
index a8b6977..7de7964 100644
--- a/lib/os/fs.c
+++ b/lib/os/fs.c
@@ -51,7 +51,7 @@ pub bool realpath(const char *path, char *buf, size_t n) {
     if (!OS.realpath(path, tmp)) {
         return false;
     }
-    if (strlen(tmp) > n-1) {
+    if (strlen(tmp) >= n) {
         // buf is too small.
         return false;
     }
-- 
2.43.0


From f3874dd74b8ee66b7ff64963a4383d3e7cf89e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:06 +0000
Subject: [PATCH 70/75] fix: proc: buffered output of the parent is not
 repeated by its children

---
 lib/os/proc.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/os/proc.c b/lib/os/proc.c
index 14960d0..2450439 100644
--- a/lib/os/proc.c
+++ b/lib/os/proc.c
@@ -41,6 +41,9 @@ pub proc_t *spawn(char *argv[], *env[]) {
         return NULL;
     }
 
+    // What is still in the output buffers should not be written twice.
+    OS.fflush(NULL);
+
     int pid = OS.fork();
     if (pid < 0) {
         OS.close(in[0]); OS.close(in[1]);
@@ -121,6 +124,8 @@ pub void parallel(workerfunc_t f, void **jobs) {
 }
 
 void spawnp(workerfunc_t f, void *job) {
+    // What is still in the output buffers should not be written twice.
+    OS.fflush(NULL);
     int pid = OS.fork();
     if (pid < 0) panic("fork failed");
     if (pid > 0) return;
-- 
2.43.0


From 72bf11d01c24cce1ebc0640e186fc4b4b83cba45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:06 +0000
Subject: [PATCH 71/75] fix: proc: wait ends the input of the process, so that
 one reading to the end does not hang

---
 lib/os/proc.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/os/proc.c b/lib/os/proc.c
index 2450439..97a2d76 100644
--- a/lib/os/proc.c
+++ b/lib/os/proc.c
@@ -87,12 +87,13 @@ pub proc_t *spawn(char *argv[], *env[]) {
 }
 
 pub bool wait(proc_t *p, int *status) {
+	// The process might be waiting for the end of its input.
+	OS.close(p->fds[0]);
     bool ok = OS.waitpid(p->pid, status, 0) == p->pid;
 	reader.free(p->stdout);
 	reader.free(p->stderr);
-	for (int i = 0; i < 3; i++) {
-		OS.close(p->fds[i]);
-	}
+	OS.close(p->fds[1]);
+	OS.close(p->fds[2]);
     free(p);
     return ok;
 }
-- 
2.43.0


From 20f35cec2f96ac5637aab654b22b3a2fc284acc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:06 +0000
Subject: [PATCH 72/75] fix: proc: children do not hold each other's pipes open

---
 lib/os/proc.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/os/proc.c b/lib/os/proc.c
index 97a2d76..9cc4ee1 100644
--- a/lib/os/proc.c
+++ b/lib/os/proc.c
@@ -1,4 +1,5 @@
 #include <sys/types.h>
+#include <fcntl.h>
 #include <unistd.h>
 #include <sys/wait.h>
 #include <unistd.h>
@@ -41,6 +42,12 @@ pub proc_t *spawn(char *argv[], *env[]) {
         return NULL;
     }
 
+    // Our ends are not for the processes that will be spawned later:
+    // they would keep each other's pipes open.
+    OS.fcntl(in[1], OS.F_SETFD, OS.FD_CLOEXEC);
+    OS.fcntl(out[0], OS.F_SETFD, OS.FD_CLOEXEC);
+    OS.fcntl(err[0], OS.F_SETFD, OS.FD_CLOEXEC);
+
     // What is still in the output buffers should not be written twice.
     OS.fflush(NULL);
 
@@ -80,6 +87,9 @@ pub proc_t *spawn(char *argv[], *env[]) {
         if (OS.dup2(err[1], OS.STDERR_FILENO) < 0) {
             panic("dup2 failed");
         }
+        if (in[0] > 2) OS.close(in[0]);
+        if (out[1] > 2) OS.close(out[1]);
+        if (err[1] > 2) OS.close(err[1]);
         OS.execve(argv[0], argv, env);
         // Shouldn't reach here.
         panic("execve '%s' failed: %s\n", argv[0], strerror(errno));
-- 
2.43.0


From 65d1cea5627b5507985f69c2c985ef2368bc794d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:25 +0000
Subject: [PATCH 73/75] fix: question marks in string literals make no
 trigraphs

---
 src/format_c.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/format_c.rs b/src/format_c.rs
index 77ec32f..92df0c1 100644
--- a/src/format_c.rs
+++ b/src/format_c.rs
@@ -382,6 +382,9 @@ fn format_literal(node: &CLiteral) -> String {
         CLiteral::String(val) => {
             return val
                 .split("\n")
+                // Keep question marks apart: "??!" is a trigraph in C.
+                // Two passes because the matches in "???" overlap.
+                .map(|line| line.replace("??", "?\"\"?").replace("??", "?\"\"?"))
                 .map(|line| format!("\"{}\"", line))
                 .collect::<Vec<String>>()
                 .join("\"\\n\"\n");
-- 
2.43.0


From ba67df6dafa3de50f6df97b13ef0b1de6325b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:09 +0000
Subject: [PATCH 74/75] fix: exported names are valid C whatever the module's
 file is called

---
 src/build.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/build.rs b/src/build.rs
index 26489bb..d7c7ed5 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -188,7 +188,10 @@ pub fn parse_project(mainpath: &String) -> Result<Project, Vec<BuildError>> {
     // Every modhead already has a unique key based on path, but we'll give
     // them nicer ones here to make outputs easier for debugging.
     for (i, m) in modheads.iter_mut().enumerate() {
-        m.uniqid = format!("mod{}_{}", i, basename(&m.filepath).replace(".c", ""));
+        // They prefix C identifiers, so they have to be valid in C.
+        let name = basename(&m.filepath).replace(".c", "");
+        let name = name.replace(|c: char| !c.is_ascii_alphanumeric(), "_");
+        m.uniqid = format!("mod{}_{}", i, name);
     }
 
     let modules = parse_mods(&modheads)?;
-- 
2.43.0


From 22829aea08b893252544e959ecffc322bce39086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:54:09 +0000
Subject: [PATCH 75/75] fix: a module's macros do not reach the modules that
 import it

---
 src/translator.rs | 49 +++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 45 insertions(+), 4 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index c677eb5..4683bcf 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -112,6 +112,7 @@ struct TrCtx {
     scopes: Vec<Vec<Binding>>,
     used_ns: HashSet<String>,
     used_customs: HashSet<String>,
+    macros: HashSet<String>,
     struct_typedefs: HashMap<String, nodes::StructTypedef>,
     other_typedefs: HashMap<String, TI>,
 }
@@ -238,6 +239,7 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
         this_mod_head: params.this_mod_head.clone(),
         used_ns: HashSet::new(),
         used_customs: HashSet::new(),
+        macros: HashSet::new(),
         struct_typedefs: HashMap::new(),
         other_typedefs: HashMap::new(),
     };
@@ -260,6 +262,7 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                         types::todo()
                     };
                     add_binding(&mut ctx, &id, x.pos.clone(), false, typ)?;
+                    ctx.macros.insert(String::from(id));
                 }
             }
             nodes::ModElem::Enum(x) => {
@@ -475,7 +478,7 @@ fn tr_mod_elem(element: &nodes::ModElem, ctx: &mut TrCtx) -> Result<Vec<c::ModEl
         nodes::ModElem::StructTypedef(x) => tr_struct_typedef(&x, ctx),
         nodes::ModElem::FuncDecl(x) => tr_func_decl(&x, ctx),
         nodes::ModElem::Enum(x) => tr_enum(&x, ctx),
-        nodes::ModElem::Macro(x) => Ok(tr_macro(&x)),
+        nodes::ModElem::Macro(x) => Ok(tr_macro(&x, ctx)),
         nodes::ModElem::ModVar(x) => tr_modvar(&x, ctx),
     }
 }
@@ -672,17 +675,53 @@ fn tr_enum(x: &nodes::Enum, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>, BuildErr
     })])
 }
 
-fn tr_macro(x: &nodes::Macro) -> Vec<c::ModElem> {
+fn tr_macro(x: &nodes::Macro, ctx: &TrCtx) -> Vec<c::ModElem> {
     let name = &x.name;
     if name == "type" || name == "link" {
         return vec![];
     }
+    let value = if name == "define" {
+        prefix_macros(&x.value, ctx)
+    } else {
+        x.value.clone()
+    };
     return vec![c::ModElem::Macro(c::Macro {
         name: name.clone(),
-        value: x.value.clone(),
+        value,
     })];
 }
 
+// Adds the module's prefix to the module's macro names in a macro definition.
+// C definitions of a macro go to all importing modules because the exported
+// types may need them, so their names have to be unique.
+fn prefix_macros(text: &str, ctx: &TrCtx) -> String {
+    let mut r = String::new();
+    let mut word = String::new();
+    let mut quote = None;
+    let mut escaped = false;
+    for c in text.chars().chain(std::iter::once('\n')) {
+        if quote.is_none() && (c.is_ascii_alphanumeric() || c == '_') {
+            word.push(c);
+            continue;
+        }
+        if ctx.macros.contains(&word) {
+            r += &nsprefix(&ctx.this_mod_head.uniqid, &word);
+        } else {
+            r += &word;
+        }
+        word.clear();
+        r.push(c);
+        match quote {
+            Some(q) if c == q && !escaped => quote = None,
+            None if c == '"' || c == '\'' => quote = Some(c),
+            _ => {}
+        }
+        escaped = c == '\\' && !escaped;
+    }
+    r.pop();
+    r
+}
+
 // int foo = 12;
 fn tr_modvar(x: &nodes::VarDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>, BuildError> {
     Ok(vec![c::ModElem::VarDecl(c::VarDecl {
@@ -1252,7 +1291,9 @@ fn tr_nsid(nsid: &nodes::NsName, ctx: &mut TrCtx) -> Result<String, BuildError>
         return Ok(nsprefix(id, &nsid.name));
     }
     let b = find_binding(ctx, &nsid.name);
-    let name = if b.is_some() && b.unwrap().ispub {
+    let is_macro = ctx.macros.contains(&nsid.name)
+        && !ctx.scopes[1..].iter().flatten().any(|b| b.name == nsid.name);
+    let name = if is_macro || b.is_some() && b.unwrap().ispub {
         nsprefix(&ctx.this_mod_head.uniqid, &nsid.name)
     } else {
         nsid.name.clone()
-- 
2.43.0

