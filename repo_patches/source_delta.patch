From a69ab6081b918864b7c53ce4c1a04c8e1c513c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:33 +0000
Subject: [PATCH 01/50] fix: keep the grouping of operands in generated C
 expressions

---
 src/format_c.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/format_c.rs b/src/format_c.rs
index 9747409..563e23d 100644
--- a/src/format_c.rs
+++ b/src/format_c.rs
@@ -142,7 +142,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
                 s1 += &fmt_expr(&argument);
             }
             s1 += ")";
-            return format!("{}{}", fmt_expr(&function), s1);
+            return format!("{}{}", fmt_postfix_target(&function), s1);
         }
         Expr::Literal(x) => format_literal(x),
         Expr::Ident(x) => x.clone(),
@@ -185,15 +185,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
             target,
             field_name,
         } => {
-            match is_op(target) {
-                Some(targetop) => {
-                    if parser::operator_strength(&targetop) < parser::operator_strength(op) {
-                        return format!("({}){}{}", fmt_expr(target), op, field_name);
-                    }
-                }
-                None => {}
-            }
-            return format!("{}{}{}", fmt_expr(target), op, field_name);
+            return format!("{}{}{}", fmt_postfix_target(target), op, field_name);
         }
         Expr::BinaryOp(x) => format_binary_op(&x),
         Expr::PrefixOp { operator, operand } => {
@@ -220,15 +212,32 @@ pub fn fmt_expr(expr: &Expr) -> String {
                         fmt_expr(&operand)
                     )
                 ),
+                Expr::PrefixOp {
+                    operator: inner, ..
+                } if operator.chars().last() == inner.chars().next() && operator != "*" => {
+                    // Keep "- -x" and "- --x" from merging into other tokens.
+                    format!("{}({})", operator, fmt_expr(&operand))
+                }
                 _ => format!("{}{}", operator, fmt_expr(&operand)),
             };
         }
         Expr::PostfixOp { operator, operand } => {
-            return fmt_expr(&operand) + &operator;
+            return fmt_postfix_target(&operand) + &operator;
         }
         Expr::ArrayIndex { array, index } => {
-            return format!("{}[{}]", fmt_expr(array), fmt_expr(index));
+            return format!("{}[{}]", fmt_postfix_target(array), fmt_expr(index));
+        }
+    }
+}
+
+// Formats the operand of a postfix operator: call, index, field access, ++, --.
+// These bind stronger than anything else, so everything weaker is wrapped.
+fn fmt_postfix_target(e: &Expr) -> String {
+    match e {
+        Expr::BinaryOp(_) | Expr::PrefixOp { .. } | Expr::Cast { .. } | Expr::Sizeof { .. } => {
+            format!("({})", fmt_expr(e))
         }
+        _ => fmt_expr(e),
     }
 }
 
@@ -254,10 +263,13 @@ fn is_op(e: &Expr) -> Option<String> {
 
 fn format_binary_op(x: &c::BinaryOp) -> String {
     let op = &x.op;
-    let fmtop = |a: &Expr| {
+    let fmtop = |a: &Expr, is_right: bool| {
         if let Some(k) = is_op(a) {
             // Wrap weaker operands in braces to keep precedence.
             if parser::operator_strength(&k) < parser::operator_strength(op)
+				// The operators are left-associative, so a right operand of
+				// the same strength must have been in braces in the source.
+                || (is_right && parser::operator_strength(&k) == parser::operator_strength(op))
 				// Wrap these bit ops too even when precedence is ok
 				// because compilers are getting paranoid.
                 || op == "&"
@@ -269,7 +281,7 @@ fn format_binary_op(x: &c::BinaryOp) -> String {
         }
         fmt_expr(a)
     };
-    format!("{} {} {}", fmtop(&x.a), op.clone(), fmtop(&x.b))
+    format!("{} {} {}", fmtop(&x.a, false), op.clone(), fmtop(&x.b, true))
 }
 
 fn indent(text: &str) -> String {
-- 
2.43.0


From 743942739767b59eccdc81cf42f96f76cbc8e1aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:14 +0000
Subject: [PATCH 02/50] fix: translate the <<= and >>= operators instead of
 panicking

---
 src/translator.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/translator.rs b/src/translator.rs
index bf7d265..603fd91 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -749,7 +749,9 @@ fn tr_binary_op(x: &nodes::BinaryOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>,
         "==" | "<" | ">" | "!=" | ">=" | "<=" => types::typeof_cmp(&at, &bt),
         "-" | "+" => types::typeof_plusminus(x.op.as_str(), &at, &bt),
         "*" | "/" | "%" | "<<" | ">>" | "&" | "|" | "^" => types::typeof_arith(&at, &bt),
-        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" => Ok(types::just("void")),
+        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" | "<<=" | ">>=" => {
+            Ok(types::just("void"))
+        }
         _ => {
             todo!("{} binop", x.op);
         }
-- 
2.43.0


From e23dd85b79e28478c31b40a551c2cad9242e0ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:27 +0000
Subject: [PATCH 03/50] fix: report unterminated literals at the end of a file
 instead of panicking

---
 src/lexer.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index ab5b1a6..605a6f3 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -121,7 +121,7 @@ fn read_number(buf: &mut Buf) -> Token {
 
     if buf.more() && (buf.peek().unwrap() == 'e' || buf.peek().unwrap() == 'E') {
         num += &buf.get().unwrap().to_string();
-        if buf.peek().unwrap() == '-' {
+        if buf.peek() == Some('-') {
             num += &buf.get().unwrap().to_string();
         }
         num += &buf.read_set(digits.to_string());
@@ -171,7 +171,9 @@ fn read_string_literal(buf: &mut Buf) -> Token {
             let ch = buf.get().unwrap();
             substr += &ch.to_string();
             if ch == '\\' {
-                substr += &buf.get().unwrap().to_string();
+                if let Some(c) = buf.get() {
+                    substr.push(c);
+                }
             }
         }
         if !buf.more() || buf.get().unwrap() != '"' {
@@ -232,8 +234,10 @@ fn read_char_literal(buf: &mut Buf) -> Token {
         s.push(buf.get().unwrap());
     }
 
-    s.push(buf.get().unwrap());
-    if buf.get().unwrap() != '\'' {
+    if let Some(c) = buf.get() {
+        s.push(c);
+    }
+    if buf.get() != Some('\'') {
         return Token {
             kind: "error".to_string(),
             content: "Single quote expected".to_string(),
-- 
2.43.0


From baa6e2759d12161fe3ae06521abd49a231bd85e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:53 +0000
Subject: [PATCH 04/50] fix: report malformed type declarations instead of
 panicking or hanging

---
 src/lexer.rs     |  1 +
 src/preparser.rs | 15 ++++++++-------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 605a6f3..38f3171 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -96,6 +96,7 @@ fn read_token(buf: &mut Buf) -> Option<Token> {
         }
     }
 
+    buf.get();
     return Some(Token {
         kind: "error".to_string(),
         content: format!("Unexpected character: '{}'", next),
diff --git a/src/preparser.rs b/src/preparser.rs
index ee39067..4b7cfa0 100644
--- a/src/preparser.rs
+++ b/src/preparser.rs
@@ -40,7 +40,7 @@ pub fn preparse(path: &str) -> Result<ModuleInfo, String> {
                     // without defining it. These hints are needed in modules
                     // that interface with the OS headers.
                     if t.kind == "macro" && t.content.starts_with("#type") {
-                        let name = t.content[6..].trim().to_string();
+                        let name = t.content["#type".len()..].trim().to_string();
                         typenames.push(name);
                     }
                 }
@@ -65,8 +65,8 @@ fn get_typename(lexer: &mut Lexer) -> Result<String, String> {
     // typedef struct foo bar;
 
     if lexer.follows("{") {
-        skip_brackets(lexer);
-        let name = expect(lexer, "word", None).unwrap().content;
+        skip_brackets(lexer)?;
+        let name = expect(lexer, "word", None)?.content;
         expect(lexer, ";", None)?;
         return Ok(name);
     }
@@ -115,11 +115,11 @@ fn get_typename(lexer: &mut Lexer) -> Result<String, String> {
     return Ok(name.unwrap());
 }
 
-fn skip_brackets(lexer: &mut Lexer) {
-    expect(lexer, "{", None).unwrap();
+fn skip_brackets(lexer: &mut Lexer) -> Result<(), String> {
+    expect(lexer, "{", None)?;
     while lexer.more() {
         if lexer.follows("{") {
-            skip_brackets(lexer);
+            skip_brackets(lexer)?;
             continue;
         }
         if lexer.follows("}") {
@@ -127,7 +127,8 @@ fn skip_brackets(lexer: &mut Lexer) {
         }
         lexer.get();
     }
-    expect(lexer, "}", None).unwrap();
+    expect(lexer, "}", None)?;
+    return Ok(());
 }
 
 fn expect(lexer: &mut Lexer, kind: &str, comment: Option<&str>) -> Result<Token, String> {
-- 
2.43.0


From 189f6b64b7ebb1fb90050488d3fa6387fb96715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:30:13 +0000
Subject: [PATCH 05/50] fix: report syntax errors at the end of a file instead
 of panicking or hanging

---
 src/parser.rs | 48 ++++++++++++++++++++++++++++++++++--------------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ba65467..7c8182d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -162,7 +162,7 @@ fn parse_module_object(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<ModE
     }
     let type_name = parse_typename(l, ctx)?;
     let form = parse_form(l, ctx)?;
-    if l.peek().unwrap().kind == "(" {
+    if l.follows("(") {
         let r = parse_function_declaration(l, is_pub, type_name, form, ctx, pos)?;
         return Ok(TWithErrors {
             obj: r.obj,
@@ -226,6 +226,9 @@ fn parse_seq_expr(l: &mut Lexer, strength: usize, ctx: &ParseCtx) -> Result<Expr
 }
 
 fn parse_prefix_expr(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
+    if !l.more() {
+        return base(l, ctx);
+    }
     let token = l.get().unwrap();
 
     // *{we are here}*foo
@@ -242,7 +245,7 @@ fn parse_prefix_expr(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
     // cast
     // * (foo_t)x
     if next == "("
-        && l.peek().unwrap().kind == "word"
+        && l.follows("word")
         && is_type(l.peek().unwrap().content.as_str(), &ctx.thismod.typedefs)
     {
         let typeform = parse_bare_typeform(l, ctx)?;
@@ -432,8 +435,8 @@ fn read_expression_atom(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
 
 fn is_op(token_type: &str) -> bool {
     let ops = [
-        "+", "-", "*", "/", "=", "|", "&", "~", "^", "<", ">", "%", "+=", "-=", "*=", "/=", "%=",
-        "&=", "^=", "|=", "++", "--", "->", ".", ">>", "<<", "<=", ">=", "&&", "||", "==", "!=",
+        "+", "-", "*", "/", "=", "|", "&", "^", "<", ">", "%", "+=", "-=", "*=", "/=", "%=",
+        "&=", "^=", "|=", "->", ".", ">>", "<<", "<=", ">=", "&&", "||", "==", "!=",
         "<<=", ">>=",
     ];
     return ops.contains(&token_type);
@@ -515,6 +518,14 @@ fn expect(l: &mut Lexer, kind: &str, comment: Option<&str>) -> Result<Token, Err
     return Ok(l.get().unwrap());
 }
 
+// Position of the next token, or of the end of input if there are no more tokens.
+fn next_pos(l: &mut Lexer) -> Pos {
+    if let Some(t) = l.peek() {
+        return t.pos.clone();
+    }
+    return l.pos();
+}
+
 fn parse_typename(l: &mut Lexer, ctx: &ParseCtx) -> Result<Typename, Error> {
     let is_const = l.eat("const");
     let name = read_ns_id(l, ctx)?;
@@ -557,6 +568,12 @@ fn parse_anonymous_parameters(l: &mut Lexer, ctx: &ParseCtx) -> Result<Anonymous
 }
 
 fn parse_literal(l: &mut Lexer) -> Result<Literal, Error> {
+    if !l.more() {
+        return Err(Error {
+            message: String::from("literal expected, got end of file"),
+            pos: l.pos(),
+        });
+    }
     let next = l.peek().unwrap();
     if next.kind == "string".to_string() {
         let value = l.get().unwrap().content;
@@ -618,11 +635,11 @@ fn parse_composite_literal(l: &mut Lexer, ctx: &ParseCtx) -> Result<CompLiteral,
     };
     expect(l, "{", Some("composite literal"))?;
     loop {
-        if l.peek().unwrap().kind == "}" {
+        if l.follows("}") {
             break;
         }
         result.entries.push(parse_composite_literal_entry(l, ctx)?);
-        if l.peek().unwrap().kind == "," {
+        if l.follows(",") {
             l.get();
         } else {
             break;
@@ -636,7 +653,7 @@ fn parse_composite_literal_entry(
     l: &mut Lexer,
     ctx: &ParseCtx,
 ) -> Result<CompositeLiteralEntry, Error> {
-    if l.peek().unwrap().kind == "." {
+    if l.follows(".") {
         expect(l, ".", Some("struct literal member"))?;
         let tok = expect(l, "word", Some("struct literal entry - identifier"))?;
         expect(l, "=", Some("struct literal member"))?;
@@ -788,7 +805,7 @@ fn parse_variable_declaration(l: &mut Lexer, ctx: &ParseCtx) -> Result<Statement
 
 fn parse_return(l: &mut Lexer, ctx: &ParseCtx) -> Result<Statement, Error> {
     expect(l, "return", None)?;
-    if l.peek().unwrap().kind == ";" {
+    if l.follows(";") {
         l.get();
         return Ok(Statement::Return(nodes::Return { expression: None }));
     }
@@ -807,7 +824,7 @@ fn parse_form(l: &mut Lexer, ctx: &ParseCtx) -> Result<Form, Error> {
         hops: 0,
         name: String::new(),
         indexes: vec![],
-        pos: l.peek().unwrap().pos.clone(),
+        pos: next_pos(l),
     };
 
     while l.follows("*") {
@@ -877,7 +894,7 @@ fn parse_for(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>, Er
     let init: Option<ForInit>;
     if l.follows(";") {
         init = None;
-    } else if l.peek().unwrap().kind == "word"
+    } else if l.follows("word")
         && is_type(&l.peek().unwrap().content, &ctx.thismod.typedefs)
     {
         let type_name = parse_typename(l, ctx)?;
@@ -1078,7 +1095,7 @@ fn read_body(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Body>, Error>
     let mut statements: Vec<Statement> = Vec::new();
     let mut errors = Vec::new();
     expect(l, "{", None)?;
-    while !l.follows("}") {
+    while l.more() && !l.follows("}") {
         match parse_statement(l, ctx) {
             Ok(s) => {
                 statements.push(s.obj);
@@ -1178,7 +1195,10 @@ fn parse_typedef(is_pub: bool, l: &mut Lexer, ctx: &ParseCtx) -> Result<ModElem,
     if l.follows("[") {
         l.get();
         let num = expect(l, "num", None)?;
-        size = num.content.parse().unwrap();
+        size = num.content.parse().map_err(|_| Error {
+            message: format!("can't use '{}' as an array size", num.content),
+            pos: num.pos,
+        })?;
         expect(l, "]", None)?;
     }
     expect(l, ";", Some("typedef"))?;
@@ -1225,8 +1245,8 @@ fn token_to_string(token: &Token) -> String {
 
     let n = 40;
     let mut c: String;
-    if token.content.len() > n {
-        c = token.content[0..(n - 3)].to_string() + "...";
+    if token.content.chars().count() > n {
+        c = token.content.chars().take(n - 3).collect::<String>() + "...";
     } else {
         c = token.content.to_string();
     }
-- 
2.43.0


From c0daa9c25f22aec76b00cf96635a15754626b238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:38 +0000
Subject: [PATCH 06/50] fix: report duplicate definitions instead of panicking

---
 src/translator.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 603fd91..ca4e8b8 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -184,10 +184,20 @@ fn mark_binding_use(ctx: &mut TrCtx, name: &str) -> bool {
     };
 }
 
-fn add_binding(ctx: &mut TrCtx, name: &str, pos: Pos, ispub: bool, t: types::Type) {
+fn add_binding(
+    ctx: &mut TrCtx,
+    name: &str,
+    pos: Pos,
+    ispub: bool,
+    t: types::Type,
+) -> Result<(), BuildError> {
     let n = ctx.scopes.len();
-    if ctx.scopes[n - 1].iter().any(|x| x.name == name) {
-        panic!("{} was already defined at ???", name);
+    if let Some(x) = ctx.scopes[n - 1].iter().find(|x| x.name == name) {
+        return Err(BuildError {
+            path: ctx.this_mod_head.filepath.clone(),
+            pos: pos.fmt(),
+            message: format!("{} was already defined at {}", name, x.pos.fmt()),
+        });
     }
     ctx.scopes[n - 1].push(Binding {
         name: String::from(name),
@@ -196,6 +206,7 @@ fn add_binding(ctx: &mut TrCtx, name: &str, pos: Pos, ispub: bool, t: types::Typ
         ispub,
         typ: t,
     });
+    Ok(())
 }
 
 // fn addtype(ctx: &mut TrCtx, name: &str, ispub: bool, typ: Type) {
@@ -248,12 +259,12 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                     } else {
                         types::todo()
                     };
-                    add_binding(&mut ctx, &id, x.pos.clone(), false, typ);
+                    add_binding(&mut ctx, &id, x.pos.clone(), false, typ)?;
                 }
             }
             nodes::ModElem::Enum(x) => {
                 for e in &x.entries {
-                    add_binding(&mut ctx, &e.name, x.pos.clone(), x.is_pub, types::number());
+                    add_binding(&mut ctx, &e.name, x.pos.clone(), x.is_pub, types::number())?;
                 }
             }
             nodes::ModElem::StructAlias(x) => {
@@ -284,12 +295,12 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                     x.pos.clone(),
                     false,
                     typefrom_typename(&x.typename, &x.form),
-                );
+                )?;
             }
             nodes::ModElem::FuncDecl(x) => {
                 let ispub = x.ispub || x.form.name == "main";
                 let typ = typefrom_funcdecl(&x);
-                add_binding(&mut ctx, &x.form.name, x.pos.clone(), ispub, typ);
+                add_binding(&mut ctx, &x.form.name, x.pos.clone(), ispub, typ)?;
             }
         }
     }
@@ -1043,7 +1054,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
                 f.pos.clone(),
                 false,
                 typefrom_typename(&p.typename, &f),
-            );
+            )?;
         }
     }
 
@@ -1253,7 +1264,7 @@ fn tr_for(x: &nodes::For, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
                     form.pos.clone(),
                     false,
                     typefrom_typename(&type_name, &form),
-                );
+                )?;
                 c::ForInit::DeclLoopCounter(c::VarDecl {
                     typename: tr_typename(type_name, ctx)?,
                     form: tr_form(form, ctx, false)?,
@@ -1436,7 +1447,7 @@ fn tr_vardecl(x: &nodes::VarDecl, ctx: &mut TrCtx) -> Result<c::Statement, Build
         x.form.pos.clone(),
         false,
         typefrom_typename(&x.typename, &x.form),
-    );
+    )?;
     Ok(c::Statement::VarDecl {
         type_name: tr_typename(&x.typename, ctx)?,
         forms: vec![tr_form(&x.form, ctx, false)?],
-- 
2.43.0


From 200ff7fed1275e96c736a146a53a8edb40f518a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:39 +0000
Subject: [PATCH 07/50] fix: accept #define without a value instead of
 panicking

---
 src/translator.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index ca4e8b8..9d112ae 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -252,9 +252,12 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                 } else if x.name == "define" {
                     let def = x.value.clone();
                     let mut parts = def.trim().split_whitespace();
-                    let id = parts.next().unwrap();
-                    let val = parts.next().unwrap();
-                    let typ = if is_numeric(&val) {
+                    let id = parts.next().ok_or_else(|| BuildError {
+                        path: ctx.this_mod_head.filepath.clone(),
+                        pos: x.pos.fmt(),
+                        message: "macro name expected after #define".to_string(),
+                    })?;
+                    let typ = if parts.next().map_or(false, is_numeric) {
                         types::number()
                     } else {
                         types::todo()
-- 
2.43.0


From cdf3ed74d2a69bc186babf6cacca951fbd8c339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:40 +0000
Subject: [PATCH 08/50] fix: translate index expressions in array literals

---
 src/translator.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/translator.rs b/src/translator.rs
index 9d112ae..5682ad3 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -916,6 +916,7 @@ fn tr_comp_literal(x: &nodes::CompLiteral, ctx: &mut TrCtx) -> Result<Typed<c::E
     let mut entries = Vec::new();
     for e in &x.entries {
         let key = match &e.key {
+            Some(x) if e.is_index => Some(tr_expr(x, ctx)?.val),
             Some(x) => match x {
                 nodes::Expr::NsName(ns_name) => {
                     if ns_name.ns != "" {
-- 
2.43.0


From 141545430681844fa1b0d37b00b13783456142c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:40 +0000
Subject: [PATCH 09/50] fix: report imported types used as values and missing
 genc arguments instead of panicking

---
 src/main_genc.rs  | 4 ++++
 src/translator.rs | 6 +++++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main_genc.rs b/src/main_genc.rs
index 1ecab60..03f763e 100644
--- a/src/main_genc.rs
+++ b/src/main_genc.rs
@@ -2,6 +2,10 @@ use crate::build;
 use std::fs;
 
 pub fn run(args: &[String]) -> i32 {
+    if args.len() != 2 {
+        eprintln!("usage: genc <source-path> <output-dir>");
+        return 1;
+    }
     let modpath = &args[0];
     let dirpath = &args[1];
     if fs::metadata(&dirpath).is_err() {
diff --git a/src/translator.rs b/src/translator.rs
index 5682ad3..1031e87 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1186,7 +1186,11 @@ fn tr_nsid_in_expr(x: &nodes::NsName, ctx: &mut TrCtx) -> Result<Typed<String>,
         match exports.fns.iter().find(|f| f.form.name == x.name) {
             Some(f) => typ = typefrom_funcdecl(&f),
             None => {
-                todo!();
+                return Err(BuildError {
+                    message: format!("{}.{} is not a value", &x.ns, &x.name),
+                    pos: x.pos.fmt(),
+                    path: ctx.this_mod_head.filepath.clone(),
+                });
             }
         }
     }
-- 
2.43.0


From e78d04f293f9cd8ed1a7edebbf0ed9a61f5f016e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:29 +0000
Subject: [PATCH 10/50] fix: evaluate the value of a string switch once and
 allow a switch without cases

---
 src/translator.rs | 38 +++++++++++++++++++++++++++++++-------
 1 file changed, 31 insertions(+), 7 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 1031e87..ef492e0 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1383,14 +1383,38 @@ fn mk_str_switch(x: &nodes::Switch, ctx: &mut TrCtx) -> Result<c::Statement, Bui
     let value = &x.value;
     let cases = &x.cases;
     let default = &x.default_case;
-    let switchval = tr_expr(value, ctx)?.val;
 
-    let c0 = &cases[0];
-    Ok(c::Statement::If {
-        condition: mk_switchstr_cond(ctx, c0, &switchval)?,
-        body: tr_body(&c0.body, ctx)?,
-        else_body: mk_switchstr_else(cases, 1, default, ctx, &switchval)?,
-    })
+    // The value goes to a variable, so that it's evaluated exactly once.
+    let decl = c::Statement::VarDecl {
+        type_name: c::Typename {
+            is_const: true,
+            name: "char".to_string(),
+        },
+        forms: vec![c::Form {
+            indexes: vec![],
+            name: "__switchval".to_string(),
+            stars: "*".to_string(),
+        }],
+        values: vec![Some(tr_expr(value, ctx)?.val)],
+    };
+    let switchval = mk_id("__switchval");
+    let mut statements = vec![decl];
+    if cases.is_empty() {
+        statements.push(c::Statement::Expression(c::Expr::Cast {
+            type_name: c::BareTypeform {
+                typename: c::Typename {
+                    is_const: false,
+                    name: "void".to_string(),
+                },
+                hops: 0,
+            },
+            operand: Box::new(switchval.clone()),
+        }));
+    }
+    if let Some(body) = mk_switchstr_else(cases, 0, default, ctx, &switchval)? {
+        statements.extend(body.statements);
+    }
+    Ok(c::Statement::Block { statements })
 }
 
 fn mk_switchstr_cond(
-- 
2.43.0


From 1129edb496f015f56285fa941f9c44ca578f9d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:30 +0000
Subject: [PATCH 11/50] fix: detect functions that can end without a return

---
 src/node_queries.rs | 21 +++++++++++++++++++--
 src/translator.rs   |  5 ++++-
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/node_queries.rs b/src/node_queries.rs
index 8bcf896..48080f1 100644
--- a/src/node_queries.rs
+++ b/src/node_queries.rs
@@ -8,7 +8,9 @@ pub fn body_returns(b: &Body) -> bool {
     let last = &b.statements[n - 1];
     return match last {
         Statement::Return { .. } => true,
-        Statement::If(x) => body_returns(&x.body),
+        Statement::If(x) => {
+            body_returns(&x.body) && x.else_body.as_ref().map_or(false, body_returns)
+        }
         Statement::Switch(x) => {
             let default_case = &x.default_case;
             let cases = &x.cases;
@@ -22,7 +24,7 @@ pub fn body_returns(b: &Body) -> bool {
             }
             return true;
         }
-        Statement::While(x) => is_ident(&x.cond, "true") || body_returns(&x.body),
+        Statement::While(x) => is_ident(&x.cond, "true") && !has_break(&x.body),
         Statement::Expression(x) => match x {
             Expr::Call(function_call) => {
                 if is_ident(&function_call.func, "panic") {
@@ -36,6 +38,21 @@ pub fn body_returns(b: &Body) -> bool {
     };
 }
 
+// Returns true if the given loop body has a break that leaves the loop.
+fn has_break(b: &Body) -> bool {
+    b.statements.iter().any(|s| match s {
+        Statement::Break => true,
+        Statement::If(x) => has_break(&x.body) || x.else_body.as_ref().map_or(false, has_break),
+        Statement::Switch(x) => {
+            // In a plain switch a break leaves the switch only.
+            x.is_str
+                && (x.cases.iter().any(|c| has_break(&c.body))
+                    || x.default_case.as_ref().map_or(false, has_break))
+        }
+        _ => false,
+    })
+}
+
 // // Returns true if the given expression contains a function call.
 // // This is simply to check that module variable initializations are
 // // compile-time expressions.
diff --git a/src/translator.rs b/src/translator.rs
index ef492e0..a56ff34 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1084,7 +1084,10 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
     }
     end_scope(ctx)?;
 
-    if (!nodes::is_void(&x.typename) || x.form.hops == 1) && !body_returns(&x.body) {
+    if (!nodes::is_void(&x.typename) || x.form.hops > 0)
+        && x.form.name != "main"
+        && !body_returns(&x.body)
+    {
         return Err(BuildError {
             message: format!("{}: missing return", x.form.name),
             pos: x.pos.fmt(),
-- 
2.43.0


From 06f8e20237d8f97eaaa7cc4819905d9ca6c3fb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:30 +0000
Subject: [PATCH 12/50] fix: read numbers with a plus sign in the exponent

---
 src/lexer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 38f3171..d14e4de 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -122,7 +122,7 @@ fn read_number(buf: &mut Buf) -> Token {
 
     if buf.more() && (buf.peek().unwrap() == 'e' || buf.peek().unwrap() == 'E') {
         num += &buf.get().unwrap().to_string();
-        if buf.peek() == Some('-') {
+        if buf.peek() == Some('-') || buf.peek() == Some('+') {
             num += &buf.get().unwrap().to_string();
         }
         num += &buf.read_set(digits.to_string());
-- 
2.43.0


From e2a0caecbcdc774cc361b5a0d8284ce4344ccab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:31 +0000
Subject: [PATCH 13/50] fix: report malformed hexadecimal numbers

---
 src/lexer.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index d14e4de..5c5267f 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -152,7 +152,15 @@ fn read_hex(buf: &mut Buf) -> Token {
     buf.get();
     buf.get();
 
-    let num = buf.read_set("0123456789ABCDEFabcdef".to_string()) + &buf.read_set("UL".to_string());
+    let digits = buf.read_set("0123456789ABCDEFabcdef".to_string());
+    let num = digits.clone() + &buf.read_set("UL".to_string());
+    if digits.is_empty() || buf.peek().is_some_and(|c| c.is_ascii_alphanumeric()) {
+        return Token {
+            kind: "error".to_string(),
+            content: format!("Malformed number: 0x{}", &num),
+            pos,
+        };
+    }
 
     return Token {
         kind: "num".to_string(),
-- 
2.43.0


From a44d25020611c2f4c453a7a51b5c9bd66fc97e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 14/50] fix: keep the meaning of string and character literals

---
 src/lexer.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 5c5267f..0c5de66 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -180,8 +180,13 @@ fn read_string_literal(buf: &mut Buf) -> Token {
             let ch = buf.get().unwrap();
             substr += &ch.to_string();
             if ch == '\\' {
-                if let Some(c) = buf.get() {
-                    substr.push(c);
+                match buf.get() {
+                    // An escaped line break continues the string on the next line.
+                    Some('\n') => {
+                        substr.pop();
+                    }
+                    Some(c) => substr.push(c),
+                    None => {}
                 }
             }
         }
@@ -192,6 +197,11 @@ fn read_string_literal(buf: &mut Buf) -> Token {
                 pos,
             };
         }
+        if s.contains('\\') {
+            // Keep the parts apart, otherwise an escape sequence at the end of
+            // one part could swallow characters of the next one.
+            s += "\" \"";
+        }
         s += &substr;
         buf.read_set(SPACES.to_string());
     }
@@ -246,7 +256,7 @@ fn read_char_literal(buf: &mut Buf) -> Token {
     if let Some(c) = buf.get() {
         s.push(c);
     }
-    if buf.get() != Some('\'') {
+    if s == "'" || s == "\n" || buf.get() != Some('\'') {
         return Token {
             kind: "error".to_string(),
             content: "Single quote expected".to_string(),
-- 
2.43.0


From 7c6e50d5a905569de54984fae8cd4c71f11595c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:00 +0000
Subject: [PATCH 15/50] fix: exit with an error on an unknown command

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b3ce8e3..6f3c928 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,7 +53,10 @@ fn main() {
     let cmd = args[1].as_str();
     match SUBCOMMANDS.iter().find(|(name, _, _)| *name == cmd) {
         Some((_, _, func)) => exit(func(&args[2..])),
-        None => usage(),
+        None => {
+            usage();
+            exit(1);
+        }
     };
 }
 
-- 
2.43.0


From d85639a1ad5de57191501a2a8c6853e67710a4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:01 +0000
Subject: [PATCH 16/50] fix: separate parameters that share a type in the
 exports listing

---
 src/main_exports.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main_exports.rs b/src/main_exports.rs
index 7e1545c..dad68c1 100644
--- a/src/main_exports.rs
+++ b/src/main_exports.rs
@@ -50,12 +50,18 @@ fn print_exports(exports: Exports) {
                 }
                 params += &format_che::fmt_typename(&parameter.typename);
                 params += " ";
-                for form in &parameter.forms {
+                for (j, form) in parameter.forms.iter().enumerate() {
+                    if j > 0 {
+                        params += ", ";
+                    }
                     params += &format_che::fmt_form(&form);
                 }
             }
             if c.params.ellipsis {
-                params += ", ...";
+                if !c.params.list.is_empty() {
+                    params += ", ";
+                }
+                params += "...";
             }
             params += ")";
 
-- 
2.43.0


From 51fec5948989641565e1fbf07be39fff96c6a082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:02 +0000
Subject: [PATCH 17/50] fix: derive the right types for sums with constants and
 pointers

---
 src/types.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/types.rs b/src/types.rs
index 1bb33c1..9e84937 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -216,7 +216,7 @@ pub fn typeof_plusminus(op: &str, a: &Type, b: &Type) -> Result<Type, String> {
 
         // ptr + any int = ptr
         (_, Class::PTR | Class::ARR, Class::CONSTNUM | Class::SINT | Class::UINT) => Ok(a.clone()),
-        (_, Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(a.clone()),
+        ("+", Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(b.clone()),
 
         _ => Err(format!(
             "'{}' operation between {} and {}",
@@ -235,7 +235,7 @@ pub fn typeof_cmp(a: &Type, b: &Type) -> Result<Type, String> {
         (Class::SINT, Class::SINT) => Ok(just("bool")),
         (Class::UINT, Class::UINT) => Ok(just("bool")),
         (Class::CHAR, Class::CHAR) => Ok(just("bool")),
-        (Class::BOOL, Class::BOOL) => Ok(just("boo")),
+        (Class::BOOL, Class::BOOL) => Ok(just("bool")),
 
         // num == const
         (Class::FLT | Class::SINT | Class::UINT, Class::CONSTNUM) => Ok(just("bool")),
-- 
2.43.0


From 28f1e560b87fbfbe85c97d0247b9f0166248b687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:36:03 +0000
Subject: [PATCH 18/50] fix: make valid C names out of any module file name

---
 src/build.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/build.rs b/src/build.rs
index 26489bb..0c7f6e5 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -188,7 +188,13 @@ pub fn parse_project(mainpath: &String) -> Result<Project, Vec<BuildError>> {
     // Every modhead already has a unique key based on path, but we'll give
     // them nicer ones here to make outputs easier for debugging.
     for (i, m) in modheads.iter_mut().enumerate() {
-        m.uniqid = format!("mod{}_{}", i, basename(&m.filepath).replace(".c", ""));
+        m.uniqid = format!(
+            "mod{}_{}",
+            i,
+            basename(&m.filepath)
+                .replace(".c", "")
+                .replace(|c: char| !c.is_ascii_alphanumeric(), "_")
+        );
     }
 
     let modules = parse_mods(&modheads)?;
-- 
2.43.0


From a49c3d4503aca4fded5c2ecf1a10e21c51cd40b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:33 +0000
Subject: [PATCH 19/50] fix: recognise a module imported through different
 relative paths

---
 src/resolve.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index c4f295a..175ed93 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,5 +1,5 @@
 use std::env;
-use std::path::Path;
+use std::path::{Component, Path, PathBuf};
 use substring::Substring;
 
 #[derive(Clone, Debug)]
@@ -23,7 +23,7 @@ pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String>
     // it inside the lib directory.
     let path = if name.ends_with(".c") {
         let p = Path::new(base_path).parent().unwrap().join(name);
-        String::from(p.to_str().unwrap())
+        String::from(normalize(&p).to_str().unwrap())
     } else {
         format!("{}/lib/{}.c", homepath(), name)
     };
@@ -35,6 +35,22 @@ pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String>
     return Ok(ModuleRef { path, ns });
 }
 
+// Removes "." and ".." from the path where possible, so that a module has the
+// same path regardless of where it's imported from.
+fn normalize(path: &Path) -> PathBuf {
+    let mut r = PathBuf::new();
+    for c in path.components() {
+        match (c, r.components().last()) {
+            (Component::CurDir, _) => {}
+            (Component::ParentDir, Some(Component::Normal(_))) => {
+                r.pop();
+            }
+            _ => r.push(c),
+        }
+    }
+    r
+}
+
 pub fn basename(s: &str) -> String {
     return s.split("/").last().unwrap().to_string();
 }
-- 
2.43.0


From 0412420974597f7c49d920875c2024b9a5a389d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:38:33 +0000
Subject: [PATCH 20/50] fix: visit every module once when loading the import
 tree

---
 src/build.rs | 38 ++++++++++++++------------------------
 1 file changed, 14 insertions(+), 24 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index 0c7f6e5..8f70ae6 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -11,7 +11,6 @@ use crate::resolve::basename;
 use crate::translator;
 use md5;
 use std::collections::HashMap;
-use std::collections::HashSet;
 use std::env;
 use std::fs;
 use std::io::BufRead;
@@ -109,36 +108,29 @@ fn preparse<'a>(
     Ok(cache.get(path).unwrap())
 }
 
+// Lists the module at the given path and everything it depends on in result.
+// A module comes after all of its dependencies.
 fn load_tree(
     mut cache: &mut HashMap<String, ModuleInfo>,
     path: &str,
-    mut crumbs: Vec<String>,
-) -> Result<Vec<String>, String> {
+    crumbs: &mut Vec<String>,
+    result: &mut Vec<String>,
+) -> Result<(), String> {
     if crumbs.contains(&path.to_string()) {
         return Err(format!("import loop: {} -> {}", crumbs.join(" -> "), path));
     }
+    if result.contains(&path.to_string()) {
+        return Ok(());
+    }
     crumbs.push(path.to_string());
-    let mut result = vec![path.to_string()];
     let head = preparse(&mut cache, path)?;
     let ii = head.imports.clone();
     for imp in ii {
-        let mut r = load_tree(&mut cache, &imp.path, crumbs.clone())?;
-        result.append(&mut r);
+        load_tree(&mut cache, &imp.path, crumbs, result)?;
     }
-    Ok(result)
-}
-
-fn uniq(ss: Vec<String>) -> Vec<String> {
-    let mut seen = HashSet::new();
-    let mut result = Vec::new();
-    for p in ss {
-        if seen.contains(&p) {
-            continue;
-        }
-        seen.insert(p.clone());
-        result.push(p);
-    }
-    result
+    crumbs.pop();
+    result.push(path.to_string());
+    Ok(())
 }
 
 fn parse_mods(modheads: &Vec<ModuleInfo>) -> Result<Vec<Module>, Vec<BuildError>> {
@@ -169,7 +161,8 @@ fn parse_mods(modheads: &Vec<ModuleInfo>) -> Result<Vec<Module>, Vec<BuildError>
 // and including and parsing all its dependencies.
 pub fn parse_project(mainpath: &String) -> Result<Project, Vec<BuildError>> {
     let mut cache = HashMap::new();
-    let mut paths = load_tree(&mut cache, mainpath, vec![]).map_err(|err| {
+    let mut paths = Vec::new();
+    load_tree(&mut cache, mainpath, &mut Vec::new(), &mut paths).map_err(|err| {
         vec![BuildError {
             message: err,
             path: String::new(),
@@ -177,9 +170,6 @@ pub fn parse_project(mainpath: &String) -> Result<Project, Vec<BuildError>> {
         }]
     })?;
 
-    paths.reverse();
-    paths = uniq(paths);
-
     let mut modheads = Vec::new();
     for p in paths {
         modheads.push(cache.get(&p).unwrap().clone())
-- 
2.43.0


From 00e12124566b326fe27b1a77c9cfd19a98c91335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:40:19 +0000
Subject: [PATCH 21/50] fix: define structs and enums before the definitions
 that need them

---
 src/translator.rs | 71 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 71 insertions(+)

diff --git a/src/translator.rs b/src/translator.rs
index a56ff34..0efdd43 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -411,6 +411,7 @@ fn reorder_elems(elements: Vec<c::ModElem>) -> Vec<c::ModElem> {
         }
         groups[order].push(element);
     }
+    groups[3] = sort_definitions(std::mem::take(&mut groups[3]));
     let mut sorted_elements: Vec<c::ModElem> = vec![];
     for group in groups {
         for e in group {
@@ -420,6 +421,76 @@ fn reorder_elems(elements: Vec<c::ModElem>) -> Vec<c::ModElem> {
     sorted_elements
 }
 
+// Puts the definitions of structs and enums after the definitions they need,
+// keeping the source order otherwise.
+fn sort_definitions(elements: Vec<c::ModElem>) -> Vec<c::ModElem> {
+    let mut rest: Vec<(HashSet<String>, Vec<String>, c::ModElem)> = Vec::new();
+    for e in elements {
+        rest.push((needed_names(&e), defined_names(&e), e));
+    }
+    let mut sorted = Vec::new();
+    while !rest.is_empty() {
+        let next = (0..rest.len())
+            .find(|i| {
+                let needs = &rest[*i].0;
+                let mut others = rest.iter().enumerate().filter(|(j, _)| j != i);
+                !others.any(|(_, x)| x.1.iter().any(|name| needs.contains(name)))
+            })
+            .unwrap_or(0);
+        sorted.push(rest.remove(next).2);
+    }
+    sorted
+}
+
+fn defined_names(e: &c::ModElem) -> Vec<String> {
+    match e {
+        c::ModElem::StuctDef(x) => vec![x.name.clone()],
+        c::ModElem::DefEnum(x) => x.entries.iter().map(|e| e.id.clone()).collect(),
+        _ => vec![],
+    }
+}
+
+// Returns names that have to be completely defined before the given element.
+fn needed_names(e: &c::ModElem) -> HashSet<String> {
+    let mut names = HashSet::new();
+    let mut add_expr = |e: &c::Expr| {
+        let s = format_c::fmt_expr(e);
+        for id in s.split(|c: char| !c.is_ascii_alphanumeric() && c != '_') {
+            names.insert(id.to_string());
+            names.insert(format!("__{}_struct", id));
+        }
+    };
+    let mut add_field = |t: &c::Typename, form: &c::Form| {
+        if form.stars == "" {
+            add_expr(&mk_id(&t.name));
+        }
+        for index in form.indexes.iter().flatten() {
+            add_expr(index);
+        }
+    };
+    match e {
+        c::ModElem::StuctDef(x) => {
+            for field in &x.fields {
+                match field {
+                    c::CStructItem::Field(f) => add_field(&f.type_name, &f.form),
+                    c::CStructItem::Union(u) => {
+                        for f in &u.fields {
+                            add_field(&f.type_name, &f.form);
+                        }
+                    }
+                }
+            }
+        }
+        c::ModElem::DefEnum(x) => {
+            for value in x.entries.iter().filter_map(|e| e.value.as_ref()) {
+                add_expr(value);
+            }
+        }
+        _ => {}
+    }
+    names
+}
+
 fn get_obj_key(obj: &c::ModElem) -> String {
     match &obj {
         c::ModElem::DefEnum(x) => {
-- 
2.43.0


From 26c0b59322f469df638f3aec4f58302e87682e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:10 +0000
Subject: [PATCH 22/50] fix: export functions that have a parameter of the same
 name

---
 src/translator.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 0efdd43..5757f2d 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1119,6 +1119,9 @@ fn tr_func_params(x: &nodes::FuncParams, ctx: &mut TrCtx) -> Result<c::FuncParam
 
 // pub? int f(...) {...}
 fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>, BuildError> {
+    // The name has to be looked up before the parameters can shadow it.
+    let form = tr_form(&x.form, ctx, true)?;
+
     begin_scope(ctx);
 
     for p in &x.params.list {
@@ -1141,7 +1144,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
     let mut r = vec![c::ModElem::FuncDef(c::FuncDef {
         is_static: !x.ispub,
         type_name: tr_typename(&x.typename, ctx)?,
-        form: tr_form(&x.form, ctx, true)?,
+        form: form.clone(),
         parameters: tr_func_params(&x.params, ctx)?,
         body: rbody,
     })];
@@ -1149,7 +1152,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
         r.push(c::ModElem::ForwardFunc(c::ForwardFunc {
             is_static: !x.ispub,
             type_name: tr_typename(&x.typename, ctx)?,
-            form: tr_form(&x.form, ctx, true)?,
+            form,
             parameters: tr_func_params(&x.params, ctx)?,
         }));
     }
-- 
2.43.0


From 64ba03b62e6c55d19e36e0be66089c19d5e60baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:11 +0000
Subject: [PATCH 23/50] fix: report calls through circular typedefs instead of
 overflowing the stack

---
 src/translator.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 5757f2d..120a26d 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1073,7 +1073,7 @@ fn tr_call(x: &nodes::Call, ctx: &mut TrCtx) -> Result<Typed<c::Expr>, BuildErro
     }
 
     let aat = typedargs.iter().map(|x| &x.typ).collect();
-    let typ = typeof_call(ctx, &func.typ, aat).map_err(|e| BuildError {
+    let typ = typeof_call(ctx, &func.typ, aat, 0).map_err(|e| BuildError {
         message: e,
         path: ctx.this_mod_head.filepath.clone(),
         pos: x.pos.fmt(),
@@ -1858,10 +1858,19 @@ fn typeof_struct_field(
 }
 
 // Validates a call of t with args aa and returns the resulting type.
-fn typeof_call(ctx: &TrCtx, t: &types::Type, aa: Vec<&types::Type>) -> Result<types::Type, String> {
+// The depth is the number of typedefs that were followed to get to t.
+fn typeof_call(
+    ctx: &TrCtx,
+    t: &types::Type,
+    aa: Vec<&types::Type>,
+    depth: usize,
+) -> Result<types::Type, String> {
     if types::is_todo(t) {
         return Ok(types::todo());
     }
+    if depth > ctx.other_typedefs.len() {
+        return Err(format!("typedef loop: {}", t.fmt()));
+    }
 
     if let Some(types::TypeOp::Call(args)) = t.ops.first() {
         if args.last().map_or(false, |x| types::is_ellipsis(x)) {
@@ -1892,7 +1901,7 @@ fn typeof_call(ctx: &TrCtx, t: &types::Type, aa: Vec<&types::Type>) -> Result<ty
     if t.ops.len() == 0 && t.base.ns == "" {
         let def = ctx.other_typedefs.get(t.base.name.as_str());
         if def.is_some() {
-            return typeof_call(ctx, &def.unwrap().t, aa);
+            return typeof_call(ctx, &def.unwrap().t, aa, depth + 1);
         }
     }
 
@@ -1901,7 +1910,7 @@ fn typeof_call(ctx: &TrCtx, t: &types::Type, aa: Vec<&types::Type>) -> Result<ty
             types::TypeOp::Deref => {
                 let x = ctx.other_typedefs.get(&t.base.name);
                 if x.is_some() {
-                    return typeof_call(ctx, &x.unwrap().t, aa);
+                    return typeof_call(ctx, &x.unwrap().t, aa, depth + 1);
                 }
             }
             _ => {}
-- 
2.43.0


From 96a5006ee7476710595181b91b12213156a7ad7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:27:11 +0000
Subject: [PATCH 24/50] fix: derive the right type for addresses of arrays and
 functions

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 9e84937..56da0a2 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -146,7 +146,7 @@ pub fn is_todo(x: &Type) -> bool {
 
 pub fn typeof_addr(t: Type) -> Type {
     let mut ops = t.ops;
-    ops.push(TypeOp::Deref);
+    ops.insert(0, TypeOp::Deref);
     Type {
         ops,
         base: nsname(&t.base.ns, &t.base.name),
-- 
2.43.0


From 705d8c684f6d64d4227a22d75236ef2059cd4241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:35 +0000
Subject: [PATCH 25/50] fix: report unused imports at their position

---
 src/preparser.rs  | 2 +-
 src/resolve.rs    | 8 ++++++--
 src/translator.rs | 2 +-
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/preparser.rs b/src/preparser.rs
index 4b7cfa0..83d4727 100644
--- a/src/preparser.rs
+++ b/src/preparser.rs
@@ -28,7 +28,7 @@ pub fn preparse(path: &str) -> Result<ModuleInfo, String> {
                     return Err(format!("{} at {}:{}", t.content, path, t.pos.fmt()));
                 }
                 "import" => {
-                    let res = resolve::resolve_import(path, &t.content)?;
+                    let res = resolve::resolve_import(path, &t.content, t.pos)?;
                     imports.push(res);
                 }
                 "typedef" => {
diff --git a/src/resolve.rs b/src/resolve.rs
index 175ed93..1404fe9 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,3 +1,4 @@
+use crate::buf::Pos;
 use std::env;
 use std::path::{Component, Path, PathBuf};
 use substring::Substring;
@@ -10,6 +11,9 @@ pub struct ModuleRef {
     // Prefix that the importing module will use to refer to
     // the module's exported elements.
     pub ns: String,
+
+    // Position of the import in the importing module.
+    pub pos: Pos,
 }
 
 // Returns the directory where all built-in libraries are stored.
@@ -17,7 +21,7 @@ pub fn homepath() -> String {
     return env::var("CHELANG_HOME").unwrap_or(String::from("."));
 }
 
-pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String> {
+pub fn resolve_import(base_path: &str, name: &str, pos: Pos) -> Result<ModuleRef, String> {
     // If requested module name ends with ".c", we look for it relative to
     // base_path (importing module's location). If ".c" is omitted, we look for
     // it inside the lib directory.
@@ -32,7 +36,7 @@ pub fn resolve_import(base_path: &str, name: &str) -> Result<ModuleRef, String>
     }
     let bn = basename(&path);
     let ns = bn.substring(0, bn.len() - 2).to_string();
-    return Ok(ModuleRef { path, ns });
+    return Ok(ModuleRef { path, ns, pos });
 }
 
 // Removes "." and ".." from the path where possible, so that a module has the
diff --git a/src/translator.rs b/src/translator.rs
index 120a26d..31f27c1 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -322,7 +322,7 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
         if !ctx.used_ns.contains(&imp.ns) {
             return Err(BuildError {
                 path: ctx.this_mod_head.filepath.clone(),
-                pos: format!("1:1"),
+                pos: imp.pos.fmt(),
                 message: format!("unused import: {}", imp.ns),
             });
         }
-- 
2.43.0


From f15560c37128a8f6b0bb671dfb8b20b2812951d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:30 +0000
Subject: [PATCH 26/50] fix: report conditions and indexes of wrong types at
 their position

---
 src/nodes.rs      |  2 ++
 src/parser.rs     |  4 ++++
 src/translator.rs | 10 +++++-----
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/nodes.rs b/src/nodes.rs
index fcaebcb..c4a30bc 100644
--- a/src/nodes.rs
+++ b/src/nodes.rs
@@ -251,6 +251,7 @@ pub struct If {
 pub struct For {
     pub init: Option<ForInit>,
     pub condition: Option<Expr>,
+    pub condition_pos: Pos,
     pub action: Option<Expr>,
     pub body: Body,
 }
@@ -258,6 +259,7 @@ pub struct For {
 #[derive(Debug, Clone)]
 pub struct While {
     pub cond: Expr,
+    pub cond_pos: Pos,
     pub body: Body,
 }
 
diff --git a/src/parser.rs b/src/parser.rs
index 7c8182d..acf0fe2 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -722,12 +722,14 @@ fn parse_call(l: &mut Lexer, ctx: &ParseCtx, func: Expr) -> Result<Expr, Error>
 fn parse_while(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>, Error> {
     expect(l, "while", None)?;
     expect(l, "(", None)?;
+    let cond_pos = next_pos(l);
     let condition = parse_expr(l, 0, ctx)?;
     expect(l, ")", None)?;
     let body = parse_statements_block(l, ctx)?;
     return Ok(TWithErrors {
         obj: Statement::While(nodes::While {
             cond: condition,
+            cond_pos,
             body: body.obj,
         }),
         errors: body.errors,
@@ -911,6 +913,7 @@ fn parse_for(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>, Er
     }
     expect(l, ";", Some("for loop initializer"))?;
 
+    let condition_pos = next_pos(l);
     let condition = if l.follows(";") {
         None
     } else {
@@ -931,6 +934,7 @@ fn parse_for(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>, Er
         obj: Statement::For(nodes::For {
             init,
             condition,
+            condition_pos,
             action,
             body: body.obj,
         }),
diff --git a/src/translator.rs b/src/translator.rs
index 31f27c1..23940ad 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -940,7 +940,7 @@ fn tr_arr_index(x: &nodes::ArrayIndex, ctx: &mut TrCtx) -> Result<Typed<c::Expr>
     let typ = types::typeof_index(&arr.typ, &ind.typ).map_err(|e| BuildError {
         message: e,
         path: ctx.this_mod_head.filepath.clone(),
-        pos: "?".to_string(),
+        pos: expression_pos(&x.array).fmt(),
     })?;
     Ok(Typed {
         typ,
@@ -1361,13 +1361,13 @@ fn tr_for(x: &nodes::For, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
     };
 
     let condition = match &x.condition {
-        Some(x) => {
-            let c = tr_expr(&x, ctx)?;
+        Some(cond) => {
+            let c = tr_expr(&cond, ctx)?;
             if !types::is_booly(&c.typ) {
                 return Err(BuildError {
                     message: format!("{} used as condition", &c.typ.fmt()),
                     path: ctx.this_mod_head.filepath.clone(),
-                    pos: expression_pos(x).fmt(),
+                    pos: x.condition_pos.fmt(),
                 });
             }
             Some(c.val)
@@ -1574,7 +1574,7 @@ fn tr_while(x: &nodes::While, ctx: &mut TrCtx) -> Result<c::Statement, BuildErro
         return Err(BuildError {
             message: format!("{} used as condition", &cond.typ.fmt()),
             path: ctx.this_mod_head.filepath.clone(),
-            pos: expression_pos(&x.cond).fmt(),
+            pos: x.cond_pos.fmt(),
         });
     }
     Ok(c::Statement::While {
-- 
2.43.0


From bdc0f723b99018812065026d2619d4c28634d972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:25:50 +0000
Subject: [PATCH 27/50] fix: define types after the types they are made of

---
 src/translator.rs | 38 ++++++++++++++++++++++++++++++++------
 1 file changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 23940ad..6ea4b6b 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -411,7 +411,16 @@ fn reorder_elems(elements: Vec<c::ModElem>) -> Vec<c::ModElem> {
         }
         groups[order].push(element);
     }
-    groups[3] = sort_definitions(std::mem::take(&mut groups[3]));
+    let mut aliases: HashMap<String, String> = HashMap::new();
+    for e in &groups[2] {
+        if let c::ModElem::Typedef(x) = e {
+            if x.form.stars == "" && x.form.params.is_none() {
+                aliases.insert(x.form.alias.clone(), x.typename.name.clone());
+            }
+        }
+    }
+    groups[2] = sort_definitions(std::mem::take(&mut groups[2]), &aliases);
+    groups[3] = sort_definitions(std::mem::take(&mut groups[3]), &aliases);
     let mut sorted_elements: Vec<c::ModElem> = vec![];
     for group in groups {
         for e in group {
@@ -421,12 +430,15 @@ fn reorder_elems(elements: Vec<c::ModElem>) -> Vec<c::ModElem> {
     sorted_elements
 }
 
-// Puts the definitions of structs and enums after the definitions they need,
+// Puts the definitions of types and enums after the definitions they need,
 // keeping the source order otherwise.
-fn sort_definitions(elements: Vec<c::ModElem>) -> Vec<c::ModElem> {
+fn sort_definitions(
+    elements: Vec<c::ModElem>,
+    aliases: &HashMap<String, String>,
+) -> Vec<c::ModElem> {
     let mut rest: Vec<(HashSet<String>, Vec<String>, c::ModElem)> = Vec::new();
     for e in elements {
-        rest.push((needed_names(&e), defined_names(&e), e));
+        rest.push((needed_names(&e, aliases), defined_names(&e), e));
     }
     let mut sorted = Vec::new();
     while !rest.is_empty() {
@@ -446,12 +458,13 @@ fn defined_names(e: &c::ModElem) -> Vec<String> {
     match e {
         c::ModElem::StuctDef(x) => vec![x.name.clone()],
         c::ModElem::DefEnum(x) => x.entries.iter().map(|e| e.id.clone()).collect(),
+        c::ModElem::Typedef(x) => vec![x.form.alias.clone()],
         _ => vec![],
     }
 }
 
 // Returns names that have to be completely defined before the given element.
-fn needed_names(e: &c::ModElem) -> HashSet<String> {
+fn needed_names(e: &c::ModElem, aliases: &HashMap<String, String>) -> HashSet<String> {
     let mut names = HashSet::new();
     let mut add_expr = |e: &c::Expr| {
         let s = format_c::fmt_expr(e);
@@ -462,7 +475,14 @@ fn needed_names(e: &c::ModElem) -> HashSet<String> {
     };
     let mut add_field = |t: &c::Typename, form: &c::Form| {
         if form.stars == "" {
-            add_expr(&mk_id(&t.name));
+            let mut name = &t.name;
+            for _ in 0..=aliases.len() {
+                add_expr(&mk_id(name));
+                match aliases.get(name) {
+                    Some(x) => name = x,
+                    None => break,
+                }
+            }
         }
         for index in form.indexes.iter().flatten() {
             add_expr(index);
@@ -486,6 +506,12 @@ fn needed_names(e: &c::ModElem) -> HashSet<String> {
                 add_expr(value);
             }
         }
+        c::ModElem::Typedef(x) => {
+            add_expr(&mk_id(&x.typename.name));
+            for form in x.form.params.iter().flat_map(|p| &p.forms) {
+                add_expr(&mk_id(&form.typename.name));
+            }
+        }
         _ => {}
     }
     names
-- 
2.43.0


From 6be5cdb0dfab9f42ba62401033310eb5e48c417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:43 +0000
Subject: [PATCH 28/50] fix: keep the grouping of operands when printing
 expressions

---
 src/format_che.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/format_che.rs b/src/format_che.rs
index 0547143..32702fe 100644
--- a/src/format_che.rs
+++ b/src/format_che.rs
@@ -159,10 +159,10 @@ pub fn fmt_binop(x: &nodes::BinaryOp) -> String {
         }
         None => fmt_expr(a),
     };
-    // If b is an op weaker than op, wrap it
+    // If b is an op not stronger than op, wrap it
     let bf = match is_op(b) {
         Some(k) => {
-            if parser::operator_strength(&k) < parser::operator_strength(op) {
+            if parser::operator_strength(&k) <= parser::operator_strength(op) {
                 format!("({})", fmt_expr(b))
             } else {
                 fmt_expr(b)
-- 
2.43.0


From 9fa412433256716abf673f0cfadb6260315c6cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:02 +0000
Subject: [PATCH 29/50] fix: report the end of input when reading bits

---
 lib/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bits.c b/lib/bits.c
index 78f7458..7c77a2f 100644
--- a/lib/bits.c
+++ b/lib/bits.c
@@ -63,7 +63,7 @@ pub void closereader(reader_t *r) {
 // Returns -1 if there is no next bit.
 pub int read1(reader_t *s) {
 	if (s->rem == 0) {
-		if (reader.read(s->in, &s->byte, 1) < 0) {
+		if (reader.read(s->in, &s->byte, 1) != 1) {
 			return -1;
 		}
 		s->rem = 8;
-- 
2.43.0


From 2956ac92777da652da635fc084ce0a7bc69f9ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:27 +0000
Subject: [PATCH 30/50] fix: release the buffer handle

---
 lib/clip/buffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/clip/buffer.c b/lib/clip/buffer.c
index bbd0b8b..a5a87cb 100644
--- a/lib/clip/buffer.c
+++ b/lib/clip/buffer.c
@@ -39,6 +39,7 @@ pub void free(t *b) {
         OS.free(c->data);
         OS.free(c);
     }
+    OS.free(b);
 }
 
 pub size_t size(t *b) {
-- 
2.43.0


From 72cd400d9525c011f4a1e35a7f79ee6a700f2d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:31:27 +0000
Subject: [PATCH 31/50] fix: remember the size of a value that replaces another

---
 lib/clip/map2.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/clip/map2.c b/lib/clip/map2.c
index 915b5d5..379ead5 100644
--- a/lib/clip/map2.c
+++ b/lib/clip/map2.c
@@ -99,6 +99,7 @@ void inner_set(innermap_t *m, slice_t key, val) {
     if (s != NULL) {
         OS.free(s->val.bytes);
         s->val.bytes = clone(val.bytes, val.size);
+        s->val.size = val.size;
         return;
     }
     s = alloc_slot(m, key);
-- 
2.43.0


From c2031389fae61dae8102d083c3f8266813a94cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:43 +0000
Subject: [PATCH 32/50] fix: release the input buffer of the LZW compressor

---
 lib/compress/lzw.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/compress/lzw.c b/lib/compress/lzw.c
index 5960d3c..f08ebd3 100644
--- a/lib/compress/lzw.c
+++ b/lib/compress/lzw.c
@@ -135,6 +135,7 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 	}
 
 	// Finalizes the compressed stream and frees the compressor.
+	free(p->buf);
 	free(p);
 	comp_emit(enc, enc->dict.endcode);
 	bits.closewriter(enc->bw);
-- 
2.43.0


From 200c963dafc90c325093ac4e9d19f9eab5968d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 33/50] fix: give the SHA-1 digest of an empty message

---
 lib/crypt/sha1.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/crypt/sha1.c b/lib/crypt/sha1.c
index 746dec0..207d03e 100644
--- a/lib/crypt/sha1.c
+++ b/lib/crypt/sha1.c
@@ -60,16 +60,7 @@ pub bool add(digest_t *hash, char byte) {
 	// Make sure add is not called after the end.
 	if (hash->finished) return false;
 
-	// On the first add set the initial sum.
-	if (!hash->init) {
-		hash->init = true;
-		hash->sum[0] = 0x67452301;
-		hash->sum[1] = 0xefcdab89;
-		hash->sum[2] = 0x98badcfe;
-		hash->sum[3] = 0x10325476;
-		hash->sum[4] = 0xc3d2e1f0;
-	}
-
+	init(hash);
 	hash->pos++;
 	hash->length += 8;
 	push_byte(hash, byte);
@@ -78,6 +69,7 @@ pub bool add(digest_t *hash, char byte) {
 
 pub bool end(digest_t *hash) {
 	if (hash->finished) return false;
+	init(hash);
 	hash->finished = true;
 
 	// The internal "machinery" processes a stream of 64-byte blocks.
@@ -111,6 +103,17 @@ pub bool end(digest_t *hash) {
 	return true;
 }
 
+// Sets the initial sum before the first byte or before the end of an empty message.
+void init(digest_t *hash) {
+	if (hash->init) return;
+	hash->init = true;
+	hash->sum[0] = 0x67452301;
+	hash->sum[1] = 0xefcdab89;
+	hash->sum[2] = 0x98badcfe;
+	hash->sum[3] = 0x10325476;
+	hash->sum[4] = 0xc3d2e1f0;
+}
+
 void push_byte(digest_t *hash, uint8_t b) {
 	uint32_t *sum = hash->sum;
 
-- 
2.43.0


From 5055ce18204cc0512fde0a4a44a55f7a8f338eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 34/50] fix: tell byte 255 from the end of a memory stream

---
 lib/mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mem.c b/lib/mem.c
index ef00eef..a4a27f9 100644
--- a/lib/mem.c
+++ b/lib/mem.c
@@ -73,7 +73,7 @@ pub int memgetc(mem_t *m)
 	if(m->pos >= m->datalen) {
 		return EOF;
 	}
-	int c = m->data[m->pos];
+	int c = (uint8_t) m->data[m->pos];
 	m->pos++;
 	return c;
 }
-- 
2.43.0


From 282c9e6ed82e48801a4050e31d6b1151d91095a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 35/50] fix: compare the whole suffix in ends_with

---
 lib/strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/strings.c b/lib/strings.c
index 0e0daf7..0012410 100644
--- a/lib/strings.c
+++ b/lib/strings.c
@@ -138,11 +138,11 @@ pub bool ends_with(const char *string, *suffix) {
 	while (*x != '\0') x++;
 	while (*y != '\0') y++;
 	while (x > string && y > suffix) {
+		x--;
+		y--;
 		if (*x != *y) {
 			return false;
 		}
-		x--;
-		y--;
 	}
 	return y == suffix;
 }
-- 
2.43.0


From d581ca87d17cf789e01cadf561e8410d7466d660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 36/50] fix: tell byte 255 from the end of file when reading
 lines

---
 lib/linereader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/linereader.c b/lib/linereader.c
index 204df28..737534b 100644
--- a/lib/linereader.c
+++ b/lib/linereader.c
@@ -22,7 +22,7 @@ pub bool read(t *b) {
 	}
 	size_t len = 0;
 	while (true) {
-		char c = fgetc(b->f);
+		int c = fgetc(b->f);
 		if (c == EOF) {
 			b->ended = true;
 			break;
-- 
2.43.0


From 415fbd707f6595acf2cde5eb5a6fdfb70a48b435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 37/50] fix: refuse URLs whose parts do not fit

---
 lib/url.c | 34 +++++++++++++++++++++++++---------
 1 file changed, 25 insertions(+), 9 deletions(-)

diff --git a/lib/url.c b/lib/url.c
index b592149..957d1b7 100644
--- a/lib/url.c
+++ b/lib/url.c
@@ -11,10 +11,14 @@ pub t *parse(const char *s) {
 	t *r = calloc!(1, sizeof(t));
     tokenizer.t *buf = tokenizer.from_str(s);
 
+    bool ok = true;
+
     // http
-    char *q = r->schema;
+    size_t n = 0;
     while (tokenizer.more(buf) && tokenizer.peek(buf) != ':') {
-        *q++ = tokenizer.get(buf);
+        ok = ok && n + 1 < sizeof(r->schema);
+        int c = tokenizer.get(buf);
+        if (ok) r->schema[n++] = c;
     }
 
     // ://
@@ -25,27 +29,39 @@ pub t *parse(const char *s) {
     }
 
     // domain or ip address
-    q = r->hostname;
+    n = 0;
     while (tokenizer.more(buf) && tokenizer.peek(buf) != ':' && tokenizer.peek(buf) != '/') {
-        *q++ = tokenizer.get(buf);
+        ok = ok && n + 1 < sizeof(r->hostname);
+        int c = tokenizer.get(buf);
+        if (ok) r->hostname[n++] = c;
     }
 
-    q = r->port;
+    n = 0;
     if (tokenizer.peek(buf) == ':') {
         tokenizer.get(buf);
         while (tokenizer.more(buf) && tokenizer.peek(buf) != '/') {
-            *q++ = tokenizer.get(buf);
+            ok = ok && n + 1 < sizeof(r->port);
+            int c = tokenizer.get(buf);
+            if (ok) r->port[n++] = c;
         }
     }
 
-    q = r->path;
-	*q = '/';
+    n = 0;
+    r->path[0] = '/';
     if (tokenizer.peek(buf) == '/') {
         while (tokenizer.more(buf)) {
-            *q++ = tokenizer.get(buf);
+            ok = ok && n + 1 < sizeof(r->path);
+            int c = tokenizer.get(buf);
+            if (ok) r->path[n++] = c;
         }
     }
 
     tokenizer.free(buf);
+
+    // Some part doesn't fit.
+    if (!ok) {
+        free(r);
+        return NULL;
+    }
     return r;
 }
-- 
2.43.0


From 3aae000cbd6fb533de1b2f7e9ccc905358653bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 38/50] fix: check for the end of data when reading bencode

---
 lib/formats/bencode.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/formats/bencode.c b/lib/formats/bencode.c
index f09f238..6b7a1bb 100644
--- a/lib/formats/bencode.c
+++ b/lib/formats/bencode.c
@@ -32,7 +32,7 @@ pub void freereader(reader_t *r) {
  */
 pub bool more(reader_t *r) {
     if (r->stacksize > 0) {
-        return peek(r) != 'e';
+        return peek(r) != EOF && peek(r) != 'e';
     }
     return peek(r) != EOF;
 }
@@ -177,6 +177,9 @@ pub bool skip(reader_t *r) {
 // }
 
 void consume(reader_t *r, char c) {
+    if (r->pos >= r->size) {
+        panic("wanted %c, got the end of data", c);
+    }
     if (r->data[r->pos] != c) {
         panic("wanted %c, got %c", c, r->data[r->pos]);
     }
@@ -184,11 +187,11 @@ void consume(reader_t *r, char c) {
 }
 
 
-char peek(reader_t *r) {
+int peek(reader_t *r) {
     if (r->pos >= r->size) {
         return EOF;
     }
-    return r->data[r->pos];
+    return (uint8_t) r->data[r->pos];
 }
 
 int num(reader_t *r) {
@@ -212,5 +215,8 @@ int num(reader_t *r) {
 }
 
 char pop(reader_t *r) {
+    if (r->pos >= r->size) {
+        panic("unexpected end of data");
+    }
     return r->data[r->pos++];
 }
-- 
2.43.0


From ff8480066395976f0a7f9e78611b471a4f4b2ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 39/50] fix: write the smallest integer in bencode

---
 lib/formats/bencode_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/formats/bencode_writer.c b/lib/formats/bencode_writer.c
index 6f50384..5009a4e 100644
--- a/lib/formats/bencode_writer.c
+++ b/lib/formats/bencode_writer.c
@@ -90,7 +90,7 @@ pub bool buf(t *w, const uint8_t *buff, size_t len) {
 	return true;
 }
 
-bool _writenum(t *w, int n) {
+bool _writenum(t *w, int64_t n) {
 	// Write "-" if the number is negative.
 	if (n < 0) {
 		if (!byte(w, '-')) return false;
-- 
2.43.0


From 2a5f350354a492356a1991836285d441d7135578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:44 +0000
Subject: [PATCH 40/50] fix: keep numbers within the tokenizer's buffer

---
 lib/tokenizer.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 7770316..cdf66f7 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -184,12 +184,13 @@ pub bool id(t *b, char *buf, size_t n) {
 }
 
 // Reads a C-style floating-point number into buf.
-// Returns false on parse error.
+// Returns false on parse error or if the number doesn't fit.
 pub bool num(t *b, char *buf, size_t n) {
-	(void) n;
 	char *p = buf;
+	char *end = buf + n;
 
 	if (peek(b) == '-') {
+		if (end - p < 2) return false;
 		*p++ = get(b);
 	}
 
@@ -198,16 +199,19 @@ pub bool num(t *b, char *buf, size_t n) {
 		return false;
 	}
 	while (isdigit(peek(b))) {
+		if (end - p < 2) return false;
 		*p++ = get(b);
 	}
 
 	// Optional fractional part
 	if (peek(b) == '.') {
+		if (end - p < 2) return false;
 		*p++ = get(b);
 		if (!isdigit(peek(b))) {
 			return false;
 		}
 		while (isdigit(peek(b))) {
+			if (end - p < 2) return false;
 			*p++ = get(b);
 		}
 	}
@@ -215,11 +219,13 @@ pub bool num(t *b, char *buf, size_t n) {
 	// Optional exponent
 	int c = peek(b);
 	if (c == 'e' || c == 'E') {
+		if (end - p < 2) return false;
 		*p++ = get(b);
 		
 		// Optional - or +
 		c = peek(b);
 		if (c == '-' || c == '+') {
+			if (end - p < 2) return false;
 			*p++ = get(b);
 		}
 
@@ -228,6 +234,7 @@ pub bool num(t *b, char *buf, size_t n) {
 			return false;
 		}
 		while (isdigit(peek(b))) {
+			if (end - p < 2) return false;
 			*p++ = get(b);
 		}
 	}
-- 
2.43.0


From f39b96f610ad1ab72bf37db29e7b63a3226cf265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 41/50] fix: write milliseconds with three digits in
 hh:mm:ss,ms

---
 lib/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/time.c b/lib/time.c
index aa9c27f..f1c1d34 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -125,7 +125,7 @@ pub bool dur_fmt(duration_t *d, char *buf, size_t bufsize, const char *fmt) {
 			len = snprintf(buf, bufsize, "%02d:%02d.%03d", mm, ss, ms);
 		}
 		case "hh:mm:ss,ms": {
-			len = snprintf(buf, bufsize, "%02d:%02d:%02d,%d", pp.h, pp.m, pp.s, pp.ms);
+			len = snprintf(buf, bufsize, "%02d:%02d:%02d,%03d", pp.h, pp.m, pp.s, pp.ms);
 		}
 		case "[h]:mm:ss.mmm": {
 			int ms = pp.ms;
-- 
2.43.0


From d3784e434eb6aa0c04abaef67f6310d952c72418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 42/50] fix: keep the fraction of a parsed duration exact

---
 lib/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/time.c b/lib/time.c
index f1c1d34..400c24b 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -201,7 +201,7 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 			val += (int) *p - (int) '0';
 			p++;
 		}
-		int64_t diff = (double)SECONDS * ((double)val / (double)fracsize);
+		int64_t diff = (int64_t) val * SECONDS / fracsize;
 		us += diff;
 	}
 
-- 
2.43.0


From 895308b9658e6f84521f6551e60e7e14cc2c550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 43/50] fix: parse durations over 35 minutes and with hours

---
 lib/time.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/time.c b/lib/time.c
index 400c24b..b43ecd8 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -176,12 +176,14 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 
 	int64_t us = 0;
 	switch (numslen) {
-		case 2: { us = (nums[0] * 60 + nums[1]) * SECONDS; }
+		case 2: { us = (int64_t) nums[0] * 60 + nums[1]; }
+		case 3: { us = (int64_t) nums[0] * 3600 + nums[1] * 60 + nums[2]; }
 		default: {
 			error.set(err, "unhandled format: %s", s);
 			return false;
 		}
 	}
+	us *= SECONDS;
 
 	// Maybe sub-second fraction.
 	if (*p == '.') {
-- 
2.43.0


From d7cfc52ee1e60c7373eb96c43be242acac8f705c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 44/50] fix: escape quotes in CSV as the reader expects them

---
 lib/formats/csv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/formats/csv.c b/lib/formats/csv.c
index 6a12d6f..df9b368 100644
--- a/lib/formats/csv.c
+++ b/lib/formats/csv.c
@@ -129,7 +129,7 @@ pub void writeval(writer_t *w, const char *x) {
 	w->col++;
 	fputc('"', w->f);
 	while (*x != '\0') {
-		if (*x == '"') fputc('\\', w->f);
+		if (*x == '"') fputc('"', w->f);
 		fputc(*x, w->f);
 		x++;
 	}
-- 
2.43.0


From ff59f52c0fb7e9d45f80fcdfd31d7161fa530d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 45/50] fix: keep CSV values within the buffer

---
 lib/formats/csv.c | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/lib/formats/csv.c b/lib/formats/csv.c
index df9b368..628cc5a 100644
--- a/lib/formats/csv.c
+++ b/lib/formats/csv.c
@@ -43,14 +43,22 @@ pub bool readval(reader_t *r) {
 		return true;
 	}
 
-	char *p = r->valbuf;
+	size_t n = 0;
 	while (tokenizer.more(r->b) && !peekany(r->b, ",\r\n")) {
-		*p++ = tokenizer.get(r->b);
+		putval(r, n++, tokenizer.get(r->b));
 	}
-	*p = '\0';
+	putval(r, n, '\0');
 	return true;
 }
 
+// Puts the n-th character of the current value.
+void putval(reader_t *r, size_t n, char c) {
+	if (n >= sizeof(r->valbuf)) {
+		panic("value is too long");
+	}
+	r->valbuf[n] = c;
+}
+
 bool peekany(tokenizer.t *b, const char *chars) {
 	const char *p = chars;
 	while (*p != '\0') {
@@ -90,7 +98,7 @@ void read_quoted_value(reader_t *r) {
 	}
 
 	// Content + closing quote
-	char *p = r->valbuf;
+	size_t n = 0;
 	while (true) {
 		int c = tokenizer.get(b);
 		if (c == EOF) {
@@ -102,11 +110,11 @@ void read_quoted_value(reader_t *r) {
 			if (tokenizer.peek(b) == '\"') {
 				tokenizer.get(b);
 			} else {
-				*p = '\0';
+				putval(r, n, '\0');
 				break;
 			}
 		}
-		*p++ = c;
+		putval(r, n++, c);
 	}
 }
 
-- 
2.43.0


From f0ce08fbc7403d4c87f0af12a56a49fd2fc4c220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 46/50] fix: keep large numbers within the buffer when writing
 JSON

---
 lib/formats/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 6f66b11..f5fe741 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -529,7 +529,7 @@ void writestr(val_t *n, strbuilder.str *s) {
 }
 
 bool writenum(val_t *n, strbuilder.str *s) {
-	char buf[100] = {0};
+	char buf[400] = {0};
 	double v = n->val.num;
 	if (v == round(v)) {
 		sprintf(buf, "%.0f", n->val.num);
-- 
2.43.0


From 087a234e6843c3531dc2f52f39db629cdae3010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 47/50] fix: copy JSON null values

---
 lib/formats/json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index f5fe741..d688148 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -92,6 +92,7 @@ pub val_t *clone(val_t *obj) {
 		case TBOOL: {
 			copy->val.boolval = obj->val.boolval;
 		}
+		case TNULL: {}
 		default: {
 			panic("json.clone: forgot case %d", obj->type);
 		}
-- 
2.43.0


From 0ee105e1d4339117776612b3477efbe951418b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 48/50] fix: release the keys of JSON objects

---
 lib/formats/json.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index d688148..bf7a015 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -74,6 +74,7 @@ pub val_t *clone(val_t *obj) {
 				char *k = strings.newstr("%s", obj->keys[i]);
 				val_t *v = clone(obj->vals[i]);
 				json_put(copy, k, v);
+				free(k);
 			}
 		}
 		case TARR: {
@@ -300,15 +301,18 @@ val_t *read_dict(tokenizer.t *p, error.t *err) {
 			return NULL;
 		}
 		if (!expect(p, ':', err)) {
+			free(key);
 			json_free(o);
 			return NULL;
 		}
 		val_t *val = read_node(p, err);
 		if (!val) {
+			free(key);
 			json_free(o);
 			return NULL;
 		}
 		json_put(o, key, val);
+		free(key);
 		if (!eat(p, ',')) {
 			break;
 		}
-- 
2.43.0


From 06972ed629f427d895992cb7411e0453555f3e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 49/50] fix: write the whole JSON text and release it

---
 lib/formats/json.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index bf7a015..6de41d6 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -452,7 +452,9 @@ pub void formatwr(writer.t *w, val_t *v) {
 			panic("write failed");
 		}
 		n -= (size_t) r;
+		buf += r;
 	}
+	free(s);
 }
 
 // Returns a string with the value n formatted as json.
-- 
2.43.0


From 7ae032c46eae65b941f036a2ca1e270c6f99d291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:43:18 +0000
Subject: [PATCH 50/50] fix: read and write escaped characters in JSON strings
 and keys

---
 lib/formats/json.c | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 6de41d6..fc96cc4 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -384,6 +384,12 @@ char *readstr(tokenizer.t *p, error.t *err) {
 				free(s);
 				return NULL;
 			}
+			switch (c) {
+				case 'n': { c = '\n'; }
+				case 't': { c = '\t'; }
+				case 'r': { c = '\r'; }
+				default: {}
+			}
 		}
 		if (len + 1 == cap) {
 			cap *= 2;
@@ -485,9 +491,8 @@ bool writeobj(val_t *n, strbuilder.str *s) {
 	bool ok = strbuilder.adds(s, "{");
 	for (size_t i = 0; i < len; i++) {
 		ok = ok
-			&& strbuilder.adds(s, "\"")
-			&& strbuilder.adds(s, key(n, i))
-			&& strbuilder.adds(s, "\":")
+			&& writequoted(key(n, i), s)
+			&& strbuilder.adds(s, ":")
 			&& writenode(val(n, i), s);
 		if (i + 1 < len) {
 			ok = ok && strbuilder.adds(s, ",");
@@ -511,17 +516,26 @@ bool writearr(val_t *n, strbuilder.str *s) {
 }
 
 void writestr(val_t *n, strbuilder.str *s) {
-	const char *content = n->val.str;
+	if (!writequoted(n->val.str, s)) {
+		panic("writestr failed");
+	}
+}
+
+bool writequoted(const char *content, strbuilder.str *s) {
 	size_t len = strlen(content);
 	bool ok = strbuilder.adds(s, "\"");
 	for (size_t i = 0; i < len; i++) {
 		const char c = content[i];
 		if (c == '\n') {
-			ok = ok && strbuilder.adds(s, "\\\\n");
+			ok = ok && strbuilder.adds(s, "\\n");
 			continue;
 		}
 		if (c == '\t') {
-			ok = ok && strbuilder.adds(s, "\\\\t");
+			ok = ok && strbuilder.adds(s, "\\t");
+			continue;
+		}
+		if (c == '\r') {
+			ok = ok && strbuilder.adds(s, "\\r");
 			continue;
 		}
 		if (c == '\\' || c == '\"' || c == '/') {
@@ -530,9 +544,7 @@ void writestr(val_t *n, strbuilder.str *s) {
 		ok = ok && strbuilder.addc(s, c);
 	}
 	ok = ok && strbuilder.addc(s, '"');
-	if (!ok) {
-		panic("writestr failed");
-	}
+	return ok;
 }
 
 bool writenum(val_t *n, strbuilder.str *s) {
-- 
2.43.0

