From e77414bd79c60406668656d4c259dd4ce81c1893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:03 +0000
Subject: [PATCH 001/218] fix: keep the grouping of right operands of equal
 precedence

a - (b - c) was printed to C as a - b - c.
---
 src/format_c.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/format_c.rs b/src/format_c.rs
index 9747409..37ac369 100644
--- a/src/format_c.rs
+++ b/src/format_c.rs
@@ -254,10 +254,14 @@ fn is_op(e: &Expr) -> Option<String> {
 
 fn format_binary_op(x: &c::BinaryOp) -> String {
     let op = &x.op;
-    let fmtop = |a: &Expr| {
+    let fmtop = |a: &Expr, is_right: bool| {
         if let Some(k) = is_op(a) {
-            // Wrap weaker operands in braces to keep precedence.
-            if parser::operator_strength(&k) < parser::operator_strength(op)
+            let sa = parser::operator_strength(&k);
+            let sx = parser::operator_strength(op);
+            // Wrap weaker operands in braces to keep precedence. Binary
+            // operators group to the left, so a right operand of the same
+            // strength has to be wrapped too.
+            if sa < sx || (is_right && sa == sx)
 				// Wrap these bit ops too even when precedence is ok
 				// because compilers are getting paranoid.
                 || op == "&"
@@ -269,7 +273,7 @@ fn format_binary_op(x: &c::BinaryOp) -> String {
         }
         fmt_expr(a)
     };
-    format!("{} {} {}", fmtop(&x.a), op.clone(), fmtop(&x.b))
+    format!("{} {} {}", fmtop(&x.a, false), op.clone(), fmtop(&x.b, true))
 }
 
 fn indent(text: &str) -> String {
-- 
2.43.0


From 6a2e491c229f41c3cb74abfd79458d80877fbbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:03 +0000
Subject: [PATCH 002/218] fix: keep the grouping of targets of postfix
 operators

(*p)++ was printed to C as *p++, ((T*)p)[i] as (T*)(p)[i] and so on.
---
 src/format_c.rs | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/format_c.rs b/src/format_c.rs
index 37ac369..81e361e 100644
--- a/src/format_c.rs
+++ b/src/format_c.rs
@@ -142,7 +142,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
                 s1 += &fmt_expr(&argument);
             }
             s1 += ")";
-            return format!("{}{}", fmt_expr(&function), s1);
+            return format!("{}{}", fmt_postfix_target(&function), s1);
         }
         Expr::Literal(x) => format_literal(x),
         Expr::Ident(x) => x.clone(),
@@ -185,15 +185,7 @@ pub fn fmt_expr(expr: &Expr) -> String {
             target,
             field_name,
         } => {
-            match is_op(target) {
-                Some(targetop) => {
-                    if parser::operator_strength(&targetop) < parser::operator_strength(op) {
-                        return format!("({}){}{}", fmt_expr(target), op, field_name);
-                    }
-                }
-                None => {}
-            }
-            return format!("{}{}{}", fmt_expr(target), op, field_name);
+            return format!("{}{}{}", fmt_postfix_target(target), op, field_name);
         }
         Expr::BinaryOp(x) => format_binary_op(&x),
         Expr::PrefixOp { operator, operand } => {
@@ -224,11 +216,22 @@ pub fn fmt_expr(expr: &Expr) -> String {
             };
         }
         Expr::PostfixOp { operator, operand } => {
-            return fmt_expr(&operand) + &operator;
+            return fmt_postfix_target(&operand) + &operator;
         }
         Expr::ArrayIndex { array, index } => {
-            return format!("{}[{}]", fmt_expr(array), fmt_expr(index));
+            return format!("{}[{}]", fmt_postfix_target(array), fmt_expr(index));
+        }
+    }
+}
+
+// Formats an expression to which a postfix operator is applied: a call, an
+// index, a field access, an increment. Those bind stronger than anything else.
+fn fmt_postfix_target(e: &Expr) -> String {
+    match e {
+        Expr::BinaryOp(_) | Expr::PrefixOp { .. } | Expr::Cast { .. } => {
+            format!("({})", fmt_expr(e))
         }
+        _ => fmt_expr(e),
     }
 }
 
-- 
2.43.0


From eb0fb60571ac1f3b3605d92f8b0fa1319220c8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:03 +0000
Subject: [PATCH 003/218] fix: keep nested prefix operators apart

-(-x) was printed to C as --x.
---
 src/format_c.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/format_c.rs b/src/format_c.rs
index 81e361e..9206c9b 100644
--- a/src/format_c.rs
+++ b/src/format_c.rs
@@ -212,6 +212,9 @@ pub fn fmt_expr(expr: &Expr) -> String {
                         fmt_expr(&operand)
                     )
                 ),
+                // Don't let two operators glue into a different one: -(-x) is
+                // not --x.
+                Expr::PrefixOp { .. } => format!("{}({})", operator, fmt_expr(&operand)),
                 _ => format!("{}{}", operator, fmt_expr(&operand)),
             };
         }
-- 
2.43.0


From 47b2857c1416b0285e9a81ca7ed2f2e4bebe1b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:18 +0000
Subject: [PATCH 004/218] fix: translate <<= and >>= instead of crashing on
 them

---
 src/format_c.rs   | 7 ++++++-
 src/translator.rs | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/format_c.rs b/src/format_c.rs
index 9206c9b..1fd0a82 100644
--- a/src/format_c.rs
+++ b/src/format_c.rs
@@ -279,7 +279,12 @@ fn format_binary_op(x: &c::BinaryOp) -> String {
         }
         fmt_expr(a)
     };
-    format!("{} {} {}", fmtop(&x.a, false), op.clone(), fmtop(&x.b, true))
+    format!(
+        "{} {} {}",
+        fmtop(&x.a, false),
+        op.clone(),
+        fmtop(&x.b, true)
+    )
 }
 
 fn indent(text: &str) -> String {
diff --git a/src/translator.rs b/src/translator.rs
index bf7d265..603fd91 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -749,7 +749,9 @@ fn tr_binary_op(x: &nodes::BinaryOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>,
         "==" | "<" | ">" | "!=" | ">=" | "<=" => types::typeof_cmp(&at, &bt),
         "-" | "+" => types::typeof_plusminus(x.op.as_str(), &at, &bt),
         "*" | "/" | "%" | "<<" | ">>" | "&" | "|" | "^" => types::typeof_arith(&at, &bt),
-        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" => Ok(types::just("void")),
+        "=" | "+=" | "-=" | "/=" | "*=" | "|=" | "%=" | "&=" | "^=" | "<<=" | ">>=" => {
+            Ok(types::just("void"))
+        }
         _ => {
             todo!("{} binop", x.op);
         }
-- 
2.43.0


From fc59eac326cd7312919217d15bc246f11cb97021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:18 +0000
Subject: [PATCH 005/218] fix: comparison of booleans is a boolean

The result type was misspelled, so (a < b) == (c < d) couldn't be used in
logical expressions.
---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 1bb33c1..4e35ce7 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -235,7 +235,7 @@ pub fn typeof_cmp(a: &Type, b: &Type) -> Result<Type, String> {
         (Class::SINT, Class::SINT) => Ok(just("bool")),
         (Class::UINT, Class::UINT) => Ok(just("bool")),
         (Class::CHAR, Class::CHAR) => Ok(just("bool")),
-        (Class::BOOL, Class::BOOL) => Ok(just("boo")),
+        (Class::BOOL, Class::BOOL) => Ok(just("bool")),
 
         // num == const
         (Class::FLT | Class::SINT | Class::UINT, Class::CONSTNUM) => Ok(just("bool")),
-- 
2.43.0


From c5ac8909ec61b29b739ec15fe0094d6cbe8944e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:02 +0000
Subject: [PATCH 006/218] fix: evaluate the subject of a string switch once

The subject expression was repeated in the condition of every case. Also, a
string switch without cases crashed the translator.
---
 src/translator.rs | 43 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 603fd91..8a0ebce 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1364,14 +1364,41 @@ fn mk_str_switch(x: &nodes::Switch, ctx: &mut TrCtx) -> Result<c::Statement, Bui
     let value = &x.value;
     let cases = &x.cases;
     let default = &x.default_case;
-    let switchval = tr_expr(value, ctx)?.val;
-
-    let c0 = &cases[0];
-    Ok(c::Statement::If {
-        condition: mk_switchstr_cond(ctx, c0, &switchval)?,
-        body: tr_body(&c0.body, ctx)?,
-        else_body: mk_switchstr_else(cases, 1, default, ctx, &switchval)?,
-    })
+    // The subject is evaluated once and then compared with the case values.
+    let subject = tr_expr(value, ctx)?.val;
+    let name = "che__switchval";
+    let switchval = mk_id(name);
+    let mut statements = vec![
+        c::Statement::VarDecl {
+            type_name: c::Typename {
+                is_const: true,
+                name: "char".to_string(),
+            },
+            forms: vec![c::Form {
+                indexes: vec![],
+                name: name.to_string(),
+                stars: "*".to_string(),
+            }],
+            values: vec![Some(subject)],
+        },
+        // Don't let a switch without cases trigger an unused variable warning.
+        c::Statement::Expression(c::Expr::Cast {
+            type_name: c::BareTypeform {
+                typename: c::Typename {
+                    is_const: false,
+                    name: "void".to_string(),
+                },
+                hops: 0,
+            },
+            operand: Box::new(switchval.clone()),
+        }),
+    ];
+    if let Some(body) = mk_switchstr_else(cases, 0, default, ctx, &switchval)? {
+        statements.push(c::Statement::Block {
+            statements: body.statements,
+        });
+    }
+    Ok(c::Statement::Block { statements })
 }
 
 fn mk_switchstr_cond(
-- 
2.43.0


From ae084ae12c358ea6e08a07218964b5121880b0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:02:51 +0000
Subject: [PATCH 007/218] fix: don't join string pieces into a longer escape
 sequence

"\x1" "2" became "\x12".
---
 src/lexer.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/lexer.rs b/src/lexer.rs
index ab5b1a6..71b7927 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -181,6 +181,11 @@ fn read_string_literal(buf: &mut Buf) -> Token {
                 pos,
             };
         }
+        // Keep the pieces apart if joining them would continue a numeric escape
+        // sequence: "\x1" "2" is not "\x12".
+        if ends_with_num_escape(&s) && substr.starts_with(|c: char| c.is_ascii_hexdigit()) {
+            s += "\"\"";
+        }
         s += &substr;
         buf.read_set(SPACES.to_string());
     }
@@ -191,6 +196,21 @@ fn read_string_literal(buf: &mut Buf) -> Token {
     };
 }
 
+// Returns true if the string literal's content ends with a hexadecimal or octal
+// escape sequence.
+fn ends_with_num_escape(s: &str) -> bool {
+    let t = s.trim_end_matches(|c: char| c.is_ascii_hexdigit());
+    let head = if t.ends_with("x") {
+        &t[0..t.len() - 1]
+    } else if t.len() < s.len() {
+        t
+    } else {
+        return false;
+    };
+    // The backslash itself must not be escaped.
+    (head.len() - head.trim_end_matches('\\').len()) % 2 == 1
+}
+
 fn read_word(buf: &mut Buf) -> Token {
     let pos = buf.pos();
     let mut word = String::new();
-- 
2.43.0


From d13d2951947869226a04bbcde61ee7b446651321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:05:01 +0000
Subject: [PATCH 008/218] fix: translate array literal indexes as expressions

[1] = x crashed the translator, and an index that was an exported enum constant
didn't get its C name.
---
 src/translator.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/translator.rs b/src/translator.rs
index 8a0ebce..5ad0d43 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -902,6 +902,9 @@ fn tr_comp_literal(x: &nodes::CompLiteral, ctx: &mut TrCtx) -> Result<Typed<c::E
     let mut entries = Vec::new();
     for e in &x.entries {
         let key = match &e.key {
+            // [index] = value: any expression.
+            Some(x) if e.is_index => Some(tr_expr(x, ctx)?.val),
+            // .field = value
             Some(x) => match x {
                 nodes::Expr::NsName(ns_name) => {
                     if ns_name.ns != "" {
-- 
2.43.0


From 8eab4a373c1525edfca345acb9ca82a5d2e91f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:34 +0000
Subject: [PATCH 009/218] fix: recognize a module imported by different
 relative paths as one

---
 src/build.rs | 41 +++++++++++++++++++++++++++++++----------
 1 file changed, 31 insertions(+), 10 deletions(-)

diff --git a/src/build.rs b/src/build.rs
index 26489bb..4385ade 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -15,6 +15,7 @@ use std::collections::HashSet;
 use std::env;
 use std::fs;
 use std::io::BufRead;
+use std::path::PathBuf;
 use std::process::{Command, Stdio};
 
 #[derive(Debug)]
@@ -99,18 +100,34 @@ pub fn build_prog(source_path: &String, output_name: &str) -> Result<(), Vec<Bui
     }]);
 }
 
-fn preparse<'a>(
-    cache: &'a mut HashMap<String, ModuleInfo>,
-    path: &str,
-) -> Result<&'a ModuleInfo, String> {
-    if !cache.contains_key(path) {
-        cache.insert(path.to_string(), preparser::preparse(path)?);
+struct Cache {
+    heads: HashMap<String, ModuleInfo>,
+
+    // The path under which each file was seen first. The same module may be
+    // imported from different directories using different relative paths.
+    paths: HashMap<PathBuf, String>,
+}
+
+fn known_path(cache: &mut Cache, path: &str) -> String {
+    match fs::canonicalize(path) {
+        Ok(file) => cache.paths.entry(file).or_insert(path.to_string()).clone(),
+        Err(_) => path.to_string(),
     }
-    Ok(cache.get(path).unwrap())
+}
+
+fn preparse<'a>(cache: &'a mut Cache, path: &str) -> Result<&'a ModuleInfo, String> {
+    if !cache.heads.contains_key(path) {
+        let mut head = preparser::preparse(path)?;
+        for imp in head.imports.iter_mut() {
+            imp.path = known_path(cache, &imp.path);
+        }
+        cache.heads.insert(path.to_string(), head);
+    }
+    Ok(cache.heads.get(path).unwrap())
 }
 
 fn load_tree(
-    mut cache: &mut HashMap<String, ModuleInfo>,
+    mut cache: &mut Cache,
     path: &str,
     mut crumbs: Vec<String>,
 ) -> Result<Vec<String>, String> {
@@ -168,7 +185,11 @@ fn parse_mods(modheads: &Vec<ModuleInfo>) -> Result<Vec<Module>, Vec<BuildError>
 // Parses the full project starting with the file at mainpath
 // and including and parsing all its dependencies.
 pub fn parse_project(mainpath: &String) -> Result<Project, Vec<BuildError>> {
-    let mut cache = HashMap::new();
+    let mut cache = Cache {
+        heads: HashMap::new(),
+        paths: HashMap::new(),
+    };
+    known_path(&mut cache, mainpath);
     let mut paths = load_tree(&mut cache, mainpath, vec![]).map_err(|err| {
         vec![BuildError {
             message: err,
@@ -182,7 +203,7 @@ pub fn parse_project(mainpath: &String) -> Result<Project, Vec<BuildError>> {
 
     let mut modheads = Vec::new();
     for p in paths {
-        modheads.push(cache.get(&p).unwrap().clone())
+        modheads.push(cache.heads.get(&p).unwrap().clone())
     }
 
     // Every modhead already has a unique key based on path, but we'll give
-- 
2.43.0


From f111aaf99c386294fe43b68b9c5f6926fae26673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:34 +0000
Subject: [PATCH 010/218] fix: allow module file names that are not C
 identifiers

---
 src/build.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/build.rs b/src/build.rs
index 4385ade..256874e 100644
--- a/src/build.rs
+++ b/src/build.rs
@@ -209,7 +209,11 @@ pub fn parse_project(mainpath: &String) -> Result<Project, Vec<BuildError>> {
     // Every modhead already has a unique key based on path, but we'll give
     // them nicer ones here to make outputs easier for debugging.
     for (i, m) in modheads.iter_mut().enumerate() {
-        m.uniqid = format!("mod{}_{}", i, basename(&m.filepath).replace(".c", ""));
+        // The key goes into C identifiers.
+        let name = basename(&m.filepath)
+            .replace(".c", "")
+            .replace(|c: char| !c.is_ascii_alphanumeric(), "_");
+        m.uniqid = format!("mod{}_{}", i, name);
     }
 
     let modules = parse_mods(&modheads)?;
-- 
2.43.0


From 09fe7ac0bb7eea25ad738f728bf72939bd613151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:10:55 +0000
Subject: [PATCH 011/218] fix: keep the exported name of a function with a
 parameter of the same name

---
 src/translator.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 5ad0d43..22827f8 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1036,6 +1036,7 @@ fn tr_func_params(x: &nodes::FuncParams, ctx: &mut TrCtx) -> Result<c::FuncParam
 
 // pub? int f(...) {...}
 fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>, BuildError> {
+    let form = tr_form(&x.form, ctx, true)?;
     begin_scope(ctx);
 
     for p in &x.params.list {
@@ -1058,7 +1059,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
     let mut r = vec![c::ModElem::FuncDef(c::FuncDef {
         is_static: !x.ispub,
         type_name: tr_typename(&x.typename, ctx)?,
-        form: tr_form(&x.form, ctx, true)?,
+        form: form.clone(),
         parameters: tr_func_params(&x.params, ctx)?,
         body: rbody,
     })];
@@ -1066,7 +1067,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
         r.push(c::ModElem::ForwardFunc(c::ForwardFunc {
             is_static: !x.ispub,
             type_name: tr_typename(&x.typename, ctx)?,
-            form: tr_form(&x.form, ctx, true)?,
+            form,
             parameters: tr_func_params(&x.params, ctx)?,
         }));
     }
-- 
2.43.0


From ebd5db69f40278431f58232ec9acfdf054c4da01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:34 +0000
Subject: [PATCH 012/218] fix: allow calls through imported function types

---
 src/translator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/translator.rs b/src/translator.rs
index 22827f8..5246909 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -1819,6 +1819,11 @@ fn typeof_call(ctx: &TrCtx, t: &types::Type, aa: Vec<&types::Type>) -> Result<ty
         }
     }
 
+    // Imported types are not known here.
+    if t.base.ns != "" {
+        return Ok(types::todo());
+    }
+
     return Err(format!("call of a non-function ({})", t.fmt()));
 }
 
-- 
2.43.0


From b2c793a56814553c776d2a60029fb0b3c5ede82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 013/218] fix: report unexpected end of file instead of
 crashing or looping

---
 src/parser.rs | 64 +++++++++++++++++++++++++++++----------------------
 1 file changed, 37 insertions(+), 27 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index ba65467..cb6427e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -143,7 +143,7 @@ fn parse_compat_macro(l: &mut Lexer) -> Result<ModElem, Error> {
 
 fn parse_module_object(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<ModElem>, Error> {
     let mut is_pub = false;
-    let pos = l.peek().unwrap().pos.clone();
+    let pos = peek(l)?.pos.clone();
     if l.follows("pub") {
         l.get();
         is_pub = true;
@@ -162,7 +162,7 @@ fn parse_module_object(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<ModE
     }
     let type_name = parse_typename(l, ctx)?;
     let form = parse_form(l, ctx)?;
-    if l.peek().unwrap().kind == "(" {
+    if peek(l)?.kind == "(" {
         let r = parse_function_declaration(l, is_pub, type_name, form, ctx, pos)?;
         return Ok(TWithErrors {
             obj: r.obj,
@@ -208,7 +208,7 @@ fn parse_seq_expr(l: &mut Lexer, strength: usize, ctx: &ParseCtx) -> Result<Expr
     let mut r = parse_expr(l, strength + 1, ctx)?;
     while l.more() {
         // Continue if next is an operator with the same strength.
-        let next = &l.peek().unwrap().kind;
+        let next = &peek(l)?.kind;
         if !is_op(&next) || operator_strength(&next) != strength {
             break;
         }
@@ -226,6 +226,7 @@ fn parse_seq_expr(l: &mut Lexer, strength: usize, ctx: &ParseCtx) -> Result<Expr
 }
 
 fn parse_prefix_expr(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
+    peek(l)?;
     let token = l.get().unwrap();
 
     // *{we are here}*foo
@@ -242,8 +243,8 @@ fn parse_prefix_expr(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
     // cast
     // * (foo_t)x
     if next == "("
-        && l.peek().unwrap().kind == "word"
-        && is_type(l.peek().unwrap().content.as_str(), &ctx.thismod.typedefs)
+        && peek(l)?.kind == "word"
+        && is_type(peek(l)?.content.as_str(), &ctx.thismod.typedefs)
     {
         let typeform = parse_bare_typeform(l, ctx)?;
         expect(l, ")", Some("typecast"))?;
@@ -266,7 +267,7 @@ fn base(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
     // println!("      base(): {:?}", l.peek());
     let mut r = read_expression_atom(l, ctx)?;
     while l.more() {
-        let next = l.peek().unwrap();
+        let next = peek(l)?;
         // call
         if next.kind == "(" {
             r = parse_call(l, ctx, r)?;
@@ -502,7 +503,7 @@ fn expect(l: &mut Lexer, kind: &str, comment: Option<&str>) -> Result<Token, Err
             pos: l.pos(),
         });
     }
-    let next = l.peek().unwrap();
+    let next = peek(l)?;
     if next.kind != kind {
         return Err(Error {
             message: with_comment(
@@ -515,6 +516,15 @@ fn expect(l: &mut Lexer, kind: &str, comment: Option<&str>) -> Result<Token, Err
     return Ok(l.get().unwrap());
 }
 
+// Returns the next token or an error if there is none.
+fn peek(l: &mut Lexer) -> Result<&Token, Error> {
+    let pos = l.pos();
+    l.peek().ok_or(Error {
+        message: "unexpected end of file".to_string(),
+        pos,
+    })
+}
+
 fn parse_typename(l: &mut Lexer, ctx: &ParseCtx) -> Result<Typename, Error> {
     let is_const = l.eat("const");
     let name = read_ns_id(l, ctx)?;
@@ -557,7 +567,7 @@ fn parse_anonymous_parameters(l: &mut Lexer, ctx: &ParseCtx) -> Result<Anonymous
 }
 
 fn parse_literal(l: &mut Lexer) -> Result<Literal, Error> {
-    let next = l.peek().unwrap();
+    let next = peek(l)?;
     if next.kind == "string".to_string() {
         let value = l.get().unwrap().content;
         return Ok(Literal::String(value));
@@ -575,13 +585,13 @@ fn parse_literal(l: &mut Lexer) -> Result<Literal, Error> {
         return Ok(Literal::Null);
     }
     return Err(Error {
-        message: format!("literal expected, got {}", l.peek().unwrap()),
-        pos: l.peek().unwrap().pos.clone(),
+        message: format!("literal expected, got {}", peek(l)?),
+        pos: peek(l)?.pos.clone(),
     });
 }
 
 fn parse_enum(l: &mut Lexer, is_pub: bool, ctx: &ParseCtx) -> Result<ModElem, Error> {
-    let pos = l.peek().unwrap().pos.clone();
+    let pos = peek(l)?.pos.clone();
     let mut entries: Vec<EnumEntry> = Vec::new();
     expect(l, "enum", Some("enum definition"))?;
     expect(l, "{", Some("enum definition"))?;
@@ -618,11 +628,11 @@ fn parse_composite_literal(l: &mut Lexer, ctx: &ParseCtx) -> Result<CompLiteral,
     };
     expect(l, "{", Some("composite literal"))?;
     loop {
-        if l.peek().unwrap().kind == "}" {
+        if peek(l)?.kind == "}" {
             break;
         }
         result.entries.push(parse_composite_literal_entry(l, ctx)?);
-        if l.peek().unwrap().kind == "," {
+        if peek(l)?.kind == "," {
             l.get();
         } else {
             break;
@@ -636,7 +646,7 @@ fn parse_composite_literal_entry(
     l: &mut Lexer,
     ctx: &ParseCtx,
 ) -> Result<CompositeLiteralEntry, Error> {
-    if l.peek().unwrap().kind == "." {
+    if peek(l)?.kind == "." {
         expect(l, ".", Some("struct literal member"))?;
         let tok = expect(l, "word", Some("struct literal entry - identifier"))?;
         expect(l, "=", Some("struct literal member"))?;
@@ -687,7 +697,7 @@ fn parse_sizeof(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
 fn parse_call(l: &mut Lexer, ctx: &ParseCtx, func: Expr) -> Result<Expr, Error> {
     let mut args = Vec::new();
     let tok = expect(l, "(", None)?;
-    if l.more() && l.peek().unwrap().kind != ")" {
+    if l.more() && peek(l)?.kind != ")" {
         args.push(parse_expr(l, 0, ctx)?);
         while l.follows(",") {
             l.get();
@@ -731,7 +741,7 @@ fn parse_statement(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statemen
         });
     }
 
-    let next = l.peek().unwrap();
+    let next = peek(l)?;
     match next.kind.as_str() {
         "break" => {
             l.get().unwrap();
@@ -769,7 +779,7 @@ fn parse_statement(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statemen
 }
 
 fn parse_variable_declaration(l: &mut Lexer, ctx: &ParseCtx) -> Result<Statement, Error> {
-    let pos = l.peek().unwrap().pos.clone();
+    let pos = peek(l)?.pos.clone();
     let type_name = parse_typename(l, ctx)?;
     let form = parse_form(l, ctx)?;
     let value = if l.eat("=") {
@@ -788,7 +798,7 @@ fn parse_variable_declaration(l: &mut Lexer, ctx: &ParseCtx) -> Result<Statement
 
 fn parse_return(l: &mut Lexer, ctx: &ParseCtx) -> Result<Statement, Error> {
     expect(l, "return", None)?;
-    if l.peek().unwrap().kind == ";" {
+    if peek(l)?.kind == ";" {
         l.get();
         return Ok(Statement::Return(nodes::Return { expression: None }));
     }
@@ -807,7 +817,7 @@ fn parse_form(l: &mut Lexer, ctx: &ParseCtx) -> Result<Form, Error> {
         hops: 0,
         name: String::new(),
         indexes: vec![],
-        pos: l.peek().unwrap().pos.clone(),
+        pos: peek(l)?.pos.clone(),
     };
 
     while l.follows("*") {
@@ -827,7 +837,7 @@ fn parse_form(l: &mut Lexer, ctx: &ParseCtx) -> Result<Form, Error> {
     while l.follows("[") {
         l.get().unwrap();
         let e: Option<Expr>;
-        if l.more() && l.peek().unwrap().kind != "]" {
+        if l.more() && peek(l)?.kind != "]" {
             e = Some(parse_expr(l, 0, ctx)?);
         } else {
             e = None;
@@ -877,8 +887,8 @@ fn parse_for(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>, Er
     let init: Option<ForInit>;
     if l.follows(";") {
         init = None;
-    } else if l.peek().unwrap().kind == "word"
-        && is_type(&l.peek().unwrap().content, &ctx.thismod.typedefs)
+    } else if peek(l)?.kind == "word"
+        && is_type(&peek(l)?.content, &ctx.thismod.typedefs)
     {
         let type_name = parse_typename(l, ctx)?;
         let form = parse_form(l, ctx)?;
@@ -1042,7 +1052,7 @@ fn parse_function_declaration(
 fn parse_function_parameter(l: &mut Lexer, ctx: &ParseCtx) -> Result<TypeAndForms, Error> {
     // int a,b
     // const char *s
-    // let pos = l.peek().unwrap().pos.clone();
+    // let pos = peek(l)?.pos.clone();
     let type_name = parse_typename(l, ctx)?;
     let mut forms: Vec<Form> = Vec::new();
     forms.push(parse_form(l, ctx)?);
@@ -1078,7 +1088,7 @@ fn read_body(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Body>, Error>
     let mut statements: Vec<Statement> = Vec::new();
     let mut errors = Vec::new();
     expect(l, "{", None)?;
-    while !l.follows("}") {
+    while l.more() && !l.follows("}") {
         match parse_statement(l, ctx) {
             Ok(s) => {
                 statements.push(s.obj);
@@ -1129,7 +1139,7 @@ fn parse_typedef(is_pub: bool, l: &mut Lexer, ctx: &ParseCtx) -> Result<ModElem,
         let mut fields: Vec<StructEntry> = Vec::new();
         expect(l, "{", Some("struct type definition"))?;
         while l.more() {
-            match l.peek().unwrap().kind.as_str() {
+            match peek(l)?.kind.as_str() {
                 "}" => break,
                 "union" => fields.push(StructEntry::Union(parse_union(l, ctx)?)),
                 _ => fields.push(StructEntry::Plain(parse_type_and_forms(l, ctx)?)),
@@ -1196,11 +1206,11 @@ fn parse_type_and_forms(l: &mut Lexer, ctx: &ParseCtx) -> Result<TypeAndForms, E
     if l.follows("struct") {
         return Err(Error {
             message: "Unexpected struct".to_string(),
-            pos: l.peek().unwrap().pos.clone(),
+            pos: peek(l)?.pos.clone(),
         });
     }
 
-    // let pos = l.peek().unwrap().pos.clone();
+    // let pos = peek(l)?.pos.clone();
     let type_name = parse_typename(l, ctx)?;
 
     let mut forms: Vec<Form> = vec![];
-- 
2.43.0


From 78e13662468947475acf2945622010ff2253d033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 014/218] fix: report literals cut by the end of file, step
 over unexpected characters

---
 src/lexer.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lexer.rs b/src/lexer.rs
index 71b7927..6c3e411 100644
--- a/src/lexer.rs
+++ b/src/lexer.rs
@@ -96,6 +96,7 @@ fn read_token(buf: &mut Buf) -> Option<Token> {
         }
     }
 
+    buf.get();
     return Some(Token {
         kind: "error".to_string(),
         content: format!("Unexpected character: '{}'", next),
@@ -121,7 +122,7 @@ fn read_number(buf: &mut Buf) -> Token {
 
     if buf.more() && (buf.peek().unwrap() == 'e' || buf.peek().unwrap() == 'E') {
         num += &buf.get().unwrap().to_string();
-        if buf.peek().unwrap() == '-' {
+        if buf.peek() == Some('-') {
             num += &buf.get().unwrap().to_string();
         }
         num += &buf.read_set(digits.to_string());
@@ -170,7 +171,7 @@ fn read_string_literal(buf: &mut Buf) -> Token {
         while buf.more() && buf.peek().unwrap() != '"' {
             let ch = buf.get().unwrap();
             substr += &ch.to_string();
-            if ch == '\\' {
+            if ch == '\\' && buf.more() {
                 substr += &buf.get().unwrap().to_string();
             }
         }
@@ -252,8 +253,10 @@ fn read_char_literal(buf: &mut Buf) -> Token {
         s.push(buf.get().unwrap());
     }
 
-    s.push(buf.get().unwrap());
-    if buf.get().unwrap() != '\'' {
+    if buf.more() {
+        s.push(buf.get().unwrap());
+    }
+    if buf.get() != Some('\'') {
         return Token {
             kind: "error".to_string(),
             content: "Single quote expected".to_string(),
-- 
2.43.0


From 8f084bea485645445c34bc53d2e4a93b17e1c9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 015/218] fix: report malformed typedefs and type hints instead
 of crashing

---
 src/preparser.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/preparser.rs b/src/preparser.rs
index ee39067..90d1570 100644
--- a/src/preparser.rs
+++ b/src/preparser.rs
@@ -33,14 +33,14 @@ pub fn preparse(path: &str) -> Result<ModuleInfo, String> {
                 }
                 "typedef" => {
                     // When a 'typedef' is encountered, look ahead to find the type name.
-                    typenames.push(get_typename(&mut l)?);
+                    typenames.push(get_typename(&mut l).map_err(|e| format!("{}: {}", path, e))?);
                 }
                 _ => {
                     // The special #type hint declares that a type name exists
                     // without defining it. These hints are needed in modules
                     // that interface with the OS headers.
                     if t.kind == "macro" && t.content.starts_with("#type") {
-                        let name = t.content[6..].trim().to_string();
+                        let name = t.content["#type".len()..].trim().to_string();
                         typenames.push(name);
                     }
                 }
@@ -65,8 +65,8 @@ fn get_typename(lexer: &mut Lexer) -> Result<String, String> {
     // typedef struct foo bar;
 
     if lexer.follows("{") {
-        skip_brackets(lexer);
-        let name = expect(lexer, "word", None).unwrap().content;
+        skip_brackets(lexer)?;
+        let name = expect(lexer, "word", None)?.content;
         expect(lexer, ";", None)?;
         return Ok(name);
     }
@@ -115,11 +115,11 @@ fn get_typename(lexer: &mut Lexer) -> Result<String, String> {
     return Ok(name.unwrap());
 }
 
-fn skip_brackets(lexer: &mut Lexer) {
-    expect(lexer, "{", None).unwrap();
+fn skip_brackets(lexer: &mut Lexer) -> Result<(), String> {
+    expect(lexer, "{", None)?;
     while lexer.more() {
         if lexer.follows("{") {
-            skip_brackets(lexer);
+            skip_brackets(lexer)?;
             continue;
         }
         if lexer.follows("}") {
@@ -127,7 +127,8 @@ fn skip_brackets(lexer: &mut Lexer) {
         }
         lexer.get();
     }
-    expect(lexer, "}", None).unwrap();
+    expect(lexer, "}", None)?;
+    Ok(())
 }
 
 fn expect(lexer: &mut Lexer, kind: &str, comment: Option<&str>) -> Result<Token, String> {
-- 
2.43.0


From 6fb66013c6621a7f0780d0636dd7f43d4c2432f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:15:56 +0000
Subject: [PATCH 016/218] fix: report bad array sizes and misplaced operators
 instead of crashing

---
 src/parser.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index cb6427e..84e6e6d 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -433,8 +433,8 @@ fn read_expression_atom(l: &mut Lexer, ctx: &ParseCtx) -> Result<Expr, Error> {
 
 fn is_op(token_type: &str) -> bool {
     let ops = [
-        "+", "-", "*", "/", "=", "|", "&", "~", "^", "<", ">", "%", "+=", "-=", "*=", "/=", "%=",
-        "&=", "^=", "|=", "++", "--", "->", ".", ">>", "<<", "<=", ">=", "&&", "||", "==", "!=",
+        "+", "-", "*", "/", "=", "|", "&", "^", "<", ">", "%", "+=", "-=", "*=", "/=", "%=", "&=",
+        "^=", "|=", "->", ".", ">>", "<<", "<=", ">=", "&&", "||", "==", "!=",
         "<<=", ">>=",
     ];
     return ops.contains(&token_type);
@@ -1188,7 +1188,10 @@ fn parse_typedef(is_pub: bool, l: &mut Lexer, ctx: &ParseCtx) -> Result<ModElem,
     if l.follows("[") {
         l.get();
         let num = expect(l, "num", None)?;
-        size = num.content.parse().unwrap();
+        size = num.content.parse().map_err(|_| Error {
+            message: format!("bad array size: {}", num.content),
+            pos: num.pos,
+        })?;
         expect(l, "]", None)?;
     }
     expect(l, ";", Some("typedef"))?;
@@ -1235,8 +1238,8 @@ fn token_to_string(token: &Token) -> String {
 
     let n = 40;
     let mut c: String;
-    if token.content.len() > n {
-        c = token.content[0..(n - 3)].to_string() + "...";
+    if token.content.chars().count() > n {
+        c = token.content.chars().take(n - 3).collect::<String>() + "...";
     } else {
         c = token.content.to_string();
     }
-- 
2.43.0


From 0f1147d646d1ac81bbcf7d8b303c00316db7f10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:14 +0000
Subject: [PATCH 017/218] fix: report duplicate definitions and misused names
 instead of crashing

---
 src/translator.rs | 45 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 5246909..9b1d8b7 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -184,10 +184,20 @@ fn mark_binding_use(ctx: &mut TrCtx, name: &str) -> bool {
     };
 }
 
-fn add_binding(ctx: &mut TrCtx, name: &str, pos: Pos, ispub: bool, t: types::Type) {
+fn add_binding(
+    ctx: &mut TrCtx,
+    name: &str,
+    pos: Pos,
+    ispub: bool,
+    t: types::Type,
+) -> Result<(), BuildError> {
     let n = ctx.scopes.len();
-    if ctx.scopes[n - 1].iter().any(|x| x.name == name) {
-        panic!("{} was already defined at ???", name);
+    if let Some(x) = ctx.scopes[n - 1].iter().find(|x| x.name == name) {
+        return Err(BuildError {
+            message: format!("{} was already defined at {}", name, x.pos.fmt()),
+            pos: pos.fmt(),
+            path: ctx.this_mod_head.filepath.clone(),
+        });
     }
     ctx.scopes[n - 1].push(Binding {
         name: String::from(name),
@@ -196,6 +206,7 @@ fn add_binding(ctx: &mut TrCtx, name: &str, pos: Pos, ispub: bool, t: types::Typ
         ispub,
         typ: t,
     });
+    Ok(())
 }
 
 // fn addtype(ctx: &mut TrCtx, name: &str, ispub: bool, typ: Type) {
@@ -241,19 +252,23 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                 } else if x.name == "define" {
                     let def = x.value.clone();
                     let mut parts = def.trim().split_whitespace();
-                    let id = parts.next().unwrap();
-                    let val = parts.next().unwrap();
+                    let id = parts.next().ok_or(BuildError {
+                        message: "missing name in #define".to_string(),
+                        pos: x.pos.fmt(),
+                        path: ctx.this_mod_head.filepath.clone(),
+                    })?;
+                    let val = parts.next().unwrap_or("");
                     let typ = if is_numeric(&val) {
                         types::number()
                     } else {
                         types::todo()
                     };
-                    add_binding(&mut ctx, &id, x.pos.clone(), false, typ);
+                    add_binding(&mut ctx, &id, x.pos.clone(), false, typ)?;
                 }
             }
             nodes::ModElem::Enum(x) => {
                 for e in &x.entries {
-                    add_binding(&mut ctx, &e.name, x.pos.clone(), x.is_pub, types::number());
+                    add_binding(&mut ctx, &e.name, x.pos.clone(), x.is_pub, types::number())?;
                 }
             }
             nodes::ModElem::StructAlias(x) => {
@@ -284,12 +299,12 @@ pub fn translate(m: &nodes::Module, params: &TrParams) -> Result<c::CModule, Bui
                     x.pos.clone(),
                     false,
                     typefrom_typename(&x.typename, &x.form),
-                );
+                )?;
             }
             nodes::ModElem::FuncDecl(x) => {
                 let ispub = x.ispub || x.form.name == "main";
                 let typ = typefrom_funcdecl(&x);
-                add_binding(&mut ctx, &x.form.name, x.pos.clone(), ispub, typ);
+                add_binding(&mut ctx, &x.form.name, x.pos.clone(), ispub, typ)?;
             }
         }
     }
@@ -1047,7 +1062,7 @@ fn tr_func_decl(x: &nodes::FuncDecl, ctx: &mut TrCtx) -> Result<Vec<c::ModElem>,
                 f.pos.clone(),
                 false,
                 typefrom_typename(&p.typename, &f),
-            );
+            )?;
         }
     }
 
@@ -1175,7 +1190,11 @@ fn tr_nsid_in_expr(x: &nodes::NsName, ctx: &mut TrCtx) -> Result<Typed<String>,
         match exports.fns.iter().find(|f| f.form.name == x.name) {
             Some(f) => typ = typefrom_funcdecl(&f),
             None => {
-                todo!();
+                return Err(BuildError {
+                    message: format!("{}.{} is not a value", x.ns, x.name),
+                    pos: x.pos.fmt(),
+                    path: ctx.this_mod_head.filepath.clone(),
+                });
             }
         }
     }
@@ -1257,7 +1276,7 @@ fn tr_for(x: &nodes::For, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
                     form.pos.clone(),
                     false,
                     typefrom_typename(&type_name, &form),
-                );
+                )?;
                 c::ForInit::DeclLoopCounter(c::VarDecl {
                     typename: tr_typename(type_name, ctx)?,
                     form: tr_form(form, ctx, false)?,
@@ -1467,7 +1486,7 @@ fn tr_vardecl(x: &nodes::VarDecl, ctx: &mut TrCtx) -> Result<c::Statement, Build
         x.form.pos.clone(),
         false,
         typefrom_typename(&x.typename, &x.form),
-    );
+    )?;
     Ok(c::Statement::VarDecl {
         type_name: tr_typename(&x.typename, ctx)?,
         forms: vec![tr_form(&x.form, ctx, false)?],
-- 
2.43.0


From 8f2f190a868a859169f4691cc2321b783eaa8556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:19:13 +0000
Subject: [PATCH 018/218] fix: a number plus a pointer is a pointer

---
 src/types.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types.rs b/src/types.rs
index 4e35ce7..e80b42d 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -216,7 +216,7 @@ pub fn typeof_plusminus(op: &str, a: &Type, b: &Type) -> Result<Type, String> {
 
         // ptr + any int = ptr
         (_, Class::PTR | Class::ARR, Class::CONSTNUM | Class::SINT | Class::UINT) => Ok(a.clone()),
-        (_, Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(a.clone()),
+        (_, Class::CONSTNUM | Class::SINT | Class::UINT, Class::PTR | Class::ARR) => Ok(b.clone()),
 
         _ => Err(format!(
             "'{}' operation between {} and {}",
-- 
2.43.0


From e2d41a47e780ecebd2edb9a92403ffab4c2cd1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:09 +0000
Subject: [PATCH 019/218] fix: separate parameters of the same type in the
 exports listing

---
 src/main_exports.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main_exports.rs b/src/main_exports.rs
index 7e1545c..eac8d11 100644
--- a/src/main_exports.rs
+++ b/src/main_exports.rs
@@ -50,7 +50,10 @@ fn print_exports(exports: Exports) {
                 }
                 params += &format_che::fmt_typename(&parameter.typename);
                 params += " ";
-                for form in &parameter.forms {
+                for (j, form) in parameter.forms.iter().enumerate() {
+                    if j > 0 {
+                        params += ", ";
+                    }
                     params += &format_che::fmt_form(&form);
                 }
             }
-- 
2.43.0


From 7accc1e035cfbbc37a8444c03078915f6bceabdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:09 +0000
Subject: [PATCH 020/218] fix: fail on unknown commands and missing genc
 arguments

---
 src/main.rs      | 5 ++++-
 src/main_genc.rs | 4 ++++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index b3ce8e3..6f3c928 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -53,7 +53,10 @@ fn main() {
     let cmd = args[1].as_str();
     match SUBCOMMANDS.iter().find(|(name, _, _)| *name == cmd) {
         Some((_, _, func)) => exit(func(&args[2..])),
-        None => usage(),
+        None => {
+            usage();
+            exit(1);
+        }
     };
 }
 
diff --git a/src/main_genc.rs b/src/main_genc.rs
index 1ecab60..03f763e 100644
--- a/src/main_genc.rs
+++ b/src/main_genc.rs
@@ -2,6 +2,10 @@ use crate::build;
 use std::fs;
 
 pub fn run(args: &[String]) -> i32 {
+    if args.len() != 2 {
+        eprintln!("usage: genc <source-path> <output-dir>");
+        return 1;
+    }
     let modpath = &args[0];
     let dirpath = &args[1];
     if fs::metadata(&dirpath).is_err() {
-- 
2.43.0


From fd51985cb5a64afd0670ad3ecd52dc2d4f07b1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:58 +0000
Subject: [PATCH 021/218] fix: correct the signatures of abort, setvbuf,
 strtof, strtold and strncat

---
 src/cspec.rs | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/cspec.rs b/src/cspec.rs
index 084468d..a240375 100644
--- a/src/cspec.rs
+++ b/src/cspec.rs
@@ -77,7 +77,6 @@ fn f(name: &'static str, args: Vec<&Type>, rettype: &Type) -> CSymbol {
 fn buildmap() -> HashMap<&'static str, CSymbol> {
     let bool = &just("bool");
     let charp = &justp("char");
-    let chr = &just("char");
     let filep = &justp("FILE");
     let int = &just("int");
     let size = &just("size_t");
@@ -147,7 +146,7 @@ fn buildmap() -> HashMap<&'static str, CSymbol> {
         f("rename", vec![charp, charp], int), // depr
         f("rewind", vec![filep], void),
         f("scanf", vec![charp, &ellipsis()], int),
-        f("setvbuf", vec![__todo], __todo),
+        f("setvbuf", vec![filep, charp, int, size], int),
         f("snprintf", vec![voidp, size, charp, &ellipsis()], __todo),
         f("sprintf", vec![charp, charp, &ellipsis()], __todo),
         f("sscanf", vec![voidp, charp, &ellipsis()], int),
@@ -168,7 +167,7 @@ fn buildmap() -> HashMap<&'static str, CSymbol> {
         f("tolower", vec![int], int),
         f("toupper", vec![int], int),
         // stdlib
-        f("abort", vec![__todo], void), // depr
+        f("abort", vec![], void), // depr
         f("atof", vec![__todo], __todo),
         f("atoi", vec![__todo], __todo),
         f("atol_l", vec![__todo], __todo),
@@ -181,8 +180,8 @@ fn buildmap() -> HashMap<&'static str, CSymbol> {
         f("qsort", vec![voidp, size, size, __todo], void),
         f("realloc", vec![voidp, size], voidp),
         f("strtod", vec![__todo, __todo], __todo),
-        f("strtof", vec![__todo], __todo),
-        f("strtold", vec![__todo], __todo),
+        f("strtof", vec![__todo, __todo], __todo),
+        f("strtold", vec![__todo, __todo], __todo),
         f("strtoull", vec![__todo, __todo, __todo], __todo),
         // math
         c("M_PI", dbl),
@@ -219,9 +218,9 @@ fn buildmap() -> HashMap<&'static str, CSymbol> {
         f("strcpy", vec![charp, charp], charp),
         f("strerror", vec![int], charp),
         f("strlen", vec![charp], size),
-        f("strncat", vec![charp, charp, size], chr),
+        f("strncat", vec![charp, charp, size], charp),
         f("strncmp", vec![charp, charp, size], int),
-        // f("strncpy", vec![charp, charp, size], chr), // depr, weird
+        // f("strncpy", vec![charp, charp, size], charp), // depr, weird
         f("strrchr", vec![charp, int], charp),
         f("strstr", vec![charp, charp], charp),
         // time
-- 
2.43.0


From 6546e71099b5cfaa61884d6cfac52c2beee0b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:24 +0000
Subject: [PATCH 022/218] fix: allow resetting the value of an empty key in
 clip/map

---
 lib/clip/map.c | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/clip/map.c b/lib/clip/map.c
index b030da6..dadc099 100644
--- a/lib/clip/map.c
+++ b/lib/clip/map.c
@@ -46,13 +46,12 @@ pub void free(map_t *m) {
 pub void set(map_t *m, uint8_t *key, size_t keysize, void *val) {
 	// Find or create the entry.
 	entry_t *e = find(m, key, keysize);
-	if (!e) e = create(m);
-
-	// Set the key.
-	e->keysize = keysize;
-	e->key = realloc(e->key, e->keysize);
-	if (!e->key) panic("key realloc failed");
-	memcpy(e->key, key, e->keysize);
+	if (!e) {
+		e = create(m);
+		e->keysize = keysize;
+		e->key = calloc!(keysize + 1, 1);
+		memcpy(e->key, key, e->keysize);
+	}
 
 	// Set the value.
 	memcpy(e->value, val, m->valsize);
-- 
2.43.0


From 6f605f8a10e6242334decfa488aff03ba034a8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:24 +0000
Subject: [PATCH 023/218] fix: keep sizes of replaced values and empty keys in
 clip/map2

---
 lib/clip/map2.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/clip/map2.c b/lib/clip/map2.c
index 915b5d5..36b04a2 100644
--- a/lib/clip/map2.c
+++ b/lib/clip/map2.c
@@ -99,6 +99,7 @@ void inner_set(innermap_t *m, slice_t key, val) {
     if (s != NULL) {
         OS.free(s->val.bytes);
         s->val.bytes = clone(val.bytes, val.size);
+        s->val.size = val.size;
         return;
     }
     s = alloc_slot(m, key);
@@ -157,7 +158,7 @@ slot_t *find_slot(innermap_t *m, slice_t key) {
 
     for (size_t i = 0; i < n; i++) {
         slot_t *s = &m->slots[pos];
-        if (s->hash == h && slice_eq(s->key, key)) {
+        if (s->key.bytes != NULL && s->hash == h && slice_eq(s->key, key)) {
             return s;
         }
         pos = (pos + 1) % n;
-- 
2.43.0


From 1128ee46102526fe166dda065d8d282c9428c7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:24 +0000
Subject: [PATCH 024/218] fix: free the handle of a clip/buffer

---
 lib/clip/buffer.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/clip/buffer.c b/lib/clip/buffer.c
index bbd0b8b..a5a87cb 100644
--- a/lib/clip/buffer.c
+++ b/lib/clip/buffer.c
@@ -39,6 +39,7 @@ pub void free(t *b) {
         OS.free(c->data);
         OS.free(c);
     }
+    OS.free(b);
 }
 
 pub size_t size(t *b) {
-- 
2.43.0


From 9c110f0dc1b98b7bccd6bb8b3590e36ed80e3f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:24 +0000
Subject: [PATCH 025/218] fix: don't cut long strings in strbuilder.addf

---
 lib/strbuilder.c | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/strbuilder.c b/lib/strbuilder.c
index 4bd9705..fd60aa4 100644
--- a/lib/strbuilder.c
+++ b/lib/strbuilder.c
@@ -57,12 +57,19 @@ pub bool adds(str *b, const char *s) {
 
 pub bool addf(str *b, const char *format, ...) {
 	if (b->err) return false;
-	char buf[1000] = {};
 	va_list l = {0};
 	va_start(l, format);
-	vsnprintf(buf, sizeof(buf), format, l);
+	int n = vsnprintf(NULL, 0, format, l);
 	va_end(l);
-	return adds(b, buf);
+	if (n < 0) return false;
+
+	char *buf = calloc!(n + 1, 1);
+	va_start(l, format);
+	vsnprintf(buf, n + 1, format, l);
+	va_end(l);
+	bool ok = adds(b, buf);
+	OS.free(buf);
+	return ok;
 }
 
 pub char *str_raw(str *s)
-- 
2.43.0


From 992383480472c6b7ab025d47f92917407bc21d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:24 +0000
Subject: [PATCH 026/218] fix: don't take byte 255 for the end of data in
 mem.memgetc

---
 lib/mem.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/mem.c b/lib/mem.c
index ef00eef..1aafebc 100644
--- a/lib/mem.c
+++ b/lib/mem.c
@@ -73,7 +73,7 @@ pub int memgetc(mem_t *m)
 	if(m->pos >= m->datalen) {
 		return EOF;
 	}
-	int c = m->data[m->pos];
+	uint8_t c = m->data[m->pos];
 	m->pos++;
 	return c;
 }
-- 
2.43.0


From 0b3eac652e2f7a7423a8a3ef645d9969e0acef00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:24 +0000
Subject: [PATCH 027/218] fix: make mem.memprintf write the whole string and
 move the position

---
 lib/mem.c | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/lib/mem.c b/lib/mem.c
index 1aafebc..12429bf 100644
--- a/lib/mem.c
+++ b/lib/mem.c
@@ -103,24 +103,20 @@ pub size_t memwrite(mem_t *m, const char *buf, size_t size)
 }
 
 pub int memprintf(mem_t *m, const char *format, ...) {
-	int available = (int) (m->size - m->datalen);
-
 	va_list l = {0};
 	va_start(l, format);
-	int total = vsnprintf(m->data + m->pos, available, format, l);
+	int total = vsnprintf(NULL, 0, format, l);
 	va_end(l);
-
-	/*
-	 * If there was not enough buffer, allocate more and try again.
-	 */
-	if (total >= available) {
-		if (!makespace(m, total + 1)) {
-			return total;
-		}
-		va_start(l, format);
-		total = vsnprintf(m->data + m->pos, available, format, l);
-		va_end(l);
+	if (total < 0) {
+		return total;
 	}
+
+	char *tmp = calloc!(total + 1, 1);
+	va_start(l, format);
+	vsnprintf(tmp, total + 1, format, l);
+	va_end(l);
+	total = (int) memwrite(m, tmp, total);
+	free(tmp);
 	return total;
 }
 
-- 
2.43.0


From 308a6192725f5399674e3cd9e36b715e7ac31362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:28 +0000
Subject: [PATCH 028/218] fix: report the end of a memory buffer in bits.read1

---
 lib/bits.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/bits.c b/lib/bits.c
index 78f7458..7c77a2f 100644
--- a/lib/bits.c
+++ b/lib/bits.c
@@ -63,7 +63,7 @@ pub void closereader(reader_t *r) {
 // Returns -1 if there is no next bit.
 pub int read1(reader_t *s) {
 	if (s->rem == 0) {
-		if (reader.read(s->in, &s->byte, 1) < 0) {
+		if (reader.read(s->in, &s->byte, 1) != 1) {
 			return -1;
 		}
 		s->rem = 8;
-- 
2.43.0


From 232782027a732337a6bf477be216cc1eaa2b7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:28 +0000
Subject: [PATCH 029/218] fix: allow words longer than 255 bytes in lzw

---
 lib/compress/lzw.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/compress/lzw.c b/lib/compress/lzw.c
index 5960d3c..e9bd7db 100644
--- a/lib/compress/lzw.c
+++ b/lib/compress/lzw.c
@@ -11,7 +11,7 @@
 const size_t MAX_DICT_LENGTH = 4096;
 
 pub typedef {
-	uint8_t len;
+	size_t len;
 	uint8_t *word;
 } word_t;
 
-- 
2.43.0


From 70839c12f92c6ee9108f9a4672f07c0c4e554ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:28 +0000
Subject: [PATCH 030/218] fix: free the input buffer of the lzw compressor

---
 lib/compress/lzw.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/compress/lzw.c b/lib/compress/lzw.c
index e9bd7db..8da63ba 100644
--- a/lib/compress/lzw.c
+++ b/lib/compress/lzw.c
@@ -135,6 +135,7 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 	}
 
 	// Finalizes the compressed stream and frees the compressor.
+	free(p->buf);
 	free(p);
 	comp_emit(enc, enc->dict.endcode);
 	bits.closewriter(enc->bw);
-- 
2.43.0


From 2be4ef0bad7527a594a6d7cf8c112d2e64e86da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 031/218] fix: make lzw encoder and decoder agree on widths of
 the first and the last code

---
 lib/compress/lzw.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/compress/lzw.c b/lib/compress/lzw.c
index 8da63ba..a09791d 100644
--- a/lib/compress/lzw.c
+++ b/lib/compress/lzw.c
@@ -105,6 +105,7 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 	peeker_t *p = calloc!(1, sizeof(peeker_t));
 	p->reader = r;
 
+	bool empty = true;
 	while (true) {
 		// Max. possible word length is 4096 - alphabet_size,
 		// so prefetching 4096 guarantees we have more than any word.
@@ -114,6 +115,7 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 			break;
 		}
 
+		empty = false;
 		size_t mi = match(enc, p->buf, q);
 		size_t mlen = enc->dict.entries[mi].len;
 		comp_emit(enc, mi);
@@ -137,7 +139,13 @@ pub void compress(reader.t *r, size_t alphabet_size, writer.t *out) {
 	// Finalizes the compressed stream and frees the compressor.
 	free(p->buf);
 	free(p);
-	comp_emit(enc, enc->dict.endcode);
+	// By the time the decoder reads the end code it has an entry for the last
+	// word, which hasn't been added here.
+	size_t dictsize = enc->dict.size;
+	if (!empty) {
+		dictsize++;
+	}
+	writebits(enc->bw, enc->dict.endcode, codewidth(dictsize));
 	bits.closewriter(enc->bw);
 	freedict(enc->dict);
 	free(enc);
@@ -309,7 +317,12 @@ pub int decode(dec_t *dec, uint8_t *buf) {
 		// The decoder lags one step behind the encoder:
 		// encoder writes code n while having updated the dict n-1 times,
 		// decoder reads code n while having updated the dict n-2 times.
-		uint8_t w = codewidth(dec->dict.size + 1);
+		// The first code is read with the same dict it was written with.
+		size_t dictsize = dec->dict.size;
+		if (dec->prevlen > 0) {
+			dictsize++;
+		}
+		uint8_t w = codewidth(dictsize);
 		code = readbits(dec->br, w);
 		if (code == dec->dict.resetcode) {
 			resetdict(&dec->dict);
-- 
2.43.0


From ba08b4b84266eebee221cfa671063bd7aa35e256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 032/218] fix: don't take a short read for the end of input in
 lzw

---
 lib/compress/lzw.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/compress/lzw.c b/lib/compress/lzw.c
index a09791d..0a97978 100644
--- a/lib/compress/lzw.c
+++ b/lib/compress/lzw.c
@@ -205,11 +205,12 @@ size_t peek(peeker_t *p, size_t n) {
 	}
 
 	// Ensure the buffer has n, unless EOF.
-	if (p->datalen < n) {
+	while (p->datalen < n) {
 		int q = reader.read(p->reader, &p->buf[p->datalen], n - p->datalen);
-		if (q != EOF) {
-			p->datalen += (size_t) q;
+		if (q <= 0) {
+			break;
 		}
+		p->datalen += (size_t) q;
 	}
 
 	return p->datalen;
-- 
2.43.0


From 8a0959e0d154d5f9601d82c19735718fa1ff2c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 033/218] fix: allow huffman codes longer than 16 bits

---
 lib/compress/huffman.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/compress/huffman.c b/lib/compress/huffman.c
index 225734c..e107659 100644
--- a/lib/compress/huffman.c
+++ b/lib/compress/huffman.c
@@ -183,7 +183,7 @@ pub int read(reader_t *r) {
 }
 
 pub typedef {
-	uint8_t bits[16];
+	uint8_t bits[256];
 	uint8_t len;
 } bitslice_t;
 
@@ -204,7 +204,7 @@ pub writer_t *newwriter(tree_t *t, writer.t *out) {
 
 void inittable(bitslice_t *table, node_t *n, uint8_t *pref, uint8_t len) {
 	if (n->left) {
-		uint8_t code[16] = {};
+		uint8_t code[256] = {};
 		for (uint8_t i = 0; i < len; i++) {
 			code[i] = pref[i];
 		}
-- 
2.43.0


From 43c5a7f678c96720c5514d4ac152cb1a2e2c5228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 034/218] fix: support texts with one or no distinct characters
 in huffman

---
 lib/compress/huffman.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/compress/huffman.c b/lib/compress/huffman.c
index e107659..1479176 100644
--- a/lib/compress/huffman.c
+++ b/lib/compress/huffman.c
@@ -110,6 +110,14 @@ pub tree_t *buildtree(const char *s) {
 		list[listlen++] = n;
 	}
 
+	// A single character needs a code of one bit.
+	if (listlen == 1) {
+		node_t *root = newnode(t);
+		root->left = list[0];
+		root->right = list[0];
+		list[0] = root;
+	}
+
 	// Brute-force approach
 	while (listlen > 1) {
 		// Take two rarest a, b
@@ -197,7 +205,9 @@ pub typedef {
 pub writer_t *newwriter(tree_t *t, writer.t *out) {
 	writer_t *w = calloc!(1, sizeof(writer_t));
 	w->tree = t;
-	inittable(w->table, t->root, NULL, 0);
+	if (t->root) {
+		inittable(w->table, t->root, NULL, 0);
+	}
 	w->w = bits.newwriter(out, bits.STRAIGHT);
 	return w;
 }
-- 
2.43.0


From 356484822396d94609417048853d318f5fb4d566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 035/218] fix: sha1 of an empty message

---
 lib/crypt/sha1.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/lib/crypt/sha1.c b/lib/crypt/sha1.c
index 746dec0..9c971e1 100644
--- a/lib/crypt/sha1.c
+++ b/lib/crypt/sha1.c
@@ -56,20 +56,22 @@ pub void as_bytes(digest_t *hash, uint8_t *buf) {
 	}
 }
 
+// Sets the initial sum on the first call.
+void init(digest_t *hash) {
+	if (hash->init) return;
+	hash->init = true;
+	hash->sum[0] = 0x67452301;
+	hash->sum[1] = 0xefcdab89;
+	hash->sum[2] = 0x98badcfe;
+	hash->sum[3] = 0x10325476;
+	hash->sum[4] = 0xc3d2e1f0;
+}
+
 pub bool add(digest_t *hash, char byte) {
 	// Make sure add is not called after the end.
 	if (hash->finished) return false;
 
-	// On the first add set the initial sum.
-	if (!hash->init) {
-		hash->init = true;
-		hash->sum[0] = 0x67452301;
-		hash->sum[1] = 0xefcdab89;
-		hash->sum[2] = 0x98badcfe;
-		hash->sum[3] = 0x10325476;
-		hash->sum[4] = 0xc3d2e1f0;
-	}
-
+	init(hash);
 	hash->pos++;
 	hash->length += 8;
 	push_byte(hash, byte);
@@ -79,6 +81,7 @@ pub bool add(digest_t *hash, char byte) {
 pub bool end(digest_t *hash) {
 	if (hash->finished) return false;
 	hash->finished = true;
+	init(hash);
 
 	// The internal "machinery" processes a stream of 64-byte blocks.
 	// The message is followed by an EOF byte, followed by padding and length:
-- 
2.43.0


From 935fe3005099dce5c8774429594eebd86d29fedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:46:34 +0000
Subject: [PATCH 036/218] fix: terminate the string made by sha1.format

---
 lib/crypt/sha1.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/crypt/sha1.c b/lib/crypt/sha1.c
index 9c971e1..894e7ca 100644
--- a/lib/crypt/sha1.c
+++ b/lib/crypt/sha1.c
@@ -29,7 +29,7 @@ pub void reset(digest_t *hash) {
  * Returns false on failure.
  */
 pub bool format(digest_t *hash, char *buf, size_t bufsize) {
-	if (bufsize < 40) return false;
+	if (bufsize < 41) return false;
 
 	uint8_t bytes[20];
 	as_bytes(hash, bytes);
@@ -38,6 +38,7 @@ pub bool format(digest_t *hash, char *buf, size_t bufsize) {
 	for (int i = 0; i < 20; i++) {
 		p = hex.writebyte(bytes[i], p);
 	}
+	*p = '\0';
 	return true;
 }
 
-- 
2.43.0


From e17a7185cbfbd00ea92bab4ae58939ad6dc96cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:38 +0000
Subject: [PATCH 037/218] fix: keep the first error when the parser fails again
 after recovering from it

---
 src/errors.rs |  1 +
 src/parser.rs | 18 ++++++++++++------
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 8bd632f..fe8c074 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -6,6 +6,7 @@ pub struct BuildError {
     pub message: String,
 }
 
+#[derive(Clone)]
 pub struct Error {
     pub message: String,
     pub pos: Pos,
diff --git a/src/parser.rs b/src/parser.rs
index 84e6e6d..9f36cb9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -516,6 +516,12 @@ fn expect(l: &mut Lexer, kind: &str, comment: Option<&str>) -> Result<Token, Err
     return Ok(l.get().unwrap());
 }
 
+// When parsing fails after some errors have been collected already, returns the
+// first of those: the failure is most likely their consequence.
+fn or_first<T>(errors: &Vec<Error>, r: Result<T, Error>) -> Result<T, Error> {
+    r.map_err(|e| errors.first().cloned().unwrap_or(e))
+}
+
 // Returns the next token or an error if there is none.
 fn peek(l: &mut Lexer) -> Result<&Token, Error> {
     let pos = l.pos();
@@ -864,7 +870,7 @@ fn parse_if(lexer: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>,
     }
     if lexer.follows("else") {
         lexer.get();
-        let r = parse_statements_block(lexer, ctx)?;
+        let r = or_first(&errors, parse_statements_block(lexer, ctx))?;
         for e in r.errors {
             errors.push(e)
         }
@@ -950,7 +956,7 @@ fn read_switch(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>,
     expect(l, "{", None)?;
     let mut errors = Vec::new();
     while l.follows("case") {
-        let r = read_switch_case(l, ctx)?;
+        let r = or_first(&errors, read_switch_case(l, ctx))?;
         for e in r.errors {
             errors.push(e);
         }
@@ -959,14 +965,14 @@ fn read_switch(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Statement>,
     let mut default: Option<Body> = None;
     if l.follows("default") {
         expect(l, "default", None)?;
-        expect(l, ":", None)?;
-        let r = read_body(l, ctx)?;
+        or_first(&errors, expect(l, ":", None))?;
+        let r = or_first(&errors, read_body(l, ctx))?;
         for e in r.errors {
             errors.push(e);
         }
         default = Some(r.obj);
     }
-    expect(l, "}", None)?;
+    or_first(&errors, expect(l, "}", None))?;
     return Ok(TWithErrors {
         obj: Statement::Switch(nodes::Switch {
             is_str,
@@ -1107,7 +1113,7 @@ fn read_body(l: &mut Lexer, ctx: &ParseCtx) -> Result<TWithErrors<Body>, Error>
             }
         }
     }
-    expect(l, "}", None)?;
+    or_first(&errors, expect(l, "}", None))?;
     return Ok(TWithErrors {
         obj: Body { statements },
         errors,
-- 
2.43.0


From c2b01e6320155595b126bf7e1e7ce6e7e1c5082a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:11 +0000
Subject: [PATCH 038/218] fix: free keys and strings in json, clone null values

---
 lib/formats/json.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 6f66b11..3863653 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -74,6 +74,7 @@ pub val_t *clone(val_t *obj) {
 				char *k = strings.newstr("%s", obj->keys[i]);
 				val_t *v = clone(obj->vals[i]);
 				json_put(copy, k, v);
+				free(k);
 			}
 		}
 		case TARR: {
@@ -92,6 +93,7 @@ pub val_t *clone(val_t *obj) {
 		case TBOOL: {
 			copy->val.boolval = obj->val.boolval;
 		}
+		case TNULL: {}
 		default: {
 			panic("json.clone: forgot case %d", obj->type);
 		}
@@ -299,15 +301,18 @@ val_t *read_dict(tokenizer.t *p, error.t *err) {
 			return NULL;
 		}
 		if (!expect(p, ':', err)) {
+			free(key);
 			json_free(o);
 			return NULL;
 		}
 		val_t *val = read_node(p, err);
 		if (!val) {
+			free(key);
 			json_free(o);
 			return NULL;
 		}
 		json_put(o, key, val);
+		free(key);
 		if (!eat(p, ',')) {
 			break;
 		}
@@ -446,8 +451,10 @@ pub void formatwr(writer.t *w, val_t *v) {
 		if (r <= 0) {
 			panic("write failed");
 		}
+		buf += r;
 		n -= (size_t) r;
 	}
+	free(s);
 }
 
 // Returns a string with the value n formatted as json.
-- 
2.43.0


From a9b32d08416162d2f0c47e616a46abc7a9d8ddaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:11 +0000
Subject: [PATCH 039/218] fix: reject json documents with something after the
 value

---
 lib/formats/json.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 3863653..21494b2 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -234,6 +234,11 @@ pub double numval(val_t *v) {
 pub val_t *parse(const char *s, error.t *err) {
 	tokenizer.t *p = tokenizer.from_str(s);
 	val_t *result = read_node(p, err);
+	if (result && tok_more(p)) {
+		error.set(err, "unexpected character: %c", tok_peek(p));
+		json_free(result);
+		result = NULL;
+	}
 	tokenizer.free(p);
 	return result;
 }
-- 
2.43.0


From 0372fd3ee1b8c54c0b8648fa9db57d2614e72b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:11 +0000
Subject: [PATCH 040/218] fix: don't overrun the buffer when reading a long
 number in tokenizer

---
 lib/tokenizer.c | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 7770316..d318e50 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -186,11 +186,10 @@ pub bool id(t *b, char *buf, size_t n) {
 // Reads a C-style floating-point number into buf.
 // Returns false on parse error.
 pub bool num(t *b, char *buf, size_t n) {
-	(void) n;
-	char *p = buf;
+	size_t len = 0;
 
 	if (peek(b) == '-') {
-		*p++ = get(b);
+		len = _num_add(buf, n, len, get(b));
 	}
 
 	// [digits]
@@ -198,29 +197,29 @@ pub bool num(t *b, char *buf, size_t n) {
 		return false;
 	}
 	while (isdigit(peek(b))) {
-		*p++ = get(b);
+		len = _num_add(buf, n, len, get(b));
 	}
 
 	// Optional fractional part
 	if (peek(b) == '.') {
-		*p++ = get(b);
+		len = _num_add(buf, n, len, get(b));
 		if (!isdigit(peek(b))) {
 			return false;
 		}
 		while (isdigit(peek(b))) {
-			*p++ = get(b);
+			len = _num_add(buf, n, len, get(b));
 		}
 	}
 
 	// Optional exponent
 	int c = peek(b);
 	if (c == 'e' || c == 'E') {
-		*p++ = get(b);
+		len = _num_add(buf, n, len, get(b));
 		
 		// Optional - or +
 		c = peek(b);
 		if (c == '-' || c == '+') {
-			*p++ = get(b);
+			len = _num_add(buf, n, len, get(b));
 		}
 
 		// Sequence of exponent digits
@@ -228,13 +227,26 @@ pub bool num(t *b, char *buf, size_t n) {
 			return false;
 		}
 		while (isdigit(peek(b))) {
-			*p++ = get(b);
+			len = _num_add(buf, n, len, get(b));
 		}
 	}
-	*p++ = '\0';
+
+	// The buffer has to fit the number with the terminating zero.
+	if (len >= n) {
+		return false;
+	}
+	buf[len] = '\0';
 	return true;
 }
 
+// Puts c at buf[len] if it fits and returns the next length.
+size_t _num_add(char *buf, size_t n, len, int c) {
+	if (len < n) {
+		buf[len] = c;
+	}
+	return len + 1;
+}
+
 // Skips a literal string and returns true.
 // Returns false if the literal does not follow.
 pub bool skip_literal(t *b, const char *literal) {
-- 
2.43.0


From 86da5af550db1ddf020bb9505096cd7ae375f9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:11 +0000
Subject: [PATCH 041/218] fix: decode escape sequences in json strings

---
 lib/formats/json.c | 109 +++++++++++++++++++++++++++++++++++++++------
 1 file changed, 95 insertions(+), 14 deletions(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 21494b2..0a9038b 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -382,23 +382,23 @@ char *readstr(tokenizer.t *p, error.t *err) {
 	char *s = calloc!(cap, 1);
 	while (tokenizer.more(p) && tokenizer.peek(p) != '"') {
 		int c = tokenizer.get(p);
-		if (c == '\\') {
-			c = tokenizer.get(p);
-			if (c == EOF) {
-				error.set(err, "Unexpected end of input");
-				free(s);
-				return NULL;
-			}
+		char bytes[5] = {};
+		bytes[0] = c;
+		if (c == '\\' && !read_escape(p, bytes, err)) {
+			free(s);
+			return NULL;
 		}
-		if (len + 1 == cap) {
-			cap *= 2;
-			s = realloc(s, cap);
-			if (!s) {
-				panic("realloc failed");
+		for (char *b = bytes; *b != '\0'; b++) {
+			if (len + 1 == cap) {
+				cap *= 2;
+				s = realloc(s, cap);
+				if (!s) {
+					panic("realloc failed");
+				}
 			}
+			s[len++] = *b;
+			s[len] = '\0';
 		}
-		s[len++] = c;
-		s[len] = '\0';
 	}
 	if (!expect(p, '"', err)) {
 		free(s);
@@ -407,6 +407,87 @@ char *readstr(tokenizer.t *p, error.t *err) {
 	return s;
 }
 
+// Reads the rest of an escape sequence and puts the bytes it stands for
+// into buf, as a string.
+bool read_escape(tokenizer.t *p, char *buf, error.t *err) {
+	int c = tokenizer.get(p);
+	switch (c) {
+		case EOF: {
+			error.set(err, "Unexpected end of input");
+			return false;
+		}
+		case 'b': { buf[0] = '\b'; }
+		case 'f': { buf[0] = '\f'; }
+		case 'n': { buf[0] = '\n'; }
+		case 'r': { buf[0] = '\r'; }
+		case 't': { buf[0] = '\t'; }
+		case 'u': {
+			uint32_t u = 0;
+			if (!read_hex4(p, &u, err)) {
+				return false;
+			}
+			// Characters outside the 16-bit range are written as two escapes.
+			if (u >= 0xD800 && u < 0xDC00 && tokenizer.skip_literal(p, "\\u")) {
+				uint32_t low = 0;
+				if (!read_hex4(p, &low, err)) {
+					return false;
+				}
+				if (low < 0xDC00 || low > 0xDFFF) {
+					error.set(err, "invalid surrogate pair");
+					return false;
+				}
+				u = 0x10000 + (u - 0xD800) * 0x400 + (low - 0xDC00);
+			}
+			if (u == 0) {
+				error.set(err, "zero characters are not supported");
+				return false;
+			}
+			write_utf8(u, buf);
+		}
+		default: { buf[0] = c; }
+	}
+	return true;
+}
+
+// Reads four hexadecimal digits.
+bool read_hex4(tokenizer.t *p, uint32_t *u, error.t *err) {
+	*u = 0;
+	for (int i = 0; i < 4; i++) {
+		int c = tokenizer.peek(p);
+		const char *digits = "0123456789abcdef";
+		const char *pos = NULL;
+		if (c != EOF) {
+			pos = strchr(digits, tolower(c));
+		}
+		if (!pos) {
+			error.set(err, "invalid unicode escape");
+			return false;
+		}
+		tokenizer.get(p);
+		*u = *u * 16 + (uint32_t) (pos - digits);
+	}
+	return true;
+}
+
+// Writes character u to buf in UTF-8.
+void write_utf8(uint32_t u, char *buf) {
+	if (u < 0x80) {
+		buf[0] = u;
+	} else if (u < 0x800) {
+		buf[0] = 0xC0 | (u >> 6);
+		buf[1] = 0x80 | (u & 0x3F);
+	} else if (u < 0x10000) {
+		buf[0] = 0xE0 | (u >> 12);
+		buf[1] = 0x80 | ((u >> 6) & 0x3F);
+		buf[2] = 0x80 | (u & 0x3F);
+	} else {
+		buf[0] = 0xF0 | (u >> 18);
+		buf[1] = 0x80 | ((u >> 12) & 0x3F);
+		buf[2] = 0x80 | ((u >> 6) & 0x3F);
+		buf[3] = 0x80 | (u & 0x3F);
+	}
+}
+
 // Returns true if there are more characters to read.
 bool tok_more(tokenizer.t *p) {
 	tokenizer.spaces(p);
-- 
2.43.0


From ca5ccef9c6d4bc476f72985662c87bd081058ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:11 +0000
Subject: [PATCH 042/218] fix: escape keys, line feeds, tabs and control
 characters in json

---
 lib/formats/json.c | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 0a9038b..42234da 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -558,7 +558,7 @@ bool writenode(val_t *n, strbuilder.str *s) {
 	switch(type(n)) {
 		case TOBJ: { return writeobj(n, s); }
 		case TARR: { return writearr(n, s); }
-		case TSTR: { writestr(n, s); return true; }
+		case TSTR: { return writestr(n->val.str, s); }
 		case TNUM: { return writenum(n, s); }
 		case TBOOL: { return writebool(n, s); }
 		case TNULL: { return strbuilder.adds(s, "null"); }
@@ -571,9 +571,8 @@ bool writeobj(val_t *n, strbuilder.str *s) {
 	bool ok = strbuilder.adds(s, "{");
 	for (size_t i = 0; i < len; i++) {
 		ok = ok
-			&& strbuilder.adds(s, "\"")
-			&& strbuilder.adds(s, key(n, i))
-			&& strbuilder.adds(s, "\":")
+			&& writestr(key(n, i), s)
+			&& strbuilder.adds(s, ":")
 			&& writenode(val(n, i), s);
 		if (i + 1 < len) {
 			ok = ok && strbuilder.adds(s, ",");
@@ -596,18 +595,21 @@ bool writearr(val_t *n, strbuilder.str *s) {
 	return ok;
 }
 
-void writestr(val_t *n, strbuilder.str *s) {
-	const char *content = n->val.str;
+bool writestr(const char *content, strbuilder.str *s) {
 	size_t len = strlen(content);
 	bool ok = strbuilder.adds(s, "\"");
 	for (size_t i = 0; i < len; i++) {
 		const char c = content[i];
 		if (c == '\n') {
-			ok = ok && strbuilder.adds(s, "\\\\n");
+			ok = ok && strbuilder.adds(s, "\\n");
 			continue;
 		}
 		if (c == '\t') {
-			ok = ok && strbuilder.adds(s, "\\\\t");
+			ok = ok && strbuilder.adds(s, "\\t");
+			continue;
+		}
+		if ((uint8_t) c < 32) {
+			ok = ok && strbuilder.addf(s, "\\u%04x", c);
 			continue;
 		}
 		if (c == '\\' || c == '\"' || c == '/') {
@@ -616,9 +618,7 @@ void writestr(val_t *n, strbuilder.str *s) {
 		ok = ok && strbuilder.addc(s, c);
 	}
 	ok = ok && strbuilder.addc(s, '"');
-	if (!ok) {
-		panic("writestr failed");
-	}
+	return ok;
 }
 
 bool writenum(val_t *n, strbuilder.str *s) {
@@ -655,7 +655,13 @@ pub void write_string(FILE *f, const char *s) {
 			case '\t': { fputc('\\', f); fputc('t', f); }
 			case '\\': { fputc('\\', f); fputc('\\', f); }
 			case '\"': { fputc('\\', f); fputc('"', f); }
-			default: { fputc(*s, f); }
+			default: {
+				if ((uint8_t) *s < 32) {
+					fprintf(f, "\\u%04x", *s);
+				} else {
+					fputc(*s, f);
+				}
+			}
 		}
 		s++;
 	}
-- 
2.43.0


From a6036464599682ffa8d2a2aff32a5e4d7e30b013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:11 +0000
Subject: [PATCH 043/218] fix: write json numbers without losing digits or
 overrunning the buffer

---
 lib/formats/json.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/formats/json.c b/lib/formats/json.c
index 42234da..2c8a360 100644
--- a/lib/formats/json.c
+++ b/lib/formats/json.c
@@ -624,10 +624,16 @@ bool writestr(const char *content, strbuilder.str *s) {
 bool writenum(val_t *n, strbuilder.str *s) {
 	char buf[100] = {0};
 	double v = n->val.num;
-	if (v == round(v)) {
-		sprintf(buf, "%.0f", n->val.num);
-	} else {
-		sprintf(buf, "%f", n->val.num);
+	if (v == round(v) && fabs(v) < 1e15) {
+		snprintf(buf, sizeof(buf), "%.0f", v);
+		return strbuilder.adds(s, buf);
+	}
+	// Use as many digits as needed to get the same number back.
+	for (int digits = 15; digits <= 17; digits++) {
+		snprintf(buf, sizeof(buf), "%.*g", digits, v);
+		if (strtod(buf, NULL) == v) {
+			break;
+		}
 	}
 	return strbuilder.adds(s, buf);
 }
-- 
2.43.0


From 0cfee4bed957a595f0468fd9e803753c868d30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 044/218] fix: double quotes inside csv values when writing

---
 lib/formats/csv.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/formats/csv.c b/lib/formats/csv.c
index 6a12d6f..df9b368 100644
--- a/lib/formats/csv.c
+++ b/lib/formats/csv.c
@@ -129,7 +129,7 @@ pub void writeval(writer_t *w, const char *x) {
 	w->col++;
 	fputc('"', w->f);
 	while (*x != '\0') {
-		if (*x == '"') fputc('\\', w->f);
+		if (*x == '"') fputc('"', w->f);
 		fputc(*x, w->f);
 		x++;
 	}
-- 
2.43.0


From d142366582a7c50e8cb860ae7953d061cde1690b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 045/218] fix: don't lose empty csv values at the end of a line

---
 lib/formats/csv.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/formats/csv.c b/lib/formats/csv.c
index df9b368..e265310 100644
--- a/lib/formats/csv.c
+++ b/lib/formats/csv.c
@@ -31,14 +31,15 @@ pub bool readval(reader_t *r) {
 			return false;
 		}
 		tokenizer.get(r->b);
+	} else {
+		// An empty line has no columns.
+		r->firstval = false;
+		int first = tokenizer.peek(r->b);
+		if (first == '\n' || first == '\r') return false;
+		if (!tokenizer.more(r->b)) return false;
 	}
-	r->firstval = false;
 
-	int next = tokenizer.peek(r->b);
-	if (next == '\n' || next == '\r') return false;
-	if (!tokenizer.more(r->b)) return false;
-
-	if (next == '"') {
+	if (tokenizer.peek(r->b) == '"') {
 		read_quoted_value(r);
 		return true;
 	}
-- 
2.43.0


From 7c82c4c18795fc630589a43cd56593595563119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 046/218] fix: allow csv values longer than 4095 bytes

---
 lib/formats/csv.c | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/lib/formats/csv.c b/lib/formats/csv.c
index e265310..f49cb87 100644
--- a/lib/formats/csv.c
+++ b/lib/formats/csv.c
@@ -3,7 +3,8 @@
 pub typedef {
 	tokenizer.t *b;
 	int vals;
-	char valbuf[4096];
+	char *valbuf;
+	size_t valcap;
 	bool firstval;
 
 } reader_t;
@@ -13,12 +14,14 @@ pub reader_t *newreader() {
 	reader_t *r = calloc!(1, sizeof(reader_t));
 	r->b = tokenizer.file(stdin);
 	r->firstval = true;
+	addchar(r, 0, '\0');
 	return r;
 }
 
 // Releases the reader.
 pub void freereader(reader_t *r) {
 	if (r->b) tokenizer.free(r->b);
+	free(r->valbuf);
 	free(r);
 }
 
@@ -44,14 +47,26 @@ pub bool readval(reader_t *r) {
 		return true;
 	}
 
-	char *p = r->valbuf;
+	size_t len = 0;
 	while (tokenizer.more(r->b) && !peekany(r->b, ",\r\n")) {
-		*p++ = tokenizer.get(r->b);
+		addchar(r, len++, tokenizer.get(r->b));
 	}
-	*p = '\0';
+	addchar(r, len, '\0');
 	return true;
 }
 
+// Puts c at the given position in the value buffer.
+void addchar(reader_t *r, size_t pos, int c) {
+	if (pos >= r->valcap) {
+		r->valcap = r->valcap * 2 + 4096;
+		r->valbuf = realloc(r->valbuf, r->valcap);
+		if (!r->valbuf) {
+			panic("realloc failed");
+		}
+	}
+	r->valbuf[pos] = c;
+}
+
 bool peekany(tokenizer.t *b, const char *chars) {
 	const char *p = chars;
 	while (*p != '\0') {
@@ -91,7 +106,7 @@ void read_quoted_value(reader_t *r) {
 	}
 
 	// Content + closing quote
-	char *p = r->valbuf;
+	size_t len = 0;
 	while (true) {
 		int c = tokenizer.get(b);
 		if (c == EOF) {
@@ -103,11 +118,11 @@ void read_quoted_value(reader_t *r) {
 			if (tokenizer.peek(b) == '\"') {
 				tokenizer.get(b);
 			} else {
-				*p = '\0';
+				addchar(r, len, '\0');
 				break;
 			}
 		}
-		*p++ = c;
+		addchar(r, len++, c);
 	}
 }
 
-- 
2.43.0


From c5fb7bc9c88695b94dfb0322283f4b93188f21f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 047/218] fix: allow long and numerous column names in csv2json

---
 prog/csv2json/csv2json.c | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/prog/csv2json/csv2json.c b/prog/csv2json/csv2json.c
index 4485949..fd66234 100644
--- a/prog/csv2json/csv2json.c
+++ b/prog/csv2json/csv2json.c
@@ -8,17 +8,13 @@ int main(int argc, char *argv[]) {
 	opt.flag("n", "the first line is not header", &noheader);
 	opt.parse(argc, argv);
 
-	char *colnames[100] = {};
-	for (size_t i = 0; i < 100; i++) {
-		colnames[i] = strings.newstr("col%d", i);
-	}
 
 	csv.reader_t *r = csv.newreader();
 
 	if (!noheader) {
 		size_t i = 0;
 		while (csv.readval(r)) {
-			strcpy(colnames[i], csv.val(r));
+			setcolname(i, csv.val(r));
 			i++;
 		}
 		csv.nextline(r);
@@ -27,7 +23,7 @@ int main(int argc, char *argv[]) {
 	while (true) {
 		size_t i = 0;
 		while (csv.readval(r)) {
-			val(colnames[i], csv.val(r));
+			val(colname(i), csv.val(r));
 			i++;
 		}
 		end();
@@ -40,6 +36,26 @@ int main(int argc, char *argv[]) {
 	return 0;
 }
 
+char **colnames = NULL;
+size_t ncolnames = 0;
+
+// Returns the name of the i-th column.
+const char *colname(size_t i) {
+	while (ncolnames <= i) {
+		colnames = realloc(colnames, (ncolnames + 1) * sizeof(char *));
+		if (!colnames) panic("realloc failed");
+		colnames[ncolnames] = strings.newstr("col%zu", ncolnames);
+		ncolnames++;
+	}
+	return colnames[i];
+}
+
+void setcolname(size_t i, const char *name) {
+	colname(i);
+	free(colnames[i]);
+	colnames[i] = strings.newstr("%s", name);
+}
+
 bool line_started = false;
 
 void val(const char *field, *val) {
-- 
2.43.0


From 5fc2e0981f45506625d2ccb6d1a6681cb49a542b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 048/218] fix: check for the end of data in bencode reader

---
 lib/formats/bencode.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/formats/bencode.c b/lib/formats/bencode.c
index f09f238..2c1528f 100644
--- a/lib/formats/bencode.c
+++ b/lib/formats/bencode.c
@@ -31,8 +31,8 @@ pub void freereader(reader_t *r) {
  * Returns true if the current node has more entries.
  */
 pub bool more(reader_t *r) {
-    if (r->stacksize > 0) {
-        return peek(r) != 'e';
+    if (r->stacksize > 0 && peek(r) == 'e') {
+        return false;
     }
     return peek(r) != EOF;
 }
@@ -177,6 +177,9 @@ pub bool skip(reader_t *r) {
 // }
 
 void consume(reader_t *r, char c) {
+    if (peek(r) == EOF) {
+        panic("wanted %c, got end of data", c);
+    }
     if (r->data[r->pos] != c) {
         panic("wanted %c, got %c", c, r->data[r->pos]);
     }
@@ -184,11 +187,11 @@ void consume(reader_t *r, char c) {
 }
 
 
-char peek(reader_t *r) {
+int peek(reader_t *r) {
     if (r->pos >= r->size) {
         return EOF;
     }
-    return r->data[r->pos];
+    return (uint8_t) r->data[r->pos];
 }
 
 int num(reader_t *r) {
@@ -212,5 +215,8 @@ int num(reader_t *r) {
 }
 
 char pop(reader_t *r) {
+    if (r->pos >= r->size) {
+        panic("unexpected end of data");
+    }
     return r->data[r->pos++];
 }
-- 
2.43.0


From 87623ec0ee62405db3f96bd0c4d477c29178432d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 049/218] fix: read the lowest number and reject negative
 lengths in bencode

---
 lib/formats/bencode.c | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/formats/bencode.c b/lib/formats/bencode.c
index 2c1528f..7c6b398 100644
--- a/lib/formats/bencode.c
+++ b/lib/formats/bencode.c
@@ -163,6 +163,7 @@ pub bool skip(reader_t *r) {
         default: {
 			// string
 			int n = num(r);
+			if (n < 0) panic("got negative data length");
 			consume(r, ':');
 			for (int i = 0; i < n; i++) {
 				pop(r);
@@ -195,7 +196,7 @@ int peek(reader_t *r) {
 }
 
 int num(reader_t *r) {
-    int n = 0;
+    uint32_t n = 0;
     bool neg = false;
     if (peek(r) == '-') {
         neg = true;
@@ -206,12 +207,12 @@ int num(reader_t *r) {
     }
     while (isdigit(peek(r))) {
         n *= 10;
-		n += strings.num_from_ascii(pop(r));
+		n += (uint32_t) strings.num_from_ascii(pop(r));
     }
     if (neg) {
-		n *= -1;
+		n = 0 - n;
 	}
-    return n;
+    return (int) n;
 }
 
 char pop(reader_t *r) {
-- 
2.43.0


From 7f9d0c45433d815162a2c13cbf03d3e55653343a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 050/218] fix: write the lowest number and long buffers in
 bencode

---
 lib/formats/bencode_writer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/formats/bencode_writer.c b/lib/formats/bencode_writer.c
index 6f50384..5009a4e 100644
--- a/lib/formats/bencode_writer.c
+++ b/lib/formats/bencode_writer.c
@@ -90,7 +90,7 @@ pub bool buf(t *w, const uint8_t *buff, size_t len) {
 	return true;
 }
 
-bool _writenum(t *w, int n) {
+bool _writenum(t *w, int64_t n) {
 	// Write "-" if the number is negative.
 	if (n < 0) {
 		if (!byte(w, '-')) return false;
-- 
2.43.0


From 302e71f8987385b2f44b26394013990e1cbd182a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 051/218] fix: don't overrun key and value buffers in conf

---
 lib/formats/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/formats/conf.c b/lib/formats/conf.c
index 1a0ec3b..8b49b84 100644
--- a/lib/formats/conf.c
+++ b/lib/formats/conf.c
@@ -5,8 +5,8 @@
 pub typedef {
 	int line;
 	FILE *f;
-    char key[100];
-    char val[200];
+    char key[256];
+    char val[256];
 } reader_t;
 
 int peek(FILE *f) {
-- 
2.43.0


From b94cca9ec858f495c313611f064a87f392d174e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 052/218] fix: don't take byte 255 for the end of file in conf

---
 lib/formats/conf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/formats/conf.c b/lib/formats/conf.c
index 8b49b84..2673d0c 100644
--- a/lib/formats/conf.c
+++ b/lib/formats/conf.c
@@ -10,7 +10,7 @@ pub typedef {
 } reader_t;
 
 int peek(FILE *f) {
-    char c = getc(f);
+    int c = getc(f);
     if (c != EOF) ungetc(c, f);
     return c;
 }
@@ -73,7 +73,7 @@ void next_line(reader_t *p, char *buf, size_t bufsize) {
     while (isspace(peek(p->f))) getc(p->f);
 
 	while (!feof (p->f)) {
-		char c = getc (p->f);
+		int c = getc (p->f);
 		if (c == EOF) {
 			*ptr = 0;
 			return;
-- 
2.43.0


From 4ad63d909c8cb97606de821077a5e3038ba56e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 053/218] fix: don't take byte 255 for the end of file in
 linereader

---
 lib/linereader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/linereader.c b/lib/linereader.c
index 204df28..737534b 100644
--- a/lib/linereader.c
+++ b/lib/linereader.c
@@ -22,7 +22,7 @@ pub bool read(t *b) {
 	}
 	size_t len = 0;
 	while (true) {
-		char c = fgetc(b->f);
+		int c = fgetc(b->f);
 		if (c == EOF) {
 			b->ended = true;
 			break;
-- 
2.43.0


From 65a07fcfecc9a6b481c9614c4245399919fc017a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:20 +0000
Subject: [PATCH 054/218] fix: reading big 32-bit numbers in bytereader

---
 lib/bytereader.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/bytereader.c b/lib/bytereader.c
index 6911062..c6d2bb2 100644
--- a/lib/bytereader.c
+++ b/lib/bytereader.c
@@ -46,10 +46,10 @@ pub uint16_t read16(reader_t *r) {
 
 // Big-endian
 pub uint32_t read32(reader_t *r) {
-	int val = readc(r);
-	val = val * 256 + readc(r);
-	val = val * 256 + readc(r);
-	val = val * 256 + readc(r);
+	uint32_t val = readc(r);
+	val = val * 256 + (uint32_t) readc(r);
+	val = val * 256 + (uint32_t) readc(r);
+	val = val * 256 + (uint32_t) readc(r);
 	return val;
 	// int a = readc(r);
 	// int b = readc(r);
-- 
2.43.0


From d3b5d5f51d75da1fa36446844c7b7dc8a51491ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:17 +0000
Subject: [PATCH 055/218] fix: off-by-one checks of path lengths in torrent
 files

---
 lib/formats/torrent.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/formats/torrent.c b/lib/formats/torrent.c
index 7c146da..435930c 100644
--- a/lib/formats/torrent.c
+++ b/lib/formats/torrent.c
@@ -202,12 +202,12 @@ void readpath(bencode.reader_t *r, char *buf, size_t bufsize) {
 	while (bencode.more(r)) {
 		bencode.readbuf(r, (uint8_t *)tmp, sizeof(tmp));
 		if (first) {
-			if (strlen(buf) + strlen(tmp) > bufsize) {
+			if (strlen(buf) + strlen(tmp) + 1 > bufsize) {
 				panic("buffer too small for the path");
 			}
 			strcat(buf, tmp);
 		} else {
-			if (strlen(buf) + strlen(tmp) + 1 > bufsize) {
+			if (strlen(buf) + strlen(tmp) + 2 > bufsize) {
 				panic("buffer too small for the path");
 			}
 			strcat(buf, "/");
-- 
2.43.0


From 2e77cabe73097736d6b2ecb6aef5a0b01defe824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:17 +0000
Subject: [PATCH 056/218] fix: keep strings of torrent files terminated

---
 lib/formats/torrent.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/formats/torrent.c b/lib/formats/torrent.c
index 435930c..65e9a44 100644
--- a/lib/formats/torrent.c
+++ b/lib/formats/torrent.c
@@ -107,13 +107,13 @@ pub info_t *parse(const char *data, size_t size) {
 	bencode.reader_t *r = bencode.newreader(data, size);
 	bencode.enter(r);
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf) - 1);
 		char *k = (char *)buf;
 		switch str (k) {
-			case "announce": { bencode.readbuf(r, (uint8_t *) tf->announce, sizeof(tf->announce)); }
+			case "announce": { bencode.readbuf(r, (uint8_t *) tf->announce, sizeof(tf->announce) - 1); }
 			case "creation date": { tf->creation_date = bencode.readnum(r); }
-			case "created by": { bencode.readbuf(r, (uint8_t *) tf->created_by, sizeof(tf->created_by)); }
-			case "comment": { bencode.readbuf(r, (uint8_t *) tf->comment, sizeof(tf->comment)); }
+			case "created by": { bencode.readbuf(r, (uint8_t *) tf->created_by, sizeof(tf->created_by) - 1); }
+			case "comment": { bencode.readbuf(r, (uint8_t *) tf->comment, sizeof(tf->comment) - 1); }
 			case "announce-list": { bencode.skip(r); }
 			case "info": {
 				info_begin = bencode.pos(r);
@@ -144,10 +144,10 @@ void parse_info(bencode.reader_t *r, info_t *tf) {
 	bencode.enter(r);
 	uint8_t buf[1000] = {};
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf) - 1);
 		char *k = (char *) buf;
 		if (strcmp(k, "name") == 0) {
-			bencode.readbuf(r, (uint8_t *) tf->name, sizeof(tf->name));
+			bencode.readbuf(r, (uint8_t *) tf->name, sizeof(tf->name) - 1);
 		} else if (strcmp(k, "piece length") == 0) {
 			tf->piece_length = bencode.readnum(r);
 		} else if (strcmp(k, "length") == 0) {
@@ -180,7 +180,7 @@ void parse_file(bencode.reader_t *r, info_t *tf) {
 
 	bencode.enter(r);
 	while (bencode.more(r)) {
-		bencode.key(r, buf, sizeof(buf));
+		bencode.key(r, buf, sizeof(buf) - 1);
 		if (strcmp(k, "path") == 0) {
 			readpath(r, f->path, sizeof(f->path));
 		} else if (strcmp(k, "length") == 0) {
@@ -200,7 +200,7 @@ void readpath(bencode.reader_t *r, char *buf, size_t bufsize) {
 	bencode.enter(r);
 	bool first = true;
 	while (bencode.more(r)) {
-		bencode.readbuf(r, (uint8_t *)tmp, sizeof(tmp));
+		bencode.readbuf(r, (uint8_t *)tmp, sizeof(tmp) - 1);
 		if (first) {
 			if (strlen(buf) + strlen(tmp) + 1 > bufsize) {
 				panic("buffer too small for the path");
-- 
2.43.0


From da49fbbc4b87562fa0c0858bdb4db1498d81aff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:21:17 +0000
Subject: [PATCH 057/218] fix: free the bencode writer after writing a torrent
 file

---
 lib/formats/torrent.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/formats/torrent.c b/lib/formats/torrent.c
index 65e9a44..c28b123 100644
--- a/lib/formats/torrent.c
+++ b/lib/formats/torrent.c
@@ -253,6 +253,7 @@ pub bool writefile(FILE *f, info_t *info) {
 	writestr(w, "pieces"); bencode_writer.buf(w, info->pieces, npieces * 20);
 	bencode_writer.end(w);
 	bencode_writer.end(w);
+	bencode_writer.free(w);
 	return true;
 }
 
-- 
2.43.0


From 5378336d0605242912445de09fd4d826d80ef1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:31 +0000
Subject: [PATCH 058/218] fix: endless loop in utf.runestrchr

---
 lib/utf.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/utf.c b/lib/utf.c
index 470ab3b..24e34e2 100644
--- a/lib/utf.c
+++ b/lib/utf.c
@@ -95,6 +95,7 @@ pub Rune* runestrchr(Rune *s, Rune c) {
 	}
 	while (*s != 0) {
 		if (*s == c) return s;
+		s++;
 	}
 	return 0;
 }
-- 
2.43.0


From 5079d217ac32ebedcff7bb89535977a393c41095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:31 +0000
Subject: [PATCH 059/218] fix: copy terminating zeros of rune strings and don't
 skip empty ones

---
 lib/utf.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/utf.c b/lib/utf.c
index 24e34e2..763bd8a 100644
--- a/lib/utf.c
+++ b/lib/utf.c
@@ -106,9 +106,9 @@ pub Rune* runestrecpy(Rune *s1, Rune *es1, Rune *s2) {
 	}
 	while (true) {
 		*s1 = *s2;
+		if (!*s2) break;
 		s1++;
 		s2++;
-		if (!*s2) break;
 		if (s1 == es1) {
 			*--s1 = '\0';
 			break;
@@ -160,9 +160,9 @@ pub Rune* runestrncat(Rune *s1, *s2, int32_t n) {
 	s1 = runestrchr(s1, 0);
 	while (true) {
 		*s1 = *s2;
+		if (!*s2) break;
 		s1++;
 		s2++;
-		if (!*s2) break;
 		if (--n < 0) {
 			s1[-1] = 0;
 			break;
@@ -212,9 +212,9 @@ pub Rune *runestrcpy(Rune *s1, *s2) {
 	Rune *os1 = s1;
 	while (true) {
 		*s1 = *s2;
+		if (!*s2) break;
 		s1++;
 		s2++;
-		if (!*s2) break;
 	}
 	return os1;
 }
@@ -222,8 +222,8 @@ pub Rune *runestrcpy(Rune *s1, *s2) {
 pub Rune* runestrncpy(Rune *s1, *s2, int32_t n) {
 	Rune *os1 = s1;
 	for (int i = 0; i < n; i++) {
-		*s1++ = *s2++;
-		if (*s2 == 0) {
+		*s1++ = *s2;
+		if (*s2++ == 0) {
 			while (++i < n) {
 				*s1++ = 0;
 			}
-- 
2.43.0


From 89a3c657173f5e6fd44e9236b2958be5b54f1c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:32 +0000
Subject: [PATCH 060/218] fix: utf.utfecpy repeated the first byte

---
 lib/utf.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/utf.c b/lib/utf.c
index 763bd8a..13f299e 100644
--- a/lib/utf.c
+++ b/lib/utf.c
@@ -1617,6 +1617,8 @@ void *nih_memcpy(void *dest, *src, int c, size_t n) {
 		if ((int)*to == c) {
 			return (void *) (to + 1);
 		}
+		to++;
+		from++;
 		n--;
 	}
 	return NULL;
-- 
2.43.0


From 925709f1b69326e4fd10958efee57d36d0fb367f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:32 +0000
Subject: [PATCH 061/218] fix: compare all characters in strings.ends_with

---
 lib/strings.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/strings.c b/lib/strings.c
index 0e0daf7..0012410 100644
--- a/lib/strings.c
+++ b/lib/strings.c
@@ -138,11 +138,11 @@ pub bool ends_with(const char *string, *suffix) {
 	while (*x != '\0') x++;
 	while (*y != '\0') y++;
 	while (x > string && y > suffix) {
+		x--;
+		y--;
 		if (*x != *y) {
 			return false;
 		}
-		x--;
-		y--;
 	}
 	return y == suffix;
 }
-- 
2.43.0


From 3d282d4b1df53716617e91946648faa0c96c9835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:32 +0000
Subject: [PATCH 062/218] fix: strings.split with no space for results

---
 lib/strings.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/strings.c b/lib/strings.c
index 0012410..630d41c 100644
--- a/lib/strings.c
+++ b/lib/strings.c
@@ -59,7 +59,7 @@ pub void rtrim(char *s, *set) {
  * If `str` is null, returns 0.
 */
 pub size_t split(const char *separator, const char *str, char **result, size_t result_size) {
-	if (!str) {
+	if (!str || result_size == 0) {
 		return 0;
 	}
 	size_t count = 0;
-- 
2.43.0


From 018228de81278db656ae433404de17ef28523179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:32 +0000
Subject: [PATCH 063/218] fix: don't overrun the lookahead cache in tokenizer,
 read on after a short read

---
 lib/tokenizer.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index d318e50..efa2bc8 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -69,7 +69,7 @@ pub void tail(t *b, char *buf, size_t len) {
 	for (size_t i = 0; i < n; i++) {
 		buf[i] = b->cache[i];
 	}
-	buf[len-1] = '\0';
+	buf[n] = '\0';
 }
 
 pub void dbg(t *b) {
@@ -108,10 +108,13 @@ void _track_pos(t *b, int c) {
 }
 
 void _prefetch(t *b, size_t n) {
-	if (b->cachesize >= n) return;
-	size_t len = n - b->cachesize;
-	int r = reader.read(b->reader, b->cache + b->cachesize, len);
-	if (r > 0) b->cachesize += r;
+	if (n > sizeof(b->cache)) n = sizeof(b->cache);
+	while (b->cachesize < n) {
+		size_t len = n - b->cachesize;
+		int r = reader.read(b->reader, b->cache + b->cachesize, len);
+		if (r <= 0) break;
+		b->cachesize += r;
+	}
 }
 
 pub void buf_skip_set(t *b, const char *set) {
-- 
2.43.0


From 293a410d6ac08ff6cfd85ddf2a9d461172a03183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:32 +0000
Subject: [PATCH 064/218] fix: allow long runs of characters in tokenizer

---
 lib/tokenizer.c | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index efa2bc8..15d8c86 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -135,11 +135,11 @@ pub bool buf_skip(t *b, char c) {
 }
 
 pub char *buf_read_set(t *b, const char *set) {
-	char *s = calloc!(10000, 1);
-	char *p = s;
+	size_t cap = 10000;
+	size_t len = 0;
+	char *s = calloc!(cap, 1);
 	while (more(b) && strchr(set, peek(b)) != NULL) {
-		*p = get(b);
-		p++;
+		s = _put(s, &cap, len++, get(b));
 	}
 	return s;
 }
@@ -290,16 +290,28 @@ pub const char *posstr(t *b) {
 }
 
 pub char *buf_skip_until(t *b, const char *literal) {
-	char *s = calloc!(10000, 1);
-	char *p = s;
+	size_t cap = 10000;
+	size_t len = 0;
+	char *s = calloc!(cap, 1);
 
 	while (more(b)) {
 		if (literal_follows(b, literal)) {
 			break;
 		}
-		*p = get(b);
-		p++;
+		s = _put(s, &cap, len++, get(b));
+	}
+	return s;
+}
+
+// Puts c at s[pos] followed by a zero, growing s if needed.
+char *_put(char *s, size_t *cap, size_t pos, int c) {
+	if (pos + 2 > *cap) {
+		*cap *= 2;
+		s = realloc(s, *cap);
+		if (!s) panic("realloc failed");
 	}
+	s[pos] = c;
+	s[pos + 1] = '\0';
 	return s;
 }
 
-- 
2.43.0


From e4e687ddfd330d8a6ec491135f757c013c49dce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:32 +0000
Subject: [PATCH 065/218] fix: don't cut positions in tokenizer

---
 lib/tokenizer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/tokenizer.c b/lib/tokenizer.c
index 15d8c86..786aec3 100644
--- a/lib/tokenizer.c
+++ b/lib/tokenizer.c
@@ -11,7 +11,7 @@ pub typedef {
 	size_t cachesize;
 
 	// Buffer for a string with current position.
-	char posstrbuf[10];
+	char posstrbuf[50];
 } t;
 
 // Returns a new instance reading from file f.
-- 
2.43.0


From 0bb036a31f8f27aadf2fa345b8dc3493378044bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:32 +0000
Subject: [PATCH 066/218] fix: keep table columns apart

---
 lib/table.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/table.c b/lib/table.c
index 632a55d..6856992 100644
--- a/lib/table.c
+++ b/lib/table.c
@@ -41,7 +41,7 @@ pub void print(table_t *t) {
 	for (size_t i = 0; i < t->pos; i++) {
 		size_t col = i % t->ncols;
 		size_t len = strlen(t->values[i]);
-		if (len > widths[col]) {
+		if (len + 2 > widths[col]) {
 			widths[col] = len + 2;
 		}
 	}
-- 
2.43.0


From 841c59ea44e6e81a21d73bb711c8149a21ccd8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:39:12 +0000
Subject: [PATCH 067/218] fix: utf.utfutf could jump over the end of a
 malformed string

---
 lib/utf.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/utf.c b/lib/utf.c
index 13f299e..53fdaf8 100644
--- a/lib/utf.c
+++ b/lib/utf.c
@@ -1709,7 +1709,7 @@ pub char *utfrrune(char *s, Rune c) {
 // Returns NULL if s2 is null or does not contain s1.
 pub char *utfutf(char *s1, char *s2) {
 	Rune r = 0;
-	int n1 = get_rune(&r, s2);
+	get_rune(&r, s2);
 	if (r <= Runesync) {
 		// represents self
 		return strstr(s1, s2);
@@ -1724,7 +1724,7 @@ pub char *utfutf(char *s1, char *s2) {
 		if (strncmp(p, s2, n2) == 0) {
 			return p;
 		}
-		p += n1;
+		p += get_rune(&r, p);
 	}
 	return NULL;
 }
-- 
2.43.0


From 334b4f2b17f244b678ed600ff6c185b49cc9a0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 068/218] fix: check limits of request and response headers in
 http

---
 lib/protocols/http.c | 34 ++++++++--------------------------
 1 file changed, 8 insertions(+), 26 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 50e5aa2..b7b9d8f 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -239,8 +239,7 @@ pub bool parse_response(reader.t *re, response_t *r) {
 		if (tokenizer.skip_literal(b, "\r\n")) {
 			break;
 		}
-		header_t *h = &r->headers[r->nheaders++];
-		if (!read_header(b, h)) {
+		if (r->nheaders == nelem(r->headers) || !read_header(b, &r->headers[r->nheaders++])) {
 			tokenizer.free(b);
 			return false;
 		}
@@ -318,24 +317,11 @@ bool read_status_line(tokenizer.t *b, response_t *r) {
 }
 
 bool read_header(tokenizer.t *b, header_t *h) {
-	char *tmp = h->name;
-	while (tokenizer.more(b) && tokenizer.peek(b) != ':') {
-		*tmp++ = tokenizer.get(b);
-	}
-	// : space
-	if (!tokenizer.skip_literal(b, ": ")) {
-		return false;
-	}
-	// value
-	tmp = h->value;
-	while (tokenizer.more(b) && tokenizer.peek(b) != '\r') {
-		*tmp++ = tokenizer.get(b);
-	}
-	// eol
-	if (!tokenizer.skip_literal(b, "\r\n")) {
-		return false;
-	}
-	return true;
+	return true
+		&& tokenizer.read_until(b, ':', h->name, sizeof(h->name))
+		&& tokenizer.skip_literal(b, ": ")
+		&& tokenizer.read_until(b, '\r', h->value, sizeof(h->value))
+		&& tokenizer.skip_literal(b, "\r\n");
 }
 
 // Reads a request, without the body, from a reader into the request r.
@@ -359,12 +345,8 @@ pub bool read_request(reader.t *br, request_t *r) {
 		// Empty line terminates the headers list.
 		if (tokenizer.skip_literal(b, "\r\n")) break;
 
-		header_t *h = &r->headers[r->nheaders];
-		ok = true
-			&& tokenizer.read_until(b, ':', h->name, sizeof(h->name))
-			&& tokenizer.skip_literal(b, ": ")
-			&& tokenizer.read_until(b, '\r', h->value, sizeof(h->value))
-			&& tokenizer.skip_literal(b, "\r\n");
+		ok = r->nheaders < nelem(r->headers)
+			&& read_header(b, &r->headers[r->nheaders]);
 		if (ok) r->nheaders++;
 	}
 	tokenizer.free(b);
-- 
2.43.0


From bd4c4118d215e2e79b1c196849850a4fdb8fbea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 069/218] fix: check limits when building http requests

---
 lib/protocols/http.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index b7b9d8f..f8b4194 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -66,7 +66,8 @@ pub typedef {
 
 const char *errors[] = {
 	"no error",
-	"unknown method"
+	"unknown method",
+	"path too long"
 };
 
 pub const char *errstr(int err) {
@@ -93,6 +94,9 @@ pub void reqparams(request_t *r, const char *name, *value) {
 }
 
 pub void reqparam(request_t *r, const char *name, const char *data, size_t datalen) {
+	if (r->nparams == nelem(r->params) || strlen(name) >= sizeof(r->params[0].name) || datalen > sizeof(r->params[0].value)) {
+		panic("too many or too big parameters");
+	}
 	kv_t *h = &r->params[r->nparams++];
 	strcpy(h->name, name);
 	memcpy(h->value, data, datalen);
@@ -111,6 +115,10 @@ pub bool init_request(request_t *r, int method, const char *path) {
 			return false;
 		}
     }
+    if (strlen(path) >= sizeof(r->uri)) {
+        r->err = 2; // path too long
+        return false;
+    }
     strcpy(r->method, methodstring);
     strcpy(r->uri, path);
     strcpy(r->version, "HTTP/1.0");
@@ -118,6 +126,9 @@ pub bool init_request(request_t *r, int method, const char *path) {
 }
 
 pub bool set_header(request_t *r, const char *name, *value) {
+    if (r->nheaders == nelem(r->headers) || strlen(name) >= sizeof(r->headers[0].name) || strlen(value) >= sizeof(r->headers[0].value)) {
+        return false;
+    }
     header_t *h = &r->headers[r->nheaders++];
     strcpy(h->name, name);
     strcpy(h->value, value);
@@ -143,7 +154,7 @@ pub int write_request(writer.t *w, request_t *r) {
 		strbuilder.adds(sb, param->name);
 		strbuilder.adds(sb, "=");
 
-		uint8_t tmp[1000] = {};
+		uint8_t tmp[3 * sizeof(param->value) + 1] = {};
 		writer.t *w2 = writer.static_buffer(tmp, sizeof(tmp));
 		urlencode.write(w2, param->value, param->valuelen);
 		writer.free(w2);
-- 
2.43.0


From 0defcbc451b38283b8e6ed8cfcab9796c16c69d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 070/218] fix: check the size of http response bodies

---
 lib/protocols/http.c | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index f8b4194..76f86b9 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -264,8 +264,11 @@ bool read_body(tokenizer.t *b, response_t *r) {
 	const char *tmp = get_res_header(r, "Content-Length");
 	if (tmp) {
 		r->content_length = atoi(tmp);
+		if (r->content_length < 0 || (size_t) r->content_length > sizeof(r->body)) {
+			return false;
+		}
 		for (int i = 0; i < r->content_length; i++) {
-			char c = tokenizer.get(b);
+			int c = tokenizer.get(b);
 			if (c == EOF) {
 				return false;
 			}
@@ -274,20 +277,15 @@ bool read_body(tokenizer.t *b, response_t *r) {
 		return true;
 	}
 
-	// Connection: close implies that the rest of the data is body.
-	tmp = get_res_header(r, "Connection");
-	if (!strcmp(tmp, "close")) {
-		size_t i = 0;
-		while (tokenizer.more(b)) {
-			if (i + 1 == sizeof(r->body)) {
-				panic("body buffer too small");
-			}
-			r->body[i++] = tokenizer.get(b);
+	// Without a length the rest of the data is body.
+	size_t i = 0;
+	while (tokenizer.more(b)) {
+		if (i + 1 == sizeof(r->body)) {
+			return false;
 		}
-		return true;
+		r->body[i++] = tokenizer.get(b);
 	}
-	panic("unknown response body format");
-	return false;
+	return true;
 }
 
 bool read_status_line(tokenizer.t *b, response_t *r) {
-- 
2.43.0


From e9cf7a16e8fa616795259e3e186a42c964baf5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 071/218] fix: ignore case in names of http headers

---
 lib/protocols/http.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 76f86b9..24c3ff3 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -190,7 +190,7 @@ pub header_t *get_header(request_t *r, const char *name) {
     header_t *h = NULL;
     for (size_t i = 0; i < r->nheaders; i++) {
         h = &r->headers[i];
-        if (!strcmp(name, h->name)) {
+        if (strings.casecmp(name, h->name)) {
             return h;
         }
     }
@@ -201,7 +201,7 @@ pub const char *get_res_header(response_t *r, const char *name) {
 	header_t *h = NULL;
     for (size_t i = 0; i < r->nheaders; i++) {
         h = &r->headers[i];
-        if (!strcmp(name, h->name)) {
+        if (strings.casecmp(name, h->name)) {
             return h->value;
         }
     }
-- 
2.43.0


From c2af7b06cf681504cb3831bc510cb8b98a64277a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 072/218] fix: body length of http error responses

---
 lib/protocols/http.c | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 24c3ff3..50af88c 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -370,7 +370,6 @@ pub void write_404(request_t *req, net.net_t *conn) {
         "Content-Length: %ld\n"
         "Content-Type: text/plain\n"
         "\n"
-        "\n"
         "%s",
         req->version,
         strlen(msg),
@@ -390,7 +389,6 @@ pub void write_405(request_t *req, net.net_t *conn) {
         "Content-Length: %ld\n"
         "Content-Type: text/plain\n"
         "\n"
-        "\n"
         "%s",
         req->version,
         strlen(msg),
@@ -410,7 +408,6 @@ pub void write_501(request_t *req, net.net_t *conn) {
         "Content-Length: %ld\n"
         "Content-Type: text/plain\n"
         "\n"
-        "\n"
         "%s",
         req->version,
         strlen(msg),
-- 
2.43.0


From 9657780e7fd2d7308eefd90b74dc245e4ff619d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 073/218] fix: don't crash when a client leaves in the middle
 of a file

---
 lib/protocols/http.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index 50af88c..d7fd4f9 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -446,6 +446,11 @@ pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
 	if (!fs.filesize(filepath, &filesize)) {
 		panic("failed to get file size");
 	}
+	FILE *f = fopen(filepath, "rb");
+	if (!f) {
+		write_404(req, conn);
+		return;
+	}
 	char buf[1000] = {};
 	sprintf(buf, "%s 200 OK\n"
 		"Content-Length: %ld\n"
@@ -455,20 +460,15 @@ pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
 		filesize,
 		content_type);
 	if (net.write(conn, buf, strlen(buf)) < 0) {
-		panic("net write failed");
-	}
-
-	FILE *f = fopen(filepath, "rb");
-	if (!f) {
-		panic("oops");
+		fclose(f);
+		return;
 	}
 
 	while (true) {
 		char tmp[4096];
 		size_t n = fread(tmp, 1, 4096, f);
 		if (n == 0) break;
-		int r = net.write(conn, tmp, n);
-		if (r < 0) panic("net write failed");
+		if (net.write(conn, tmp, n) < 0) break;
 	}
 	fclose(f);
 }
-- 
2.43.0


From a00c7e3615e25fcd74cd56d4a9826d4f860889f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 074/218] fix: don't overrun fields of parsed URLs

---
 lib/url.c | 51 ++++++++++++++++++++++++---------------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/lib/url.c b/lib/url.c
index b592149..aa9ef94 100644
--- a/lib/url.c
+++ b/lib/url.c
@@ -12,40 +12,37 @@ pub t *parse(const char *s) {
     tokenizer.t *buf = tokenizer.from_str(s);
 
     // http
-    char *q = r->schema;
-    while (tokenizer.more(buf) && tokenizer.peek(buf) != ':') {
-        *q++ = tokenizer.get(buf);
-    }
-
-    // ://
-    if (tokenizer.get(buf) != ':' || tokenizer.get(buf) != '/' || tokenizer.get(buf) != '/') {
-        tokenizer.free(buf);
-		free(r);
-        return NULL;
-    }
+    bool ok = read_part(buf, ":", r->schema, sizeof(r->schema))
+        && tokenizer.skip_literal(buf, "://");
 
     // domain or ip address
-    q = r->hostname;
-    while (tokenizer.more(buf) && tokenizer.peek(buf) != ':' && tokenizer.peek(buf) != '/') {
-        *q++ = tokenizer.get(buf);
-    }
+    ok = ok && read_part(buf, ":/", r->hostname, sizeof(r->hostname));
 
-    q = r->port;
-    if (tokenizer.peek(buf) == ':') {
-        tokenizer.get(buf);
-        while (tokenizer.more(buf) && tokenizer.peek(buf) != '/') {
-            *q++ = tokenizer.get(buf);
-        }
+    if (ok && tokenizer.buf_skip(buf, ':')) {
+        ok = read_part(buf, "/", r->port, sizeof(r->port));
     }
 
-    q = r->path;
-	*q = '/';
-    if (tokenizer.peek(buf) == '/') {
-        while (tokenizer.more(buf)) {
-            *q++ = tokenizer.get(buf);
-        }
+	r->path[0] = '/';
+    if (ok && tokenizer.peek(buf) == '/') {
+        ok = read_part(buf, "", r->path, sizeof(r->path));
     }
 
     tokenizer.free(buf);
+    if (!ok) {
+        free(r);
+        return NULL;
+    }
     return r;
 }
+
+// Reads everything up to any of the characters from ends into p.
+// Returns false if it doesn't fit.
+bool read_part(tokenizer.t *buf, const char *ends, char *p, size_t size) {
+    size_t n = 0;
+    while (tokenizer.more(buf) && !strchr(ends, tokenizer.peek(buf))) {
+        if (n + 1 == size) return false;
+        p[n++] = tokenizer.get(buf);
+    }
+    p[n] = '\0';
+    return true;
+}
-- 
2.43.0


From 59c9c6d22a54b2b789e01d454f8aca9ab7f00577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 075/218] fix: check limits of cgi headers, allow empty values

---
 lib/protocols/cgi.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/protocols/cgi.c b/lib/protocols/cgi.c
index 03554b3..10d30c6 100644
--- a/lib/protocols/cgi.c
+++ b/lib/protocols/cgi.c
@@ -16,6 +16,7 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
 
         // name
         while (pos < n && data[pos] != ':') {
+            if (strlen(name) + 1 == sizeof(name)) return false;
             *d++ = data[pos];
             pos++;
         }
@@ -25,7 +26,7 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
         pos++;
 
         // skip spaces
-        while (pos < n && isspace(data[pos])) {
+        while (pos < n && (data[pos] == ' ' || data[pos] == '\t')) {
             pos++;
         }
         if (pos >= n) return false;
@@ -35,12 +36,14 @@ pub size_t parse_head(head_t *r, char *data, size_t n) {
 
         // everything until a newline
         while (pos < n && data[pos] != '\n' && data[pos] != '\r') {
+            if (strlen(value) + 1 == sizeof(value)) return false;
             *d++ = data[pos];
             pos++;
         }
         if (pos >= n) return false;
         if (pos < n && data[pos] == '\r') pos++;
         if (pos < n && data[pos] == '\n') pos++;
+        if (r->nheaders == nelem(r->headers)) return false;
         strcpy(r->headers[r->nheaders].name, name);
         strcpy(r->headers[r->nheaders].value, value);
         r->nheaders++;
-- 
2.43.0


From b051d0e7d8a008d8d748448ec0bb5894b30b7723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 076/218] fix: allocate the whole connection context in
 webserver

---
 prog/webserver/webserver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index cf6a9d5..69eddb1 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -44,7 +44,7 @@ int main(int argc, char *argv[]) {
 
 		log_info("%s connected", net.net_addr(conn));
 
-		ctx_t *ctx = calloc!(1, sizeof(ctx));
+		ctx_t *ctx = calloc!(1, sizeof(ctx_t));
 		ctx->s = &SERVER;
 		ctx->conn = conn;
 		threads.start(client_routine, ctx);
-- 
2.43.0


From 06f5c80bd475726086dfd943e91574d477f1c75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 077/218] fix: keep webserver running when a client leaves or
 sends garbage

---
 prog/webserver/webserver.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 69eddb1..317c402 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -61,7 +61,8 @@ void *client_routine(void *arg) {
 	http.request_t req = {};
 	while (true) {
 		if (!http.read_request(re, &req)) {
-			panic("failed to read request: %s", strerror(errno));
+			log_info("%s disconnected", net.net_addr(conn));
+			break;
 		}
 		log_info("%s %s", req.method, req.path);
 
@@ -96,6 +97,7 @@ void *client_routine(void *arg) {
 	}
 	reader.free(re);
 	net.close(conn);
+	free(ctx);
 	return NULL;
 }
 
-- 
2.43.0


From 4c6f1bfbd74c7194cf7de27722015d9578831cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 078/218] fix: don't let webserver out of the served directory

---
 prog/webserver/webserver.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 317c402..5ec342f 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -118,7 +118,9 @@ char *resolve_path(const char *homedir, *reqpath) {
     if (!fs.realpath(naive_path, realpath, sizeof(realpath))) {
         return NULL;
     }
-    if (!strings.starts_with(realpath, homedir)) {
+    size_t n = strlen(homedir);
+    if (strcmp(homedir, "/") == 0) n = 0;
+    if (!strings.starts_with(realpath, homedir) || (realpath[n] != '/' && realpath[n] != '\0')) {
         printf("resolved path \"%s\" doesn't start with homedir=\"%s\"\n", realpath, homedir);
         return NULL;
     }
-- 
2.43.0


From 020624a1974db9ab3e1754606f663434bd13e283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 079/218] fix: don't serve directories as files in webserver

---
 prog/webserver/webserver.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 5ec342f..708bd94 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -82,7 +82,8 @@ void *client_routine(void *arg) {
 		}
 
 		char *filepath = resolve_path(s->homedir, req.path);
-		if (!filepath) {
+		if (!filepath || fs.is_dir(filepath)) {
+			free(filepath);
 			log_info("404 \"%s\" was not found", req.path);
 			http.write_404(&req, conn);
 			continue;
@@ -94,6 +95,7 @@ void *client_routine(void *arg) {
 		} else {
 			http.servefile(&req, conn, filepath);
 		}
+		free(filepath);
 	}
 	reader.free(re);
 	net.close(conn);
-- 
2.43.0


From 78d46150cdb484db78c2f7993071c073c4f22e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:41:52 +0000
Subject: [PATCH 080/218] fix: skip . and .. wherever they come in a directory

---
 lib/os/fs.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/lib/os/fs.c b/lib/os/fs.c
index e87d1b9..2e453ee 100644
--- a/lib/os/fs.c
+++ b/lib/os/fs.c
@@ -28,10 +28,7 @@ pub dir_t *dir_open(const char *path) {
 pub const char *dir_next(dir_t *d) {
 	dirent_t *e = OS.readdir(d->d);
 	// Skip "." and "..".
-	if (e != NULL && strcmp(e->d_name, ".") == 0) {
-		e = OS.readdir(d->d);
-	}
-	if (e != NULL && strcmp(e->d_name, "..") == 0) {
+	while (e != NULL && (strcmp(e->d_name, ".") == 0 || strcmp(e->d_name, "..") == 0)) {
 		e = OS.readdir(d->d);
 	}
 	if (e == NULL) {
-- 
2.43.0


From 8bdbb3123c41c3957f7ad66887cd3dd4c1bfb9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:43:21 +0000
Subject: [PATCH 081/218] fix: wrong mime types

---
 lib/mime.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/mime.c b/lib/mime.c
index 0b0baf3..f2644f1 100644
--- a/lib/mime.c
+++ b/lib/mime.c
@@ -50,7 +50,7 @@ kv_t table[] = {
     { "png",  "image/png" },
     { "pdf",  "application/pdf" },
     { "php",  "application/x-httpd-php" },
-    { "ppt",  "application.vnd.openxmlformats-officedocument.presentationml.presentation" },
+    { "ppt",  "application/vnd.ms-powerpoint" },
     { "rar",  "application/vnd.rar" },
     { "rtf",  "application/rtf" },
     { "svg",  "image/svg+xml" },
@@ -63,8 +63,8 @@ kv_t table[] = {
     { "vsd",  "application/vnd.visio" },
     { "wav",  "audio/wav" },
     { "weba", "audio/webm" },
-    { "webm", "audio/webm" },
-    { "webp", "audio/webp" },
+    { "webm", "video/webm" },
+    { "webp", "image/webp" },
     { "woff2","font/woff2" },
     { "xhtml","application/xhtml+xml" },
     { "xls",  "application/vnd.ms-excel" },
-- 
2.43.0


From cec3b2e852393bbe34b6a4ab2b0f8f7b225d986a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:49:19 +0000
Subject: [PATCH 082/218] fix: free the pipe itself in threads.freepipe

---
 lib/os/threads.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/os/threads.c b/lib/os/threads.c
index 9de1b7c..a2aefaf 100644
--- a/lib/os/threads.c
+++ b/lib/os/threads.c
@@ -133,6 +133,7 @@ pub void freepipe(pipe_t *p) {
 	cnd_free(p->sig_read);
 	mtx_free(p->lock);
 	free(p->items);
+	free(p);
 }
 
 // Reads one entry from the pipe into out.
-- 
2.43.0


From f8de1a3782f6b8a2f42538cfde2f2d41c6fb99eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:23 +0000
Subject: [PATCH 083/218] fix: close pipes to a process when they are freed

---
 lib/os/proc.c | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/lib/os/proc.c b/lib/os/proc.c
index 6279ad0..57e3925 100644
--- a/lib/os/proc.c
+++ b/lib/os/proc.c
@@ -1,3 +1,4 @@
+#include <fcntl.h>
 #include <sys/types.h>
 #include <unistd.h>
 #include <sys/wait.h>
@@ -52,9 +53,9 @@ pub proc_t *spawn(char *argv[], *env[]) {
         // Parent
         proc_t *p = calloc!(1, sizeof(proc_t));
         p->pid = pid;
-        p->stdin = writer.fd(in[1]);
-        p->stdout = reader.fd(out[0]);
-        p->stderr = reader.fd(err[0]);
+        p->stdin = writer.new(newfd(in[1]), fd_write, fd_close);
+        p->stdout = reader.new(newfd(out[0]), fd_read, fd_close);
+        p->stderr = reader.new(newfd(err[0]), fd_read, fd_close);
         OS.close(in[0]);
         OS.close(out[1]);
         OS.close(err[1]);
@@ -79,6 +80,31 @@ pub proc_t *spawn(char *argv[], *env[]) {
     }
 }
 
+// Our end of a pipe. Other processes must not inherit it, otherwise closing it
+// here would not be noticed on the other end.
+int *newfd(int fd) {
+    int *p = calloc!(1, sizeof(int));
+    *p = fd;
+    OS.fcntl(fd, OS.F_SETFD, OS.FD_CLOEXEC);
+    return p;
+}
+
+int fd_read(void *ctx, uint8_t *buf, size_t n) {
+    int *p = ctx;
+    return OS.read(*p, buf, n);
+}
+
+int fd_write(void *ctx, const uint8_t *data, size_t n) {
+    int *p = ctx;
+    return OS.write(*p, data, n);
+}
+
+void fd_close(void *ctx) {
+    int *p = ctx;
+    OS.close(*p);
+    free(p);
+}
+
 pub bool wait(proc_t *p, int *status) {
     bool ok = OS.waitpid(p->pid, status, 0) == p->pid;
 	reader.free(p->stdout);
-- 
2.43.0


From b86773827ddadd2a6e18ad10ee5b8fbb4b669751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:23 +0000
Subject: [PATCH 084/218] fix: read the whole output of cgi scripts in
 webserver

---
 prog/webserver/srvcgi.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/prog/webserver/srvcgi.c b/prog/webserver/srvcgi.c
index e89fc57..1dffd5e 100644
--- a/prog/webserver/srvcgi.c
+++ b/prog/webserver/srvcgi.c
@@ -5,17 +5,23 @@
 #import protocols/http
 #import reader
 #import strings
+#import writer
 
 pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 	proc.proc_t *proc = start(path, req);
 
 	// Read the script's output.
 	char output[4096] = {};
-	int r = reader.read(proc->stdout, (uint8_t*)output, 4096);
-	if (r < 0) {
-		panic("read failed");
+	writer.free(proc->stdin);
+	size_t output_size = 0;
+	while (output_size < sizeof(output)) {
+		int r = reader.read(proc->stdout, (uint8_t*)output + output_size, sizeof(output) - output_size);
+		if (r < 0) {
+			panic("read failed");
+		}
+		if (r == 0) break;
+		output_size += (size_t)r;
 	}
-	size_t output_size = (size_t)r;
 
 	int status = 0;
 	proc.wait(proc, &status);
@@ -25,7 +31,7 @@ pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 
 	// Parse the output.
 	cgi.head_t head = {};
-	size_t headsize = cgi.parse_head(&head, output, (size_t) r);
+	size_t headsize = cgi.parse_head(&head, output, output_size);
 	if (!headsize) {
 		panic("failed to parse cgi head");
 	}
-- 
2.43.0


From 2942933b06848b1b38be6153233573161e952047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:02 +0000
Subject: [PATCH 085/218] fix: end lines of http responses properly

---
 lib/protocols/http.c    | 40 ++++++++++++++++++++--------------------
 prog/webserver/srvcgi.c |  4 ++--
 2 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index d7fd4f9..bf69c31 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -366,10 +366,10 @@ pub void write_404(request_t *req, net.net_t *conn) {
     const char *msg = "The file was not found on the server.";
 	char buf[1000] = {};
 	sprintf(buf,
-        "%s 404 Not Found\n"
-        "Content-Length: %ld\n"
-        "Content-Type: text/plain\n"
-        "\n"
+        "%s 404 Not Found\r\n"
+        "Content-Length: %ld\r\n"
+        "Content-Type: text/plain\r\n"
+        "\r\n"
         "%s",
         req->version,
         strlen(msg),
@@ -385,10 +385,10 @@ pub void write_405(request_t *req, net.net_t *conn) {
     const char *msg = "This method is not allowed for this path.";
 	char buf[1000] = {};
     sprintf(buf,
-        "%s 405 Method Not Allowed\n"
-        "Content-Length: %ld\n"
-        "Content-Type: text/plain\n"
-        "\n"
+        "%s 405 Method Not Allowed\r\n"
+        "Content-Length: %ld\r\n"
+        "Content-Type: text/plain\r\n"
+        "\r\n"
         "%s",
         req->version,
         strlen(msg),
@@ -404,10 +404,10 @@ pub void write_501(request_t *req, net.net_t *conn) {
     const char *msg = "method not implemented\n";
 	char buf[1000] = {};
     sprintf(buf,
-        "%s 501 Not Implemented\n"
-        "Content-Length: %ld\n"
-        "Content-Type: text/plain\n"
-        "\n"
+        "%s 501 Not Implemented\r\n"
+        "Content-Length: %ld\r\n"
+        "Content-Type: text/plain\r\n"
+        "\r\n"
         "%s",
         req->version,
         strlen(msg),
@@ -421,10 +421,10 @@ pub void write_501(request_t *req, net.net_t *conn) {
 
 pub void serve_text(request_t *req, net.net_t *conn, const char *s, *content_type) {
 	char buf[1000] = {};
-	sprintf(buf, "%s 200 OK\n"
-		"Content-Length: %ld\n"
-		"Content-Type: %s\n"
-		"\n",
+	sprintf(buf, "%s 200 OK\r\n"
+		"Content-Length: %ld\r\n"
+		"Content-Type: %s\r\n"
+		"\r\n",
 		req->version,
 		strlen(s),
 		content_type);
@@ -452,10 +452,10 @@ pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
 		return;
 	}
 	char buf[1000] = {};
-	sprintf(buf, "%s 200 OK\n"
-		"Content-Length: %ld\n"
-		"Content-Type: %s\n"
-		"\n",
+	sprintf(buf, "%s 200 OK\r\n"
+		"Content-Length: %ld\r\n"
+		"Content-Type: %s\r\n"
+		"\r\n",
 		req->version,
 		filesize,
 		content_type);
diff --git a/prog/webserver/srvcgi.c b/prog/webserver/srvcgi.c
index 1dffd5e..858432b 100644
--- a/prog/webserver/srvcgi.c
+++ b/prog/webserver/srvcgi.c
@@ -36,7 +36,7 @@ pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 		panic("failed to parse cgi head");
 	}
 
-	net.net_printf(conn, "%s 200 OK\n", req->version);
+	net.net_printf(conn, "%s 200 OK\r\n", req->version);
 	for (size_t i = 0; i < head.nheaders; i++) {
 		char *name = head.headers[i].name;
 		char *value = head.headers[i].value;
@@ -49,7 +49,7 @@ pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 		if (!strcmp(name, "Content-Length")) {
 			panic("omitting content length");
 		}
-		net.net_printf(conn, "%s: %s\n", name, value);
+		net.net_printf(conn, "%s: %s\r\n", name, value);
 	}
 	net.net_printf(conn, "Content-Length: %zu\r\n", output_size - headsize);
 	net.net_printf(conn, "\r\n", 1);
-- 
2.43.0


From fb420da84f79f166489cf5c5f358c6e950716816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:02:02 +0000
Subject: [PATCH 086/218] fix: don't keep threads of finished connections in
 webserver

---
 prog/webserver/webserver.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 708bd94..233f4fa 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -47,7 +47,7 @@ int main(int argc, char *argv[]) {
 		ctx_t *ctx = calloc!(1, sizeof(ctx_t));
 		ctx->s = &SERVER;
 		ctx->conn = conn;
-		threads.start(client_routine, ctx);
+		threads.thr_detach(threads.start(client_routine, ctx));
 	}
     panic("unreachable");
 }
-- 
2.43.0


From 80f974ed4af62442d25a417aaa5c0447c585398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:08 +0000
Subject: [PATCH 087/218] fix: don't exit when an http client leaves before the
 response

---
 lib/protocols/http.c | 30 +++++++++++-------------------
 1 file changed, 11 insertions(+), 19 deletions(-)

diff --git a/lib/protocols/http.c b/lib/protocols/http.c
index bf69c31..fcaad8b 100644
--- a/lib/protocols/http.c
+++ b/lib/protocols/http.c
@@ -375,10 +375,8 @@ pub void write_404(request_t *req, net.net_t *conn) {
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    // If this fails, the client is gone.
+    net.write(conn, buf, strlen(buf));
 }
 
 pub void write_405(request_t *req, net.net_t *conn) {
@@ -394,10 +392,8 @@ pub void write_405(request_t *req, net.net_t *conn) {
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    // If this fails, the client is gone.
+    net.write(conn, buf, strlen(buf));
 }
 
 pub void write_501(request_t *req, net.net_t *conn) {
@@ -413,10 +409,8 @@ pub void write_501(request_t *req, net.net_t *conn) {
         strlen(msg),
         msg
     );
-    int r = net.write(conn, buf, strlen(buf));
-	if (r < 0) {
-		panic("net write failed");
-	}
+    // If this fails, the client is gone.
+    net.write(conn, buf, strlen(buf));
 }
 
 pub void serve_text(request_t *req, net.net_t *conn, const char *s, *content_type) {
@@ -428,12 +422,9 @@ pub void serve_text(request_t *req, net.net_t *conn, const char *s, *content_typ
 		req->version,
 		strlen(s),
 		content_type);
-	if (net.write(conn, buf, strlen(buf)) < 0) {
-		panic("net write failed");
-	}
-	if (net.write(conn, s, strlen(s)) < 0) {
-		panic("net write failed");
-	}
+	// If this fails, the client is gone.
+	if (net.write(conn, buf, strlen(buf)) < 0) return;
+	net.write(conn, s, strlen(s));
 }
 
 pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
@@ -444,7 +435,8 @@ pub void servefile(request_t *req, net.net_t *conn, const char *filepath) {
 	}
 	size_t filesize = 0;
 	if (!fs.filesize(filepath, &filesize)) {
-		panic("failed to get file size");
+		write_404(req, conn);
+		return;
 	}
 	FILE *f = fopen(filepath, "rb");
 	if (!f) {
-- 
2.43.0


From da6b6ef3b68b08dcccf1eacc8f2ed0bef39d54b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:08 +0000
Subject: [PATCH 088/218] fix: keep webserver running when a connection can't
 be accepted

---
 prog/webserver/webserver.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prog/webserver/webserver.c b/prog/webserver/webserver.c
index 233f4fa..8628cd6 100644
--- a/prog/webserver/webserver.c
+++ b/prog/webserver/webserver.c
@@ -40,7 +40,10 @@ int main(int argc, char *argv[]) {
 
 	while (true) {
 		net.net_t *conn = net.net_accept(ln);
-		if (!conn) panic("accept failed");
+		if (!conn) {
+			log_error("accept failed: %s", strerror(errno));
+			continue;
+		}
 
 		log_info("%s connected", net.net_addr(conn));
 
-- 
2.43.0


From 984b032a5f24146f20aab04397474653dfd04717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:08 +0000
Subject: [PATCH 089/218] fix: file extension is a part of the file name

---
 lib/os/fs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/os/fs.c b/lib/os/fs.c
index 2e453ee..8c41a76 100644
--- a/lib/os/fs.c
+++ b/lib/os/fs.c
@@ -199,13 +199,14 @@ pub const char *fileext(const char *filepath) {
     }
 
     const char *p = filepath + strlen(filepath) - 1;
-    while (p >= filepath) {
+    while (p >= filepath && *p != '/') {
         if (*p == '.') {
             return p+1;
         }
         p--;
     }
-    return filepath;
+    // No extension.
+    return filepath + filepath_len;
 }
 
 // Returns "base name" of a file path.
-- 
2.43.0


From b98b1e1067ce312c4dc750e04e2ccfa713367eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:31 +0000
Subject: [PATCH 090/218] fix: don't let a failing cgi script stop the
 webserver

---
 prog/webserver/srvcgi.c | 48 +++++++++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 19 deletions(-)

diff --git a/prog/webserver/srvcgi.c b/prog/webserver/srvcgi.c
index 858432b..0c348f4 100644
--- a/prog/webserver/srvcgi.c
+++ b/prog/webserver/srvcgi.c
@@ -9,6 +9,10 @@
 
 pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 	proc.proc_t *proc = start(path, req);
+	if (!proc) {
+		fail(req, conn, "failed to start the script");
+		return;
+	}
 
 	// Read the script's output.
 	char output[4096] = {};
@@ -16,39 +20,38 @@ pub void cgi(char *path, http.request_t *req, net.net_t *conn) {
 	size_t output_size = 0;
 	while (output_size < sizeof(output)) {
 		int r = reader.read(proc->stdout, (uint8_t*)output + output_size, sizeof(output) - output_size);
-		if (r < 0) {
-			panic("read failed");
-		}
-		if (r == 0) break;
+		if (r <= 0) break;
 		output_size += (size_t)r;
 	}
 
 	int status = 0;
 	proc.wait(proc, &status);
 	if (status != 0) {
-		panic("process exited with %d\n", status);
+		fail(req, conn, "the script failed");
+		return;
 	}
 
 	// Parse the output.
 	cgi.head_t head = {};
 	size_t headsize = cgi.parse_head(&head, output, output_size);
 	if (!headsize) {
-		panic("failed to parse cgi head");
+		fail(req, conn, "failed to parse the script's output");
+		return;
+	}
+	for (size_t i = 0; i < head.nheaders; i++) {
+		char *name = head.headers[i].name;
+		char *value = head.headers[i].value;
+		if ((!strcmp(name, "Status") && strcmp(value, "200")) || !strcmp(name, "Content-Length")) {
+			fail(req, conn, "unsupported header in the script's output");
+			return;
+		}
 	}
 
 	net.net_printf(conn, "%s 200 OK\r\n", req->version);
 	for (size_t i = 0; i < head.nheaders; i++) {
 		char *name = head.headers[i].name;
 		char *value = head.headers[i].value;
-		if (!strcmp(name, "Status")) {
-			if (strcmp(value, "200")) {
-				panic("expected status '200', got '%s'", value);
-			}
-			continue;
-		}
-		if (!strcmp(name, "Content-Length")) {
-			panic("omitting content length");
-		}
+		if (!strcmp(name, "Status")) continue;
 		net.net_printf(conn, "%s: %s\r\n", name, value);
 	}
 	net.net_printf(conn, "Content-Length: %zu\r\n", output_size - headsize);
@@ -83,10 +86,7 @@ proc.proc_t *start(char *path, http.request_t *req) {
 
 	char *args[] = {path, NULL};
 	proc.proc_t *proc = proc.spawn(args, env);
-	if (!proc) {
-		panic("spawn failed");
-	}
-	printf("spawned process %d\n", proc->pid);
+	if (proc) printf("spawned process %d\n", proc->pid);
 	p = env;
 	while (*p) {
 		free(*p);
@@ -95,6 +95,16 @@ proc.proc_t *start(char *path, http.request_t *req) {
 	return proc;
 }
 
+void fail(http.request_t *req, net.net_t *conn, const char *msg) {
+	net.net_printf(conn,
+		"%s 502 Bad Gateway\r\n"
+		"Content-Length: %zu\r\n"
+		"Content-Type: text/plain\r\n"
+		"\r\n"
+		"%s",
+		req->version, strlen(msg), msg);
+}
+
 const char *header(http.request_t *req, const char *name, *def) {
     http.header_t *h = http.get_header(req, name);
     if (h) {
-- 
2.43.0


From 04c78ea14d4d1e7ee022a9b864bf19ad64a27fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:50 +0000
Subject: [PATCH 091/218] fix: make time.now safe to call from several threads

---
 lib/time.c | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index aa9c27f..509a495 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -232,14 +232,15 @@ pub iso_t now() {
 // Returns time corresponding to the given unix time.
 pub iso_t fromunix(int64_t seconds) {
 	time_t s = seconds;
-	tm_t *tm = OS.gmtime(&s);
+	tm_t tm = {};
+	OS.gmtime_r(&s, &tm);
 	iso_t r = {
-		.Y = tm->tm_year + 1900,
-		.M = tm->tm_mon + 1,
-		.D = tm->tm_mday,
-		.h = tm->tm_hour,
-		.m = tm->tm_min,
-		.s = tm->tm_sec,
+		.Y = tm.tm_year + 1900,
+		.M = tm.tm_mon + 1,
+		.D = tm.tm_mday,
+		.h = tm.tm_hour,
+		.m = tm.tm_min,
+		.s = tm.tm_sec,
 	};
 	return r;
 }
-- 
2.43.0


From 2413724ecf9a014207a702ed94f76b90d2642781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:50 +0000
Subject: [PATCH 092/218] fix: read the whole response in exab

---
 prog/exab/exab.c | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/prog/exab/exab.c b/prog/exab/exab.c
index 54e9b11..c4ebccc 100644
--- a/prog/exab/exab.c
+++ b/prog/exab/exab.c
@@ -105,8 +105,6 @@ void *worker(void *arg) {
 	worker_arg_t *a = arg;
 	threads.pipe_t *pipe = a->pipe;
 
-	char resbytes[4096] = {};
-
 	result_t _res = {};
 	result_t *res = &_res;
 	res->worker_id = a->id;
@@ -129,23 +127,15 @@ void *worker(void *arg) {
 		}
 		res->total_sent = REQUESTLEN;
 		res->time_finished_writing = time.now();
-		int read = net.read(conn, resbytes, sizeof(resbytes));
-		if (read < 0) {
-			panic("read failed");
-		}
-		if ((size_t) read == sizeof(resbytes)) {
-			panic("read buffer too small");
-		}
-		resbytes[read] = '\0';
-		res->time_finished_reading = time.now();
-		res->total_received = read;
-		net.close(conn);
 		http.response_t r = {};
-		reader.t *re = reader.string(resbytes);
+		reader.t *re = net.getreader(conn);
 		if (!http.parse_response(re, &r)) {
 			panic("failed to parse http response");
 		}
+		res->time_finished_reading = time.now();
+		res->total_received = re->pos;
 		reader.free(re);
+		net.close(conn);
 		res->status = r.status;
 		print_result(res);
 
-- 
2.43.0


From 15c4207b2d4134607516528f3c47582c76457537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:10:41 +0000
Subject: [PATCH 093/218] fix: race for the debug settings between exab's
 threads

---
 prog/exab/exab.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prog/exab/exab.c b/prog/exab/exab.c
index c4ebccc..f50d924 100644
--- a/prog/exab/exab.c
+++ b/prog/exab/exab.c
@@ -77,6 +77,9 @@ int main(int argc, char *argv[]) {
 	threads.thr_t **tt = calloc!(concurrency, sizeof(threads.thr_t *));
 	worker_arg_t *aa = calloc!(concurrency, sizeof(worker_arg_t));
 
+	// The first debug call reads the settings, so it must come before the threads.
+	dbg.m(DBG_TAG, "starting %zu threads", concurrency);
+
 	print_result_header();
 	for (size_t i = 0; i < concurrency; i++) {
 		aa[i].id = i;
-- 
2.43.0


From 292d5e8e268ec44ef0f9d4c208b87852da382651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:55 +0000
Subject: [PATCH 094/218] fix: close the socket when connecting or listening
 fails

---
 lib/os/net.c | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/lib/os/net.c b/lib/os/net.c
index 451e605..1bf92f2 100644
--- a/lib/os/net.c
+++ b/lib/os/net.c
@@ -92,7 +92,7 @@ pub net_t *connect(const char *proto, const char *addr) {
 	net_t *c = newconn(proto, addr);
 	if (!c) return NULL;
 	if (OS.connect(c->fd, &(c->ai_addr), c->addrlen) < 0) {
-		free(c);
+		discard(c);
 		return NULL;
 	}
 	return c;
@@ -108,7 +108,7 @@ pub net_t *connect_nonblock(const char *proto, *addr) {
 	if (OS.fcntl(c->fd, OS.F_SETFL, flags | OS.O_NONBLOCK) < 0) panic("fcntl failed");
 	if (OS.connect(c->fd, &(c->ai_addr), c->addrlen) < 0) {
 		if (errno == OS.EINPROGRESS) return c;
-		free(c);
+		discard(c);
 		return NULL;
 	}
 	return c;
@@ -134,18 +134,18 @@ pub net_t *net_listen(const char *proto, const char *addr) {
 	int yes = 1;
 	if (OS.setsockopt(c->fd, OS.SOL_SOCKET, OS.SO_REUSEADDR, &yes, sizeof(int)) != 0) {
 		error = "setsockopt failed";
-		free(c);
+		discard(c);
 		return NULL;
 	}
 	if (OS.bind(c->fd, &(c->ai_addr), c->addrlen) != 0) {
 		error = "bind failed";
-		free(c);
+		discard(c);
 		return NULL;
 	}
 	int backlog = 16;
 	if (OS.listen(c->fd, backlog) != 0) {
 		error = "listen failed";
-		free(c);
+		discard(c);
 		return NULL;
 	}
 	return c;
@@ -170,6 +170,13 @@ pub net_t *net_accept(net_t *l) {
 	return newconn;
 }
 
+// Closes the connection after a failure, keeping the failure's errno.
+void discard(net_t *c) {
+	int e = errno;
+	close(c);
+	errno = e;
+}
+
 // Closes connection c.
 pub void close(net_t *c) {
 	OS.close(c->fd);
-- 
2.43.0


From 50e26eef0a85d1d25660cdbf903d79cc398eb712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:20:55 +0000
Subject: [PATCH 095/218] fix: don't cut sizes of big files to 32 bits

---
 lib/os/fs.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/os/fs.c b/lib/os/fs.c
index 8c41a76..c32f820 100644
--- a/lib/os/fs.c
+++ b/lib/os/fs.c
@@ -151,10 +151,14 @@ pub char *readfile_str(const char *path) {
 }
 
 bool fsize(FILE *f, size_t *s) {
+	// Directories can be opened, but have no size.
+	if (fgetc(f) == EOF && ferror(f)) {
+		return false;
+	}
 	if (fseek(f, 0, SEEK_END) != 0) {
 		return false;
 	}
-	int32_t size = ftell(f);
+	int64_t size = ftell(f);
 	if (size < 0) {
 		return false;
 	}
-- 
2.43.0


From 338aaa1f6fc8e4ef79ec7bd1f7ff3beddb8d487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:21 +0000
Subject: [PATCH 096/218] fix: don't repeat buffered output in forked processes

---
 lib/os/proc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/os/proc.c b/lib/os/proc.c
index 57e3925..c260e4a 100644
--- a/lib/os/proc.c
+++ b/lib/os/proc.c
@@ -41,6 +41,8 @@ pub proc_t *spawn(char *argv[], *env[]) {
         return NULL;
     }
 
+    // Otherwise the child gets a copy of what is waiting in the buffers.
+    fflush(NULL);
     int pid = OS.fork();
     if (pid < 0) {
         OS.close(in[0]); OS.close(in[1]);
@@ -140,6 +142,7 @@ pub void parallel(workerfunc_t f, void **jobs) {
 }
 
 void spawnp(workerfunc_t f, void *job) {
+    fflush(NULL);
     int pid = OS.fork();
     if (pid < 0) panic("fork failed");
     if (pid > 0) return;
-- 
2.43.0


From 6514ab68e59bf763dad56ae1e642ecfef17a67a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:05 +0000
Subject: [PATCH 097/218] fix: pad milliseconds in subtitle timestamps

---
 lib/time.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/time.c b/lib/time.c
index 509a495..960d304 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -125,7 +125,7 @@ pub bool dur_fmt(duration_t *d, char *buf, size_t bufsize, const char *fmt) {
 			len = snprintf(buf, bufsize, "%02d:%02d.%03d", mm, ss, ms);
 		}
 		case "hh:mm:ss,ms": {
-			len = snprintf(buf, bufsize, "%02d:%02d:%02d,%d", pp.h, pp.m, pp.s, pp.ms);
+			len = snprintf(buf, bufsize, "%02d:%02d:%02d,%03d", pp.h, pp.m, pp.s, pp.ms);
 		}
 		case "[h]:mm:ss.mmm": {
 			int ms = pp.ms;
-- 
2.43.0


From b4e558c72fcee68043cec8ecac3e736b8f537d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:05 +0000
Subject: [PATCH 098/218] fix: parsing of durations with hours, over 35 minutes
 or with fractions

---
 lib/time.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index 960d304..34026b9 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -176,7 +176,8 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 
 	int64_t us = 0;
 	switch (numslen) {
-		case 2: { us = (nums[0] * 60 + nums[1]) * SECONDS; }
+		case 2: { us = ((int64_t) nums[0] * 60 + nums[1]) * SECONDS; }
+		case 3: { us = (((int64_t) nums[0] * 60 + nums[1]) * 60 + nums[2]) * SECONDS; }
 		default: {
 			error.set(err, "unhandled format: %s", s);
 			return false;
@@ -186,23 +187,12 @@ pub bool parse_duration(const char *s, duration_t *d, error.t *err) {
 	// Maybe sub-second fraction.
 	if (*p == '.') {
 		p++;
-		int32_t digits = 0;
-		int32_t fracsize = 1;
-		int32_t val = 0;
+		int digit = SECONDS / 10;
 		while (isdigit(*p)) {
-			// Prevent overflow.
-			if (digits > 6) {
-				p++;
-				continue;
-			}
-			digits++;
-			fracsize *= 10;
-			val *= 10;
-			val += (int) *p - (int) '0';
+			us += ((int) *p - (int) '0') * digit;
+			digit /= 10;
 			p++;
 		}
-		int64_t diff = (double)SECONDS * ((double)val / (double)fracsize);
-		us += diff;
 	}
 
     d->us = us;
-- 
2.43.0


From df5ee9f4a11a2792a0ba7a9c12322417186f49a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:05 +0000
Subject: [PATCH 099/218] fix: fractions of a second in ISO times

---
 lib/time.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/time.c b/lib/time.c
index 34026b9..c67b4f0 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -260,7 +260,12 @@ pub iso_t parse_iso(const char *p) {
 	q = readint(q, &r.s);
 	if (*q == '.') {
 		q++;
-		q = readint(q, &r.ms);
+		int digit = 100;
+		while (isdigit(*q)) {
+			r.ms += ((int) *q - (int) '0') * digit;
+			digit /= 10;
+			q++;
+		}
 	}
 
 	// "Z" or "+02:00"
-- 
2.43.0


From c98f6e67156c45d5dc22d7ad3284b8b8f988688c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:05 +0000
Subject: [PATCH 100/218] fix: ISO times with negative time zones

---
 lib/time.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/time.c b/lib/time.c
index c67b4f0..14d49c3 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -276,6 +276,13 @@ pub iso_t parse_iso(const char *p) {
 		q = readint(q, &r.zh);
 		if (*q++ != ':') panic(": expected");
 		q = readint(q, &r.zm);
+	} else if (*q == '-') {
+		q++;
+		q = readint(q, &r.zh);
+		if (*q++ != ':') panic(": expected");
+		q = readint(q, &r.zm);
+		r.zh = -r.zh;
+		r.zm = -r.zm;
 	} else {
 		panic("trailing input");
 	}
-- 
2.43.0


From 443a6421655bb81dc581512b6f57bf678392d83b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:05 +0000
Subject: [PATCH 101/218] fix: difference of times in zones and over clock
 changes

---
 lib/time.c | 35 ++++++++++++++---------------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index 14d49c3..d8ffc68 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -289,31 +289,24 @@ pub iso_t parse_iso(const char *p) {
 	return r;
 }
 
-tm_t totm(iso_t r) {
-	tm_t tm = {
-		.tm_sec = r.s, // 0-60 (60 for the leap second)
-		.tm_min = r.m, // 0-59
-		.tm_hour = r.h, // 0-23
-		.tm_mday = r.D, // 1-31
-		.tm_mon = r.M - 1, // 0-11
-		.tm_year = r.Y - 1900, // years since 1900
-		.tm_wday = -1, // 0-6
-		.tm_yday = -1, // 0..365
-		.tm_isdst = -1, // daylight saving; -1 = don't know
-	};
-	return tm;
+// Returns the unix time for r.
+int64_t tounix(iso_t r) {
+	// Count years from March, so that the leap day is the last one.
+	int64_t y = r.Y;
+	int64_t m = r.M - 3;
+	if (m < 0) {
+		m += 12;
+		y -= 1;
+	}
+	int64_t days = y * 365 + y / 4 - y / 100 + y / 400 + (m * 153 + 2) / 5 + r.D - 719469;
+	int64_t mins = (days * 24 + r.h - r.zh) * 60 + r.m - r.zm;
+	return mins * 60 + r.s;
 }
 
 // Returns the difference a-b in milliseconds.
 pub int64_t sub(iso_t a, b) {
-	tm_t tm = totm(a);
-	time_t au = OS.mktime(&tm);
-	int64_t ms1 = ((int64_t) au) * 1000 + a.ms;
-
-	tm = totm(b);
-	time_t bu = OS.mktime(&tm);
-	int64_t ms2 = ((int64_t) bu) * 1000 + b.ms;
-
+	int64_t ms1 = tounix(a) * 1000 + a.ms;
+	int64_t ms2 = tounix(b) * 1000 + b.ms;
 	return ms1 - ms2;
 }
 
-- 
2.43.0


From fe99290af8f63d5618f46b678fb6a4faf4493858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:05 +0000
Subject: [PATCH 102/218] fix: conversion of times to the local time zone

---
 lib/time.c | 44 ++++++++++++--------------------------------
 1 file changed, 12 insertions(+), 32 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index d8ffc68..92b316b 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -47,26 +47,6 @@ pub duration_t dur_add(duration_t a, b) {
 	return r;
 }
 
-int tzoffset() {
-	tm_t *x = NULL;
-	time_t n = time(NULL);
-
-	x = OS.localtime(&n);
-	int mins = x->tm_hour * 60 + x->tm_min;
-	x = OS.gmtime(&n);
-	mins -= (x->tm_hour * 60 + x->tm_min);
-
-	// Possible diff range is -12:45 .. +14:45.
-	int min = -(12*60 + 45);
-	int max = 14*60+45;
-	if (mins < min) {
-		mins += 24 * 60;
-	} else if (mins > max) {
-		mins -= 24 * 60;
-	}
-	return mins;
-}
-
 pub void dur_set(duration_t *d, int64_t val, int unit) {
 	d->us = val * unit;
 }
@@ -316,18 +296,18 @@ pub bool fmt_iso_iso(iso_t val, char *buf, size_t bufsize) {
 }
 
 pub void iso_tolocal(iso_t *val) {
-	if (val->zh != 0 || val->zm != 0) {
-		panic("unhandled: non-utc iso");
-	}
-	val->m += tzoffset();
-	while (val->m > 60) {
-		val->m -= 60;
-		val->h += 1;
-	}
-	// while (val->h > 23) {
-	// 	val->D += 1;
-	// 	val->h -= 23;
-	// }
+	time_t s = tounix(*val);
+	tm_t tm = {};
+	OS.tzset();
+	OS.localtime_r(&s, &tm);
+	val->Y = tm.tm_year + 1900;
+	val->M = tm.tm_mon + 1;
+	val->D = tm.tm_mday;
+	val->h = tm.tm_hour;
+	val->m = tm.tm_min;
+	val->s = tm.tm_sec;
+	val->zh = 0;
+	val->zm = 0;
 }
 
 
-- 
2.43.0


From 4dc65fe35d49f760c505120dd3935090f71d0fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:42:05 +0000
Subject: [PATCH 103/218] fix: formatting of times in zones and into small
 buffers

---
 lib/time.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/time.c b/lib/time.c
index 92b316b..d7caed0 100644
--- a/lib/time.c
+++ b/lib/time.c
@@ -291,8 +291,14 @@ pub int64_t sub(iso_t a, b) {
 }
 
 pub bool fmt_iso_iso(iso_t val, char *buf, size_t bufsize) {
-	snprintf(buf, bufsize, "%d-%02d-%02dT%02d:%02d:%02d.%03dZ", val.Y, val.M, val.D, val.h, val.m, val.s, val.ms);
-	return true;
+	char zone[30] = "Z";
+	if (val.zh != 0 || val.zm != 0) {
+		char sign = '+';
+		if (val.zh < 0 || val.zm < 0) sign = '-';
+		snprintf(zone, sizeof(zone), "%c%02d:%02d", sign, OS.abs(val.zh), OS.abs(val.zm));
+	}
+	int len = snprintf(buf, bufsize, "%d-%02d-%02dT%02d:%02d:%02d.%03d%s", val.Y, val.M, val.D, val.h, val.m, val.s, val.ms, zone);
+	return (size_t) len + 1 <= bufsize;
 }
 
 pub void iso_tolocal(iso_t *val) {
-- 
2.43.0


From 30c352ade98414a844f42d3bd4cb86e0630ca329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 104/218] fix: overflows with long lines of srt files

---
 lib/formats/srt.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/formats/srt.c b/lib/formats/srt.c
index 30cd902..9e33f2e 100644
--- a/lib/formats/srt.c
+++ b/lib/formats/srt.c
@@ -26,6 +26,9 @@ pub bool readblock(reader_t *r, block_t *b) {
 	b->index = parse_num(r->linebuf);
 	loadline(r);
 
+	if (strlen(r->linebuf) >= sizeof(b->range)) {
+		panic("range buffer is too small");
+	}
 	strcpy(b->range, r->linebuf);
 	loadline(r);
 
@@ -48,7 +51,7 @@ pub bool readblock(reader_t *r, block_t *b) {
 	// 00:01:32,320 --> 00:01:33,160
 	char sbegin[20] = {};
 	char send[20] = {};
-	sscanf(b->range, "%s --> %s", sbegin, send);	
+	sscanf(b->range, "%19s --> %19s", sbegin, send);	
 	b->begin = parsepos(sbegin);
 	b->end = parsepos(send);
 	return true;
@@ -91,6 +94,9 @@ bool loadline(reader_t *r) {
 		int c = fgetc(stdin);
 		if (c == EOF) break;
 		if (c == '\r') continue;
+		if (p + 2 > (char *) r->linebuf + sizeof(r->linebuf)) {
+			panic("line buffer is too small");
+		}
 		*p++ = c;
 		if (c == '\n') break;
 	}
-- 
2.43.0


From c471347902b41aa77c64fceb05d79deac1f0cbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 105/218] fix: subtitles with lines of digits

---
 lib/formats/srt.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/formats/srt.c b/lib/formats/srt.c
index 9e33f2e..5ea499f 100644
--- a/lib/formats/srt.c
+++ b/lib/formats/srt.c
@@ -33,8 +33,11 @@ pub bool readblock(reader_t *r, block_t *b) {
 	loadline(r);
 
 	b->text[0] = '\0';
+	bool blank = false;
 	while (true) {
-		if (parse_num(r->linebuf)) break;
+		// The next block's number comes after an empty line.
+		if (blank && parse_num(r->linebuf)) break;
+		blank = r->linebuf[0] == '\n';
 		if (strlen(b->text) + strlen(r->linebuf) >= sizeof(b->text)) {
 			panic("text buffer is too small");
 		}
-- 
2.43.0


From e9a8083ea79b89d59c6d253cc27569718460ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 106/218] fix: empty srt files

---
 lib/formats/srt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/formats/srt.c b/lib/formats/srt.c
index 5ea499f..304ab51 100644
--- a/lib/formats/srt.c
+++ b/lib/formats/srt.c
@@ -19,7 +19,7 @@ pub bool readblock(reader_t *r, block_t *b) {
 		return false;
 	}
 	if (!r->line_loaded) {
-		loadline(r);
+		if (!loadline(r)) return false;
 		r->line_loaded = true;
 	}
 
-- 
2.43.0


From 0749c1c5ba03be9557213021752375714117337a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 107/218] fix: overflow with long vtt lines

---
 lib/formats/vtt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/formats/vtt.c b/lib/formats/vtt.c
index 1727773..a80e102 100644
--- a/lib/formats/vtt.c
+++ b/lib/formats/vtt.c
@@ -82,7 +82,7 @@ pub bool read(reader_t *r) {
 		// Stop at an empty line.
 		if (r->line[0] == '\0') break;
 
-		if (strlen(r->text) + strlen(r->line) + 2 > r->textcap) {
+		while (strlen(r->text) + strlen(r->line) + 2 > r->textcap) {
 			r->textcap *= 2;
 			r->text = realloc(r->text, r->textcap);
 			if (!r->text) panic("realloc failed");
-- 
2.43.0


From 2aa4e0b05455b716f6039843486cff5e4c33af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 108/218] fix: last vtt subtitle without an empty line after it

---
 lib/formats/vtt.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/formats/vtt.c b/lib/formats/vtt.c
index a80e102..58e56ff 100644
--- a/lib/formats/vtt.c
+++ b/lib/formats/vtt.c
@@ -77,7 +77,7 @@ pub bool read(reader_t *r) {
 	// Text lines
 	if (r->text) r->text[0] = '\0';
 	while (true) {
-		if (!loadline(r)) return false;
+		if (!loadline(r)) break;
 
 		// Stop at an empty line.
 		if (r->line[0] == '\0') break;
-- 
2.43.0


From 64ab8900ca221f446347877f7c52477a9aa11cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 109/218] fix: frames in cue positions

---
 lib/formats/cue.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/formats/cue.c b/lib/formats/cue.c
index c26fcee..550060c 100644
--- a/lib/formats/cue.c
+++ b/lib/formats/cue.c
@@ -211,9 +211,10 @@ void index(tokenizer.t *b, index_t *r) {
 }
 
 time.duration_t index_pos(index_t *r) {
-	int sec = (r->frames / 75) + (r->sec ) + (60 * r->min);
+	int64_t sec = (r->sec ) + (60 * r->min);
 	time.duration_t p = {};
-	time.dur_set(&p, sec, time.SECONDS);
+	// A frame is 1/75 of a second.
+	time.dur_set(&p, sec * time.SECONDS + (int64_t) r->frames * time.SECONDS / 75, time.US);
 	return p;
 }
 
-- 
2.43.0


From dd2c6cc0634a0ec3bf6c7a777e28a5756871348d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:08 +0000
Subject: [PATCH 110/218] fix: overflow with long index lines in cue sheets

---
 lib/formats/cue.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/formats/cue.c b/lib/formats/cue.c
index 550060c..606d4bb 100644
--- a/lib/formats/cue.c
+++ b/lib/formats/cue.c
@@ -193,6 +193,7 @@ void index(tokenizer.t *b, index_t *r) {
 	int i = 0;
 	while (tokenizer.more(b)) {
 		int ch = tokenizer.get(b);
+		if (i == 299) panic("index line is too long");
 		val[i++] = ch;
 		if(ch == '\n') break;
 	}
-- 
2.43.0


From c7cbeb5b5185f8570ffb4d659c4cd3c28d70f34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:49 +0000
Subject: [PATCH 111/218] fix: empty lines in cue sheets

---
 lib/formats/cue.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/formats/cue.c b/lib/formats/cue.c
index 606d4bb..4d5d336 100644
--- a/lib/formats/cue.c
+++ b/lib/formats/cue.c
@@ -115,10 +115,10 @@ typedef {
 
 
 bool readentry(tokenizer.t *b, entry_t *e) {
+	tokenizer.spaces(b);
 	if (!tokenizer.more(b)) {
 		return false;
 	}
-	tokenizer.hspaces(b);
 	tokenizer.read_until(b, ' ', e->type, sizeof(e->type));
 	tokenizer.hspaces(b);
 
-- 
2.43.0


From 10b1adbed21089edebfc9d8854e7fc9c4283f75c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:27 +0000
Subject: [PATCH 112/218] fix: overflows with big numbers in srt files

---
 lib/formats/srt.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/formats/srt.c b/lib/formats/srt.c
index 304ab51..d5b58ce 100644
--- a/lib/formats/srt.c
+++ b/lib/formats/srt.c
@@ -70,7 +70,7 @@ pub time.duration_t parsepos(const char *buf) {
 		panic("failed to parse timestamp");
 	}
 
-	int val = h;
+	int64_t val = h;
 	val *= 60; // m
 	val += m;
 	val *= 60; // s
@@ -114,6 +114,8 @@ int parse_num(char *s) {
 	int n = 0;
 	char *p = s;
 	while (isdigit(*p)) {
+		// Too big for a block number.
+		if (n >= 100000000) return 0;
 		n *= 10;
 		n += strings.num_from_ascii(*p);
 		p++;
-- 
2.43.0


From cd15b9f437efc79a1a87b6411af0d3ebd17f2da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 113/218] fix: blending of colors

---
 lib/image.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/image.c b/lib/image.c
index 046a20e..cb45ca5 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -74,7 +74,7 @@ pub void blend(image_t *img, int x, y, rgba_t color, float opacity) {
 }
 
 int blendcolor(int old, new, float opacity) {
-	float oldpart = (opacity-1) * (float) old;
+	float oldpart = (1 - opacity) * (float) old;
 	float newpart = opacity * (float) new;
 	return oldpart + newpart;
 }
-- 
2.43.0


From 7b3f26e1418de1a5ce3e1b6247126157e49fbb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 114/218] fix: lightness of colors made from hsl

---
 lib/image.c | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/image.c b/lib/image.c
index cb45ca5..3473bda 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -174,10 +174,11 @@ pub rgba_t from_hsl(float h, s, l) {
 	} else if (h1 <= 6) {
 		red = c; green = 0; blue = x;
 	}
+	float m = l - c / 2;
 	rgba_t color = {
-		.red = (int) (255.0 * red),
-		.green = (int) (255.0 * green),
-		.blue = (int) (255.0 * blue),
+		.red = (int) (255.0 * (red + m)),
+		.green = (int) (255.0 * (green + m)),
+		.blue = (int) (255.0 * (blue + m)),
 		.transparency = 0,
 	};
 	return color;
-- 
2.43.0


From ff134fd60a272802798dedbc9c27c94d810a0b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 115/218] fix: division by zero with narrow test images

---
 lib/image.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/image.c b/lib/image.c
index 3473bda..6455082 100644
--- a/lib/image.c
+++ b/lib/image.c
@@ -255,6 +255,7 @@ pub void testimage(image_t *img) {
 		{0, 0, 255, 0}, // Blue
 	};
 	int w = img->width / nelem(seq);
+	if (w == 0) w = 1;
 	for (int y = 0; y < img->height; y++) {
 		for (int x = 0; x < img->width; x++) {
 			int i = (x / w) % nelem(seq);
-- 
2.43.0


From ea74004d40d6ff81407c7ac2bb2bb06c91a6ff01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 116/218] fix: order of colors in ppm files

---
 lib/formats/ppm.c | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/formats/ppm.c b/lib/formats/ppm.c
index b97700c..66a64c3 100644
--- a/lib/formats/ppm.c
+++ b/lib/formats/ppm.c
@@ -4,15 +4,11 @@
 
 pub void writeimg(image.image_t *img, FILE *f) {
 	fprintf(f, "P6\n%d %d\n255\n", img->width, img->height);
-	uint32_t buf = 0;
 	for (int y = 0; y < img->height; y++) {
 		for (int x = 0; x < img->width; x++) {
 			image.rgba_t c0 = image.get(img, x, y);
-			uint32_t ir = c0.red;
-			uint32_t ig = c0.green;
-			uint32_t ib = c0.blue;
-			buf = (ir << 16) | (ig << 8) | ib;
-			fwrite(&buf, 3, 1, f);
+			uint8_t buf[3] = {c0.red, c0.green, c0.blue};
+			fwrite(buf, 3, 1, f);
 		}
 	}
 }
-- 
2.43.0


From 30584e90be6896be82d34d687eb5971ae7e60f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 117/218] fix: normalization of silent clips

---
 lib/sound.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sound.c b/lib/sound.c
index 0ed129e..0e645e9 100644
--- a/lib/sound.c
+++ b/lib/sound.c
@@ -42,6 +42,7 @@ pub void normalize(clip_t *c, double level) {
 		if (fabs(s->left) > max) max = fabs(s->left);
 		if (fabs(s->right) > max) max = fabs(s->right);
 	}
+	if (max == 0) return;
 	double k = level / max;
 	for (size_t i = 0; i < c->nsamples; i++) {
 		samplef_t *s = &c->samples[i];
-- 
2.43.0


From 59cc7285c3f568d406ef2aab497ee0854041e599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 118/218] fix: reading after the end of the clip when
 stretching it

---
 lib/sound.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/sound.c b/lib/sound.c
index 0e645e9..b5fccfc 100644
--- a/lib/sound.c
+++ b/lib/sound.c
@@ -78,7 +78,11 @@ pub clip_t *transpose(clip_t *c, float r) {
 		samplef_t *s = &c->samples[t0_int];
 		double left = s->left * a;
 		double right = s->right * a;
-		if (b > 0) {
+		if (t0_int + 1 == c->nsamples) {
+			// The last sample has nothing to be mixed with.
+			left = s->left;
+			right = s->right;
+		} else if (b > 0) {
 			s = &c->samples[t0_int+1];
 			left += s->left * b;
 			right += s->right * b;
-- 
2.43.0


From 5c8f5ba5045787a7c4845a9f7dd0a3eec7299ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 119/218] fix: don't use uninitialized bytes when the data ends

---
 lib/enc/endian.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/enc/endian.c b/lib/enc/endian.c
index ede160b..74eb470 100644
--- a/lib/enc/endian.c
+++ b/lib/enc/endian.c
@@ -28,7 +28,7 @@ pub bool read2be(reader.t *r, uint16_t *v) {
 // Reads a little-endian 24-bit value from the reader r.
 // Returns the number of bytes read (3) or one of the error values.
 pub int read3le(reader.t *r, uint32_t *v) {
-	uint8_t buf[3];
+	uint8_t buf[3] = {};
 	int n = reader.read(r, buf, 3);
 	uint32_t x = 0;
 	x = x * 256 + buf[2];
@@ -41,7 +41,7 @@ pub int read3le(reader.t *r, uint32_t *v) {
 // Reads a big-endian uint32 from the reader r.
 // Returns the number of bytes read (4) or one of the error values.
 pub int read4be(reader.t *r, uint32_t *v) {
-	uint8_t buf[4];
+	uint8_t buf[4] = {};
 	int n = reader.read(r, buf, 4);
 	uint32_t x = 0;
 	x = x * 256 + buf[0];
@@ -55,7 +55,7 @@ pub int read4be(reader.t *r, uint32_t *v) {
 // Reads a little-endian uint32 from the reader r.
 // Returns the number of bytes read or one of the error values.
 pub int read4le(reader.t *r, uint32_t *v) {
-	uint8_t buf[4];
+	uint8_t buf[4] = {};
 	int n = reader.read(r, buf, 4);
 	uint32_t x = 0;
 	x = x * 256 + buf[3];
-- 
2.43.0


From 4bb658258b21d2a97d5e7f9d675a6e8e93a61d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 120/218] fix: reading of wav streams without a known length

---
 lib/formats/wav.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/formats/wav.c b/lib/formats/wav.c
index 7ab45d3..8749f3d 100644
--- a/lib/formats/wav.c
+++ b/lib/formats/wav.c
@@ -207,7 +207,12 @@ void write_fmt(writer.t *bw, wav_t fmt) {
 }
 
 pub bool more(reader_t *r) {
-	return r->done < r->datalen;
+	if (r->done >= r->datalen) return false;
+	// The data may also end before that, streams don't know their length.
+	int c = fgetc(r->file);
+	if (c == EOF) return false;
+	ungetc(c, r->file);
+	return true;
 }
 
 int read_sample0(reader_t *r) {
-- 
2.43.0


From 08fe65a17048f07c3488d2001907b71d93d3b3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 121/218] fix: overflow with long or broken wav info blocks

---
 lib/formats/wav.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/formats/wav.c b/lib/formats/wav.c
index 8749f3d..7824af6 100644
--- a/lib/formats/wav.c
+++ b/lib/formats/wav.c
@@ -286,8 +286,6 @@ pub void close_reader(reader_t *r) {
 }
 
 bool readinfo(reader.t *r) {
-	char tmp[1000];
-
 	// List length in bytes.
     uint32_t listlen = 0;
     endian.read4le(r, &listlen);
@@ -298,7 +296,7 @@ bool readinfo(reader.t *r) {
 	}
     listlen -= 4;
 
-    while (listlen > 0) {
+    while (listlen >= 8) {
 		// Read 4-byte entry name.
         char key[5] = {};
         reader.read(r, (uint8_t*)key, 4);
@@ -309,18 +307,20 @@ bool readinfo(reader.t *r) {
         endian.read4le(r, &infolen);
         listlen -= 4;
 
-        reader.read(r, (uint8_t*)tmp, infolen);
-        tmp[infolen] = '\0';
-        // printf("# %s = %s\n", key, tmp);
+		if (infolen > listlen) {
+			return false;
+		}
+		reader.skip(r, infolen);
         listlen -= infolen;
 
 		// Wav postulates 2-byte chunk boundaries, so skip a trailing byte
 		// for odd chunks.
         if (infolen % 2 != 0) {
-            reader.read(r, (uint8_t*)tmp, 1);
-            listlen -= 1;
+            reader.skip(r, 1);
+            if (listlen > 0) listlen -= 1;
         }
     }
+	reader.skip(r, listlen);
     return true;
 }
 
-- 
2.43.0


From 74952fa7a0a2fe95b6a9245b4f63402afc3c5a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:01 +0000
Subject: [PATCH 122/218] fix: durations in wavcue

---
 prog/wavcue/wavcue.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/prog/wavcue/wavcue.c b/prog/wavcue/wavcue.c
index 31a99e9..5b08130 100644
--- a/prog/wavcue/wavcue.c
+++ b/prog/wavcue/wavcue.c
@@ -5,7 +5,7 @@
 
 typedef {
     bool loud;
-	int64_t duration; // ns
+	double duration; // seconds
 } range_t;
 
 float SILENCE_LEVEL = 37; // db
@@ -94,7 +94,7 @@ bool next(bool x) {
 double consume() {
 	range_t r = _val;
 	loaded = false;
-	return ((double) r.duration) / 1000/1000/1000;
+	return r.duration;
 }
 
 range_t readval() {
@@ -107,7 +107,7 @@ range_t readval() {
     double db = 20.0 * log10(rms);
 	range_t res = {};
 	res.loud = db >= -SILENCE_LEVEL;
-	res.duration = 1000 * 1000 * 1000 / 44100;
+	res.duration = 1.0 / (double) r->wav.frequency;
 	return res;
 }
 
-- 
2.43.0


From e247acca86e878ab700643f07d375849c7437e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:48 +0000
Subject: [PATCH 123/218] fix: read outside of the table with bad mp3 bitrates

---
 lib/formats/mp3.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/formats/mp3.c b/lib/formats/mp3.c
index eb08de0..d412244 100644
--- a/lib/formats/mp3.c
+++ b/lib/formats/mp3.c
@@ -221,6 +221,9 @@ bool readheader(bits.reader_t *s, header_t *h) {
 
 	// 4 bits: bitrate
 	int index = bits.readn(s, 4);
+	if (index < 1 || (size_t)index >= nelem(bitrates)) {
+		return false;
+	}
 	h->bitrate = bitrates[index];
 
 	// 2: freq
-- 
2.43.0


From fc64f847bed8c108c14b9b1ec53593d8a5257016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:48 +0000
Subject: [PATCH 124/218] fix: drift of the time in mp3 files

---
 lib/formats/mp3.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/formats/mp3.c b/lib/formats/mp3.c
index d412244..cccb7bd 100644
--- a/lib/formats/mp3.c
+++ b/lib/formats/mp3.c
@@ -32,6 +32,7 @@ pub typedef {
 pub typedef {
 	FILE *file; // The file being read from.
 	size_t time; // Current time position in microseconds.
+	size_t nframes; // Number of frames in that time.
 	header_t h; // Currently loaded frame header.
 	size_t framelen; // Length of the loaded frame in bytes, including the header.
 	uint8_t frame[1100]; // The loaded frame with the header.
@@ -73,6 +74,7 @@ pub reader_t *open_reader(const char *path, err_t *err) {
 	// Skip the first frame if it's an info frame.
 	if (info_frame(m)) {
 		m->time = 0;
+		m->nframes = 0;
 		m->infoframelen = m->framelen;
 		memcpy(m->infoframe, m->frame, m->framelen);
 		readframe(m);
@@ -177,7 +179,8 @@ bool readframe(reader_t *f) {
 		f->frame[i] = (uint8_t) c;
 	}
 	f->framelen = len;
-	f->time += frame_samples * 1000000 / h->freq;
+	f->nframes++;
+	f->time = f->nframes * frame_samples * 1000000 / h->freq;
 	return true;
 }
 
-- 
2.43.0


From 21b84d576f11550ea5920b6c8539761c4e463a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:48 +0000
Subject: [PATCH 125/218] fix: repeated frames in tracks after the end of the
 mp3

---
 lib/formats/mp3.c          | 2 ++
 prog/mp3cuespl/mp3cuespl.c | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/formats/mp3.c b/lib/formats/mp3.c
index cccb7bd..d36a02a 100644
--- a/lib/formats/mp3.c
+++ b/lib/formats/mp3.c
@@ -133,6 +133,8 @@ pub bool nextframe(reader_t *f) {
 		if (!feof(f->file)) {
 			panic("stream error");
 		}
+		// There is no frame to write anymore.
+		f->framelen = 0;
 		return false;
 	}
 	return true;
diff --git a/prog/mp3cuespl/mp3cuespl.c b/prog/mp3cuespl/mp3cuespl.c
index 03272ef..36959e1 100644
--- a/prog/mp3cuespl/mp3cuespl.c
+++ b/prog/mp3cuespl/mp3cuespl.c
@@ -141,7 +141,7 @@ void write_track(mp3.reader_t *m, const char *fname, size_t pos_us) {
 	// in an array.
 	vec.t *frame_offsets = vec.new(sizeof(uint32_t));
 
-	while (m->time < pos_us) {
+	while (m->framelen > 0 && m->time < pos_us) {
 		vec.push(frame_offsets, &bytes);
 		mp3.write_frame(m, out);
 		frames++;
-- 
2.43.0


From 69e6fbb8b3fccd07c3e4ed27fd332dd8bf0d3aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:48 +0000
Subject: [PATCH 126/218] fix: tracks without frames in mp3s with an info frame

---
 prog/mp3cuespl/mp3cuespl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/mp3cuespl/mp3cuespl.c b/prog/mp3cuespl/mp3cuespl.c
index 36959e1..a42c14e 100644
--- a/prog/mp3cuespl/mp3cuespl.c
+++ b/prog/mp3cuespl/mp3cuespl.c
@@ -155,7 +155,7 @@ void write_track(mp3.reader_t *m, const char *fname, size_t pos_us) {
 	if (m->infoframelen > 0) {
 		size_t n = vec.len(frame_offsets);
 		uint8_t toc[100] = {};
-		for (size_t i = 0; i < 100; i++) {
+		for (size_t i = 0; i < 100 && n > 0; i++) {
 			size_t s = n * i / 100;
 			uint32_t *off = vec.index(frame_offsets, s);
 			toc[i] = *off * 255 / bytes;
-- 
2.43.0


From 76d69a96f06fb3eb9bdfe6ca709d54748f593230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:48 +0000
Subject: [PATCH 127/218] fix: position of the info header in mono mp3s

---
 lib/formats/mp3.c          | 15 +++++++++------
 prog/mp3cuespl/mp3cuespl.c |  2 +-
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/lib/formats/mp3.c b/lib/formats/mp3.c
index d36a02a..41a78b5 100644
--- a/lib/formats/mp3.c
+++ b/lib/formats/mp3.c
@@ -95,12 +95,7 @@ bool info_frame(reader_t *r) {
 	// ??: xing metadata
 	// ??: padding
 
-	int sideinfo_size = 32;
-	if (r->h.mode == 3) {
-		sideinfo_size = 17;
-	}
-
-	uint8_t *p = r->frame + 4 + sideinfo_size;
+	uint8_t *p = r->frame + 4 + sideinfo_size(r);
 	reader.t *br = reader.static_buffer(p, 123123);
 
 	xing_header_t xing = {};
@@ -116,6 +111,14 @@ bool info_frame(reader_t *r) {
 	return ok;
 }
 
+// Returns the size of side info in the reader's current frame, in bytes.
+pub int sideinfo_size(reader_t *r) {
+	if (r->h.mode == 3) {
+		return 17;
+	}
+	return 32;
+}
+
 // Returns bitrate of the reader's current frame, in kbps.
 pub int bitrate(reader_t *r) {
 	return r->h.bitrate;
diff --git a/prog/mp3cuespl/mp3cuespl.c b/prog/mp3cuespl/mp3cuespl.c
index a42c14e..45f6382 100644
--- a/prog/mp3cuespl/mp3cuespl.c
+++ b/prog/mp3cuespl/mp3cuespl.c
@@ -161,7 +161,7 @@ void write_track(mp3.reader_t *m, const char *fname, size_t pos_us) {
 			toc[i] = *off * 255 / bytes;
 		}
 		writer.t *w = writer.file(out);
-		fseek(out, 4 + 32, SEEK_SET);
+		fseek(out, 4 + mp3.sideinfo_size(m), SEEK_SET);
 		mp3.write_xing(w, frames, bytes, toc);
 		writer.free(w);
 	}
-- 
2.43.0


From c7d3e94e83f9545c236274fc15c3694ac5448f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:48 +0000
Subject: [PATCH 128/218] fix: overflow of table of contents in big mp3s

---
 prog/mp3cuespl/mp3cuespl.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/mp3cuespl/mp3cuespl.c b/prog/mp3cuespl/mp3cuespl.c
index 45f6382..3118226 100644
--- a/prog/mp3cuespl/mp3cuespl.c
+++ b/prog/mp3cuespl/mp3cuespl.c
@@ -158,7 +158,7 @@ void write_track(mp3.reader_t *m, const char *fname, size_t pos_us) {
 		for (size_t i = 0; i < 100 && n > 0; i++) {
 			size_t s = n * i / 100;
 			uint32_t *off = vec.index(frame_offsets, s);
-			toc[i] = *off * 255 / bytes;
+			toc[i] = (uint64_t) *off * 255 / bytes;
 		}
 		writer.t *w = writer.file(out);
 		fseek(out, 4 + mp3.sideinfo_size(m), SEEK_SET);
-- 
2.43.0


From 2f7c793643cabc4a656802312eb57cd9e88baaae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:13:48 +0000
Subject: [PATCH 129/218] fix: overflows with long tracklists

---
 prog/mp3cuespl/tracklist.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/prog/mp3cuespl/tracklist.c b/prog/mp3cuespl/tracklist.c
index a1b8573..ece0b23 100644
--- a/prog/mp3cuespl/tracklist.c
+++ b/prog/mp3cuespl/tracklist.c
@@ -30,6 +30,9 @@ pub entry_t *readfile(const char *path, int *ret_n) {
 		if (line[0] == '\0') {
 			continue;
 		}
+		if (i == 100) {
+			panic("too many tracks in %s", path);
+		}
 		entry_t *e = &list[i++];
 		parseline(line, e);
 	}
@@ -48,6 +51,9 @@ void parseline(char *line, entry_t *e) {
 	while (i > 0 && !isspace(line[i-1])) {
 		i--;
 	}
+	if (i == 0) {
+		panic("expected a title and a duration: %s", line);
+	}
 	time.duration_t d = {};
 	error.t err = {};
 	if (!time.parse_duration(&line[i], &d, &err)) {
@@ -82,6 +88,9 @@ void parseline(char *line, entry_t *e) {
 	// Copy to the entry
 	//
 	e->num = num;
+	if (strlen(&line[i]) >= sizeof(e->title)) {
+		panic("track title too long");
+	}
 	strcpy(e->title, &line[i]);
 	e->duration_us = time.dur_us(&d);
 }
-- 
2.43.0


From 6edf7a3cf96ccc48c8eab4c60d410b8faa867f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:15:21 +0000
Subject: [PATCH 130/218] fix: don't skip on after the end of data

---
 lib/reader.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/reader.c b/lib/reader.c
index 3480feb..567aa6d 100644
--- a/lib/reader.c
+++ b/lib/reader.c
@@ -30,7 +30,7 @@ pub int read(t *reader, uint8_t *buf, size_t n) {
 pub void skip(t *reader, size_t n) {
 	uint8_t tmp;
 	for (size_t i = 0; i < n; i++) {
-		read(reader, &tmp, 1);
+		if (read(reader, &tmp, 1) < 0) break;
 	}
 }
 
-- 
2.43.0


From 500e49c43f88345255f838a803127013042a7c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 131/218] fix: refuse option values that don't fit or aren't
 numbers

---
 lib/opt.c | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/opt.c b/lib/opt.c
index 711886e..1eec8d3 100644
--- a/lib/opt.c
+++ b/lib/opt.c
@@ -202,26 +202,31 @@ void set_flag(optspec_t *spec, char **arg) {
 				exit(1);
 			}
 			if (spec->type == OPT_SIZE) {
-				size_t val = 0;
-				if (sscanf(*arg, "%zu", &val) < 1) {
+				char *end = NULL;
+				errno = 0;
+				size_t val = OS.strtoul(*arg, &end, 10);
+				if (end == *arg || *end != '\0' || errno != 0) {
 					fprintf(stderr, "Option %s: couldn't parse size value: %s\n", spec->name, *arg);
 					exit(1);
 				}
 				*( (size_t *) spec->value_pointer ) = val;
 			} else {
-				int val = 0;
-				if (sscanf(*arg, "%d", &val) < 1) {
+				char *end = NULL;
+				errno = 0;
+				int64_t val = OS.strtol(*arg, &end, 10);
+				if (end == *arg || *end != '\0' || errno != 0 || val > INT_MAX || val < OS.INT_MIN) {
 					fprintf(stderr, "Option %s: couldn't parse value: %s\n", spec->name, *arg);
 					exit(1);
 				}
 				int *p = spec->value_pointer;
-				*p = val;
+				*p = (int) val;
 			}
 		}
 		case OPT_FLOAT: {
-			float val = 0;
-			if (sscanf(*arg, "%f", &val) < 1) {
-				fprintf(stderr, "Option %s: couldn't parse value: %s", spec->name, *arg);
+			char *end = NULL;
+			float val = OS.strtof(*arg, &end);
+			if (end == *arg || *end != '\0') {
+				fprintf(stderr, "Option %s: couldn't parse value: %s\n", spec->name, *arg);
 				exit(1);
 			}
 			*( (float *) spec->value_pointer ) = val;
-- 
2.43.0


From d462d911c2bb82b32c390cd9931291eb92d948be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 132/218] fix: refuse more subcommands than there is place for

---
 lib/opt.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/opt.c b/lib/opt.c
index 1eec8d3..7da5262 100644
--- a/lib/opt.c
+++ b/lib/opt.c
@@ -315,6 +315,10 @@ size_t ncmds = 0;
 
 // Defines a subcommand.
 pub void addcmd(const char *name, mainfunc_t *f) {
+	if (ncmds >= nelem(cmds)) {
+		fprintf(stderr, "Too many subcommands, max is %zu\n", nelem(cmds));
+		exit(1);
+	}
 	cmds[ncmds].name = name;
 	cmds[ncmds].f = f;
 	ncmds++;
-- 
2.43.0


From 510de9e178a7cbaf4b0de61308bcf04edcea9da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 133/218] fix: truncated files in trim

---
 prog/trim/trim.c | 51 ++++++++++++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/prog/trim/trim.c b/prog/trim/trim.c
index 92fe4db..e722d50 100644
--- a/prog/trim/trim.c
+++ b/prog/trim/trim.c
@@ -67,6 +67,7 @@ typedef {
 	int last_pos;
 	int lf;
 	int num;
+	bool broken;
 } linebuf_t;
 
 bool trim_file(const char *path)
@@ -79,21 +80,26 @@ bool trim_file(const char *path)
 		panic("Out of memory");
 	}
 
-	bool changed = ftrim(f, out, path);
+	bool changed = false;
+	bool ok = ftrim(f, out, path, &changed);
 	fclose(f);
 
-	if(changed) {
+	if (ok && changed) {
 		puts(path);
-		save(out, path);
+		ok = save(out, path);
 	}
-	return true;
+	mem.memclose(out);
+	return ok;
 }
 
-bool ftrim(FILE *in, mem.mem_t *out, const char *fpath)
+/*
+ * Writes the trimmed contents to 'out', sets 'changed' if they are different.
+ * Returns false if the contents couldn't be processed.
+ */
+bool ftrim(FILE *in, mem.mem_t *out, const char *fpath, bool *changed)
 {
 	linebuf_t buf = {0};
 
-	bool changed = false;
 	while (true) {
 		if (!read_line(in, &buf, fpath)) {
 			break;
@@ -105,14 +111,14 @@ bool ftrim(FILE *in, mem.mem_t *out, const char *fpath)
 		 */
 		if(buf.last_pos + 1 < buf.eol_pos) {
 			buf.eol_pos = buf.last_pos + 1;
-			changed = true;
+			*changed = true;
 		}
 
 		/*
 		 * Override EOL if necessary.
 		 */
 		if(lf != L_SAME && buf.lf != lf) {
-			changed = true;
+			*changed = true;
 			buf.lf = lf;
 		}
 
@@ -123,12 +129,14 @@ bool ftrim(FILE *in, mem.mem_t *out, const char *fpath)
 	}
 
 	if(buf.line) free(buf.line);
-	return changed;
+	return !buf.broken;
 }
 
 /*
  * Reads a line into the line buffer.
  * Returns false if the stream is empty.
+ * If the stream has an unknown line ending, sets the 'broken' flag and returns
+ * false.
  */
 bool read_line(FILE *in, linebuf_t *buf, const char *fpath)
 {
@@ -148,11 +156,9 @@ bool read_line(FILE *in, linebuf_t *buf, const char *fpath)
 
 		if(c == '\r') {
 			if(fpeek(in) != '\n') {
-				if(feof(in)) {
-					fprintf(stderr, "WTF! %c", fgetc(in));
-				}
-				fprintf(stderr, "%s: unknown eol sequence at line %d: (%d,%d)",
+				fprintf(stderr, "%s: unknown eol sequence at line %d: (%d,%d)\n",
 					fpath, buf->num, c, fpeek(in));
+				buf->broken = true;
 				return false;
 			}
 			getc(in);
@@ -213,29 +219,32 @@ void write_line(linebuf_t *buf, mem.mem_t *out)
 	}
 }
 
-int save(mem.mem_t *mem, const char *path )
+bool save(mem.mem_t *mem, const char *path )
 {
 	FILE *fp = fopen( path, "wb" );
 	if( !fp ) {
 		fprintf( stderr, "Couldn't open '%s' for writing\n", path );
-		return 0;
+		return false;
 	}
 
 	mem.rewind(mem);
-	int ok = 1;
+	bool ok = true;
 	while (true) {
 		int ch = mem.memgetc( mem );
 		if(ch == EOF) {
 			break;
 		}
-		int r = fputc(ch, fp);
-		if( (char) r != ch ) {
-			fprintf( stderr, "Character write failed (%d/%c != %d/%c)\n", (char) r, (char) r, ch, ch );
-			ok = 0;
+		if (fputc(ch, fp) == EOF) {
+			ok = false;
 			break;
 		}
 	}
-	fclose( fp );
+	if (fclose(fp) != 0) {
+		ok = false;
+	}
+	if (!ok) {
+		fprintf(stderr, "Couldn't write '%s'\n", path);
+	}
 	return ok;
 }
 
-- 
2.43.0


From 9631f4e12bdb1cbdaab5232fbe0688d7ab3c687c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 134/218] fix: panic in trim when the last line has no ending

---
 prog/trim/trim.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prog/trim/trim.c b/prog/trim/trim.c
index e722d50..57dfd35 100644
--- a/prog/trim/trim.c
+++ b/prog/trim/trim.c
@@ -213,6 +213,9 @@ void write_line(linebuf_t *buf, mem.mem_t *out)
 			assert(mem.memputc('\r', out) != EOF);
 			assert(mem.memputc('\n', out) != EOF);
 		}
+		case L_NONE: {
+			// Nothing to write.
+		}
 		default: {
 			panic("write_line: unhandled eol type: %d", buf->lf);
 		}
-- 
2.43.0


From 3120d4d214ce5c95311335677f7103d2c25467ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 135/218] fix: long lines and non-numeric arguments in multicut

---
 prog/multicut/multicut.c | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/prog/multicut/multicut.c b/prog/multicut/multicut.c
index 9518caa..276d5e3 100644
--- a/prog/multicut/multicut.c
+++ b/prog/multicut/multicut.c
@@ -1,4 +1,6 @@
 
+#import linereader
+
 #define MAXCOLS 100
 #define MAXSEL 10
 
@@ -13,19 +15,22 @@ int main(int argc, char *argv[]) {
             fprintf(stderr, "too many requested cols, max is %d\n", MAXSEL);
             return 1;
         }
-        int x;
-        sscanf(argv[i], "%d", &x);
+        int x = 0;
+        if (sscanf(argv[i], "%d", &x) != 1) {
+            fprintf(stderr, "not a column number: %s\n", argv[i]);
+            return 1;
+        }
         sel[nsel++] = x-1; // adjust for 1-based counts
     }
 
-    char line[4096];
-    while (fgets(line, sizeof(line), stdin)) {
+    linereader.t *lr = linereader.new(stdin);
+    while (linereader.read(lr)) {
         //
         // Split the line into columns in place.
         //
         char *cols[MAXCOLS] = {};
         int ncols = 0;
-        char *p = line;
+        char *p = linereader.line(lr);
         cols[ncols++] = p;
         while (true) {
             p = sep(p);
@@ -50,6 +55,7 @@ int main(int argc, char *argv[]) {
         }
         putchar('\n');
     }
+    linereader.free(lr);
     return 0;
 }
 
-- 
2.43.0


From 8c02aa7c887a9670b3afb48af71e5241cfb333a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 136/218] fix: long lines and values which aren't objects in
 jsonl2csv

---
 prog/jsonl2csv/jsonl2csv.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prog/jsonl2csv/jsonl2csv.c b/prog/jsonl2csv/jsonl2csv.c
index c0f4caf..6647514 100644
--- a/prog/jsonl2csv/jsonl2csv.c
+++ b/prog/jsonl2csv/jsonl2csv.c
@@ -1,12 +1,16 @@
 #import formats/csv
 #import formats/json
+#import linereader
 #import strings
 #import error
 
 char *header[100] = {};
 size_t nheader = 0;
 
+linereader.t *input = NULL;
+
 int main() {
+	input = linereader.new(stdin);
     json.val_t *obj = readobj();
     if (!obj) {
         fprintf(stderr, "no objects read\n");
@@ -30,15 +34,20 @@ int main() {
 }
 
 json.val_t *readobj() {
-    char line[4096] = {};
 	error.t err = {};
-    while (fgets(line, sizeof(line), stdin)) {
+    while (linereader.read(input)) {
+		char *line = linereader.line(input);
         json.val_t *obj = json.parse(line, &err);
 		if (err.set) {
 			fprintf(stderr, "failed to parse line as json: \"%s\"\n", line);
 			err.set = false;
 			continue;
 		}
+		if (json.type(obj) != json.TOBJ) {
+			fprintf(stderr, "line is not a json object: \"%s\"\n", line);
+			json.json_free(obj);
+			continue;
+		}
         return obj;
     }
     return NULL;
-- 
2.43.0


From 0e0a8518b3b9a61ef54b3f15bd812899bad0fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 137/218] fix: long lines and many columns in json-table

---
 prog/json-table/json-table.c | 48 ++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/prog/json-table/json-table.c b/prog/json-table/json-table.c
index 751d1c7..232fca1 100644
--- a/prog/json-table/json-table.c
+++ b/prog/json-table/json-table.c
@@ -1,15 +1,20 @@
 #import clip/vec
 #import error
 #import formats/json
+#import linereader
+#import strings
 
-char buf[4096] = {};
+linereader.t *input = NULL;
+char *buf = NULL;
 bool haveline = true;
 bool loadline() {
-	haveline = fgets(buf, 4096, stdin) != NULL;
+	haveline = linereader.read(input);
+	buf = linereader.line(input);
 	return haveline;
 }
 
 int main() {
+	input = linereader.new(stdin);
 	loadline();
 	while (haveline) {
 		if (buf[0] == '{' && maybeTable()) {
@@ -81,6 +86,7 @@ void freetable(vec.t *rows) {
 		json.val_t **row = vec.index(rows, i);
 		json.json_free(*row);
 	}
+	vec.free(rows);
 }
 
 json.val_t *longest(vec.t *rows) {
@@ -99,7 +105,6 @@ json.val_t *longest(vec.t *rows) {
 }
 
 void printtable(vec.t *rows) {
-	char buf[4096] = {};
 	size_t nrows = vec.len(rows);
 	if (nrows == 0) {
 		return;
@@ -108,16 +113,15 @@ void printtable(vec.t *rows) {
 	//
 	// Define the header and calculate the widths.
 	//
-	const char *keys[100];
-
 	// As a quirk, use the row with the most columns
 	// to get the columns.
 	json.val_t *longestrow = longest(rows);
 	size_t nkeys = json.len(longestrow);
+	const char **keys = calloc!(nkeys + 1, sizeof(char *));
 	for (size_t i = 0; i < nkeys; i++) {
 		keys[i] = json.key(longestrow, i);
 	}
-	size_t colwidth[100] = {};
+	size_t *colwidth = calloc!(nkeys + 1, sizeof(size_t));
 	for (size_t colid = 0; colid < nkeys; colid++) {
 		colwidth[colid] = strlen(keys[colid]);
 	}
@@ -126,7 +130,9 @@ void printtable(vec.t *rows) {
 		for (size_t colid = 0; colid < nkeys; colid++) {
 			const char *key = keys[colid];
 			json.val_t *col = json.get(*row, key);
-			size_t l = sprintval(col, buf);
+			char *s = fmtval(col);
+			size_t l = strlen(s);
+			free(s);
 			if (l > colwidth[colid]) {
 				colwidth[colid] = l;
 			}
@@ -159,8 +165,9 @@ void printtable(vec.t *rows) {
 		json.val_t **row = vec.index(rows, rowid);
 		for (size_t colid = 0; colid < nkeys; colid++) {
 			const char *key = keys[colid];
-			sprintval(json.get(*row, key), buf);
-			printw(buf, colwidth[colid]);
+			char *s = fmtval(json.get(*row, key));
+			printw(s, colwidth[colid]);
+			free(s);
 			if (colid < nkeys-1) {
 				printf(" | ");
 			}
@@ -168,6 +175,8 @@ void printtable(vec.t *rows) {
 		putchar('\n');
 	}
 	line(w);
+	free(keys);
+	free(colwidth);
 }
 
 void printw(const char *s, size_t w) {
@@ -186,34 +195,25 @@ void line(size_t w) {
 	putchar('\n');
 }
 
-// Writes a string representation of val into str.
-int sprintval(json.val_t *val, char *str) {
+// Returns a new string with a representation of val.
+char *fmtval(json.val_t *val) {
 	if (!val) {
-		str[0] = '\0';
-		return 0;
+		return strings.newstr("%s", "");
 	}
 	// Print the raw string to avoid quoting and escaping.
 	if (json.type(val) == json.TSTR) {
-		const char *s = json.strval(val);
-		int r = strlen(s);
-		strcpy(str, s);
-		return r;
+		return strings.newstr("%s", json.strval(val));
 	}
 	if (json.type(val) == json.TNUM) {
 		double x = json.numval(val);
 		if (isint(x) && x > 10000) {
 			char tmp[20] = {};
 			thousands((int) x, tmp, sizeof(tmp));
-			strcpy(str, tmp);
-			return strlen(tmp);
+			return strings.newstr("%s", tmp);
 		}
 	}
 	// Print other types as serialized JSON.
-	char *s = json.format(val);
-	int r = strlen(s);
-	strcpy(str, s);
-	free(s);
-	return r;
+	return json.format(val);
 }
 
 int thousands(int x, char *out, size_t n) {
-- 
2.43.0


From 500a42af209fa6ca746b24cadf26f55f6169268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 138/218] fix: wrong numbers above 2^31 in json-table

---
 prog/json-table/json-table.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/prog/json-table/json-table.c b/prog/json-table/json-table.c
index 232fca1..b961910 100644
--- a/prog/json-table/json-table.c
+++ b/prog/json-table/json-table.c
@@ -206,9 +206,9 @@ char *fmtval(json.val_t *val) {
 	}
 	if (json.type(val) == json.TNUM) {
 		double x = json.numval(val);
-		if (isint(x) && x > 10000) {
-			char tmp[20] = {};
-			thousands((int) x, tmp, sizeof(tmp));
+		if (isint(x) && x > 10000 && x <= 9007199254740991.0) {
+			char tmp[30] = {};
+			thousands((int64_t) x, tmp, sizeof(tmp));
 			return strings.newstr("%s", tmp);
 		}
 	}
@@ -216,9 +216,9 @@ char *fmtval(json.val_t *val) {
 	return json.format(val);
 }
 
-int thousands(int x, char *out, size_t n) {
-	char tmp[20];
-	int l = sprintf(tmp, "%d", x);
+int thousands(int64_t x, char *out, size_t n) {
+	char tmp[30];
+	int l = sprintf(tmp, "%ld", x);
 
 	int extra = l % 3;
 	size_t z = 0;
-- 
2.43.0


From 40229c6b18ba649e42a159914ab1370550cae2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 139/218] fix: repeated last line in json-table

---
 prog/json-table/json-table.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prog/json-table/json-table.c b/prog/json-table/json-table.c
index b961910..58b3b6f 100644
--- a/prog/json-table/json-table.c
+++ b/prog/json-table/json-table.c
@@ -77,7 +77,8 @@ bool maybeInlineTable() {
 	}
 	printtable(rows);
 	freetable(rows);
-	return loadline();
+	loadline();
+	return true;
 }
 
 void freetable(vec.t *rows) {
-- 
2.43.0


From b1f759e2ed5f887c8493e4ce800557769560d6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 140/218] fix: treat only objects as table rows in json-table

---
 prog/json-table/json-table.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prog/json-table/json-table.c b/prog/json-table/json-table.c
index 58b3b6f..dc9f00f 100644
--- a/prog/json-table/json-table.c
+++ b/prog/json-table/json-table.c
@@ -38,6 +38,10 @@ bool maybeTable() {
 		if (err.set) {
 			break;
 		}
+		if (json.type(line) != json.TOBJ) {
+			json.json_free(line);
+			break;
+		}
 		vec.push(rows, &line);
 		ok = true;
 		if (!loadline()) {
-- 
2.43.0


From 42ce19d4023674ca65768744970b2578f1d5e38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 141/218] fix: overflows in logfmt

---
 prog/logfmt/logfmt.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/prog/logfmt/logfmt.c b/prog/logfmt/logfmt.c
index 8409734..e489820 100644
--- a/prog/logfmt/logfmt.c
+++ b/prog/logfmt/logfmt.c
@@ -18,7 +18,7 @@ int main(int argc, char **argv) {
     opt.str("x", "comma-separated list of fields to exclude", &exclude_string);
     opt.parse(argc, argv);
 
-    nexclude = strings.split(",", exclude_string, excludefields, sizeof(excludefields));
+    nexclude = strings.split(",", exclude_string, excludefields, nelem(excludefields));
 
     linereader.t *lr = linereader.new(stdin);
 	error.t err = {};
@@ -107,11 +107,9 @@ void printkv(const char *key, json.val_t *val) {
             if (i > 0) {
                 printf(" ");
             }
-            char keyi[100] = {};
-            strcat(keyi, key);
-            strcat(keyi, ".");
-            strcat(keyi, json.key(val, i));
+            char *keyi = strings.newstr("%s.%s", key, json.key(val, i));
             printkv(keyi, json.val(val, i));
+            free(keyi);
         }
         return;
     }
-- 
2.43.0


From f9ab7bebfa12d935c64070ddce3f5b8189f047b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 142/218] fix: overflow and reading past the end in decompose

---
 prog/decompose/decompose.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/prog/decompose/decompose.c b/prog/decompose/decompose.c
index 83a39b2..01eb729 100644
--- a/prog/decompose/decompose.c
+++ b/prog/decompose/decompose.c
@@ -11,10 +11,11 @@ int main() {
         // color, container name, spaces, "|", ESC[0m
 		p = termcolor(p);
 
-        char name[100] = {};
+        char *name = p;
         int len = 0;
-        while (!isspace(*p)) {
-            name[len++] = *p++;
+        while (*p != '\0' && !isspace(*p)) {
+            len++;
+            p++;
         }
 
         while (isspace(*p)) p++;
@@ -24,10 +25,10 @@ int main() {
         while (isspace(*p)) p++;
 
         if (p[0] == '{') {
-            printf("{\"container\":\"%s\",", name);
+            printf("{\"container\":\"%.*s\",", len, name);
             printf("%s", &p[1]);
         } else {
-            printf("[%s] %s", name, p);
+            printf("[%.*s] %s", len, name, p);
         }
     }
 	linereader.free(lr);
-- 
2.43.0


From 4289881b38d4ad7de33f4766bdc9f9bfaac977b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:14 +0000
Subject: [PATCH 143/218] fix: overflows in zipranges

---
 prog/zipranges/zipranges.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prog/zipranges/zipranges.c b/prog/zipranges/zipranges.c
index b4ad339..1cb4140 100644
--- a/prog/zipranges/zipranges.c
+++ b/prog/zipranges/zipranges.c
@@ -17,15 +17,21 @@ int main() {
 
 typedef { int a, b; } range_t;
 
-range_t cells[4000] = {};
+range_t *cells = NULL;
+int maxcells = 0;
 int pos = -1;
 
 void append(int val) {
+    if (pos + 1 >= maxcells) {
+        maxcells = 2 * maxcells + 1000;
+        cells = realloc(cells, maxcells * sizeof(range_t));
+        if (!cells) panic("failed to allocate memory");
+    }
     if (pos == -1) {
         pos = 0;
         cells[pos].a = val;
         cells[pos].b = val;
-    } else if (val == cells[pos].b + 1) {
+    } else if (cells[pos].b < INT_MAX && val == cells[pos].b + 1) {
         cells[pos].b++;
     } else {
         pos++;
-- 
2.43.0


From faf248cf20c9e8288a175d3cfc9d431d05ac3de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:53 +0000
Subject: [PATCH 144/218] fix: crash in logfmt on lines which are json but not
 objects

---
 prog/logfmt/logfmt.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prog/logfmt/logfmt.c b/prog/logfmt/logfmt.c
index e489820..aac7f6f 100644
--- a/prog/logfmt/logfmt.c
+++ b/prog/logfmt/logfmt.c
@@ -31,6 +31,11 @@ int main(int argc, char **argv) {
 			printf("%s", line);
             continue;
 		}
+		if (json.type(entry) != json.TOBJ) {
+			printf("%s", line);
+			json.json_free(entry);
+			continue;
+		}
         print_entry(entry);
         json.json_free(entry);
     }
-- 
2.43.0


From f0120e4693b246b8a7af84b9ed92e91d03cc9b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:37 +0000
Subject: [PATCH 145/218] fix: lost line endings and broken empty objects in
 decompose

---
 prog/decompose/decompose.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/prog/decompose/decompose.c b/prog/decompose/decompose.c
index 01eb729..b209a2f 100644
--- a/prog/decompose/decompose.c
+++ b/prog/decompose/decompose.c
@@ -18,14 +18,18 @@ int main() {
             p++;
         }
 
-        while (isspace(*p)) p++;
+        while (isspace(*p) && *p != '\n') p++;
 
         if (*p == '|') p++;
         p = termcolor(p);
-        while (isspace(*p)) p++;
+        while (isspace(*p) && *p != '\n') p++;
 
         if (p[0] == '{') {
-            printf("{\"container\":\"%.*s\",", len, name);
+            char *q = &p[1];
+            while (isspace(*q)) q++;
+            const char *comma = ",";
+            if (*q == '}') comma = "";
+            printf("{\"container\":\"%.*s\"%s", len, name, comma);
             printf("%s", &p[1]);
         } else {
             printf("[%.*s] %s", len, name, p);
-- 
2.43.0


From a60d2e66d2c0155a8d1ff62fc4b9c001b7cbfd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:26 +0000
Subject: [PATCH 146/218] fix: don't lose bytes 255 in trim

---
 prog/trim/trim.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/trim/trim.c b/prog/trim/trim.c
index 57dfd35..4f79519 100644
--- a/prog/trim/trim.c
+++ b/prog/trim/trim.c
@@ -203,7 +203,7 @@ bool growbuf(linebuf_t *buf)
 void write_line(linebuf_t *buf, mem.mem_t *out)
 {
 	for (int i = 0; i < buf->eol_pos; i++) {
-		mem.memputc(buf->line[i], out);
+		mem.memputc((uint8_t) buf->line[i], out);
 	}
 	switch (buf->lf) {
 		case L_UNIX: {
-- 
2.43.0


From 3ba9a6a02e1419ff848981ee1e090d9416928572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 147/218] fix: reading past the values in stats.percentile

---
 lib/stats.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/stats.c b/lib/stats.c
index 3a2e4b6..a1cb7b3 100644
--- a/lib/stats.c
+++ b/lib/stats.c
@@ -89,7 +89,7 @@ pub double sd(series_t *s) {
 }
 
 pub double percentile(series_t *s, int p) {
-    if (p < 0 || p > 100) {
+    if (p < 0 || p > 100 || s->len == 0) {
         return 0;
     }
     if (!s->sorted_values) {
@@ -100,8 +100,11 @@ pub double percentile(series_t *s, int p) {
         qsort(tmp, s->len, sizeof(double), doublecmp);
         s->sorted_values = tmp;
     }
-    double val = s->sorted_values[(int) (s->len * p / 100)];
-    return val;
+    size_t i = s->len * p / 100;
+    if (i == s->len) {
+        i--;
+    }
+    return s->sorted_values[i];
 }
 
 pub double median(series_t *s) {
-- 
2.43.0


From e1556fc0f9180b0d9b65655275d0e707a69cc765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 148/218] fix: rnd.u never returns 1

---
 lib/rnd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/rnd.c b/lib/rnd.c
index 3d80d17..02c3fc1 100644
--- a/lib/rnd.c
+++ b/lib/rnd.c
@@ -36,5 +36,5 @@ pub uint32_t intn(uint32_t n) {
 
 // Returns a random number uniformly distributed in [0, 1).
 pub double u() {
-    return (double) pcg32() / 0xffffffff;
+    return (double) pcg32() / 4294967296.0;
 }
-- 
2.43.0


From 354bf0af6d19f8add58c53b72b76bfd00972b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 149/218] fix: overflow with more than 10 columns in stats

---
 prog/stats/stats.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/prog/stats/stats.c b/prog/stats/stats.c
index 2bbfc22..7baafaa 100644
--- a/prog/stats/stats.c
+++ b/prog/stats/stats.c
@@ -1,7 +1,9 @@
 #import stats
 
+#define MAXSERIES 10
+
 int main() {
-	double vals[10] = {};
+	double vals[MAXSERIES] = {};
 
 	// Find out the number of columns.
 	size_t nseries = readvals(vals);
@@ -10,7 +12,7 @@ int main() {
 	}
 
 	// Initialize the series from the already read values.
-	stats.series_t *series[10] = {};
+	stats.series_t *series[MAXSERIES] = {};
 	for (size_t i = 0; i < nseries; i++) {
 		series[i] = stats.newseries();
 		stats.add(series[i], vals[i]);
@@ -46,6 +48,9 @@ size_t readvals(double *vals) {
 		if (q == p) {
 			break;
 		}
+		if (n == MAXSERIES) {
+			panic("too many values on the line, max is %d", MAXSERIES);
+		}
 		vals[n++] = x;
 		p = q;
 	}
-- 
2.43.0


From 9532896f52d4852b43c46b1adc23b2764bcdd4bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 150/218] fix: endless loop when all values are equal in hist

---
 prog/hist/hist.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/hist/hist.c b/prog/hist/hist.c
index ebf07ee..c8ef80e 100644
--- a/prog/hist/hist.c
+++ b/prog/hist/hist.c
@@ -66,7 +66,7 @@ range_t find_range(double _min, _max, size_t nbins) {
 		}
 		scale *= 10;
 	}
-	while (amin + nbins * (scale/2) >= _max) {
+	while (_max > amin && amin + nbins * (scale/2) >= _max) {
 		scale /= 2;
 	}
 	range_t r = { .min = amin, .step = scale };
-- 
2.43.0


From 846aed4bb7821ee126b170594910ff59559f7d00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 151/218] fix: panic on values like 0.009 in hist

---
 prog/hist/hist.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prog/hist/hist.c b/prog/hist/hist.c
index c8ef80e..496427c 100644
--- a/prog/hist/hist.c
+++ b/prog/hist/hist.c
@@ -60,6 +60,10 @@ range_t find_range(double _min, _max, size_t nbins) {
 	double amax = 0;
 	while (true) {
 		amin = floor(_min / scale) * scale;
+		// The product may have been rounded up.
+		if (amin > _min) {
+			amin = _min;
+		}
 		amax = amin + nbins * scale;
 		if (amax >= _max) {
 			break;
-- 
2.43.0


From c9417688f49e2596d862a6d005bec5b09cf157dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 152/218] fix: scale the bars to the given width in hist

---
 prog/hist/hist.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prog/hist/hist.c b/prog/hist/hist.c
index 496427c..391f50c 100644
--- a/prog/hist/hist.c
+++ b/prog/hist/hist.c
@@ -156,10 +156,13 @@ void printbins_ascii(bin_t *bins, size_t nbins, size_t maxline) {
 	// Header.
 	//
 	printf("value (>=)");
-	repeat("-", maxlabel + maxline - strlen("value (>=)") + 1);
+	size_t titlelen = strlen("value (>=)");
+	if (maxlabel + maxline + 1 > titlelen) {
+		repeat("-", maxlabel + maxline + 1 - titlelen);
+	}
 	printf(" count\n");
 
-	double scale = 30 / (double) maxcount;
+	double scale = (double) maxline / (double) maxcount;
 	if (scale > 1) {
 		scale = 1;
 	}
@@ -181,6 +184,9 @@ void printbins_ascii(bin_t *bins, size_t nbins, size_t maxline) {
 		//
 		size_t len = 0;
 		len = (size_t) ((double)b->count * scale);
+		if (len > maxline) {
+			len = maxline;
+		}
 		repeat("█", len);
 		repeat(" ", maxline-len);
 
-- 
2.43.0


From 62a6758f5b725fa9b56ea614ddf9480aee38452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 153/218] fix: refuse zero bins and values which aren't finite
 in hist

---
 prog/hist/hist.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prog/hist/hist.c b/prog/hist/hist.c
index 391f50c..ccee4d8 100644
--- a/prog/hist/hist.c
+++ b/prog/hist/hist.c
@@ -11,7 +11,7 @@ int main(int argc, char *argv[]) {
 	opt.size("w", "max line width", &maxline);
 	opt.flag("r", "print raw numbers, no fancy ASCII art", &raw);
 	opt.parse(argc, argv);
-	if (nbins != 0 && nbins < 2) {
+	if (nbins < 2) {
 		fprintf(stderr, "The number of bins must be greater than two\n");
 		return 1;
 	}
@@ -33,7 +33,7 @@ stats.series_t *collect() {
 	while (true) {
 		int r = scanf("%lf\n", &val);
 		if (r == EOF) break;
-		if (r != 1) {
+		if (r != 1 || !OS.isfinite(val)) {
 			fprintf(stderr, "failed to parse a number\n");
 			exit(1);
 		}
-- 
2.43.0


From aa79896cd1d28fb3b8ed7d89ae573d277c7fcf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 154/218] fix: crash with an empty window or a line without a
 value in avg

---
 prog/avg/avg.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/prog/avg/avg.c b/prog/avg/avg.c
index 7304f88..ae57c55 100644
--- a/prog/avg/avg.c
+++ b/prog/avg/avg.c
@@ -7,6 +7,10 @@ int main(int argc, char *argv[]) {
 	opt.nargs(0, "");
 	opt.size("w", "window size", &wsize);
 	opt.parse(argc, argv);
+	if (wsize == 0) {
+		fprintf(stderr, "the window size must be positive\n");
+		return 1;
+	}
 
 	line_t *window = calloc!(wsize, sizeof(line_t));
 	char line[4096];
@@ -56,8 +60,10 @@ line_t parse_line(char *line) {
 	while (*p != '\0' && *p != '\t') {
 		p++;
 	}
-	*p = '\0';
-	p++;
+	if (*p == '\t') {
+		*p = '\0';
+		p++;
+	}
 
 	// Parse as (time, int)
 	line_t r = {};
-- 
2.43.0


From b90ec15fdebbe5e64f8c8cd6e6cbddb1c36ed650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:48 +0000
Subject: [PATCH 155/218] fix: empty and long lines and 4-byte characters in
 markov

---
 prog/markov/markov.c | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/prog/markov/markov.c b/prog/markov/markov.c
index 5406072..4926541 100644
--- a/prog/markov/markov.c
+++ b/prog/markov/markov.c
@@ -1,3 +1,4 @@
+#import linereader
 #import strings
 #import stats
 #import clip/map
@@ -13,10 +14,19 @@ typedef {
 int main() {
 	model_t *m = new();
 
-    char word[100];
-    while (fgets(word, sizeof(word), stdin)) {
+    bool empty = true;
+    linereader.t *lr = linereader.new(stdin);
+    while (linereader.read(lr)) {
+        char *word = linereader.line(lr);
         strings.rtrim(word, "\n");
+        if (word[0] == '\0') continue;
         learnword(m, word);
+        empty = false;
+    }
+    linereader.free(lr);
+    if (empty) {
+        fprintf(stderr, "no words to learn from\n");
+        return 1;
     }
 
     for (int i = 0; i < 10; i++) {
@@ -48,10 +58,11 @@ void learnword(model_t *m, const char *word) {
     for (size_t i = 1; i < n; i++) {
         add_pair(m, chars[i-1], chars[i]);
     }
+    free(chars);
 }
 
 void putrune(utf.Rune c) {
-	char buf[4];
+	char buf[5];
 	int size = utf.runetochar(buf, &c);
 	buf[size] = 0;
 	printf("%s", buf);
-- 
2.43.0


From ce87e045486900e025c25815056b3a7fc983f413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:04 +0000
Subject: [PATCH 156/218] fix: don't relocate null pointers in libregexp9

---
 prog/libregexp9/regexp9.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prog/libregexp9/regexp9.c b/prog/libregexp9/regexp9.c
index 8fd5d3c..625804f 100644
--- a/prog/libregexp9/regexp9.c
+++ b/prog/libregexp9/regexp9.c
@@ -582,7 +582,9 @@ Reprog *optimize(Reprog *pp) {
 				cl->end = (void*)((char*)cl->end + diff);
 			}
 		}
-		inst->u2.left = (void*)((char*)inst->u2.left + diff);
+		if (inst->u2.left) {
+			inst->u2.left = (void*)((char*)inst->u2.left + diff);
+		}
 	}
 	npp->startinst = (void*)((char*)npp->startinst + diff);
 	return npp;
-- 
2.43.0


From c606119d4188d84250594fe27373d29b57b2378d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:20 +0000
Subject: [PATCH 157/218] fix: regsub reads past the list of matches

---
 prog/libregexp9/regexp9.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prog/libregexp9/regexp9.c b/prog/libregexp9/regexp9.c
index 625804f..9756c67 100644
--- a/prog/libregexp9/regexp9.c
+++ b/prog/libregexp9/regexp9.c
@@ -1173,7 +1173,7 @@ pub void regsub(char *sp, *dp, int dlen, Resub *mp, int ms) {
 			switch(*++sp) {
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9': {
 				i = get_ascii_num(*sp);
-				if (mp != NULL && mp[i].s.sp != 0 && ms>i)
+				if (mp != NULL && ms>i && mp[i].s.sp != 0)
 					for(ssp = mp[i].s.sp;
 					     ssp < mp[i].e.ep;
 					     ssp++)
@@ -1192,7 +1192,7 @@ pub void regsub(char *sp, *dp, int dlen, Resub *mp, int ms) {
 					*dp++ = *sp;
 			}}
 		} else if(*sp == '&') {
-			if (mp != NULL && mp[0].s.sp != 0 && ms>0)
+			if (mp != NULL && ms>0 && mp[0].s.sp != 0)
 				for(ssp = mp[0].s.sp;
 				     ssp < mp[0].e.ep; ssp++)
 					if(dp < ep)
@@ -1451,7 +1451,7 @@ pub void rregsub(utf.Rune *sp, utf.Rune *dp, int dlen, Resub *mp, int ms) {
 			switch(*++sp) {
 			case '0', '1', '2', '3', '4', '5', '6', '7', '8', '9': {
 				i = get_ascii_num(*sp);
-				if (mp != NULL && mp[i].s.rsp != 0 && ms>i)
+				if (mp != NULL && ms>i && mp[i].s.rsp != 0)
 					for (ssp = mp[i].s.rsp; ssp < mp[i].e.rep; ssp++) {
 						if (dp < ep) {
 							*dp++ = *ssp;
@@ -1471,7 +1471,7 @@ pub void rregsub(utf.Rune *sp, utf.Rune *dp, int dlen, Resub *mp, int ms) {
 			}
 			}
 		} else if (*sp == '&') {
-			if (mp != NULL && mp[0].s.rsp != 0 && ms>0)
+			if (mp != NULL && ms>0 && mp[0].s.rsp != 0)
 				for(ssp = mp[0].s.rsp;
 				     ssp < mp[0].e.rep; ssp++)
 					if (dp < ep) {
-- 
2.43.0


From 308cce044d514b7854bcca516ba12f2be7bb1bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 158/218] fix: matches past the given end in libregexp9

---
 prog/libregexp9/regexp9.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prog/libregexp9/regexp9.c b/prog/libregexp9/regexp9.c
index 9756c67..f741afb 100644
--- a/prog/libregexp9/regexp9.c
+++ b/prog/libregexp9/regexp9.c
@@ -962,7 +962,7 @@ regexec1(Reprog *progp,
 			switch(j->starttype) {
 				case RUNE: {
 					p = utf.utfrune(s, j->startchar);
-					if (p == NULL || s == j->eol)
+					if (p == NULL || (j->eol != NULL && p >= j->eol))
 						return match;
 					s = p;
 				}
@@ -970,7 +970,7 @@ regexec1(Reprog *progp,
 					if(s == bol)
 						break;
 					p = utf.utfrune(s, '\n');
-					if (p == NULL || s == j->eol) {
+					if (p == NULL || (j->eol != NULL && p >= j->eol)) {
 						return match;
 					}
 					s = p+1;
@@ -1257,7 +1257,7 @@ int rregexec1(Reprog *progp,
 			switch (j->starttype) {
 			case RUNE: {
 				p = utf.runestrchr(s, j->startchar);
-				if(p == 0 || s == j->reol)
+				if(p == 0 || (j->reol != NULL && p >= j->reol))
 					return match;
 				s = p;
 			}
@@ -1265,7 +1265,7 @@ int rregexec1(Reprog *progp,
 				if(s == bol)
 					break;
 				p = utf.runestrchr(s, '\n');
-				if(p == 0 || s == j->reol)
+				if(p == 0 || (j->reol != NULL && p >= j->reol))
 					return match;
 				s = p+1;
 			}
-- 
2.43.0


From 776f286447e1a9501ab4ce1fdda8a2e92b9ac727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:23:59 +0000
Subject: [PATCH 159/218] fix: ^ after an empty line in libregexp9

---
 prog/libregexp9/regexp9.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prog/libregexp9/regexp9.c b/prog/libregexp9/regexp9.c
index f741afb..7615085 100644
--- a/prog/libregexp9/regexp9.c
+++ b/prog/libregexp9/regexp9.c
@@ -967,7 +967,7 @@ regexec1(Reprog *progp,
 					s = p;
 				}
 				case BOL: {
-					if(s == bol)
+					if(s == bol || *(s-1) == '\n')
 						break;
 					p = utf.utfrune(s, '\n');
 					if (p == NULL || (j->eol != NULL && p >= j->eol)) {
@@ -1262,7 +1262,7 @@ int rregexec1(Reprog *progp,
 				s = p;
 			}
 			case BOL: {
-				if(s == bol)
+				if(s == bol || *(s-1) == '\n')
 					break;
 				p = utf.runestrchr(s, '\n');
 				if(p == 0 || (j->reol != NULL && p >= j->reol))
-- 
2.43.0


From 87e8687a59737a5d6e9acbcfa25e1128442269c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:08 +0000
Subject: [PATCH 160/218] fix: endless repetition of empty matches in
 libregexp9

---
 prog/libregexp9/regexp9.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/prog/libregexp9/regexp9.c b/prog/libregexp9/regexp9.c
index 7615085..77b4b85 100644
--- a/prog/libregexp9/regexp9.c
+++ b/prog/libregexp9/regexp9.c
@@ -812,6 +812,17 @@ _renewmatch(Resub *mp, int ms, Resublist *sp)
 	}
 }
 
+// Tells whether the threads from..to, which have been run already, include
+// one at ip which starts no later than sep.
+bool _visited(Relist *from, *to, Reinst *ip, Resublist *sep) {
+	for (Relist *p = from; p < to; p++) {
+		if (p->inst == ip && p->se.m[0].s.sp <= sep->m[0].s.sp) {
+			return true;
+		}
+	}
+	return false;
+}
+
 /*
  * Note optimization in _renewthread:
  * 	*lp must be pending when _renewthread called; if *l has been looked
@@ -1050,7 +1061,7 @@ regexec1(Reprog *progp,
 				}
 				case OR: {
 					/* evaluate right choice later */
-					if(_renewthread(tlp, inst->u1.right, ms, &tlp->se) == tle)
+					if(!_visited(tl, tlp, inst->u1.right, &tlp->se) && _renewthread(tlp, inst->u1.right, ms, &tlp->se) == tle)
 						return -1;
 					/* efficiency: advance and re-evaluate */
 					continue;
@@ -1339,7 +1350,7 @@ int rregexec1(Reprog *progp,
 				}
 				case OR: {
 					/* evaluate right choice later */
-					if(_renewthread(tlp, inst->u1.right, ms, &tlp->se) == tle)
+					if(!_visited(tl, tlp, inst->u1.right, &tlp->se) && _renewthread(tlp, inst->u1.right, ms, &tlp->se) == tle)
 						return -1;
 					/* efficiency: advance and re-evaluate */
 					continue;
-- 
2.43.0


From 4e7c8ee8e02b5842eb5a78fd5e164a418c2e1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:46 +0000
Subject: [PATCH 161/218] fix: loading of lc3 images up to the last word

---
 prog/emu/lc3.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/prog/emu/lc3.c b/prog/emu/lc3.c
index ecc7007..aa04d79 100644
--- a/prog/emu/lc3.c
+++ b/prog/emu/lc3.c
@@ -92,15 +92,20 @@ pub int run(char *rompath) {
 
     /* the origin tells us where in memory to place the image */
     uint16_t origin = bytereader.read16(r);
+    if (bytereader.ended(r)) {
+        fprintf(stderr, "no image in the file\n");
+        return 1;
+    }
 
     // Read full memory.
     for (uint32_t i = origin; i < MEMORY_MAX; i++) {
-        memory[i] = bytereader.read16(r);
+        uint16_t val = bytereader.read16(r);
         if (bytereader.ended(r)) {
             break;
         }
+        memory[i] = val;
     }
-    if (!bytereader.ended(r)) {
+    if (bytereader.peekc(r) != EOF) {
         fprintf(stderr, "input file too long\n");
         return 1;
     }
-- 
2.43.0


From 611c7d9c7151799a475bc4c229784ba779fce16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:46 +0000
Subject: [PATCH 162/218] fix: lc3 strings at the end of memory

---
 prog/emu/lc3.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/prog/emu/lc3.c b/prog/emu/lc3.c
index aa04d79..9af115d 100644
--- a/prog/emu/lc3.c
+++ b/prog/emu/lc3.c
@@ -308,10 +308,10 @@ void op_trap(uint16_t instr) {
         }
         case TRAP_PUTS: {
             /* one char per word */
-            uint16_t *c = memory + reg[R_R0];
-            while (*c) {
-                putc((char)*c, stdout);
-                ++c;
+            uint16_t addr = reg[R_R0];
+            while (memory[addr] != 0) {
+                putc((char)memory[addr], stdout);
+                ++addr;
             }
             fflush(stdout);
         }
@@ -327,14 +327,14 @@ void op_trap(uint16_t instr) {
             /* one char per byte (two bytes per word)
             here we need to swap back to
             big endian format */
-            uint16_t* c = memory + reg[R_R0];
-            while (*c)
+            uint16_t addr = reg[R_R0];
+            while (memory[addr] != 0)
             {
-                char char1 = (*c) & 0xFF;
+                char char1 = memory[addr] & 0xFF;
                 putc(char1, stdout);
-                char char2 = (*c) >> 8;
+                char char2 = memory[addr] >> 8;
                 if (char2) putc(char2, stdout);
-                ++c;
+                ++addr;
             }
             fflush(stdout);
         }
-- 
2.43.0


From c98532f4cae35f1a9eb6547bced2a9614437f2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:46 +0000
Subject: [PATCH 163/218] fix: lc3 IN trap extends the character with its sign

---
 prog/emu/lc3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prog/emu/lc3.c b/prog/emu/lc3.c
index 9af115d..80b0575 100644
--- a/prog/emu/lc3.c
+++ b/prog/emu/lc3.c
@@ -317,8 +317,8 @@ void op_trap(uint16_t instr) {
         }
         case TRAP_IN: {
             printf("Enter a character: ");
-            char c = getchar();
-            putc(c, stdout);
+            int c = getchar();
+            putc((char)c, stdout);
             fflush(stdout);
             reg[R_R0] = (uint16_t)c;
             update_flags(R_R0);
-- 
2.43.0


From 6e84d2511e29e35f356f2380cd98a7c2609db4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:46 +0000
Subject: [PATCH 164/218] fix: lc3 exits with an error after HALT

---
 prog/emu/lc3.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/emu/lc3.c b/prog/emu/lc3.c
index 80b0575..9459560 100644
--- a/prog/emu/lc3.c
+++ b/prog/emu/lc3.c
@@ -144,7 +144,7 @@ pub int run(char *rompath) {
     }
 
     term.term_restore(term);
-    return 1;
+    return 0;
 }
 
 enum {
-- 
2.43.0


From 73ebc8a103367830f0ff4b24a89eb923d484f97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:46 +0000
Subject: [PATCH 165/218] fix: keys stay in the stdio buffer with input
 buffering disabled

---
 lib/os/term.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/os/term.c b/lib/os/term.c
index 2c91ce0..dfbfeb7 100644
--- a/lib/os/term.c
+++ b/lib/os/term.c
@@ -37,6 +37,8 @@ pub bool stdin_has_input() {
 pub void term_disable_input_buffering(term_t *t) {
     t->current_state.c_lflag &= ~OS.ICANON & ~OS.ECHO;
     OS.tcsetattr(t->fileno, OS.TCSANOW, &t->current_state);
+    // stdin_has_input can't see what stdio has read ahead.
+    setvbuf(stdin, NULL, OS._IONBF, 0);
 }
 
 pub void term_restore(term_t *t) {
-- 
2.43.0


From 867269bd652aa3c11d6dee0fad3a600df405ec26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:54 +0000
Subject: [PATCH 166/218] fix: unknown chip8 instructions run a random
 operation

---
 prog/emu/chip8instr.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/emu/chip8instr.c b/prog/emu/chip8instr.c
index 22525d3..ef0a53b 100644
--- a/prog/emu/chip8instr.c
+++ b/prog/emu/chip8instr.c
@@ -59,7 +59,7 @@ pub void decode(instr_t *i, uint8_t b1, b2) {
 	i->kk = kk;
 	i->d4 = d4;
 
-	int OP;
+	int OP = NOOP;
 	switch (c) {
 		case 1: { OP = JPnnn; } // 1nnn - JP nnn
 		case 2: { OP = CALLnnn; } // 2nnn - CALL nnn
-- 
2.43.0


From fa9632a740f54400fdfe3f013d759e72323d155d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:54 +0000
Subject: [PATCH 167/218] fix: overflow with chip8 roms larger than memory

---
 prog/emu/chip8.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index b233777..56059a3 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -111,6 +111,10 @@ void loadrom(chip8_t *c8, const char *rompath) {
 	while (true) {
 		int c = fgetc(f);
 		if (c == EOF) break;
+		if ((size_t) pos >= sizeof(c8->memory)) {
+			fprintf(stderr, "the file doesn't fit into memory\n");
+			exit(1);
+		}
 		c8->memory[pos++] = (uint8_t) c;
 	}
 	fclose(f);
-- 
2.43.0


From 11f3e71a7ecc62fb9ef6f3bf66e0bcdb53d0082f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:54 +0000
Subject: [PATCH 168/218] fix: chip8 accesses outside of the memory

---
 prog/emu/chip8.c | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 56059a3..cee6bb9 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -153,8 +153,8 @@ pub int run(char *rompath) {
 			c8.keyBuffer[code] = 1;
 		}
 
-		uint8_t b1 = c8.memory[c8.PC];
-		uint8_t b2 = c8.memory[c8.PC + 1];
+		uint8_t b1 = c8.memory[c8.PC & 0xFFF];
+		uint8_t b2 = c8.memory[(c8.PC + 1) & 0xFFF];
 		chip8instr.instr_t instr;
 		chip8instr.decode(&instr, b1, b2);
 
@@ -204,22 +204,19 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 			val /= 10;
 			uint8_t hundreds = val;
 
-			uint8_t *p = &c8->memory[c8->I];
-			*p++ = hundreds;
-			*p++ = tens;
-			*p++ = ones;
+			c8->memory[c8->I & 0xFFF] = hundreds;
+			c8->memory[(c8->I + 1) & 0xFFF] = tens;
+			c8->memory[(c8->I + 2) & 0xFFF] = ones;
 		}
 
 		// Draw first n bytes of selected sprite at (Vx, Vy), set VF to collision.
 		case chip8instr.DRWVxVyn: {
-			uint8_t *p = c8->memory + c8->I;
-
 			bool collision = false;
 			for (int i = 0; i < instr.d4; i++) {
 				int x = c8->registers[instr.x];
 				int y = c8->registers[instr.y] + (uint8_t) i;
-				collision = xor_sprite(c8, x, y, *p) || collision;
-				p++;
+				uint8_t sprite = c8->memory[(c8->I + (uint16_t) i) & 0xFFF];
+				collision = xor_sprite(c8, x, y, sprite) || collision;
 			}
 			if (collision) {
 				c8->registers[VF] = 1;
@@ -327,16 +324,14 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Dump V0..Vx to memory at I
 		case chip8instr.LD_I_Vx: {
-			uint8_t *p = &c8->memory[c8->I];
 			for (int i = 0; i <= instr.x; i++) {
-				*p++ = c8->registers[i];
+				c8->memory[(c8->I + (uint16_t) i) & 0xFFF] = c8->registers[i];
 			}
 		}
 		// Read V0..Vx from memory at I
 		case chip8instr.LDVx_I_: {
-			uint8_t *p = &c8->memory[c8->I];
 			for (int i = 0; i <= instr.x; i++) {
-				c8->registers[i] = *p++;
+				c8->registers[i] = c8->memory[(c8->I + (uint16_t) i) & 0xFFF];
 			}
 		}
 		// ST = Vx.
-- 
2.43.0


From bd5307d26bfee353b884fc341279772f0d5009ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:54 +0000
Subject: [PATCH 169/218] fix: chip8 sprites outside of the screen

---
 prog/emu/chip8.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index cee6bb9..802a1e8 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -424,7 +424,7 @@ bool xor_sprite(chip8_t *c8, int x, y, uint8_t sprite) {
 }
 
 bool xor_pixel(chip8_t *c8, int x, y, value) {
-	int pos = y * VID_WIDTH + x;
+	int pos = (y % VID_HEIGHT) * VID_WIDTH + x % VID_WIDTH;
 	uint8_t oldval = c8->video[pos];
 	uint8_t newval = oldval ^ value;
 	c8->video[pos] = newval;
-- 
2.43.0


From 80e34f6dd251b9680cfbcd2d9538d444cb234e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:55 +0000
Subject: [PATCH 170/218] fix: overflow of the chip8 call stack

---
 prog/emu/chip8.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 802a1e8..faa9648 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -248,12 +248,18 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Call subroutine at nnn.
 		case chip8instr.CALLnnn: {
+			if (c8->SP >= nelem(c8->callStack)) {
+				panic("call stack overflow");
+			}
 			c8->callStack[c8->SP] = c8->PC;
 			c8->SP++;
 			c8->PC = instr.nnn;
 		}
 		// Return from a call.
 		case chip8instr.RET: {
+			if (c8->SP == 0) {
+				panic("return without a call");
+			}
 			c8->SP--;
 			c8->PC = c8->callStack[c8->SP];
 			c8->callStack[c8->SP] = 0;
-- 
2.43.0


From 30f02bca2ca02500dd1cf506e1693266789337e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:55 +0000
Subject: [PATCH 171/218] fix: chip8 key numbers above 15

---
 prog/emu/chip8.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index faa9648..bc3eb16 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -290,7 +290,7 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Skip next instruction if key with the value of Vx is pressed.
 		case chip8instr.SKPVx: {
-			int key = c8->registers[instr.x];
+			int key = c8->registers[instr.x] & 0xF;
 			if (c8->keyBuffer[key]) {
 				c8->PC += 2;
 			}
@@ -298,7 +298,7 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Skip next instruction if key with the value of Vx is not pressed.
 		case chip8instr.SKNPVx: {
-			int key = c8->registers[instr.x];
+			int key = c8->registers[instr.x] & 0xF;
 			if (!c8->keyBuffer[key]) {
 				c8->PC += 2;
 			}
-- 
2.43.0


From aae1eda99c5a073d3384ad164f10dca7de6bfc51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:55 +0000
Subject: [PATCH 172/218] fix: chip8 subtraction with borrow

---
 prog/emu/chip8.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index bc3eb16..319aba2 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -382,11 +382,11 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		// Vx -= Vy, VF = not borrow
 		case chip8instr.SUBVxVy: {
 			if (c8->registers[instr.x] < c8->registers[instr.y]) {
-				c8->registers[VF] = 1;
-				c8->registers[instr.x] = 255 + c8->registers[instr.x] - c8->registers[instr.y];
-			} else {
+				c8->registers[instr.x] = 256 + c8->registers[instr.x] - c8->registers[instr.y];
 				c8->registers[VF] = 0;
+			} else {
 				c8->registers[instr.x] -= c8->registers[instr.y];
+				c8->registers[VF] = 1;
 			}
 		}
 		// Shift Vx to the right, VF = popped bit.
@@ -403,7 +403,7 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		// Vx = Vy - Vx, VF = not borrow
 		case chip8instr.SUBNVxVy: {
 			if (c8->registers[instr.y] < c8->registers[instr.x]) {
-				c8->registers[instr.x] = 255 + c8->registers[instr.y] - c8->registers[instr.x];
+				c8->registers[instr.x] = 256 + c8->registers[instr.y] - c8->registers[instr.x];
 				c8->registers[VF] = 0;
 			} else {
 				c8->registers[instr.x] = c8->registers[instr.y] - c8->registers[instr.x];
-- 
2.43.0


From efffa9f634e23a1786c709fea135c83fa8a54b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:55 +0000
Subject: [PATCH 173/218] fix: chip8 shifts of the flag register

---
 prog/emu/chip8.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 319aba2..8f8d4ab 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -391,14 +391,15 @@ void step(chip8_t *c8, chip8instr.instr_t instr) {
 		}
 		// Shift Vx to the right, VF = popped bit.
 		case chip8instr.SHRVx_Vy_: {
-			c8->registers[VF] = c8->registers[instr.x] & 1;
+			uint8_t bit = c8->registers[instr.x] & 1;
 			c8->registers[instr.x] = c8->registers[instr.x] >> 1;
+			c8->registers[VF] = bit;
 		}
 		// Shift Vx to the left, VF = popped bit.
 		case chip8instr.SHLVx_Vy_: {
 			uint16_t r = c8->registers[instr.x] << 1;
-			c8->registers[VF] = r > 255;
 			c8->registers[instr.x] = r & 0xFF;
+			c8->registers[VF] = r > 255;
 		}
 		// Vx = Vy - Vx, VF = not borrow
 		case chip8instr.SUBNVxVy: {
-- 
2.43.0


From f0a034da4f350e29189bd9acdefcf14f2dbac08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:55 +0000
Subject: [PATCH 174/218] fix: chip8 screens with the same number of pixels
 aren't drawn

---
 prog/emu/chip8.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 8f8d4ab..0823d58 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -505,20 +505,18 @@ bool contains(size_t *xs, size_t n, size_t x) {
 	return false;
 }
 
-int _prevsum = -1;
+uint8_t _prev[64 * 32] = {};
+bool _drawn = false;
 
 // Renders video buffer buf.
 void draw(uint8_t *buf, int width, height) {
 	int n = width * height;
 
-	int sum = 0;
-	for (int i = 0; i < n; i++) {
-		sum += buf[i];
-	}
-	if (sum == _prevsum) {
+	if (_drawn && memcmp(buf, _prev, n) == 0) {
 		return;
 	}
-	_prevsum = sum;
+	_drawn = true;
+	memcpy(_prev, buf, n);
 	for (int i = 0; i < n; i++) {
 		if (buf[i]) printf("█");
 		else printf(" ");
-- 
2.43.0


From b6755039dd928ccb4fe85cc165cf558a17c745f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:55 +0000
Subject: [PATCH 175/218] fix: overflows in the chip8 disassembler with large
 files

---
 prog/emu/chip8.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/prog/emu/chip8.c b/prog/emu/chip8.c
index 0823d58..0063ea4 100644
--- a/prog/emu/chip8.c
+++ b/prog/emu/chip8.c
@@ -450,7 +450,7 @@ void buzz() {
 
 pub int disas(char *rompath) {
 	// Read and parse the whole thing.
-	chip8instr.instr_t img[4000];
+	chip8instr.instr_t img[(4096 - 0x200) / 2];
 	size_t n = 0;
 	FILE *in = fopen(rompath, "rb");
 	if (!in) {
@@ -465,6 +465,10 @@ pub int disas(char *rompath) {
 			fprintf(stderr, "unexpected end of file\n");
 			return 1;
 		}
+		if (n == nelem(img)) {
+			fprintf(stderr, "the file doesn't fit into memory\n");
+			return 1;
+		}
 		uint8_t byte1 = (uint8_t) a;
 		uint8_t byte2 = (uint8_t) b;
 		chip8instr.decode(&img[n], byte1, byte2);
@@ -472,7 +476,7 @@ pub int disas(char *rompath) {
 	}
 	fclose(in);
 
-	size_t call_targets[100] = {};
+	size_t call_targets[nelem(img)] = {};
 	size_t call_targets_len = 0;
 	for (size_t j = 0; j < n; j++) {
 		chip8instr.instr_t i = img[j];
-- 
2.43.0


From 9baa869b36773955204521cc4429c57769fec375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:55 +0000
Subject: [PATCH 176/218] fix: operands in the chip8 disassembler

---
 prog/emu/chip8instr.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/prog/emu/chip8instr.c b/prog/emu/chip8instr.c
index ef0a53b..ab56597 100644
--- a/prog/emu/chip8instr.c
+++ b/prog/emu/chip8instr.c
@@ -152,13 +152,13 @@ pub void print_instr(instr_t i) {
 			fprintf(f, "SUB V%x V%x\t# V[%x] -= V[%x]", i.x, i.y, i.x, i.y);
 		}
 		case SHRVx_Vy_: {
-			fprintf(f, "SHR Vx _Vy_");
+			fprintf(f, "SHR V%x {V%x}", i.x, i.y);
 		}
 		case SUBNVxVy: {
-			fprintf(f, "SUBN Vx Vy");
+			fprintf(f, "SUBN V%x V%x", i.x, i.y);
 		}
 		case SHLVx_Vy_: {
-			fprintf(f, "SHL Vx _Vy_");
+			fprintf(f, "SHL V%x {V%x}", i.x, i.y);
 		}
 		case SNEVxVy: {
 			fprintf(f, "SNE V%x V%x\t# skip if V[%x] != V[%x]", i.x, i.y, i.x, i.y);
@@ -167,7 +167,7 @@ pub void print_instr(instr_t i) {
 			fprintf(f, "LD I 0x%x\t# I = %x", i.nnn, i.nnn);
 		}
 		case JPV0nnn: {
-			fprintf(f, "JP V%x 0x%x\t# jump to V[%x] + %d", i.x, i.nnn, i.x, i.nnn);
+			fprintf(f, "JP V0 0x%x\t# jump to V[0] + %d", i.nnn, i.nnn);
 		}
 		case RNDVxkk: {
 			fprintf(f, "RND V%x 0x%x\t# V[%x] = random & 0x%x", i.x, i.kk, i.x, i.kk);
@@ -185,7 +185,7 @@ pub void print_instr(instr_t i) {
 			fprintf(f, "LD V%x DT\t# V[%x] = DT", i.x, i.x);
 		}
 		case LDDTVx: {
-			fprintf(f, "LD DT V%d\t# DT = V[%x]", i.x, i.x);
+			fprintf(f, "LD DT V%x\t# DT = V[%x]", i.x, i.x);
 		}
 		case LDVxK: {
 			fprintf(f, "LD V%x K\t# V%x = wait_key_press()", i.x, i.x);
@@ -194,7 +194,7 @@ pub void print_instr(instr_t i) {
 			fprintf(f, "LD ST V%x\t# ST = V%x", i.x, i.x);
 		}
 		case ADDIVx: {
-			fprintf(f, "ADD I V%x\t# I = V%x", i.x, i.x);
+			fprintf(f, "ADD I V%x\t# I += V%x", i.x, i.x);
 		}
 		case LDFVx: {
 			fprintf(f, "LD F V%x \t# I = sprite_addr(V[%x])", i.x, i.x);
-- 
2.43.0


From e60d4bba95f23f8544c0aab941c30795e6836d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 177/218] fix: aliases of aliases are refused in expressions

---
 src/translator.rs | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 9b1d8b7..b887ed7 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -733,22 +733,27 @@ fn tr_union(x: &nodes::Union, ctx: &mut TrCtx) -> Result<c::CUnion, BuildError>
 }
 
 fn root_type(t: &types::Type, ctx: &TrCtx) -> types::Type {
-    if t.base.ns != "" {
-        return types::todo();
-    }
-    if cspec::has_type(&t.base.name) {
-        return t.clone();
-    }
-    match ctx.other_typedefs.get(t.base.name.as_str()) {
-        Some(b) => {
-            let mut r = b.t.clone();
-            for (i, op) in t.ops.iter().enumerate() {
-                r.ops.insert(i, op.clone());
+    let mut t = t.clone();
+    // A chain of aliases can't be longer than their number.
+    for _ in 0..=ctx.other_typedefs.len() {
+        if t.base.ns != "" {
+            return types::todo();
+        }
+        if cspec::has_type(&t.base.name) {
+            return t;
+        }
+        match ctx.other_typedefs.get(t.base.name.as_str()) {
+            Some(b) => {
+                let mut r = b.t.clone();
+                for (i, op) in t.ops.iter().enumerate() {
+                    r.ops.insert(i, op.clone());
+                }
+                t = r;
             }
-            r
+            None => return t, // todo
         }
-        None => t.clone(), // todo
     }
+    t
 }
 
 // <..> <op> <..>
-- 
2.43.0


From 3b8783bb5ac737d621069e3a1d8940fe17348810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 178/218] fix: dereferencing of arrays and aliases of pointers
 is refused

---
 src/translator.rs | 2 +-
 src/types.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index b887ed7..3017544 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -808,7 +808,7 @@ fn tr_prefop(x: &nodes::PrefixOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>, Bui
         "!" => Ok(types::just("bool")),
         "-" | "~" => Ok(operand.typ),
         "&" => Ok(types::typeof_addr(operand.typ)),
-        "*" => types::typeof_deref(&operand.typ),
+        "*" => types::typeof_deref(&root_type(&operand.typ, ctx)),
         _ => {
             println!("op type = {}", operand.typ.fmt());
             dbg!(x);
diff --git a/src/types.rs b/src/types.rs
index e80b42d..6287edf 100644
--- a/src/types.rs
+++ b/src/types.rs
@@ -157,7 +157,7 @@ pub fn typeof_deref(t: &Type) -> Result<Type, String> {
     if is_todo(t) {
         return Ok(t.clone());
     }
-    if !matches!(t.ops.first(), Some(TypeOp::Deref)) {
+    if !matches!(t.ops.first(), Some(TypeOp::Deref | TypeOp::Index)) {
         return Err(format!("dereference of a non-pointer ({})", t.fmt()));
     }
     Ok(Type {
-- 
2.43.0


From 085e49eac027b9a55e65d5a24b05c95281ac4c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:01 +0000
Subject: [PATCH 179/218] fix: aliases of booleans, numbers and pointers are
 refused as conditions

---
 src/translator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/translator.rs b/src/translator.rs
index 3017544..8ed7fdc 100644
--- a/src/translator.rs
+++ b/src/translator.rs
@@ -765,7 +765,7 @@ fn tr_binary_op(x: &nodes::BinaryOp, ctx: &mut TrCtx) -> Result<Typed<c::Expr>,
     let bt = root_type(&b.typ, ctx);
 
     let typ = match x.op.as_str() {
-        "||" | "&&" => types::typeof_boolcomp(&a.typ, &b.typ),
+        "||" | "&&" => types::typeof_boolcomp(&at, &bt),
         "==" | "<" | ">" | "!=" | ">=" | "<=" => types::typeof_cmp(&at, &bt),
         "-" | "+" => types::typeof_plusminus(x.op.as_str(), &at, &bt),
         "*" | "/" | "%" | "<<" | ">>" | "&" | "|" | "^" => types::typeof_arith(&at, &bt),
@@ -1295,7 +1295,7 @@ fn tr_for(x: &nodes::For, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
     let condition = match &x.condition {
         Some(x) => {
             let c = tr_expr(&x, ctx)?;
-            if !types::is_booly(&c.typ) {
+            if !types::is_booly(&root_type(&c.typ, ctx)) {
                 return Err(BuildError {
                     message: format!("{} used as condition", &c.typ.fmt()),
                     path: ctx.this_mod_head.filepath.clone(),
@@ -1505,7 +1505,7 @@ fn tr_vardecl(x: &nodes::VarDecl, ctx: &mut TrCtx) -> Result<c::Statement, Build
 // while (...) { ... }
 fn tr_while(x: &nodes::While, ctx: &mut TrCtx) -> Result<c::Statement, BuildError> {
     let cond = tr_expr(&x.cond, ctx)?;
-    if !types::is_booly(&cond.typ) {
+    if !types::is_booly(&root_type(&cond.typ, ctx)) {
         return Err(BuildError {
             message: format!("{} used as condition", &cond.typ.fmt()),
             path: ctx.this_mod_head.filepath.clone(),
-- 
2.43.0


From ca084a234ae925e97609217a30e36cd5aabc1007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:47 +0000
Subject: [PATCH 180/218] fix: truncated xml documents end in panics or endless
 loops

---
 lib/formats/xml.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/formats/xml.c b/lib/formats/xml.c
index 3f56f5b..cc2ec58 100644
--- a/lib/formats/xml.c
+++ b/lib/formats/xml.c
@@ -205,7 +205,11 @@ pub void xml_next(xml *x) {
 		case T_MONO: {
 			__tag *next = next_tag(x);
 			if (!next) {
-				error(x, "Unexpected end of file");
+				// The root itself has nothing after it.
+				if (x->pathlen > 0) {
+					error(x, "Unexpected end of file");
+				}
+				x->node.type = T_NULL;
 				return;
 			}
 			/*
@@ -239,7 +243,7 @@ pub void xml_leave(xml *x)
 	/*
 	 * Skip remaining siblings
 	 */
-	while(x->node.type != T_NULL) {
+	while(x->node.type != T_NULL && !x->error[0]) {
 		xml_next(x);
 	}
 
@@ -247,6 +251,9 @@ pub void xml_leave(xml *x)
 	 * Expect closing tag for current parent
 	 */
 	__tag *t = next_tag(x);
+	if(x->error[0]) {
+		return;
+	}
 	const char *pname = x->path[x->pathlen-1];
 	if (!t || t->type != T_CLOSE || strcmp(t->name, pname) != 0) {
 		error(x, "Missing closing tag for %s", pname);
@@ -302,10 +309,14 @@ void shift(xml *x)
 
 /*
  * Returns a pointer to the next tag from the file.
+ * Returns NULL if there are no more tags or if there was an error.
  */
 __tag *next_tag(xml *x)
 {
 	read_tag(x);
+	if(x->error[0] != '\0' || x->next_tag.type == T_NULL) {
+		return NULL;
+	}
 	return &(x->next_tag);
 }
 
@@ -445,6 +456,11 @@ void expect(xml *x, int ch)
 
 void error(xml *x, const char *fmt, ...)
 {
+	// What follows the first error is its consequence.
+	if(x->error[0]) {
+		return;
+	}
+
 	va_list l = {};
 	va_start(l, fmt);
 	vsnprintf(x->error, sizeof(x->error), fmt, l);
-- 
2.43.0


From 1b188737f478d217f705a8fe1cd4f6ffb5a03e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:25:47 +0000
Subject: [PATCH 181/218] fix: leaving the root of an xml document reads
 outside the path

---
 lib/formats/xml.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/formats/xml.c b/lib/formats/xml.c
index cc2ec58..7448939 100644
--- a/lib/formats/xml.c
+++ b/lib/formats/xml.c
@@ -250,6 +250,10 @@ pub void xml_leave(xml *x)
 	/*
 	 * Expect closing tag for current parent
 	 */
+	if(x->pathlen == 0) {
+		error(x, "Nothing to leave");
+		return;
+	}
 	__tag *t = next_tag(x);
 	if(x->error[0]) {
 		return;
-- 
2.43.0


From 320da2f1128c2d479be534767e75d9dcdb28323e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:18 +0000
Subject: [PATCH 182/218] fix: dtd definitions larger than the fixed buffers
 overflow them

---
 lib/formats/dtd.c | 51 ++++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/lib/formats/dtd.c b/lib/formats/dtd.c
index 146216f..07cf330 100644
--- a/lib/formats/dtd.c
+++ b/lib/formats/dtd.c
@@ -81,14 +81,20 @@ pub schema_t parse(const char *real_dtd) {
 	char buf[200] = {};
 	const char *p = real_dtd;
 	while (true) {
-		p = loadline(p, buf);
+		p = loadline(p, buf, sizeof(buf));
 		if (buf[0] == '\0') {
 			break;
 		}
 		if (strings.starts_with(buf, "<!ATTLIST ")) {
+			if (schema.attrnum == (int) nelem(schema.attlists)) {
+				panic("too many attribute lists");
+			}
 			attlist_t *attlist = &schema.attlists[schema.attrnum++];
 			read_attlist(buf, attlist);
 		} else {
+			if (schema.elemnum == (int) nelem(schema.elements)) {
+				panic("too many elements");
+			}
 			element_t *element = &schema.elements[schema.elemnum++];
 			char *p = buf;
 			read_element(&p, element);
@@ -105,14 +111,17 @@ void read_attlist(char *p, attlist_t *attlist) {
 	p = skiplit(p, "<!ATTLIST ");
 	while (isspace(*p)) p++;
 
-	strcpy(attlist->host, readname(&p));
+	readname(&p, attlist->host, sizeof(attlist->host));
 	while (isspace(*p)) p++;
 
 	while (*p != '\0' && *p != '>') {
+		if (attlist->size == (int) nelem(attlist->items)) {
+			panic("too many attributes: %s", p);
+		}
 		att_t *att = &attlist->items[attlist->size++];
 
 		// name
-		strcpy(att->name, readname(&p));
+		readname(&p, att->name, sizeof(att->name));
 		while (isspace(*p)) p++;
 
 		// type
@@ -157,7 +166,7 @@ void read_element(char **s, element_t *element) {
 	while (isspace(*p)) p++;
 
 	// name + spaces
-	strcpy(element->name, readname(&p));
+	readname(&p, element->name, sizeof(element->name));
 	while (isspace(*p)) p++;
 
 	// child list
@@ -199,6 +208,9 @@ child_list_t *read_child_list(char **s) {
 
 	p = skiplit(p, "(");
 	while (*p != '\0') {
+		if (list->size == (int) nelem(list->items)) {
+			panic("too many children: %s", p);
+		}
 		child_entry_t *it = &list->items[list->size++];
 		item(&p, it);
 		while (isspace(*p)) p++;
@@ -242,7 +254,7 @@ void item(char **s, child_entry_t *item) {
 		p = skiplit(p, "#PCDATA");
 		strcpy(elem->name, "#PCDATA");
 	} else {
-		strcpy(elem->name, readname(&p));
+		readname(&p, elem->name, sizeof(elem->name));
 		elem->quantifier = mb_quant(&p);
 	}
 	*s = p;
@@ -266,21 +278,32 @@ char *skiplit(char *line, *lit) {
 	return line + strlen(lit);
 }
 
-char *readname(char **s) {
-	char *name = calloc!(100, 1);
+void readname(char **s, char *name, size_t size) {
 	char *p = *s;
-	char *n = name;
-	while (isalpha(*p) || *p == '_') *n++ = *p++;
+	size_t len = 0;
+	while (isalpha(*p) || *p == '_') {
+		if (len == size - 1) {
+			panic("name too long: %s", *s);
+		}
+		name[len++] = *p++;
+	}
+	name[len] = '\0';
+	if (len == 0) {
+		panic("expected a name, got %s", *s);
+	}
 	*s = p;
-	return name;
 }
 
-const char *loadline(const char *p, char *buf) {
+const char *loadline(const char *p, char *buf, size_t size) {
 	while (isspace(*p)) p++;
-	char *b = buf;
+	size_t len = 0;
 	while (*p != '\0' && *p != '\n') {
-		*b++ = *p++;
+		if (len == size - 1) {
+			panic("line too long: %s...", buf);
+		}
+		buf[len++] = *p++;
+		buf[len] = '\0';
 	}
-	*b = '\0';
+	buf[len] = '\0';
 	return p;
 }
-- 
2.43.0


From 5eea5fece2c97fc09fc23f00061a8fb66e9c4870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:18 +0000
Subject: [PATCH 183/218] fix: generated texts and numbers leave the range
 asked for

---
 lib/ipsum.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/ipsum.c b/lib/ipsum.c
index d700a4e..a466182 100644
--- a/lib/ipsum.c
+++ b/lib/ipsum.c
@@ -84,7 +84,7 @@ bool parse(tokenizer.t *b) {
 		if (!tokenizer.skip_literal(b, "..")) return false;
 		if (!readnum(b, &n2)) return false;
 		if (!tokenizer.skip_literal(b, "]")) return false;
-		int n = n1 + (int) rnd.intn(n2);
+		int n = n1 + (int) rnd.intn(n2 - n1 + 1);
 		for (int i = 0; i < n; i++) {
 			int wc = 1 + rnd.intn(4);
 			for (int w = 0; w < wc; w++) {
@@ -103,7 +103,7 @@ bool parse(tokenizer.t *b) {
 		if (!tokenizer.skip_literal(b, ",")) return false;
 		if (!readfloat(b, &n2)) return false;
 		if (!tokenizer.skip_literal(b, "]")) return false;
-		double d = n1 + rnd.u() * n2;
+		double d = n1 + rnd.u() * (n2 - n1);
         printf("%.2f", d);
 		return true;
 	}
-- 
2.43.0


From ca172ce64311eb1e25503b595db5d70ac5980fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:26 +0000
Subject: [PATCH 184/218] fix: torrent: slices that span several files are read
 and written wrong

---
 prog/torrent/files.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prog/torrent/files.c b/prog/torrent/files.c
index a896b9a..9641aff 100644
--- a/prog/torrent/files.c
+++ b/prog/torrent/files.c
@@ -111,9 +111,9 @@ int sliceop(int op, const char *prefix, torrent.info_t *tf, range_t bs, char *bu
         char *path = strings.newstr("%s/%s", prefix, s->path);
         int r;
         if (op == 1) {
-            r = _read(path, s, buf);
+            r = _read(path, s, buf + c);
         } else {
-            r = _write(path, s, buf);
+            r = _write(path, s, buf + c);
         }
         free(path);
         if (r < 0) {
-- 
2.43.0


From a60a3e993fdd61d0ae2bbca7a8fb6d34f0477e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:27 +0000
Subject: [PATCH 185/218] fix: torrent: missing or short files stop the program
 or pass for good data

---
 prog/torrent/files.c | 33 +++++++++++++++++++++------------
 prog/torrent/peer.c  | 10 ++++++++--
 2 files changed, 29 insertions(+), 14 deletions(-)

diff --git a/prog/torrent/files.c b/prog/torrent/files.c
index 9641aff..09de594 100644
--- a/prog/torrent/files.c
+++ b/prog/torrent/files.c
@@ -87,19 +87,17 @@ pub vec.t *get_file_list(torrent.info_t *tf) {
 }
 
 // Writes a piece slice to disk in directory prefix.
-pub void writeslice(const char *dirpath, torrent.info_t *tf, range_t bs, uint8_t *data) {
+// Returns false on failure.
+pub bool writeslice(const char *dirpath, torrent.info_t *tf, range_t bs, uint8_t *data) {
     dbg.m(DBG_TAG, "writing at %s: piece #%zu, range %zu + %zu", dirpath, bs.index, bs.begin, bs.length);
-    if (sliceop(0, dirpath, tf, bs, (char *)data) < 0) {
-        panic("sliceop failed");
-    }
+    return sliceop(0, dirpath, tf, bs, (char *)data) == (int) bs.length;
 }
 
 // Reads a piece slice from disk in directory dirpath.
-pub void readslice(const char *dirpath, torrent.info_t *tf, range_t bs, uint8_t *buf) {
+// Returns false if the slice could not be read whole.
+pub bool readslice(const char *dirpath, torrent.info_t *tf, range_t bs, uint8_t *buf) {
     dbg.m(DBG_TAG, "reading at %s: piece #%zu, range %zu + %zu", dirpath, bs.index, bs.begin, bs.length);
-    if (sliceop(1, dirpath, tf, bs, (char *)buf) < 0) {
-        panic("sliceop failed");
-    }
+    return sliceop(1, dirpath, tf, bs, (char *)buf) == (int) bs.length;
 }
 
 int sliceop(int op, const char *prefix, torrent.info_t *tf, range_t bs, char *buf) {
@@ -121,6 +119,8 @@ int sliceop(int op, const char *prefix, torrent.info_t *tf, range_t bs, char *bu
             break;
         }
         c += r;
+        // What follows would end up in a wrong place.
+        if ((size_t) r != s->length) break;
     }
     vec.free(locs);
     return c;
@@ -131,11 +131,14 @@ int _write(const char *path, file_slice_t *s, char *buf) {
     FILE *f = fopen(path, "r+b");
     if (!f) f = fopen(path, "w+b");
     if (!f) return -1;
-    if (fseek(f, s->begin, SEEK_SET) < 0) return -1;
+    if (fseek(f, s->begin, SEEK_SET) < 0) {
+        fclose(f);
+        return -1;
+    }
     dbg.m(DBG_TAG, "fseek %zu -> %d", s->begin, ftell(f));
     size_t r = fwrite(buf, 1, s->length, f);
     dbg.m(DBG_TAG, "fwrite: expected %zu, got %zu", s->length, r);
-    fclose(f);
+    if (fclose(f) != 0) return -1;
     return (int) r;
 }
 
@@ -143,7 +146,10 @@ int _read(const char *path, file_slice_t *s, char *buf) {
     dbg.m(DBG_TAG, "= reading file %s, range %zu + %zu", path, s->begin, s->length);
     FILE *f = fopen(path, "rb");
     if (!f) return -1;
-    if (fseek(f, s->begin, SEEK_SET) < 0) return -1;
+    if (fseek(f, s->begin, SEEK_SET) < 0) {
+        fclose(f);
+        return -1;
+    }
     size_t r = fread(buf, 1, s->length, f);
     dbg.m(DBG_TAG, "fread: expected %lu, got %zu\n", s->length, r);
     fclose(f);
@@ -164,7 +170,10 @@ pub bool check_piece(const char *prefix, torrent.info_t *tf, size_t piece_index)
         .begin = 0,
         .length = piecelen
     };
-    readslice(prefix, tf, bs, piece);
+    if (!readslice(prefix, tf, bs, piece)) {
+        free(piece);
+        return false;
+    }
     // ----------------
     
     //
diff --git a/prog/torrent/peer.c b/prog/torrent/peer.c
index 33e1f0c..0dbdf30 100644
--- a/prog/torrent/peer.c
+++ b/prog/torrent/peer.c
@@ -239,7 +239,11 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
                 .begin = req->begin,
                 .length = req->length
             };
-            files.readslice(".", tf, freq, tmpbuf1);
+            if (!files.readslice(".", tf, freq, tmpbuf1)) {
+                fprintf(stderr, "could not read piece %u\n", freq.index);
+                ioloop.close(ctx);
+                return;
+            }
             if (peerproto.write_piece(w, freq, tmpbuf1) < 0) {
                 panic("oops, writer pos is %zu", w->nwritten);
             }
@@ -252,7 +256,9 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
                 .begin = piece->begin,
                 .length = piece->length
             };
-            files.writeslice(outdir, tf, freq, piece->data);
+            if (!files.writeslice(outdir, tf, freq, piece->data)) {
+                panic("could not write piece %u: %s", freq.index, strerror(errno));
+            }
             if (files.check_piece(outdir, tf, freq.index)) {
                 printf("piece %u OK\n", freq.index);
                 request_pieces(ctx);
-- 
2.43.0


From 6036d5f97bea9332299e53ecc11d1ba3b4c24ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 186/218] fix: torrent: directories of downloaded files are not
 created

---
 prog/torrent/files.c | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/prog/torrent/files.c b/prog/torrent/files.c
index 09de594..1df115d 100644
--- a/prog/torrent/files.c
+++ b/prog/torrent/files.c
@@ -5,6 +5,8 @@
 #import lib.c
 #import strings
 
+#include <sys/stat.h>
+
 const char *DBG_TAG = "files";
 
 // All files in a torrent are glued together and then split into equal
@@ -129,7 +131,10 @@ int sliceop(int op, const char *prefix, torrent.info_t *tf, range_t bs, char *bu
 int _write(const char *path, file_slice_t *s, char *buf) {
     dbg.m(DBG_TAG, "= writing file %s, range %zu + %zu", path, s->begin, s->length);
     FILE *f = fopen(path, "r+b");
-    if (!f) f = fopen(path, "w+b");
+    if (!f) {
+        make_parents(path);
+        f = fopen(path, "w+b");
+    }
     if (!f) return -1;
     if (fseek(f, s->begin, SEEK_SET) < 0) {
         fclose(f);
@@ -142,6 +147,18 @@ int _write(const char *path, file_slice_t *s, char *buf) {
     return (int) r;
 }
 
+// Creates the directories leading to the file at path.
+void make_parents(const char *path) {
+    char *dir = strings.newstr("%s", path);
+    for (char *p = dir + 1; *p != '\0'; p++) {
+        if (*p != '/') continue;
+        *p = '\0';
+        OS.mkdir(dir, OS.S_IRWXU | OS.S_IRWXG | OS.S_IRWXO);
+        *p = '/';
+    }
+    free(dir);
+}
+
 int _read(const char *path, file_slice_t *s, char *buf) {
     dbg.m(DBG_TAG, "= reading file %s, range %zu + %zu", path, s->begin, s->length);
     FILE *f = fopen(path, "rb");
-- 
2.43.0


From 43ebcda73754240de20e18202f0a621c0e325950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:29 +0000
Subject: [PATCH 187/218] fix: torrent: file paths from a torrent may leave the
 directory

---
 prog/torrent/files.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/prog/torrent/files.c b/prog/torrent/files.c
index 1df115d..71d4ee5 100644
--- a/prog/torrent/files.c
+++ b/prog/torrent/files.c
@@ -108,6 +108,11 @@ int sliceop(int op, const char *prefix, torrent.info_t *tf, range_t bs, char *bu
     int c = 0;
     for (size_t i = 0; i < n; i++) {
         file_slice_t *s = vec.index(locs, i);
+        if (!is_inside(s->path)) {
+            fprintf(stderr, "refusing the path %s\n", s->path);
+            c = -1;
+            break;
+        }
         char *path = strings.newstr("%s/%s", prefix, s->path);
         int r;
         if (op == 1) {
@@ -128,6 +133,17 @@ int sliceop(int op, const char *prefix, torrent.info_t *tf, range_t bs, char *bu
     return c;
 }
 
+// Tells whether the path stays in the directory it's relative to.
+bool is_inside(const char *path) {
+    const char *p = path;
+    while (*p != '\0') {
+        if (!strcmp(p, "..") || strings.starts_with(p, "../")) return false;
+        while (*p != '\0' && *p != '/') p++;
+        while (*p == '/') p++;
+    }
+    return true;
+}
+
 int _write(const char *path, file_slice_t *s, char *buf) {
     dbg.m(DBG_TAG, "= writing file %s, range %zu + %zu", path, s->begin, s->length);
     FILE *f = fopen(path, "r+b");
-- 
2.43.0


From 6319280745f81b53b149e42d276c5980c67665eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:31 +0000
Subject: [PATCH 188/218] fix: torrent: received messages are kept misaligned,
 bitfields overflow

---
 prog/torrent/peer.c      | 23 ++++++++++++-----------
 prog/torrent/peerproto.c | 29 +++++++++++++++++++----------
 2 files changed, 31 insertions(+), 21 deletions(-)

diff --git a/prog/torrent/peer.c b/prog/torrent/peer.c
index 0dbdf30..6b74fbe 100644
--- a/prog/torrent/peer.c
+++ b/prog/torrent/peer.c
@@ -152,7 +152,8 @@ enum { HANDSHAKE, KEEPALIVE, MSG }
 
 typedef {
     int type;
-    char data[10000];
+    peerproto.handshake_t handshake;
+    peerproto.msg_t msg;
 } req_t;
 
 int read_request(reader.t *r, peer_t *state, req_t *req) {
@@ -161,7 +162,7 @@ int read_request(reader.t *r, peer_t *state, req_t *req) {
             return 0;
         }
         req->type = HANDSHAKE;
-        peerproto.handshake_t *hs = (void *) req->data;
+        peerproto.handshake_t *hs = &req->handshake;
         int c = peerproto.read_handshake(r, hs);
         printf("Got a handshake, proto = %s\n", (char *)hs->proto);
         printf("infohash: ");
@@ -190,10 +191,8 @@ int read_request(reader.t *r, peer_t *state, req_t *req) {
         if (len == 0) {
             req->type = KEEPALIVE;
         } else {
-            peerproto.msg_t msg = {};
-            peerproto.read_message(r, len, &msg);
+            peerproto.read_message(r, len, &req->msg);
             req->type = MSG;
-            memcpy(req->data, &msg, sizeof(msg));
         }
         return 123;
     }
@@ -222,17 +221,18 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
     if (req->type != MSG) {
         panic("unknown req type: %d", req->type);
     }
-    peerproto.msg_t *msg = (void *) req->data;
+    peerproto.msg_t *msg = &req->msg;
     switch (msg->id) {
         case peerproto.MSG_BITFIELD: {
-            bool *flags = (void*) msg->data;
+            peerproto.msg_bitfield_t *field = &msg->bitfield;
             size_t npieces = torrent.npieces(tf);
-            for (size_t i = 0; i < npieces; i++) {
-                printf("peer has %zu: %d\n", i, flags[i]);
+            for (size_t i = 0; i < npieces && i < field->length; i++) {
+                printf("peer has %zu: %d\n", i, field->flags[i]);
             }
+            free(field->flags);
         }
         case peerproto.MSG_REQUEST: {
-            peerproto.msg_request_t *req = (void *) msg->data;
+            peerproto.msg_request_t *req = &msg->request;
             dbg.m(TAG, "got read request: (%u, %u, %u)", req->index, req->begin, req->length);
             files.range_t freq = {
                 .index = req->index,
@@ -249,7 +249,7 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
             }
         }
         case peerproto.MSG_PIECE: {
-            peerproto.msg_piece_t *piece = (void*) msg->data;
+            peerproto.msg_piece_t *piece = &msg->piece;
             dbg.m(TAG, "got slice (%u, %u, %u)", piece->index, piece->begin, piece->length);
             files.range_t freq = {
                 .index = piece->index,
@@ -259,6 +259,7 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
             if (!files.writeslice(outdir, tf, freq, piece->data)) {
                 panic("could not write piece %u: %s", freq.index, strerror(errno));
             }
+            free(piece->data);
             if (files.check_piece(outdir, tf, freq.index)) {
                 printf("piece %u OK\n", freq.index);
                 request_pieces(ctx);
diff --git a/prog/torrent/peerproto.c b/prog/torrent/peerproto.c
index a8b4d5e..354f4c8 100644
--- a/prog/torrent/peerproto.c
+++ b/prog/torrent/peerproto.c
@@ -56,11 +56,6 @@ pub enum {
     MSG_PIECE = 7
 }
 
-pub typedef {
-    uint8_t id;
-    uint8_t data[1000]; // untyped
-} msg_t;
-
 pub typedef {
     uint32_t index, begin, length;
 } msg_request_t;
@@ -70,6 +65,18 @@ pub typedef {
     uint8_t *data; // the consumer frees it.
 } msg_piece_t;
 
+pub typedef {
+    size_t length;
+    bool *flags; // the consumer frees it.
+} msg_bitfield_t;
+
+pub typedef {
+    uint8_t id;
+    msg_request_t request;
+    msg_piece_t piece;
+    msg_bitfield_t bitfield;
+} msg_t;
+
 // Reads a message length, which is a uint32.
 // Messages are preceded with their lengths in bytes, not counting the length
 // itself. So the parsing is: 1. read length. 2. msg = read <length> bytes.
@@ -88,7 +95,7 @@ pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
         // begin: uint32be, byte offset within the piece
         // length: uint32be, data length, typically 16 KB
         case MSG_REQUEST: {
-            msg_request_t *req = (void *)m->data;
+            msg_request_t *req = &m->request;
             endian.read4be(r, &req->index);
             endian.read4be(r, &req->begin);
             endian.read4be(r, &req->length);
@@ -97,7 +104,7 @@ pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
         // 4: offset
         // msglen - (4+4+1): data
         case MSG_PIECE: {
-            msg_piece_t *piece = (void *)m->data;
+            msg_piece_t *piece = &m->piece;
             endian.read4be(r, &piece->index);
             endian.read4be(r, &piece->begin);
             piece->length = msglen-9;
@@ -106,14 +113,16 @@ pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
         }
         // msglen-1: bytes
         case MSG_BITFIELD: {
-            bool *flags = (void *)m->data;
-            int n = 0;
+            msg_bitfield_t *field = &m->bitfield;
+            field->length = (msglen - 1) * 8;
+            field->flags = calloc!(field->length + 1, sizeof(bool));
+            size_t n = 0;
             for (uint32_t i = 0; i < msglen-1; i++) {
                 uint8_t byte;
                 reader.read(r, &byte, 1);
                 for (int j = 0; j < 8; j++) {
                     bool set = byte & (1<<(7-j));
-                    flags[n++] = set;
+                    field->flags[n++] = set;
                     printf("piece %d: %d\n", i * 8 + (uint32_t) j, set);
                 }
             }
-- 
2.43.0


From 3e92d9a21e205756e0d1dd847964eb91e3757bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:31 +0000
Subject: [PATCH 189/218] fix: torrent: messages of other clients stop the
 program

---
 prog/torrent/peer.c      | 3 ---
 prog/torrent/peerproto.c | 4 +++-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/prog/torrent/peer.c b/prog/torrent/peer.c
index 6b74fbe..7cf53a3 100644
--- a/prog/torrent/peer.c
+++ b/prog/torrent/peer.c
@@ -265,9 +265,6 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
                 request_pieces(ctx);
             }
         }
-        default: {
-            panic("!");
-        }
     }
 }
 
diff --git a/prog/torrent/peerproto.c b/prog/torrent/peerproto.c
index 354f4c8..09c9e4c 100644
--- a/prog/torrent/peerproto.c
+++ b/prog/torrent/peerproto.c
@@ -127,8 +127,10 @@ pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
                 }
             }
         }
+        // Choking, interest and announcements don't matter here.
         default: {
-            panic("unknown message: %d", m->id);
+            dbg.m(TAG, "skipping message %d", m->id);
+            reader.read(r, NULL, msglen - 1);
         }
     }
 }
-- 
2.43.0


From f201ba93333ec43b2c4aa6dfd4899942f08c808a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:31 +0000
Subject: [PATCH 190/218] fix: torrent: malformed messages stop the program or
 reach outside of the buffers

---
 prog/torrent/peer.c      | 22 ++++++++++++++++++----
 prog/torrent/peerproto.c | 11 ++++++++---
 2 files changed, 26 insertions(+), 7 deletions(-)

diff --git a/prog/torrent/peer.c b/prog/torrent/peer.c
index 7cf53a3..9ba861e 100644
--- a/prog/torrent/peer.c
+++ b/prog/torrent/peer.c
@@ -120,10 +120,14 @@ pub void handle(void *ctx, int event, void *edata) {
                 // Read a message. If no message could be read, stop.
                 req_t req = {};
                 reader.t *r = reader.static_buffer(state->stash, state->stashlen);
-                bool ok = read_request(r, state, &req);
+                int ok = read_request(r, state, &req);
                 size_t nread = r->pos;
                 reader.free(r);
-                if (!ok) break;
+                if (ok < 0) {
+                    ioloop.close(ctx);
+                    break;
+                }
+                if (ok == 0) break;
 
                 // Process the message and write the response.
                 // He we're being optimistic about the outbox having enough
@@ -156,6 +160,10 @@ typedef {
     peerproto.msg_t msg;
 } req_t;
 
+// The longest message that may be received.
+const uint32_t MAX_MESSAGE = 900000;
+
+// Returns 0 if the message is not complete yet, a negative value if it's wrong.
 int read_request(reader.t *r, peer_t *state, req_t *req) {
     if (state->state == WAITING_HANDSHAKE) {
         if (state->stashlen < 68) {
@@ -164,6 +172,7 @@ int read_request(reader.t *r, peer_t *state, req_t *req) {
         req->type = HANDSHAKE;
         peerproto.handshake_t *hs = &req->handshake;
         int c = peerproto.read_handshake(r, hs);
+        if (c < 0) return -1;
         printf("Got a handshake, proto = %s\n", (char *)hs->proto);
         printf("infohash: ");
         hex.write(writer.stdout(), (char *) hs->infohash, 20);
@@ -180,8 +189,11 @@ int read_request(reader.t *r, peer_t *state, req_t *req) {
         // hack: make sure there's a complete message in stash.
         reader.t *tmpr = reader.static_buffer(state->stash, state->stashlen);
         uint32_t len = peerproto.read_length(tmpr);
-        bool ok = (state->stashlen >= 4 + len);
         reader.free(tmpr);
+        if (len > MAX_MESSAGE) {
+            return -1;
+        }
+        bool ok = (state->stashlen >= 4 + len);
         if (!ok) {
             return 0;
         }
@@ -191,7 +203,9 @@ int read_request(reader.t *r, peer_t *state, req_t *req) {
         if (len == 0) {
             req->type = KEEPALIVE;
         } else {
-            peerproto.read_message(r, len, &req->msg);
+            if (!peerproto.read_message(r, len, &req->msg)) {
+                return -1;
+            }
             req->type = MSG;
         }
         return 123;
diff --git a/prog/torrent/peerproto.c b/prog/torrent/peerproto.c
index 09c9e4c..6d0893f 100644
--- a/prog/torrent/peerproto.c
+++ b/prog/torrent/peerproto.c
@@ -25,7 +25,8 @@ pub int read_handshake(reader.t *r, handshake_t *hs) {
 	uint8_t len = 0;
     c += reader.read(r, &len, 1);
     if (len != 19) {
-        panic("expected protocol string length 19, got %u", len);
+        fprintf(stderr, "expected protocol string length 19, got %u\n", len);
+        return EOF;
     }
     c += reader.read(r, hs->proto, len);
     c += reader.read(r, NULL, 8);
@@ -88,7 +89,8 @@ pub uint32_t read_length(reader.t *r) {
 }
 
 // Reads a message after the length has been read.
-pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
+// Returns false if the message has a wrong length.
+pub bool read_message(reader.t *r, uint32_t msglen, msg_t *m) {
     endian.read1(r, &m->id);
     switch (m->id) {
         // index: uint32be, piece index
@@ -96,6 +98,7 @@ pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
         // length: uint32be, data length, typically 16 KB
         case MSG_REQUEST: {
             msg_request_t *req = &m->request;
+            if (msglen != 13) return false;
             endian.read4be(r, &req->index);
             endian.read4be(r, &req->begin);
             endian.read4be(r, &req->length);
@@ -105,10 +108,11 @@ pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
         // msglen - (4+4+1): data
         case MSG_PIECE: {
             msg_piece_t *piece = &m->piece;
+            if (msglen < 9) return false;
             endian.read4be(r, &piece->index);
             endian.read4be(r, &piece->begin);
             piece->length = msglen-9;
-            piece->data = calloc!(piece->length, 1);
+            piece->data = calloc!(piece->length + 1, 1);
             reader.read(r, piece->data, piece->length);
         }
         // msglen-1: bytes
@@ -133,6 +137,7 @@ pub void read_message(reader.t *r, uint32_t msglen, msg_t *m) {
             reader.read(r, NULL, msglen - 1);
         }
     }
+    return true;
 }
 
 pub int write_keepalive(writer.t *w) {
-- 
2.43.0


From 4cc0843047794a654538d7da413e0382b1724322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:31 +0000
Subject: [PATCH 191/218] fix: torrent: requests outside of a piece overflow
 the buffers or get foreign data

---
 prog/torrent/peer.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/prog/torrent/peer.c b/prog/torrent/peer.c
index 9ba861e..d2e004b 100644
--- a/prog/torrent/peer.c
+++ b/prog/torrent/peer.c
@@ -253,6 +253,11 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
                 .begin = req->begin,
                 .length = req->length
             };
+            if (!is_valid(tf, freq)) {
+                fprintf(stderr, "wrong request: (%u, %u, %u)\n", req->index, req->begin, req->length);
+                ioloop.close(ctx);
+                return;
+            }
             if (!files.readslice(".", tf, freq, tmpbuf1)) {
                 fprintf(stderr, "could not read piece %u\n", freq.index);
                 ioloop.close(ctx);
@@ -282,6 +287,14 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
     }
 }
 
+// Tells whether the range is inside its piece and fits the buffers.
+bool is_valid(torrent.info_t *tf, files.range_t range) {
+    if (range.index >= torrent.npieces(tf)) return false;
+    if (range.length > MAX_MESSAGE - 9) return false;
+    size_t piecelen = files.get_piece_length(tf, range.index);
+    return range.begin <= piecelen && range.length <= piecelen - range.begin;
+}
+
 // void dumpdata(uint8_t *data, size_t n) {
 //     char path[100];
 //     sprintf(path, "peer-%ld.bin", time(NULL));
-- 
2.43.0


From 9cd61c1d50c876a2325031cbd6dc77dd4e0a6921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:32 +0000
Subject: [PATCH 192/218] fix: torrent: pieces that were not asked for get
 written

---
 prog/torrent/peer.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/prog/torrent/peer.c b/prog/torrent/peer.c
index d2e004b..c28f2d8 100644
--- a/prog/torrent/peer.c
+++ b/prog/torrent/peer.c
@@ -275,6 +275,12 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
                 .begin = piece->begin,
                 .length = piece->length
             };
+            // Ignore everything except the piece being downloaded.
+            if (!state->is_downloader || (size_t) freq.index + 1 != state->next_req_piece || !is_valid(tf, freq)) {
+                dbg.m(TAG, "unexpected slice");
+                free(piece->data);
+                return;
+            }
             if (!files.writeslice(outdir, tf, freq, piece->data)) {
                 panic("could not write piece %u: %s", freq.index, strerror(errno));
             }
@@ -310,6 +316,7 @@ void request_pieces(void *ctx) {
     size_t i = state->next_req_piece;
     if (i >= torrent.npieces(tf)) {
         printf("no more pieces to request\n");
+        state->next_req_piece = i + 1;
         return;
     }
     size_t piecelen = files.get_piece_length(tf, i);
-- 
2.43.0


From 4f51d5d3118c083b80c4c2afc03f240780d367bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:48:32 +0000
Subject: [PATCH 193/218] fix: torrent: handshakes for other torrents are
 accepted

---
 prog/torrent/peer.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prog/torrent/peer.c b/prog/torrent/peer.c
index c28f2d8..b5e5157 100644
--- a/prog/torrent/peer.c
+++ b/prog/torrent/peer.c
@@ -218,6 +218,11 @@ void write_response(void *ctx, writer.t *w, peer_t *state, req_t *req) {
 
     if (req->type == HANDSHAKE) {
         uint8_t *peer_id = _peer_id;
+        if (memcmp(req->handshake.infohash, tf->infohash_bytes, 20) != 0) {
+            fprintf(stderr, "handshake for another torrent\n");
+            ioloop.close(ctx);
+            return;
+        }
         // The downloader started the handshake, the seeder responds.
         if (!state->is_downloader) {
             dbg.m(TAG, "responding with a handshake");
-- 
2.43.0


From 932e483d8a4c82c183debcf2e322eef882a157ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:52 +0000
Subject: [PATCH 194/218] fix: torrent: a broken connection stops the program

---
 prog/torrent/ioloop.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/prog/torrent/ioloop.c b/prog/torrent/ioloop.c
index 7d9a7b9..86443a3 100644
--- a/prog/torrent/ioloop.c
+++ b/prog/torrent/ioloop.c
@@ -301,9 +301,9 @@ void dispatch_updates(fd_set *rset, *wset) {
 					if (errno == OS.EAGAIN) {
 						continue;
 					}
-                    panic("got r=%d, err=%d (%s)", datalen, errno, strerror(errno));
+                    fprintf(stderr, "%s: %s\n", c->conn->addrstr, strerror(errno));
                 }
-                if (datalen == 0) {
+                if (datalen <= 0) {
                     c->close = true;
                 } else {
                     buff_t b = { .data = buf, .len = datalen };
@@ -311,18 +311,20 @@ void dispatch_updates(fd_set *rset, *wset) {
                 }
             }
         }
-        if (writable) {
+        if (writable && !c->close) {
             if (buffer.size(c->outgoing) == 0) {
                 panic("selected as writable but outbuffer is empty");
             }
             // Here we're happily assuming that all bytes from buf will be
             // written out and panic in case of partial writes.
             size_t n = buffer.read(c->outgoing, buf, sizeof(buf));
-            int r = OS.write(c->conn->fd, buf, n);
-            if ((size_t) r != n) {
+            int r = net.write(c->conn, buf, n);
+            if (r < 0) {
+                fprintf(stderr, "%s: %s\n", c->conn->addrstr, strerror(errno));
+                c->close = true;
+            } else if ((size_t) r != n) {
                 panic("partial write");
-            }
-            if (buffer.size(c->outgoing) == 0) {
+            } else if (buffer.size(c->outgoing) == 0) {
                 callhandler(c, WRITE_FINISHED, NULL);
             }
         }
-- 
2.43.0


From 63b5bd4fbe31f822654d9e66235e3b3f2e2b222c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:52 +0000
Subject: [PATCH 195/218] fix: torrent: too many connections and failed
 connects stop the program

---
 prog/torrent/ioloop.c  | 13 +++++++++++--
 prog/torrent/tracker.c |  3 +++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/prog/torrent/ioloop.c b/prog/torrent/ioloop.c
index 86443a3..daa13e0 100644
--- a/prog/torrent/ioloop.c
+++ b/prog/torrent/ioloop.c
@@ -106,12 +106,14 @@ client_t *addclient(net.net_t *conn, handler_t *h) {
             break;
         }
     }
-	if (conn->is_listener) {
+	if (!conn) {
+		dbg.m(DBG_TAG, "#%d: no connection", slot);
+	} else if (conn->is_listener) {
 		dbg.m(DBG_TAG, "#%d: new listener, %s", slot, conn->addrstr);
 	} else {
 		dbg.m(DBG_TAG, "#%d: new connection, %s", slot, conn->addrstr);
 	}
-    if (slot == -1) return false;
+    if (slot == -1) return NULL;
 
     //
     // Create and setup an instance.
@@ -151,6 +153,7 @@ pub void listen(const char *addr, handler_t *handler) {
 pub void connect(const char *addr, handler_t *handler, void *initdata) {
     net.net_t *conn = net.connect_nonblock("tcp", addr);
     client_t *c = addclient(conn, handler);
+    if (!c) panic("too many connections");
     if (!conn) {
         dbg.m(DBG_TAG, "connection failed: %s\n", strerror(errno));
         handler(c, CONNECT_FAILED, NULL);
@@ -290,7 +293,13 @@ void dispatch_updates(fd_set *rset, *wset) {
                 // We'll accept the connection and store it as a new client.
                 // The next loop run will start processing the new client.
                 net.net_t *conn2 = net.net_accept(c->conn);
+                if (!conn2) continue;
                 client_t *c2 = addclient(conn2, c->handler);
+                if (!c2) {
+                    fprintf(stderr, "too many connections\n");
+                    net.close(conn2);
+                    continue;
+                }
                 callhandler(c2, CONNECTED, NULL);
             } else {
                 int datalen = OS.read(c->conn->fd, buf, sizeof(buf));
diff --git a/prog/torrent/tracker.c b/prog/torrent/tracker.c
index 91261ad..1a1e96e 100644
--- a/prog/torrent/tracker.c
+++ b/prog/torrent/tracker.c
@@ -37,6 +37,9 @@ pub void process(void *ctx, int event, void *edata) {
 		case ioloop.CONNECTED: {
 			send_announce(ctx, NULL);
 		}
+		case ioloop.CONNECT_FAILED: {
+			fprintf(stderr, "failed to connect to the tracker\n");
+		}
 		case ioloop.EXIT: {}
 		case ioloop.DATA_IN: {
 			ioloop.buff_t *b = edata;
-- 
2.43.0


From fd75b8fc9842408d5332ed4954187bdb9ade2cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:52 +0000
Subject: [PATCH 196/218] fix: torrent: tracker responses are read past their
 end, unknown keys are fatal

---
 prog/torrent/tracker.c | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/prog/torrent/tracker.c b/prog/torrent/tracker.c
index 1a1e96e..a840563 100644
--- a/prog/torrent/tracker.c
+++ b/prog/torrent/tracker.c
@@ -48,7 +48,9 @@ pub void process(void *ctx, int event, void *edata) {
 			if (!http.parse_response(re, &res)) {
 				panic("failed to parse tracker's HTTP response");
 			}
-			read_tracker_response(res.body, &last_response);
+			size_t len = sizeof(res.body);
+			if (res.content_length > 0) len = (size_t) res.content_length;
+			read_tracker_response(res.body, len, &last_response);
 			reader.free(re);
 			print();
 		}
@@ -98,16 +100,17 @@ pub void print() {
 	for (size_t i = 0; i < resp->peers_number; i++) {
 		peer_entry_t *peer = &resp->peers[i];
 		if (!memcmp(peer->id, _peer_id, 20)) {
-			printf("- us %zu: %s at %s:%d\n", i, peer->id, peer->ip, peer->port);
+			printf("- us %zu: %.20s at %s:%d\n", i, peer->id, peer->ip, peer->port);
         } else {
-			printf("- peer %zu: %s at %s:%d\n", i, peer->id, peer->ip, peer->port);
+			printf("- peer %zu: %.20s at %s:%d\n", i, peer->id, peer->ip, peer->port);
 		}
 	}
 }
 
-void read_tracker_response(char *body, tracker_response_t *resp) {
-	bencode.reader_t *ber = bencode.newreader(body, 10000);
+void read_tracker_response(char *body, size_t len, tracker_response_t *resp) {
+	bencode.reader_t *ber = bencode.newreader(body, len);
 	char key[1000] = {};
+	resp->peers_number = 0;
 	bencode.enter(ber);
 	while (bencode.more(ber)) {
 		bencode.key(ber, (uint8_t *)key, 1000);
@@ -118,14 +121,16 @@ void read_tracker_response(char *body, tracker_response_t *resp) {
 			case "peers": {
 				bencode.enter(ber);
 				while (bencode.more(ber)) {
+					if (resp->peers_number == nelem(resp->peers)) {
+						bencode.skip(ber);
+						continue;
+					}
 					peer_entry_t *peer = &resp->peers[resp->peers_number++];
 					read_peer(ber, peer);
 				}
 				bencode.leave(ber);
 			}
-			default: {
-				panic("unknown key: %s", key);
-			}
+			default: { bencode.skip(ber); }
 		}
 	}
 	bencode.leave(ber);
@@ -139,10 +144,10 @@ void read_peer(bencode.reader_t *ber, peer_entry_t *p) {
 	while (bencode.more(ber)) {
 		bencode.key(ber, (uint8_t *)key, 1000);
 		switch str (key) {
-			case "ip": { bencode.readbuf(ber, (uint8_t*)&p->ip, sizeof(p->ip)); }
+			case "ip": { bencode.readbuf(ber, (uint8_t*)&p->ip, sizeof(p->ip) - 1); }
 			case "peer id": { bencode.readbuf(ber, (uint8_t*)&p->id, sizeof(p->id)); }
 			case "port": { p->port = bencode.readnum(ber); }
-			default: { panic("unknown peer dict key: %s", key); }
+			default: { bencode.skip(ber); }
 		}
 	}
 	bencode.leave(ber);
-- 
2.43.0


From 523e504397c8f4c11bef0d6ebc29244ac534671c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:52 +0000
Subject: [PATCH 197/218] fix: torrent: a download crashes when the tracker
 does not list a suitable peer

---
 prog/torrent/cmd_download.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prog/torrent/cmd_download.c b/prog/torrent/cmd_download.c
index a192893..b1a7b56 100644
--- a/prog/torrent/cmd_download.c
+++ b/prog/torrent/cmd_download.c
@@ -32,8 +32,9 @@ pub int run(int argc, char **argv) {
 			return 1;
 		}
         if (!started && tracker.getstate()->peers_number > 0) {
-			started = true;
             tracker.peer_entry_t p = choose_peer(peer_id);
+			if (p.ip[0] == '\0') continue;
+			started = true;
 			char addr[1000] = {};
 			sprintf(addr, "%s:%d", p.ip, p.port);
 			printf("choosing peer %s\n", addr);
-- 
2.43.0


From c23369503a582078bd28e24cddaaeb4e82f103d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:52 +0000
Subject: [PATCH 198/218] fix: torrent: bitfields of big torrents are cut when
 sent

---
 prog/torrent/peer.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/prog/torrent/peer.c b/prog/torrent/peer.c
index b5e5157..78f80f6 100644
--- a/prog/torrent/peer.c
+++ b/prog/torrent/peer.c
@@ -89,15 +89,14 @@ pub void handle(void *ctx, int event, void *edata) {
                 //
                 // send a handshake
                 //
-				uint8_t buf[1000];
-				writer.t *w = writer.static_buffer(buf, sizeof(buf));
+				writer.t *w = writer.static_buffer(tmpbuf1, sizeof(tmpbuf1));
                 if (peerproto.write_handshake(w, (uint8_t*)tf->infohash_bytes, peer_id) < 0) {
                     panic("write_handshake failed");
                 }
                 peerproto.write_bitfield(w, tf);
                 size_t nw = w->nwritten;
 				writer.free(w);
-				ioloop.write(ctx, (char *)buf, nw);
+				ioloop.write(ctx, (char *)tmpbuf1, nw);
 
 				request_pieces(ctx);
             } else {
-- 
2.43.0


From 72b8ab1c0f526a3330146063d67898e1f075626a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:50:31 +0000
Subject: [PATCH 199/218] fix: torrent: create overflows on long names and
 ignores read and write errors

---
 prog/torrent/cmd_create.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/prog/torrent/cmd_create.c b/prog/torrent/cmd_create.c
index 91ed67b..a4d8e6d 100644
--- a/prog/torrent/cmd_create.c
+++ b/prog/torrent/cmd_create.c
@@ -37,6 +37,10 @@ torrent.info_t *newtorrent() {
 
 bool addfile(torrent.info_t *info, const char *filepath) {
     const char *filename = fs.basename(filepath);
+    if (strlen(filename) >= sizeof(info->name)) {
+        errno = OS.ENAMETOOLONG;
+        return false;
+    }
     strcpy(info->name, filename);
 
     FILE *f = fopen(filepath, "rb");
@@ -60,8 +64,9 @@ bool addfile(torrent.info_t *info, const char *filepath) {
     if (piecelen > 0) {
         addpiece(info, piece, piecelen, npieces++);
     }
+    bool ok = !ferror(f);
     fclose(f);
-    return true;
+    return ok;
 }
 
 void addpiece(torrent.info_t *info, uint8_t *piece, size_t piecelen, size_t i) {
@@ -89,6 +94,6 @@ bool writetorrent(torrent.info_t *info, const char *outpath) {
     FILE *f = fopen(outpath, "wb");
     if (!f) return false;
     bool ok = torrent.writefile(f, info);
-    fclose(f);
+    if (fclose(f) != 0) return false;
     return ok;
 }
-- 
2.43.0


From 8f0314d35e006045b9d4b82dc27257647ff7f1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:09 +0000
Subject: [PATCH 200/218] fix: wisp: bindings of a variable deeper than seven

---
 prog/wisp/eval.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 45214d2..80b1920 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -382,12 +382,12 @@ symbol_t *symbol_create() {
 pub void sympush(val_t *so, val_t *o) {
 	symbol_t *s = so->val;
 	s->vals++;
-	// if (s->vals == s->cnt + s->stack) {
-	//		 size_t n = s->vals - s->stack;
-	//		 s->cnt *= 2;
-	//		 s->stack = xrealloc (s->stack, s->cnt * sizeof (val_t *));
-	//		 s->vals = s->stack + n;
-	//	 }
+	if (s->vals == s->stack + s->cnt) {
+		size_t n = s->vals - s->stack;
+		s->cnt *= 2;
+		s->stack = xrealloc(s->stack, s->cnt * sizeof(val_t *));
+		s->vals = s->stack + n;
+	}
 	*s->vals = o;
 	increfs(o);
 }
-- 
2.43.0


From 2e6b18b99ecc588b3dacf2d15ebf374057da1020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:09 +0000
Subject: [PATCH 201/218] fix: wisp: car and cdr of what is not a pair are nil

---
 prog/wisp/eval.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 80b1920..59daec5 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -63,8 +63,17 @@ pub val_t *newcons(val_t *x, *rest) {
 	return o;
 }
 
-val_t *car(val_t *o) { cons_t *x = o->val; return x->car; }
-val_t *cdr(val_t *o) { cons_t *x = o->val; return x->cdr; }
+val_t *car(val_t *o) {
+	if (o->type != CONS) return NIL;
+	cons_t *x = o->val;
+	return x->car;
+}
+
+val_t *cdr(val_t *o) {
+	if (o->type != CONS) return NIL;
+	cons_t *x = o->val;
+	return x->cdr;
+}
 
 void setcar(val_t *o, *car) { cons_t *x = o->val; x->car = car; }
 void setcdr(val_t *o, *cdr) { cons_t *x = o->val; x->cdr = cdr; }
-- 
2.43.0


From 0b17aa1d17421766168f8f0b68ecbab84ab26d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:09 +0000
Subject: [PATCH 202/218] fix: wisp: builtin functions go on after raising an
 error

---
 prog/wisp/eval.c | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 59daec5..8958bb6 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -1503,7 +1503,7 @@ val_t *lisp_apply (val_t * lst) {
 	val_t *f = car (lst);
 	val_t *args = car (cdr (lst));
 	if (!islist (args))
-		THROW (err_wrong_type, increfs(args));
+		return THROW (err_wrong_type, increfs(args));
 	return apply (f, args);
 }
 
@@ -1522,7 +1522,7 @@ val_t *lisp_and(val_t *lst) {
 		p = cdr (p);
 	}
 	if (p != NIL) {
-		THROW (getsym_improper_list(), increfs(lst));
+		return THROW (getsym_improper_list(), increfs(lst));
 	}
 	return increfs(r);
 }
@@ -1817,7 +1817,7 @@ val_t *lisp_value (val_t * lst) {
 	}
 	if (req_length (lst,symbol("value"),1) == err_symbol)	return err_symbol;
 	if (!issymbol(car (lst)))
-		THROW (err_wrong_type, newcons (symbol("value"), car (lst)));
+		return THROW (err_wrong_type, newcons (symbol("value"), increfs(car (lst))));
 
 	return increfs(GET (car (lst)));
 }
@@ -1971,7 +1971,7 @@ val_t *lisp_read_string (val_t * lst) {
 	val_t *sexp = read_sexp (r);
 	reader_destroy (r);
 	if (sexp == err_symbol)
-		THROW (symbol("parse-error"), increfs(stro));
+		return THROW (symbol("parse-error"), increfs(stro));
 	return sexp;
 }
 
@@ -2012,9 +2012,9 @@ val_t *lisp_vset (val_t * lst) {
 	val_t *ind = car (cdr (lst));
 	val_t *val = car (cdr (cdr (lst)));
 	if (!isvector (vec))
-		THROW (err_wrong_type, increfs(vec));
+		return THROW (err_wrong_type, increfs(vec));
 	if (!isint (ind))
-		THROW (err_wrong_type, increfs(ind));
+		return THROW (err_wrong_type, increfs(ind));
 	return vset_check (vec, ind, val);
 }
 
@@ -2026,9 +2026,9 @@ val_t *lisp_vget (val_t * lst) {
 	val_t *vec = car (lst);
 	val_t *ind = car (cdr (lst));
 	if (!isvector (vec))
-		THROW (err_wrong_type, increfs(vec));
+		return THROW (err_wrong_type, increfs(vec));
 	if (!isint (ind))
-		THROW (err_wrong_type, increfs(ind));
+		return THROW (err_wrong_type, increfs(ind));
 	return vget_check (vec, ind);
 }
 
@@ -2039,7 +2039,7 @@ val_t *lisp_vlength (val_t * lst) {
 	if (req_length (lst,symbol("vlength"),1) == err_symbol)	return err_symbol;
 	val_t *vec = car (lst);
 	if (!isvector (vec))
-		THROW (err_wrong_type, increfs(vec));
+		return THROW (err_wrong_type, increfs(vec));
 	return c_int (vlen(vec));
 }
 
@@ -2051,7 +2051,7 @@ val_t *make_vector (val_t * lst) {
 	val_t *len = car (lst);
 	val_t *o = car (cdr (lst));
 	if (!isint (len))
-		THROW (err_wrong_type, increfs(len));
+		return THROW (err_wrong_type, increfs(len));
 	return newvec (into2int (len), o);
 }
 
@@ -2077,26 +2077,26 @@ val_t *lisp_vsub (val_t * lst) {
 	val_t *v = car (lst);
 	val_t *starto = car (cdr (lst));
 	if (!isvector (v))
-		THROW (err_wrong_type, increfs(v));
+		return THROW (err_wrong_type, increfs(v));
 	if (!isint (starto))
-		THROW (err_wrong_type, increfs(starto));
+		return THROW (err_wrong_type, increfs(starto));
 	int start = into2int (starto);
 	if (start >= (int) vlen(v))
-		THROW (symbol("bad-index"), increfs(starto));
+		return THROW (symbol("bad-index"), increfs(starto));
 	if (start < 0)
-		THROW (symbol("bad-index"), increfs(starto));
+		return THROW (symbol("bad-index"), increfs(starto));
 	if (cdr (cdr (lst)) == NIL) {
 		/* to the end */
 		return vector_sub (v, start, -1);
 	}
 	val_t *endo = car (cdr (cdr (lst)));
 	if (!isint (endo))
-		THROW (err_wrong_type, increfs(endo));
+		return THROW (err_wrong_type, increfs(endo));
 	int end = into2int (endo);
 	if (end >= (int) vlen(v))
-		THROW (symbol("bad-index"), increfs(endo));
+		return THROW (symbol("bad-index"), increfs(endo));
 	if (end < start)
-		THROW (symbol("bad-index"), increfs(endo));
+		return THROW (symbol("bad-index"), increfs(endo));
 	return vector_sub (v, start, end);
 }
 
@@ -2125,7 +2125,7 @@ val_t *lisp_max_eval_depth (val_t * lst) {
 		return c_int (max_stack_depth);
 	val_t *arg = car (lst);
 	if (!isint (arg))
-		THROW (err_wrong_type, increfs(arg));
+		return THROW (err_wrong_type, increfs(arg));
 	int new_depth = into2int (arg);
 	if (new_depth < 10)
 		return NIL;
@@ -2282,7 +2282,7 @@ val_t *arith(int op, val_t * lst) {
 			obj_release(accumz);
 			obj_release(accumf);
 			obj_release(convf);
-			THROW (err_wrong_type, increfs(num));
+			return THROW (err_wrong_type, increfs(num));
 		}
 		/* Check divide by zero */
 		if (op == DIV) {
@@ -2296,7 +2296,7 @@ val_t *arith(int op, val_t * lst) {
 				obj_release(accumz);
 				obj_release(accumf);
 				obj_release(convf);
-				THROW (symbol("divide-by-zero"), increfs(num));
+				return THROW (symbol("divide-by-zero"), increfs(num));
 			}
 		}
 
-- 
2.43.0


From 0f2ae7bde3a43a99defbe90c704dcc5230f8c928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:09 +0000
Subject: [PATCH 203/218] fix: wisp: values attached to errors are freed while
 in use

---
 prog/wisp/eval.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 8958bb6..e72c256 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -270,7 +270,7 @@ val_t *req_length(val_t * lst, val_t * thr, int n) {
 		p = cdr (p);
 		if (!islist (p)) {
 			obj_release(thr);
-			return THROW (getsym_improper_list(), lst);
+			return THROW (getsym_improper_list(), increfs(lst));
 		}
 		if (len > n) {
 			return THROW (err_wrong_number_of_arguments, thr);
@@ -292,7 +292,7 @@ val_t *reqm_length (val_t * lst, val_t * thr, int n) {
 		p = cdr (p);
 		if (!islist (p)) {
 			obj_release(thr);
-			return THROW (getsym_improper_list(), lst);
+			return THROW (getsym_improper_list(), increfs(lst));
 		}
 		if (len >= n) return T;
 	}
@@ -313,7 +313,7 @@ val_t *reqx_length (val_t * lst, val_t * thr, int n) {
 		p = cdr (p);
 		if (!islist (p)) {
 			obj_release(thr);
-			return THROW (getsym_improper_list(), lst);
+			return THROW (getsym_improper_list(), increfs(lst));
 		}
 		if (len > n) return THROW (err_wrong_number_of_arguments, thr);
 	}
@@ -1607,7 +1607,7 @@ val_t *lisp_cdr (val_t * lst) {
 	}
 	if (req_length (lst,symbol("cdr"),1) == err_symbol)	return err_symbol;
 	if (car (lst) == NIL) return NIL;
-	if (!islist (car (lst))) return THROW (err_wrong_type, car (lst));
+	if (!islist (car (lst))) return THROW (err_wrong_type, increfs(car (lst)));
 	return increfs(cdr (car (lst)));
 }
 
@@ -1617,7 +1617,7 @@ val_t *lisp_car (val_t * lst) {
 	}
 	if (req_length (lst,symbol("car"),1) == err_symbol)	return err_symbol;
 	if (car (lst) == NIL) return NIL;
-	if (!islist (car (lst))) return THROW (err_wrong_type, car (lst));
+	if (!islist (car (lst))) return THROW (err_wrong_type, increfs(car (lst)));
 	return increfs(car (car (lst)));
 }
 
@@ -1805,7 +1805,7 @@ val_t *lisp_set (val_t * lst) {
 	}
 	if (req_length (lst,symbol("set"),2) == err_symbol)	return err_symbol;
 	if ((car (lst))->type != SYMBOL) {
-		return THROW (err_wrong_type, newcons (symbol("set"), car (lst)));
+		return THROW (err_wrong_type, newcons (symbol("set"), increfs(car (lst))));
 	}
 	SET (car (lst), car (cdr (lst)));
 	return increfs(car (cdr (lst)));
-- 
2.43.0


From f147258230e0e91c27bdb31b334f8246a1b7d93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:39 +0000
Subject: [PATCH 204/218] fix: wisp: parameters stay bound after a call with
 too many arguments

---
 prog/wisp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index e72c256..9f61ae1 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -877,7 +877,7 @@ val_t *assign_args (val_t * vars, val_t * vals)
 
 	/* vals should be consumed by now */
 	if (vals != NIL) {
-		unassign_args(vars);
+		unassign_args(orig_vars);
 		return THROW(err_wrong_number_of_arguments, NIL);
 	}
 	return T;
-- 
2.43.0


From 1472bfa0aa0f351b0f8ae989ce7d92161e6f9dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 205/218] fix: wisp: an error in a condition of cond is taken
 for true

---
 prog/wisp/eval.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 9f61ae1..ffdad00 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -1657,6 +1657,9 @@ val_t *lisp_cond (val_t * lst) {
 		if (cdr (pair) == NIL) return increfs(car (pair));
 		if (cdr (cdr (pair)) != NIL) return THROW (symbol("bad-form"), increfs(pair));
 		val_t *r = eval (car (pair));
+		if (r == err_symbol) {
+			return r;
+		}
 		if (r != NIL) {
 			obj_release(r);
 			return eval (car (cdr (pair)));
-- 
2.43.0


From a38ddf1126d29b80c8681c594b72678f5922f024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 206/218] fix: wisp: errors in the body of while are lost

---
 prog/wisp/eval.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index ffdad00..1be08f2 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -1742,6 +1742,9 @@ val_t *lisp_while(val_t * lst) {
 			return condr;
 		}
 		r = eval_body (body);
+		if (r == err_symbol) {
+			return r;
+		}
 	}
 	return r;
 }
-- 
2.43.0


From 20b0b7a98bf6fcc23f5037282e20f996e3fad7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 207/218] fix: wisp: the evaluation depth drifts after errors
 in arguments

---
 prog/wisp/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 1be08f2..66c217f 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -934,6 +934,7 @@ val_t *eval(val_t * o) {
 		/* c function or list function (eval args) */
 		args = eval_list (args);
 		if (args == err_symbol) {
+			stack_depth--;
 			obj_release(f);
 			obj_release(extrao);
 			return err_symbol;
-- 
2.43.0


From e3bdcf5a51c6f8ae607b984d89922b8697009ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 208/218] fix: wisp: loading a file loses the evaluation depth

---
 prog/wisp/eval.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 66c217f..c0eb56e 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -776,13 +776,14 @@ pub bool load_file(FILE *f, char *filename, int interactive) {
 		f = fopen(filename, "r");
 		if (f == NULL) return false;
 	}
+	uint32_t depth = stack_depth;
 	reader_t *r = reader_create(f, NULL, filename, interactive);
 	while (!r->eof) {
 		val_t *sexp = read_sexp(r);
 		if (sexp == err_symbol) {
 			continue;
 		}
-		stack_depth = 0;
+		stack_depth = depth;
 		val_t *ret = eval (sexp);
 		if (ret == err_symbol) {
 			printf ("error: ");
@@ -798,6 +799,7 @@ pub bool load_file(FILE *f, char *filename, int interactive) {
 		obj_release(ret);
 	}
 	reader_destroy (r);
+	stack_depth = depth;
 	return true;
 }
 
-- 
2.43.0


From 67ccff171ffb7eeea190324445342c3e32fe1acf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 209/218] fix: wisp: reading lists nested deeper than 31

---
 prog/wisp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index c0eb56e..c1c77ea 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -1185,7 +1185,7 @@ void push (reader_t * r) {
 	if (r->state == r->base + r->ssize)
 		{
 			r->ssize *= 2;
-			r->base = xrealloc (r->base, sizeof (rstate_t *) * r->ssize);
+			r->base = xrealloc (r->base, sizeof (rstate_t) * r->ssize);
 			r->state = r->base + r->ssize / 2;
 		}
 	/* clear the state */
-- 
2.43.0


From 73b9e48a89f7ceffedc509754e3865f0977c2149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 210/218] fix: wisp: the remainder of a division by zero stops
 the interpreter

---
 prog/wisp/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index c1c77ea..3c3f5bf 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -2227,6 +2227,7 @@ val_t *modulus (val_t * lst) {
 	val_t *b = car (cdr (lst));
 	if (!isint (a)) return THROW (err_wrong_type, increfs(a));
 	if (!isint (b)) return THROW (err_wrong_type, increfs(b));
+	if (into2int (b) == 0) return THROW (symbol("divide-by-zero"), increfs(b));
 	val_t *m = c_int (0);
 	mp.mpz_mod(DINT (m), DINT (a), DINT (b));
 	return m;
-- 
2.43.0


From 0614fa6762f611ac794efc3df380f8e34502dea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 211/218] fix: wisp: a vector of a negative length stops the
 interpreter

---
 prog/wisp/eval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 3c3f5bf..e0627ab 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -2061,6 +2061,8 @@ val_t *make_vector (val_t * lst) {
 	val_t *o = car (cdr (lst));
 	if (!isint (len))
 		return THROW (err_wrong_type, increfs(len));
+	if (into2int (len) < 0)
+		return THROW (err_out_of_bounds, increfs(len));
 	return newvec (into2int (len), o);
 }
 
-- 
2.43.0


From fbabf9ba4795f87cc1098187d159e26e510bf57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 212/218] fix: wisp: hashes of builtin functions

---
 prog/wisp/eval.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index e0627ab..d5a7e7c 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -586,7 +586,7 @@ uint32_t obj_hash (val_t * o) {
 		}
 		case CFUNC, SPECIAL: {
 			/* Imprecise, but close enough */
-			return util.hash(o->val, sizeof (void *));
+			return util.hash(&o->fval, sizeof (void *));
 		}
 	}
 	return 0;
-- 
2.43.0


From 7c13b994e0c31066bea5c46b209f29c3d0946542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 213/218] fix: wisp: applying what is not a function

---
 prog/wisp/eval.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index d5a7e7c..7ef925f 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -1505,6 +1505,8 @@ val_t *lisp_apply (val_t * lst) {
 	if (req_length (lst,symbol("apply"),2) == err_symbol)	return err_symbol;
 	val_t *f = car (lst);
 	val_t *args = car (cdr (lst));
+	if (!isfunc (f))
+		return THROW (err_void_function, increfs(f));
 	if (!islist (args))
 		return THROW (err_wrong_type, increfs(args));
 	return apply (f, args);
-- 
2.43.0


From 9ec7701ac8e3cf0f48485f2fe4443036e7c23cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 214/218] fix: wisp: a detached process repeats the output of
 its parent

---
 prog/wisp/eval.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 7ef925f..7107b7f 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -1048,6 +1048,7 @@ val_t *c_detach (val_t * o) {
 		return THROW (symbol("detach-pipe-error"), newstring(strerror(errno)));
 	if (OS.pipe (pipeb) != 0)
 		return THROW (symbol("detach-pipe-error"), newstring(strerror(errno)));
+	fflush (stdout);
 	d->proc = OS.fork ();
 	if (d->proc == 0) {
 		/* Child process */
-- 
2.43.0


From c537214a64f6eed736ea5983f8aa0930576c663d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:40 +0000
Subject: [PATCH 215/218] fix: wisp: defining a function without a name or
 parameters

---
 prog/wisp/eval.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 7107b7f..e7b46db 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -1584,7 +1584,7 @@ val_t *defun (val_t * lst) {
 	if (lst == doc_string) {
 		return newstring("Define a new function.");
 	}
-	if (car(lst)->type != SYMBOL || !is_func_form (cdr (lst))) {
+	if (!iscons (cdr (lst)) || car(lst)->type != SYMBOL || !is_func_form (cdr (lst))) {
 		return THROW (symbol("bad-function-form"), increfs(lst));
 	}
 	val_t *f = newcons (lambda, increfs(cdr (lst)));
@@ -1599,7 +1599,7 @@ val_t *defmacro (val_t * lst) {
 	if (lst == doc_string) {
 		return newstring("Define a new macro.");
 	}
-	if (car (lst)->type != SYMBOL || !is_func_form (cdr (lst))) {
+	if (!iscons (cdr (lst)) || car (lst)->type != SYMBOL || !is_func_form (cdr (lst))) {
 		return THROW (symbol("bad-function-form"), increfs(lst));
 	}
 	val_t *f = newcons (macro, increfs(cdr (lst)));
-- 
2.43.0


From 08b38604e24abfe4faa6b70e773ac165affc4e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:54:54 +0000
Subject: [PATCH 216/218] fix: wisp: append to an empty list never ends

---
 prog/wisp/wisplib/list.wisp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prog/wisp/wisplib/list.wisp b/prog/wisp/wisplib/list.wisp
index 741e001..f65b0e5 100644
--- a/prog/wisp/wisplib/list.wisp
+++ b/prog/wisp/wisplib/list.wisp
@@ -96,6 +96,7 @@
   "Concatenate any number of lists."
   (cond
    ((nullp lsts) lst)
+   ((nullp lst) (apply append lsts))
    ((= 1 (length lst)) (cons (car lst) (apply append lsts)))
    (t (cons (car lst)
 	    (append (cdr lst) (apply append lsts))))))
-- 
2.43.0


From 58827f00d8dd18f073642048fe67110248e9d7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:34 +0000
Subject: [PATCH 217/218] fix: wisp: a detached process makes its parent read
 the script again

---
 prog/wisp/eval.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index e7b46db..33dfd0d 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -1060,7 +1060,7 @@ val_t *c_detach (val_t * o) {
 		OS.close (pipea[0]);
 
 		/* Change stdin and stdout. */
-		fclose (stdin);
+		OS.close (OS.fileno (stdin));
 		int stdout_no = OS.fileno (stdout);
 		OS.close (stdout_no);
 		OS.dup2 (d->out, stdout_no);
@@ -1070,7 +1070,8 @@ val_t *c_detach (val_t * o) {
 		/* Execute given function. */
 		val_t *f = newcons (o, NIL);
 		eval (f);
-		exit (0);
+		fflush (stdout);
+		OS._exit (0);
 		return THROW (symbol("exit-failed"), dob);
 	}
 	/* Parent process */
-- 
2.43.0


From 70392fa61fe3e53e002a0fcdf849e7e7918444cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:42 +0000
Subject: [PATCH 218/218] fix: wisp: take a string's closing quote before
 adding the string

---
 prog/wisp/eval.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prog/wisp/eval.c b/prog/wisp/eval.c
index 33dfd0d..ba071b0 100644
--- a/prog/wisp/eval.c
+++ b/prog/wisp/eval.c
@@ -1434,11 +1434,10 @@ val_t *read_sexp (reader_t * r)
 				eater.t *e = &r->eater;
 				eater.buf_read(e, "\"");
 
-				add (r, parse_str (r));
-
 				/* Throw away other quote. */
 				eater.getc(e);
 
+				add (r, parse_str (r));
 			}
 			default: {
 				/* numbers and symbols */
-- 
2.43.0

