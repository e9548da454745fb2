From 73dd1d40efa4e5f89396f7cd06e66ac7869aa6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 01/16] fix: keep struct fields in declaration order

The second type checking pass moved fields whose type was not resolved yet
behind the others. Which fields those are depends on hash map iteration
order, so two compilations of one schema could disagree on the wire layout.
---
 src/lib/check.rs | 25 +++++++++----------------
 1 file changed, 9 insertions(+), 16 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 29036ad..e16c1ee 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -283,11 +283,11 @@ fn resolve_one_second_pass<'a>(
         // store any field (+ its type) which could not be resolved
         let mut not_resolved = Vec::new();
         let mut fields = Vec::new();
-        for (field_name, field_type) in s.0.into_iter() {
+        for (field_name, field_type) in s.0.iter() {
             if let Some(field) = resolve_struct_field(field_name, field_type.clone(), cache, name)? {
                 fields.push(field);
             } else {
-                not_resolved.push((field_name, field_type));
+                not_resolved.push(field_type);
             }
         }
         if not_resolved.is_empty() {
@@ -295,7 +295,7 @@ fn resolve_one_second_pass<'a>(
             cache.insert(name, Ptr::new((name, ResolvedType::Struct(Struct { fields }))));
         } else {
             // otherwise, for each field that couldn't be resolved, try to resolve it
-            for (_, field_type) in not_resolved.iter() {
+            for field_type in not_resolved.iter() {
                 let ftype_name = field_type.0;
                 // try to find the field's typename in whatever is left unresolved
                 if let Some(utype) = unresolved.remove(&ftype_name) {
@@ -311,21 +311,14 @@ fn resolve_one_second_pass<'a>(
                 }
             }
             // if we get here, it means all the field's types were successfully resolved and
-            // placed in the cache so finish resolving our fields
-            let mut now_resolved = Vec::new();
-            for (fname, fty) in not_resolved.into_iter() {
-                now_resolved.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
+            // placed in the cache so finish resolving our fields, in the order
+            // they were declared in, because that is their order on the wire
+            let mut fields = Vec::new();
+            for (fname, fty) in s.0.into_iter() {
+                fields.push(resolve_struct_field(fname, fty, cache, name)?.unwrap());
             }
             // and we have a complete type
-            cache.insert(
-                name,
-                Ptr::new((
-                    name,
-                    ResolvedType::Struct(Struct {
-                        fields: fields.into_iter().chain(now_resolved).collect(),
-                    }),
-                )),
-            );
+            cache.insert(name, Ptr::new((name, ResolvedType::Struct(Struct { fields }))));
         }
     } else {
         panic!(
-- 
2.43.0


From cbbb76147a80da8813980bf9b4bfe28bca39fffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 02/16] fix: report duplicate fields after a field of a
 user-defined type

The first pass stopped looking at a struct's fields at the first one whose
type is not a builtin, so later duplicates were accepted.
---
 src/lib/check.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index e16c1ee..221ad7e 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -228,8 +228,6 @@ fn resolve_one_first_pass<'a>(
                 field_names.insert(fname);
                 if let Some(field) = resolve_struct_field(fname, fty.clone(), builtins, name)? {
                     fields.push(field);
-                } else {
-                    break;
                 }
             }
             if fields.len() == s.0.len() {
-- 
2.43.0


From ac9499d7b28f45a521b933c9119fa31ef5151fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 03/16] fix: report a cycle instead of a missing declaration

A cycle that was entered from a type outside of it was reported as a
declaration which does not exist, depending on hash map iteration order.
---
 src/lib/check.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/lib/check.rs b/src/lib/check.rs
index 221ad7e..7560298 100644
--- a/src/lib/check.rs
+++ b/src/lib/check.rs
@@ -302,6 +302,13 @@ fn resolve_one_second_pass<'a>(
 
                     // it may fail, so propagate the error out
                     resolve_one_second_pass(ftype_name, utype, cache, visited, unresolved)?;
+                } else if visited.contains(&ftype_name) && !cache.contains_key(&ftype_name) {
+                    // if it's neither unresolved nor in the cache, but was visited, it's still
+                    // being resolved further up, so it's a cycle
+                    return Err(format!(
+                        "Found a cycle between two or more top level definitions in type '{}'",
+                        ftype_name
+                    ));
                 } else if !cache.contains_key(&ftype_name) {
                     //  if the field's typename is unresolved and not in the cache (resolved), it
                     // doesn't exist.
-- 
2.43.0


From 6526b5af27ccea40ddb371fa497131a0a454c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 04/16] fix: make the 32nd variant of an enum usable in
 TypeScript

1 << 31 is negative both in the generated enum and in the upper bound of the
generated range check, so no value of such an enum could be read.
---
 src/lib/gen/ts.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 200fbef..a0a7be8 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -175,8 +175,8 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         check::EnumRepr::U32 => "uint32",
     };
     let (min, max) = (
-        1 << type_info.variants[0].value,
-        1 << type_info.variants[type_info.variants.len() - 1].value,
+        1u32 << type_info.variants[0].value,
+        1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
@@ -317,7 +317,9 @@ fn gen_enum_decl(ctx: &mut GenCtx, ty: &check::Enum, name: &str) {
     cat!(ctx, "export const enum {name} {{\n");
     cat!(ctx +++);
     for variant in ty.variants.iter() {
-        cat!(ctx, "{variant.name} = 1 << {variant.value},\n");
+        // shifts are signed in JS, so the topmost bit has to be made unsigned again
+        let unsigned = if variant.value < 31 { "" } else { " >>> 0" };
+        cat!(ctx, "{variant.name} = 1 << {variant.value}{unsigned},\n");
     }
     cat!(ctx ---);
     cat!(ctx, "}}\n");
-- 
2.43.0


From 8c9ec37ef573aa7f265aa445fe9612d2a4d34f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 05/16] fix: reject values between enum variants when reading

The generated TypeScript only checked the range of an enum value, so a
packet could carry values which are none of the variants.
---
 src/lib/gen/ts.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index a0a7be8..d3483c6 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -181,7 +181,13 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
     let fname = self::fname(&ctx.stack);
     let temp = self::varname(&ctx.stack, "temp");
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
-    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}) {fname} = {temp};\n");
+    // between more than two variants there are values with several bits set
+    let single_bit = if type_info.variants.len() > 2 {
+        format_f!(" && ({temp} & ({temp} - 1)) === 0")
+    } else {
+        String::new()
+    };
+    cat!(ctx, "if ({min} <= {temp} && {temp} <= {max}{single_bit}) {fname} = {temp};\n");
     cat!(ctx, "else reader.failed = true;\n");
 }
 
-- 
2.43.0


From 1766b332f0d22d34232ce4b952dbfbfeed17acd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 06/16] fix: declare types in a fixed order

Type declarations were written in hash map iteration order, so the output
for one and the same schema changed from run to run.
---
 src/lib/gen/ts.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index d3483c6..4de8cca 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -337,7 +337,10 @@ impl Declaration for TypeScript {
 
         cat!(ctx, "export namespace {export} {{\n");
         cat!(ctx +++);
-        for (name, ty) in types.iter() {
+        // the iteration order of the map changes from run to run
+        let mut types = types.iter().collect::<Vec<_>>();
+        types.sort_by_key(|(name, _)| **name);
+        for (name, ty) in types {
             if *name == export {
                 continue;
             }
-- 
2.43.0


From e96672c2e5bd3620f1eb995d74ebf958ea449dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 07/16] fix: never declare a generated variable twice

Names of generated variables join field names with underscores, so fields
such as a.b and a_b led to two declarations of one variable and to
TypeScript which does not compile.
---
 src/lib/gen/gen_ctx.rs | 12 ++++++++++++
 src/lib/gen/ts.rs      | 22 +++++++++++-----------
 2 files changed, 23 insertions(+), 11 deletions(-)

diff --git a/src/lib/gen/gen_ctx.rs b/src/lib/gen/gen_ctx.rs
index 27d36de..0c68b6b 100644
--- a/src/lib/gen/gen_ctx.rs
+++ b/src/lib/gen/gen_ctx.rs
@@ -1,7 +1,10 @@
+use std::collections::HashSet;
+
 pub struct GenCtx<'a> {
     pub indentation: String,
     pub out: &'a mut String,
     pub stack: Vec<String>,
+    pub declared: HashSet<String>,
 }
 
 impl<'a> GenCtx<'a> {
@@ -10,6 +13,7 @@ impl<'a> GenCtx<'a> {
             indentation: String::new(),
             out,
             stack: Vec::new(),
+            declared: HashSet::new(),
         }
     }
 
@@ -25,6 +29,14 @@ impl<'a> GenCtx<'a> {
         });
     }
 
+    /// Returns a variable name based on `name` which was not declared yet
+    pub fn declare(&mut self, mut name: String) -> String {
+        while !self.declared.insert(name.clone()) {
+            name.push('_');
+        }
+        name
+    }
+
     #[inline]
     pub fn push_fname<S: Into<String>>(&mut self, name: S) { self.stack.push(name.into()); }
 
diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 4de8cca..8b61f25 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -17,13 +17,13 @@ impl Common for TypeScript {
     }
 }
 
-fn varname(stack: &[String], name: &str) -> String { format!("{}_{}", stack.join("_"), name) }
-fn bindname(stack: &[String]) -> String { stack.join("_") }
+fn varname(ctx: &mut GenCtx, name: &str) -> String { ctx.declare(format!("{}_{}", ctx.stack.join("_"), name)) }
+fn bindname(ctx: &mut GenCtx) -> String { ctx.declare(ctx.stack.join("_")) }
 fn fname(stack: &[String]) -> String { stack.join(".") }
 
 fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let bind_var = bindname(ctx);
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(bind_var.clone());
@@ -48,8 +48,8 @@ fn gen_write_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 
 fn gen_write_impl_array(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
     let fname = self::fname(&ctx.stack);
-    let item = varname(&ctx.stack, "item");
-    let index = varname(&ctx.stack, "index");
+    let item = varname(ctx, "item");
+    let index = varname(ctx, "index");
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item.clone());
@@ -128,10 +128,10 @@ fn gen_read_impl_optional(ctx: &mut GenCtx, body: impl Fn(&mut GenCtx)) {
 }
 
 fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut GenCtx)) {
-    let len_var = varname(&ctx.stack, "len");
+    let len_var = varname(ctx, "len");
     let fname = self::fname(&ctx.stack);
-    let idx_var = varname(&ctx.stack, "index");
-    let item_var = varname(&ctx.stack, "item");
+    let idx_var = varname(ctx, "index");
+    let item_var = varname(ctx, "item");
     let mut old_stack = Vec::new();
     ctx.swap_stack(&mut old_stack);
     ctx.push_fname(item_var.clone());
@@ -156,7 +156,7 @@ fn gen_read_impl_array(ctx: &mut GenCtx, init_struct: bool, body: impl Fn(&mut G
 fn gen_read_impl_builtin(ctx: &mut GenCtx, type_info: &check::Builtin, type_name: &str) {
     match type_info {
         check::Builtin::String => {
-            let len_var = varname(&ctx.stack, "len");
+            let len_var = varname(ctx, "len");
             cat!(ctx, "let {len_var} = reader.read_uint32();\n");
             let fname = self::fname(&ctx.stack);
             cat!(ctx, "{fname} = reader.read_string({len_var});\n");
@@ -179,7 +179,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
         1u32 << type_info.variants[type_info.variants.len() - 1].value,
     );
     let fname = self::fname(&ctx.stack);
-    let temp = self::varname(&ctx.stack, "temp");
+    let temp = self::varname(ctx, "temp");
     cat!(ctx, "let {temp} = reader.read_{repr_name}();\n");
     // between more than two variants there are values with several bits set
     let single_bit = if type_info.variants.len() > 2 {
@@ -193,7 +193,7 @@ fn gen_read_impl_enum(ctx: &mut GenCtx, type_info: &check::Enum, _name: &str) {
 
 fn gen_read_impl_struct(ctx: &mut GenCtx, ty: &check::Struct, _name: &str, init: bool) {
     let fname = self::fname(&ctx.stack);
-    let bind_var = bindname(&ctx.stack);
+    let bind_var = bindname(ctx);
     let old_stack = if init {
         let mut old_stack = Vec::new();
         ctx.swap_stack(&mut old_stack);
-- 
2.43.0


From f4e3b99993033bcbdb0e95acb92f5389c12bcb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 08/16] fix: allow identifiers which only start with a keyword

Names such as string_value or structure were rejected as reserved.
---
 src/lib/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 6066bda..bf1874e 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -35,7 +35,7 @@ peg::parser!(pub grammar pkt() for str {
     rule ident_chars() -> &'input str = s:$(['a'..='z'|'A'..='Z'|'0'..='9'|'_']) { s }
     /// Parses an entire identifier, ensuring no reserved keywords are used
     rule ident() -> &'input str
-        = i:quiet!{ $(!reserved() ident_start() ident_chars()*) } { i }
+        = i:quiet!{ $(!(reserved() !ident_chars()) ident_start() ident_chars()*) } { i }
 
     rule enum_variant() -> &'input str
         = s:ident() ___ ","? ___ { s }
-- 
2.43.0


From ff0441929de21fcceddd4c483cda3b8f1535716f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 09/16] fix: allow declarations whose name starts with export

A declaration such as exporter: struct {} was taken for an export of er.
---
 src/lib/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index bf1874e..40ed291 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -70,7 +70,7 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule export() -> Node<'input>
-        = "export" _ s:string() {
+        = "export" !ident_chars() _ s:string() {
             Node::Export(s)
         }
 
-- 
2.43.0


From 98631f3347be32301b9c04d3abbd9f0249220459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 10/16] fix: accept whitespace at the end of lines and on empty
 lines

Spaces and tabs on an otherwise empty line, or behind an export, were a
syntax error.
---
 src/lib/parser.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/parser.rs b/src/lib/parser.rs
index 40ed291..9e63445 100644
--- a/src/lib/parser.rs
+++ b/src/lib/parser.rs
@@ -75,13 +75,13 @@ peg::parser!(pub grammar pkt() for str {
         }
 
     rule line() -> Option<Node<'input>>
-        = _ comment() __ { None }
-        / _ e:(export()) __ { Some(e) }
-        / _ s:(decl()) __ { Some(s) }
+        = _ comment() ___ { None }
+        / _ e:(export()) ___ { Some(e) }
+        / _ s:(decl()) ___ { Some(s) }
 
     /// Parses a schema file
     pub rule schema() -> AST<'input>
-        = __? lines:(line()*) {
+        = ___ lines:(line()*) {
             lines.into_iter()
                 .filter_map(|x| x)
                 .collect()
-- 
2.43.0


From 9c7b73e27dabdc1a925d3a745a1c667890728114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 11/16] fix: name the right token in errors of non-ASCII
 schemas

The location's offset is counted in bytes, not in characters.
---
 src/lib/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/lib.rs b/src/lib/lib.rs
index 17e830f..2977a9d 100644
--- a/src/lib/lib.rs
+++ b/src/lib/lib.rs
@@ -25,7 +25,7 @@ fn pretty_error(file: &str, err: ParseError<LineCol>) -> String {
     let mut out_str = String::new();
     out_str += &format!(
         "\nUnexpected token '{}' at line {}, column {}",
-        file.chars().nth(err.location.offset).unwrap_or('\0'),
+        file[err.location.offset..].chars().next().unwrap_or('\0'),
         err.location.line,
         err.location.column
     );
-- 
2.43.0


From 85752803ebc2d7538452e3382f50a3571e2b7a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:33 +0000
Subject: [PATCH 12/16] fix: keep dots in the name of a single input file

The output for a.b.pkt was written to a.ts, but to a.b.ts if the directory
was given.
---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index bedcf16..269f638 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -113,7 +113,7 @@ fn format_path(file: &Path, base_dir: &Path, out_dir: &Path, lang: Lang, preserv
         Ok(out_dir
             .components()
             // This should never panic
-            .chain(vec![Component::Normal(file.file_stem().unwrap())].into_iter())
+            .chain(vec![Component::Normal(file.file_name().unwrap())].into_iter())
             .collect::<PathBuf>()
             .with_extension(extension(lang)))
     }
-- 
2.43.0


From 533585e1dc101d1992eb7714237cb07d3d6f5e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:21:44 +0000
Subject: [PATCH 13/16] fix: fail if the input does not exist

A missing input file or directory was ignored, and the compiler exited
successfully without having written anything.
---
 src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 269f638..ad7c975 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -134,6 +134,8 @@ fn main() -> Result<()> {
             let out = result.path.clone();
             save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
         }
+    } else {
+        anyhow::bail!("Input '{}' could not be read", opts.path);
     }
 
     Ok(())
-- 
2.43.0


From 22ca72eeab52a391e9fcbb65a2449ce8050db66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:15 +0000
Subject: [PATCH 14/16] fix: never shadow the exported class while reading

A schema exporting a type called 'output', or one called like a variable of
the decoder such as 'output_pos', produced a decoder which used a variable
before it was initialized.
---
 src/lib/gen/ts.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lib/gen/ts.rs b/src/lib/gen/ts.rs
index 8b61f25..b50951a 100644
--- a/src/lib/gen/ts.rs
+++ b/src/lib/gen/ts.rs
@@ -259,6 +259,9 @@ fn field_ctor_type(ty: &(&str, check::ResolvedType), export: &str, array: bool,
 impl Impl for TypeScript {
     fn gen_impl<'a>(&self, export: &check::Export, out: &mut String) {
         let mut ctx = GenCtx::new(out);
+        // variables must not shadow the class, which is used while reading
+        ctx.declare(export.name.to_string());
+        let output = ctx.declare("output".to_string());
 
         cat!(ctx, "export class {export.name} {{\n");
         cat!(ctx +++);
@@ -271,14 +274,14 @@ impl Impl for TypeScript {
         cat!(ctx ---);
         cat!(ctx, ") {{}}\n");
 
-        ctx.push_fname("output");
+        ctx.push_fname(output.clone());
         cat!(ctx, "static read(data: ArrayBuffer): {export.name} | null {{\n");
         cat!(ctx +++);
         cat!(ctx, "let reader = new Reader(data);\n");
-        cat!(ctx, "let output = Object.create({export.name});\n");
+        cat!(ctx, "let {output} = Object.create({export.name});\n");
         gen_read_impl_struct(&mut ctx, &export.r#struct, &export.name, false);
         cat!(ctx, "if (reader.failed) return null;\n");
-        cat!(ctx, "return output;\n");
+        cat!(ctx, "return {output};\n");
         cat!(ctx ---);
         cat!(ctx, "}}\n");
         ctx.pop_fname();
-- 
2.43.0


From 9d59b7358a616ecd55abb45176bcdbae961ecdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:46:34 +0000
Subject: [PATCH 15/16] fix: accept files and directories whose names are not
 UTF-8

The tool panicked in a directory with such a name, even if there was no
schema in it, and refused schema files with such a name.
---
 src/main.rs | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index ad7c975..c3fcc47 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -44,13 +44,13 @@ fn extension(lang: Lang) -> &'static str {
     }
 }
 
-fn visit_files(dir: &str, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Result<()> {
+fn visit_files(dir: &Path, cb: &mut dyn FnMut(&fs::DirEntry) -> Result<()>) -> Result<()> {
     if fs::metadata(dir)?.is_dir() {
         for entry in fs::read_dir(dir)? {
             let entry = entry?;
             let path = entry.path();
             if path.is_dir() {
-                visit_files(path.to_str().unwrap(), cb)?;
+                visit_files(&path, cb)?;
             } else if path.extension().is_some() && path.extension().unwrap() == "pkt" {
                 cb(&entry)?;
             }
@@ -65,7 +65,7 @@ struct Schema {
     generated: String,
 }
 
-fn run_one(path: String, lang: Lang) -> Result<Schema> {
+fn run_one(path: PathBuf, lang: Lang) -> Result<Schema> {
     Ok(Schema {
         path: PathBuf::from(path.clone()),
         generated: match lang {
@@ -78,15 +78,8 @@ fn run_one(path: String, lang: Lang) -> Result<Schema> {
 
 fn run_all(dir: String, lang: Lang) -> Result<Vec<Schema>> {
     let mut out = Vec::new();
-    visit_files(&dir, &mut |entry| {
-        out.push(run_one(
-            entry
-                .path()
-                .to_str()
-                .ok_or_else(|| anyhow::anyhow!("invalid path"))?
-                .into(),
-            lang,
-        )?);
+    visit_files(Path::new(&dir), &mut |entry| {
+        out.push(run_one(entry.path(), lang)?);
         Ok(())
     })?;
     Ok(out)
@@ -130,7 +123,7 @@ fn main() -> Result<()> {
                 save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, true)?)?;
             }
         } else {
-            let result = run_one(opts.path.clone(), opts.lang)?;
+            let result = run_one(base_dir.clone(), opts.lang)?;
             let out = result.path.clone();
             save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
         }
-- 
2.43.0


From 70b536ca94c5156534c17bc7f103eff917f99258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:06:41 +0000
Subject: [PATCH 16/16] fix: accept input and output paths which are not UTF-8

The tool panicked while looking at its arguments if one of the paths had bytes
which are not UTF-8, although it can read and write such files.
---
 src/main.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index c3fcc47..f04731d 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -13,8 +13,10 @@ use clap::Clap;
 #[clap(version = "1.0", author = "Jan P. <honza.spacir1@gmail.com>")]
 struct Opts {
     lang: Lang,
-    path: String,
-    out: String,
+    #[clap(parse(from_os_str))]
+    path: PathBuf,
+    #[clap(parse(from_os_str))]
+    out: PathBuf,
 }
 
 #[derive(Clone, Copy, Debug)]
@@ -76,7 +78,7 @@ fn run_one(path: PathBuf, lang: Lang) -> Result<Schema> {
     })
 }
 
-fn run_all(dir: String, lang: Lang) -> Result<Vec<Schema>> {
+fn run_all(dir: PathBuf, lang: Lang) -> Result<Vec<Schema>> {
     let mut out = Vec::new();
     visit_files(Path::new(&dir), &mut |entry| {
         out.push(run_one(entry.path(), lang)?);
@@ -128,7 +130,7 @@ fn main() -> Result<()> {
             save_one(result, &format_path(&out, &base_dir, &out_dir, opts.lang, false)?)?;
         }
     } else {
-        anyhow::bail!("Input '{}' could not be read", opts.path);
+        anyhow::bail!("Input '{}' could not be read", opts.path.display());
     }
 
     Ok(())
-- 
2.43.0

