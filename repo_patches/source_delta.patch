From 548db91f7199851aa404b83f10b072617e26e716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 01/22] fix: release the nesting level when a match target does
 not parse

---
 askama_parser/src/node.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index 708d880..ceac4a8 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -175,9 +175,9 @@ impl<'a> Target<'a> {
         map(
             separated_list1(ws(tag("or")), |i| {
                 s.nest(i)?;
-                let ret = Self::parse_one(i, s)?;
+                let ret = Self::parse_one(i, s);
                 s.leave();
-                Ok(ret)
+                ret
             }),
             |mut opts| match opts.len() {
                 1 => opts.pop().unwrap(),
-- 
2.43.0


From b50eaec249b62599baaac1dfee20c4f1efb69630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 02/22] fix: evaluate a filter expression each time it occurs

---
 askama_derive/src/generator.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 6d2283f..db9cb2d 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2053,7 +2053,6 @@ pub(crate) fn is_cacheable(expr: &Expr<'_>) -> bool {
         Expr::Array(args) => args.iter().all(is_cacheable),
         Expr::Attr(lhs, _) => is_cacheable(lhs),
         Expr::Index(lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
-        Expr::Filter(Filter { arguments, .. }) => arguments.iter().all(is_cacheable),
         Expr::Unary(_, arg) => is_cacheable(arg),
         Expr::BinOp(_, lhs, rhs) => is_cacheable(lhs) && is_cacheable(rhs),
         Expr::Range(_, lhs, rhs) => {
@@ -2064,6 +2063,7 @@ pub(crate) fn is_cacheable(expr: &Expr<'_>) -> bool {
         Expr::Tuple(args) => args.iter().all(is_cacheable),
         Expr::NamedArgument(_, expr) => is_cacheable(expr),
         // We have too little information to tell if the expression is pure:
+        Expr::Filter(_) => false,
         Expr::Call(_, _) => false,
         Expr::RustMacro(_, _) => false,
         Expr::Try(_) => false,
-- 
2.43.0


From 59dfe78f52ff67376f8bb6602dfbcf5b0de4f70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 03/22] fix: minimize whitespace between two tags if either of
 them asks for it

---
 askama_derive/src/generator.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index db9cb2d..a66634c 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1797,13 +1797,15 @@ impl<'a> Generator<'a> {
         // If `whitespace` is set to `suppress`, we keep the whitespace characters only if there is
         // a `+` character.
         match self.should_trim_ws(ws.0) {
-            WhitespaceHandling::Preserve => {
+            // There is only whitespace between this node and the previous non-literal,
+            // and the latter minimizes it.
+            WhitespaceHandling::Preserve if self.skip_ws != WhitespaceHandling::Minimize => {
                 let val = self.next_ws.unwrap();
                 if !val.is_empty() {
                     self.buf_writable.push(Writable::Lit(val));
                 }
             }
-            WhitespaceHandling::Minimize => {
+            WhitespaceHandling::Preserve | WhitespaceHandling::Minimize => {
                 let val = self.next_ws.unwrap();
                 if !val.is_empty() {
                     self.buf_writable
-- 
2.43.0


From 678cb78a2f499e46f441151232e790cc34d5c3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 04/22] fix: remove leading and trailing empty paragraphs in
 paragraphbreaks

---
 askama/src/filters/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index e4871fa..0bc6e92 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -244,8 +244,8 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 #[inline]
 pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
     fn paragraphbreaks(s: String) -> Result<String, Infallible> {
-        let linebroken = s.replace("\n\n", "</p><p>").replace("<p></p>", "");
-        Ok(format!("<p>{linebroken}</p>"))
+        let linebroken = s.replace("\n\n", "</p><p>");
+        Ok(format!("<p>{linebroken}</p>").replace("<p></p>", ""))
     }
     paragraphbreaks(s.to_string())
 }
-- 
2.43.0


From 35e285d1bf4d5253811c6d4b40fb6b1b88f972c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:11 +0000
Subject: [PATCH 05/22] fix: respond with status 500 if rendering fails in
 askama_axum

---
 askama_axum/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_axum/src/lib.rs b/askama_axum/src/lib.rs
index bbc47ab..e5c5b9f 100644
--- a/askama_axum/src/lib.rs
+++ b/askama_axum/src/lib.rs
@@ -11,7 +11,12 @@ use axum_core::response::{IntoResponse, Response};
 /// Render a [`Template`] into a [`Response`], or render an error page.
 pub fn into_response<T: ?Sized + askama::Template>(tmpl: &T) -> Response {
     try_into_response(tmpl)
-        .map_err(|err| axum_core::response::ErrorResponse::from(err.to_string()))
+        .map_err(|err| {
+            axum_core::response::ErrorResponse::from((
+                http::StatusCode::INTERNAL_SERVER_ERROR,
+                err.to_string(),
+            ))
+        })
         .into_response()
 }
 
-- 
2.43.0


From 05ca2b7b607232bc7e1f14ee0da1cac71502fa5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 06/22] fix: write pending expressions before a new variable
 shadows a field

---
 askama_derive/src/generator.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index a66634c..d1a28fd 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -838,8 +838,8 @@ impl<'a> Generator<'a> {
             Target::Name(name) => {
                 let name = normalize_identifier(name);
                 match self.locals.get(&Cow::Borrowed(name)) {
-                    // declares a new variable
-                    None => Ok(false),
+                    // declares a new variable, which may shadow a field of the template struct
+                    None => Ok(true),
                     // an initialized variable gets shadowed
                     Some(meta) if meta.initialized => Ok(true),
                     // initializes a variable that was introduced in a LetDecl before
-- 
2.43.0


From 04ab5ee10069ad6d93d243af60f5b77911b7e4e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 07/22] fix: keep the variables of a block and of its parent
 template apart

---
 askama_derive/src/generator.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index d1a28fd..0deda0f 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -973,14 +973,13 @@ impl<'a> Generator<'a> {
         child.prepare_ws(def.ws1);
 
         child.super_block = Some(cur);
-        let size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
-
-        if !child.locals.is_current_empty() {
-            // Need to flush the buffer before popping the variable stack
-            child.write_buf_writable(buf)?;
-        }
+        buf.writeln("{")?;
+        let mut size_hint = child.handle(&child_ctx, &def.nodes, buf, AstLevel::Block)?;
 
         child.flush_ws(def.ws2);
+        // Need to flush the buffer before leaving the scope of the block
+        size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.buf_writable = child.buf_writable;
 
         // Restore original block context and set whitespace suppression for
@@ -1946,10 +1945,6 @@ where
             .or_else(|| self.parent.and_then(|set| set.get(key)))
     }
 
-    fn is_current_empty(&self) -> bool {
-        self.scopes.last().unwrap().is_empty()
-    }
-
     fn insert(&mut self, key: K, val: V) {
         self.scopes.last_mut().unwrap().insert(key, val);
 
-- 
2.43.0


From 4485c66dcf93219c6a5765c4cddcb62503baee06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 08/22] fix: do not leak the variables of an included template

---
 askama_derive/src/generator.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 0deda0f..9b2ca58 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -826,8 +826,10 @@ impl<'a> Generator<'a> {
         let locals = MapChain::with_parent(&self.locals);
         let mut child = Self::new(self.input, self.contexts, heritage.as_ref(), locals);
         child.buf_writable.discard = self.buf_writable.discard;
+        buf.writeln("{")?;
         let mut size_hint = child.handle(handle_ctx, handle_ctx.nodes, buf, AstLevel::Top)?;
         size_hint += child.write_buf_writable(buf)?;
+        buf.writeln("}")?;
         self.prepare_ws(i.ws);
 
         Ok(size_hint)
-- 
2.43.0


From 0292318990debea2c8bf6c320bbb28e92cf972fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 09/22] fix: report cycles of `extends` which do not contain
 the rendered template

---
 askama_derive/src/input.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index 10b9927..d184020 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -149,6 +149,17 @@ impl TemplateInput<'_> {
                             } else if dependency_graph.contains(&dependency_path) {
                                 return cyclic_graph_error(&dependency_graph);
                             }
+                            // Follow the ancestors that are already known, to find longer cycles.
+                            let mut ancestor = Some(&extends);
+                            while let Some(from) = ancestor {
+                                if *from == path {
+                                    dependency_graph.push(dependency_path);
+                                    return cyclic_graph_error(&dependency_graph);
+                                }
+                                ancestor = dependency_graph
+                                    .iter()
+                                    .find_map(|(child, parent)| (child == from).then_some(parent));
+                            }
                             dependency_graph.push(dependency_path);
                             add_to_check(extends)?;
                         }
-- 
2.43.0


From 5f7f9d30be08c1c4ee1da9fe79371f109c8da7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:41 +0000
Subject: [PATCH 10/22] fix: apply filter blocks to their whole body, and keep
 what precedes them

---
 askama_derive/src/generator.rs | 39 ++++++++++++----------------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 9b2ca58..fc46784 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -719,36 +719,23 @@ impl<'a> Generator<'a> {
                 break;
             }
         }
-        let current_buf = mem::take(&mut self.buf_writable.buf);
+        self.write_buf_writable(buf)?;
 
+        // Render the body into a string, whatever kinds of nodes it consists of.
+        buf.writeln(&format!("let {var_name} = {{"))?;
+        buf.writeln("let mut body = ::std::string::String::new();")?;
+        buf.writeln("{")?;
+        buf.writeln("let writer: &mut dyn ::std::fmt::Write = &mut body;")?;
+        self.locals.push();
         self.prepare_ws(filter.ws1);
         let mut size_hint = self.handle(ctx, &filter.nodes, buf, AstLevel::Nested)?;
         self.flush_ws(filter.ws2);
-
-        let WriteParts {
-            size_hint: write_size_hint,
-            buffers,
-        } = self.prepare_format(buf.indent + 1)?;
-        size_hint += match buffers {
-            None => return Ok(0),
-            Some(WritePartsBuffers { format, expr: None }) => {
-                buf.writeln(&format!("let {var_name} = {:#?};", &format.buf))?;
-                write_size_hint
-            }
-            Some(WritePartsBuffers {
-                format,
-                expr: Some(expr),
-            }) => {
-                buf.writeln(&format!(
-                    "let {var_name} = format!({:#?}, {});",
-                    &format.buf,
-                    expr.buf.trim(),
-                ))?;
-                write_size_hint
-            }
-        };
-
-        self.buf_writable.buf = current_buf;
+        size_hint += self.write_buf_writable(buf)?;
+        self.locals.pop();
+        buf.writeln("}")?;
+        buf.writeln("body")?;
+        buf.dedent()?;
+        buf.writeln("};")?;
 
         let mut filter_buf = Buffer::new(buf.indent);
         let Filter {
-- 
2.43.0


From 15a64b10a659c2a4a8d0e9f4673b8d928ce52a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:27 +0000
Subject: [PATCH 11/22] fix: do not remove the text "<p></p>" in
 paragraphbreaks

---
 askama/src/filters/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/askama/src/filters/mod.rs b/askama/src/filters/mod.rs
index 0bc6e92..daacffb 100644
--- a/askama/src/filters/mod.rs
+++ b/askama/src/filters/mod.rs
@@ -244,8 +244,15 @@ pub fn linebreaksbr(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
 #[inline]
 pub fn paragraphbreaks(s: impl ToString) -> Result<impl fmt::Display, Infallible> {
     fn paragraphbreaks(s: String) -> Result<String, Infallible> {
-        let linebroken = s.replace("\n\n", "</p><p>");
-        Ok(format!("<p>{linebroken}</p>").replace("<p></p>", ""))
+        let mut linebroken = String::new();
+        for paragraph in s.split("\n\n") {
+            if !paragraph.is_empty() {
+                linebroken.push_str("<p>");
+                linebroken.push_str(paragraph);
+                linebroken.push_str("</p>");
+            }
+        }
+        Ok(linebroken)
     }
     paragraphbreaks(s.to_string())
 }
-- 
2.43.0


From daf2a3b991ca947ed28c9e910e89a22a255c677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 12/22] fix: keep the indentation balanced where a block
 fragment discards output

---
 askama_derive/src/generator.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index fc46784..8a54df9 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1869,10 +1869,15 @@ impl Buffer {
     }
 
     fn indent(&mut self) {
-        self.indent += 1;
+        if !self.discard {
+            self.indent += 1;
+        }
     }
 
     fn dedent(&mut self) -> Result<(), CompileError> {
+        if self.discard {
+            return Ok(());
+        }
         if self.indent == 0 {
             return Err("dedent() called while indentation == 0".into());
         }
-- 
2.43.0


From 27fedfbea12059ea573f7aa8cc30e71fb04be527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:18 +0000
Subject: [PATCH 13/22] fix: count the indentation of generated code without
 overflow

---
 askama_derive/src/generator.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 8a54df9..5d481c6 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -1017,7 +1017,7 @@ impl<'a> Generator<'a> {
     /// This is the common code to generate an expression. It is used for filter blocks and for
     /// expressions more generally. It stores the size it represents and the buffers. Take a look
     /// at `WriteParts` for more details.
-    fn prepare_format(&mut self, indent: u8) -> Result<WriteParts, CompileError> {
+    fn prepare_format(&mut self, indent: usize) -> Result<WriteParts, CompileError> {
         if self.buf_writable.is_empty() {
             return Ok(WriteParts {
                 size_hint: 0,
@@ -1820,14 +1820,14 @@ struct Buffer {
     // The buffer to generate the code into
     buf: String,
     // The current level of indentation (in spaces)
-    indent: u8,
+    indent: usize,
     // Whether the output buffer is currently at the start of a line
     start: bool,
     discard: bool,
 }
 
 impl Buffer {
-    fn new(indent: u8) -> Self {
+    fn new(indent: usize) -> Self {
         Self {
             buf: String::new(),
             indent,
-- 
2.43.0


From 05e75681a5df91e355a83b47d004d411ed717672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:09 +0000
Subject: [PATCH 14/22] fix: write_into reports an error of the template
 instead of panicking

---
 askama/src/lib.rs | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/askama/src/lib.rs b/askama/src/lib.rs
index 6f1f6c6..e31d721 100644
--- a/askama/src/lib.rs
+++ b/askama/src/lib.rs
@@ -93,7 +93,16 @@ pub trait Template: fmt::Display {
     /// Renders the template to the given `writer` io buffer
     #[inline]
     fn write_into(&self, writer: &mut (impl std::io::Write + ?Sized)) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        let mut adapter = IoAdapter {
+            writer,
+            error: None,
+        };
+        match self.render_into(&mut adapter) {
+            Ok(()) => Ok(()),
+            Err(err) => Err(adapter
+                .error
+                .unwrap_or_else(|| std::io::Error::new(std::io::ErrorKind::Other, err))),
+        }
     }
 
     /// The template's extension, if provided
@@ -114,6 +123,24 @@ pub trait Template: fmt::Display {
     const MIME_TYPE: &'static str;
 }
 
+/// Writes into an io buffer, and remembers its error.
+///
+/// [`std::io::Write::write_fmt`] cannot be used for templates: it panics if rendering fails
+/// for any other reason than an error of the io buffer.
+struct IoAdapter<'a, W: ?Sized> {
+    writer: &'a mut W,
+    error: Option<std::io::Error>,
+}
+
+impl<W: std::io::Write + ?Sized> fmt::Write for IoAdapter<'_, W> {
+    fn write_str(&mut self, s: &str) -> fmt::Result {
+        self.writer.write_all(s.as_bytes()).map_err(|err| {
+            self.error = Some(err);
+            fmt::Error
+        })
+    }
+}
+
 impl<T: Template + ?Sized> Template for &T {
     #[inline]
     fn render_into(&self, writer: &mut (impl std::fmt::Write + ?Sized)) -> Result<()> {
@@ -171,7 +198,7 @@ impl<T: Template> DynTemplate for T {
 
     #[inline]
     fn dyn_write_into(&self, writer: &mut dyn std::io::Write) -> std::io::Result<()> {
-        writer.write_fmt(format_args!("{self}"))
+        <Self as Template>::write_into(self, writer)
     }
 
     fn extension(&self) -> Option<&'static str> {
-- 
2.43.0


From b80dead05eb2785a261948fbeeb8c65aaf617178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:04 +0000
Subject: [PATCH 15/22] fix: names that start with an underscore or an uncased
 letter are variables, not paths

---
 askama_parser/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/askama_parser/src/lib.rs b/askama_parser/src/lib.rs
index 09218aa..0717141 100644
--- a/askama_parser/src/lib.rs
+++ b/askama_parser/src/lib.rs
@@ -516,7 +516,7 @@ fn path_or_identifier(i: &str) -> ParseResult<'_, PathOrIdentifier<'_>> {
             path.extend(rest);
             Ok((i, PathOrIdentifier::Path(path)))
         }
-        (None, name, []) if name.chars().next().map_or(true, |c| c.is_lowercase()) => {
+        (None, name, []) if name.chars().next().map_or(true, |c| !c.is_uppercase()) => {
             Ok((i, PathOrIdentifier::Identifier(name)))
         }
         (None, start, tail) => {
-- 
2.43.0


From b5dd53c091a131756b49d95563c175be89357560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:38 +0000
Subject: [PATCH 16/22] fix: keywords as macro arguments and declared variables

---
 askama_derive/src/generator.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 5d481c6..5978dc6 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -651,6 +651,7 @@ impl<'a> Generator<'a> {
                     &args[index]
                 }
             };
+            let arg = normalize_identifier(arg);
             match expr {
                 // If `expr` is already a form of variable then
                 // don't reintroduce a new variable. This is
@@ -878,7 +879,7 @@ impl<'a> Generator<'a> {
         }
         if shadowed
             || !matches!(l.var, Target::Name(_))
-            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(name)).is_none())
+            || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(normalize_identifier(name))).is_none())
         {
             buf.write("let ");
         }
-- 
2.43.0


From 48e059be354cd51710a8e3eec5c762f1b1fe46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:37 +0000
Subject: [PATCH 17/22] fix: comments can be closed where their end begins like
 another comment

---
 askama_parser/src/node.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index ceac4a8..aa8ff47 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -1051,6 +1051,10 @@ impl<'a> Comment<'a> {
         }
 
         fn tag<'a>(i: &'a str, s: &State<'_>) -> ParseResult<'a, Tag> {
+            // Comments cannot be nested if their end looks like the start of another comment.
+            if s.syntax.comment_end.starts_with(s.syntax.comment_start) {
+                return value(Tag::Close, |i| s.tag_comment_end(i))(i);
+            }
             alt((
                 value(Tag::Open, |i| s.tag_comment_start(i)),
                 value(Tag::Close, |i| s.tag_comment_end(i)),
-- 
2.43.0


From 3bd6d8b0f1f66de9e0b6af7af7a8a95083208fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:34 +0000
Subject: [PATCH 18/22] fix: included templates are looked up relative to the
 file that includes them

---
 askama_derive/src/generator.rs | 2 +-
 askama_derive/src/heritage.rs  | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 5978dc6..044d44d 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -771,7 +771,7 @@ impl<'a> Generator<'a> {
         let path = self
             .input
             .config
-            .find_template(i.path, Some(&self.input.path))?;
+            .find_template(i.path, ctx.path.or(Some(&self.input.path)))?;
 
         // Make sure the compiler understands that the generated code depends on the template file.
         {
diff --git a/askama_derive/src/heritage.rs b/askama_derive/src/heritage.rs
index 76894cb..eb6a74d 100644
--- a/askama_derive/src/heritage.rs
+++ b/askama_derive/src/heritage.rs
@@ -43,12 +43,14 @@ pub(crate) struct Context<'a> {
     pub(crate) blocks: HashMap<&'a str, &'a BlockDef<'a>>,
     pub(crate) macros: HashMap<&'a str, &'a Macro<'a>>,
     pub(crate) imports: HashMap<&'a str, Rc<Path>>,
+    /// The file that contains the nodes; paths in the nodes are relative to it.
+    pub(crate) path: Option<&'a Path>,
 }
 
 impl Context<'_> {
     pub(crate) fn new<'n>(
         config: &Config<'_>,
-        path: &Path,
+        path: &'n Path,
         nodes: &'n [Node<'n>],
     ) -> Result<Context<'n>, CompileError> {
         let mut extends = None;
@@ -109,6 +111,7 @@ impl Context<'_> {
             blocks,
             macros,
             imports,
+            path: Some(path),
         })
     }
 }
-- 
2.43.0


From 2e6d12b17971fb3b5f358029862221d1fa060e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 19/22] fix: expressions before an assignment are evaluated
 before it

---
 askama_derive/src/generator.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 044d44d..eb0e0f2 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -872,11 +872,9 @@ impl<'a> Generator<'a> {
         self.visit_expr(&mut expr_buf, val)?;
 
         let shadowed = self.is_shadowing_variable(&l.var)?;
-        if shadowed {
-            // Need to flush the buffer if the variable is being shadowed,
-            // to ensure the old variable is used.
-            self.write_buf_writable(buf)?;
-        }
+        // Need to flush the buffer, to ensure that the old variable is used if it is being shadowed,
+        // and that preceding expressions are evaluated before the assigned one.
+        self.write_buf_writable(buf)?;
         if shadowed
             || !matches!(l.var, Target::Name(_))
             || matches!(&l.var, Target::Name(name) if self.locals.get(&Cow::Borrowed(normalize_identifier(name))).is_none())
-- 
2.43.0


From 9179925987265c98d441c7e97ced253ec9210896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 20/22] fix: macro arguments are resolved in the scope of the
 call

---
 askama_derive/src/generator.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index eb0e0f2..585478b 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -633,6 +633,9 @@ impl<'a> Generator<'a> {
         // * If there isn't one, then we pick the next argument (we can do it without checking
         //   anything since named arguments are always last).
         let mut allow_positional = true;
+        // The arguments belong to the scope of the caller: none of the macro's variables must be
+        // known before all of them have been resolved.
+        let mut variables = Vec::with_capacity(def.args.len());
         for (index, arg) in def.args.iter().enumerate() {
             let expr = match named_arguments.get(&Cow::Borrowed(arg)) {
                 Some(expr) => {
@@ -658,16 +661,14 @@ impl<'a> Generator<'a> {
                 // to avoid moving non-copyable values.
                 &Expr::Var(name) if name != "self" => {
                     let var = self.locals.resolve_or_self(name);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    variables.push((arg, LocalMeta::with_ref(var)));
                 }
                 Expr::Attr(obj, attr) => {
                     let mut attr_buf = Buffer::new(0);
                     self.visit_attr(&mut attr_buf, obj, attr)?;
 
                     let var = self.locals.resolve(&attr_buf.buf).unwrap_or(attr_buf.buf);
-                    self.locals
-                        .insert(Cow::Borrowed(arg), LocalMeta::with_ref(var));
+                    variables.push((arg, LocalMeta::with_ref(var)));
                 }
                 // Everything else still needs to become variables,
                 // to avoid having the same logic be executed
@@ -685,10 +686,13 @@ impl<'a> Generator<'a> {
                     values.write("(");
                     values.write(&self.visit_expr_root(expr)?);
                     values.write(")");
-                    self.locals.insert_with_default(Cow::Borrowed(arg));
+                    variables.push((arg, LocalMeta::default()));
                 }
             }
         }
+        for (arg, meta) in variables {
+            self.locals.insert(Cow::Borrowed(arg), meta);
+        }
 
         debug_assert_eq!(names.buf.is_empty(), values.buf.is_empty());
         if !names.buf.is_empty() {
-- 
2.43.0


From 730f719dcbcb2ab8cec1c6a658346c4cc4934745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:13 +0000
Subject: [PATCH 21/22] fix: a derived template may import itself

find_used_templates puts the compiled template on its list a second time
when that imports itself; a template that also extends another one was
then refused with a cyclic dependency that does not exist.
---
 askama_derive/src/input.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/askama_derive/src/input.rs b/askama_derive/src/input.rs
index d184020..6191b8d 100644
--- a/askama_derive/src/input.rs
+++ b/askama_derive/src/input.rs
@@ -168,7 +168,10 @@ impl TemplateInput<'_> {
                         }
                         Node::Import(import) if top => {
                             let import = self.config.find_template(import.path, Some(&path))?;
-                            add_to_check(import)?;
+                            // A template may import its own macros; it need not be checked twice.
+                            if import != path {
+                                add_to_check(import)?;
+                            }
                         }
                         Node::FilterBlock(f) => {
                             nested.push(&f.nodes);
-- 
2.43.0


From d3641ffba17b7146181f9f64e693dddc623baee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:35 +0000
Subject: [PATCH 22/22] fix: a filter block whose first filter has a filter
 expression as argument

The content of the block was inserted in the innermost filter that is
reached through the first arguments, which could be a filter in an
explicit argument: {% filter a(x|b) %} was parsed like {% filter b(x)|a %}.
The parser now leaves a place for the content.
---
 askama_derive/src/generator.rs | 16 +++++++++-------
 askama_parser/src/node.rs      |  6 +++++-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/askama_derive/src/generator.rs b/askama_derive/src/generator.rs
index 585478b..9a40a68 100644
--- a/askama_derive/src/generator.rs
+++ b/askama_derive/src/generator.rs
@@ -2093,7 +2093,7 @@ fn median(sizes: &mut [usize]) -> usize {
 ///                arguments: vec![
 ///                    Filter {
 ///                        name: "a",
-///                        arguments: vec![],
+///                        arguments: vec![Generated("")],
 ///                    }.
 ///                ],
 ///            }
@@ -2104,13 +2104,15 @@ fn median(sizes: &mut [usize]) -> usize {
 /// ```
 ///
 /// So in here, we want to insert the variable containing the content of the filter block inside
-/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally insert our
-/// variable as the first argument to the `"a"` call.
+/// the call to `"a"`. To do so, we recursively go through all `Filter` and finally put our
+/// variable in the place that the parser left for it in the call to `"a"`.
 fn insert_first_filter_argument(args: &mut Vec<Expr<'_>>, var_name: String) {
-    if let Some(Expr::Filter(Filter { arguments, .. })) = args.first_mut() {
-        insert_first_filter_argument(arguments, var_name);
-    } else {
-        args.insert(0, Expr::Generated(var_name));
+    match args.first_mut() {
+        Some(Expr::Filter(Filter { arguments, .. })) => {
+            insert_first_filter_argument(arguments, var_name);
+        }
+        Some(Expr::Generated(name)) => *name = var_name,
+        _ => args.insert(0, Expr::Generated(var_name)),
     }
 }
 
diff --git a/askama_parser/src/node.rs b/askama_parser/src/node.rs
index aa8ff47..88a6b3c 100644
--- a/askama_parser/src/node.rs
+++ b/askama_parser/src/node.rs
@@ -612,9 +612,13 @@ impl<'a> FilterBlock<'a> {
         ));
         let (i, (pws1, _, (filter_name, params, extra_filters, _, nws1, _))) = start(i)?;
 
+        // The first argument is the content of the block. Its name is only known once the code is
+        // generated, but its place must be: the explicit arguments may be filter expressions, too.
+        let mut arguments = params.unwrap_or_default();
+        arguments.insert(0, Expr::Generated(String::new()));
         let mut filters = Filter {
             name: filter_name,
-            arguments: params.unwrap_or_default(),
+            arguments,
         };
         for (filter_name, args) in extra_filters {
             filters = Filter {
-- 
2.43.0

