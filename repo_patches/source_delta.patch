From 9805ccf157f93c873148abfa15c29bc3290a2ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 01/47] fix: require allow-uri-read for every target that
 resolves to a URI

A target spelled with one slash (https:/host/x) or built from an attribute,
imagesdir, iconsdir or docinfodir became a URI only after the permission test,
so includes, images and docinfo could fetch remote content without
allow-uri-read.
---
 parser/src/docinfo.rs                                 |  3 +++
 .../src/tasks/directives/includes/process_includes.rs | 11 +++++++++++
 parser/src/tasks/parse_image_block.rs                 | 10 ++++++++++
 3 files changed, 24 insertions(+)

diff --git a/parser/src/docinfo.rs b/parser/src/docinfo.rs
index 1e125bd..096babb 100644
--- a/parser/src/docinfo.rs
+++ b/parser/src/docinfo.rs
@@ -80,6 +80,9 @@ impl<'arena> Parser<'arena> {
     file: &str,
   ) -> Option<DocInfoFragment<'arena>> {
     let target = docinfo_target(&self.document.meta, resolver, file);
+    if matches!(target, IncludeTarget::Uri(_)) && !self.document.meta.is_true("allow-uri-read") {
+      return None;
+    }
     let mut buffer = BumpVec::new_in(self.bump);
     resolver
       .resolve(target, &mut buffer, self.document.meta.safe_mode)
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 3811176..02b55ab 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -75,6 +75,17 @@ impl<'arena> Parser<'arena> {
       }
     };
 
+    // the prepared target may be a uri even if the directive's wasn't spelled as one
+    if matches!(target, IncludeTarget::Uri(_)) && !self.document.meta.is_true("allow-uri-read") {
+      self.target_err(
+        "Cannot include URL contents (allow-uri-read not enabled)",
+        &directive,
+      )?;
+      return Ok(DirectiveAction::SubstituteLine(
+        self.substitute_link_for_include(&directive),
+      ));
+    }
+
     let target_abspath = target.path();
     let mut buffer = BumpVec::new_in(self.bump);
     match resolver.resolve(target, &mut buffer, self.document.meta.safe_mode) {
diff --git a/parser/src/tasks/parse_image_block.rs b/parser/src/tasks/parse_image_block.rs
index a3bc290..7fc628e 100644
--- a/parser/src/tasks/parse_image_block.rs
+++ b/parser/src/tasks/parse_image_block.rs
@@ -257,6 +257,16 @@ impl<'arena> Parser<'arena> {
       return Ok(None);
     };
 
+    if matches!(include_target, IncludeTarget::Uri(_))
+      && !self.document.meta.is_true("allow-uri-read")
+    {
+      self.err_at(
+        "Cannot include URL contents (allow-uri-read not enabled)",
+        err_loc,
+      )?;
+      return Ok(None);
+    }
+
     let mut buffer = BumpVec::new_in(self.bump);
     match resolver.resolve(include_target, &mut buffer, self.document.meta.safe_mode) {
       Ok(_) => {
-- 
2.43.0


From dc81c9b7663b601a3030c96c1b353e06f2df4f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 02/47] fix: keep read-only job doctype and leveloffset when
 the document sets them

---
 core/src/document_meta.rs           | 9 ++++++++-
 parser/src/tasks/parse_doc_attrs.rs | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/src/document_meta.rs b/core/src/document_meta.rs
index f262cfc..c1760bb 100644
--- a/core/src/document_meta.rs
+++ b/core/src/document_meta.rs
@@ -142,7 +142,9 @@ impl DocumentMeta {
     match key {
       "doctype" => {
         if let Some(doctype) = value.str().and_then(|s| s.parse::<DocType>().ok()) {
-          self.set_doctype(doctype);
+          if !self.is_job_readonly("doctype") {
+            self.set_doctype(doctype);
+          }
         } else {
           return Err("Invalid doctype: expected `article`, `book`, `manpage`, or `inline`".into());
         }
@@ -181,6 +183,11 @@ impl DocumentMeta {
     self.job_attrs.insert(key.into(), job_attr)
   }
 
+  /// attr was set by the job (CLI/API) such that the document may not change it
+  pub fn is_job_readonly(&self, key: &str) -> bool {
+    self.job_attrs.get(key).is_some_and(|attr| attr.readonly)
+  }
+
   pub fn clear_doc_attrs(&mut self) {
     self.doc_attrs = Attrs::empty();
   }
diff --git a/parser/src/tasks/parse_doc_attrs.rs b/parser/src/tasks/parse_doc_attrs.rs
index c5794ac..964f323 100644
--- a/parser/src/tasks/parse_doc_attrs.rs
+++ b/parser/src/tasks/parse_doc_attrs.rs
@@ -166,7 +166,7 @@ impl<'arena> Parser<'arena> {
       in_header: self.ctx.in_header,
     });
 
-    if name == "leveloffset" {
+    if name == "leveloffset" && !self.document.meta.is_job_readonly(name) {
       Parser::adjust_leveloffset(&mut self.ctx.leveloffset, &value);
     }
 
-- 
2.43.0


From 96f234b146af05ef6058bbb0d42b333fc5f17297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:12 +0000
Subject: [PATCH 03/47] fix: report invalid cross references in document order

---
 parser/src/tasks/diagnose_document.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/diagnose_document.rs b/parser/src/tasks/diagnose_document.rs
index 5215ac7..d7081b4 100644
--- a/parser/src/tasks/diagnose_document.rs
+++ b/parser/src/tasks/diagnose_document.rs
@@ -11,7 +11,11 @@ impl Parser<'_> {
     if self.ctx.table_cell_ctx != TableCellContext::None {
       return Ok(());
     }
-    for (ref_target, ref_loc) in self.ctx.xrefs.borrow().iter() {
+    let xrefs = self.ctx.xrefs.borrow();
+    // hash iteration order is random, report in document order
+    let mut xrefs = xrefs.iter().collect::<Vec<_>>();
+    xrefs.sort_by_key(|(_, loc)| loc.uid());
+    for (ref_target, ref_loc) in xrefs {
       let Some((idx, id)) = self.target_data(ref_target, ref_loc.include_depth) else {
         // couldn't find source idx
         self.invalid_xref(ref_target, *ref_loc)?;
-- 
2.43.0


From ba0f9cf8be987d0be827fc618f0519ac85839245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 04/47] fix: exit visible index terms the evaluator enters

---
 eval/src/eval.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index 9ea339b..a891fba 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -609,6 +609,7 @@ fn eval_index_term(index_term: &asciidork_ast::IndexTerm, ctx: &Ctx, backend: &m
       if backend.enter_visible_index_term() {
         term.iter().for_each(|n| eval_inline(n, ctx, backend));
       }
+      backend.exit_visible_index_term();
     }
     asciidork_ast::IndexTermType::Concealed { primary, secondary, tertiary } => {
       let num_terms =
-- 
2.43.0


From ebd3d04bdbdb1671d1c269ac54d2e4a65efb5505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 05/47] fix: report toc misuse when toc is set from outside the
 document

---
 parser/src/diagnostic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/diagnostic.rs b/parser/src/diagnostic.rs
index 12abce6..fa13e20 100644
--- a/parser/src/diagnostic.rs
+++ b/parser/src/diagnostic.rs
@@ -65,8 +65,8 @@ impl Parser<'_> {
       if def.in_header && def.name == *key { Some(def.loc) } else { None }
     });
     let Some(loc) = loc else {
-      debug_assert!(false, "doc attr not found");
-      return Ok(());
+      // set from the api/cli, there is no declaration to point at
+      return self.err_token(message, None);
     };
     self.err_line_of(message, loc)
   }
-- 
2.43.0


From 7d005020c38926b82a3579074497d4c96208dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:18 +0000
Subject: [PATCH 06/47] fix: return the first diagnostic of a strict inline
 document instead of panicking

---
 parser/src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index a12b0c5..eb98fc0 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -263,8 +263,7 @@ impl<'arena> Parser<'arena> {
     // https://docs.asciidoctor.org/asciidoc/latest/document/doctype/#inline-doctype-rules
     if self.document.meta.get_doctype() == DocType::Inline {
       if self.peeked_lines.is_none() {
-        // tmp:
-        self.peeked_lines = self.read_lines().expect("tmp");
+        self.peeked_lines = self.read_lines()?;
       }
       self.lexer.truncate();
     }
-- 
2.43.0


From 98ba02b899e44fdcd8188ed27a2065286e19ed57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:41 +0000
Subject: [PATCH 07/47] fix: keep the include depth limit inside asciidoc table
 cells

The parser of an asciidoc table cell restarted the include depth at zero and
ignored the job's max-include-depth, so a file including itself from such a
cell recursed without bound. A large depth= attribute also overflowed u16.
---
 parser/src/parse_context.rs                   |  5 ++-
 parser/src/parser.rs                          |  2 ++
 .../directives/includes/process_includes.rs   | 34 ++++++++++++++-----
 3 files changed, 31 insertions(+), 10 deletions(-)

diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 00a511d..9a639f6 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -21,6 +21,7 @@ pub struct ParseContext<'arena> {
   pub inline_ctx: InlineCtx,
   pub passthrus: BumpVec<'arena, Option<InlineNodes<'arena>>>,
   pub max_include_depth: u16,
+  pub base_include_depth: u16,
   pub ifdef_stack: BumpVec<'arena, BumpString<'arena>>,
   pub comment_delim_in_lines: bool,
   pub in_header: bool,
@@ -92,6 +93,7 @@ impl<'arena> ParseContext<'arena> {
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
       max_include_depth: 64,
+      base_include_depth: 0,
       comment_delim_in_lines: false,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
@@ -119,7 +121,8 @@ impl<'arena> ParseContext<'arena> {
       table_cell_ctx: TableCellContext::AsciiDocCell,
       passthrus: BumpVec::new_in(bump),
       inline_ctx: InlineCtx::None,
-      max_include_depth: 64,
+      max_include_depth: self.max_include_depth,
+      base_include_depth: self.base_include_depth,
       comment_delim_in_lines: false,
       ifdef_stack: BumpVec::new_in(bump),
       attr_defs: BumpVec::new_in(bump),
diff --git a/parser/src/parser.rs b/parser/src/parser.rs
index eb98fc0..ec0806d 100644
--- a/parser/src/parser.rs
+++ b/parser/src/parser.rs
@@ -82,6 +82,8 @@ impl<'arena> Parser<'arena> {
     cell_parser.strict = self.strict;
     cell_parser.lexer.adjust_offset(offset);
     cell_parser.ctx = self.ctx.clone_for_cell(self.bump);
+    cell_parser.ctx.max_include_depth = self.abs_max_include_depth();
+    cell_parser.ctx.base_include_depth = self.include_depth();
     cell_parser.document.meta = self.document.meta.clone_for_cell();
     cell_parser.document.anchors = Rc::clone(&self.document.anchors);
 
diff --git a/parser/src/tasks/directives/includes/process_includes.rs b/parser/src/tasks/directives/includes/process_includes.rs
index 02b55ab..b6a10e4 100644
--- a/parser/src/tasks/directives/includes/process_includes.rs
+++ b/parser/src/tasks/directives/includes/process_includes.rs
@@ -235,15 +235,31 @@ impl<'arena> Parser<'arena> {
   }
 
   fn exceeded_max_include_depth(&self) -> Option<u16> {
-    let (rel_depth, stack_depth) = self
-      .lexer
-      .max_include_depth()
-      .unwrap_or((self.ctx.max_include_depth, 0));
-    let abs_depth = u16::min(rel_depth + stack_depth, self.ctx.max_include_depth);
-    if self.lexer.include_depth() + 1 > abs_depth {
-      Some(rel_depth)
-    } else {
-      None
+    if self.include_depth() < self.abs_max_include_depth() {
+      return None;
+    }
+    match self.lexer.max_include_depth() {
+      Some((rel_depth, _)) => Some(rel_depth),
+      None => Some(self.ctx.max_include_depth),
+    }
+  }
+
+  /// include depth of the current source, counted from the root document
+  /// (the lexer of an asciidoc table cell starts over at zero)
+  pub(crate) fn include_depth(&self) -> u16 {
+    self
+      .ctx
+      .base_include_depth
+      .saturating_add(self.lexer.include_depth())
+  }
+
+  pub(crate) fn abs_max_include_depth(&self) -> u16 {
+    match self.lexer.max_include_depth() {
+      Some((rel_depth, stack_depth)) => rel_depth
+        .saturating_add(stack_depth)
+        .saturating_add(self.ctx.base_include_depth)
+        .min(self.ctx.max_include_depth),
+      None => self.ctx.max_include_depth,
     }
   }
 }
-- 
2.43.0


From 061bfa6f54193c6e47d0131391fe21423abddda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:01 +0000
Subject: [PATCH 08/47] fix: stop on a table without columns instead of adding
 rows forever

---
 parser/src/tasks/table/parse_psv_table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 5228740..2c67be5 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -41,7 +41,7 @@ impl<'arena> Parser<'arena> {
     // check if we need to distrubute spilled cells from last row
     let remaining_room = ctx.num_cols.saturating_sub(num_effective_cells);
     ctx.spilled_cells = cells.split_off(remaining_room.min(cells.len()));
-    if cells.len() == remaining_room {
+    if cells.len() == remaining_room && ctx.num_cols > 0 {
       ctx.effective_row_idx += 1;
       return Ok(Some(Row::new(cells)));
     }
-- 
2.43.0


From d33443d20394153423e082e2df41872b9cf44ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:05 +0000
Subject: [PATCH 09/47] fix: count only the enclosing files towards the include
 depth

The depth was the index of the current source, so every earlier sibling
include counted too and includes were refused although not nested deeper.
---
 parser/src/lexer/root_lexer.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index d06640b..95fc539 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -279,7 +279,7 @@ impl<'arena> RootLexer<'arena> {
   }
 
   pub fn reline_diagnostics(&self, offset: u32, diagnostics: &mut [Diagnostic]) {
-    let offset_loc = SourceLocation::new(offset, offset, self.include_depth());
+    let offset_loc = SourceLocation::new(offset, offset, self.idx);
     let before_offset = self.line_number(offset_loc) - 1;
     diagnostics
       .iter_mut()
@@ -326,17 +326,21 @@ impl<'arena> RootLexer<'arena> {
     self.sources[self.idx as usize].truncate();
   }
 
-  pub const fn include_depth(&self) -> u16 {
-    self.idx
+  pub fn include_depth(&self) -> u16 {
+    self.source_stack.len() as u16
   }
 
   pub fn max_include_depth(&self) -> Option<(u16, u16)> {
     self
-      .sources
+      .source_stack
       .iter()
+      .chain(std::iter::once(&self.idx))
       .enumerate()
-      .fold(None, |current, (i, src)| {
-        src.max_include_depth.map(|d| (d, i as u16)).or(current)
+      .fold(None, |current, (depth, idx)| {
+        self.sources[*idx as usize]
+          .max_include_depth
+          .map(|d| (d, depth as u16))
+          .or(current)
       })
   }
 
-- 
2.43.0


From 41fa8ac9dc91daad6911b1fb4d2904ce6a2550cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:55 +0000
Subject: [PATCH 10/47] fix: report failure of the prettier helper instead of
 writing its empty output

---
 cli/src/main.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/cli/src/main.rs b/cli/src/main.rs
index 5764cab..6928a77 100644
--- a/cli/src/main.rs
+++ b/cli/src/main.rs
@@ -104,7 +104,7 @@ fn run(
       let convert_time = convert_start.elapsed();
       let prettify = args.format == Output::Html5Prettier || args.format == Output::DrHtmlPrettier;
       if prettify {
-        html = format_html(html);
+        html = format_html(html)?;
       }
       if let Some(file) = &args.output {
         fs::write(file, html)?;
@@ -184,7 +184,7 @@ fn print_timings(
   }
 }
 
-fn format_html(html: String) -> String {
+fn format_html(html: String) -> Result<String, Box<dyn Error>> {
   let mut child = Command::new("prettier")
     .arg("--parser")
     .arg("html")
@@ -197,7 +197,10 @@ fn format_html(html: String) -> String {
   let child_stdin = child.stdin.as_mut().unwrap();
   child_stdin.write_all(html.as_bytes()).unwrap();
   let output = child.wait_with_output().unwrap();
-  String::from_utf8_lossy(&output.stdout).to_string()
+  if !output.status.success() {
+    return Err(format!("`prettier` failed ({})", output.status).into());
+  }
+  Ok(String::from_utf8_lossy(&output.stdout).to_string())
 }
 
 fn print_human_diagnostics(dest: &mut impl Write, diagnostics: Vec<Diagnostic>) {
-- 
2.43.0


From 372746ee9e0ac25fed3bd868053f9218657633a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:25 +0000
Subject: [PATCH 11/47] fix: validate the bytes after a UTF-8 BOM of an
 included file

---
 .../directives/includes/normalize_includes.rs     | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/parser/src/tasks/directives/includes/normalize_includes.rs b/parser/src/tasks/directives/includes/normalize_includes.rs
index 18e0ece..c0692e6 100644
--- a/parser/src/tasks/directives/includes/normalize_includes.rs
+++ b/parser/src/tasks/directives/includes/normalize_includes.rs
@@ -80,7 +80,7 @@ impl<'arena> Parser<'arena> {
     // UTF-8 BOM
     if bytes.len() >= 3 && bytes[0..3] == [0xEF, 0xBB, 0xBF] {
       bytes.drain(0..3);
-      return Ok(());
+      return validate_utf8(bytes);
     }
 
     // UTF-16 BOM, little endian
@@ -110,11 +110,7 @@ impl<'arena> Parser<'arena> {
 
     // TODO: doctor supports iso-8859-1, + all encodings ruby supports
     // we could use encoding_rs for this, but might not be any demand
-    if std::str::from_utf8(bytes).is_err() {
-      return Err("Invalid UTF-8");
-    }
-
-    Ok(())
+    validate_utf8(bytes)
   }
 
   fn convert_utf16_le(&self, bytes: &mut BumpVec<u8>) -> std::result::Result<(), &'static str> {
@@ -134,6 +130,13 @@ impl<'arena> Parser<'arena> {
   }
 }
 
+fn validate_utf8(bytes: &[u8]) -> std::result::Result<(), &'static str> {
+  match std::str::from_utf8(bytes) {
+    Ok(_) => Ok(()),
+    Err(_) => Err("Invalid UTF-8"),
+  }
+}
+
 fn trim_trailing_whitespace(bytes: &mut BumpVec<u8>) {
   let mut i = bytes.len();
   while i > 0 && (bytes[i - 1] == b' ' || bytes[i - 1] == b'\t') {
-- 
2.43.0


From aec6a83b157f4a55872725593d260c30d1845dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:16 +0000
Subject: [PATCH 12/47] fix: restore the xref-resolution flag so cyclic
 reference texts end

---
 eval/src/eval.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index a891fba..c462437 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -530,7 +530,8 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       let anchor = anchors.get(utils::xref::get_id(&target.src));
       let is_biblio = anchor.map(|a| a.is_biblio).unwrap_or(false);
       backend.enter_xref(target, linktext.is_some(), *kind);
-      if ctx.resolving_xref.replace(true) {
+      let nested = ctx.resolving_xref.replace(true);
+      if nested {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       } else if let Some(text) = anchor
         .map(|anchor| {
@@ -551,7 +552,7 @@ fn eval_inline(inline: &InlineNode, ctx: &Ctx, backend: &mut impl Backend) {
       } else {
         backend.visit_missing_xref(target, *kind, ctx.doc.title());
       }
-      ctx.resolving_xref.replace(false);
+      ctx.resolving_xref.replace(nested);
       backend.exit_xref(target, linktext.is_some(), *kind);
     }
     Macro(Icon { target, attrs }) => backend.visit_icon_macro(target, attrs),
-- 
2.43.0


From cea9f9136600bd065998a0be9a32b252f81c0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:31 +0000
Subject: [PATCH 13/47] fix: drop the title of blocks that have no place for it
 instead of leaking it into later output

---
 backend-html5s/src/html5s.rs            |  3 ++-
 backend-html5s/src/lib.rs               |  1 +
 backend/src/html/util.rs                | 17 ++++++++++++++++-
 dr-html-backend/src/asciidoctor_html.rs |  5 ++++-
 dr-html-backend/src/lib.rs              |  1 +
 5 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 971e04b..44374d3 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -658,6 +658,7 @@ impl Backend for Html5s {
 
   fn enter_paragraph_block(&mut self, block: &Block) {
     if self.doc_meta.get_doctype() == DocType::Inline {
+      self.discard_alt_buffer();
       return;
     }
     if block.has_title() {
@@ -1455,7 +1456,7 @@ impl Backend for Html5s {
   }
 
   fn exit_meta_title(&mut self, block: &Block) {
-    if block.context != BlockContext::Passthrough {
+    if renders_block_title(block) {
       self.stop_buffering();
     } else {
       self.swap_discard_alt_buffer();
diff --git a/backend-html5s/src/lib.rs b/backend-html5s/src/lib.rs
index a7c316c..aa1aa1a 100644
--- a/backend-html5s/src/lib.rs
+++ b/backend-html5s/src/lib.rs
@@ -19,6 +19,7 @@ mod internal {
   pub use asciidork_core::*;
   pub use ast::prelude::*;
   pub use backend::html::backend::*;
+  pub use backend::html::util::renders_block_title;
   pub use backend::html::{AltHtmlBuf, HtmlBuf, OpenTag};
   pub use backend::prelude::*;
   pub use backend::utils;
diff --git a/backend/src/html/util.rs b/backend/src/html/util.rs
index ec973bd..ac7d945 100644
--- a/backend/src/html/util.rs
+++ b/backend/src/html/util.rs
@@ -1,4 +1,19 @@
-use ast::Section;
+use ast::{Block, BlockContext, Section};
+
+/// whether a block has a place for its title in the output, if not the title is dropped
+pub fn renders_block_title(block: &Block) -> bool {
+  !matches!(
+    block.context,
+    BlockContext::Comment
+      | BlockContext::DiscreteHeading
+      | BlockContext::DocumentAttributeDecl
+      | BlockContext::PageBreak
+      | BlockContext::Passthrough
+      | BlockContext::Section
+      | BlockContext::TableOfContents
+      | BlockContext::ThematicBreak
+  )
+}
 
 pub fn section_class(section: &Section) -> &'static str {
   match section.level {
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ce28e99..af93506 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -309,7 +309,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_meta_title(&mut self, block: &Block) {
-    if block.context != BlockContext::Passthrough {
+    if renders_block_title(block) {
       self.stop_buffering();
     } else {
       self.swap_discard_alt_buffer();
@@ -738,6 +738,7 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn enter_paragraph_block(&mut self, block: &Block) {
     if self.doc_meta.get_doctype() == DocType::Inline {
+      self.discard_alt_buffer();
       return;
     }
     if !self
@@ -747,6 +748,8 @@ impl Backend for AsciidoctorHtml {
     {
       self.open_block_wrap(block);
       self.render_buffered_block_title(block);
+    } else {
+      self.discard_alt_buffer();
     }
     if block.meta.attrs.special_sect() == Some(SpecialSection::Abstract) {
       self.push_str("<blockquote>");
diff --git a/dr-html-backend/src/lib.rs b/dr-html-backend/src/lib.rs
index 391542b..4bfb77a 100644
--- a/dr-html-backend/src/lib.rs
+++ b/dr-html-backend/src/lib.rs
@@ -24,6 +24,7 @@ mod internal {
   pub use asciidork_core::*;
   pub use ast::prelude::*;
   pub use backend::html::backend::*;
+  pub use backend::html::util::renders_block_title;
   pub use backend::html::{AltHtmlBuf, HtmlBuf, OpenTag};
   pub use backend::prelude::*;
   pub use backend::utils;
-- 
2.43.0


From 509a8f67720d92293b92027bb591ad28b23580dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:52 +0000
Subject: [PATCH 14/47] fix: close every row and item of nested, horizontal and
 Q&A description lists with the tags that opened them

---
 backend/src/backend.rs                  |   2 +
 backend/src/html/backend.rs             |   2 -
 dr-html-backend/src/asciidoctor_html.rs | 102 +++++++++++++++---------
 eval/src/eval.rs                        |   2 +
 4 files changed, 70 insertions(+), 38 deletions(-)

diff --git a/backend/src/backend.rs b/backend/src/backend.rs
index 6a181ff..58c27f2 100644
--- a/backend/src/backend.rs
+++ b/backend/src/backend.rs
@@ -114,6 +114,8 @@ pub trait Backend {
   fn exit_callout_list(&mut self, block: &Block, items: &[ListItem], depth: u8);
   fn enter_description_list(&mut self, block: &Block, items: &[ListItem], depth: u8);
   fn exit_description_list(&mut self, block: &Block, items: &[ListItem], depth: u8);
+  fn enter_description_list_item(&mut self, _item: &ListItem) {}
+  fn exit_description_list_item(&mut self, _item: &ListItem) {}
   fn enter_description_list_term(&mut self, item: &ListItem, num: usize, total: usize);
   fn exit_description_list_term(&mut self, item: &ListItem, num: usize, total: usize);
   fn enter_description_list_description(&mut self, item: &ListItem);
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 949e1a7..44b1dab 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -876,8 +876,6 @@ fn render_inner_image<B: HtmlBackend + ?Sized>(
 pub enum EphemeralState {
   VisitingSimpleTermDescription,
   InTableOfContents,
-  InHorizontalDescList,
-  InQandaDescList,
   InDescListDesc,
   IsSourceBlock,
   InBibliography,
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index af93506..5ac2e3e 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -10,6 +10,14 @@ use EphemeralState::*;
 use ast::{AdjacentNewline, PriorityAttrList};
 use utils::set_backend_attrs;
 
+#[derive(Debug, Clone, Copy, PartialEq, Eq)]
+enum DescListKind {
+  Normal,
+  Glossary,
+  Horizontal,
+  Qanda,
+}
+
 #[derive(Debug, Default)]
 pub struct AsciidoctorHtml {
   html: String,
@@ -22,6 +30,7 @@ pub struct AsciidoctorHtml {
   table_caption_num: usize,
   example_caption_num: usize,
   listing_caption_num: usize,
+  desc_lists: Vec<DescListKind>,
   state: BackendState,
 }
 
@@ -568,7 +577,7 @@ impl Backend for AsciidoctorHtml {
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.state.desc_list_depth += 1;
     if block.meta.attrs.has_str_positional("horizontal") {
-      self.state.ephemeral.insert(InHorizontalDescList);
+      self.desc_lists.push(DescListKind::Horizontal);
       self.open_element("div", &["hdlist"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<table>");
@@ -595,16 +604,17 @@ impl Backend for AsciidoctorHtml {
         self.push_str("</colgroup>");
       }
     } else if block.meta.attrs.has_str_positional("qanda") {
-      self.state.ephemeral.insert(InQandaDescList);
+      self.desc_lists.push(DescListKind::Qanda);
       self.open_element("div", &["qlist", "qanda"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<ol>");
     } else if block.meta.attrs.special_sect() == Some(SpecialSection::Glossary) {
-      self.state.ephemeral.insert(InGlossaryList);
+      self.desc_lists.push(DescListKind::Glossary);
       self.open_element("div", &["dlist", "glossary"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<dl>");
     } else {
+      self.desc_lists.push(DescListKind::Normal);
       self.open_element("div", &["dlist"], &block.meta.attrs);
       self.render_buffered_block_title(block);
       self.push_str("<dl>");
@@ -613,61 +623,74 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_description_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.state.ephemeral.remove(&InGlossaryList);
-    if self.state.ephemeral.remove(&InHorizontalDescList) {
-      self.push_str("</table></div>");
-    } else if self.state.ephemeral.remove(&InQandaDescList) {
-      self.push_str("</ol></div>");
-    } else {
-      self.push_str("</dl></div>");
+    match self.desc_lists.pop() {
+      Some(DescListKind::Horizontal) => self.push_str("</table></div>"),
+      Some(DescListKind::Qanda) => self.push_str("</ol></div>"),
+      _ => self.push_str("</dl></div>"),
     }
     self.state.desc_list_depth -= 1;
   }
 
+  #[instrument(skip_all)]
+  fn enter_description_list_item(&mut self, _item: &ListItem) {
+    match self.desc_lists.last() {
+      Some(DescListKind::Horizontal) => self.push_str(r#"<tr><td class="hdlist1">"#),
+      Some(DescListKind::Qanda) => self.push_str("<li>"),
+      _ => {}
+    }
+  }
+
+  #[instrument(skip_all)]
+  fn exit_description_list_item(&mut self, item: &ListItem) {
+    match self.desc_lists.last() {
+      Some(DescListKind::Horizontal) => {
+        if !has_description(item) {
+          self.push_str(r#"</td><td class="hdlist2">"#);
+        }
+        self.push_str("</td></tr>");
+      }
+      Some(DescListKind::Qanda) => self.push_str("</li>"),
+      _ => {}
+    }
+  }
+
   #[instrument(skip_all)]
   fn enter_description_list_term(&mut self, _item: &ListItem, num: usize, _total: usize) {
-    if self.state.ephemeral.contains(&InGlossaryList) {
-      self.push_str(r#"<dt>"#);
-    } else if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str(r#"<tr><td class="hdlist1">"#);
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      if num == 1 {
-        self.push_str(r#"<li>"#);
+    match self.desc_lists.last() {
+      Some(DescListKind::Glossary) => self.push_str("<dt>"),
+      Some(DescListKind::Horizontal) => {
+        if num > 1 {
+          self.push_str("<br>");
+        }
       }
-      self.push_str(r#"<p><em>"#);
-    } else {
-      self.push_str(r#"<dt class="hdlist1">"#);
+      Some(DescListKind::Qanda) => self.push_str("<p><em>"),
+      _ => self.push_str(r#"<dt class="hdlist1">"#),
     }
   }
 
   #[instrument(skip_all)]
   fn exit_description_list_term(&mut self, _item: &ListItem, _num: usize, _total: usize) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str("</td>");
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str(r#"</em></p>"#);
-    } else {
-      self.push_str("</dt>");
+    match self.desc_lists.last() {
+      Some(DescListKind::Horizontal) => {}
+      Some(DescListKind::Qanda) => self.push_str("</em></p>"),
+      _ => self.push_str("</dt>"),
     }
   }
 
   #[instrument(skip_all)]
   fn enter_description_list_description(&mut self, _item: &ListItem) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str(r#"<td class="hdlist2">"#);
-    } else if !self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str("<dd>");
+    match self.desc_lists.last() {
+      Some(DescListKind::Horizontal) => self.push_str(r#"</td><td class="hdlist2">"#),
+      Some(DescListKind::Qanda) => {}
+      _ => self.push_str("<dd>"),
     }
   }
 
   #[instrument(skip_all)]
   fn exit_description_list_description(&mut self, _item: &ListItem) {
-    if self.state.ephemeral.contains(&InHorizontalDescList) {
-      self.push_str("</td></tr>");
-    } else if self.state.ephemeral.contains(&InQandaDescList) {
-      self.push_str("</li>");
-    } else {
-      self.push_str("</dd>");
+    match self.desc_lists.last() {
+      Some(DescListKind::Horizontal | DescListKind::Qanda) => {}
+      _ => self.push_str("</dd>"),
     }
   }
 
@@ -1549,6 +1572,13 @@ impl HtmlBackend for AsciidoctorHtml {
   }
 }
 
+fn has_description(item: &ListItem) -> bool {
+  let ListItemTypeMeta::DescList { description, .. } = &item.type_meta else {
+    return false;
+  };
+  description.is_some() || !item.blocks.is_empty()
+}
+
 impl AsciidoctorHtml {
   pub fn new() -> Self {
     Self::default()
diff --git a/eval/src/eval.rs b/eval/src/eval.rs
index c462437..936d3dd 100644
--- a/eval/src/eval.rs
+++ b/eval/src/eval.rs
@@ -331,6 +331,7 @@ fn eval_block(block: &Block, ctx: &Ctx, backend: &mut impl Backend) {
           unreachable!("eval description list extract meta");
         };
         let total = 1 + extra_terms.len();
+        backend.enter_description_list_item(item);
         backend.enter_description_list_term(item, 1, total);
         item
           .principle
@@ -356,6 +357,7 @@ fn eval_block(block: &Block, ctx: &Ctx, backend: &mut impl Backend) {
           });
           backend.exit_description_list_description(item);
         }
+        backend.exit_description_list_item(item);
       });
       backend.exit_description_list(block, items, *depth);
     }
-- 
2.43.0


From 678221a93909a756cbf8e304781eb1ff16c4389c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:03 +0000
Subject: [PATCH 15/47] fix: close the element that was opened for verse blocks
 with a title or with only a citation

---
 backend-html5s/src/html5s.rs            | 5 +++--
 dr-html-backend/src/asciidoctor_html.rs | 9 +++++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 44374d3..badeac6 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -417,8 +417,9 @@ impl Backend for Html5s {
   }
 
   fn enter_verse_block(&mut self, block: &Block, has_attribution: bool) {
-    self.open_element("div", &["verse-block"], &block.meta.attrs);
-    self.render_buffered_block_title(block, false);
+    let el = if block.has_title() { "section" } else { "div" };
+    self.open_element(el, &["verse-block"], &block.meta.attrs);
+    self.render_buffered_block_title(block, true);
     if has_attribution {
       self.push_str(r#"<blockquote class="verse">"#);
     }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 5ac2e3e..6ffbb24 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -447,11 +447,16 @@ impl Backend for AsciidoctorHtml {
   }
 
   #[instrument(skip_all)]
-  fn enter_quote_cite(&mut self, _block: &Block, has_attribution: bool) {
+  fn enter_quote_cite(&mut self, block: &Block, has_attribution: bool) {
     if has_attribution {
       self.push_str(r#"<br><cite>"#);
     } else {
-      self.push_str(r#"</blockquote><div class="attribution">&#8212; "#);
+      if block.context == BlockContext::Verse {
+        self.push_str("</pre>");
+      } else {
+        self.push_str("</blockquote>");
+      }
+      self.push_str(r#"<div class="attribution">&#8212; "#);
     }
   }
 
-- 
2.43.0


From 3eb6e031728c7852a98216753fba3712b245a9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:15 +0000
Subject: [PATCH 16/47] fix: a callout list keeps the form it was opened with
 when the icons attribute changes inside it

---
 dr-html-backend/src/asciidoctor_html.rs | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 6ffbb24..1af2180 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -26,6 +26,7 @@ pub struct AsciidoctorHtml {
   default_newlines: Newlines,
   newlines: Newlines,
   autogen_conum: u8,
+  callout_list_tables: Vec<bool>,
   fig_caption_num: usize,
   table_caption_num: usize,
   example_caption_num: usize,
@@ -566,16 +567,18 @@ impl Backend for AsciidoctorHtml {
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.autogen_conum = 1;
     self.open_element("div", &["colist arabic"], &block.meta.attrs);
-    self.push_str(if self.doc_meta.icon_mode() != IconMode::Text { "<table>" } else { "<ol>" });
+    let is_table = self.doc_meta.icon_mode() != IconMode::Text;
+    self.callout_list_tables.push(is_table);
+    self.push_str(if is_table { "<table>" } else { "<ol>" });
   }
 
   #[instrument(skip_all)]
   fn exit_callout_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.push_str(if self.doc_meta.icon_mode() != IconMode::Text {
-      "</table></div>"
+    if self.callout_list_tables.pop() == Some(true) {
+      self.push_str("</table></div>");
     } else {
-      "</ol></div>"
-    });
+      self.push_str("</ol></div>");
+    }
   }
 
   #[instrument(skip_all)]
@@ -726,7 +729,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_list_item_principal(&mut self, item: &ListItem, list_variant: ListVariant) {
-    if list_variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
+    if !self.is_table_item(list_variant) {
       self.push_str("<li><p>");
       self.render_checklist_item(item);
     } else {
@@ -744,7 +747,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_list_item_principal(&mut self, _item: &ListItem, list_variant: ListVariant) {
-    if list_variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
+    if !self.is_table_item(list_variant) {
       self.push_str("</p>");
     } else {
       self.push_str("</td>");
@@ -756,7 +759,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_list_item_blocks(&mut self, _blocks: &[Block], _items: &ListItem, variant: ListVariant) {
-    if variant != ListVariant::Callout || self.doc_meta.icon_mode() == IconMode::Text {
+    if !self.is_table_item(variant) {
       self.push_str("</li>");
     } else {
       self.push_str("</tr>");
@@ -1593,6 +1596,11 @@ impl AsciidoctorHtml {
     self.html
   }
 
+  /// callout lists are rendered as tables if icons are enabled when the list begins
+  fn is_table_item(&self, variant: ListVariant) -> bool {
+    variant == ListVariant::Callout && self.callout_list_tables.last() == Some(&true)
+  }
+
   fn render_buffered_block_title(&mut self, block: &Block) {
     if block.has_title() {
       let buf = self.take_buffer();
-- 
2.43.0


From 8423d3dc337d8e0177ad862e22b2fc37670dd7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 17/47] fix: footnotes and self-linked images inside buffered
 titles and other footnotes no longer clobber the enclosing output

---
 backend-html5s/src/html5s.rs            | 16 ++++++++++------
 dr-html-backend/src/asciidoctor_html.rs | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index badeac6..b4a3add 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -9,6 +9,8 @@ pub struct Html5s {
   doc_meta: DocumentMeta,
   html: String,
   alt_html: String,
+  /// output enclosing the footnotes that are being rendered
+  outer_bufs: Vec<String>,
   fig_caption_num: usize,
   table_caption_num: usize,
   example_caption_num: usize,
@@ -1101,10 +1103,11 @@ impl Backend for Html5s {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        let mut path = String::new();
+        self.swapbuf(&mut path);
         self.push_img_path(target);
-        a_tag.push_str(&self.swap_take_buffer());
+        self.swapbuf(&mut path);
+        a_tag.push_str(&path);
       } else {
         a_tag.push_str_attr_escaped(link_href);
       }
@@ -1425,17 +1428,18 @@ impl Backend for Html5s {
         r#"]</a>"#,
       ]);
     }
-    self.start_buffering();
+    let outer = std::mem::take(&mut self.html);
+    self.outer_bufs.push(outer);
   }
 
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
+    let outer = self.outer_bufs.pop().unwrap_or_default();
+    let footnote = std::mem::replace(&mut self.html, outer);
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
     let nums = num.to_string();
     self.push_str(r#"<a class="footnote-ref" id="_footnoteref_"#);
     self.push([&nums, r##"" href="#_footnote_"##, &nums]);
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 1af2180..1ba1c4e 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -22,6 +22,8 @@ enum DescListKind {
 pub struct AsciidoctorHtml {
   html: String,
   alt_html: String,
+  /// output enclosing the footnotes that are being rendered
+  outer_bufs: Vec<String>,
   doc_meta: DocumentMeta,
   default_newlines: Newlines,
   newlines: Newlines,
@@ -1218,10 +1220,11 @@ impl Backend for AsciidoctorHtml {
       a_tag.push_class("image");
       a_tag.push_str("\" href=\"");
       if link_href == "self" {
-        assert!(self.alt_html.is_empty());
-        self.swap_buffers();
+        let mut path = String::new();
+        self.swapbuf(&mut path);
         self.push_img_path(target);
-        a_tag.push_str(&self.swap_take_buffer());
+        self.swapbuf(&mut path);
+        a_tag.push_str(&path);
       } else {
         a_tag.push_str_attr_escaped(link_href);
       }
@@ -1503,18 +1506,19 @@ impl Backend for AsciidoctorHtml {
         "</a>]</sup>",
       ]);
     }
-    self.start_buffering();
+    let outer = std::mem::take(&mut self.html);
+    self.outer_bufs.push(outer);
   }
 
   #[instrument(skip_all)]
   fn exit_footnote(&mut self, id: Option<&SourceString>) {
+    let outer = self.outer_bufs.pop().unwrap_or_default();
+    let footnote = std::mem::replace(&mut self.html, outer);
     if self.prev_footnote_ref_num(id).is_some() {
       // discard duplicate content, common when "externalizing" footnotes by attr ref
-      self.swap_discard_alt_buffer();
       return;
     }
     let num = self.state.footnotes.borrow().len() + 1;
-    let footnote = self.swap_take_buffer();
     let nums = num.to_string();
     self.push_str(r#"<sup class="footnote""#);
     if let Some(id) = id {
-- 
2.43.0


From d2a2487207125b35fa04a62bb7691ddd030bac77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:04 +0000
Subject: [PATCH 18/47] fix: splice style, class and loading only into images
 rendered as a single img tag

---
 backend-html5s/src/html5s.rs | 12 ++++++------
 backend/src/html/backend.rs  | 20 +++++++++++++++++---
 2 files changed, 23 insertions(+), 9 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index b4a3add..434383a 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -1120,7 +1120,7 @@ impl Backend for Html5s {
       false
     };
 
-    self.render_image(target, attrs, kind, false);
+    let is_img_tag = self.render_image(target, attrs, kind, false);
     let mut style = String::new();
     if let Some(align) = attrs.named("align") {
       style.push_str("text-align: ");
@@ -1136,11 +1136,11 @@ impl Backend for Html5s {
       style.push_str(float);
       style.push(';');
     }
-    if !style.is_empty() {
+    if is_img_tag && !style.is_empty() {
       self.html.pop();
       self.push([" style=\"", &style, "\">"]);
     }
-    if !attrs.roles.is_empty() {
+    if is_img_tag && !attrs.roles.is_empty() {
       self.html.pop();
       self.push_str(" class=\"");
       for role in attrs.roles.iter() {
@@ -1150,7 +1150,7 @@ impl Backend for Html5s {
       self.html.pop();
       self.push_str("\">");
     }
-    if attrs.named("loading") == Some("lazy") {
+    if is_img_tag && attrs.named("loading") == Some("lazy") {
       self.html.pop();
       self.push_str(r#" loading="lazy">"#);
     }
@@ -1366,8 +1366,8 @@ impl Backend for Html5s {
       }
       has_link = true;
     }
-    self.render_image(img_target, img_attrs, img_kind, true);
-    if img_attrs.named("loading") == Some("lazy") {
+    let is_img_tag = self.render_image(img_target, img_attrs, img_kind, true);
+    if is_img_tag && img_attrs.named("loading") == Some("lazy") {
       self.html.pop();
       self.push_str(r#" loading="lazy">"#);
     }
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 44b1dab..5b1490b 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -266,10 +266,18 @@ pub trait HtmlBackend: HtmlBuf {
     self.swapbuf(&mut s);
   }
 
-  fn render_image(&mut self, target: &str, attrs: &AttrList, img_kind: &ImageKind, is_block: bool) {
+  /// returns whether the image was rendered as a single `<img>` tag
+  fn render_image(
+    &mut self,
+    target: &str,
+    attrs: &AttrList,
+    img_kind: &ImageKind,
+    is_block: bool,
+  ) -> bool {
     match img_kind {
       ImageKind::DataUri(data_uri) => {
         render_inner_image(self, target, Some(data_uri.as_deref()), attrs, is_block);
+        true
       }
       ImageKind::Standard => {
         let format = attrs.named("format").or_else(|| file::ext(target));
@@ -278,11 +286,16 @@ pub trait HtmlBackend: HtmlBuf {
           && attrs.has_option("interactive")
           && self.doc_meta().safe_mode != SafeMode::Secure
         {
-          return self.render_interactive_svg(target, attrs);
+          self.render_interactive_svg(target, attrs);
+          return false;
         }
         render_inner_image(self, target, None, attrs, is_block);
+        true
+      }
+      ImageKind::InlineSvg(Some(inline_svg)) => {
+        self.push_str(inline_svg);
+        false
       }
-      ImageKind::InlineSvg(Some(inline_svg)) => self.push_str(inline_svg),
       ImageKind::InlineSvg(None) => {
         self.push_str(r#"<span class="alt">"#);
         if let Some(alt) = attrs.named("alt").or_else(|| attrs.str_positional_at(0)) {
@@ -292,6 +305,7 @@ pub trait HtmlBackend: HtmlBuf {
           self.push_str(&stem.replace(['_', '-'], " "));
         }
         self.push_str(r#"</span>"#);
+        false
       }
     }
   }
-- 
2.43.0


From 40ab48562fbdf159aef3a56938b73299b7bedacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 19/47] fix: a callout list only reopens the wrapper before it
 if there is one

---
 backend-html5s/src/html5s.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 434383a..f01d41b 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -11,6 +11,7 @@ pub struct Html5s {
   alt_html: String,
   /// output enclosing the footnotes that are being rendered
   outer_bufs: Vec<String>,
+  callout_lists_in_wrapper: Vec<bool>,
   fig_caption_num: usize,
   table_caption_num: usize,
   example_caption_num: usize,
@@ -518,12 +519,20 @@ impl Backend for Html5s {
   }
 
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
-    self.html.truncate(self.html.len().saturating_sub(6));
+    // the list is placed inside the wrapper of the preceding block, if it has one
+    let in_wrapper = self.html.ends_with("</div>");
+    if in_wrapper {
+      self.html.truncate(self.html.len() - "</div>".len());
+    }
+    self.callout_lists_in_wrapper.push(in_wrapper);
     self.open_element("ol", &["callout-list arabic"], &block.meta.attrs);
   }
 
   fn exit_callout_list(&mut self, _block: &Block, _items: &[ListItem], _depth: u8) {
-    self.push_str("</ol></div>");
+    self.push_str("</ol>");
+    if self.callout_lists_in_wrapper.pop() == Some(true) {
+      self.push_str("</div>");
+    }
   }
 
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
-- 
2.43.0


From d2ed43cbdd2a28540e03d9d6ab1e6f6a2214fac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:25 +0000
Subject: [PATCH 20/47] fix: a preamble table of contents closes the preamble
 body only if that was opened

---
 dr-html-backend/src/asciidoctor_html.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 1ba1c4e..a442964 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -28,6 +28,7 @@ pub struct AsciidoctorHtml {
   default_newlines: Newlines,
   newlines: Newlines,
   autogen_conum: u8,
+  in_preamble: bool,
   callout_list_tables: Vec<bool>,
   fig_caption_num: usize,
   table_caption_num: usize,
@@ -164,7 +165,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_toc(&mut self, toc: &TableOfContents, macro_block: Option<&Block>) {
-    if toc.position == TocPosition::Preamble {
+    if toc.position == TocPosition::Preamble && self.in_preamble {
       self.push_str("</div>"); // close preamble section body
     }
     self.state.ephemeral.insert(InTableOfContents);
@@ -187,7 +188,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn exit_toc(&mut self, toc: &TableOfContents) {
-    if toc.position != TocPosition::Preamble {
+    if toc.position != TocPosition::Preamble || !self.in_preamble {
       self.push_str("</div>");
     }
     self.on_toc_exit();
@@ -273,6 +274,7 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn enter_preamble(&mut self, doc_has_title: bool, _blocks: &[Block]) {
     if doc_has_title {
+      self.in_preamble = true;
       self.push_str(r#"<div id="preamble"><div class="sectionbody">"#);
     }
   }
@@ -280,6 +282,7 @@ impl Backend for AsciidoctorHtml {
   #[instrument(skip_all)]
   fn exit_preamble(&mut self, doc_has_title: bool, _blocks: &[Block]) {
     if doc_has_title {
+      self.in_preamble = false;
       self.push_str("</div></div>");
     }
   }
-- 
2.43.0


From 4434d3560c1327dac92674551fcc092f52c90cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 21/47] fix: html5s closes the start tag of a book part heading
 that has no id

---
 backend-html5s/src/html5s.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index f01d41b..3f4feb3 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -202,9 +202,9 @@ impl Backend for Html5s {
   fn enter_book_part_title(&mut self, title: &PartTitle) {
     self.push_str("<h1");
     if let Some(id) = &title.id {
-      self.push([r#" id=""#, id]);
+      self.push([r#" id=""#, id, "\""]);
     }
-    self.push_str("\">");
+    self.push_str(">");
     self.push_part_prefix();
   }
 
-- 
2.43.0


From 64e2a4861b39f1a68d76cad5252b54933dd734cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:05 +0000
Subject: [PATCH 22/47] fix: render the title of a callout list with the list

---
 backend-html5s/src/html5s.rs            | 1 +
 dr-html-backend/src/asciidoctor_html.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 3f4feb3..3aee3dc 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -525,6 +525,7 @@ impl Backend for Html5s {
       self.html.truncate(self.html.len() - "</div>".len());
     }
     self.callout_lists_in_wrapper.push(in_wrapper);
+    self.render_buffered_block_title(block, true);
     self.open_element("ol", &["callout-list arabic"], &block.meta.attrs);
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index a442964..180595e 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -572,6 +572,7 @@ impl Backend for AsciidoctorHtml {
   fn enter_callout_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
     self.autogen_conum = 1;
     self.open_element("div", &["colist arabic"], &block.meta.attrs);
+    self.render_buffered_block_title(block);
     let is_table = self.doc_meta.icon_mode() != IconMode::Text;
     self.callout_list_tables.push(is_table);
     self.push_str(if is_table { "<table>" } else { "<ol>" });
-- 
2.43.0


From d8c58eb6467c4f9c939e0d2788f2a3f56863af30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:05 +0000
Subject: [PATCH 23/47] fix: a table of contents inside the body does not
 restart section numbering

---
 backend-html5s/src/html5s.rs            |  1 +
 backend/src/html/backend.rs             | 23 ++++++++++++++++++++++-
 dr-html-backend/src/asciidoctor_html.rs |  1 +
 3 files changed, 24 insertions(+), 1 deletion(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 3aee3dc..066632f 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -147,6 +147,7 @@ impl Backend for Html5s {
     if toc.position == TocPosition::Preamble {
       self.start_buffering();
     }
+    self.on_toc_enter();
     self.state.ephemeral.insert(InTableOfContents);
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 5b1490b..0e06436 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -22,6 +22,7 @@ pub struct BackendState {
   pub interactive_list_stack: Vec<bool>,
   pub in_asciidoc_table_cell: bool,
   pub xref_depth: u8,
+  pub toc_outer_nums: Vec<([u16; 5], u8, usize, bool)>,
   #[allow(clippy::type_complexity)]
   pub footnotes: Rc<RefCell<Vec<(Option<String>, String)>>>,
 }
@@ -183,13 +184,33 @@ pub trait HtmlBackend: HtmlBuf {
     &mut self.state_mut().book_part_num
   }
 
-  fn on_toc_exit(&mut self) {
+  /// the table of contents numbers its entries from the start of the document
+  fn on_toc_enter(&mut self) {
     let state = self.state_mut();
+    let in_appendix = state.ephemeral.remove(&EphemeralState::InAppendix);
+    state.toc_outer_nums.push((
+      state.section_nums,
+      state.appendix_caption_num,
+      state.book_part_num,
+      in_appendix,
+    ));
     state.section_nums = [0; 5];
     state.appendix_caption_num = 0;
     state.book_part_num = 0;
   }
 
+  fn on_toc_exit(&mut self) {
+    let state = self.state_mut();
+    if let Some((section_nums, appendix_num, part_num, in_appendix)) = state.toc_outer_nums.pop() {
+      state.section_nums = section_nums;
+      state.appendix_caption_num = appendix_num;
+      state.book_part_num = part_num;
+      if in_appendix {
+        state.ephemeral.insert(EphemeralState::InAppendix);
+      }
+    }
+  }
+
   fn video_element(&mut self, target: &str, attrs: &AttrList) {
     crate::html::video::element(self, target, attrs);
   }
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 180595e..3796fb2 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -168,6 +168,7 @@ impl Backend for AsciidoctorHtml {
     if toc.position == TocPosition::Preamble && self.in_preamble {
       self.push_str("</div>"); // close preamble section body
     }
+    self.on_toc_enter();
     self.state.ephemeral.insert(InTableOfContents);
     let id = &macro_block
       .and_then(|b| b.meta.attrs.id().map(|id| id.to_string()))
-- 
2.43.0


From 5e56269136fa82054503f233feab07d9c74cc0b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:46 +0000
Subject: [PATCH 24/47] fix: a special section nested in one of its kind does
 not end the outer one's state

---
 backend/src/html/backend.rs | 42 ++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 24 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 0e06436..e6e88fd 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -22,6 +22,7 @@ pub struct BackendState {
   pub interactive_list_stack: Vec<bool>,
   pub in_asciidoc_table_cell: bool,
   pub xref_depth: u8,
+  pub special_sect_stack: Vec<bool>,
   pub toc_outer_nums: Vec<([u16; 5], u8, usize, bool)>,
   #[allow(clippy::type_complexity)]
   pub footnotes: Rc<RefCell<Vec<(Option<String>, String)>>>,
@@ -702,10 +703,7 @@ pub trait HtmlBackend: HtmlBuf {
     self.push_str("\">");
     if node.special_sect == Some(SpecialSection::Appendix) {
       self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .insert(EphemeralState::InAppendix);
+      self.enter_special_sect(EphemeralState::InAppendix);
       self.push_appendix_caption();
     } else if node.level == 0 {
       self.push_part_prefix();
@@ -717,28 +715,30 @@ pub trait HtmlBackend: HtmlBuf {
   fn exit_toc_node(&mut self, node: &TocNode) {
     if node.special_sect == Some(SpecialSection::Appendix) {
       self.state_mut().section_nums = [0; 5];
-      self
-        .state_mut()
-        .ephemeral
-        .remove(&EphemeralState::InAppendix);
+      self.exit_special_sect(EphemeralState::InAppendix);
     }
     self.push_str("</li>");
   }
 
+  fn enter_special_sect(&mut self, state: EphemeralState) {
+    let outermost = self.state_mut().ephemeral.insert(state);
+    self.state_mut().special_sect_stack.push(outermost);
+  }
+
+  fn exit_special_sect(&mut self, state: EphemeralState) {
+    if self.state_mut().special_sect_stack.pop() == Some(true) {
+      self.state_mut().ephemeral.remove(&state);
+    }
+  }
+
   fn enter_section_state(&mut self, section: &Section) {
     match section.meta.attrs.special_sect() {
       Some(SpecialSection::Appendix) => {
         self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .insert(EphemeralState::InAppendix);
+        self.enter_special_sect(EphemeralState::InAppendix);
       }
       Some(SpecialSection::Bibliography) => {
-        self
-          .state_mut()
-          .ephemeral
-          .insert(EphemeralState::InBibliography);
+        self.enter_special_sect(EphemeralState::InBibliography);
       }
       _ => {}
     };
@@ -748,16 +748,10 @@ pub trait HtmlBackend: HtmlBuf {
     match section.meta.attrs.special_sect() {
       Some(SpecialSection::Appendix) => {
         self.state_mut().section_nums = [0; 5];
-        self
-          .state_mut()
-          .ephemeral
-          .remove(&EphemeralState::InAppendix);
+        self.exit_special_sect(EphemeralState::InAppendix);
       }
       Some(SpecialSection::Bibliography) => {
-        self
-          .state_mut()
-          .ephemeral
-          .remove(&EphemeralState::InBibliography);
+        self.exit_special_sect(EphemeralState::InBibliography);
       }
       _ => {}
     };
-- 
2.43.0


From 0b88d33be829494b46141385b7f063db81bd82fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:11 +0000
Subject: [PATCH 25/47] fix: an AsciiDoc cell in a nested table does not make
 the outer cell render the footnotes

---
 backend-html5s/src/html5s.rs            | 1 -
 dr-html-backend/src/asciidoctor_html.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 066632f..844c8e6 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -725,7 +725,6 @@ impl Backend for Html5s {
   }
 
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 3796fb2..1ba98d3 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -826,7 +826,6 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn visit_asciidoc_table_cell_result(&mut self, cell_backend: Self) {
-    self.state.in_asciidoc_table_cell = false;
     self.html.push_str(&cell_backend.into_result().unwrap());
   }
 
-- 
2.43.0


From adbb44be08bbd2f5c2af0ca4b4cf48bb4ec0aa50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:43 +0000
Subject: [PATCH 26/47] fix: the nofollow option of a link with a window target
 lands in its rel attribute

---
 backend/src/html/htmlbuf.rs  | 22 ++++++++++------------
 backend/src/html/open_tag.rs |  4 +++-
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/backend/src/html/htmlbuf.rs b/backend/src/html/htmlbuf.rs
index f017e85..508ebfa 100644
--- a/backend/src/html/htmlbuf.rs
+++ b/backend/src/html/htmlbuf.rs
@@ -86,18 +86,16 @@ pub trait HtmlBuf {
   }
 
   fn append_link_constraint_attrs(&mut self, attrs: &AttrList) {
-    if let Some(window) = attrs.named("window") {
-      self.push([r#" target=""#, window]);
-      if window == "_blank" || attrs.has_option("noopener") {
-        self.push_str("\" rel=\"noopener");
-      }
-      if attrs.has_option("nofollow") {
-        self.push_str(" nofollow\"");
-      } else {
-        self.push_ch('"');
-      }
-    } else if attrs.has_option("nofollow") {
-      self.push_str(" rel=\"nofollow\"");
+    let window = attrs.named("window");
+    if let Some(window) = window {
+      self.push_html_attr("target", window);
+    }
+    let noopener = window.is_some_and(|w| w == "_blank" || attrs.has_option("noopener"));
+    match (noopener, attrs.has_option("nofollow")) {
+      (true, true) => self.push_html_attr("rel", "noopener nofollow"),
+      (true, false) => self.push_html_attr("rel", "noopener"),
+      (false, true) => self.push_html_attr("rel", "nofollow"),
+      (false, false) => {}
     }
   }
 }
diff --git a/backend/src/html/open_tag.rs b/backend/src/html/open_tag.rs
index 954063d..a4038fe 100644
--- a/backend/src/html/open_tag.rs
+++ b/backend/src/html/open_tag.rs
@@ -150,7 +150,9 @@ impl OpenTag {
       self.push_html_attr("title", title)
     }
     if blank_window_shorthand {
-      self.push_str(" target=\"_blank\" rel=\"noopener\"");
+      self.push_html_attr("target", "_blank");
+      let nofollow = attrs.has_option("nofollow");
+      self.push_html_attr("rel", if nofollow { "noopener nofollow" } else { "noopener" });
     } else {
       self.append_link_constraint_attrs(attrs);
     }
-- 
2.43.0


From 6243d85fef36a89d8b1faf558e548c08faf6308b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 27/47] fix: callout numbers stop at 255 instead of overflowing

---
 dr-html-backend/src/asciidoctor_html.rs | 2 +-
 parser/src/parse_context.rs             | 6 +++---
 parser/src/tasks/parse_list.rs          | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index 1ba98d3..ce3ad6f 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -742,7 +742,7 @@ impl Backend for AsciidoctorHtml {
     } else {
       self.push_str("<tr><td>");
       let n = item.marker.callout_num().unwrap_or(self.autogen_conum);
-      self.autogen_conum = n + 1;
+      self.autogen_conum = n.saturating_add(1);
       if self.doc_meta.icon_mode() == IconMode::Font {
         self.push_callout_number_font(n);
       } else {
diff --git a/parser/src/parse_context.rs b/parser/src/parse_context.rs
index 9a639f6..0afbc48 100644
--- a/parser/src/parse_context.rs
+++ b/parser/src/parse_context.rs
@@ -152,8 +152,8 @@ impl<'arena> ParseContext<'arena> {
       } else {
         callouts.push(Callout {
           list_idx: last.list_idx,
-          callout_idx: last.callout_idx + 1,
-          number: num.unwrap_or(last.number + 1),
+          callout_idx: last.callout_idx.saturating_add(1),
+          number: num.unwrap_or(last.number.saturating_add(1)),
           is_xml_wrapped,
         });
       }
@@ -165,7 +165,7 @@ impl<'arena> ParseContext<'arena> {
     let last = { self.callouts.borrow().last().copied() };
     if let Some(last) = last {
       self.callouts = Rc::new(RefCell::new(
-        bvec![in bump; Callout::new(last.list_idx + 1, 0, 0, false)],
+        bvec![in bump; Callout::new(last.list_idx.saturating_add(1), 0, 0, false)],
       ));
     }
   }
diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index c0cd681..656b417 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -98,7 +98,7 @@ impl<'arena> Parser<'arena> {
         )?;
       }
       type_meta = ListItemTypeMeta::Callout(callouts);
-      *autogen_conum = conum + 1;
+      *autogen_conum = conum.saturating_add(1);
     }
 
     let mut item_lines = Deq::with_capacity(1, self.bump);
-- 
2.43.0


From cfef0a556921ffd24000e5ec48fa24c04a5732db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 28/47] fix: heading levels and level offsets saturate instead
 of overflowing

---
 backend-html5s/src/html5s.rs      | 2 +-
 backend/src/html/backend.rs       | 8 ++++----
 parser/src/line.rs                | 4 ++--
 parser/src/tasks/heading_level.rs | 7 +++----
 parser/src/tasks/parse_section.rs | 4 ++--
 5 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 844c8e6..7e16c7b 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -158,7 +158,7 @@ impl Backend for Html5s {
     if !self.doc_meta.embedded && matches!(toc.position, TocPosition::Left | TocPosition::Right) {
       self.push_ch('2'); // `toc2` roughly means "toc-aside", per dr src
     }
-    let level = self.section_level_stack.last().copied().unwrap_or(0) + 2;
+    let level = self.section_level_stack.last().copied().unwrap_or(0).saturating_add(2);
     self.push([r#""><h"#, &num_str!(level), r#" id=""#, id, r#"-title">"#]);
     self.push_str(&toc.title);
     self.push([r#"</h"#, &num_str!(level), ">"]);
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index e6e88fd..9e1848a 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -677,7 +677,7 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn push_enter_discrete_heading(&mut self, level: u8, id: Option<&str>, block: &Block) {
-    let level_str = crate::num_str!(level + 1);
+    let level_str = crate::num_str!(level.saturating_add(1));
     if let Some(id) = id {
       self.push(["<h", &level_str, r#" id=""#, id, "\""]);
     } else {
@@ -692,7 +692,7 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn push_exit_discrete_heading(&mut self, level: u8) {
-    self.push(["</h", &crate::num_str!(level + 1), ">"]);
+    self.push(["</h", &crate::num_str!(level.saturating_add(1)), ">"]);
   }
 
   fn enter_toc_node(&mut self, node: &TocNode) {
@@ -758,7 +758,7 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn enter_section_heading(&mut self, section: &Section, accessible: bool) {
-    let level_str = crate::num_str!(section.level + 1);
+    let level_str = crate::num_str!(section.level.saturating_add(1));
     if let Some(id) = &section.id {
       self.push(["<h", &level_str, r#" id=""#, id, "\">"]);
       if self.doc_meta().is_true("sectanchors") {
@@ -782,7 +782,7 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn exit_section_heading(&mut self, section: &Section) {
-    let level_str = crate::num_str!(section.level + 1);
+    let level_str = crate::num_str!(section.level.saturating_add(1));
     if self.doc_meta().is_true("sectlinks") && section.id.is_some() {
       self.push_str("</a>");
     }
diff --git a/parser/src/line.rs b/parser/src/line.rs
index a79e3e1..c7bb0f3 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -229,14 +229,14 @@ impl<'arena> Line<'arena> {
 
   pub fn unadjusted_heading_level(&self) -> Option<u8> {
     if self.starts_with_seq(&[Kind(EqualSigns), Kind(Whitespace)]) && self.num_tokens() > 2 {
-      Some((self.current_token().unwrap().lexeme.len() - 1) as u8)
+      Some(u8::try_from(self.current_token().unwrap().lexeme.len() - 1).unwrap_or(u8::MAX))
     } else if self.starts(Hash)
       && self.contains_seq(&[Kind(Hash), Kind(Whitespace)])
       && self.num_tokens() > 2
     {
       let num_hashes = self.tokens.iter().take_while(|t| t.kind == Hash).count();
       if self.num_tokens() > num_hashes + 1 && self.nth_token(num_hashes).kind(Whitespace) {
-        Some((num_hashes - 1) as u8)
+        Some(u8::try_from(num_hashes - 1).unwrap_or(u8::MAX))
       } else {
         None
       }
diff --git a/parser/src/tasks/heading_level.rs b/parser/src/tasks/heading_level.rs
index 618257c..f1c7983 100644
--- a/parser/src/tasks/heading_level.rs
+++ b/parser/src/tasks/heading_level.rs
@@ -37,9 +37,9 @@ impl<'arena> Parser<'arena> {
     match value {
       AttrValue::String(s) => {
         if let Some(add) = s.strip_prefix('+') {
-          *leveloffset += add.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_add(add.parse::<i8>().unwrap_or(0));
         } else if let Some(sub) = s.strip_prefix('-') {
-          *leveloffset -= sub.parse::<i8>().unwrap_or(0);
+          *leveloffset = leveloffset.saturating_sub(sub.parse::<i8>().unwrap_or(0));
         } else {
           *leveloffset = s.parse::<i8>().unwrap_or(*leveloffset);
         }
@@ -54,6 +54,5 @@ const fn adjusted_leveloffset(leveloffset: i8, heading_level: u8) -> u8 {
   if leveloffset == 0 {
     return heading_level;
   }
-  let new_level = (heading_level as i8) + leveloffset;
-  if new_level < 0 { 0 } else { new_level as u8 }
+  heading_level.saturating_add_signed(leveloffset)
 }
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 41e00f4..700c1a1 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -86,8 +86,8 @@ impl<'arena> Parser<'arena> {
       self.err_at(
         format!(
           "Section title out of sequence: expected level {} `{}`",
-          last_level + 1,
-          ch.repeat((last_level + 2) as usize)
+          last_level.saturating_add(1),
+          ch.repeat(last_level as usize + 2)
         ),
         err_loc,
       )?;
-- 
2.43.0


From 1f7e17cf32cc1473c0b427a37265776b1006ac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 29/47] fix: section and appendix numbers saturate instead of
 overflowing

---
 backend/src/html/backend.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 9e1848a..6ebc1de 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -490,9 +490,10 @@ pub trait HtmlBackend: HtmlBuf {
       self.push([&appendix_caption, " "]);
     }
 
-    let letter = (self.state().appendix_caption_num + b'A') as char;
+    let letter = self.state().appendix_caption_num.saturating_add(b'A') as char;
     self.push_ch(letter);
-    self.state_mut().appendix_caption_num += 1;
+    let state = self.state_mut();
+    state.appendix_caption_num = state.appendix_caption_num.saturating_add(1);
 
     if self.doc_meta().is_false("appendix-caption") {
       self.push_str(". ");
@@ -506,8 +507,8 @@ pub trait HtmlBackend: HtmlBuf {
     let appendix = self.state().ephemeral.contains(&EphemeralState::InAppendix);
     let mut sect_nums = self.state().section_nums;
 
-    let level_idx = (level - 1) as usize;
-    sect_nums[level_idx] += 1;
+    let level_idx = level as usize - 1;
+    sect_nums[level_idx] = sect_nums[level_idx].saturating_add(1);
     sect_nums
       .iter_mut()
       .skip(level_idx + 1)
@@ -517,7 +518,7 @@ pub trait HtmlBackend: HtmlBuf {
     for (idx, sect_num) in sect_nums.iter().enumerate().take(level_idx + 1) {
       if appendix && idx == 0 {
         // self.push_ch((b'A' + sect_nums[idx] as u8) as char);
-        self.push_ch((b'A' + *sect_num as u8) as char);
+        self.push_ch(u8::try_from(*sect_num).unwrap_or(u8::MAX).saturating_add(b'A') as char);
       } else {
         // self.push_str(&sect_nums[idx].to_string());
         self.push_str(&sect_num.to_string());
-- 
2.43.0


From e6f7cd7956790bfe00cf21474c76cabffe910ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 30/47] fix: column widths are summed without overflowing

---
 ast/src/col_widths.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ast/src/col_widths.rs b/ast/src/col_widths.rs
index 09f0bb1..7e9dde5 100644
--- a/ast/src/col_widths.rs
+++ b/ast/src/col_widths.rs
@@ -36,12 +36,12 @@ impl<'arena> ColWidths<'arena> {
   }
 
   pub fn distribute(&self) -> impl ExactSizeIterator<Item = DistributedColWidth> + '_ {
-    let mut width_divisor = Option::<u8>::None;
+    let mut width_divisor = Option::<u32>::None;
     let mut num_autowidth = 0;
     for cw in self.iter() {
       match cw {
         ColWidth::Proportional(n) | ColWidth::Percentage(n) => {
-          width_divisor = Some(width_divisor.map_or(*n, |sum| sum + n))
+          width_divisor = Some(width_divisor.map_or(u32::from(*n), |sum| sum + u32::from(*n)))
         }
         ColWidth::Auto => num_autowidth += 1,
       }
-- 
2.43.0


From 0c1d5b3d69371b51eb7231b635c54ab6c2808fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 31/47] fix: list and xref nesting depths saturate instead of
 overflowing

---
 backend-html5s/src/html5s.rs            | 4 ++--
 backend/src/html/backend.rs             | 6 +++---
 dr-html-backend/src/asciidoctor_html.rs | 4 ++--
 parser/src/list_context.rs              | 2 +-
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/backend-html5s/src/html5s.rs b/backend-html5s/src/html5s.rs
index 7e16c7b..7250a97 100644
--- a/backend-html5s/src/html5s.rs
+++ b/backend-html5s/src/html5s.rs
@@ -538,7 +538,7 @@ impl Backend for Html5s {
   }
 
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], depth: u8) {
-    self.state.desc_list_depth += 1;
+    self.state.desc_list_depth = self.state.desc_list_depth.saturating_add(1);
     let el = if block.has_title() { "section" } else { "div" };
     let mut tag = OpenTag::new(el, &block.meta.attrs);
     if depth == 1 {
@@ -582,7 +582,7 @@ impl Backend for Html5s {
     if depth == 1 {
       self.push_str(if block.has_title() { "</section>" } else { "</div>" });
     }
-    self.state.desc_list_depth -= 1;
+    self.state.desc_list_depth = self.state.desc_list_depth.saturating_sub(1);
   }
 
   fn enter_description_list_term(&mut self, _item: &ListItem, _num: usize, _total: usize) {
diff --git a/backend/src/html/backend.rs b/backend/src/html/backend.rs
index 6ebc1de..321165a 100644
--- a/backend/src/html/backend.rs
+++ b/backend/src/html/backend.rs
@@ -120,7 +120,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn enter_xref(&mut self, target: &SourceString, kind: XrefKind) {
     let state = self.state_mut();
-    state.xref_depth += 1;
+    state.xref_depth = state.xref_depth.saturating_add(1);
     if state.xref_depth == 1 {
       self.push([
         "<a href=\"",
@@ -132,7 +132,7 @@ pub trait HtmlBackend: HtmlBuf {
 
   fn exit_xref(&mut self) {
     let state = self.state_mut();
-    state.xref_depth -= 1;
+    state.xref_depth = state.xref_depth.saturating_sub(1);
     if state.xref_depth == 0 {
       self.push_str("</a>");
     }
@@ -603,7 +603,7 @@ pub trait HtmlBackend: HtmlBuf {
   }
 
   fn start_enter_ordered_list(&mut self, block: &Block, depth: u8) -> (&'static str, &'static str) {
-    let non_dd_depth = depth - self.state().desc_list_depth;
+    let non_dd_depth = depth.saturating_sub(self.state().desc_list_depth);
     self.state_mut().interactive_list_stack.push(false);
     let custom = block.meta.attrs.ordered_list_custom_number_style();
     let list_type = custom
diff --git a/dr-html-backend/src/asciidoctor_html.rs b/dr-html-backend/src/asciidoctor_html.rs
index ce3ad6f..24d2744 100644
--- a/dr-html-backend/src/asciidoctor_html.rs
+++ b/dr-html-backend/src/asciidoctor_html.rs
@@ -590,7 +590,7 @@ impl Backend for AsciidoctorHtml {
 
   #[instrument(skip_all)]
   fn enter_description_list(&mut self, block: &Block, _items: &[ListItem], _depth: u8) {
-    self.state.desc_list_depth += 1;
+    self.state.desc_list_depth = self.state.desc_list_depth.saturating_add(1);
     if block.meta.attrs.has_str_positional("horizontal") {
       self.desc_lists.push(DescListKind::Horizontal);
       self.open_element("div", &["hdlist"], &block.meta.attrs);
@@ -643,7 +643,7 @@ impl Backend for AsciidoctorHtml {
       Some(DescListKind::Qanda) => self.push_str("</ol></div>"),
       _ => self.push_str("</dl></div>"),
     }
-    self.state.desc_list_depth -= 1;
+    self.state.desc_list_depth = self.state.desc_list_depth.saturating_sub(1);
   }
 
   #[instrument(skip_all)]
diff --git a/parser/src/list_context.rs b/parser/src/list_context.rs
index 95df2dd..5c8849f 100644
--- a/parser/src/list_context.rs
+++ b/parser/src/list_context.rs
@@ -36,7 +36,7 @@ impl ListStack {
   }
 
   pub fn depth(&self) -> u8 {
-    self.len() as u8
+    u8::try_from(self.len()).unwrap_or(u8::MAX)
   }
 }
 
-- 
2.43.0


From 6e87e99f37d4422b4fed21d911739f6502dd2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:52 +0000
Subject: [PATCH 32/47] fix: the length of a delimiter line saturates at 255
 instead of wrapping

---
 parser/src/delimiter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/delimiter.rs b/parser/src/delimiter.rs
index 01f315d..2412cd5 100644
--- a/parser/src/delimiter.rs
+++ b/parser/src/delimiter.rs
@@ -36,7 +36,7 @@ impl From<DelimiterKind> for BlockContext {
 impl Token<'_> {
   pub fn to_delimiter(&self) -> Option<Delimiter> {
     let kind = self.to_delimiter_kind()?;
-    Some(Delimiter { kind, len: self.lexeme.len() as u8 })
+    Some(Delimiter { kind, len: u8::try_from(self.lexeme.len()).unwrap_or(u8::MAX) })
   }
 
   pub fn to_delimiter_kind(&self) -> Option<DelimiterKind> {
-- 
2.43.0


From ae166216fa84fa48b47377c278d882527f5a1374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:20 +0000
Subject: [PATCH 33/47] fix: token and list lengths over 255 do not wrap around

---
 parser/src/contiguous_lines.rs                 | 2 +-
 parser/src/lexer/root_lexer.rs                 | 2 +-
 parser/src/line.rs                             | 4 ++--
 parser/src/tasks/parse_inlines/index_term.rs   | 4 ++--
 parser/src/tasks/parse_inlines/inline_utils.rs | 2 +-
 parser/src/tasks/table/parse_psv_table.rs      | 2 +-
 6 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/parser/src/contiguous_lines.rs b/parser/src/contiguous_lines.rs
index d32ea49..390242b 100644
--- a/parser/src/contiguous_lines.rs
+++ b/parser/src/contiguous_lines.rs
@@ -276,7 +276,7 @@ impl<'arena> ContiguousLines<'arena> {
     if !self
       .lines
       .iter()
-      .all(|l| l.current_satisfies(Len(len as u8, Whitespace)) && l.num_tokens() > 1)
+      .all(|l| l.current_token().is_kind_len(Whitespace, len) && l.num_tokens() > 1)
     {
       return false;
     }
diff --git a/parser/src/lexer/root_lexer.rs b/parser/src/lexer/root_lexer.rs
index 95fc539..a322748 100644
--- a/parser/src/lexer/root_lexer.rs
+++ b/parser/src/lexer/root_lexer.rs
@@ -101,7 +101,7 @@ impl<'arena> RootLexer<'arena> {
       Rc::clone(&self.plugin_macros),
       self.bump,
     ));
-    let next_idx = self.sources.len() as u16 - 1;
+    let next_idx = (self.sources.len() - 1) as u16;
     self.next_idx = Some(next_idx);
   }
 
diff --git a/parser/src/line.rs b/parser/src/line.rs
index c7bb0f3..61741ed 100644
--- a/parser/src/line.rs
+++ b/parser/src/line.rs
@@ -781,7 +781,7 @@ impl<'arena> Line<'arena> {
         Some(ListMarker::Star(1))
       }
       Dots if second.kind(Whitespace) && third.is_some() => {
-        Some(ListMarker::Dot(token.len() as u8))
+        Some(ListMarker::Dot(u8::try_from(token.len()).unwrap_or(u8::MAX)))
       }
       Dashes
         if second.kind(Whitespace)
@@ -793,7 +793,7 @@ impl<'arena> Line<'arena> {
       Star if second.kind(Star) => {
         let src = self.reassemble_src();
         let captures = regx::REPEAT_STAR_LI_START.captures(&src)?;
-        Some(ListMarker::Star(captures.get(1).unwrap().len() as u8))
+        Some(ListMarker::Star(u8::try_from(captures.get(1).unwrap().len()).unwrap_or(u8::MAX)))
       }
       CalloutNumber if second.kind(Whitespace) && token.lexeme.as_bytes()[1] != b'!' => {
         Some(ListMarker::Callout(token.parse_callout_num()))
diff --git a/parser/src/tasks/parse_inlines/index_term.rs b/parser/src/tasks/parse_inlines/index_term.rs
index 8622cc9..793d094 100644
--- a/parser/src/tasks/parse_inlines/index_term.rs
+++ b/parser/src/tasks/parse_inlines/index_term.rs
@@ -83,7 +83,7 @@ impl<'arena> Parser<'arena> {
     while lines.current_token().is_whitespaceish() {
       lines.consume_current_token();
     }
-    let mut term = self.parse_inlines_until(lines, &[Len(end_len as u8, CloseParens)])?;
+    let mut term = self.parse_inlines_until(lines, &[Len(u8::try_from(end_len).unwrap_or(u8::MAX), CloseParens)])?;
     term.trim_trailing_whitespace();
     node_loc.end = term.loc().map(|ml| ml.end_pos).unwrap_or(node_loc.end);
 
@@ -121,7 +121,7 @@ impl<'arena> Parser<'arena> {
     lines: &mut ContiguousLines<'arena>,
   ) -> Result<(Inline<'arena>, SourceLocation)> {
     lines.restore_if_nonempty(line);
-    let mut terms = lines.consume_splitting_csv_until(Len(end_len as u8, CloseParens), self.bump);
+    let mut terms = lines.consume_splitting_csv_until(Len(u8::try_from(end_len).unwrap_or(u8::MAX), CloseParens), self.bump);
     if terms.len() > 3 {
       self.err_at(
         "too many terms in concealed indexterm, max 3",
diff --git a/parser/src/tasks/parse_inlines/inline_utils.rs b/parser/src/tasks/parse_inlines/inline_utils.rs
index 5cbb5c0..b56d442 100644
--- a/parser/src/tasks/parse_inlines/inline_utils.rs
+++ b/parser/src/tasks/parse_inlines/inline_utils.rs
@@ -130,7 +130,7 @@ impl<'arena> Accum<'arena> {
           loc.start -= 1;
         }
         self.push_node(
-          Inline::SpacedDashes(token.len() as u8, newline),
+          Inline::SpacedDashes(u8::try_from(token.len()).unwrap_or(u8::MAX), newline),
           loc.incr_end(),
         );
         if let Some(next_token) = next_token {
diff --git a/parser/src/tasks/table/parse_psv_table.rs b/parser/src/tasks/table/parse_psv_table.rs
index 2c67be5..e448cd0 100644
--- a/parser/src/tasks/table/parse_psv_table.rs
+++ b/parser/src/tasks/table/parse_psv_table.rs
@@ -94,7 +94,7 @@ impl<'arena> Parser<'arena> {
     };
 
     let mut drop_invalid_cell = false;
-    if !ctx.counting_cols && spec.col_span.unwrap_or(0) > ctx.num_cols as u8 {
+    if !ctx.counting_cols && usize::from(spec.col_span.unwrap_or(0)) > ctx.num_cols {
       self.err_at(
         format!(
           "Cell column span ({}) exceeds number of columns ({})",
-- 
2.43.0


From bd345fb73461ef232761598c8c26534c689b8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 34/47] fix: a nested section or list does not change whether
 later lists are bibliographies

---
 parser/src/tasks/parse_list.rs    | 5 ++---
 parser/src/tasks/parse_section.rs | 3 ++-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index 656b417..c15c599 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -20,6 +20,7 @@ impl<'arena> Parser<'arena> {
     let mut items = BumpVec::new_in(self.bump);
     let mut auto_conum = 1;
 
+    let prev_bibliography_ctx = self.ctx.bibliography_ctx;
     if variant == ListVariant::Unordered
       && (self.ctx.bibliography_ctx == BiblioContext::Section
         || meta
@@ -34,9 +35,7 @@ impl<'arena> Parser<'arena> {
       items.push(item);
     }
 
-    if self.ctx.bibliography_ctx == BiblioContext::List {
-      self.ctx.bibliography_ctx = BiblioContext::Section;
-    }
+    self.ctx.bibliography_ctx = prev_bibliography_ctx;
     self.ctx.list.stack.pop();
     if variant == ListVariant::Callout {
       self.ctx.advance_callout_list(self.bump);
diff --git a/parser/src/tasks/parse_section.rs b/parser/src/tasks/parse_section.rs
index 700c1a1..1613ae0 100644
--- a/parser/src/tasks/parse_section.rs
+++ b/parser/src/tasks/parse_section.rs
@@ -63,6 +63,7 @@ impl<'arena> Parser<'arena> {
       authored_level,
     } = peeked;
     let last_level = self.ctx.section_level;
+    let last_bibliography_ctx = self.ctx.bibliography_ctx;
     self.ctx.section_level = semantic_level;
     let mut heading_line = lines.consume_current().unwrap();
     let mut loc: MultiSourceLocation = heading_line.loc().unwrap().into();
@@ -149,7 +150,7 @@ impl<'arena> Parser<'arena> {
       }
     }
 
-    self.ctx.bibliography_ctx = BiblioContext::None;
+    self.ctx.bibliography_ctx = last_bibliography_ctx;
     self.ctx.section_level = last_level;
     Ok(Section {
       meta,
-- 
2.43.0


From 3f46044530779fc831b0456b9a8d9045cd55f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 35/47] fix: a list continuation in a nested block does not end
 the outer one's

---
 parser/src/tasks/parse_list.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_list.rs b/parser/src/tasks/parse_list.rs
index c15c599..15afacf 100644
--- a/parser/src/tasks/parse_list.rs
+++ b/parser/src/tasks/parse_list.rs
@@ -193,11 +193,12 @@ impl<'arena> Parser<'arena> {
 
     lines.consume_current(); // the `+` line starting the continuation
     self.restore_lines(lines);
+    let was_parsing_continuations = self.ctx.list.parsing_continuations;
     self.ctx.list.parsing_continuations = true;
     if let Some(block) = self.parse_block()? {
       accum.push(block);
     }
-    self.ctx.list.parsing_continuations = false;
+    self.ctx.list.parsing_continuations = was_parsing_continuations;
     self.parse_list_continuation_blocks(accum)
   }
 
-- 
2.43.0


From 7df70c19308ac0eb32c48b70db2ea16a6f10ee3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 36/47] fix: a nested markdown quote does not end the outer
 one's

---
 parser/src/tasks/parse_block.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 9b6bab7..d6a978a 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -265,6 +265,7 @@ impl<'arena> Parser<'arena> {
       paras.push(current);
     }
 
+    let was_in_markdown_blockquote = self.ctx.in_markdown_blockquote;
     self.ctx.in_markdown_blockquote = true;
     assert!(self.peeked_lines.is_none());
     let mut blocks = BumpVec::new_in(self.bump);
@@ -275,7 +276,7 @@ impl<'arena> Parser<'arena> {
         blocks.push(block);
       }
     }
-    self.ctx.in_markdown_blockquote = false;
+    self.ctx.in_markdown_blockquote = was_in_markdown_blockquote;
 
     if blocks.len() == 1 && blocks[0].context == Context::QuotedParagraph {
       return Ok(Some(blocks.pop().unwrap()));
-- 
2.43.0


From 0813b52426a39248e52e878885f11361e108a773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 37/47] fix: a span or link inside a span does not reset the
 outer span's terminators

---
 parser/src/tasks/parse_attr_list.rs   | 8 ++++----
 parser/src/tasks/parse_inlines/mod.rs | 3 +++
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/parser/src/tasks/parse_attr_list.rs b/parser/src/tasks/parse_attr_list.rs
index 637d17c..8448000 100644
--- a/parser/src/tasks/parse_attr_list.rs
+++ b/parser/src/tasks/parse_attr_list.rs
@@ -135,9 +135,9 @@ impl<'arena> Parser<'arena> {
     }
 
     if parse_as_attr_list {
-      self.ctx.inline_ctx = InlineCtx::LinkMacroAttrs;
+      let inline_ctx = std::mem::replace(&mut self.ctx.inline_ctx, InlineCtx::LinkMacroAttrs);
       let result = self._parse_attr_list(line, false, false, false);
-      self.ctx.inline_ctx = InlineCtx::None;
+      self.ctx.inline_ctx = inline_ctx;
       return result;
     }
 
@@ -153,9 +153,9 @@ impl<'arena> Parser<'arena> {
       tokens.push_non_attr(line.consume_current().unwrap());
     }
     let attr_line = Line::new(unquote(tokens));
-    self.ctx.inline_ctx = InlineCtx::LinkMacroAttrs;
+    let inline_ctx = std::mem::replace(&mut self.ctx.inline_ctx, InlineCtx::LinkMacroAttrs);
     let nodes = self.parse_inlines(&mut attr_line.into_lines())?;
-    self.ctx.inline_ctx = InlineCtx::None;
+    self.ctx.inline_ctx = inline_ctx;
     attrs.positional.push(Some(nodes));
     debug_assert!(line.current_is(CloseBracket));
     let close_bracket = line.consume_current().expect("attr list close bracket");
diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index c455a13..da32b1c 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -28,10 +28,12 @@ impl<'arena> Parser<'arena> {
     let span_loc = lines.first_loc().unwrap().clamp_start();
     let text = CollectText::new_in(span_loc, self.bump);
     let subs = self.ctx.subs;
+    let inline_ctx = self.ctx.inline_ctx.clone();
     let mut acc = Accum::new(inlines, text);
     let mut inline_attrs: Option<AttrList> = None;
 
     while let Some(mut line) = lines.consume_current() {
+      self.ctx.inline_ctx = inline_ctx.clone();
       if self.should_stop_at(&line) {
         acc.inlines.remove_trailing_newline();
         lines.restore_if_nonempty(line);
@@ -882,6 +884,7 @@ impl<'arena> Parser<'arena> {
       }
     }
 
+    self.ctx.inline_ctx = inline_ctx;
     self.finish_inlines(acc, inline_attrs)
   }
 
-- 
2.43.0


From 7e6a156754e3223ddfc63096167405624551d1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:59:39 +0000
Subject: [PATCH 38/47] fix: a footnote restores the substitutions even if a
 nested one ended the pass macro

---
 parser/src/tasks/parse_inlines/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_inlines/mod.rs b/parser/src/tasks/parse_inlines/mod.rs
index da32b1c..ee60853 100644
--- a/parser/src/tasks/parse_inlines/mod.rs
+++ b/parser/src/tasks/parse_inlines/mod.rs
@@ -171,8 +171,8 @@ impl<'arena> Parser<'arena> {
                   self.ctx.subs = attr_pass_subs;
                 }
                 let note = self.parse_inlines_until(lines, &[Kind(CloseBracket)])?;
+                self.ctx.subs = restore;
                 if self.ctx.attr_pass_subs.take().is_some() {
-                  self.ctx.subs = restore;
                   let close_bracket = lines
                     .consume_current_token()
                     .expect("attr ref pass macro end");
-- 
2.43.0


From 8afe960602f43c7c0cf5f62eb83904b67fada96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:16 +0000
Subject: [PATCH 39/47] fix: an open block with the normal style stays an open
 block instead of panicking

---
 ast/src/attr_list.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ast/src/attr_list.rs b/ast/src/attr_list.rs
index 5598230..e898958 100644
--- a/ast/src/attr_list.rs
+++ b/ast/src/attr_list.rs
@@ -132,6 +132,8 @@ impl AttrData for AttrList<'_> {
     // https://docs.asciidoctor.org/asciidoc/latest/blocks/masquerading/#built-in-permutations
     use BlockContext::*;
     match (context, masquerade) {
+      // the default `normal` style is no masquerade: the open block keeps its delimited content
+      (Open, Paragraph) => None,
       (Open | Paragraph, _) => Some(masquerade),
       (Listing, Literal) => Some(Literal),
       (Literal, Listing) => Some(Listing),
-- 
2.43.0


From 77fab35d48c4c91cd4dbda4aced7e0ff4e6495ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:37 +0000
Subject: [PATCH 40/47] fix: the stylesheet a job locks is not overridden by
 the document's

---
 cli/src/css.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/src/css.rs b/cli/src/css.rs
index 9a00562..21de594 100644
--- a/cli/src/css.rs
+++ b/cli/src/css.rs
@@ -2,7 +2,7 @@ use asciidork_ast::Document;
 use asciidork_core::{Path, ReadAttr, SafeMode};
 
 pub fn resolve(document: &mut Document) -> Result<(), String> {
-  let attrs = document.meta.header_attrs();
+  let attrs = &document.meta;
   let Some(custom_filename) = attrs.str("stylesheet") else {
     return Ok(());
   };
-- 
2.43.0


From b6449fe6dedddf1460cd1d5a55c8ec7beeb92eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:37 +0000
Subject: [PATCH 41/47] fix: text after a part title in the same block of lines
 is kept

---
 parser/src/tasks/parse_book_part.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/parse_book_part.rs b/parser/src/tasks/parse_book_part.rs
index ca505f1..d3eff54 100644
--- a/parser/src/tasks/parse_book_part.rs
+++ b/parser/src/tasks/parse_book_part.rs
@@ -24,6 +24,7 @@ impl<'arena> Parser<'arena> {
     heading_line.discard_assert(TokenKind::Whitespace);
     let id = self.section_id(&heading_line, &meta.attrs);
     let heading = self.parse_inlines(&mut heading_line.into_lines())?;
+    self.restore_lines(lines);
     self.push_toc_node(
       authored_level,
       semantic_level,
-- 
2.43.0


From 266fc8e9266c6b6e72800a95c8bf4c2149e656af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:37 +0000
Subject: [PATCH 42/47] fix: lines right after a plugin block macro are kept

---
 parser/src/tasks/parse_block.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index d6a978a..1814044 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -587,6 +587,7 @@ impl<'arena> Parser<'arena> {
       None
     };
     let attrs = self.parse_block_macro_attr_list(&mut line)?;
+    self.restore_lines(lines);
     let mut nodes = InlineNodes::new(self.bump);
     nodes.push(InlineNode {
       content: Inline::Macro(MacroNode::Plugin(Box::new(PluginMacro {
-- 
2.43.0


From 96a8c1ba4eb07ac129d2dcf0846fa8cb6fa4af3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:37 +0000
Subject: [PATCH 43/47] fix: the lines after a leading comment block with blank
 lines are kept

---
 parser/src/tasks/parse_doc_header.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 9d5ba74..40ef259 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -79,6 +79,7 @@ impl<'arena> Parser<'arena> {
       };
       if next_lines.discard_until(Line::is_comment_block_delimiter) {
         let end_delim = next_lines.consume_current().unwrap();
+        *lines = next_lines;
         return Ok(end_delim.first_loc());
       }
     }
-- 
2.43.0


From 1de2eb900b33243cbcffae3979589a2707dd166f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:37 +0000
Subject: [PATCH 44/47] fix: lines left over after the document header are body
 text

---
 parser/src/tasks/parse_doc_header.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/tasks/parse_doc_header.rs b/parser/src/tasks/parse_doc_header.rs
index 40ef259..a8a90d9 100644
--- a/parser/src/tasks/parse_doc_header.rs
+++ b/parser/src/tasks/parse_doc_header.rs
@@ -19,6 +19,7 @@ impl<'arena> Parser<'arena> {
     self.skip_header_doc_attrs(&mut block, &mut header)?;
     self.parse_doc_title_author_revision(&mut block, &mut header)?;
     self.skip_header_doc_attrs(&mut block, &mut header)?;
+    self.restore_lines(block);
     self.finalize_doc_header(header);
     Ok(())
   }
-- 
2.43.0


From ba7860dff7e265ac97126a3861c1a6b4d3ef81ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:43:02 +0000
Subject: [PATCH 45/47] fix: lines read where a delimited block should end but
 does not are kept

---
 parser/src/tasks/parse_block.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 1814044..c008734 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -399,12 +399,12 @@ impl<'arena> Parser<'arena> {
 
     self.ctx.subs = restore_subs;
     let mut end_loc = None;
-    if let Some(mut lines) = self.read_lines()?
-      && lines.current_satisfies(|l| l.is_delimiter(self.ctx.delimiter.unwrap()))
-    {
-      let token = lines.consume_current_line_with_token().unwrap();
+    if let Some(mut lines) = self.read_lines()? {
+      if lines.current_satisfies(|l| l.is_delimiter(self.ctx.delimiter.unwrap())) {
+        let token = lines.consume_current_line_with_token().unwrap();
+        end_loc = Some(token.loc);
+      }
       self.restore_lines(lines);
-      end_loc = Some(token.loc);
     }
 
     if end_loc.is_none() {
-- 
2.43.0


From b10cae2eb109ba37f5c431d23cf62773d42499d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:30 +0000
Subject: [PATCH 46/47] fix: lines left over inside a quoted paragraph are kept

---
 parser/src/tasks/parse_block.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index c008734..8619c53 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -499,14 +499,12 @@ impl<'arena> Parser<'arena> {
         .discard_assert_last(TokenKind::DoubleQuote);
       loc
     };
+    let quote = self.parse_inlines(&mut lines)?;
+    self.restore_lines(lines);
     Ok(Some(Block {
       meta,
       context: Context::QuotedParagraph,
-      content: Content::QuotedParagraph {
-        quote: self.parse_inlines(&mut lines)?,
-        attr,
-        cite,
-      },
+      content: Content::QuotedParagraph { quote, attr, cite },
       loc: MultiSourceLocation::spanning(start_token_loc, last_loc),
     }))
   }
-- 
2.43.0


From cbc89385780f342bca13ed318d68a5f4fe87129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:55:16 +0000
Subject: [PATCH 47/47] fix: every block in a paragraph of a markdown quote is
 kept

---
 parser/src/tasks/parse_block.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/parser/src/tasks/parse_block.rs b/parser/src/tasks/parse_block.rs
index 8619c53..f895ff7 100644
--- a/parser/src/tasks/parse_block.rs
+++ b/parser/src/tasks/parse_block.rs
@@ -24,6 +24,7 @@ impl<'arena> Parser<'arena> {
 
     match self.section_start_level(&lines, &meta) {
       Some(0 | 1) if self.ctx.delimiter.is_some() => {}
+      Some(_) if self.ctx.in_markdown_blockquote => {}
       // skip doc title and top-level sections
       Some(0 | 1) => {
         self.restore_peeked(lines, meta);
@@ -271,7 +272,9 @@ impl<'arena> Parser<'arena> {
     let mut blocks = BumpVec::new_in(self.bump);
     for para in paras.into_iter() {
       self.restore_lines(para);
-      if let Some(block) = self.parse_block()? {
+      while self.peeked_lines.is_some()
+        && let Some(block) = self.parse_block()?
+      {
         loc.extend_end(&block.loc);
         blocks.push(block);
       }
-- 
2.43.0

