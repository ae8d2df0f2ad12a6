From 035b84b53dc5275bd98b54859cfd68e7817eb8f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:21 +0000
Subject: [PATCH 01/31] fix: stop the scanner at the end of the source

Unterminated macros, anchors, cross references, tags and attribute lines made
the scanner loop forever or slice past the end of the source. They are now
scanned as plain text, and tokens always end on a character boundary.
---
 src/scanner/mod.rs | 63 ++++++++++++++++++++++++++++------------------
 1 file changed, 39 insertions(+), 24 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index c756673..448cadd 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -264,7 +264,7 @@ impl<'a> Scanner<'a> {
             }
             ':' => {
                 if self.starts_new_line() && self.starts_attr() {
-                    while self.peek() != '\n' {
+                    while self.peek() != '\n' && !self.is_at_end() {
                         // TK line continuation
                         self.current += 1
                     }
@@ -445,6 +445,11 @@ impl<'a> Scanner<'a> {
         include_literal: bool,
         advance_line_after: usize,
     ) -> Result<Token, ScannerError> {
+        // never run past the end of the source, or stop inside of a character
+        self.current = self.current.min(self.source.len());
+        while !self.source.is_char_boundary(self.current) {
+            self.current += 1
+        }
         let text = &self.source[self.start..self.current];
         let mut literal = None;
         if include_literal {
@@ -507,28 +512,25 @@ impl<'a> Scanner<'a> {
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_block_image(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
-            self.current += 1
+        if !self.consume_through("]") {
+            return self.add_text_until_next_markup();
         }
-        self.current += 1; // consume the ']' char
         self.add_token(TokenType::BlockImageMacro, true, 0)
     }
 
     /// Adds the block image, consuming the target as well as any attributes
     fn add_inline_image(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
-            self.current += 1
+        if !self.consume_through("]") {
+            return self.add_text_until_next_markup();
         }
-        self.current += 1; // consume the ']' char
         self.add_token(TokenType::InlineImageMacro, true, 0)
     }
 
     /// Adds the include image, consuming the target as well as any attributes
     fn add_include(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
-            self.current += 1
+        if !self.consume_through("]") {
+            return self.add_text_until_next_markup();
         }
-        self.current += 1; // consume the ']' char
         self.add_token(TokenType::Include, true, 0)
     }
 
@@ -578,28 +580,26 @@ impl<'a> Scanner<'a> {
     }
 
     fn add_inline_style(&mut self) -> Result<Token, ScannerError> {
-        while self.peek() != ']' {
-            self.current += 1
+        if !self.consume_through("]") {
+            return self.add_text_until_next_markup();
         }
-        self.current += 1; // consume the ']' char
         self.add_token(TokenType::InlineStyle, true, 0)
     }
 
     // adds block anchors, e.g., "\n[[some_block_id]]\n"
     fn add_cross_reference(&mut self) -> Result<Token, ScannerError> {
-        while self.peeks_ahead(2) != ">>" && !self.is_at_end() {
-            self.current += 1
+        if !self.consume_through(">>") {
+            return self.add_text_until_next_markup();
         }
-        self.current += 2; // consume the '>>' chars
         self.add_token(TokenType::CrossReference, true, 0)
     }
 
     // adds block anchors, e.g., "\n[[some_block_id]]\n"
     fn add_block_anchor(&mut self) -> Result<Token, ScannerError> {
-        while self.peeks_ahead(3) != "]]\n" && !self.is_at_end() {
-            self.current += 1
+        if !self.consume_through("]]\n") {
+            return self.add_text_until_next_markup();
         }
-        self.current += 2; // consume the ']]' chars, NOT newline
+        self.current -= 1; // consume the ']]' chars, NOT newline
         self.add_token(TokenType::BlockAnchor, true, 0)
     }
 
@@ -622,7 +622,7 @@ impl<'a> Scanner<'a> {
     fn add_tag(&mut self) -> Result<Token, ScannerError> {
         let tag_type: TokenType;
         if self.expecting_tag_end {
-            while self.peek() != 'e' {
+            while self.peek() != 'e' && !self.is_at_end() {
                 self.current += 1;
             }
             self.start = self.current;
@@ -631,7 +631,9 @@ impl<'a> Scanner<'a> {
         while ![']'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1;
         }
-        self.current += 1; // consume the ']' char
+        if !self.is_at_end() {
+            self.current += 1; // consume the ']' char
+        }
 
         if (self.source[self.start..self.current]).contains("tag") {
             tag_type = TokenType::StartTag;
@@ -673,7 +675,7 @@ impl<'a> Scanner<'a> {
         while ![' ', '\n', ':'].contains(&self.peek()) && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == ':';
+        let check = self.peek() == ':';
         self.current = current_placeholder;
         check
     }
@@ -692,7 +694,7 @@ impl<'a> Scanner<'a> {
         while (self.peek().is_alphanumeric() || self.peek() == '-') && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == '}';
+        let check = self.peek() == '}';
         self.current = current_placeholder;
         check
     }
@@ -703,7 +705,7 @@ impl<'a> Scanner<'a> {
         while self.peek().is_alphanumeric() && !self.is_at_end() {
             self.current += 1
         }
-        let check = self.source.as_bytes()[self.current] as char == ';';
+        let check = self.peek() == ';';
         self.current = current_placeholder;
         check
     }
@@ -800,6 +802,18 @@ impl<'a> Scanner<'a> {
         self.peek() == '-' && (after_char.is_alphanumeric() || [' ', '\0'].contains(&after_char))
     }
 
+    /// Advances past the next occurrence of `close`; returns false (and stays put) if the source ends
+    /// before there is one
+    fn consume_through(&mut self, close: &str) -> bool {
+        match self.source[self.current..].find(close) {
+            Some(idx) => {
+                self.current += idx + close.len();
+                true
+            }
+            None => false,
+        }
+    }
+
     fn is_at_end(&self) -> bool {
         self.current >= self.source.len()
     }
@@ -821,6 +835,7 @@ impl<'a> Scanner<'a> {
     fn peeks_ahead(&self, count: usize) -> &str {
         if self.is_at_end()
             || self.current + count > self.source.len()
+            || !self.source.is_char_boundary(self.current)
             || !self.source.is_char_boundary(self.current + count)
         {
             return "\0";
-- 
2.43.0


From df1993fdeccb345e03705dfee5724e3a2953aa99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:01 +0000
Subject: [PATCH 02/31] fix: do not panic on malformed tags and macro targets

Tags cut off by the end of the file and macros without an opening bracket made
the slicing of their text panic.
---
 src/scanner/tokens.rs | 5 ++++-
 src/utils.rs          | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/scanner/tokens.rs b/src/scanner/tokens.rs
index 1057bc2..2b395c7 100644
--- a/src/scanner/tokens.rs
+++ b/src/scanner/tokens.rs
@@ -154,7 +154,10 @@ impl Token {
     /// otherwise return None
     pub fn tag(&self) -> Option<String> {
         if matches!(self.token_type(), TokenType::StartTag | TokenType::EndTag) {
-            return Some((self.lexeme[5..self.lexeme.len() - 2]).to_string());
+            return self
+                .lexeme
+                .get(5..self.lexeme.len().saturating_sub(2))
+                .map(|tag| tag.to_string());
         }
         None
     }
diff --git a/src/utils.rs b/src/utils.rs
index 58b08f0..39933d9 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -48,7 +48,10 @@ pub fn target_and_attrs_from_token(token: &Token) -> (String, Option<ElementMeta
 
     let target: String = target_and_attrs.chars().take_while(|c| c != &'[').collect();
     // get rid of the "[]" chars
-    let attributes = target_and_attrs[target.len() + 1..target_and_attrs.len() - 1].to_string();
+    let attributes = target_and_attrs
+        .get(target.len() + 1..target_and_attrs.len().saturating_sub(1))
+        .unwrap_or_default()
+        .to_string();
     let mut metadata: Option<ElementMetadata> = None;
     if !attributes.is_empty() {
         let mut token_metadata = ElementMetadata {
-- 
2.43.0


From a9b70feec1bb3cdff67c4791dcf693ead5b450d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:01 +0000
Subject: [PATCH 03/31] fix: return template errors from the HTML backend

A graph the templates cannot render made the library panic even though the
function already returns a conversion error.
---
 src/backends/htmls.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/backends/htmls.rs b/src/backends/htmls.rs
index 81ec4e8..a358982 100644
--- a/src/backends/htmls.rs
+++ b/src/backends/htmls.rs
@@ -21,10 +21,8 @@ fn render_from_templates(
 ) -> Result<String, ConversionError> {
     // from their docs
     let mut tera = Tera::default();
-    tera.add_raw_templates(templates).expect("failure");
-    Ok(tera
-        .render("htmlbook.html.tera", &Context::from_serialize(graph)?)
-        .expect("failure"))
+    tera.add_raw_templates(templates)?;
+    Ok(tera.render("htmlbook.html.tera", &Context::from_serialize(graph)?)?)
 }
 
 fn gather_htmlbook_templates() -> Vec<(&'static str, &'static str)> {
-- 
2.43.0


From 280c3791e6f12e6aa7b4945ec46bb407145f609e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:40 +0000
Subject: [PATCH 04/31] fix: report tables without column information as an
 error

Closing a table whose first cells are on separate lines and that has no
attributes ended the whole process instead of returning an error.
---
 src/errors.rs       | 2 ++
 src/graph/blocks.rs | 5 ++---
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/errors.rs b/src/errors.rs
index 37bf587..e679337 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -86,6 +86,8 @@ pub enum BlockError {
     DanglingList,
     #[error("Attempted to add something other than a TableCell to a Table")]
     TableCell,
+    #[error("Error creating table at line: {0}")]
+    TableInfo(usize),
     #[error("push_block not implemented for {0}")]
     NotImplemented(String),
     #[error("Incorrect function call: consolidate_table_info on non-table block")]
diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index a433ad8..75e0564 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -1,4 +1,4 @@
-use log::{error, warn};
+use log::warn;
 use std::{collections::HashMap, fmt::Display};
 
 use serde::Serialize;
@@ -253,8 +253,7 @@ impl Block {
             }
             // FOR NOW, make the cols an integer for easier templating.
             let Some(ref mut metadata) = table.metadata else {
-                error!("Error creating table at Line: {}", first_cell_line);
-                std::process::exit(1)
+                return Err(BlockError::TableInfo(first_cell_line));
             };
             metadata.simplify_cols();
         }
-- 
2.43.0


From b31f8bc3b4da4c47b7b64da4dff14fe6464bd549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:43 +0000
Subject: [PATCH 05/31] fix: keep unclosed footnotes and nested spans as
 literal text

A footnote, or a span holding another unclosed span, that was still open at
the end of its block reached a todo!() while being turned back into text.
---
 src/graph/inlines.rs | 17 ++++++++---------
 src/parser.rs        |  6 +++++-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index ce7e3d7..1b142f0 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -171,7 +171,7 @@ impl Inline {
                     InlineSpanVariant::Code => "`".to_string(),
                     InlineSpanVariant::Superscript => "^".to_string(),
                     InlineSpanVariant::Subscript => "~".to_string(),
-                    InlineSpanVariant::Footnote => todo!(), // not applicable
+                    InlineSpanVariant::Footnote => "footnote:[".to_string(),
                 };
                 if span.node_form == InlineSpanForm::Unconstrained {
                     literal = literal
@@ -424,15 +424,14 @@ impl InlineSpan {
                 let mut working_inline = inline.clone();
                 let open_span_literal = working_inline.produce_literal_from_self();
                 let mut inline_children = working_inline.extract_child_inlines();
-                if let Some(inline) = inline_children.front_mut() {
-                    match inline {
-                        Inline::InlineLiteral(literal) => {
-                            literal.prepend_to_value(open_span_literal, literal.location.clone());
-                        }
-                        _ => todo!(),
-                    }
+                if let Some(Inline::InlineLiteral(literal)) = inline_children.front_mut() {
+                    literal.prepend_to_value(open_span_literal, literal.location.clone());
                 } else {
-                    todo!()
+                    inline_children.push_front(Inline::InlineLiteral(InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        open_span_literal,
+                        inline.locations(),
+                    )));
                 }
                 children.extend(inline_children);
             } else {
diff --git a/src/parser.rs b/src/parser.rs
index b4b4a51..d749c42 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1300,7 +1300,11 @@ impl Parser {
                     Inline::InlineLiteral(literal) => {
                         literal.prepend_to_value(open_span_literal, open_span.locations());
                     }
-                    _ => todo!(),
+                    _ => children.push_front(Inline::InlineLiteral(InlineLiteral::new(
+                        InlineLiteralName::Text,
+                        open_span_literal,
+                        open_span.locations(),
+                    ))),
                 }
                 // put any appended inlines into the stack at the relevant position
                 while children.len() > 0 {
-- 
2.43.0


From 42feac737028fcc1c885f894149634996e69911f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:13 +0000
Subject: [PATCH 06/31] fix: do not panic on unbalanced quotes and extra
 attributes in lists

A lone quotation mark, a multi-byte first attribute or a surplus positional
attribute in an attribute list made metadata processing panic.
---
 src/graph/metadata.rs | 10 ++++------
 src/utils.rs          |  4 ++--
 2 files changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 7838a82..21e8ac0 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -184,8 +184,8 @@ impl ElementMetadata {
                 }
                 Err(_) => {
                     if idx == 0 && attribute.len() >= 2 {
-                        match &attribute[..2] {
-                            "so" | "qu" | "ve" => {
+                        match attribute.get(..2) {
+                            Some("so" | "qu" | "ve") => {
                                 self.declared_type = AttributeType::from_str(attribute);
                                 continue;
                             }
@@ -214,8 +214,6 @@ impl ElementMetadata {
                 } else if idx == 2 {
                     self.attributes
                         .insert(String::from("citation"), String::from(attribute.trim()));
-                } else {
-                    todo!(); // or panic?
                 }
             }
             Some(AttributeType::Lines) => {
@@ -223,8 +221,8 @@ impl ElementMetadata {
                 todo!()
             }
             _ => {
-                if attribute.starts_with('"') {
-                    *attribute = attribute[1..attribute.len() - 1].to_string()
+                if let Some(unquoted) = attribute.strip_prefix('"') {
+                    *attribute = unquoted.strip_suffix('"').unwrap_or(unquoted).to_string()
                 }
                 self.attributes
                     .insert(format!("positional_{}", idx + 1), attribute.to_string());
diff --git a/src/utils.rs b/src/utils.rs
index 39933d9..1071d73 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -16,8 +16,8 @@ pub fn key_values_from_named_attribute(
         Some(captures) => {
             let (_, [named, mut values_str]) = captures.extract();
             // remove quotes values
-            if values_str.starts_with('"') {
-                values_str = &values_str[1..values_str.len() - 1]
+            if let Some(unquoted) = values_str.strip_prefix('"') {
+                values_str = unquoted.strip_suffix('"').unwrap_or(unquoted)
             }
             Ok((
                 named.to_string(),
-- 
2.43.0


From c2c0ee1b5f56c84ece3b3daeb20f23d7c27eef6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:15 +0000
Subject: [PATCH 07/31] fix: create the docx file only after rendering
 succeeded

The output was truncated before rendering, so a failing conversion destroyed an
existing document. Failure to create the file is now returned as an error
instead of a panic.
---
 src/backends/docx/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/mod.rs b/src/backends/docx/mod.rs
index 1ae0ac2..0c73379 100644
--- a/src/backends/docx/mod.rs
+++ b/src/backends/docx/mod.rs
@@ -15,7 +15,6 @@ use self::document::DocxRenderError;
 
 /// !Experimental! Renders a Docx file. Some [`Asg`] blocks are still unsupported.
 pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionError> {
-    let file = File::create(output_path).unwrap();
     let mut writer = document::DocxWriter::new();
     let mut docx = document::asciidocr_default_docx();
 
@@ -32,6 +31,8 @@ pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionErro
     for block in graph.blocks.iter() {
         docx = writer.add_block_to_doc(docx, block)?
     }
+    // only touch the output once there is something to write
+    let file = File::create(output_path).map_err(DocxRenderError::FileError)?;
     match docx.build().pack(file) {
         Ok(_) => Ok(()),
         Err(_) => Err(ConversionError::DocxRender(DocxRenderError::ZipFileError)),
-- 
2.43.0


From 928ab4e48b9d2503eaf1063161655ce5a7100c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:32:17 +0000
Subject: [PATCH 08/31] fix: report docx tables without columns instead of
 dividing by zero

---
 src/backends/docx/document.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 52b7353..79d579c 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -324,6 +324,9 @@ impl DocxWriter {
         }
         let mut rows: Vec<TableRow> = vec![];
         let num_cells = table.blocks.len();
+        if cols == 0 && num_cells > 1 {
+            return Err(DocxRenderError::ColumnError);
+        }
         let mut current_row: Vec<TableCell> = vec![];
         for (idx, block) in table.blocks.iter().enumerate() {
             let mut para = Paragraph::new().style(&DocumentStyles::Table.style_id());
-- 
2.43.0


From 341cad0fb2043264480b5fa340920b00a8317f3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:33:11 +0000
Subject: [PATCH 09/31] fix: return an error when an included file cannot be
 read

The library ended the calling process when an include target existed but could
not be read. The failure is now reported like any unresolvable target.
---
 src/parser.rs | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index d749c42..c5224d9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -3,7 +3,7 @@ use std::{
     collections::{HashMap, VecDeque},
     env,
     fmt::Debug,
-    fs,
+    fs, io,
     path::{Path, PathBuf},
     str::FromStr,
 };
@@ -569,8 +569,9 @@ impl Parser {
         }
 
         // now parse the file
-        for result in Scanner::new_with_stack(&open_file(resolved_target), self.file_stack.clone())
-        {
+        let contents = open_file(resolved_target)
+            .map_err(|_| ParserError::TargetResolution(token.line, target.clone()))?;
+        for result in Scanner::new_with_stack(&contents, self.file_stack.clone()) {
             match result {
                 Ok(token) => {
                     // lines
@@ -1540,15 +1541,9 @@ impl Parser {
     }
 }
 
-fn open_file<P>(filename: P) -> String
+fn open_file<P>(filename: P) -> io::Result<String>
 where
     P: AsRef<Path> + Into<PathBuf> + Debug,
 {
-    match fs::read_to_string(&filename) {
-        Ok(file_string) => file_string,
-        Err(e) => {
-            warn!("Unable to read file {:?}: {e}", filename);
-            std::process::exit(1)
-        }
-    }
+    fs::read_to_string(&filename).inspect_err(|e| warn!("Unable to read file {:?}: {e}", filename))
 }
-- 
2.43.0


From 60d1062c7b1fd8e61ec16fd69fcf4e54561b86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:34:45 +0000
Subject: [PATCH 10/31] fix: refuse includes nested more than 64 levels deep

A file that includes itself, directly or through others, recursed until the
stack overflowed.
---
 src/errors.rs | 2 ++
 src/parser.rs | 7 +++++++
 2 files changed, 9 insertions(+)

diff --git a/src/errors.rs b/src/errors.rs
index e679337..e0c7bfd 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -52,6 +52,8 @@ pub enum ParserError {
     HeadingOffsetError(usize, i8),
     #[error("Parse error line {0}: Unable to resolve target: {1:?}")]
     TargetResolution(usize, String),
+    #[error("Parse error line {0}: Includes nested too deeply at target: {1:?}")]
+    IncludeDepth(usize, String),
     #[error("Parser error: Tried to add last block when block stack was empty.")]
     BlockStack,
     #[error("Parse error: invalid block continuation; no previous block")]
diff --git a/src/parser.rs b/src/parser.rs
index c5224d9..cde5374 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -27,6 +27,9 @@ use crate::{
     utils::{extract_page_ranges, target_and_attrs_from_token},
 };
 
+/// How deep includes may be nested, following asciidoctor's default
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 /// Parses a stream of tokens into an [`Asg`] (Abstract Syntax Graph), returning the graph once all
 /// tokens have been parsed.
 #[derive(Debug)]
@@ -556,6 +559,10 @@ impl Parser {
         // calculate target, given that it's relative; if there is something on the stack, use
         // that, else use self.origin
         let resolved_target = self.resolve_target(token.line, &target)?;
+        // includes that (eventually) include themselves would otherwise never end
+        if self.file_stack.len() >= MAX_INCLUDE_DEPTH {
+            return Err(ParserError::IncludeDepth(token.line, target));
+        }
         self.file_stack.push(target.clone());
 
         let current_block_stack_len = self.block_stack.len();
-- 
2.43.0


From b806a032c1e6b9fa447ae2e23c150620b560556e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:29 +0000
Subject: [PATCH 11/31] fix: resolve targets of default parsers from the
 current directory

Parser::default() and Asg::from_str() looked in the parent of the current
directory, and creating any parser panicked when the current directory could
not be determined.
---
 src/graph/asg.rs |  3 +--
 src/parser.rs    | 17 ++++-------------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/graph/asg.rs b/src/graph/asg.rs
index 35e5f7d..d4e5037 100644
--- a/src/graph/asg.rs
+++ b/src/graph/asg.rs
@@ -1,5 +1,4 @@
 use std::collections::HashMap;
-use std::env::current_dir;
 
 use serde::Serialize;
 
@@ -47,7 +46,7 @@ impl Default for Asg {
 impl std::str::FromStr for Asg {
     type Err = AsciidocrError;
     fn from_str(s: &str) -> Result<Self, Self::Err> {
-        Ok(Parser::new(current_dir()?).parse(Scanner::new(s))?)
+        Ok(Parser::default().parse(Scanner::new(s))?)
     }
 }
 
diff --git a/src/parser.rs b/src/parser.rs
index cde5374..72feacf 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1,14 +1,13 @@
 //! Parses a stream of tokens into an [`Asg`] (Abstract Syntax Graph)
 use std::{
     collections::{HashMap, VecDeque},
-    env,
     fmt::Debug,
     fs, io,
     path::{Path, PathBuf},
     str::FromStr,
 };
 
-use log::{error, warn};
+use log::warn;
 
 use crate::scanner::tokens::{Token, TokenType};
 use crate::{
@@ -86,13 +85,7 @@ pub struct Parser {
 impl Default for Parser {
     fn default() -> Self {
         // defaults assuming stdin
-        match env::current_dir() {
-            Ok(dir) => Self::new(dir),
-            Err(e) => {
-                error!("Unexpeced error: {e}");
-                std::process::exit(1)
-            }
-        }
+        Self::new(PathBuf::from("-"))
     }
 }
 
@@ -101,10 +94,8 @@ impl Parser {
     /// of STDIN (`-`)) or the parent of the provided asciidoc file; this origin is required for
     /// correct `include::` directive resolution.
     pub fn new(origin: PathBuf) -> Self {
-        let origin_directory = origin
-            .parent()
-            .unwrap_or(&env::current_dir().unwrap())
-            .to_path_buf();
+        // NB an empty path is the current directory
+        let origin_directory = origin.parent().unwrap_or(Path::new("")).to_path_buf();
         Parser {
             origin_directory,
             last_token_type: TokenType::Eof,
-- 
2.43.0


From e6565ca6983441f8a72452f13317933d791a5cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:48 +0000
Subject: [PATCH 12/31] fix: write attributes in a stable order

Attributes were serialized in hash map order, so converting the same document
twice could give different JSON.
---
 src/graph/asg.rs      |  6 +++++-
 src/graph/metadata.rs |  3 ++-
 src/graph/mod.rs      | 18 ++++++++++++++++++
 3 files changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/graph/asg.rs b/src/graph/asg.rs
index d4e5037..859aca8 100644
--- a/src/graph/asg.rs
+++ b/src/graph/asg.rs
@@ -9,6 +9,7 @@ use crate::scanner::Scanner;
 use super::blocks::{Block, ParentBlock};
 use super::inlines::Inline;
 use super::nodes::{Header, Location, NodeTypes};
+use super::sorted_optional_map;
 
 /// Abstract Syntax Graph used to represent an asciidoc document
 /// roughly meaning to follow the "official" schema:
@@ -20,7 +21,10 @@ pub struct Asg {
     #[serde(rename = "type")]
     /// This is always "block"
     pub node_type: NodeTypes,
-    #[serde(skip_serializing_if = "Option::is_none")]
+    #[serde(
+        skip_serializing_if = "Option::is_none",
+        serialize_with = "sorted_optional_map"
+    )]
     pub attributes: Option<HashMap<String, String>>, // the value can also be a bool; deal with this later
     #[serde(skip_serializing_if = "Option::is_none")]
     pub header: Option<Header>,
diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 21e8ac0..4ac5dc6 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -4,7 +4,7 @@ use once_cell::sync::Lazy;
 use regex::Regex;
 use serde::Serialize;
 
-use crate::graph::nodes::Location;
+use crate::graph::{nodes::Location, sorted_map};
 use crate::scanner::tokens::{Token, TokenType};
 use crate::utils::{extract_attributes, key_values_from_named_attribute};
 
@@ -35,6 +35,7 @@ impl AttributeType {
 
 #[derive(Serialize, PartialEq, Default, Clone, Debug)]
 pub struct ElementMetadata {
+    #[serde(serialize_with = "sorted_map")]
     pub attributes: HashMap<String, String>,
     pub options: Vec<String>,
     pub roles: Vec<String>,
diff --git a/src/graph/mod.rs b/src/graph/mod.rs
index d6c23fa..d69f111 100644
--- a/src/graph/mod.rs
+++ b/src/graph/mod.rs
@@ -6,6 +6,10 @@
 //! graph itself, are serializeable with `serde`, giving us JSON output (as required by the
 //! Technology Compatibility Kit) and making certain templating tasks simpler.
 
+use std::collections::{BTreeMap, HashMap};
+
+use serde::{Serialize, Serializer};
+
 pub mod asg;
 pub mod blocks;
 pub mod inlines;
@@ -13,3 +17,17 @@ pub mod lists;
 pub mod metadata;
 pub mod nodes;
 pub mod substitutions;
+
+/// Serializes a map in key order, since the iteration order of a `HashMap` differs between runs
+fn sorted_map<S: Serializer>(map: &HashMap<String, String>, ser: S) -> Result<S::Ok, S::Error> {
+    map.iter().collect::<BTreeMap<_, _>>().serialize(ser)
+}
+
+fn sorted_optional_map<S: Serializer>(
+    map: &Option<HashMap<String, String>>,
+    ser: S,
+) -> Result<S::Ok, S::Error> {
+    map.as_ref()
+        .map(|map| map.iter().collect::<BTreeMap<_, _>>())
+        .serialize(ser)
+}
-- 
2.43.0


From 3e92b0a2cd6f541158c60611be7a92cdab831c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:50 +0000
Subject: [PATCH 13/31] fix: do not print trimmed inlines to standard output

---
 src/graph/inlines.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 1b142f0..30c9925 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -204,7 +204,6 @@ impl Inline {
     pub fn trim(&mut self) {
         if let Inline::InlineLiteral(inline) = self {
             inline.value = inline.value.trim().to_string();
-            println!("{:?}", inline.value)
         }
     }
 
-- 
2.43.0


From e4e09308405d60d346c9da3bc37312b45b07fead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:35:51 +0000
Subject: [PATCH 14/31] fix: write log messages to standard error

Warnings ended up in the middle of a document converted to standard output.
simple_logger only writes to standard error with an additional crate feature,
so the binary now brings its own few lines of logger.
---
 src/bin/asciidocr/main.rs | 39 +++++++++++++++++++++++++++++++--------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index 87af86f..c636d8d 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -2,8 +2,12 @@ mod cli;
 
 use anyhow::Result;
 use clap::Parser;
-use simple_logger::SimpleLogger;
-use std::{fs, path::PathBuf};
+use log::{LevelFilter, Log, Metadata, Record};
+use std::{
+    fs,
+    io::{Write, stderr},
+    path::PathBuf,
+};
 
 use asciidocr::{
     backends::{Backends, htmls::render_htmlbook},
@@ -16,13 +20,32 @@ use asciidocr::backends::docx::render_docx;
 
 use cli::{Cli, read_input, read_output};
 
+/// Keeps log messages out of standard output, which may be where the document goes
+struct StderrLogger;
+
+impl Log for StderrLogger {
+    fn enabled(&self, metadata: &Metadata) -> bool {
+        metadata.level() <= log::max_level()
+    }
+
+    fn log(&self, record: &Record) {
+        if self.enabled(record.metadata()) {
+            let _ = writeln!(
+                stderr(),
+                "{:<5} [{}] {}",
+                record.level(),
+                record.target(),
+                record.args()
+            );
+        }
+    }
+
+    fn flush(&self) {}
+}
+
 fn main() {
-    SimpleLogger::new()
-        .with_level(log::LevelFilter::Warn)
-        .with_colors(true)
-        .without_timestamps()
-        .init()
-        .unwrap();
+    log::set_logger(&StderrLogger).unwrap();
+    log::set_max_level(LevelFilter::Warn);
     let args = Cli::parse();
 
     if let Err(e) = run(args) {
-- 
2.43.0


From 526c88198db09d2cabfc0707bda4b892319e93d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:13 +0000
Subject: [PATCH 15/31] fix: read docx images from where the parser found them

The docx backend opened image targets relative to the current directory, while
the parser looks for them next to the document.
---
 src/backends/docx/document.rs |  5 ++++-
 src/graph/blocks.rs           |  6 +++++-
 src/parser.rs                 | 16 +++++++++-------
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index 79d579c..d545746 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -348,7 +348,10 @@ impl DocxWriter {
         block: &BlockMacro,
     ) -> Result<Docx, DocxRenderError> {
         if matches!(block.name, BlockMacroName::Image) {
-            let mut img = File::open(block.target.clone())?;
+            let mut img = match &block.resolved_target {
+                Some(path) => File::open(path)?,
+                None => File::open(&block.target)?,
+            };
             let mut buf = vec![];
             let _ = img.read_to_end(&mut buf)?;
             let pic = Pic::new(&buf);
diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 75e0564..8b66c67 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -1,5 +1,5 @@
 use log::warn;
-use std::{collections::HashMap, fmt::Display};
+use std::{collections::HashMap, fmt::Display, path::PathBuf};
 
 use serde::Serialize;
 
@@ -902,6 +902,9 @@ pub struct BlockMacro {
     node_type: NodeTypes,
     form: String,
     pub target: String,
+    /// Where the target was found, if the parser looked for it
+    #[serde(skip)]
+    pub resolved_target: Option<PathBuf>,
     #[serde(skip_serializing_if = "Vec::is_empty")]
     pub caption: Vec<Inline>,
     #[serde(skip_serializing_if = "Option::is_none")]
@@ -936,6 +939,7 @@ impl BlockMacro {
             node_type: NodeTypes::Block,
             form: "macro".to_string(),
             target,
+            resolved_target: None,
             caption: vec![],
             metadata,
             location,
diff --git a/src/parser.rs b/src/parser.rs
index 72feacf..c252547 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -879,8 +879,9 @@ impl Parser {
 
     fn parse_block_image(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         let (target, metadata) = target_and_attrs_from_token(&token);
-        self.check_target(token.line, &target)?;
+        let resolved_target = self.check_target(token.line, &target)?;
         let mut image_block = BlockMacro::new_image_block(target, metadata, token.locations());
+        image_block.resolved_target = resolved_target;
         if let Some(metadata) = &self.metadata {
             // TODO see if there is a cleaner way to manage the borrowing here.
             image_block = image_block.add_metadata(metadata);
@@ -1506,14 +1507,15 @@ impl Parser {
         Ok(())
     }
 
-    fn check_target(&self, token_line: usize, target: &str) -> Result<(), ParserError> {
+    fn check_target(
+        &self,
+        token_line: usize,
+        target: &str,
+    ) -> Result<Option<PathBuf>, ParserError> {
         if self.resolve_targets {
-            match self.resolve_target(token_line, target) {
-                Ok(_) => Ok(()),
-                Err(e) => Err(e),
-            }
+            self.resolve_target(token_line, target).map(Some)
         } else {
-            Ok(())
+            Ok(None)
         }
     }
 
-- 
2.43.0


From afea484d970ce7f92cef5b309bf72228f556d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:36:45 +0000
Subject: [PATCH 16/31] fix: report command line I/O errors without panicking

Standard input that is not UTF-8, an output that cannot be written and a failed
docx conversion ended in a panic message. They are now reported like any other
conversion error.
---
 src/bin/asciidocr/cli.rs  |  8 +++++++-
 src/bin/asciidocr/main.rs | 21 ++++++++-------------
 2 files changed, 15 insertions(+), 14 deletions(-)

diff --git a/src/bin/asciidocr/cli.rs b/src/bin/asciidocr/cli.rs
index a4f759e..b8a0bea 100644
--- a/src/bin/asciidocr/cli.rs
+++ b/src/bin/asciidocr/cli.rs
@@ -32,7 +32,13 @@ pub struct Cli {
 
 pub fn read_input(args: &Cli) -> String {
     match args.file.as_str() {
-        "-" => io::read_to_string(io::stdin()).expect("Error reading from stdin"),
+        "-" => match io::read_to_string(io::stdin()) {
+            Ok(stdin_string) => stdin_string,
+            Err(e) => {
+                warn!("Error reading from stdin: {e}");
+                std::process::exit(1)
+            }
+        },
         _ => match fs::read_to_string(args.file.as_str()) {
             Ok(file_string) => file_string,
             Err(e) => {
diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index c636d8d..beaf252 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -1,6 +1,6 @@
 mod cli;
 
-use anyhow::Result;
+use anyhow::{Context, Result};
 use clap::Parser;
 use log::{LevelFilter, Log, Metadata, Record};
 use std::{
@@ -49,7 +49,7 @@ fn main() {
     let args = Cli::parse();
 
     if let Err(e) = run(args) {
-        eprintln!("Error converting document: {}", e);
+        eprintln!("Error converting document: {:#}", e);
         std::process::exit(1)
     }
 }
@@ -67,14 +67,8 @@ fn run(args: Cli) -> Result<()> {
     }
 
     match args.backend {
-        Backends::Htmlbook => {
-            render_string(render_htmlbook(&graph)?, read_output(args));
-            Ok(())
-        }
-        Backends::Json => {
-            render_string(serde_json::to_string_pretty(&graph)?, read_output(args));
-            Ok(())
-        }
+        Backends::Htmlbook => render_string(render_htmlbook(&graph)?, read_output(args)),
+        Backends::Json => render_string(serde_json::to_string_pretty(&graph)?, read_output(args)),
 
         #[cfg(feature = "docx")]
         Backends::Docx => {
@@ -86,7 +80,7 @@ fn run(args: Cli) -> Result<()> {
             }
 
             if let Some(output_path) = read_output(args) {
-                render_docx(&graph, &output_path).expect("Error rendering docx");
+                render_docx(&graph, &output_path)?;
                 Ok(())
             } else {
                 eprintln!("Error: can't send docx backend to stdout");
@@ -96,9 +90,10 @@ fn run(args: Cli) -> Result<()> {
     }
 }
 
-fn render_string(result: String, output_destination: Option<PathBuf>) {
+fn render_string(result: String, output_destination: Option<PathBuf>) -> Result<()> {
     match output_destination {
-        Some(out_file) => fs::write(out_file, result).expect("Error writng file"),
+        Some(out_file) => fs::write(out_file, result).context("Error writing file")?,
         None => println!("{}", result),
     }
+    Ok(())
 }
-- 
2.43.0


From f6ef7aeaefca7a20c2170d3ee90e1278c035dfa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:05:43 +0000
Subject: [PATCH 17/31] fix: name the image that cannot be read for docx output

The error only said that a file does not exist, without saying which.
---
 src/backends/docx/document.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index d545746..fe9912f 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -52,6 +52,8 @@ pub fn asciidocr_default_docx() -> Docx {
 pub enum DocxRenderError {
     #[error(transparent)]
     FileError(#[from] std::io::Error),
+    #[error("Docx error: could not read image {0}: {1}")]
+    ImageError(String, #[source] std::io::Error),
     #[error("Docx error: Invalid column designation")]
     ColumnError,
     #[error("Docx error: error writing file")]
@@ -348,12 +350,14 @@ impl DocxWriter {
         block: &BlockMacro,
     ) -> Result<Docx, DocxRenderError> {
         if matches!(block.name, BlockMacroName::Image) {
+            let image_error = |e| DocxRenderError::ImageError(block.target.clone(), e);
             let mut img = match &block.resolved_target {
-                Some(path) => File::open(path)?,
-                None => File::open(&block.target)?,
-            };
+                Some(path) => File::open(path),
+                None => File::open(&block.target),
+            }
+            .map_err(image_error)?;
             let mut buf = vec![];
-            let _ = img.read_to_end(&mut buf)?;
+            let _ = img.read_to_end(&mut buf).map_err(image_error)?;
             let pic = Pic::new(&buf);
             docx = docx.add_paragraph(Paragraph::new().add_run(Run::new().add_image(pic)));
         } else {
-- 
2.43.0


From 5297350d4a97eb87abbb1396bcc456008d955e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:20 +0000
Subject: [PATCH 18/31] fix: do not panic on delimited blocks attached to list
 items

A listing or literal block after a list continuation was moved into the
list item before its end was seen, so closing it hit a todo!().
---
 src/parser.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/parser.rs b/src/parser.rs
index c252547..327f8df 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -1100,7 +1100,10 @@ impl Parser {
         } else {
             self.open_parse_after_as_text_type = Some(token.token_type());
             let block = LeafBlock::new_from_token(token)?;
+            // a continued block stays on the stack until it is closed, so that it gets its lines
+            let in_block_continuation = std::mem::take(&mut self.in_block_continuation);
             self.push_block_to_stack(Block::LeafBlock(block))?;
+            self.in_block_continuation = in_block_continuation;
             // note that we're to just add
             self.force_new_block = false;
             Ok(())
-- 
2.43.0


From 61ebccfbd3969014a45946962f6d582f1c8c3505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:34:06 +0000
Subject: [PATCH 19/31] fix: do not panic when a block left open by an include
 is closed

With a section heading before the include, the delimiter that follows it
met the section instead of the open block and hit a todo!().
---
 src/graph/blocks.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 8b66c67..7cd6a91 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -615,7 +615,8 @@ impl Block {
             Block::LeafBlock(block) => {
                 block.location = Location::reconcile(block.location.clone(), locations)
             }
-            _ => todo!(),
+            // only delimited leaf blocks are extended by their closing delimiter
+            _ => (),
         }
     }
 
-- 
2.43.0


From 9cc940c4520415f3066e9597a760c591a27e6e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:25 +0000
Subject: [PATCH 20/31] fix: end links at the end of the line

---
 src/scanner/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/scanner/mod.rs b/src/scanner/mod.rs
index 448cadd..94b4167 100644
--- a/src/scanner/mod.rs
+++ b/src/scanner/mod.rs
@@ -550,19 +550,19 @@ impl<'a> Scanner<'a> {
     /// Adds the link, consuming the target but not any attributes
     fn add_link(&mut self) -> Result<Token, ScannerError> {
         let hyperlink_allowed_punctuation = ['.', '#', ':', '/', '?', '=', '&'];
-        while !['\0', ' '].contains(&self.peek()) && !self.peek().is_ascii_punctuation() {
+        while !['\0', ' ', '\n'].contains(&self.peek()) && !self.peek().is_ascii_punctuation() {
             self.current += 1
         }
         // it's an attribute-styled link
         if self.peek() == '[' {
             self.current += 1; // consume the '[' char
             self.add_token(TokenType::LinkMacro, true, 0)
-        } else if ['\0', ' '].contains(&self.peek()) {
+        } else if ['\0', ' ', '\n'].contains(&self.peek()) {
             self.add_token(TokenType::Hyperlink, true, 0)
         } else if hyperlink_allowed_punctuation.contains(&self.peek()) {
             // if it's at the end of a sentence
             if let Some(second_char) = self.peeks_ahead(2).chars().last() {
-                if ['\0', ' '].contains(&second_char) {
+                if ['\0', ' ', '\n'].contains(&second_char) {
                     self.add_token(TokenType::Hyperlink, true, 0)
                 } else {
                     // otherwise it contains an allowed url punctuation character
-- 
2.43.0


From 8aefe717d6a86942f74f98dca984e5e4a48312c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:00:47 +0000
Subject: [PATCH 21/31] fix: pack docx files in memory before writing them

---
 src/backends/docx/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/backends/docx/mod.rs b/src/backends/docx/mod.rs
index 0c73379..716a6be 100644
--- a/src/backends/docx/mod.rs
+++ b/src/backends/docx/mod.rs
@@ -4,7 +4,7 @@ pub mod numbering;
 pub mod styles;
 pub mod units;
 
-use std::{fs::File, path::Path};
+use std::{fs, io::Cursor, path::Path};
 
 use docx_rs::Paragraph;
 
@@ -31,10 +31,12 @@ pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionErro
     for block in graph.blocks.iter() {
         docx = writer.add_block_to_doc(docx, block)?
     }
-    // only touch the output once there is something to write
-    let file = File::create(output_path).map_err(DocxRenderError::FileError)?;
-    match docx.build().pack(file) {
-        Ok(_) => Ok(()),
-        Err(_) => Err(ConversionError::DocxRender(DocxRenderError::ZipFileError)),
+    // packed in memory first, since the archive writer panics on outputs that cannot seek, and so
+    // that the output is only touched once there is something to write
+    let mut packed = Cursor::new(vec![]);
+    if docx.build().pack(&mut packed).is_err() {
+        return Err(ConversionError::DocxRender(DocxRenderError::ZipFileError));
     }
+    fs::write(output_path, packed.into_inner()).map_err(DocxRenderError::FileError)?;
+    Ok(())
 }
-- 
2.43.0


From 5c98b4ba14df60c6a739780a5b7c154001675d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:01:08 +0000
Subject: [PATCH 22/31] fix: render one docx document at a time

---
 src/backends/docx/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/mod.rs b/src/backends/docx/mod.rs
index 716a6be..1a89c1b 100644
--- a/src/backends/docx/mod.rs
+++ b/src/backends/docx/mod.rs
@@ -4,7 +4,7 @@ pub mod numbering;
 pub mod styles;
 pub mod units;
 
-use std::{fs, io::Cursor, path::Path};
+use std::{fs, io::Cursor, path::Path, sync::Mutex};
 
 use docx_rs::Paragraph;
 
@@ -13,8 +13,12 @@ use crate::graph::asg::Asg;
 
 use self::document::DocxRenderError;
 
+/// Paragraphs and pictures are numbered process-wide by the docx library
+static NUMBERING: Mutex<()> = Mutex::new(());
+
 /// !Experimental! Renders a Docx file. Some [`Asg`] blocks are still unsupported.
 pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionError> {
+    let _numbering = NUMBERING.lock().unwrap_or_else(|e| e.into_inner());
     let mut writer = document::DocxWriter::new();
     let mut docx = document::asciidocr_default_docx();
 
-- 
2.43.0


From a6a2fa11d76d695d1a296066e603514cc0cace75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:12:37 +0000
Subject: [PATCH 23/31] fix: refuse blocks and spans nested too deeply for the
 stack

---
 src/errors.rs        |  2 ++
 src/graph/blocks.rs  | 20 ++++++++++++++++++++
 src/graph/inlines.rs |  8 ++++++++
 src/parser.rs        |  8 +++++++-
 4 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/errors.rs b/src/errors.rs
index e0c7bfd..8cb6514 100644
--- a/src/errors.rs
+++ b/src/errors.rs
@@ -100,6 +100,8 @@ pub enum BlockError {
     InvalidToken,
     #[error("Footnote error: {0}")]
     Footnote(String),
+    #[error("Blocks or spans nested too deeply")]
+    NestingDepth,
 }
 
 #[derive(thiserror::Error, PartialEq, Debug)]
diff --git a/src/graph/blocks.rs b/src/graph/blocks.rs
index 7cd6a91..05d34c2 100644
--- a/src/graph/blocks.rs
+++ b/src/graph/blocks.rs
@@ -59,6 +59,9 @@ impl Display for Block {
     }
 }
 
+/// How deep blocks may be nested; the backends recurse into them
+const MAX_BLOCK_DEPTH: usize = 128;
+
 impl Block {
     pub fn last_inline(&mut self) -> Option<&mut Inline> {
         match self {
@@ -67,7 +70,24 @@ impl Block {
         }
     }
 
+    /// The number of levels of blocks, including this one
+    fn depth(&self) -> usize {
+        let blocks = match self {
+            Block::Section(section) => &section.blocks,
+            Block::List(list) => &list.items,
+            Block::DList(list) => &list.items,
+            Block::ListItem(list_item) => &list_item.blocks,
+            Block::DListItem(list_item) => &list_item.blocks,
+            Block::ParentBlock(parent_block) => &parent_block.blocks,
+            _ => return 1,
+        };
+        1 + blocks.iter().map(|block| block.depth()).max().unwrap_or(0)
+    }
+
     pub fn push_block(&mut self, block: Block) -> Result<(), BlockError> {
+        if block.depth() >= MAX_BLOCK_DEPTH {
+            return Err(BlockError::NestingDepth);
+        }
         match self {
             Block::Section(section) => {
                 if block.is_section() {
diff --git a/src/graph/inlines.rs b/src/graph/inlines.rs
index 30c9925..142ebe4 100644
--- a/src/graph/inlines.rs
+++ b/src/graph/inlines.rs
@@ -381,6 +381,14 @@ impl InlineSpan {
         }
     }
 
+    /// The number of open spans inside this one
+    pub(crate) fn open_depth(&self) -> usize {
+        match self.inlines.last() {
+            Some(Inline::InlineSpan(span)) if span.open => 1 + span.open_depth(),
+            _ => 0,
+        }
+    }
+
     pub fn add_inline(&mut self, inline: Inline) {
         // update the locations
         self.location = Location::reconcile(self.location.clone(), inline.locations());
diff --git a/src/parser.rs b/src/parser.rs
index 327f8df..4ce502e 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -11,7 +11,7 @@ use log::warn;
 
 use crate::scanner::tokens::{Token, TokenType};
 use crate::{
-    errors::{ParserError, ScannerError},
+    errors::{BlockError, ParserError, ScannerError},
     scanner::Scanner,
 };
 use crate::{
@@ -29,6 +29,9 @@ use crate::{
 /// How deep includes may be nested, following asciidoctor's default
 const MAX_INCLUDE_DEPTH: usize = 64;
 
+/// How deep inline spans may be nested; the backends recurse into them
+const MAX_SPAN_DEPTH: usize = 32;
+
 /// Parses a stream of tokens into an [`Asg`] (Abstract Syntax Graph), returning the graph once all
 /// tokens have been parsed.
 #[derive(Debug)]
@@ -832,6 +835,9 @@ impl Parser {
                 self.in_inline_span = false;
                 return Ok(());
             } else if let Inline::InlineSpan(last_span) = last_inline {
+                if last_span.open_depth() >= MAX_SPAN_DEPTH {
+                    return Err(BlockError::NestingDepth.into());
+                }
                 if let Some(last_internal_inline) = last_span.inlines.last_mut() {
                     if inline == *last_internal_inline {
                         last_internal_inline.reconcile_locations(inline.locations());
-- 
2.43.0


From 039e7bd28a196177e21290a24332bf82f325831f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:18:04 +0000
Subject: [PATCH 24/31] fix: give the docx writer a stack for deeply nested
 blocks

---
 src/backends/docx/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/mod.rs b/src/backends/docx/mod.rs
index 1a89c1b..538af0b 100644
--- a/src/backends/docx/mod.rs
+++ b/src/backends/docx/mod.rs
@@ -4,7 +4,7 @@ pub mod numbering;
 pub mod styles;
 pub mod units;
 
-use std::{fs, io::Cursor, path::Path, sync::Mutex};
+use std::{fs, io::Cursor, panic, path::Path, sync::Mutex, thread};
 
 use docx_rs::Paragraph;
 
@@ -16,8 +16,23 @@ use self::document::DocxRenderError;
 /// Paragraphs and pictures are numbered process-wide by the docx library
 static NUMBERING: Mutex<()> = Mutex::new(());
 
+/// The document is passed by value through the writer's recursion, which the usual stack only
+/// has room for a dozen nested blocks of
+const STACK_SIZE: usize = 128 << 20;
+
 /// !Experimental! Renders a Docx file. Some [`Asg`] blocks are still unsupported.
 pub fn render_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionError> {
+    thread::scope(|scope| {
+        thread::Builder::new()
+            .stack_size(STACK_SIZE)
+            .spawn_scoped(scope, || write_docx(graph, output_path))
+            .map_err(DocxRenderError::FileError)?
+            .join()
+            .unwrap_or_else(|cause| panic::resume_unwind(cause))
+    })
+}
+
+fn write_docx(graph: &Asg, output_path: &Path) -> Result<(), ConversionError> {
     let _numbering = NUMBERING.lock().unwrap_or_else(|e| e.into_inner());
     let mut writer = document::DocxWriter::new();
     let mut docx = document::asciidocr_default_docx();
-- 
2.43.0


From 35d03d46ed3b70840f524f3d9c9bc6e8ed033150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:51 +0000
Subject: [PATCH 25/31] fix: do not overflow heading level offsets

---
 src/parser.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 4ce502e..f81ac0b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -394,7 +394,7 @@ impl Parser {
             match value.parse::<i8>() {
                 // absolute value
                 Ok(value) => {
-                    self.level_offset += value;
+                    self.level_offset = self.level_offset.saturating_add(value);
                     Ok(())
                 }
                 // relative value, or error
@@ -783,10 +783,10 @@ impl Parser {
     fn get_heading_level(&self, token: &Token) -> Result<usize, ParserError> {
         let level: i8 = match token.token_type() {
             TokenType::Heading1 => self.level_offset,
-            TokenType::Heading2 => 1 + self.level_offset,
-            TokenType::Heading3 => 2 + self.level_offset,
-            TokenType::Heading4 => 3 + self.level_offset,
-            TokenType::Heading5 => 4 + self.level_offset,
+            TokenType::Heading2 => self.level_offset.saturating_add(1),
+            TokenType::Heading3 => self.level_offset.saturating_add(2),
+            TokenType::Heading4 => self.level_offset.saturating_add(3),
+            TokenType::Heading5 => self.level_offset.saturating_add(4),
             _ => {
                 return Err(ParserError::InternalError(
                     "Inavlid token given to parse_section_headings".to_string(),
-- 
2.43.0


From 9ff85aad3aa0192ee5b663399871e8f64117ff9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:53 +0000
Subject: [PATCH 26/31] fix: do not follow line ranges past the end of the
 included file

---
 src/parser.rs | 21 +++++++++++++--------
 src/utils.rs  | 14 ++++++++++----
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index f81ac0b..89ae00b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -23,7 +23,7 @@ use crate::{
         metadata::{AttributeType, ElementMetadata},
         nodes::{Header, Location},
     },
-    utils::{extract_page_ranges, target_and_attrs_from_token},
+    utils::{extract_page_ranges_to, target_and_attrs_from_token},
 };
 
 /// How deep includes may be nested, following asciidoctor's default
@@ -518,6 +518,7 @@ impl Parser {
 
     fn parse_include(&mut self, token: Token, asg: &mut Asg) -> Result<(), ParserError> {
         // placeholders
+        let mut line_ranges: Option<String> = None;
         let mut included_lines: Vec<i32> = vec![];
         let mut include_to_end: bool = false;
         let mut included_tags: Vec<String> = vec![];
@@ -534,13 +535,7 @@ impl Parser {
                 }
             }
             if let Some(value) = metadata.attributes.get("lines") {
-                included_lines = extract_page_ranges(value);
-                if let Some(line) = included_lines.last() {
-                    if *line == -1 {
-                        include_to_end = true;
-                        included_lines.pop();
-                    }
-                }
+                line_ranges = Some(value.clone());
             }
             if let Some(value) = metadata.attributes.get("tag") {
                 included_tags.push(value.clone());
@@ -572,6 +567,16 @@ impl Parser {
         // now parse the file
         let contents = open_file(resolved_target)
             .map_err(|_| ParserError::TargetResolution(token.line, target.clone()))?;
+        if let Some(value) = line_ranges {
+            let last_line = contents.lines().count() as i32 + 1;
+            included_lines = extract_page_ranges_to(&value, last_line);
+            if let Some(line) = included_lines.last() {
+                if *line == -1 {
+                    include_to_end = true;
+                    included_lines.pop();
+                }
+            }
+        }
         for result in Scanner::new_with_stack(&contents, self.file_stack.clone()) {
             match result {
                 Ok(token) => {
diff --git a/src/utils.rs b/src/utils.rs
index 1071d73..9f271ae 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -70,6 +70,11 @@ pub fn target_and_attrs_from_token(token: &Token) -> (String, Option<ElementMeta
 
 /// Extracts included page ranges from the "lines=" attribute of an include directive
 pub fn extract_page_ranges(ranges_str: &str) -> Vec<i32> {
+    extract_page_ranges_to(ranges_str, i32::MAX)
+}
+
+/// Extracts page ranges that are not followed any further than the last line
+pub(crate) fn extract_page_ranges_to(ranges_str: &str, last_line: i32) -> Vec<i32> {
     let mut ranges: Vec<i32> = vec![];
 
     let mut captured_ranges = RE_LINE_RANGES.captures_iter(ranges_str).peekable();
@@ -80,14 +85,15 @@ pub fn extract_page_ranges(ranges_str: &str) -> Vec<i32> {
             let start = parts[0].parse::<i32>().unwrap_or(0);
             if parts.len() == 2 {
                 // if there is an end value
-                if let Ok(mut end) = parts[1].parse::<i32>() {
+                if let Ok(end) = parts[1].parse::<i32>() {
                     if end == -1 {
                         // if we're reading to the end, read to the end
                         ranges.push(start);
                         ranges.push(-1);
-                    } else {
-                        end += 1; // because we want an inclusive range 
-                        ranges.extend(start..end)
+                    } else if start <= end {
+                        // an inclusive range, with its start even if that is past the last line
+                        ranges.push(start);
+                        ranges.extend(start.max(0).saturating_add(1)..=end.min(last_line))
                     }
                 } else if captured_ranges.peek().is_none() {
                     ranges.push(start);
-- 
2.43.0


From 6079df875cf26635fcf9fefdee7a062ddb3a7ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:25 +0000
Subject: [PATCH 27/31] fix: accept a multi-byte character as column
 specification

---
 src/graph/metadata.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/graph/metadata.rs b/src/graph/metadata.rs
index 4ac5dc6..e997404 100644
--- a/src/graph/metadata.rs
+++ b/src/graph/metadata.rs
@@ -239,7 +239,7 @@ impl ElementMetadata {
                     "cols".to_string(),
                     format!("{}", cols_value.split(',').collect::<Vec<&str>>().len()),
                 );
-            } else if cols_value.len() == 2 && cols_value[1..] == *"*" {
+            } else if cols_value.len() == 2 && cols_value.ends_with('*') {
                 self.attributes
                     .insert("cols".to_string(), cols_value[..1].to_string());
             }
-- 
2.43.0


From d978b4b334d33c975e92f857bbcb1f85b72b5c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:59:27 +0000
Subject: [PATCH 28/31] fix: do not give up on code callouts when icons are set

---
 src/parser.rs | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 89ae00b..9caadd0 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -989,14 +989,7 @@ impl Parser {
     }
 
     fn parse_code_callout(&mut self, token: Token) -> Result<(), ParserError> {
-        if let Some(value) = self.document_attributes.get("icons") {
-            if value == "true" {
-                if let Some(_last_inline) = self.inline_stack.back_mut() {
-                    // handle deleting comment markup, IF we're handling icons
-                    todo!();
-                }
-            }
-        }
+        // TODO handle deleting comment markup, IF we're handling icons
         self.inline_stack
             .push_back(Inline::InlineSpan(InlineSpan::inline_span_from_token(
                 token,
-- 
2.43.0


From 0e0b1075d82a47230d1b2e6bba8257547f7e7add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:15:18 +0000
Subject: [PATCH 29/31] fix: do not count table header columns past the last
 cell

---
 templates/htmlbook/tables.html.tera | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/templates/htmlbook/tables.html.tera b/templates/htmlbook/tables.html.tera
index 9d3c056..d0739f4 100644
--- a/templates/htmlbook/tables.html.tera
+++ b/templates/htmlbook/tables.html.tera
@@ -6,6 +6,10 @@
 {%- if "header" in block.metadata.options -%}
 {%- set header = true -%}
 {%- set body_start = cols -%}
+{#- There are no cells to look at beyond the last one -#}
+{%- if body_start > block.blocks | length -%}
+{%- set body_start = block.blocks | length -%}
+{%- endif -%}
 {%- endif -%}
     <table>{% if header %}
     <thead>
-- 
2.43.0


From d0e44266913d0c707999701062c5286b0da218fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:32:41 +0000
Subject: [PATCH 30/31] fix: let a footnote's docx warning fail without the
 conversion

---
 src/backends/docx/document.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/backends/docx/document.rs b/src/backends/docx/document.rs
index fe9912f..533a926 100644
--- a/src/backends/docx/document.rs
+++ b/src/backends/docx/document.rs
@@ -4,6 +4,7 @@ use docx_rs::{
     BreakType, Docx, Header, IndentLevel, LineSpacing, Numbering, NumberingId, PageMargin, PageNum,
     Paragraph, Pic, Run, RunFonts, RunProperty, Style, Table, TableCell, TableRow, VertAlignType,
 };
+use log::warn;
 use once_cell::sync::Lazy;
 use regex::Regex;
 
@@ -461,7 +462,7 @@ impl DocxWriter {
                                     RunProperty::new().vert_align(VertAlignType::SuperScript)
                             }
                             InlineSpanVariant::Footnote => {
-                                eprintln!(
+                                warn!(
                                     "Footnotes are not well supported; footnote text will be included in-line and higlighted for the time being."
                                 );
                                 run = run.highlight("blue")
-- 
2.43.0


From 128d1deecc86d1c3abfacb8c81d207384d6bfa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:34:03 +0000
Subject: [PATCH 31/31] fix: report an output stream that cannot be written
 instead of panicking

---
 src/bin/asciidocr/main.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bin/asciidocr/main.rs b/src/bin/asciidocr/main.rs
index beaf252..c1159b7 100644
--- a/src/bin/asciidocr/main.rs
+++ b/src/bin/asciidocr/main.rs
@@ -5,7 +5,7 @@ use clap::Parser;
 use log::{LevelFilter, Log, Metadata, Record};
 use std::{
     fs,
-    io::{Write, stderr},
+    io::{Write, stderr, stdout},
     path::PathBuf,
 };
 
@@ -63,7 +63,8 @@ fn run(args: Cli) -> Result<()> {
         }
     };
     if args.count {
-        println!("{} words in {}", graph.word_count(), args.file)
+        writeln!(stdout(), "{} words in {}", graph.word_count(), args.file)
+            .context("Error writing output")?
     }
 
     match args.backend {
@@ -93,7 +94,7 @@ fn run(args: Cli) -> Result<()> {
 fn render_string(result: String, output_destination: Option<PathBuf>) -> Result<()> {
     match output_destination {
         Some(out_file) => fs::write(out_file, result).context("Error writing file")?,
-        None => println!("{}", result),
+        None => writeln!(stdout(), "{}", result).context("Error writing output")?,
     }
     Ok(())
 }
-- 
2.43.0

