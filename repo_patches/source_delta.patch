From c767aa4c64357f2d21ac6390eaf97f7571947ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:23 +0000
Subject: [PATCH 01/59] fix: don't spin forever on a block anchor or literal
 style with no following block

---
 parser/src/blocks/block.rs    | 51 ++++++++++++++++++-----------------
 parser/src/blocks/metadata.rs |  4 +--
 2 files changed, 28 insertions(+), 27 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 6d43cb1..b0470a5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -284,32 +284,33 @@ impl<'src> Block<'src> {
                     warnings,
                 };
             }
+        }
 
-            // First, let's look for a fun edge case. Perhaps the text contains block
-            // metadata but no block immediately following. If we're not careful, we could
-            // spin in a loop (for example, `parse_blocks_until`) thinking there will be
-            // another block, but there isn't.
-
-            // The following check disables that spin loop.
-            let simple_block_mi = SimpleBlock::parse(&metadata, parser);
-
-            if simple_block_mi.is_none() && !metadata.is_empty() {
-                // We have a metadata with no block. Treat it as a simple block but issue a
-                // warning.
-
-                warnings.push(Warning {
-                    source: metadata.source,
-                    warning: WarningType::MissingBlockAfterTitleOrAttributeList,
-                });
-
-                // Remove the metadata content so that SimpleBlock will read the title/attrlist
-                // line(s) as regular content.
-                metadata.title_source = None;
-                metadata.title = None;
-                metadata.anchor = None;
-                metadata.attrlist = None;
-                metadata.block_start = metadata.source;
-            }
+        // First, let's look for a fun edge case. Perhaps the text contains block
+        // metadata but no block immediately following. If we're not careful, we could
+        // spin in a loop (for example, `parse_blocks_until`) thinking there will be
+        // another block, but there isn't.
+
+        // The following check disables that spin loop.
+        let simple_block_mi = SimpleBlock::parse(&metadata, parser);
+
+        if simple_block_mi.is_none() && !metadata.is_empty() {
+            // We have a metadata with no block. Treat it as a simple block but issue a
+            // warning.
+
+            warnings.push(Warning {
+                source: metadata.source,
+                warning: WarningType::MissingBlockAfterTitleOrAttributeList,
+            });
+
+            // Remove the metadata content so that SimpleBlock will read the title/attrlist
+            // line(s) as regular content.
+            metadata.title_source = None;
+            metadata.title = None;
+            metadata.anchor = None;
+            metadata.anchor_reftext = None;
+            metadata.attrlist = None;
+            metadata.block_start = metadata.source;
         }
 
         // If no other block kind matches, we can always use SimpleBlock.
diff --git a/parser/src/blocks/metadata.rs b/parser/src/blocks/metadata.rs
index dc0df46..1f6f81a 100644
--- a/parser/src/blocks/metadata.rs
+++ b/parser/src/blocks/metadata.rs
@@ -171,9 +171,9 @@ impl<'src> BlockMetadata<'src> {
         }
     }
 
-    /// Return `true` if both `title` and `attrlist` are empty.
+    /// Return `true` if `title`, `anchor`, and `attrlist` are all empty.
     pub(crate) fn is_empty(&self) -> bool {
-        self.title.is_none() && self.attrlist.is_none()
+        self.title.is_none() && self.anchor.is_none() && self.attrlist.is_none()
     }
 
     /// Return `true` if this block metadata has either the `discrete` or
-- 
2.43.0


From 714584f954b680bd05d77746ea586003f3eacefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:20 +0000
Subject: [PATCH 02/59] fix: don't spin forever on empty lines at the end of
 input after a delimited block

---
 parser/src/blocks/parse_utils.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 269fec4..5f825f6 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -32,7 +32,7 @@ where
         }
 
         if let Some(mi) = maw.item {
-            source = mi.after;
+            source = mi.after.discard_empty_lines();
             blocks.push(mi.item);
         }
     }
-- 
2.43.0


From 3ca141e391dc0f87f7390050865b63aed41e6109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:49 +0000
Subject: [PATCH 03/59] fix: don't spin forever on a line that consists solely
 of Unicode white space

---
 parser/src/blocks/parse_utils.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 5f825f6..48f0a95 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -34,6 +34,10 @@ where
         if let Some(mi) = maw.item {
             source = mi.after.discard_empty_lines();
             blocks.push(mi.item);
+        } else {
+            // No block starts here (for example, this line consists solely of Unicode white
+            // space). Skip the line so we always make progress.
+            source = source.take_line().after.discard_empty_lines();
         }
     }
 
-- 
2.43.0


From e53d68c0452b81cb96d6a0aee3749189a5f0ce4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:35 +0000
Subject: [PATCH 04/59] fix: don't mistake source text for saved passthrough
 markers

---
 parser/src/content/passthroughs.rs | 40 +++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index d8ca641..650428d 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -33,6 +33,33 @@ impl Passthroughs {
         // * passthroughs => self.saved_spans
         // * old_behavior => appears to affect the entire span
 
+        // If the text happens to contain the character that we use to mark saved
+        // passthroughs, save that character as well so it can't be mistaken for one of
+        // our own markers later.
+        {
+            let text = content.rendered.as_ref();
+            if text.contains('\u{96}') {
+                let mut new_result = String::with_capacity(text.len());
+
+                for (i, part) in text.split('\u{96}').enumerate() {
+                    if i > 0 {
+                        passthroughs.push(
+                            Passthrough {
+                                text: "\u{96}".to_owned(),
+                                subs: SubstitutionGroup::None,
+                                type_: None,
+                                attrlist: None,
+                            },
+                            &mut new_result,
+                        );
+                    }
+                    new_result.push_str(part);
+                }
+
+                content.rendered = new_result.into();
+            }
+        }
+
         {
             let text = content.rendered.as_ref();
             if text.contains("++") || text.contains("$$") || text.contains("ss:") {
@@ -67,7 +94,7 @@ impl Passthroughs {
             return;
         }
 
-        let replacer = PassthroughRestoreReplacer(self, parser);
+        let replacer = PassthroughRestoreReplacer(self, parser, None);
 
         if let Cow::Owned(new_result) =
             PASS_WITH_INDEX.replace_all(content.rendered().as_ref(), replacer)
@@ -431,12 +458,19 @@ impl Replacer for InlinePassReplacer<'_> {
 }
 
 #[derive(Debug)]
-struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser);
+struct PassthroughRestoreReplacer<'p>(&'p Passthroughs, &'p Parser, Option<usize>);
 
 impl Replacer for PassthroughRestoreReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
         let index = caps[1].parse::<usize>().unwrap_or_default();
 
+        // A saved passthrough can only contain passthroughs that were saved before it.
+        // Anything else is content that merely looks like one of our markers.
+        if self.2.is_some_and(|parent_index| index >= parent_index) {
+            dest.push_str(&caps[0]);
+            return;
+        }
+
         let Some(pass) = self.0.0.get(index) else {
             dest.push_str(&format!(
                 "(INTERNAL ERROR: Unresolved passthrough index {index})"
@@ -475,7 +509,7 @@ impl Replacer for PassthroughRestoreReplacer<'_> {
 
         if subbed_text.rendered().contains('\u{96}') {
             // Recursively apply passthrough replacement and write the result.
-            let replacer = PassthroughRestoreReplacer(self.0, self.1);
+            let replacer = PassthroughRestoreReplacer(self.0, self.1, Some(index));
 
             let new_result = PASS_WITH_INDEX.replace_all(subbed_text.rendered().as_ref(), replacer);
 
-- 
2.43.0


From 5be03758c8bdf6634442c1aabf40e49f049cd9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 05/59] fix: don't lose text or panic after a rejected quote
 match

---
 parser/src/internal/regex.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/internal/regex.rs b/parser/src/internal/regex.rs
index a5b0db7..d37ec25 100644
--- a/parser/src/internal/regex.rs
+++ b/parser/src/internal/regex.rs
@@ -37,6 +37,7 @@ pub fn replace_with_lookahead<'h, LR: LookaheadReplacer>(
                 LookaheadResult::SkipAheadAndRetry(n) => {
                     assert!(n > 0);
                     haystack = &haystack[m.start() + n..];
+                    last_match = 0;
                     continue 'retry;
                 }
             }
-- 
2.43.0


From 60229612b3fa059846118ca15e81351062d54bd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:48 +0000
Subject: [PATCH 06/59] fix: don't panic when a rejected monospaced match
 follows a multi-byte character

---
 parser/src/content/substitution_step.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 7215f7e..af1f2ec 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -316,7 +316,11 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
             && self.scope == QuoteScope::Constrained
             && after.starts_with(['"', '\'', '`'])
         {
-            let skip_ahead = if caps[0].starts_with('\\') { 2 } else { 1 };
+            let skip_ahead = if caps[0].starts_with('\\') {
+                2
+            } else {
+                caps[0].chars().next().map_or(1, char::len_utf8)
+            };
             dest.push_str(&caps[0][0..skip_ahead]);
             return LookaheadResult::SkipAheadAndRetry(skip_ahead);
         }
-- 
2.43.0


From 9b8fde8d37bb831af22c7b18df467304a5704f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:53 +0000
Subject: [PATCH 07/59] fix: don't panic on an inline image or icon macro
 without a target

---
 parser/src/content/macros.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 0217002..cdf6e41 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -111,9 +111,11 @@ static INLINE_IMAGE_MACRO: LazyLock<Regex> = LazyLock::new(|| {
 
             (                           # Group 1: the target
                 [^:\s\[\n]                  # First char: not colon, whitespace, [, or newline
-                [^\[\n]*?                   # Middle chars: any except [ or newline, lazily
-                [^\s\[\n]                   # Last char: not whitespace, [, or newline
-            )?                          # Entire target group is optional
+                (?:
+                    [^\[\n]*?               # Middle chars: any except [ or newline, lazily
+                    [^\s\[\n]               # Last char: not whitespace, [, or newline
+                )?                      # Only the first char is required
+            )
 
             \[                          # Opening square bracket
 
-- 
2.43.0


From cbb266903695cd8e6f575d7f0acab9895e38c3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:57 +0000
Subject: [PATCH 08/59] fix: don't panic on a link or mailto macro without a
 target

---
 parser/src/content/macros.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index cdf6e41..f2b1f45 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -448,15 +448,21 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
             return;
         }
 
+        let Some(macro_target) = caps.get(3).map(|m| m.as_str()) else {
+            // There is no target, so there is nothing to link to.
+            dest.push_str(&caps[0]);
+            return;
+        };
+
         let (mailto, mailto_text, mut target) = if caps.get(1).is_some() {
-            let mailto_text = &caps[3];
+            let mailto_text = macro_target;
             (
                 caps.get(1).map(|c| c.as_str()),
                 Some(mailto_text),
                 format!("mailto:{mailto_text}"),
             )
         } else {
-            (None, None, caps[3].to_string())
+            (None, None, macro_target.to_string())
         };
 
         let mut attrlist: Option<Attrlist<'_>> = None;
-- 
2.43.0


From fdd92f1b5da4d1cffb580449054f5963316f6cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:23 +0000
Subject: [PATCH 09/59] fix: render SVG images with the inline or interactive
 option instead of panicking

---
 .../parser/inline_substitution_renderer.rs    | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index dd0ab13..1f4dac7 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -520,21 +520,25 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
         let img = if format == Some("svg") || params.target.contains(".svg") {
             // NOTE: In the SVG case we may have to ignore the attrs list.
             if params.attrlist.has_option("inline") {
-                todo!(
-                    "Port this: {}",
-                    r#"img = (read_svg_contents node, target) || %(<span class="alt">#{node.alt}</span>)
-                    NOTE: The attrs list calculated above may not be usable.
-                    "#
-                );
+                // This parser doesn't read the content of SVG files, so fall back to the alt
+                // text, which is what Asciidoctor does if it can't read the file.
+                format!(r#"<span class="alt">{alt}</span>"#, alt = params.alt)
             } else if params.attrlist.has_option("interactive") {
-                todo!(
-                    "Port this: {}",
-                    r##"
-                        fallback = (node.attr? 'fallback') ? %(<img src="#{node.image_uri node.attr 'fallback'}" alt="#{encode_attribute_value node.alt}"#{attrs}#{@void_element_slash}>) : %(<span class="alt">#{node.alt}</span>)
-                        img = %(<object type="image/svg+xml" data="#{src = node.image_uri target}"#{attrs}>#{fallback}</object>)
-                        NOTE: The attrs list calculated above may not be usable.
-                    "##
-                );
+                // `data` takes the place of `src` and the alt text goes into the fallback
+                // element, so those two entries are not repeated here.
+                let attrs: String = attrs[2..].iter().map(|a| format!(" {a}")).collect();
+
+                let fallback = if let Some(fallback) = params.attrlist.named_attribute("fallback") {
+                    format!(
+                        r#"<img src="{src}" alt="{alt}"{attrs}>"#,
+                        src = self.image_uri(fallback.value(), params.parser, None),
+                        alt = encode_attribute_value(params.alt.to_string())
+                    )
+                } else {
+                    format!(r#"<span class="alt">{alt}</span>"#, alt = params.alt)
+                };
+
+                format!(r#"<object type="image/svg+xml" data="{src}"{attrs}>{fallback}</object>"#)
             } else {
                 format!(
                     r#"<img {attrs}{void_element_slash}>"#,
-- 
2.43.0


From 0fb3c1793b8b75a1e7549fff500eeb0041524f24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:12 +0000
Subject: [PATCH 10/59] fix: don't panic on a URL followed by > without a <
 before it

---
 parser/src/content/macros.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index f2b1f45..a7d270a 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -296,7 +296,11 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut target = format!(
             "{scheme}{link_text}",
-            link_text = caps.get(4).map(|m| m.as_str()).unwrap_or_else(|| &caps[7])
+            link_text = caps
+                .get(4)
+                .or_else(|| caps.get(7))
+                .or_else(|| caps.get(6))
+                .map_or("", |m| m.as_str())
         );
 
         let mut suffix = "".to_owned();
@@ -324,8 +328,12 @@ impl Replacer for InlineLinkReplacer<'_> {
                 return;
             }
 
-            let tail = &caps[8];
-            if tail == ";" || tail == ":" {
+            // If there's no trailing character, we found `&gt;` after the URL without the
+            // corresponding `&lt;` before it. It isn't part of the URL.
+            let tail = caps.get(8).map_or("&gt;", |m| m.as_str());
+            if tail == "&gt;" {
+                suffix = tail.to_owned();
+            } else if tail == ";" || tail == ":" {
                 // Move trailing semicolon or colon and adjacent ) if it exists
                 // out of the URL.
                 target.truncate(target.len() - 1);
-- 
2.43.0


From 94a73aacc0dd05b53f088532e1f0d90e74685522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:24 +0000
Subject: [PATCH 11/59] fix: leave a link: prefix with a URL but no brackets
 unchanged, as intended

---
 parser/src/content/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index a7d270a..d6b8fab 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -316,7 +316,7 @@ impl Replacer for InlineLinkReplacer<'_> {
                 link_text = Some(attrlist.as_str().to_owned());
             }
         } else {
-            if prefix == "link" || prefix == "\"" || prefix == "'" {
+            if prefix == "link:" || prefix == "\"" || prefix == "'" {
                 // Note from the Ruby implementation which also applies to this if clause:
 
                 // Invalid macro syntax (link: prefix w/o trailing square brackets or URL
-- 
2.43.0


From e6235895ad7607d9a1245244365ce76f9e81bf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:35 +0000
Subject: [PATCH 12/59] fix: limit the depth of nested include files so a file
 that includes itself can't exhaust the stack

---
 parser/src/parser/preprocessor.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index c3fe096..d3798c8 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -42,6 +42,10 @@ pub(crate) fn preprocess(source: &str, parser: &Parser) -> (String, SourceMap) {
     (state.output, state.source_map)
 }
 
+/// Maximum number of nested include files. (This is the default value of the
+/// `max-include-depth` attribute in Asciidoctor.)
+const MAX_INCLUDE_DEPTH: usize = 64;
+
 #[derive(Debug)]
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
@@ -130,10 +134,16 @@ impl<'p> PreprocessorState<'p> {
                     })
                     .unwrap_or_default();
 
-                if let Some(include_text) =
-                    self.parser.include_file_handler.as_ref().and_then(|ifh| {
-                        ifh.resolve_target(file_name, &target, &attrlist, self.parser)
-                    })
+                // Ignore the directive if include files are nested too deeply. This typically
+                // means that a file includes itself.
+                let include_file_handler = self
+                    .parser
+                    .include_file_handler
+                    .as_ref()
+                    .filter(|_| self.include_depth <= MAX_INCLUDE_DEPTH);
+
+                if let Some(include_text) = include_file_handler
+                    .and_then(|ifh| ifh.resolve_target(file_name, &target, &attrlist, self.parser))
                 {
                     // TODO: Use process_adoc_include or (TBD) depending on
                     // whether it's an Asciidoc file type.
-- 
2.43.0


From e4c42d2378b7f76a2dbdf01f91d706cd578cfee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:40 +0000
Subject: [PATCH 13/59] fix: report the original location of an unresolved
 include directive that comes first in a file

---
 parser/src/parser/preprocessor.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index d3798c8..11717ce 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -152,6 +152,14 @@ impl<'p> PreprocessorState<'p> {
                     // Re-report the including file if there's more content.
                     has_reported_file = false;
                 } else {
+                    if !has_reported_file {
+                        has_reported_file = true;
+                        self.source_map.append(
+                            self.output_line_number,
+                            SourceLine(to_owned(file_name), source_line_number),
+                        );
+                    }
+
                     self.output_line_number += 1;
                     self.output.push_str(&format!(
                         "Unresolved directive in {file_name} - {line}\n",
-- 
2.43.0


From 05ce3f7f1b795549d177ee362d2f4b3c135d8a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:59 +0000
Subject: [PATCH 14/59] fix: recognize an include directive with a single
 character between its brackets

---
 parser/src/parser/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 11717ce..43744bd 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -255,7 +255,7 @@ static INCLUDE_DIRECTIVE: LazyLock<Regex> = LazyLock::new(|| {
 
         \[                          # Literal '[' starting the attributes block
 
-        ([^\]].+)?                  # (2) Optional contents inside brackets (lazy by default)
+        ([^\]].*)?                  # (2) Optional contents inside brackets (lazy by default)
 
         \]                          # Literal closing bracket
 
-- 
2.43.0


From 9187efb730980195ca6cc9941f4f1f39fb609964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:16 +0000
Subject: [PATCH 15/59] fix: honor attribute entries in the document header
 when resolving include targets

---
 parser/src/parser/preprocessor.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 43744bd..ac018dc 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -102,8 +102,13 @@ impl<'p> PreprocessorState<'p> {
                 }
 
                 let mut warnings: Vec<Warning> = vec![];
-                self.parser
-                    .set_attribute_from_body(&attr.item, &mut warnings);
+                if self.in_document_header {
+                    self.parser
+                        .set_attribute_from_header(&attr.item, &mut warnings);
+                } else {
+                    self.parser
+                        .set_attribute_from_body(&attr.item, &mut warnings);
+                }
 
                 self.output.push_str(attr.item.span().data());
                 self.output.push('\n');
-- 
2.43.0


From 142af4c64e276ee6a64967547251178131ded710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:33 +0000
Subject: [PATCH 16/59] fix: treat attribute names as case-insensitive in
 attribute references

---
 parser/src/content/substitution_step.rs | 3 ++-
 parser/src/parser/preprocessor.rs       | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index af1f2ec..8657881 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -459,7 +459,8 @@ struct AttributeReplacer<'p>(&'p Parser);
 
 impl Replacer for AttributeReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
-        let attr_name = &caps[1];
+        // Attribute names are always stored in lowercase.
+        let attr_name = &caps[1].to_lowercase();
 
         // TO DO: Handle alternative responses ('skip', etc.) for missing attributes.
         if !self.0.has_attribute(attr_name) {
diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index ac018dc..34211b8 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -210,7 +210,8 @@ impl<'p> PreprocessorState<'p> {
 
         impl Replacer for AttributeReplacer<'_> {
             fn replace_append(&mut self, caps: &regex::Captures<'_>, dest: &mut String) {
-                let attr_name = &caps[1];
+                // Attribute names are always stored in lowercase.
+                let attr_name = &caps[1].to_lowercase();
 
                 if !self.0.has_attribute(attr_name) {
                     dest.push_str(&caps[0]);
-- 
2.43.0


From f84a524dc46f9df85fa3b78dbedbe9900ffcf7cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 17/59] fix: restart appendix numbering for each document

---
 parser/src/parser/parser.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 12be260..da9f095 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -123,6 +123,7 @@ impl Parser {
 
         // Reset section numbering for each new document.
         self.last_section_number = SectionNumber::default();
+        self.last_appendix_section_number.components.clear();
 
         Document::parse(&preprocessed_source, source_map, self)
     }
-- 
2.43.0


From ddc9672c1da921f330db0ed96d494249e588406f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:37 +0000
Subject: [PATCH 18/59] fix: recognize the audio block macro

---
 parser/src/blocks/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index b0470a5..927b019 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -217,7 +217,7 @@ impl<'src> Block<'src> {
 
             if line.item.starts_with("image::")
                 || line.item.starts_with("video::")
-                || line.item.starts_with("video::")
+                || line.item.starts_with("audio::")
             {
                 let mut media_block_maw = MediaBlock::parse(&metadata, parser);
 
-- 
2.43.0


From 03c49b040e1c38206cab30e2fde0f61d81f66241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:12 +0000
Subject: [PATCH 19/59] fix: keep the reference text of a block anchor on a
 media block

---
 parser/src/blocks/media.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/media.rs b/parser/src/blocks/media.rs
index 41ce255..e7e2c72 100644
--- a/parser/src/blocks/media.rs
+++ b/parser/src/blocks/media.rs
@@ -129,7 +129,7 @@ impl<'src> MediaBlock<'src> {
                     title_source: metadata.title_source,
                     title: metadata.title.clone(),
                     anchor: metadata.anchor,
-                    anchor_reftext: None,
+                    anchor_reftext: metadata.anchor_reftext,
                     attrlist: metadata.attrlist.clone(),
                 },
 
-- 
2.43.0


From fd3886a2a6244bb1b0f7c1fdf37829be6c4d67e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:47 +0000
Subject: [PATCH 20/59] fix: register the ID and keep the anchor reference text
 of a break

---
 parser/src/blocks/block.rs | 12 +++++++++++-
 parser/src/blocks/break.rs |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 927b019..57858b5 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -276,9 +276,19 @@ impl<'src> Block<'src> {
             {
                 // Continue quietly if `Break` parser rejects this block.
 
+                let block = Self::Break(mi_break.item);
+
+                Self::register_block_id(
+                    block.id(),
+                    block.title(),
+                    block.span(),
+                    parser,
+                    &mut warnings,
+                );
+
                 return MatchAndWarnings {
                     item: Some(MatchedItem {
-                        item: Self::Break(mi_break.item),
+                        item: block,
                         after: mi_break.after,
                     }),
                     warnings,
diff --git a/parser/src/blocks/break.rs b/parser/src/blocks/break.rs
index 96bff37..6684aaf 100644
--- a/parser/src/blocks/break.rs
+++ b/parser/src/blocks/break.rs
@@ -14,6 +14,7 @@ pub struct Break<'src> {
     title_source: Option<Span<'src>>,
     title: Option<String>,
     anchor: Option<Span<'src>>,
+    anchor_reftext: Option<Span<'src>>,
     attrlist: Option<Attrlist<'src>>,
 }
 
@@ -61,6 +62,7 @@ impl<'src> Break<'src> {
                 title_source: metadata.title_source,
                 title: metadata.title.clone(),
                 anchor: metadata.anchor,
+                anchor_reftext: metadata.anchor_reftext,
                 attrlist: metadata.attrlist.clone(),
             },
 
@@ -100,7 +102,7 @@ impl<'src> IsBlock<'src> for Break<'src> {
     }
 
     fn anchor_reftext(&'src self) -> Option<Span<'src>> {
-        None
+        self.anchor_reftext
     }
 
     fn attrlist(&'src self) -> Option<&'src Attrlist<'src>> {
-- 
2.43.0


From 98eae1d754242745f5faaeda94f7082719d6d970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:52 +0000
Subject: [PATCH 21/59] fix: apply substitutions to a delimited block that has
 no closing delimiter

---
 parser/src/blocks/raw_delimited.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/raw_delimited.rs b/parser/src/blocks/raw_delimited.rs
index 8561da4..bdc4a95 100644
--- a/parser/src/blocks/raw_delimited.rs
+++ b/parser/src/blocks/raw_delimited.rs
@@ -132,10 +132,16 @@ impl<'src> RawDelimitedBlock<'src> {
 
         let content = content_start.trim_remainder(next).trim_trailing_line_end();
 
+        let mut content: Content<'src> = content.into();
+
+        substitution_group = substitution_group.override_via_attrlist(metadata.attrlist.as_ref());
+
+        substitution_group.apply(&mut content, parser, metadata.attrlist.as_ref());
+
         Some(MatchAndWarnings {
             item: Some(MatchedItem {
                 item: Self {
-                    content: content.into(),
+                    content,
                     content_model,
                     context: context.into(),
                     source: metadata
-- 
2.43.0


From 60e3f3d2971d2fd0a7d9734deda80d854da3288e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:56 +0000
Subject: [PATCH 22/59] fix: register a section under the same ID that it
 reports

---
 parser/src/blocks/section.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index bba3540..aa893c8 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -98,10 +98,10 @@ impl<'src> SectionBlock<'src> {
         let proposed_base_id = generate_section_id(section_title.rendered(), parser);
 
         let manual_id = metadata
-            .attrlist
+            .anchor
             .as_ref()
-            .and_then(|a| a.id())
-            .or_else(|| metadata.anchor.as_ref().map(|anchor| anchor.data()));
+            .map(|anchor| anchor.data())
+            .or_else(|| metadata.attrlist.as_ref().and_then(|a| a.id()));
 
         let reftext = metadata
             .attrlist
-- 
2.43.0


From 054bcf1bb0bc8e9278f0cbc9867e32a3641ec52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:26 +0000
Subject: [PATCH 23/59] fix: interpret a section title with the attributes in
 effect at that title

---
 parser/src/blocks/section.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index aa893c8..e9eb620 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -81,6 +81,13 @@ impl<'src> SectionBlock<'src> {
                 None
             };
 
+        // Likewise, interpret the section title BEFORE parsing child blocks because the
+        // attributes it depends upon might be altered while parsing.
+        let mut section_title = Content::from(level_and_title.item.1);
+        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
+
+        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
+
         let mut most_recent_level = level;
 
         let mut maw_blocks = parse_blocks_until(
@@ -92,11 +99,6 @@ impl<'src> SectionBlock<'src> {
         let blocks = maw_blocks.item;
         let source = metadata.source.trim_remainder(blocks.after);
 
-        let mut section_title = Content::from(level_and_title.item.1);
-        SubstitutionGroup::Title.apply(&mut section_title, parser, metadata.attrlist.as_ref());
-
-        let proposed_base_id = generate_section_id(section_title.rendered(), parser);
-
         let manual_id = metadata
             .anchor
             .as_ref()
-- 
2.43.0


From b232be86b8d9c457f6f4c66f06231add4d072b3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:47 +0000
Subject: [PATCH 24/59] fix: apply each substitution step only once

---
 parser/src/content/substitution_group.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/src/content/substitution_group.rs b/parser/src/content/substitution_group.rs
index bf0a5b4..c1ff7ff 100644
--- a/parser/src/content/substitution_group.rs
+++ b/parser/src/content/substitution_group.rs
@@ -177,8 +177,12 @@ impl SubstitutionGroup {
                 None
             };
 
-        for step in steps {
-            step.apply(content, parser, attrlist);
+        for (index, step) in steps.iter().enumerate() {
+            // Apply each step only once, even if the list names it repeatedly (for example,
+            // `subs="+specialchars"` must not escape special characters twice).
+            if !steps[..index].contains(step) {
+                step.apply(content, parser, attrlist);
+            }
         }
 
         if let Some(passthroughs) = passthroughs {
-- 
2.43.0


From c719f8e75fa8be67c55fc86ce29b0edab0977b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:38 +0000
Subject: [PATCH 25/59] fix: report a section heading problem only once when it
 occurs inside a section

---
 parser/src/blocks/section.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index e9eb620..a054637 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -340,7 +340,9 @@ fn peer_or_ancestor_section<'src>(
 
     let source_after_metadata = block_metadata.block_start;
 
-    if let Some(mi) = parse_title_line(source_after_metadata, warnings) {
+    // Any problem with the title line itself will be reported when that line is
+    // parsed as a block.
+    if let Some(mi) = parse_title_line(source_after_metadata, &mut vec![]) {
         let found_level = mi.item.0;
 
         if found_level > *most_recent_level + 1 {
-- 
2.43.0


From 7bf16e2cb8d99531061285b1dfeb6fec34f3ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:48 +0000
Subject: [PATCH 26/59] fix: don't report a paragraph that starts with
 highlighted text as a section heading

---
 parser/src/blocks/section.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index a054637..e35c38c 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -292,6 +292,11 @@ fn parse_title_line<'src>(
             count += 1;
             line = mi.after;
         }
+
+        // Without white space after the marker, this is a paragraph that starts with
+        // highlighted text (for example, `#highlighted# text`), not a malformed section
+        // heading.
+        line.take_required_whitespace()?;
     }
 
     if count == 1 {
-- 
2.43.0


From ddae4d5d12cb831403c10dd2a0082fe8cf104dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:48 +0000
Subject: [PATCH 27/59] fix: don't mistake an indented line inside a section
 for a section heading

---
 parser/src/blocks/section.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index e35c38c..cb697b9 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -299,6 +299,11 @@ fn parse_title_line<'src>(
         line.take_required_whitespace()?;
     }
 
+    if count == 0 {
+        // This can't be a section heading (for example, it's an indented line).
+        return None;
+    }
+
     if count == 1 {
         warnings.push(Warning {
             source: source.take_normalized_line().item,
-- 
2.43.0


From 0a57fc009aad0661844a1932e1c9111c33dd4e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:23 +0000
Subject: [PATCH 28/59] fix: ignore tabs at the end of a line as well as spaces

A line of nothing but tabs separates blocks, but a paragraph ran through it because only
trailing spaces were removed from each line.
---
 parser/src/span/matched_item.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/span/matched_item.rs b/parser/src/span/matched_item.rs
index 929828a..f5123d8 100644
--- a/parser/src/span/matched_item.rs
+++ b/parser/src/span/matched_item.rs
@@ -41,9 +41,9 @@ impl<'src> MatchedItem<'src, Span<'src>> {
         }
     }
 
-    /// Discard any trailing spaces from `self.item`.
+    /// Discard any trailing spaces and tabs from `self.item`.
     pub(crate) fn trim_item_trailing_spaces(&self) -> Self {
-        let source = self.item.trim_end_matches(' ');
+        let source = self.item.trim_end_matches([' ', '\t']);
         let source = self.item.slice(0..source.len());
         Self {
             item: source,
-- 
2.43.0


From 5484e6c2079758ab8f7e64160e73e70ae75c468a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:00 +0000
Subject: [PATCH 29/59] fix: keep an attribute that may only be set by the API
 or in the header from being changed in the body

A document header that set such an attribute lifted the restriction.
---
 parser/src/parser/parser.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index da9f095..8986a45 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -387,6 +387,11 @@ impl Parser {
             return;
         }
 
+        // A value from the header does not change where the attribute may be modified.
+        let modification_context = existing_attr
+            .map(|existing_attr| existing_attr.modification_context.clone())
+            .unwrap_or(ModificationContext::Anywhere);
+
         let mut value = attr.value().clone();
 
         if let InterpretedValue::Set = value
@@ -397,7 +402,7 @@ impl Parser {
 
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value,
         };
 
-- 
2.43.0


From d7f4e1bcc3c7c4c02696df73158fcd883a443708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:21 +0000
Subject: [PATCH 30/59] fix: don't let the author line, revision line, or title
 change an attribute that the document may not set

---
 parser/src/parser/parser.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index 8986a45..e1a1808 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -420,9 +420,22 @@ impl Parser {
     ) {
         let attr_name = remap_attr_name(name);
 
+        // An attribute that may not be modified in the document header keeps its value.
+        let existing_attr = self.attribute_values.get(&attr_name);
+        if let Some(existing_attr) = existing_attr
+            && (existing_attr.modification_context == ModificationContext::ApiOnly
+                || existing_attr.modification_context == ModificationContext::ApiOrDocumentBody)
+        {
+            return;
+        }
+
+        let modification_context = existing_attr
+            .map(|existing_attr| existing_attr.modification_context.clone())
+            .unwrap_or(ModificationContext::Anywhere);
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value: InterpretedValue::Value(value.as_ref().to_owned()),
         };
 
-- 
2.43.0


From 25fab71b926d6a71743ac8fbf7754a14dd89b93a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:26 +0000
Subject: [PATCH 31/59] fix: keep an attribute that may not be set in the
 header from being set there once a body has set it

---
 parser/src/parser/parser.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/parser/src/parser/parser.rs b/parser/src/parser/parser.rs
index e1a1808..edbd92d 100644
--- a/parser/src/parser/parser.rs
+++ b/parser/src/parser/parser.rs
@@ -454,7 +454,8 @@ impl Parser {
         let attr_name = remap_attr_name(attr.name().data());
 
         // Verify that we have permission to overwrite any existing attribute value.
-        if let Some(existing_attr) = self.attribute_values.get(&attr_name)
+        let existing_attr = self.attribute_values.get(&attr_name);
+        if let Some(existing_attr) = existing_attr
             && (existing_attr.modification_context != ModificationContext::Anywhere
                 && existing_attr.modification_context != ModificationContext::ApiOrDocumentBody)
         {
@@ -465,9 +466,14 @@ impl Parser {
             return;
         }
 
+        // A value from the body does not change where the attribute may be modified.
+        let modification_context = existing_attr
+            .map(|existing_attr| existing_attr.modification_context.clone())
+            .unwrap_or(ModificationContext::Anywhere);
+
         let attribute_value = AttributeValue {
             allowable_value: AllowableValue::Any,
-            modification_context: ModificationContext::Anywhere,
+            modification_context,
             value: attr.value().clone(),
         };
 
-- 
2.43.0


From 92028741812c85f32adac92d19073984873bc591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:05 +0000
Subject: [PATCH 32/59] fix: recognize an attribute entry in the body whose
 value follows a tab

---
 parser/src/blocks/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/parser/src/blocks/block.rs b/parser/src/blocks/block.rs
index 57858b5..224940f 100644
--- a/parser/src/blocks/block.rs
+++ b/parser/src/blocks/block.rs
@@ -134,7 +134,9 @@ impl<'src> Block<'src> {
 
         // Look for document attributes first since these don't support block metadata.
         if first_line.item.starts_with(':')
-            && (first_line.item.ends_with(':') || first_line.item.contains(": "))
+            && (first_line.item.ends_with(':')
+                || first_line.item.contains(": ")
+                || first_line.item.contains(":\t"))
             && let Some(attr) = Attribute::parse(source, parser)
         {
             let mut warnings: Vec<Warning<'src>> = vec![];
-- 
2.43.0


From 3e3ba3d9e2442f253fe60604c60d272881b34c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:10 +0000
Subject: [PATCH 33/59] fix: keep the ID and roles of text in curved quotation
 marks

---
 .../parser/inline_substitution_renderer.rs    | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index 1f4dac7..ccd21e8 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -379,15 +379,23 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
             }
 
             QuoteType::DoubleQuote => {
-                dest.push_str("&#8220;");
-                dest.push_str(body);
-                dest.push_str("&#8221;");
+                let body = format!("&#8220;{body}&#8221;");
+
+                if roles.is_empty() && id.is_none() {
+                    dest.push_str(&body);
+                } else {
+                    wrap_body_in_html_tag(attrlist.as_ref(), "span", id, roles, &body, dest);
+                }
             }
 
             QuoteType::SingleQuote => {
-                dest.push_str("&#8216;");
-                dest.push_str(body);
-                dest.push_str("&#8217;");
+                let body = format!("&#8216;{body}&#8217;");
+
+                if roles.is_empty() && id.is_none() {
+                    dest.push_str(&body);
+                } else {
+                    wrap_body_in_html_tag(attrlist.as_ref(), "span", id, roles, &body, dest);
+                }
             }
 
             QuoteType::Monospaced => {
-- 
2.43.0


From 2fc80e4edfaae53e6659208bb7afc2de82ad0213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:46 +0000
Subject: [PATCH 34/59] fix: render an icon as text when the icons attribute
 has been unset

---
 parser/src/parser/inline_substitution_renderer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index ccd21e8..5e1b517 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -607,7 +607,7 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
     fn render_icon(&self, params: &IconRenderParams, dest: &mut String) {
         let src = self.icon_uri(params.target, params.attrlist, params.parser);
 
-        let img = if params.parser.has_attribute("icons") {
+        let img = if params.parser.is_attribute_set("icons") {
             let icons = params.parser.attribute_value("icons");
             if let Some(icons) = icons.as_maybe_str()
                 && icons == "font"
-- 
2.43.0


From 4f12a78301709e6dde185832c9386d11919a2a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:15 +0000
Subject: [PATCH 35/59] fix: leave image targets relative when the images
 directory is empty

---
 parser/src/parser/inline_substitution_renderer.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/parser/src/parser/inline_substitution_renderer.rs b/parser/src/parser/inline_substitution_renderer.rs
index 5e1b517..58f3976 100644
--- a/parser/src/parser/inline_substitution_renderer.rs
+++ b/parser/src/parser/inline_substitution_renderer.rs
@@ -598,6 +598,7 @@ impl InlineSubstitutionRenderer for HtmlSubstitutionRenderer {
             let asset_dir = parser
                 .attribute_value(asset_dir_key)
                 .as_maybe_str()
+                .filter(|s| !s.is_empty())
                 .map(|s| s.to_string());
 
             normalize_web_path(target_image_path, parser, asset_dir.as_deref(), true)
-- 
2.43.0


From 7c58c8a22165b83a764eca6a3a76fe8dd81f2d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:38 +0000
Subject: [PATCH 36/59] fix: escape a lone angle bracket in an author's name

---
 parser/src/document/author.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/parser/src/document/author.rs b/parser/src/document/author.rs
index a362bc8..1d5d8e6 100644
--- a/parser/src/document/author.rs
+++ b/parser/src/document/author.rs
@@ -123,7 +123,7 @@ impl Author {
                 // Even after expansion, doesn't match: Treat as single name with HTML encoding.
                 let mut expanded_name = expanded_source;
 
-                if expanded_name.contains('<') && expanded_name.contains('>') {
+                if expanded_name.contains(['<', '>']) {
                     let span = crate::Span::new(&expanded_name);
                     let mut content = crate::content::Content::from(span);
                     crate::content::SubstitutionStep::SpecialCharacters.apply(
@@ -149,7 +149,7 @@ impl Author {
             let mut name = source.to_string();
 
             // Apply HTML encoding for unparseable patterns that contain angle brackets.
-            if name.contains('<') && name.contains('>') {
+            if name.contains(['<', '>']) {
                 let span = crate::Span::new(&name);
                 let mut content = crate::content::Content::from(span);
                 crate::content::SubstitutionStep::SpecialCharacters.apply(
-- 
2.43.0


From 7020e71696461f7d829914ed49b92fa9697d07c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 37/59] fix: apply the header substitutions to the values the
 revision line assigns

---
 parser/src/document/revision_line.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/parser/src/document/revision_line.rs b/parser/src/document/revision_line.rs
index 06f1ac3..59977c5 100644
--- a/parser/src/document/revision_line.rs
+++ b/parser/src/document/revision_line.rs
@@ -45,20 +45,25 @@ impl<'src> RevisionLine<'src> {
             }
         };
 
+        let revnumber = revnumber.map(|s| apply_header_subs(&s, parser));
+
         if let Some(revnumber) = revnumber.as_deref() {
             parser.set_attribute_by_value_from_header("revnumber", revnumber);
         }
 
+        let revdate = apply_header_subs(&revdate, parser);
         parser.set_attribute_by_value_from_header("revdate", &revdate);
 
+        let revremark = revremark.map(|s| apply_header_subs(&s, parser));
+
         if let Some(revremark) = revremark.as_deref() {
             parser.set_attribute_by_value_from_header("revremark", revremark);
         }
 
         Self {
-            revnumber: revnumber.map(|s| apply_header_subs(&s, parser)),
-            revdate: apply_header_subs(&revdate, parser),
-            revremark: revremark.map(|s| apply_header_subs(&s, parser)),
+            revnumber,
+            revdate,
+            revremark,
             source,
         }
     }
-- 
2.43.0


From e7bbe8ced0771d95874dd7363691774ff5ca2ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:37 +0000
Subject: [PATCH 38/59] fix: start the relative substitutions of a pass
 paragraph from none

---
 parser/src/content/substitution_group.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/substitution_group.rs b/parser/src/content/substitution_group.rs
index c1ff7ff..6876b7f 100644
--- a/parser/src/content/substitution_group.rs
+++ b/parser/src/content/substitution_group.rs
@@ -205,7 +205,7 @@ impl SubstitutionGroup {
             if let Some(sub_group) = attrlist
                 .named_attribute("subs")
                 .map(|attr| attr.value())
-                .and_then(|s| Self::from_custom_string(Some(self), s))
+                .and_then(|s| Self::from_custom_string(Some(&result), s))
             {
                 result = sub_group;
             }
-- 
2.43.0


From d480043687ba70a75629d6874770cf18f172b173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:07 +0000
Subject: [PATCH 39/59] fix: keep an attribute reference at the start of the
 revision number

---
 parser/src/document/revision_line.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/document/revision_line.rs b/parser/src/document/revision_line.rs
index 59977c5..c1cc283 100644
--- a/parser/src/document/revision_line.rs
+++ b/parser/src/document/revision_line.rs
@@ -136,7 +136,7 @@ static STANDALONE_REVISION: LazyLock<Regex> = LazyLock::new(|| {
 
 static NON_NUMERIC_PREFIX: LazyLock<Regex> = LazyLock::new(|| {
     #[allow(clippy::unwrap_used)]
-    Regex::new(r"^[^0-9]*(.*)$").unwrap()
+    Regex::new(r"^[^0-9{]*(.*)$").unwrap()
 });
 
 #[cfg(test)]
-- 
2.43.0


From a43db495ae15759af1439b52b83efca97a26491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:37 +0000
Subject: [PATCH 40/59] fix: ignore white space and line ends around the
 attributes of an attribute list

---
 parser/src/attributes/attrlist.rs          |  7 ++++---
 parser/src/attributes/element_attribute.rs | 16 ++++++++++++++--
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/parser/src/attributes/attrlist.rs b/parser/src/attributes/attrlist.rs
index 2fda968..8a8cf96 100644
--- a/parser/src/attributes/attrlist.rs
+++ b/parser/src/attributes/attrlist.rs
@@ -63,7 +63,8 @@ impl<'src> Attrlist<'src> {
             };
         }
 
-        let mut index = 0;
+        // White space before the first attribute isn't part of it.
+        let mut index = source_cow.len() - source_cow.trim_start_matches([' ', '\t', '\n']).len();
 
         let after_index = loop {
             let (attr, new_index, warning_types) = ElementAttribute::parse(
@@ -103,11 +104,11 @@ impl<'src> Attrlist<'src> {
                 attributes.push(attr);
             }
 
-            after = after.take_whitespace().after;
+            after = after.take_whitespace_with_newline().after;
 
             match after.take_prefix(",") {
                 Some(comma) => {
-                    after = comma.after.take_whitespace().after;
+                    after = comma.after.take_whitespace_with_newline().after;
 
                     if after.starts_with(',') {
                         warnings.push(Warning {
diff --git a/parser/src/attributes/element_attribute.rs b/parser/src/attributes/element_attribute.rs
index c485f1c..3e64d30 100644
--- a/parser/src/attributes/element_attribute.rs
+++ b/parser/src/attributes/element_attribute.rs
@@ -65,10 +65,10 @@ impl<'src> ElementAttribute<'src> {
                     }
                     None => {
                         warnings.push(WarningType::AttributeValueMissingTerminatingQuote);
-                        after.take_while(|c| c != ',').trim_item_trailing_spaces()
+                        take_unquoted_value(after)
                     }
                 },
-                _ => after.take_while(|c| c != ',').trim_item_trailing_spaces(),
+                _ => take_unquoted_value(after),
             };
 
             let after = value.after;
@@ -316,6 +316,18 @@ impl<'src> ElementAttribute<'src> {
     }
 }
 
+/// Take everything up to the next comma, without any white space (including
+/// line ends) before the comma.
+fn take_unquoted_value(source: Span<'_>) -> MatchedItem<'_, Span<'_>> {
+    let value = source.take_while(|c| c != ',');
+    let len = value.item.trim_end_matches([' ', '\t', '\n']).len();
+
+    MatchedItem {
+        item: value.item.slice(0..len),
+        after: value.after,
+    }
+}
+
 fn parse_shorthand_items(source: &str, warnings: &mut Vec<WarningType>) -> Vec<usize> {
     let mut shorthand_item_indices: Vec<usize> = vec![];
     let mut span = Span::new(source);
-- 
2.43.0


From 2f073f5bba61e7903a23c8eade137231e2419811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:03 +0000
Subject: [PATCH 41/59] fix: keep an empty quoted value that is alone in an
 attribute list

---
 parser/src/attributes/attrlist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/attributes/attrlist.rs b/parser/src/attributes/attrlist.rs
index 8a8cf96..52333cf 100644
--- a/parser/src/attributes/attrlist.rs
+++ b/parser/src/attributes/attrlist.rs
@@ -93,7 +93,7 @@ impl<'src> Attrlist<'src> {
             let mut after = Span::new(source_cow.as_ref()).discard(new_index);
 
             if attr.name().is_none()
-                && attr.value().is_empty()
+                && new_index == index
                 && after.is_empty()
                 && attributes.is_empty()
             {
-- 
2.43.0


From cde8097dd28d278b529f11c4b7d9162a30c5e657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:32 +0000
Subject: [PATCH 42/59] fix: recognize document header and body positions when
 reading attribute entries before include directives

---
 parser/src/parser/preprocessor.rs | 36 +++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 34211b8..fbe5412 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -50,6 +50,7 @@ const MAX_INCLUDE_DEPTH: usize = 64;
 struct PreprocessorState<'p> {
     parser: &'p mut Parser,
     in_document_header: bool,
+    has_document_title: bool,
     can_have_attribute: bool,
     include_depth: usize,
     output_line_number: usize,
@@ -62,6 +63,7 @@ impl<'p> PreprocessorState<'p> {
         Self {
             parser,
             in_document_header: true,
+            has_document_title: false,
             can_have_attribute: true,
             include_depth: 0,
             output_line_number: 1,
@@ -165,6 +167,8 @@ impl<'p> PreprocessorState<'p> {
                         );
                     }
 
+                    self.track_position(line.data());
+
                     self.output_line_number += 1;
                     self.output.push_str(&format!(
                         "Unresolved directive in {file_name} - {line}\n",
@@ -182,12 +186,7 @@ impl<'p> PreprocessorState<'p> {
                     );
                 }
 
-                if line.is_empty() {
-                    self.in_document_header = false;
-                    self.can_have_attribute = true;
-                } else if !self.in_document_header {
-                    self.can_have_attribute = false;
-                }
+                self.track_position(line.data());
 
                 self.output_line_number += 1;
                 self.output.push_str(line.data());
@@ -198,6 +197,31 @@ impl<'p> PreprocessorState<'p> {
         self.include_depth -= 1;
     }
 
+    /// Keep track of whether the line after this one can be an attribute entry
+    /// and, if so, whether that entry belongs to the document header.
+    fn track_position(&mut self, line: &str) {
+        if line.bytes().all(|b| b == b' ' || b == b'\t') {
+            // A blank line ends the document header only if it follows the document title.
+            if self.has_document_title {
+                self.in_document_header = false;
+            }
+            self.can_have_attribute = true;
+        } else if self.in_document_header {
+            if self.has_document_title || (line.starts_with("//") && !line.starts_with("///")) {
+                return;
+            }
+
+            if line.starts_with("= ") {
+                self.has_document_title = true;
+            } else {
+                self.in_document_header = false;
+                self.can_have_attribute = false;
+            }
+        } else {
+            self.can_have_attribute = false;
+        }
+    }
+
     /// Apply attribute substitution to a string, replacing {attribute-name}
     /// patterns with their corresponding values from the parser.
     fn substitute_attributes(&self, input: &str) -> String {
-- 
2.43.0


From 32c523a076bb6672e94cd49ba53102c78119aa9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:37 +0000
Subject: [PATCH 43/59] fix: allow white space at the end of an include
 directive

---
 parser/src/parser/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index fbe5412..4b606ba 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -127,7 +127,7 @@ impl<'p> PreprocessorState<'p> {
 
                 source_span = attr.after;
             } else if line.starts_with("include::")
-                && let Some(caps) = INCLUDE_DIRECTIVE.captures(line.data())
+                && let Some(caps) = INCLUDE_DIRECTIVE.captures(line.data().trim_end_matches([' ', '\t']))
             {
                 let target = self.substitute_attributes(&caps[1]);
 
-- 
2.43.0


From 016e6481a38ba9f5ee06f4ec88f62cdb7da1795e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:41 +0000
Subject: [PATCH 44/59] fix: honor an attribute entry with a tab before its
 value in include targets

---
 parser/src/parser/preprocessor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 4b606ba..852a885 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -88,7 +88,7 @@ impl<'p> PreprocessorState<'p> {
 
             if self.can_have_attribute
                 && line.starts_with(':')
-                && (line.ends_with(':') || line.contains(": "))
+                && (line.ends_with(':') || line.contains(": ") || line.contains(":\t"))
                 && let Some(attr) = Attribute::parse(original_source, self.parser)
             {
                 // Process attribute entries so they're available for include directives. NOTE:
-- 
2.43.0


From 75a03d9f6c495d4209252c804158007b7bd8f87c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:58 +0000
Subject: [PATCH 45/59] fix: keep the number of lines of an attribute entry
 continued on a blank line

---
 parser/src/parser/preprocessor.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/parser/src/parser/preprocessor.rs b/parser/src/parser/preprocessor.rs
index 852a885..122898f 100644
--- a/parser/src/parser/preprocessor.rs
+++ b/parser/src/parser/preprocessor.rs
@@ -3,7 +3,7 @@ use std::{borrow::Cow, sync::LazyLock};
 use regex::{Regex, Replacer};
 
 use crate::{
-    HasSpan, Parser, Span,
+    Parser, Span,
     attributes::{Attrlist, AttrlistContext},
     document::{Attribute, InterpretedValue},
     parser::{SourceLine, SourceMap},
@@ -112,22 +112,18 @@ impl<'p> PreprocessorState<'p> {
                         .set_attribute_from_body(&attr.item, &mut warnings);
                 }
 
-                self.output.push_str(attr.item.span().data());
-                self.output.push('\n');
-
-                self.output_line_number += attr
-                    .item
-                    .span()
-                    .data()
-                    .as_bytes()
-                    .iter()
-                    .filter(|&&b| b == b'\n')
-                    .count()
-                    + 1;
+                // An attribute entry can extend over several lines, the last of which can be
+                // blank.
+                for line in original_source.trim_remainder(attr.after).data().lines() {
+                    self.output_line_number += 1;
+                    self.output.push_str(line);
+                    self.output.push('\n');
+                }
 
                 source_span = attr.after;
             } else if line.starts_with("include::")
-                && let Some(caps) = INCLUDE_DIRECTIVE.captures(line.data().trim_end_matches([' ', '\t']))
+                && let Some(caps) =
+                    INCLUDE_DIRECTIVE.captures(line.data().trim_end_matches([' ', '\t']))
             {
                 let target = self.substitute_attributes(&caps[1]);
 
-- 
2.43.0


From 6bb3d9d07679bdf1e47e5ca70789298fcc39de05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:24 +0000
Subject: [PATCH 46/59] fix: report a skipped section level on the line of the
 heading

---
 parser/src/blocks/section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index cb697b9..c300132 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -357,7 +357,7 @@ fn peer_or_ancestor_section<'src>(
 
         if found_level > *most_recent_level + 1 {
             warnings.push(Warning {
-                source: source.take_normalized_line().item,
+                source: source_after_metadata.take_normalized_line().item,
                 warning: WarningType::SectionHeadingLevelSkipped(*most_recent_level, found_level),
             });
         }
-- 
2.43.0


From 9187bf3598276398d839a0316ed54c6c66fc8e3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:52 +0000
Subject: [PATCH 47/59] fix: report the coverage of a documentation tree
 without any document

---
 sdd/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sdd/src/main.rs b/sdd/src/main.rs
index af5d48b..675484e 100644
--- a/sdd/src/main.rs
+++ b/sdd/src/main.rs
@@ -73,7 +73,7 @@ fn main() {
         })
         .collect();
 
-    let last_index = adoc_files.len() - 1;
+    let file_count = adoc_files.len();
 
     for (count, entry) in adoc_files.into_iter().enumerate() {
         let path = entry.path().to_str().unwrap().trim_start_matches("../");
@@ -86,7 +86,7 @@ fn main() {
 
         emit_adoc_coverage(path, spec_coverage.get(path));
 
-        if count < last_index {
+        if count + 1 < file_count {
             println!("        }},");
         } else {
             println!("        }}");
-- 
2.43.0


From 5c65f6c2ee09c4e491e5ad1f65b6ee0f1adf99f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:49 +0000
Subject: [PATCH 48/59] fix: give each object its own default values in the ASG
 schema

---
 asg/lib/ajv-keyword-defaults.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asg/lib/ajv-keyword-defaults.js b/asg/lib/ajv-keyword-defaults.js
index 6b51e64..78c5dd2 100644
--- a/asg/lib/ajv-keyword-defaults.js
+++ b/asg/lib/ajv-keyword-defaults.js
@@ -6,7 +6,7 @@ export default function getDef () {
     modifying: true,
     valid: true,
     compile: (defaults) => (data) => {
-      for (const [name, val] of Object.entries(defaults)) data[name] ??= val
+      for (const [name, val] of Object.entries(defaults)) data[name] ??= structuredClone(val)
     },
   }
 }
-- 
2.43.0


From a24f91fb9c0473b1e7f3a37a69b6dbaf6455d9b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:31 +0000
Subject: [PATCH 49/59] fix: Markers of the shorthand have no meaning in the
 text of a macro

`image:x.png[See Fig. 1]` had the role ' 1', `https://x.org[a.b#c,window=w]`
the ID 'c', and `image::x.png[100%]` gave a warning.
---
 parser/src/attributes/attrlist.rs          | 1 +
 parser/src/attributes/element_attribute.rs | 7 ++++++-
 parser/src/blocks/media.rs                 | 2 +-
 parser/src/content/macros.rs               | 4 ++--
 4 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/parser/src/attributes/attrlist.rs b/parser/src/attributes/attrlist.rs
index 52333cf..1a859e9 100644
--- a/parser/src/attributes/attrlist.rs
+++ b/parser/src/attributes/attrlist.rs
@@ -428,6 +428,7 @@ impl std::fmt::Debug for Attrlist<'_> {
 pub(crate) enum AttrlistContext {
     Block,
     Inline,
+    Macro,
 }
 
 #[cfg(test)]
diff --git a/parser/src/attributes/element_attribute.rs b/parser/src/attributes/element_attribute.rs
index 3e64d30..139bbb0 100644
--- a/parser/src/attributes/element_attribute.rs
+++ b/parser/src/attributes/element_attribute.rs
@@ -95,7 +95,12 @@ impl<'src> ElementAttribute<'src> {
                 }
             }
 
-            let shorthand_item_indices = if name.is_none() && parse_shorthand.0 {
+            // The first positional attribute of a macro is text (or a size), in which the
+            // shorthand delimiters have no meaning.
+            let is_macro_text = attrlist_context == AttrlistContext::Macro
+                && value.as_ref().contains(is_shorthand_delimiter);
+
+            let shorthand_item_indices = if name.is_none() && parse_shorthand.0 && !is_macro_text {
                 parse_shorthand_items(&value, &mut warnings)
             } else {
                 vec![]
diff --git a/parser/src/blocks/media.rs b/parser/src/blocks/media.rs
index e7e2c72..9e26cbd 100644
--- a/parser/src/blocks/media.rs
+++ b/parser/src/blocks/media.rs
@@ -114,7 +114,7 @@ impl<'src> MediaBlock<'src> {
         let attrlist = open_brace.after.slice(0..open_brace.after.len() - 1);
         // Note that we already checked that this line ends with a close brace.
 
-        let macro_attrlist = Attrlist::parse(attrlist, parser, AttrlistContext::Inline);
+        let macro_attrlist = Attrlist::parse(attrlist, parser, AttrlistContext::Macro);
 
         let source: Span = metadata.source.trim_remainder(line.after);
         let source = source.slice(0..source.trim().len());
diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index d6b8fab..4497898 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -143,7 +143,7 @@ impl Replacer for InlineImageMacroReplacer<'_> {
 
         let target = &caps[1];
         let span = Span::new(&caps[2]);
-        let attrlist = Attrlist::parse(span, self.0, AttrlistContext::Inline)
+        let attrlist = Attrlist::parse(span, self.0, AttrlistContext::Macro)
             .item
             .item;
 
@@ -579,7 +579,7 @@ fn extract_attributes_from_text<'src>(
     parser: &Parser,
     default_text: Option<&str>,
 ) -> (String, Attrlist<'src>) {
-    let attrlist_maw = Attrlist::parse(*text, parser, AttrlistContext::Inline);
+    let attrlist_maw = Attrlist::parse(*text, parser, AttrlistContext::Macro);
     let attrs = attrlist_maw.item.item;
 
     if let Some(resolved_text) = attrs.nth_attribute(1) {
-- 
2.43.0


From cd094c036acce390f2fce08767e11c1ae9187b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:12 +0000
Subject: [PATCH 50/59] fix: Lines of Unicode white space are skipped in linear
 time

---
 parser/src/blocks/parse_utils.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/parser/src/blocks/parse_utils.rs b/parser/src/blocks/parse_utils.rs
index 48f0a95..91d8bc6 100644
--- a/parser/src/blocks/parse_utils.rs
+++ b/parser/src/blocks/parse_utils.rs
@@ -36,8 +36,20 @@ where
             blocks.push(mi.item);
         } else {
             // No block starts here (for example, this line consists solely of Unicode white
-            // space). Skip the line so we always make progress.
-            source = source.take_line().after.discard_empty_lines();
+            // space). Skip the line so we always make progress. The same is true of any
+            // such lines directly after it.
+            let mi = source.take_line();
+            source = mi.after;
+
+            if mi.item.trim().is_empty() {
+                while let Some(mi) = source.take_non_empty_line()
+                    && mi.item.trim().is_empty()
+                {
+                    source = mi.after;
+                }
+            }
+
+            source = source.discard_empty_lines();
         }
     }
 
-- 
2.43.0


From 21695d5d84e7c6b1afb3e3b01bb9d3d52e37a0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:32:56 +0000
Subject: [PATCH 51/59] fix: Sections with the same title get their IDs in
 linear time

---
 parser/src/document/catalog.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/parser/src/document/catalog.rs b/parser/src/document/catalog.rs
index d3e7cb8..c671216 100644
--- a/parser/src/document/catalog.rs
+++ b/parser/src/document/catalog.rs
@@ -15,6 +15,11 @@ pub struct Catalog {
 
     /// Reverse lookup cache: reftext -> ID.
     pub(crate) reftext_to_id: HashMap<String, String>,
+
+    /// For each base ID that was already in use: The first numeric suffix that
+    /// might still be available. (References are never removed, so smaller
+    /// suffixes can't become available again.)
+    next_suffix: HashMap<String, usize>,
 }
 
 impl Catalog {
@@ -22,6 +27,7 @@ impl Catalog {
         Self {
             refs: HashMap::new(),
             reftext_to_id: HashMap::new(),
+            next_suffix: HashMap::new(),
         }
     }
 
@@ -84,14 +90,16 @@ impl Catalog {
         let unique_id = if !self.contains_id(base_id) {
             base_id.to_string()
         } else {
-            let mut counter = 2;
-            loop {
+            let mut counter = self.next_suffix.get(base_id).copied().unwrap_or(2);
+            let candidate = loop {
                 let candidate = format!("{}-{}", base_id, counter);
+                counter += 1;
                 if !self.contains_id(&candidate) {
                     break candidate;
                 }
-                counter += 1;
-            }
+            };
+            self.next_suffix.insert(base_id.to_string(), counter);
+            candidate
         };
 
         // Register the generated unique ID.
-- 
2.43.0


From b6913f9ffe96eb4b2f5d977c5512fd508bc39883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:01:43 +0000
Subject: [PATCH 52/59] fix: A row of plus signs after colons neither overflows
 the stack nor takes quadratic time

---
 parser/src/content/passthroughs.rs | 66 ++++++++++++++----------------
 1 file changed, 30 insertions(+), 36 deletions(-)

diff --git a/parser/src/content/passthroughs.rs b/parser/src/content/passthroughs.rs
index 650428d..81c3bfe 100644
--- a/parser/src/content/passthroughs.rs
+++ b/parser/src/content/passthroughs.rs
@@ -74,9 +74,25 @@ impl Passthroughs {
         {
             let text = content.rendered.as_ref();
             if text.contains('+') || text.contains("-]") {
-                let replacer = InlinePassReplacer(&mut passthroughs);
+                let mut replacer = InlinePassReplacer(&mut passthroughs);
 
-                if let Cow::Owned(new_result) = INLINE_PASS.replace_all(text, replacer) {
+                let mut new_result = String::with_capacity(text.len());
+                let mut start = 0;
+                let mut last_match = 0;
+
+                while let Some(caps) = INLINE_PASS.captures_at(text, start) {
+                    // Group 1 is part of every possible match.
+                    let content_start = caps.get(1).map_or(last_match, |prefix| prefix.end());
+                    new_result.push_str(&text[last_match..content_start]);
+                    replacer.replace_append(&caps, &mut new_result);
+
+                    // The closing mark can be the prefix of the next passthrough.
+                    last_match = caps.get_match().end();
+                    start = last_match - 1;
+                }
+
+                if last_match > 0 {
+                    new_result.push_str(&text[last_match..]);
                     content.rendered = new_result.into();
                 }
             }
@@ -336,23 +352,23 @@ static INLINE_PASS: LazyLock<Regex> = LazyLock::new(|| {
     #[allow(clippy::unwrap_used)]
     Regex::new(
         r#"(?xs)
-            \b{start-half}              # Must not follow a word
+            (^|[^\w;:\\])               # Group 1: Must not follow a word or prohibited prefix
 
             (?:
                                         # Option 1: [... x-] followed by `xxx`
-                \[(x-|[^\[\]]+\ x-)\]       # Group 1: [attrlist] with x- suffix
-                \`(\S(?:.*?\S)??)\`         # Group 2: `...` content
+                \[(x-|[^\[\]]+\ x-)\]       # Group 2: [attrlist] with x- suffix
+                \`(\S(?:.*?\S)??)\`         # Group 3: `...` content
             
             |                           # --OR--
                                         # Option 2: [...] followed by +xxx+
-                \[([^\[\]]+)\]              # Group 3: [attrlist]
-                (\\{0,2})                   # Group 4: optional escapes
-                \+(\S(?:.*?\S)??)\+         # Group 5: +...+ content (surrounded by non-space)
+                \[([^\[\]]+)\]              # Group 4: [attrlist]
+                (\\{0,2})                   # Group 5: optional escapes
+                \+(\S(?:.*?\S)??)\+         # Group 6: +...+ content (surrounded by non-space)
 
             |                           # --OR--
                                         # Option 3: +xxx+ without attrlist
-                (\\)?                       # Group 6: optional escape
-                \+(\S(?:.*?\S)??)\+         # Group 7: +...+ content (surrounded by non-space)
+                (\\)?                       # Group 7: optional escape
+                \+(\S(?:.*?\S)??)\+         # Group 8: +...+ content (surrounded by non-space)
 
             )
 
@@ -367,33 +383,11 @@ struct InlinePassReplacer<'p>(&'p mut Passthroughs);
 
 impl Replacer for InlinePassReplacer<'_> {
     fn replace_append(&mut self, caps: &Captures<'_>, dest: &mut String) {
-        if dest.ends_with('\\') || dest.ends_with(':') || dest.ends_with(';') {
-            // Honor the prohibited prefix.
-            // let dest_ended_with_backslash = dest.ends_with('\\');
-            // if dest_ended_with_backslash {
-            //     dest.truncate(dest.len() - 1);
-            // }
-
-            // EDGE CASE: Since we don't have lookarounds in Rust's regex, we have to retry
-            // the inline pass replacement here. Possible it might miss a few very obscure
-            // cases, but this should cover most cases where the attrlist is off-limits, but
-            // the quoted text is still subject to inline pass replacement.
-            let replacer = InlinePassReplacer(self.0);
-
-            let (first, rem) = &caps[0].split_at(1);
-            dest.push_str(first);
-
-            let new_result = INLINE_PASS.replace_all(rem, replacer);
-            dest.push_str(&new_result);
-
-            return;
-        }
-
-        let escapes = caps.get(4).or_else(|| caps.get(6));
+        let escapes = caps.get(5).or_else(|| caps.get(7));
         let escape_count = escapes.map_or(0, |m| m.len());
 
-        let format_mark = if caps.get(2).is_some() { '`' } else { '+' };
-        let orig_attrlist_body = caps.get(1).or_else(|| caps.get(3)).map(|m| m.as_str());
+        let format_mark = if caps.get(3).is_some() { '`' } else { '+' };
+        let orig_attrlist_body = caps.get(2).or_else(|| caps.get(4)).map(|m| m.as_str());
 
         let (attrlist_body, old_behavior) = orig_attrlist_body.map_or((None, false), |m| {
             if m == "x-" {
@@ -405,7 +399,7 @@ impl Replacer for InlinePassReplacer<'_> {
             }
         });
 
-        let quoted_text = caps.get(2).or_else(|| caps.get(5)).or_else(|| caps.get(7));
+        let quoted_text = caps.get(3).or_else(|| caps.get(6)).or_else(|| caps.get(8));
         let quoted_text = quoted_text.map_or("", |m| m.as_str());
 
         if let Some(orig_attrlist_body) = orig_attrlist_body {
-- 
2.43.0


From 52172dd1faaf05cf5f29a28e900fde73727a9f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:30 +0000
Subject: [PATCH 53/59] fix: Monospaced text goes on to the first mark that can
 close it, without a search for every mark

---
 parser/src/content/substitution_step.rs | 81 ++++++++++++++++++++-----
 parser/src/internal/regex.rs            | 50 +++++++--------
 2 files changed, 86 insertions(+), 45 deletions(-)

diff --git a/parser/src/content/substitution_step.rs b/parser/src/content/substitution_step.rs
index 8657881..38cad01 100644
--- a/parser/src/content/substitution_step.rs
+++ b/parser/src/content/substitution_step.rs
@@ -223,9 +223,9 @@ static QUOTE_SUBS: LazyLock<Vec<QuoteSub>> = LazyLock::new(|| {
             #[allow(clippy::unwrap_used)]
             pattern: RegexBuilder::new(
                 r#"(^|[^\w&;:"'`}])(?:\[([^\[\]]+)\])?`(\S|\S.*?\S)`\b{end-half}"#,
-                // NB: We don't have look-ahead in Rust Regex, so we might miss some edge cases
-                // because Ruby's version matches `(?![#{CC_WORD}"'`])` which is slightly more
-                // detailed than our `\b{end-half}`.
+                // NB: We don't have look-ahead in Rust Regex, but Ruby's version matches
+                // `(?![#{CC_WORD}"'`])` which is slightly more detailed than our
+                // `\b{end-half}`. See `QuoteReplacer` for how we make up for that.
             )
             .dot_matches_new_line(true)
             .build()
@@ -312,17 +312,30 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
         // The regex crate doesn't have a sophisticated lookahead mode, so we patch
         // it up here.
 
+        let mut quoted_text: Cow<'_, str> = caps
+            .get(if self.scope == QuoteScope::Constrained {
+                3
+            } else {
+                2
+            })
+            .map_or("", |m| m.as_str())
+            .into();
+        let mut result = LookaheadResult::Continue;
+
         if self.type_ == QuoteType::Monospaced
             && self.scope == QuoteScope::Constrained
             && after.starts_with(['"', '\'', '`'])
         {
-            let skip_ahead = if caps[0].starts_with('\\') {
-                2
-            } else {
-                caps[0].chars().next().map_or(1, char::len_utf8)
+            // The mark we found can't be the closing mark, so continue to the next one.
+            let Some(n) = find_closing_backtick(after) else {
+                // There is no such mark, so there can't be any monospaced text from here on.
+                dest.push_str(&caps[0]);
+                dest.push_str(after);
+                return LookaheadResult::SkipAheadAndRetry(caps[0].len() + after.len());
             };
-            dest.push_str(&caps[0][0..skip_ahead]);
-            return LookaheadResult::SkipAheadAndRetry(skip_ahead);
+
+            result = LookaheadResult::SkipAheadAndRetry(caps[0].len() + n);
+            quoted_text = format!("{quoted_text}`{more}", more = &after[0..n - 1]).into();
         }
 
         let unescaped_attrs: Option<String> = if caps[0].starts_with('\\') {
@@ -334,7 +347,10 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
                 ))
             } else {
                 dest.push_str(&caps[0][1..]);
-                return LookaheadResult::Continue;
+                if let LookaheadResult::SkipAheadAndRetry(n) = result {
+                    dest.push_str(&after[0..n - caps[0].len()]);
+                }
+                return result;
             }
         } else {
             None
@@ -345,7 +361,12 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
                 if let Some(attrs) = unescaped_attrs {
                     dest.push_str(&attrs);
                     self.parser.renderer.render_quoted_substitition(
-                        self.type_, self.scope, None, None, &caps[3], dest,
+                        self.type_,
+                        self.scope,
+                        None,
+                        None,
+                        &quoted_text,
+                        dest,
                     );
                 } else {
                     let (attrlist, type_): (Option<Attrlist<'_>>, QuoteType) =
@@ -381,7 +402,12 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
                         .and_then(|a| a.id().map(|s| s.to_string()));
 
                     self.parser.renderer.render_quoted_substitition(
-                        type_, self.scope, attrlist, id, &caps[3], dest,
+                        type_,
+                        self.scope,
+                        attrlist,
+                        id,
+                        &quoted_text,
+                        dest,
                     );
                 }
             }
@@ -415,16 +441,39 @@ impl LookaheadReplacer for QuoteReplacer<'_> {
                     .as_ref()
                     .and_then(|a| a.id().map(|s| s.to_string()));
 
-                self.parser
-                    .renderer
-                    .render_quoted_substitition(type_, self.scope, attrlist, id, &caps[2], dest);
+                self.parser.renderer.render_quoted_substitition(
+                    type_,
+                    self.scope,
+                    attrlist,
+                    id,
+                    &quoted_text,
+                    dest,
+                );
             }
         }
 
-        LookaheadResult::Continue
+        result
     }
 }
 
+/// Find the first mark in `after` that can close constrained monospaced text:
+/// It must not follow white space or be followed by a word character or any
+/// kind of quote. Returns the index after the mark.
+fn find_closing_backtick(after: &str) -> Option<usize> {
+    static BACKTICK: LazyLock<Regex> = LazyLock::new(|| {
+        #[allow(clippy::unwrap_used)]
+        Regex::new(r"`\b{end-half}").unwrap()
+    });
+
+    BACKTICK
+        .find_iter(after)
+        .find(|m| {
+            !after[0..m.start()].ends_with(char::is_whitespace)
+                && !after[m.end()..].starts_with(['"', '\'', '`'])
+        })
+        .map(|m| m.end())
+}
+
 fn apply_quotes(content: &mut Content<'_>, parser: &Parser) {
     if !QUOTED_TEXT_SNIFF.is_match(content.rendered.as_ref()) {
         return;
diff --git a/parser/src/internal/regex.rs b/parser/src/internal/regex.rs
index d37ec25..b46ac96 100644
--- a/parser/src/internal/regex.rs
+++ b/parser/src/internal/regex.rs
@@ -6,44 +6,36 @@ use regex::{Captures, Regex};
 /// which can look ahead after the match and potentially abort the replacement.
 pub fn replace_with_lookahead<'h, LR: LookaheadReplacer>(
     regex: &Regex,
-    mut haystack: &'h str,
+    haystack: &'h str,
     mut rep: LR,
 ) -> Cow<'h, str> {
-    let mut new = String::with_capacity(haystack.len());
+    let mut new = String::new();
     let mut last_match = 0;
 
-    'retry: loop {
-        // Optimization: If we don't have any matches, we can continue to borrow the
-        // source.
-        let mut it = regex.captures_iter(haystack).enumerate().peekable();
+    // We always search in the original haystack (as opposed to the remainder of
+    // it), so the regex can take the text before `last_match` into account.
+    while let Some(caps) = regex.captures_at(haystack, last_match) {
+        let m = caps.get_match();
+        new.push_str(&haystack[last_match..m.start()]);
 
-        if new.is_empty() && it.peek().is_none() {
-            return Cow::Borrowed(haystack);
-        }
+        let after = &haystack[m.end()..];
+
+        match rep.replace_append(&caps, &mut new, after) {
+            LookaheadResult::Continue => {
+                last_match = m.end();
+            }
 
-        for (_i, cap) in it {
-            // unwrap on 0 is OK because captures only reports matches
-            #[allow(clippy::unwrap_used)]
-            let m = cap.get(0).unwrap();
-            new.push_str(&haystack[last_match..m.start()]);
-
-            let after = &haystack[m.end()..];
-
-            match rep.replace_append(&cap, &mut new, after) {
-                LookaheadResult::Continue => {
-                    last_match = m.end();
-                }
-
-                LookaheadResult::SkipAheadAndRetry(n) => {
-                    assert!(n > 0);
-                    haystack = &haystack[m.start() + n..];
-                    last_match = 0;
-                    continue 'retry;
-                }
+            LookaheadResult::SkipAheadAndRetry(n) => {
+                assert!(n > 0);
+                last_match = m.start() + n;
             }
         }
+    }
 
-        break;
+    if last_match == 0 {
+        // Optimization: If we don't have any matches, we can continue to borrow the
+        // source.
+        return Cow::Borrowed(haystack);
     }
 
     new.push_str(&haystack[last_match..]);
-- 
2.43.0


From 1618b6555c2a3801841b0583dcf4eb9c457e404a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:27 +0000
Subject: [PATCH 54/59] fix: recognize link macro with a single-character
 target

---
 parser/src/content/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index 4497898..d8d5603 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -428,7 +428,7 @@ static INLINE_LINK_MACRO: LazyLock<Regex> = LazyLock::new(|| {
         :                       # Colon after macro name
 
         (?:                     # Non-capturing outer group
-            ().                 #   capture group 2: empty target
+            ()                  #   capture group 2: empty target
           | ([^:\s\[] [^\s\[]*) #   capture group 3: valid target (no colon/space/'[')
         )
 
-- 
2.43.0


From 1390e3287e81e706fcf7416602cab52374e6524d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:46 +0000
Subject: [PATCH 55/59] fix: unescape closing brackets in all attributes of
 inline macros

---
 parser/src/content/macros.rs | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/parser/src/content/macros.rs b/parser/src/content/macros.rs
index d8d5603..52ec203 100644
--- a/parser/src/content/macros.rs
+++ b/parser/src/content/macros.rs
@@ -142,7 +142,8 @@ impl Replacer for InlineImageMacroReplacer<'_> {
         }
 
         let target = &caps[1];
-        let span = Span::new(&caps[2]);
+        let attrlist_source = normalize_text_lf_escaped_bracket(&caps[2]);
+        let span = Span::new(&attrlist_source);
         let attrlist = Attrlist::parse(span, self.0, AttrlistContext::Macro)
             .item
             .item;
@@ -164,9 +165,7 @@ impl Replacer for InlineImageMacroReplacer<'_> {
                 target,
                 alt: attrlist
                     .named_or_positional_attribute("alt", 1)
-                    .map_or(default_alt, |a| {
-                        normalize_text_lf_escaped_bracket(a.value())
-                    }),
+                    .map_or(default_alt, |a| a.value().to_string()),
                 width: attrlist
                     .named_or_positional_attribute("width", 2)
                     .map(|a| a.value()),
@@ -181,9 +180,9 @@ impl Replacer for InlineImageMacroReplacer<'_> {
         } else {
             let params = IconRenderParams {
                 target,
-                alt: attrlist.named_attribute("alt").map_or(default_alt, |a| {
-                    normalize_text_lf_escaped_bracket(a.value())
-                }),
+                alt: attrlist
+                    .named_attribute("alt")
+                    .map_or(default_alt, |a| a.value().to_string()),
                 size: attrlist
                     .named_or_positional_attribute("size", 1)
                     .map(|a| a.value()),
@@ -348,7 +347,10 @@ impl Replacer for InlineLinkReplacer<'_> {
 
         let mut bare = false;
 
-        let link_text_for_attrlist = link_text.clone().unwrap_or_default();
+        let link_text_for_attrlist = link_text
+            .as_deref()
+            .map(normalize_text_lf_escaped_bracket)
+            .unwrap_or_default();
         let span_for_attrlist = Span::new(&link_text_for_attrlist);
         let mut window: Option<&'static str> = None;
 
@@ -481,7 +483,7 @@ impl Replacer for InlineLinkMacroReplacer<'_> {
             .map(|c| c.as_str().to_string())
             .unwrap_or_default();
 
-        let link_text_for_attrlist = link_text.replace("\n", " ");
+        let link_text_for_attrlist = normalize_text_lf_escaped_bracket(&link_text);
         let span_for_attrlist = Span::new(&link_text_for_attrlist);
         let mut window: Option<&'static str> = None;
 
-- 
2.43.0


From c7d5b74f898a1797611ee3c6cc85bf67a42ba0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:34:59 +0000
Subject: [PATCH 56/59] fix: keep plus signs that are not a line break in
 attribute values over several lines

---
 parser/src/document/attribute.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index a069ce4..c657baa 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -194,12 +194,12 @@ impl InterpretedValue {
                         .trim_end_matches('\\')
                         .trim_end_matches(' ');
 
-                    if line.ends_with('+') {
+                    if count == last_count {
+                        line.to_string()
+                    } else if line == "+" || line.ends_with(" +") {
                         format!("{}\n", line.trim_end_matches('+').trim_end_matches(' '))
-                    } else if count < last_count {
-                        format!("{line} ")
                     } else {
-                        line.to_string()
+                        format!("{line} ")
                     }
                 })
                 .collect();
-- 
2.43.0


From 66b056c86f29987e90904cb9fb11d67ac031d260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:52 +0000
Subject: [PATCH 57/59] fix: drop tabs that indent the further lines of an
 attribute value

---
 parser/src/document/attribute.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/document/attribute.rs b/parser/src/document/attribute.rs
index c657baa..5927606 100644
--- a/parser/src/document/attribute.rs
+++ b/parser/src/document/attribute.rs
@@ -183,7 +183,7 @@ impl InterpretedValue {
                 .enumerate()
                 .map(|(count, line)| {
                     let line = if count > 0 {
-                        line.trim_start_matches(' ')
+                        line.trim_start_matches([' ', '\t'])
                     } else {
                         line
                     };
-- 
2.43.0


From 2747c6ab33e46e6133c6cb37863cc3d8695ee710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:39:53 +0000
Subject: [PATCH 58/59] fix: skip white space after an empty attribute in an
 attribute list

---
 parser/src/attributes/attrlist.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/attributes/attrlist.rs b/parser/src/attributes/attrlist.rs
index 1a859e9..89110d8 100644
--- a/parser/src/attributes/attrlist.rs
+++ b/parser/src/attributes/attrlist.rs
@@ -115,7 +115,7 @@ impl<'src> Attrlist<'src> {
                             source,
                             warning: WarningType::EmptyAttributeValue,
                         });
-                        after = after.discard(1);
+                        after = after.discard(1).take_whitespace_with_newline().after;
                         index = after.byte_offset();
                         continue;
                     }
-- 
2.43.0


From 9f53dde4596bf19ef4321b65da31a134ee12c9b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:43:51 +0000
Subject: [PATCH 59/59] fix: character references of up to six digits don't
 become part of a section ID

---
 parser/src/blocks/section.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parser/src/blocks/section.rs b/parser/src/blocks/section.rs
index c300132..80fb6f3 100644
--- a/parser/src/blocks/section.rs
+++ b/parser/src/blocks/section.rs
@@ -397,7 +397,7 @@ fn generate_section_id(title: &str, parser: &Parser) -> String {
     #[allow(clippy::unwrap_used)]
     static INVALID_SECTION_ID_CHARS: LazyLock<Regex> = LazyLock::new(|| {
         Regex::new(
-            r"<[^>]+>|&lt;[^&]*&gt;|&(?:[a-z][a-z]+\d{0,2}|#\d{2,5}|#x[\da-f]{2,4});|[^ \w\-.]+",
+            r"<[^>]+>|&lt;[^&]*&gt;|&(?:[a-z][a-z]+\d{0,2}|#\d{2,6}|#x[\da-f]{2,5});|[^ \w\-.]+",
         )
         .unwrap()
     });
-- 
2.43.0

