From e27d9ede783459afd3157b068d28a624d647d54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:05 +0000
Subject: [PATCH 01/51] verif: hooks behind cfg(yam_verif) re-exporting private
 items

---
 yam-core/src/lib.rs         | 9 +++++++++
 yam-core/src/parsing/mod.rs | 8 ++++++++
 2 files changed, 17 insertions(+)

diff --git a/yam-core/src/lib.rs b/yam-core/src/lib.rs
index 8b61808..2caf015 100644
--- a/yam-core/src/lib.rs
+++ b/yam-core/src/lib.rs
@@ -28,6 +28,7 @@
 //! - [`YamlOwned`](prelude::YamlOwned): The version of [`Yaml`](prelude::Yaml) which owns its data.
 //! - [`SpannedYaml`](prelude::SpannedYaml): The version of [`Yaml`](prelude::Yaml) which borrows its data and includes [`Span`](prelude::Span) information.
 #![no_std]
+#![allow(unexpected_cfgs)] // `yam_verif` guards the verification hooks
 extern crate alloc;
 extern crate core;
 
@@ -43,3 +44,11 @@ pub mod parsing;
 pub mod prelude;
 mod saphyr_emitter;
 mod util;
+
+/// Verification hooks: re-exports of private items, only with `--cfg yam_verif`.
+#[cfg(yam_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use crate::parsing::verif_hooks::*;
+    pub use crate::saphyr_emitter::{EmitResult, YamlEmitter};
+}
diff --git a/yam-core/src/parsing/mod.rs b/yam-core/src/parsing/mod.rs
index 97f9483..88020cc 100644
--- a/yam-core/src/parsing/mod.rs
+++ b/yam-core/src/parsing/mod.rs
@@ -246,3 +246,11 @@ impl Display for Tag {
         }
     }
 }
+
+/// Verification hooks: re-exports of private items, only with `--cfg yam_verif`.
+#[cfg(yam_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    pub use super::buffered_source::BufferedBytesSource;
+    pub use super::scanner::SkipTabs;
+}
-- 
2.43.0


From 9e8b154f734cff62ad7654dfd16038a0d23600d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:54 +0000
Subject: [PATCH 02/51] fix: StrSource::peek_char no longer reads past the end
 of the input

---
 yam-core/src/parsing/source.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/source.rs b/yam-core/src/parsing/source.rs
index cd7ce6a..f506b99 100644
--- a/yam-core/src/parsing/source.rs
+++ b/yam-core/src/parsing/source.rs
@@ -272,11 +272,13 @@ unsafe impl Source for StrSource<'_> {
     }
 
     fn peek_char(&self) -> char {
-        // TODO make it ACTUALLY safe
-        let mut bytes = unsafe {
-            str::from_utf8_unchecked(self.input.get_unchecked(self.pos..self.pos + 4)).chars()
-        };
-        bytes.next().unwrap_or('\u{FFFD}')
+        // A `char` takes at most four bytes, but fewer might be left in the input.
+        let end = self.input.len().min(self.pos.saturating_add(4));
+        self.input
+            .get(self.pos..end)
+            .and_then(|bytes| bytes.utf8_chunks().next())
+            .and_then(|chunk| chunk.valid().chars().next())
+            .unwrap_or('\u{FFFD}')
     }
 
     fn buf_is_empty(&self) -> bool {
-- 
2.43.0


From a675432c85775576bdf6debd2379dfb45951320a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:18 +0000
Subject: [PATCH 03/51] fix: treat a lone carriage return as a line break
 instead of looping forever

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5c9bacd..afeef65 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -827,7 +827,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 self.leading_whitespace = true;
                 self.src.skip(2);
             }
-            [b'\n', _] => {
+            [b'\n' | b'\r', _] => {
                 self.mark.pos += 1;
                 self.mark.col = 1;
                 self.mark.line += 1;
-- 
2.43.0


From 8319a5348f8c74d77d770c286c56fc8e07f95860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 04/51] fix: a NUL inside a quoted scalar is an error, not an
 endless loop

---
 yam-core/src/parsing/scanner.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index afeef65..e1299c4 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1128,6 +1128,14 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
 
+            // Everything below stops at a NUL, which can't appear in a YAML stream.
+            if self.src.peekz(0) == b'\0' {
+                return Err(YamlError::new_str(
+                    self.mark,
+                    "while scanning a quoted scalar, found a NUL character",
+                ));
+            }
+
             if self.mark.col < self.indent {
                 return Err(YamlError::new_str(
                     start_mark,
-- 
2.43.0


From 35bdb882b0bc9bdfee4ef903836876b9aa500924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:51 +0000
Subject: [PATCH 05/51] fix: version numbers above 255 in %YAML no longer
 overflow

---
 yam-core/src/parsing/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index e1299c4..5e41b41 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2142,7 +2142,7 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn scan_version_directive_number(&mut self, mark: &Marker) -> Result<u8, YamlError> {
-        let mut val = 0;
+        let mut val = 0u8;
         let mut length = 0usize;
         while self.src.peekz(0).is_ascii_digit() {
             let digit = self.src.peekz(0) - b'0';
@@ -2153,7 +2153,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
             length += 1;
-            val = val * 10 + digit;
+            val = val.saturating_mul(10).saturating_add(digit);
             self.skip_non_blank();
         }
 
-- 
2.43.0


From d4bf0a3bcd15c22504e93a468384af25d5b47dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 06/51] fix: keep every %TAG directive of a document and reject
 duplicate handles

---
 yam-core/src/parsing/parser.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 6efa55c..8032f30 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -875,8 +875,8 @@ impl<'input, T: Source> Parser<'input, T> {
 
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
         let mut version_directive_received = false;
+        let mut tags = BTreeMap::new();
         loop {
-            let mut tags = BTreeMap::new();
             match self.peek_token()? {
                 Token {
                     span,
@@ -905,13 +905,17 @@ impl<'input, T: Source> Parser<'input, T> {
                             "the TAG directive must only be given at most once per handle in the same document",
                         ));
                     }
-                    tags.insert(handle.to_string(), prefix.to_string());
+                    // The scanner reports reserved directives with an empty handle.
+                    if !handle.is_empty() {
+                        tags.insert(handle.to_string(), prefix.to_string());
+                    }
                 }
                 _ => break,
             }
-            self.tags = tags;
             self.skip();
         }
+        // With `keep_tags`, tags from previous documents stay unless they are redefined.
+        self.tags.append(&mut tags);
         Ok(())
     }
 
-- 
2.43.0


From 3860d8135c5cf02b8e45ef754af78b2ce463357d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:26 +0000
Subject: [PATCH 07/51] fix: decode multi-byte percent escapes in tags as UTF-8

---
 yam-core/src/parsing/scanner.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 5e41b41..332424b 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1998,9 +1998,10 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
     }
 
+    #[allow(clippy::cast_possible_truncation)]
     fn scan_uri_escapes(&mut self, mark: &Marker) -> Result<Vec<u8>, YamlError> {
         let mut width = 0usize;
-        let mut code = 0u32;
+        let mut bytes = Vec::with_capacity(4);
         loop {
             // self.src.lookahead(3);
 
@@ -2014,7 +2015,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 ));
             }
 
-            let byte = (as_hex(c) << 4) + as_hex(nc);
+            let byte = ((as_hex(c) << 4) + as_hex(nc)) as u8;
             if width == 0 {
                 width = match byte {
                     _ if byte & 0x80 == 0x00 => 1,
@@ -2028,7 +2029,6 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 };
-                code = byte;
             } else {
                 if byte & 0xc0 != 0x80 {
                     return Err(YamlError::new_str(
@@ -2036,8 +2036,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                         "while parsing a tag, found an incorrect trailing UTF-8 byte",
                     ));
                 }
-                code = (code << 8) + byte;
             }
+            bytes.push(byte);
 
             self.skip_n_non_blank(3);
 
@@ -2047,13 +2047,13 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
         }
 
-        match char::from_u32(code) {
-            Some(ch) => Ok(ch.to_string().as_bytes().to_vec()),
-            None => Err(YamlError::new_str(
+        if core::str::from_utf8(&bytes).is_err() {
+            return Err(YamlError::new_str(
                 *mark,
                 "while parsing a tag, found an invalid UTF-8 codepoint",
-            )),
+            ));
         }
+        Ok(bytes)
     }
 
     #[allow(clippy::cast_possible_truncation)]
-- 
2.43.0


From 89755f6aa28244aa75838087ef7b74e997186ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 08/51] fix: deeply indented block scalar cut short by the end
 of input no longer loops forever

---
 yam-core/src/parsing/scanner.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 332424b..d0ea163 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1718,11 +1718,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     }
                     // If we reached our indent, we can break. We must also break if we have
-                    // reached content or EOF; that is, the buffer is not empty and the next
-                    // character is not a space.
-                    if self.mark.col == indent
-                        || (!self.src.buf_is_empty() && self.src.peekz(0) != b' ')
-                    {
+                    // reached content or EOF; that is, the next character is not a space.
+                    if self.mark.col == indent || self.src.peekz(0) != b' ' {
                         break;
                     }
                 }
-- 
2.43.0


From 0bdb598848062907c26d8cc12f69cf680fbbfbdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:03 +0000
Subject: [PATCH 09/51] fix: a plain scalar in a flow collection may contain
 '-' before ,[]{}

---
 yam-core/src/parsing/scanner.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index d0ea163..44b4506 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -968,7 +968,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 break;
             }
 
-            if self.flow_level > 0 && self.src.peekz(0) == b'-' && is_flow(self.src.peekz(1)) {
+            if string.is_empty()
+                && self.flow_level > 0
+                && self.src.peekz(0) == b'-'
+                && is_flow(self.src.peekz(1))
+            {
                 return Err(YamlError::new_str(
                     self.mark,
                     "plain scalar cannot start with '-' followed by ,[]{}",
-- 
2.43.0


From 9e02e0819e32720da1094e1266a4c20e1ff492ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:06 +0000
Subject: [PATCH 10/51] fix: an indented '---' or '...' is plain scalar
 content, not a document marker

---
 yam-core/src/parsing/scanner.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 44b4506..2beb3ce 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -962,9 +962,9 @@ impl<'input, S: Source> Scanner<'input, S> {
         let mut end_mark = self.mark;
 
         loop {
-            let next_is_document_indicator = self.src.next_is_document_indicator();
-            if (self.leading_whitespace && next_is_document_indicator) || self.src.peekz(0) == b'#'
-            {
+            // Document indicators are only recognized at the very beginning of a line.
+            let at_document_indicator = self.mark.col == 1 && self.src.next_is_document_indicator();
+            if at_document_indicator || self.src.peekz(0) == b'#' {
                 break;
             }
 
-- 
2.43.0


From 1b66d05fa52207fb10a0e89a4d81037fb5df8cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:27 +0000
Subject: [PATCH 11/51] fix: a '?' key indicator may be the last character of
 the input

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 2beb3ce..e30d45b 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -603,7 +603,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             }
         }
 
-        if need_whitespace {
+        if need_whitespace && !self.src.buf_is_empty() {
             Err(YamlError::new_str(self.mark, "expected whitespace"))
         } else {
             Ok(())
-- 
2.43.0


From fc30fd499d1b1480b923c5fd1793f64e74fe3f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:31 +0000
Subject: [PATCH 12/51] fix: a '---' marker ends a top-level block scalar

---
 yam-core/src/parsing/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index e30d45b..932da37 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1399,7 +1399,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         while self.mark.col == indent && self.src.peek_checked(0).is_some() {
             if indent == 1 {
                 // self.src.lookahead(4);
-                if self.next_is_document_end() {
+                if self.next_is_document_start() || self.next_is_document_end() {
                     break;
                 }
             }
-- 
2.43.0


From 9e3cdaaad823948f5644f8c1ac2ca6dcf2f77be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:34 +0000
Subject: [PATCH 13/51] fix: an empty explicit key in a flow sequence no longer
 swallows the next token

---
 yam-core/src/parsing/parser.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 8032f30..f3ab09b 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1542,7 +1542,6 @@ impl<'input, T: Source> Parser<'input, T> {
             token_type: TokenType::Value | TokenType::FlowEntry | TokenType::FlowSequenceEnd,
         } = *self.peek_token()?
         {
-            self.skip();
             self.state = State::FlowSequenceEntryMappingValue;
             Ok((Event::empty_scalar(), span))
         } else {
-- 
2.43.0


From ad17a0085d9c29fdbfef132a52b554e6b40f9443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 14/51] fix: anchors of a document are not visible in the
 following ones

---
 yam-core/src/parsing/parser.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index f3ab09b..88bcaa9 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -874,6 +874,8 @@ impl<'input, T: Source> Parser<'input, T> {
     }
 
     fn parser_process_directives(&mut self) -> Result<(), YamlError> {
+        // Anchors do not outlive the document they are defined in.
+        self.anchors.clear();
         let mut version_directive_received = false;
         let mut tags = BTreeMap::new();
         loop {
-- 
2.43.0


From 4cb484ced3b89f3c2c5947e98860e61e594376ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:53 +0000
Subject: [PATCH 15/51] fix: the line break after a block scalar header is not
 part of an empty scalar

---
 yam-core/src/parsing/scanner.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 932da37..17cb610 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1271,7 +1271,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         let mut string = Vec::<u8>::new();
         let mut leading_break = Vec::<u8>::new();
         let mut trailing_breaks = Vec::<u8>::new();
-        let mut chomping_break = Vec::<u8>::new();
 
         // skip '|' or '>'
         self.skip_non_blank();
@@ -1333,7 +1332,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         if is_break(self.src.peekz(0)) {
             // self.src.lookahead(2);
-            self.read_break(&mut chomping_break);
+            self.skip_linebreak();
         }
 
         if self.src.peekz(0) == b'\t' {
@@ -1366,16 +1365,15 @@ impl<'input, S: Source> Scanner<'input, S> {
             let contents = match chomping {
                 // We strip trailing linebreaks. Nothing remain.
                 ChompIndicator::Strip => Vec::new(),
-                // There was no newline after the chomping indicator.
-                _ if self.mark.line == start_mark.line => Vec::new(),
-                // We clip lines, and there was a newline after the chomping indicator.
-                // All other breaks are ignored.
-                ChompIndicator::Clip => chomping_break,
-                // We keep lines. There was a newline after the chomping indicator but nothing
-                // else.
-                ChompIndicator::Keep if trailing_breaks.is_empty() => chomping_break,
-                // Otherwise, the newline after chomping is ignored.
-                ChompIndicator::Keep => trailing_breaks,
+                // The newline after the header isn't content, and there is no other content.
+                ChompIndicator::Clip => Vec::new(),
+                // We keep empty lines, the last of which may lack its line break.
+                ChompIndicator::Keep => {
+                    if self.mark.col > 1 && self.mark.line > start_mark.line {
+                        trailing_breaks.push(b'\n');
+                    }
+                    trailing_breaks
+                }
             };
             self.tokens.push_back(Token {
                 span: self.get_span(start_mark),
-- 
2.43.0


From 71cb27be53e0368da6d90f9a811e010d76a25733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:11 +0000
Subject: [PATCH 16/51] fix: skip a byte order mark at the start of the stream

---
 yam-core/src/parsing/scanner.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 17cb610..bbbe2ea 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -320,6 +320,11 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn fetch_stream_start(&mut self) {
+        // Skip the UTF-8 byte order mark. It isn't content and doesn't take up a column.
+        if [self.src.peekz(0), self.src.peekz(1), self.src.peekz(2)] == [0xEF, 0xBB, 0xBF] {
+            self.src.skip(3);
+            self.mark.pos += 3;
+        }
         let mark = self.mark;
         self.indent = 0;
         self.stream_start_produced = true;
-- 
2.43.0


From d5e7eb19fbe6b0995347dac80bdda9e32e23720f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:38 +0000
Subject: [PATCH 17/51] fix: a pair without a key is accepted in any flow
 sequence

---
 yam-core/src/parsing/parser.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 88bcaa9..540b245 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -1443,6 +1443,14 @@ impl<'input, T: Source> Parser<'input, T> {
                 self.skip();
                 Ok((Event::MappingStart(0, None), span))
             }
+            Token {
+                span,
+                token_type: TokenType::Value,
+            } => {
+                // A single pair mapping whose key is omitted (e.g. `[{}, : a]`).
+                self.state = State::FlowSequenceEntryMappingKey;
+                Ok((Event::MappingStart(0, None), span))
+            }
             _ => {
                 self.push_state(State::FlowSequenceEntry);
                 self.parse_node(false, false)
-- 
2.43.0


From 82e3cb7d2225c8c207bd106e07225083e16dc6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:41 +0000
Subject: [PATCH 18/51] fix: plain scalars in flow collections cannot start
 with '|' or '>'

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index bbbe2ea..ba0a6b6 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -366,7 +366,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             [b':' | b'?', x] if !is_blank_or_break(x) && self.flow_level == 0 => {
                 self.fetch_plain_scalar()
             }
-            [b'%' | b'@' | b'`', _] => {
+            // `|` and `>` only get here in a flow collection, where block scalars are not allowed.
+            [b'%' | b'@' | b'`' | b'|' | b'>', _] => {
                 let chr = self.src.peek_char();
                 Err(YamlError::new_str(
                     self.mark,
-- 
2.43.0


From 1b97059fc7db1482e9e279edd571931c6756bb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:44 +0000
Subject: [PATCH 19/51] fix: plain scalars in flow collections cannot start
 with '?' before ,[]{}

---
 yam-core/src/parsing/scanner.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index ba0a6b6..cf33c67 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -976,12 +976,12 @@ impl<'input, S: Source> Scanner<'input, S> {
 
             if string.is_empty()
                 && self.flow_level > 0
-                && self.src.peekz(0) == b'-'
+                && matches!(self.src.peekz(0), b'-' | b'?')
                 && is_flow(self.src.peekz(1))
             {
                 return Err(YamlError::new_str(
                     self.mark,
-                    "plain scalar cannot start with '-' followed by ,[]{}",
+                    "plain scalar cannot start with '-' or '?' followed by ,[]{}",
                 ));
             }
 
-- 
2.43.0


From 868e2ce6475a5e100ecf50da9606b8dc37f57213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:47 +0000
Subject: [PATCH 20/51] fix: node properties must be separated from a flow
 collection

---
 yam-core/src/parsing/scanner.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index cf33c67..c0bc761 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1517,6 +1517,13 @@ impl<'input, S: Source> Scanner<'input, S> {
             ));
         }
 
+        if matches!(self.src.peekz(0), b'[' | b'{') {
+            return Err(YamlError::new_str(
+                start_mark,
+                "while scanning an anchor or alias, did not find expected whitespace or line break",
+            ));
+        }
+
         let tok = if alias {
             TokenType::Alias(Cow::Owned(unsafe { String::from_utf8_unchecked(string) }))
         } else {
@@ -1564,7 +1571,7 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         if is_blank_or_breakz(self.src.peekz(0))
-            || (self.flow_level > 0 && is_flow(self.src.peekz(0)))
+            || (self.flow_level > 0 && matches!(self.src.peekz(0), b',' | b']' | b'}'))
         {
             // XXX: ex 7.2, an empty scalar can follow a secondary tag
             Ok(Token {
-- 
2.43.0


From 30dad4186776ad056c875be010ad2354d1579ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:18 +0000
Subject: [PATCH 21/51] fix: mapping keys that are tagged or bad values no
 longer shift the pairs of a loaded mapping

---
 yam-core/src/prelude/loader.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/prelude/loader.rs b/yam-core/src/prelude/loader.rs
index 9ac7bbc..6a27412 100644
--- a/yam-core/src/prelude/loader.rs
+++ b/yam-core/src/prelude/loader.rs
@@ -37,7 +37,7 @@ where
 {
     docs: Vec<Node>,
     doc_stack: Vec<(Node, usize, Option<Cow<'input, Tag>>)>,
-    key_stack: Vec<Node>,
+    key_stack: Vec<Option<Node>>,
     anchor_map: BTreeMap<usize, Node>,
 }
 
@@ -141,12 +141,11 @@ where
             } else if parent_node.is_mapping() {
                 let curr_key = self.key_stack.last_mut().unwrap();
 
-                if curr_key.is_bad_value() {
-                    *curr_key = node;
-                } else {
-                    parent_node
-                        .mapping_mut()
-                        .push_mapping(curr_key.take(), node);
+                match curr_key.take() {
+                    // current node is a key
+                    None => *curr_key = Some(node),
+                    // current node is a value
+                    Some(key) => parent_node.mapping_mut().push_mapping(key, node),
                 }
             }
         } else {
@@ -429,7 +428,7 @@ where
             Event::MappingStart(aid, tag) => {
                 let node: Node = YamlData::Mapping(Vec::new()).into();
                 self.doc_stack.push((node.with_start(mark), aid, tag));
-                self.key_stack.push(YamlData::BadValue.into());
+                self.key_stack.push(None);
             }
             Event::MappingEnd | Event::SequenceEnd => {
                 if ev == Event::MappingEnd {
-- 
2.43.0


From 129ee8944a7afdb77bcdf5c1769bc501340f3f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:22 +0000
Subject: [PATCH 22/51] fix: indexing a mapping mutably by an integer key
 yields the value, not the key

---
 yam-core/src/node/yaml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/node/yaml.rs b/yam-core/src/node/yaml.rs
index 1f1f64e..89e95ea 100644
--- a/yam-core/src/node/yaml.rs
+++ b/yam-core/src/node/yaml.rs
@@ -383,7 +383,7 @@ where
                     .iter_mut()
                     .find(|x| x.key == ind)
                     .unwrap()
-                    .key
+                    .value
             }
             NodeType::Sequence => self.sequence_mut().index_mut(index),
             _ => panic!("Expected Mapping and Sequence got {0:?} instead", typ),
-- 
2.43.0


From d214e78a5dc44b111be00783acfec91e29d1a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:46 +0000
Subject: [PATCH 23/51] fix: scalars with a second sign ('+-5', '0x-5') are
 strings, not integers

---
 yam-core/src/node/scalar.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 092cc00..2225594 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -129,21 +129,17 @@ where
 
         if bytes.len() >= 2 {
             match (bytes[0], bytes[1]) {
-                (b'0', b'x') => {
+                // A sign is not allowed after the prefix, but `from_str_radix` accepts it.
+                (b'0', b'x') if bytes[2..].iter().all(u8::is_ascii_hexdigit) => {
                     if let Ok(i) = i64::from_str_radix(&s[2..], 16) {
                         return Self::Integer(i.into());
                     }
                 }
-                (b'0', b'o') => {
+                (b'0', b'o') if bytes[2..].iter().all(u8::is_ascii_digit) => {
                     if let Ok(i) = i64::from_str_radix(&s[2..], 8) {
                         return Self::Integer(i.into());
                     }
                 }
-                (b'+', _) => {
-                    if let Ok(i) = s[1..].parse::<i64>() {
-                        return Self::Integer(i.into());
-                    }
-                }
                 _ => {}
             }
         }
-- 
2.43.0


From 7e00cf1ac0cd29d21211f6d049df2da849445326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:49 +0000
Subject: [PATCH 24/51] fix: an empty plain scalar resolves to null

---
 yam-core/src/node/scalar.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index 2225594..c218e3d 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -145,6 +145,7 @@ where
         }
 
         match bytes.len() {
+            0 => return Self::Null(PhantomData),
             1 if bytes[0] == b'~' => return Self::Null(PhantomData),
             4 => {
                 let f = bytes[0] & 0xDF;
-- 
2.43.0


From 5d783c9a5bec53a0293d3802a144781f73da7e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:53 +0000
Subject: [PATCH 25/51] fix: explicit core schema tags accept every form of
 their type (!!bool TRUE, !!int 0x1F)

---
 yam-core/src/node/scalar.rs | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index c218e3d..ba62be6 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -90,16 +90,11 @@ where
         } else if let Some(tag) = tag {
             if tag.is_yaml_core_schema() {
                 match tag.suffix.as_ref() {
-                    "bool" => v.parse::<bool>().ok().map(|x| Self::Bool(x)),
-                    "int" => parse_i64_from_cow(&v).ok().map(|x| Self::Integer(x.into())),
+                    // The tag must agree with what the core schema makes of the value.
+                    "bool" => Some(Self::parse_from_cow(v)).filter(|x| matches!(x, Self::Bool(_))),
+                    "int" => Some(Self::parse_from_cow(v)).filter(|x| matches!(x, Self::Integer(_))),
                     "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
-                    "null" => {
-                        if ScalarValue::is_null_tagged(&v, &tag) {
-                            Some(Self::Null(PhantomData))
-                        } else {
-                            None
-                        }
-                    }
+                    "null" => Some(Self::parse_from_cow(v)).filter(|x| matches!(x, Self::Null(_))),
                     "str" => Some(Self::String(v.into())),
                     // If we have a tag we do not recognize, return `None`.
                     _ => None,
-- 
2.43.0


From ceb47628aff53882818d526e05e6135a06146683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:38 +0000
Subject: [PATCH 26/51] fix: only a plain null ('', ~, null, Null, NULL) is
 deserialized as None or unit

---
 yam-core/src/parsing/parser.rs | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 540b245..a75cc4c 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -81,19 +81,17 @@ impl<'input> ScalarValue<'input> {
     pub fn is_null(&self) -> bool {
         let dummy = Cow::Owned(Tag::empty());
         let x = self.tag.as_ref().unwrap_or(&dummy);
-        Self::is_null_tagged(&self.value, x)
+        // Only plain scalars are resolved, any other is a string.
+        self.scalar_type == ScalarType::Plain && Self::is_null_tagged(&self.value, x)
     }
 
     #[doc(hidden)]
     #[must_use]
     pub fn is_null_tagged(v: &str, tag: &Tag) -> bool {
-        if v.is_empty() || v == "null" {
-            return true;
+        if tag.is_yaml_core_schema() && tag.suffix != "null" {
+            return false;
         }
-        if tag.is_yaml_core_schema() {
-            return v == "~" || v == "null";
-        }
-        false
+        matches!(v, "" | "~" | "null" | "Null" | "NULL")
     }
 }
 
-- 
2.43.0


From 290dddb1842a4de00cdc219d588c0000bbe2d05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 27/51] fix: a deserialized collection always consumes its own
 end event

---
 yam-serde/src/de.rs | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index bcbfe9d..c5f8966 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -34,13 +34,10 @@ where
     R: Source,
 {
     fn next_el(&mut self) -> Option<YamEvent<'a>> {
-        if self.has_peeked {
-            self.has_peeked = false;
-            return Some(self.last_event.clone());
+        if !self.has_peeked {
+            self.last_event = self.yaml_iter.next()?;
+            self.has_peeked = true;
         }
-
-        self.has_peeked = true;
-        self.last_event = self.yaml_iter.next()?;
         Some(self.last_event.clone())
     }
 
@@ -261,9 +258,7 @@ where
         }
         self.skip();
         let val = visitor.visit_seq(SeqCollection::new_seq(self))?;
-        if !matches!(self.last_event, YamEvent::SeqEnd)
-            && !matches!(self.next_el(), Some(YamEvent::SeqEnd))
-        {
+        if !matches!(self.next_el(), Some(YamEvent::SeqEnd)) {
             return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
                 expected: "SeqEnd",
                 found: self.last_event.as_simple_str(),
@@ -285,9 +280,7 @@ where
         }
         self.skip();
         let val = visitor.visit_map(SeqCollection::new_map(self))?;
-        if !matches!(self.last_event, YamEvent::MapEnd)
-            && !matches!(self.next_el(), Some(YamEvent::MapEnd))
-        {
+        if !matches!(self.next_el(), Some(YamEvent::MapEnd)) {
             return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
                 expected: "MapEnd",
                 found: self.last_event.as_simple_str(),
@@ -321,6 +314,7 @@ where
                         expected: "MapEnd",
                     }));
                 }
+                self.skip();
                 Ok(value)
             }
             _ => Err(DeYamlError::Custom("Expected enum".to_string())),
-- 
2.43.0


From eb0ccc83a617c3181281726405bd7382228c230a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:16 +0000
Subject: [PATCH 28/51] fix: a unit variant written as a mapping no longer
 panics

---
 yam-serde/src/de.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index c5f8966..3066294 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -494,7 +494,7 @@ where
     type Error = DeYamlError;
 
     fn unit_variant(self) -> Result<(), Self::Error> {
-        todo!()
+        de::Deserialize::deserialize(&mut *self.de)
     }
 
     fn newtype_variant_seed<T>(self, seed: T) -> Result<T::Value, Self::Error>
-- 
2.43.0


From a45078de8c4043269c0ea5ba302e3942a33ff39a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:19 +0000
Subject: [PATCH 29/51] fix: a newtype struct deserializes from the value it
 wraps

---
 yam-serde/src/de.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 3066294..7de89ad 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -240,9 +240,20 @@ where
         }
     }
 
+    fn deserialize_newtype_struct<V>(
+        self,
+        _name: &'static str,
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: de::Visitor<'de>,
+    {
+        visitor.visit_newtype_struct(self)
+    }
+
     forward_to_deserialize_any! {
         bool i128 u128 f32 f64 char str string
-        bytes byte_buf unit_struct newtype_struct tuple
+        bytes byte_buf unit_struct tuple
         tuple_struct struct ignored_any
     }
 
-- 
2.43.0


From 06533f84be259f821ffff6c2f8d08ed26e07fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:30 +0000
Subject: [PATCH 30/51] fix: typed integers accept the hexadecimal and octal
 notations of the core schema

---
 yam-serde/src/de.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 7de89ad..8b25820 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -1,3 +1,4 @@
+use alloc::borrow::Cow;
 use alloc::format;
 use alloc::string::{String, ToString};
 use core::fmt::{Display, Formatter};
@@ -73,10 +74,14 @@ macro_rules! parse_from_cow {
     ($e:expr, $v:expr, $method:ident, $t:ty) => {
         match $e.parse::<$t>() {
             Ok(i) => $v.$method(i),
-            Err(_) => Err(DeYamlError::Custom(format!(
-                "Failed to parse {:?} from scalar value",
-                stringify!($t)
-            ))),
+            // Other notations of the core schema (0x1F, 0o17)
+            Err(_) => match YamlScalar::<f64, i64, Cow<str>>::parse_from_cow(Cow::Borrowed(&**$e)) {
+                YamlScalar::Integer(i) if <$t>::try_from(i).is_ok() => $v.visit_i64(i),
+                _ => Err(DeYamlError::Custom(format!(
+                    "Failed to parse {:?} from scalar value",
+                    stringify!($t)
+                ))),
+            },
         }
     };
 }
-- 
2.43.0


From 19844dee92484799b1712a632937042b2a08b127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:46 +0000
Subject: [PATCH 31/51] fix: format the previous fixes with rustfmt

---
 yam-core/src/node/scalar.rs |  4 +++-
 yam-serde/src/de.rs         | 16 +++++++++-------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/node/scalar.rs b/yam-core/src/node/scalar.rs
index ba62be6..256be71 100644
--- a/yam-core/src/node/scalar.rs
+++ b/yam-core/src/node/scalar.rs
@@ -92,7 +92,9 @@ where
                 match tag.suffix.as_ref() {
                     // The tag must agree with what the core schema makes of the value.
                     "bool" => Some(Self::parse_from_cow(v)).filter(|x| matches!(x, Self::Bool(_))),
-                    "int" => Some(Self::parse_from_cow(v)).filter(|x| matches!(x, Self::Integer(_))),
+                    "int" => {
+                        Some(Self::parse_from_cow(v)).filter(|x| matches!(x, Self::Integer(_)))
+                    }
                     "float" => parse_core_schema_fp(&v).map(|x| Self::FloatingPoint(x.into())),
                     "null" => Some(Self::parse_from_cow(v)).filter(|x| matches!(x, Self::Null(_))),
                     "str" => Some(Self::String(v.into())),
diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index 8b25820..cef0419 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -75,13 +75,15 @@ macro_rules! parse_from_cow {
         match $e.parse::<$t>() {
             Ok(i) => $v.$method(i),
             // Other notations of the core schema (0x1F, 0o17)
-            Err(_) => match YamlScalar::<f64, i64, Cow<str>>::parse_from_cow(Cow::Borrowed(&**$e)) {
-                YamlScalar::Integer(i) if <$t>::try_from(i).is_ok() => $v.visit_i64(i),
-                _ => Err(DeYamlError::Custom(format!(
-                    "Failed to parse {:?} from scalar value",
-                    stringify!($t)
-                ))),
-            },
+            Err(_) => {
+                match YamlScalar::<f64, i64, Cow<str>>::parse_from_cow(Cow::Borrowed(&**$e)) {
+                    YamlScalar::Integer(i) if <$t>::try_from(i).is_ok() => $v.visit_i64(i),
+                    _ => Err(DeYamlError::Custom(format!(
+                        "Failed to parse {:?} from scalar value",
+                        stringify!($t)
+                    ))),
+                }
+            }
         }
     };
 }
-- 
2.43.0


From fef39a835387e04194bc9910b1811e45b8bdb3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:50 +0000
Subject: [PATCH 32/51] fix: an alias is an error in deserialization instead of
 being silently dropped

---
 yam-core/src/parsing/parser_iter.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index bb248be..a81fa46 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -38,7 +38,7 @@ impl YamEvent<'_> {
         match self {
             YamEvent::DocStart => "DocStart",
             YamEvent::DocEnd => "DocEnd",
-            YamEvent::StreamEnd => "StreamStart",
+            YamEvent::StreamEnd => "StreamEnd",
             YamEvent::Alias(_) => "Alias",
             YamEvent::Scalar(_) => "Scalar",
             YamEvent::SeqStart(_, _) => "SeqStart",
@@ -130,7 +130,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
         };
         match ev {
             // Ignored events
-            Event::Nothing | Event::Alias(_) | Event::Comment(_) => ControlFlow::Continue(()),
+            Event::Nothing | Event::Comment(_) => ControlFlow::Continue(()),
             // Unexpected events
             Event::StreamStart => ControlFlow::Break(Err(YamlError::UnExpectedEvent {
                 expected: "StreamStart",
@@ -150,6 +150,7 @@ impl<'de, R: Source> ParserIter<'de, R> {
                 ControlFlow::Break(Ok(YamEvent::DocEnd))
             }
 
+            Event::Alias(id) => ControlFlow::Break(Ok(YamEvent::Alias(id))),
             Event::Scalar(a) => ControlFlow::Break(Ok(YamEvent::Scalar(a))),
             Event::SequenceStart(alias, tag) => {
                 ControlFlow::Break(Ok(YamEvent::SeqStart(alias, tag)))
-- 
2.43.0


From efa73b46dce938d5aeff6717bace42a3e9797790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:54 +0000
Subject: [PATCH 33/51] fix: from_str reports errors and further documents
 after the value

---
 yam-core/src/parsing/parser_iter.rs |  5 +++++
 yam-serde/src/de.rs                 | 21 +++++++++++++++++++++
 yam-serde/src/lib.rs                |  1 +
 3 files changed, 27 insertions(+)

diff --git a/yam-core/src/parsing/parser_iter.rs b/yam-core/src/parsing/parser_iter.rs
index a81fa46..6de02fa 100644
--- a/yam-core/src/parsing/parser_iter.rs
+++ b/yam-core/src/parsing/parser_iter.rs
@@ -72,6 +72,11 @@ where
             error: None,
         }
     }
+
+    /// Takes the error that ended the iteration, if any.
+    pub fn take_error(&mut self) -> Option<YamlError> {
+        self.error.take()
+    }
 }
 
 impl<'de, R> Iterator for ParserIter<'de, R>
diff --git a/yam-serde/src/de.rs b/yam-serde/src/de.rs
index cef0419..00e48ba 100644
--- a/yam-serde/src/de.rs
+++ b/yam-serde/src/de.rs
@@ -46,6 +46,27 @@ where
         self.has_peeked = false;
     }
 
+    /// Checks that nothing follows the deserialized value.
+    pub(crate) fn end(&mut self) -> Result<(), DeYamlError> {
+        if !matches!(self.skip_doc(), Some(YamEvent::DocEnd)) {
+            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
+                expected: "DocEnd",
+                found: self.last_event.as_simple_str(),
+            }));
+        }
+        self.skip();
+        if self.next_el().is_some() {
+            return Err(DeYamlError::ParserError(YamlError::UnExpectedEvent {
+                expected: "StreamEnd",
+                found: self.last_event.as_simple_str(),
+            }));
+        }
+        match self.yaml_iter.take_error() {
+            Some(err) => Err(DeYamlError::ParserError(err)),
+            None => Ok(()),
+        }
+    }
+
     fn peek_null(&mut self) -> bool {
         if let Some(YamEvent::Scalar(scalar)) = self.skip_doc() {
             scalar.is_null()
diff --git a/yam-serde/src/lib.rs b/yam-serde/src/lib.rs
index a63847d..3824b23 100644
--- a/yam-serde/src/lib.rs
+++ b/yam-serde/src/lib.rs
@@ -67,6 +67,7 @@ where
 {
     let mut de = crate::de::YamIterDeserializer::new(input);
     let value = T::deserialize(&mut de)?;
+    de.end()?;
 
     Ok(value)
 }
-- 
2.43.0


From 45732b1eda079fd9c3cfe328c7154a0ebca67317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:56 +0000
Subject: [PATCH 34/51] fix: the serializer escapes strings and only folds them
 where it keeps the value

---
 yam-serde/src/escape_str.rs | 122 ++++++------------------------------
 yam-serde/src/ser.rs        |  83 +++++++-----------------
 2 files changed, 39 insertions(+), 166 deletions(-)

diff --git a/yam-serde/src/escape_str.rs b/yam-serde/src/escape_str.rs
index bcc4108..cd4c332 100644
--- a/yam-serde/src/escape_str.rs
+++ b/yam-serde/src/escape_str.rs
@@ -3,113 +3,27 @@ use core::fmt::{Error, Write};
 pub(crate) fn peekz_byte(array: &[u8], pos: usize) -> u8 {
     if pos < array.len() { array[pos] } else { 0 }
 }
-pub(crate) fn decode_hex<W: Write>(writer: &mut W, digit_slice: &[u8]) -> Result<(), Error> {
-    if !digit_slice.iter().all(u8::is_ascii_hexdigit) {
-        writer.write_char('\u{FFFD}')?;
-        return Ok(());
-    }
-
-    let code_point = digit_slice
-        .iter()
-        .map(|x| match *x {
-            n @ b'0'..=b'9' => n - b'0',
-            a @ b'a'..=b'f' => a - b'a' + 10,
-            a @ b'A'..=b'F' => a - b'A' + 10,
-            _ => 0u8,
-        })
-        .fold(0u32, |acc, digit| (acc << 4) + u32::from(digit));
-    match code_point {
-        // YAML has special escape rules for certain values
-        // See more in https://yaml.org/spec/1.2.2/#57-escaped-characters
-        0 => writer.write_char('\u{FFFD}')?,
-        0x07 => writer.write_str("\\a")?,
-        0x08 => writer.write_str("\\b")?,
-        0x09 => writer.write_str("\\t")?,
-        0x0A => writer.write_str("\\n")?,
-        0x0B => writer.write_str("\\v")?,
-        0x0C => writer.write_str("\\f")?,
-        0x0D => writer.write_str("\\r")?,
-        0x1B => writer.write_str("\\e")?,
-        0x22 => writer.write_str("\\\"")?,
-        0x2F => writer.write_str("\\/")?,
-        0x5C => writer.write_str("\\\\")?,
-        0x85 => writer.write_str("\\N")?,
-        0xA0 => writer.write_str("\\_")?,
-        0x2028 => writer.write_str("\\L")?,
-        0x2029 => writer.write_str("\\P")?,
-        _ => {
-            let encode_char = char::from_u32(code_point);
-            if let Some(encode_char) = encode_char {
-                return writer.write_char(encode_char);
-            }
-        }
-    }
-
-    Ok(())
-}
-
+/// Writes the value the way it reads inside a double quoted scalar.
 pub(crate) fn escape_double_quotes<W: Write>(writer: &mut W, value: &str) -> Result<(), Error> {
-    let bytes = value.as_bytes();
-
-    let (mut old_pos, mut pos) = (0, 0);
-    while pos < bytes.len() {
-        let byte_char = bytes[pos];
-        let peek_char = peekz_byte(bytes, pos + 1);
-        match (byte_char, peek_char) {
-            (b'\\', b't' | b'r' | b'n') => {
-                // TODO normalize `\r\n` into `\n`
-                pos += 2;
-            }
-
-            (b'\t', _) => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\t")?;
-                pos += 1;
-                old_pos = pos;
-            }
-            (b'\r', b'\n') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\n")?;
-                pos += 2;
-                old_pos = pos;
-            }
-            (b'\n', ..) => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                write!(writer, "\\n")?;
-                pos += 1;
-                old_pos = pos;
-            }
-            (b'\\', b'x') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 4])?;
-                pos += 4;
-                old_pos = pos;
-            }
-            (b'\\', b'u') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 6])?;
-                pos += 6;
-                old_pos = pos;
-            }
-            (b'\\', b'U') => {
-                let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-                writer.write_str(prev_str)?;
-                decode_hex(writer, &bytes[pos + 2..pos + 8])?;
-                pos += 8;
-                old_pos = pos;
-            }
-            _ => {
-                pos += 1;
-            }
+    for c in value.chars() {
+        // See more in https://yaml.org/spec/1.2.2/#57-escaped-characters
+        match c {
+            '"' => writer.write_str("\\\"")?,
+            '\\' => writer.write_str("\\\\")?,
+            '\t' => writer.write_str("\\t")?,
+            '\n' => writer.write_str("\\n")?,
+            '\r' => writer.write_str("\\r")?,
+            // Characters that are not printable and line breaks of YAML 1.1
+            '\0'..='\x1F'
+            | '\x7F'..='\u{9F}'
+            | '\u{2028}'
+            | '\u{2029}'
+            | '\u{FEFF}'
+            | '\u{FFFE}'
+            | '\u{FFFF}' => write!(writer, "\\u{:04X}", c as u32)?,
+            _ => writer.write_char(c)?,
         }
     }
-    let prev_str = unsafe { core::str::from_utf8_unchecked(&bytes[old_pos..pos]) };
-    writer.write_str(prev_str)?;
     Ok(())
 }
 
diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index 55bd3fb..b3b7ba9 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -2,30 +2,11 @@ use crate::escape_str;
 use crate::escape_str::peekz_byte;
 use alloc::borrow::Cow;
 use alloc::string::String;
-use alloc::vec::Vec;
 use core::fmt::{Debug, Display, Error, Write};
 use serde_core::ser::SerializeStructVariant;
 use serde_core::{Serialize, ser};
 use unicode_segmentation::UnicodeSegmentation;
 
-trait YamlWhitespace {
-    fn is_splittable_ws(&self) -> bool;
-    fn is_last_char_splittable_ws(&self) -> bool;
-}
-
-impl YamlWhitespace for str {
-    fn is_splittable_ws(&self) -> bool {
-        self.bytes().all(|c| c == b' ' || c == b'\n')
-    }
-
-    fn is_last_char_splittable_ws(&self) -> bool {
-        self.bytes()
-            .last()
-            .map(|c| c == b' ' || c == b'\n')
-            .unwrap_or_default()
-    }
-}
-
 #[derive(Debug)]
 pub struct YamSerializer<W> {
     /// This string starts empty and JSON is appended as values are serialized.
@@ -100,56 +81,34 @@ where
         Ok(())
     }
 
-    fn line_split_at(&mut self, line_buff: &str, line_split: &str) -> Result<(), Error> {
-        let escaped = if line_split == " " { "\n" } else { "\n\n" };
-        self.writer.write_str(line_buff)?;
-        self.writer.write_str(escaped)?;
-        self.write_indentors(self.current_depth)
-    }
-
     fn write_double_quote_multi(&mut self, str: &str) -> Result<(), Error> {
         self.write_char('"')?;
 
-        let mut line_buff = String::with_capacity(self.formatter.pref_string_length + 20);
-        let mut line_buff_len = 0;
-        let word_bounds = str
-            .split_word_bound_indices()
-            .map(|(_, word)| (word, word.graphemes(true).count()))
-            .collect::<Vec<(&str, usize)>>();
-
-        for (word, grapheme_len) in word_bounds {
-            if self.is_time_to_split(line_buff_len, grapheme_len) {
-                let word_is_splittable = word.is_splittable_ws();
-                let line_buff_is_splittable = line_buff.is_last_char_splittable_ws();
-
-                if line_buff_is_splittable {
-                    // Try to split line on existing buffer
-                    let (line, nl) = line_buff.split_at(line_buff.len() - 1);
-                    self.line_split_at(line, nl)?;
-
-                    // Set current buffer to current word
-                    line_buff.clear();
-                    line_buff.push_str(word);
-                    line_buff_len = grapheme_len;
-                } else if word_is_splittable {
-                    // Try to split line on word
-                    let (front, nl) = word.split_at(0);
-                    self.line_split_at(&line_buff, nl)?;
-
-                    line_buff.clear();
-                    line_buff.push_str(front);
-                    line_buff_len = front.len();
+        let mut line_len = 0;
+        let mut prev_word = "";
+        for (i, word) in str.split(' ').enumerate() {
+            let mut escaped = String::with_capacity(word.len());
+            escape_str::escape_double_quotes(&mut escaped, word)?;
+            let word_len = escaped.graphemes(true).count();
+
+            if i > 0 {
+                // Only a lone space between words can be folded, and the next line
+                // must not look like a document marker.
+                let is_splittable =
+                    !prev_word.is_empty() && !word.is_empty() && !word.starts_with(['-', '.']);
+                if is_splittable && self.is_time_to_split(line_len + 1, word_len) {
+                    self.write_nl()?;
+                    self.write_indentors(self.current_depth)?;
+                    line_len = 0;
                 } else {
-                    // Write the word to buffer
-                    line_buff.push_str(word);
-                    line_buff_len += grapheme_len;
+                    self.write_char(' ')?;
+                    line_len += 1;
                 }
-            } else {
-                line_buff.push_str(word);
-                line_buff_len += grapheme_len;
             }
+            self.write_single_string(&escaped)?;
+            line_len += word_len;
+            prev_word = word;
         }
-        self.writer.write_str(&line_buff)?;
         self.write_char('"')?;
         Ok(())
     }
-- 
2.43.0


From 0aa329dec592fe4d44a30fa318afa311849e796c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:59 +0000
Subject: [PATCH 35/51] fix: floats are serialized as the core schema spells
 them (.nan, .inf, 1.0)

---
 yam-serde/src/ser.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index b3b7ba9..ad09418 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -270,6 +270,18 @@ where
         write!(self.writer, "{value}")?;
         Ok(())
     }
+
+    /// Writes a float the way the core schema spells it.
+    fn serialize_float<T: Debug>(&mut self, class: f64, value: T) -> Result<(), Error> {
+        if class.is_nan() {
+            self.writer.write_str(".nan")
+        } else if class.is_infinite() {
+            let inf = if class > 0.0 { ".inf" } else { "-.inf" };
+            self.writer.write_str(inf)
+        } else {
+            write!(self.writer, "{value:?}")
+        }
+    }
 }
 
 impl<W> ser::Serializer for &mut YamSerializer<W>
@@ -326,23 +338,11 @@ where
     }
 
     fn serialize_f32(self, v: f32) -> Result<Self::Ok, Self::Error> {
-        if v.is_nan() && v.is_sign_negative() {
-            write!(self.writer, "-")?;
-        }
-
-        write!(self.writer, "{v}")?;
-
-        Ok(())
+        self.serialize_float(f64::from(v), v)
     }
 
     fn serialize_f64(self, v: f64) -> Result<Self::Ok, Self::Error> {
-        if v.is_nan() && v.is_sign_negative() {
-            write!(self.writer, "-")?;
-        }
-
-        write!(self.writer, "{v}")?;
-
-        Ok(())
+        self.serialize_float(v, v)
     }
 
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-- 
2.43.0


From 907a37f2cab088adce781fa475443f78a9d0ff65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:02 +0000
Subject: [PATCH 36/51] fix: control characters are escaped when a char is
 serialized

---
 yam-serde/src/ser.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yam-serde/src/ser.rs b/yam-serde/src/ser.rs
index ad09418..ea37b51 100644
--- a/yam-serde/src/ser.rs
+++ b/yam-serde/src/ser.rs
@@ -346,11 +346,14 @@ where
     }
 
     fn serialize_char(self, v: char) -> Result<Self::Ok, Self::Error> {
-        let string_chr = if v == '\'' { '"' } else { '\'' };
+        if v == '\'' || v.is_control() || !v.is_ascii() {
+            let mut buf = [0; 4];
+            return self.write_double_quote_single(v.encode_utf8(&mut buf));
+        }
 
-        self.writer.write_char(string_chr)?;
+        self.writer.write_char('\'')?;
         self.writer.write_char(v)?;
-        self.writer.write_char(string_chr)?;
+        self.writer.write_char('\'')?;
         Ok(())
     }
 
-- 
2.43.0


From d476cb78c8e49a597ef9c8d7aed71817ae67e28f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 37/51] fix: a flow mapping nested in a single pair of a flow
 sequence keeps all its pairs

---
 yam-core/src/parsing/scanner.rs | 66 ++++++++++++++++++---------------
 1 file changed, 37 insertions(+), 29 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index c0bc761..33394e7 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -83,6 +83,10 @@ enum ImplicitMappingState {
     ///
     /// Note that this state is not set immediately (we need to have encountered the `:` to know).
     Inside,
+    /// We are inside a single pair that was started with `?`.
+    Explicit,
+    /// The flow collection is a mapping, its pairs are not implicit mappings.
+    Mapping,
 }
 
 #[allow(clippy::struct_excessive_bools)] // TODO maybe too much bools?
@@ -101,7 +105,6 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
-    flow_mapping_started: bool,
 
     adjacent_value_allowed_at: usize,
     tokens_parsed: usize,
@@ -133,7 +136,6 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
-            flow_mapping_started: false,
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
@@ -389,12 +391,12 @@ impl<'input, S: Source> Scanner<'input, S> {
         let start_mark = self.mark;
         self.skip_non_blank();
 
-        if token_type == TokenType::FlowMappingStart {
-            self.flow_mapping_started = true;
-        } else {
-            self.implicit_flow_mapping_states
-                .push(ImplicitMappingState::Possible);
-        }
+        self.implicit_flow_mapping_states
+            .push(if token_type == TokenType::FlowMappingStart {
+                ImplicitMappingState::Mapping
+            } else {
+                ImplicitMappingState::Possible
+            });
 
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
@@ -410,10 +412,8 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         self.simple_key_allowed = false;
 
-        if matches!(token_type, TokenType::FlowSequenceEnd) {
-            self.end_implicit_mapping(self.mark);
-            self.implicit_flow_mapping_states.pop();
-        }
+        self.end_implicit_mapping(self.mark);
+        self.implicit_flow_mapping_states.pop();
 
         let start_mark = self.mark;
         self.skip_non_blank();
@@ -429,16 +429,20 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn end_implicit_mapping(&mut self, mark: Marker) {
-        if let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut()
-            && *implicit_mapping == ImplicitMappingState::Inside
-        {
-            self.flow_mapping_started = false;
-            *implicit_mapping = ImplicitMappingState::Possible;
-            let span = self.get_span(mark);
-            self.tokens.push_back(Token {
-                span,
-                token_type: TokenType::FlowMappingEnd,
-            });
+        let Some(implicit_mapping) = self.implicit_flow_mapping_states.last_mut() else {
+            return;
+        };
+        match *implicit_mapping {
+            ImplicitMappingState::Inside => {
+                *implicit_mapping = ImplicitMappingState::Possible;
+                let span = self.get_span(mark);
+                self.tokens.push_back(Token {
+                    span,
+                    token_type: TokenType::FlowMappingEnd,
+                });
+            }
+            ImplicitMappingState::Explicit => *implicit_mapping = ImplicitMappingState::Possible,
+            ImplicitMappingState::Possible | ImplicitMappingState::Mapping => {}
         }
     }
 
@@ -549,9 +553,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                 TokenType::BlockMappingStart,
                 start_mark,
             );
-        } else {
-            // The scanner, upon emitting a `Key`, will prepend a `MappingStart` event.
-            self.flow_mapping_started = true;
+        } else if let Some(state @ ImplicitMappingState::Possible) =
+            self.implicit_flow_mapping_states.last_mut()
+        {
+            // The parser, upon reading a `Key`, will prepend a `MappingStart` event.
+            *state = ImplicitMappingState::Explicit;
         }
 
         self.remove_simple_key()?;
@@ -619,10 +625,12 @@ impl<'input, S: Source> Scanner<'input, S> {
     fn fetch_value(&mut self) -> ScanResult {
         let sk = self.simple_keys.last().unwrap().clone();
         let start_mark = self.mark;
-        let is_implicit_flow_mapping =
-            !self.implicit_flow_mapping_states.is_empty() && !self.flow_mapping_started;
-        if is_implicit_flow_mapping {
-            *self.implicit_flow_mapping_states.last_mut().unwrap() = ImplicitMappingState::Inside;
+        let mut is_implicit_flow_mapping = false;
+        if let Some(state @ ImplicitMappingState::Possible) =
+            self.implicit_flow_mapping_states.last_mut()
+        {
+            *state = ImplicitMappingState::Inside;
+            is_implicit_flow_mapping = true;
         }
 
         // Skip over ':'.
-- 
2.43.0


From ee23d9914e189aada1d473e67055bb1b66b38209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:28 +0000
Subject: [PATCH 38/51] fix: an empty block scalar may be followed by a
 document marker or a less indented comment

---
 yam-core/src/parsing/scanner.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 33394e7..08f1877 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1399,7 +1399,12 @@ impl<'input, S: Source> Scanner<'input, S> {
             return Ok(());
         }
 
-        if self.mark.col < indent && self.mark.col > self.indent {
+        // A scalar without content may be followed by a document marker or, if its indentation is
+        // known, a less indented comment.
+        let at_marker =
+            self.mark.col == 1 && (self.next_is_document_start() || self.next_is_document_end());
+        let ends_empty = at_marker || (increment > 0 && self.src.peekz(0) == b'#');
+        if self.mark.col < indent && self.mark.col > self.indent && !ends_empty {
             return Err(YamlError::new_str(
                 self.mark,
                 "wrongly indented line in block scalar",
-- 
2.43.0


From 3faeebe354a70c692d99b115a3e7e26da827422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 39/51] fix: the name of a reserved directive may contain any
 non-space character

---
 yam-core/src/parsing/scanner.rs | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 08f1877..607da0c 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -2090,20 +2090,19 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.mark.pos += n_chars;
         self.mark.col += n_chars as u32;
 
-        if string.is_empty() {
+        if !is_blank_or_breakz(self.src.peekz(0)) {
+            // Other characters are only part of the names of reserved directives. Those are ignored.
+            let line_len = self.src.skip_while_non_breakz();
+            self.mark.pos += line_len;
+            self.mark.col += line_len as u32;
+            string.clear();
+        } else if string.is_empty() {
             return Err(YamlError::new_str(
                 start_mark,
                 "while scanning a directive, could not find expected directive name",
             ));
         }
 
-        if !is_blank_or_break(self.src.peekz(0)) {
-            return Err(YamlError::new_str(
-                start_mark,
-                "while scanning a directive, found unexpected non-alphabetical character",
-            ));
-        }
-
         Ok(string)
     }
 
-- 
2.43.0


From 42bc2efb91b639ce7a7a97c6e9eb2ee651582e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 40/51] fix: a value may be adjacent to a flow collection key
 on a following line

---
 yam-core/src/parsing/scanner.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 607da0c..cd716d1 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -419,12 +419,15 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.skip_non_blank();
         self.skip_ws_to_eol(SkipTabs::Yes, false)?;
 
+        let span = self.get_span(start_mark);
+        self.tokens.push_back(Token { span, token_type });
+
         if self.flow_level > 0 {
+            // As after a quoted scalar, the value may also be adjacent on a following line.
+            self.skip_to_next_token()?;
             self.adjacent_value_allowed_at = self.mark.pos;
         }
 
-        let span = self.get_span(start_mark);
-        self.tokens.push_back(Token { span, token_type });
         Ok(())
     }
 
-- 
2.43.0


From 54017aad92245204080cf43249f30f9199f29f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:02 +0000
Subject: [PATCH 41/51] fix: reject a comment glued to an adjacent ':', an
 empty verbatim tag and a %TAG without separation

---
 yam-core/src/parsing/scanner.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index cd716d1..a4507ce 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -739,6 +739,12 @@ impl<'input, S: Source> Scanner<'input, S> {
                 "':' may not precede any of `[{` in flow mapping",
             ));
         }
+        if nc == b'#' {
+            return Err(YamlError::new_str(
+                self.mark,
+                "comments must be separated from other tokens by whitespace",
+            ));
+        }
 
         self.fetch_value()
     }
@@ -1613,7 +1619,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             self.uri_scans_or_non_blank(&mut string, start_mark)?;
         }
 
-        if self.src.peekz(0) != b'>' {
+        if string.is_empty() || self.src.peekz(0) != b'>' {
             return Err(YamlError::new_str(
                 *start_mark,
                 "while scanning a verbatim tag, did not find the expected '>'",
@@ -2149,6 +2155,12 @@ impl<'input, S: Source> Scanner<'input, S> {
         let n_blanks = self.src.skip_while_blank();
         self.mark.pos += n_blanks;
         self.mark.col += n_blanks as u32;
+        if n_blanks == 0 {
+            return Err(YamlError::new_str(
+                *mark,
+                "while scanning TAG, did not find expected whitespace after the handle",
+            ));
+        }
 
         let prefix = String::from_utf8(self.scan_tag_prefix(mark)?)
             .map_err(|_| YamlError::new_str(*mark, "Error decoding tag prefix as UTF-8"))?
-- 
2.43.0


From d8d8a5d7b63b8664a426f7e18450e32ed8af9479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:05 +0000
Subject: [PATCH 42/51] fix: a verbatim tag may be followed by ':'; escaped
 line breaks do not hide bad indentation

---
 yam-core/src/parsing/scanner.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index a4507ce..f23afcf 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1178,6 +1178,17 @@ impl<'input, S: Source> Scanner<'input, S> {
                 &start_mark,
             )?;
 
+            // Nothing but an escaped line break can lead to the start of a line.
+            if leading_blanks
+                && self.mark.col < self.indent
+                && !is_blank_or_breakz(self.src.peekz(0))
+            {
+                return Err(YamlError::new_str(
+                    start_mark,
+                    "invalid indentation in quoted scalar",
+                ));
+            }
+
             match self.src.peekz(0) {
                 b'\'' if single => break,
                 b'"' if !single => break,
@@ -1594,6 +1605,10 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         if is_blank_or_breakz(self.src.peekz(0))
             || (self.flow_level > 0 && matches!(self.src.peekz(0), b',' | b']' | b'}'))
+            // A verbatim tag is delimited, the ':' after it ends an empty key.
+            || (handle.is_empty()
+                && self.src.peekz(0) == b':'
+                && is_blank_or_breakz(self.src.peekz(1)))
         {
             // XXX: ex 7.2, an empty scalar can follow a secondary tag
             Ok(Token {
-- 
2.43.0


From 6ec176637bb4729b221215655ebaf2fd9c0af917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:43 +0000
Subject: [PATCH 43/51] fix: Parser::load delivers a stream start that was
 peeked at

---
 yam-core/src/parsing/parser.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index a75cc4c..a5bfa05 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -624,7 +624,10 @@ impl<'input, T: Source> Parser<'input, T> {
     where
         R: SpannedEventReceiver<'input>,
     {
-        if !self.scanner.stream_start_produced {
+        // The stream start may have been peeked at, in which case `recv` has not received it yet.
+        if !self.scanner.stream_start_produced
+            || matches!(self.current, Some((Event::StreamStart, _)))
+        {
             let (ev, span) = self.next_event_impl()?;
             if ev != Event::StreamStart {
                 return Err(YamlError::new_str(
-- 
2.43.0


From 8733ed39f36f1a349e1a01ccb19f5e95bca0d387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:29 +0000
Subject: [PATCH 44/51] fix: the work per token no longer grows with the flow
 nesting depth

---
 yam-core/src/parsing/scanner.rs | 48 ++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index f23afcf..18ecac0 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -52,18 +52,27 @@ struct SimpleKey {
     possible: bool,
     required: bool,
     token_number: usize,
+    /// Token number of the first key that is possible in the enclosing flow levels.
+    enclosing: Option<usize>,
     mark: Marker,
 }
 
 impl SimpleKey {
-    fn new(mark: Marker) -> SimpleKey {
+    fn new(mark: Marker, enclosing: Option<usize>) -> SimpleKey {
         SimpleKey {
             possible: false,
             required: false,
             token_number: 0,
+            enclosing,
             mark,
         }
     }
+
+    /// Token number of the first key that is possible, in this flow level or in an enclosing one.
+    fn first_possible(&self) -> Option<usize> {
+        self.enclosing
+            .or_else(|| self.possible.then_some(self.token_number))
+    }
 }
 
 #[derive(Clone, Debug, Default)]
@@ -205,11 +214,10 @@ impl<'input, S: Source> Scanner<'input, S> {
             } else {
                 need_more = false;
                 self.stale_simple_keys()?;
-                for sk in &self.simple_keys {
-                    if sk.possible && sk.token_number == self.tokens_parsed {
-                        need_more = true;
-                        break;
-                    }
+                if let Some(sk) = self.simple_keys.last()
+                    && sk.first_possible() == Some(self.tokens_parsed)
+                {
+                    need_more = true;
                 }
             }
 
@@ -292,6 +300,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 return Err(YamlError::new_str(self.mark, "simple key expected"));
             }
             sk.possible = false;
+            sk.enclosing = None;
         }
 
         self.unroll_indent(0);
@@ -335,7 +344,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             span: Span::new(mark, self.mark),
             token_type: TokenType::StreamStart,
         });
-        self.simple_keys.push(SimpleKey::new(Marker::default()));
+        self.simple_keys
+            .push(SimpleKey::new(Marker::default(), None));
     }
 
     fn fetch_main_loop(&mut self) -> ScanResult {
@@ -1984,11 +1994,15 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn increase_flow_level(&mut self) -> ScanResult {
-        self.simple_keys.push(SimpleKey::new(Marker {
-            pos: 0,
-            col: 0,
-            line: 0,
-        }));
+        let enclosing = self.simple_keys.last().and_then(SimpleKey::first_possible);
+        self.simple_keys.push(SimpleKey::new(
+            Marker {
+                pos: 0,
+                col: 0,
+                line: 0,
+            },
+            enclosing,
+        ));
         self.flow_level = self
             .flow_level
             .checked_add(1)
@@ -2004,11 +2018,12 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn stale_simple_keys(&mut self) -> ScanResult {
+        // If not in a flow construct, simple keys cannot span multiple lines.
+        if self.flow_level > 0 {
+            return Ok(());
+        }
         for sk in &mut self.simple_keys {
-            if sk.possible
-                // If not in a flow construct, simple keys cannot span multiple lines.
-                && self.flow_level == 0
-                    && (sk.mark.line < self.mark.line || sk.mark.pos + 1024 < self.mark.pos)
+            if sk.possible && (sk.mark.line < self.mark.line || sk.mark.pos + 1024 < self.mark.pos)
             {
                 if sk.required {
                     return Err(YamlError::new_str(self.mark, "simple key expect ':'"));
@@ -2040,6 +2055,7 @@ impl<'input, S: Source> Scanner<'input, S> {
                 required,
                 possible: true,
                 token_number: self.tokens_parsed + self.tokens.len(),
+                enclosing: self.simple_keys.last().and_then(|x| x.enclosing),
             };
 
             self.simple_keys.pop();
-- 
2.43.0


From 9568b373910d72cb6cb82c2f2d4edd6007196d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:18 +0000
Subject: [PATCH 45/51] fix: limit implicit keys to 1024 characters rather than
 bytes, in flow sequences too

---
 yam-core/src/parsing/scanner.rs | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 18ecac0..618ef32 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -47,6 +47,9 @@ pub struct Token<'input> {
     pub token_type: TokenType<'input>,
 }
 
+/// The most characters an implicit key may take up.
+const MAX_SIMPLE_KEY_LENGTH: usize = 1024;
+
 #[derive(Clone, Debug, PartialEq, Eq)]
 struct SimpleKey {
     possible: bool,
@@ -55,6 +58,8 @@ struct SimpleKey {
     /// Token number of the first key that is possible in the enclosing flow levels.
     enclosing: Option<usize>,
     mark: Marker,
+    /// Number of characters before the key.
+    char_pos: usize,
 }
 
 impl SimpleKey {
@@ -65,6 +70,7 @@ impl SimpleKey {
             token_number: 0,
             enclosing,
             mark,
+            char_pos: 0,
         }
     }
 
@@ -114,6 +120,8 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
+    /// UTF-8 continuation bytes among the bytes consumed so far, to count characters.
+    continuation_bytes: usize,
 
     adjacent_value_allowed_at: usize,
     tokens_parsed: usize,
@@ -145,6 +153,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
+            continuation_bytes: 0,
             stream_end_produced: false,
 
             adjacent_value_allowed_at: 0,
@@ -646,6 +655,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             is_implicit_flow_mapping = true;
         }
 
+        let is_long = sk.char_pos + MAX_SIMPLE_KEY_LENGTH < self.char_pos();
+
         // Skip over ':'.
         self.skip_non_blank();
         if self.src.peekz(0) == b'\t'
@@ -668,7 +679,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             };
             self.insert_token(sk.token_number - self.tokens_parsed, tok);
             if is_implicit_flow_mapping {
-                if sk.mark.line < start_mark.line {
+                if sk.mark.line < start_mark.line || is_long {
                     return Err(YamlError::new_str(
                         start_mark,
                         "illegal placement of ':' indicator",
@@ -879,6 +890,9 @@ impl<'input, S: Source> Scanner<'input, S> {
     }
 
     fn skip_non_blank(&mut self) {
+        if self.src.peekz(0) & 0xC0 == 0x80 {
+            self.continuation_bytes += 1;
+        }
         self.src.skip(1);
 
         self.mark.pos += 1;
@@ -2017,13 +2031,20 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
     }
 
+    /// Number of characters consumed so far, of those that may be in a simple key.
+    fn char_pos(&self) -> usize {
+        self.mark.pos - self.continuation_bytes
+    }
+
     fn stale_simple_keys(&mut self) -> ScanResult {
         // If not in a flow construct, simple keys cannot span multiple lines.
         if self.flow_level > 0 {
             return Ok(());
         }
+        let char_pos = self.char_pos();
         for sk in &mut self.simple_keys {
-            if sk.possible && (sk.mark.line < self.mark.line || sk.mark.pos + 1024 < self.mark.pos)
+            if sk.possible
+                && (sk.mark.line < self.mark.line || sk.char_pos + MAX_SIMPLE_KEY_LENGTH < char_pos)
             {
                 if sk.required {
                     return Err(YamlError::new_str(self.mark, "simple key expect ':'"));
@@ -2052,6 +2073,7 @@ impl<'input, S: Source> Scanner<'input, S> {
 
             let sk = SimpleKey {
                 mark: self.mark,
+                char_pos: self.char_pos(),
                 required,
                 possible: true,
                 token_number: self.tokens_parsed + self.tokens.len(),
-- 
2.43.0


From af09cef8fd60665e3ae53dd6da70ffc17019874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 46/51] fix: an error seen by peek is still reported by the
 next event

---
 yam-core/src/parsing/parser.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index a5bfa05..4894979 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -263,7 +263,7 @@ pub struct Parser<'input, T: Source> {
     state: State,
     token: Option<Token<'input>>,
     /// The next YAML event to emit.
-    current: Option<(Event<'input>, Span)>,
+    current: Option<ParseResult<'input>>,
     /// Anchors that have been encountered in the YAML document.
     anchors: BTreeMap<Cow<'input, str>, usize>,
     /// Next ID available for an anchor.
@@ -458,17 +458,15 @@ impl<'input, T: Source> Parser<'input, T> {
     /// # Errors
     /// Returns `YamlResult` when loading the next event fails.
     pub fn peek(&mut self) -> Option<Result<&(Event<'input>, Span), YamlError>> {
-        if let Some(ref x) = self.current {
-            Some(Ok(x))
-        } else {
+        if self.current.is_none() {
             if self.stream_end_emitted {
                 return None;
             }
-            match self.next_event_impl() {
-                Ok(token) => self.current = Some(token),
-                Err(e) => return Some(Err(e)),
-            }
-            self.current.as_ref().map(Ok)
+            self.current = Some(self.next_event_impl());
+        }
+        match self.current.as_ref()? {
+            Ok(x) => Some(Ok(x)),
+            Err(e) => Some(Err(e.clone())),
         }
     }
 
@@ -520,7 +518,7 @@ impl<'input, T: Source> Parser<'input, T> {
     {
         match self.current.take() {
             None => self.parse(),
-            Some(v) => Ok(v),
+            Some(v) => v,
         }
     }
 
@@ -626,7 +624,7 @@ impl<'input, T: Source> Parser<'input, T> {
     {
         // The stream start may have been peeked at, in which case `recv` has not received it yet.
         if !self.scanner.stream_start_produced
-            || matches!(self.current, Some((Event::StreamStart, _)))
+            || matches!(self.current, Some(Ok((Event::StreamStart, _))))
         {
             let (ev, span) = self.next_event_impl()?;
             if ev != Event::StreamStart {
-- 
2.43.0


From b9854ad2f3545b9a586f89c9367b84f073db9343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:14 +0000
Subject: [PATCH 47/51] fix: load reports an error that was peeked at

---
 yam-core/src/parsing/parser.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/parser.rs b/yam-core/src/parsing/parser.rs
index 4894979..46a4bf3 100644
--- a/yam-core/src/parsing/parser.rs
+++ b/yam-core/src/parsing/parser.rs
@@ -636,7 +636,7 @@ impl<'input, T: Source> Parser<'input, T> {
             recv.on_event(ev, span);
         }
 
-        if self.scanner.stream_end_produced {
+        if self.current.is_none() && self.scanner.stream_end_produced {
             // XXX has parsed?
             recv.on_event(Event::StreamEnd, Span::empty(self.scanner.mark));
             return Ok(());
-- 
2.43.0


From ead099d2d2db16f1a31f090078b9537073c1157c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:19 +0000
Subject: [PATCH 48/51] fix: a byte order mark may start any document of a
 stream

---
 yam-core/src/parsing/scanner.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 618ef32..24e84e6 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -120,6 +120,8 @@ pub struct Scanner<'input, S> {
     pub(crate) stream_start_produced: bool,
     pub(crate) stream_end_produced: bool,
     leading_whitespace: bool,
+    /// We are before the first token of a document that may start with a byte order mark.
+    document_prefix: bool,
     /// UTF-8 continuation bytes among the bytes consumed so far, to count characters.
     continuation_bytes: usize,
 
@@ -153,6 +155,7 @@ impl<'input, S: Source> Scanner<'input, S> {
             stream_start_produced: false,
             simple_key_allowed: true,
             leading_whitespace: true,
+            document_prefix: true,
             continuation_bytes: 0,
             stream_end_produced: false,
 
@@ -272,6 +275,12 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.skip_to_next_token()?;
+        if self.document_prefix {
+            while self.mark.col == 1 && self.skip_byte_order_mark() {
+                self.skip_to_next_token()?;
+            }
+            self.document_prefix = false;
+        }
         self.stale_simple_keys()?;
 
         let mark = self.mark;
@@ -333,18 +342,26 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         self.skip_n_non_blank(3);
 
+        self.document_prefix = token_type == TokenType::DocumentEnd;
         let span = Span::new(mark, self.mark);
 
         self.tokens.push_back(Token { span, token_type });
         Ok(())
     }
 
-    fn fetch_stream_start(&mut self) {
-        // Skip the UTF-8 byte order mark. It isn't content and doesn't take up a column.
-        if [self.src.peekz(0), self.src.peekz(1), self.src.peekz(2)] == [0xEF, 0xBB, 0xBF] {
+    /// Skips the UTF-8 byte order mark. It isn't content and doesn't take up a column.
+    fn skip_byte_order_mark(&mut self) -> bool {
+        let is_bom =
+            [self.src.peekz(0), self.src.peekz(1), self.src.peekz(2)] == [0xEF, 0xBB, 0xBF];
+        if is_bom {
             self.src.skip(3);
             self.mark.pos += 3;
         }
+        is_bom
+    }
+
+    fn fetch_stream_start(&mut self) {
+        self.skip_byte_order_mark();
         let mark = self.mark;
         self.indent = 0;
         self.stream_start_produced = true;
-- 
2.43.0


From 70f29b7712a6f41a24b2301f3de79e13b178c970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:17 +0000
Subject: [PATCH 49/51] fix: tabs may separate indicators from a scalar, but no
 block collection may follow one

---
 yam-core/src/parsing/scanner.rs | 50 +++++++++++++++------------------
 1 file changed, 23 insertions(+), 27 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 24e84e6..9355e5d 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1,5 +1,5 @@
 use crate::parsing::char_utils::{
-    as_hex, is_alpha, is_anchor_char, is_blank, is_blank_or_break, is_blank_or_breakz, is_break,
+    as_hex, is_anchor_char, is_blank, is_blank_or_break, is_blank_or_breakz, is_break,
     is_breakz, is_flow, is_tag_char, is_uri_char,
 };
 use crate::parsing::source::Source;
@@ -565,7 +565,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         }
 
         self.remove_simple_key()?;
-        self.simple_key_allowed = true;
+        // No block collection may start after a tab.
+        self.simple_key_allowed = !res.found_tabs();
 
         let span = self.get_span(mark);
         self.tokens.push_back(Token {
@@ -604,13 +605,8 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.simple_key_allowed = self.flow_level == 0;
 
         self.skip_non_blank();
+        self.roll_one_col_indent();
         self.skip_yaml_whitespace()?;
-        if self.src.peekz(0) == b'\t' {
-            return Err(YamlError::new_str(
-                self.mark,
-                "tabs disallowed in this context",
-            ));
-        }
         let span = self.get_span(start_mark);
         self.tokens.push_back(Token {
             span,
@@ -629,6 +625,11 @@ impl<'input, S: Source> Scanner<'input, S> {
 
                     need_whitespace = false;
                 }
+                // A tab that starts a line may stand where indentation is expected.
+                b'\t' if !self.leading_whitespace => {
+                    self.skip_tab();
+                    need_whitespace = false;
+                }
                 b'\n' | b'\r' => {
                     // ? self.src.lookahead(2);
                     self.skip_linebreak();
@@ -676,17 +677,6 @@ impl<'input, S: Source> Scanner<'input, S> {
 
         // Skip over ':'.
         self.skip_non_blank();
-        if self.src.peekz(0) == b'\t'
-            && !self
-                .skip_ws_to_eol(SkipTabs::Yes, false)?
-                .has_valid_yaml_ws()
-            && (self.src.peekz(0) == b'-' || is_alpha(self.src.peekz(0)))
-        {
-            return Err(YamlError::new_str(
-                self.mark,
-                "':' must be followed by a valid YAML whitespace",
-            ));
-        }
 
         if sk.possible {
             // insert simple key
@@ -906,6 +896,14 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.mark.col += 1;
     }
 
+    /// Skips a separating tab. No block collection may start after one on the same line.
+    fn skip_tab(&mut self) {
+        self.skip_blank();
+        if self.flow_level == 0 {
+            self.simple_key_allowed = false;
+        }
+    }
+
     fn skip_non_blank(&mut self) {
         if self.src.peekz(0) & 0xC0 == 0x80 {
             self.continuation_bytes += 1;
@@ -917,10 +915,6 @@ impl<'input, S: Source> Scanner<'input, S> {
         self.leading_whitespace = false;
     }
 
-    fn is_within_block(&self) -> bool {
-        !self.indents.is_empty()
-    }
-
     #[allow(clippy::cast_possible_truncation)]
     fn skip_to_next_token(&mut self) -> ScanResult {
         loop {
@@ -932,9 +926,10 @@ impl<'input, S: Source> Scanner<'input, S> {
                 // If a flow-style construct is in an indented block, its contents must still be
                 // indented. Also, tabs are allowed anywhere in it if it has no content.
                 b'\t'
-                    if self.is_within_block()
-                        && self.leading_whitespace
-                        && self.mark.col < self.indent =>
+                    if self.leading_whitespace
+                        && self.indents.last().is_some_and(|indent| {
+                            self.mark.col < self.indent + u32::from(indent.needs_block_end)
+                        }) =>
                 {
                     self.skip_ws_to_eol(SkipTabs::Yes, false)?;
                     // If we have content on that line with a tab, return an error.
@@ -945,7 +940,8 @@ impl<'input, S: Source> Scanner<'input, S> {
                         ));
                     }
                 }
-                b'\t' | b' ' => self.skip_blank(),
+                b'\t' => self.skip_tab(),
+                b' ' => self.skip_blank(),
                 b'\n' | b'\r' => {
                     // ? self.src.lookahead(2);
                     self.skip_linebreak();
-- 
2.43.0


From 761c1445a5150cd0afffc339b8e96e4cf3196b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 50/51] fix: a block scalar outside of block collections may
 start with a tab

---
 yam-core/src/parsing/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index 9355e5d..de1b0f3 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1406,7 +1406,8 @@ impl<'input, S: Source> Scanner<'input, S> {
             self.skip_linebreak();
         }
 
-        if self.src.peekz(0) == b'\t' {
+        // The content of a node that is not in a block collection needs no indentation.
+        if self.src.peekz(0) == b'\t' && self.indent > 0 {
             return Err(YamlError::new_str(
                 start_mark,
                 "a block scalar content cannot start with a tab",
-- 
2.43.0


From dbe8bdcb125504e5622709ce2cd8430bc3b65720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:40 +0000
Subject: [PATCH 51/51] fix: a comment after a tab ends a plain scalar

---
 yam-core/src/parsing/scanner.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yam-core/src/parsing/scanner.rs b/yam-core/src/parsing/scanner.rs
index de1b0f3..8be4485 100644
--- a/yam-core/src/parsing/scanner.rs
+++ b/yam-core/src/parsing/scanner.rs
@@ -1106,9 +1106,11 @@ impl<'input, S: Source> Scanner<'input, S> {
                         self.skip_blank();
                     } else if self.mark.col < indent && self.src.peekz(0) == b'\t' {
                         // Tabs in an indentation columns are allowed if and only if the line is
-                        // empty. Skip to the end of the line.
-                        self.skip_ws_to_eol(SkipTabs::Yes, false)?;
-                        if !is_breakz(self.src.peekz(0)) {
+                        // empty or a comment, which ends the scalar.
+                        while is_blank(self.src.peekz(0)) {
+                            self.skip_blank();
+                        }
+                        if !is_breakz(self.src.peekz(0)) && self.src.peekz(0) != b'#' {
                             return Err(YamlError::new_str(
                                 start_mark,
                                 "while scanning a plain scalar, found a tab",
-- 
2.43.0

