From 78cf7b1a5b7810ca91e724c1d6ec61151a000e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 01/19] fix: count UTF-16 input in bytes, not code units

The buffered UTF-16 reader consumed one byte per code unit and advanced the
offset twice, so any UTF-16 document came out garbled.
---
 src/reader.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index f70cd50..458847f 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -175,7 +175,7 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
         match ch {
             Ok(ch) => {
                 push_char(out, ch, *offset)?;
-                let n = ch.len_utf16();
+                let n = ch.len_utf16() * 2;
                 *offset += n;
                 used += n;
             }
@@ -193,10 +193,10 @@ fn read_utf16_buffered<const BIG_ENDIAN: bool>(
 
     if used != 0 {
         reader.consume(used);
-        *offset += used;
         Ok(true)
     } else {
-        debug_assert!(!available.is_empty() && available.len() < 2);
+        // The buffer starts with either half a code unit, or with a surrogate
+        // whose other half is not in the buffer.
         read_utf16_char_unbuffered::<BIG_ENDIAN>(reader, out, offset)?;
         Ok(true)
     }
-- 
2.43.0


From 28a4c3b6cd2d96873f363ee930522c1bf701eab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 02/19] fix: do not panic on a block scalar that ends without a
 line break

Like libyaml's READ_LINE, reading a line break at the end of the input does
nothing.
---
 src/scanner.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index ab97696..325c234 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -163,7 +163,8 @@ impl<R: BufRead> Scanner<R> {
     fn read_line_break(&mut self, string: &mut String) {
         let front = match self.buffer.front().copied() {
             Some(front) => front,
-            None => panic!("unexpected end of input"),
+            // At the end of the input there is no line break to read.
+            None => return,
         };
 
         if let ('\r', Some('\n')) = (front, self.buffer.get(1).copied()) {
-- 
2.43.0


From 8d44ba67a26da6a5d9a93c9c6cb64855710a3d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 03/19] fix: do not panic on a backslash at the end of the
 input

An escape cut off by the end of the input is an unknown escape, as in libyaml,
where the input is followed by a NUL.
---
 src/scanner.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 325c234..e68b517 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1539,7 +1539,7 @@ impl<R: BufRead> Scanner<R> {
                         break;
                     } else if !single && CHECK!(self.buffer, '\\') {
                         let mut code_length = 0usize;
-                        match self.buffer.get(1).copied().unwrap() {
+                        match self.buffer.get(1).copied().unwrap_or('\0') {
                             '0' => {
                                 string.push('\0');
                             }
-- 
2.43.0


From 2c4f131d77f8706c0c46c11d8fb8e35f871cd0e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 04/19] fix: do not panic on a tag directly followed by a flow
 entry

libyaml accepts `[!!str, x]`: inside a flow collection a tag may be ended by a
comma.
---
 src/scanner.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index e68b517..95c9b5c 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1110,7 +1110,6 @@ impl<R: BufRead> Scanner<R> {
                     "did not find expected whitespace or line break",
                 );
             }
-            panic!("TODO: What is expected here?");
         }
 
         let end_mark: Mark = self.mark;
-- 
2.43.0


From 3faff96ede19ecf43fc299e7a3fee670076951eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 05/19] fix: decode the URI escapes of a tag as UTF-8

The escaped octets of a multi-byte character were each pushed as a separate
Latin-1 character.
---
 src/scanner.rs | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/scanner.rs b/src/scanner.rs
index 95c9b5c..7963fb9 100644
--- a/src/scanner.rs
+++ b/src/scanner.rs
@@ -1226,6 +1226,8 @@ impl<R: BufRead> Scanner<R> {
         string: &mut String,
     ) -> Result<()> {
         let mut width: i32 = 0;
+        let mut octets = [0u8; 4];
+        let mut length: usize = 0;
         loop {
             self.cache(3)?;
             if !(CHECK!(self.buffer, '%')
@@ -1255,7 +1257,6 @@ impl<R: BufRead> Scanner<R> {
                 } else {
                     0
                 };
-                // TODO: Something is fishy here, why isn't `width` being used?
                 if width == 0 {
                     return self.set_scanner_error(
                         if directive {
@@ -1278,7 +1279,8 @@ impl<R: BufRead> Scanner<R> {
                     "found an incorrect trailing UTF-8 octet",
                 );
             }
-            string.push(char::from_u32(octet as _).expect("invalid Unicode"));
+            octets[length] = octet;
+            length += 1;
             self.skip_char();
             self.skip_char();
             self.skip_char();
@@ -1287,7 +1289,21 @@ impl<R: BufRead> Scanner<R> {
                 break;
             }
         }
-        Ok(())
+        match core::str::from_utf8(&octets[..length]) {
+            Ok(decoded) => {
+                string.push_str(decoded);
+                Ok(())
+            }
+            Err(_) => self.set_scanner_error(
+                if directive {
+                    "while parsing a %TAG directive"
+                } else {
+                    "while parsing a tag"
+                },
+                start_mark,
+                "found an invalid UTF-8 sequence",
+            ),
+        }
     }
 
     fn scan_block_scalar(&mut self, literal: bool) -> Result<Token> {
-- 
2.43.0


From 181021fc2772f73b6ee7a9ba89fafff19387ac79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 06/19] fix: accept UTF-8 input that starts with a character in
 U+F000..=U+FFFF

Such input starts with the same byte as the UTF-8 byte order mark, and was
rejected as having an invalid one.
---
 src/reader.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index 458847f..7665797 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -4,11 +4,15 @@ use alloc::collections::VecDeque;
 
 use crate::{Encoding, Error, Result, scanner::Scanner};
 
-const BOM_UTF8: [u8; 3] = [0xef, 0xbb, 0xbf];
+const BOM_UTF8: char = '\u{feff}';
 const BOM_UTF16LE: [u8; 2] = [0xff, 0xfe];
 const BOM_UTF16BE: [u8; 2] = [0xfe, 0xff];
 
-fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Encoding>> {
+fn yaml_parser_determine_encoding(
+    reader: &mut dyn BufRead,
+    out: &mut VecDeque<char>,
+    offset: &mut usize,
+) -> Result<Option<Encoding>> {
     let initial_bytes = reader.fill_buf()?;
     if initial_bytes.is_empty() {
         return Ok(None);
@@ -16,17 +20,13 @@ fn yaml_parser_determine_encoding(reader: &mut dyn BufRead) -> Result<Option<Enc
 
     match initial_bytes[0] {
         0xef => {
-            let mut bom = [0; 3];
-            reader.read_exact(&mut bom)?;
-            if bom == BOM_UTF8 {
-                Ok(Some(Encoding::Utf8))
-            } else {
-                Err(Error::reader(
-                    "invalid byte order marker",
-                    0,
-                    i32::from_be_bytes([bom[0], bom[1], bom[2], 0]),
-                ))
+            // Either the byte order mark, or the first character of an unmarked
+            // stream. Both are three bytes long.
+            read_utf8_char_unbuffered(reader, out, 0xef, offset)?;
+            if out.back().copied() == Some(BOM_UTF8) {
+                out.pop_back();
             }
+            Ok(Some(Encoding::Utf8))
         }
         0xff | 0xfe => {
             let mut bom = [0; 2];
@@ -295,7 +295,9 @@ pub(crate) fn yaml_parser_update_buffer<R: BufRead>(
         return Ok(());
     }
     if parser.encoding == Encoding::Any {
-        if let Some(encoding) = yaml_parser_determine_encoding(reader)? {
+        if let Some(encoding) =
+            yaml_parser_determine_encoding(reader, &mut parser.buffer, &mut parser.offset)?
+        {
             parser.encoding = encoding;
         } else {
             parser.eof = true;
-- 
2.43.0


From f848dd7a39e776275e671375a47517e186a2327b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 07/19] fix: count the UTF-16 byte order mark in reader error
 offsets

The offset is a position in the input, as it is for a UTF-8 byte order mark.
---
 src/reader.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/reader.rs b/src/reader.rs
index 7665797..ae7a171 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -31,6 +31,7 @@ fn yaml_parser_determine_encoding(
         0xff | 0xfe => {
             let mut bom = [0; 2];
             reader.read_exact(&mut bom)?;
+            *offset += 2;
             if bom == BOM_UTF16LE {
                 Ok(Some(Encoding::Utf16Le))
             } else if bom == BOM_UTF16BE {
-- 
2.43.0


From f1883d5754eb0cb07dd272d796adf104b7a38374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 08/19] fix: retry an interrupted read while detecting the
 encoding

Every other read of the input already does.
---
 src/reader.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/reader.rs b/src/reader.rs
index ae7a171..27276f9 100644
--- a/src/reader.rs
+++ b/src/reader.rs
@@ -13,10 +13,14 @@ fn yaml_parser_determine_encoding(
     out: &mut VecDeque<char>,
     offset: &mut usize,
 ) -> Result<Option<Encoding>> {
-    let initial_bytes = reader.fill_buf()?;
-    if initial_bytes.is_empty() {
-        return Ok(None);
-    }
+    let initial_bytes = loop {
+        match reader.fill_buf() {
+            Ok([]) => return Ok(None),
+            Ok(available) => break available,
+            Err(err) if err.kind() == std::io::ErrorKind::Interrupted => (),
+            Err(err) => return Err(err.into()),
+        }
+    };
 
     match initial_bytes[0] {
         0xef => {
-- 
2.43.0


From e0735e5aec3474b1e2e4274928ac29cf0052253f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:56 +0000
Subject: [PATCH 09/19] fix: recognise U+FEFF, not U+7EFF, as the byte order
 mark

The emitter escaped the ordinary character U+7EFF in double-quoted scalars, and
checked for the byte order mark by the wrong code point.
---
 src/macros.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/macros.rs b/src/macros.rs
index f91e4f6..ddd01ec 100644
--- a/src/macros.rs
+++ b/src/macros.rs
@@ -109,7 +109,7 @@ macro_rules! IS_BOM {
 }
 
 pub(crate) fn is_bom(ch: char) -> bool {
-    ch == '\u{7eff}'
+    ch == '\u{feff}'
 }
 
 macro_rules! IS_SPACE_AT {
-- 
2.43.0


From 8f2d47f2a7037fd1da5b337bbbb61eba2bf4bd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 10/19] fix: do not panic on a tag that starts with a non-ASCII
 character

Comparing the tag with the prefix of a tag directive sliced the tag at an offset
that need not be a character boundary.
---
 src/emitter.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 7647c65..93a948c 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1130,7 +1130,7 @@ impl<'w> Emitter<'w> {
 
         for tag_directive in tag_directives {
             let prefix_len = tag_directive.prefix.len();
-            if prefix_len < tag.len() && tag_directive.prefix == tag[0..prefix_len] {
+            if prefix_len < tag.len() && tag.starts_with(tag_directive.prefix.as_str()) {
                 handle = &tag_directive.handle;
                 suffix = &tag[prefix_len..];
                 break;
-- 
2.43.0


From 49bbdf2ea14169266f09916edc45d16859fadac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 11/19] fix: keep the line breaks of a folded scalar

When deciding whether a line break must be doubled, the writer looked one
character too far, so a break before a one-character line, or before a word at
the end of the scalar, was read back as a space.
---
 src/emitter.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 93a948c..d609f04 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1735,8 +1735,11 @@ impl<'w> Emitter<'w> {
             if is_break(ch) {
                 if !breaks && !leading_spaces && ch == '\n' {
                     let mut skip_breaks = chars.clone();
-                    while is_break(skip_breaks.next()) {}
-                    if !is_blankz(skip_breaks.next()) {
+                    let mut next = skip_breaks.next();
+                    while is_break(next) {
+                        next = skip_breaks.next();
+                    }
+                    if !is_blankz(next) {
                         self.put_break()?;
                     }
                 }
-- 
2.43.0


From 132a63f9306e44f86f3d306fee943a4837088a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 12/19] fix: return None for a node index that is not positive

The index 0, which `NodePair` uses for a missing value, overflowed.
---
 src/document.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/document.rs b/src/document.rs
index 69d21ba..6b20de0 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -108,6 +108,9 @@ impl Document {
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node_mut(&mut self, index: i32) -> Option<&mut Node> {
+        if index <= 0 {
+            return None;
+        }
         self.nodes.get_mut(index as usize - 1)
     }
 
@@ -115,6 +118,9 @@ impl Document {
     ///
     /// Returns the node object or `None` if `index` is out of range.
     pub fn get_node(&self, index: i32) -> Option<&Node> {
+        if index <= 0 {
+            return None;
+        }
         self.nodes.get(index as usize - 1)
     }
 
-- 
2.43.0


From 8d048c267ae6ddfb0c4ecf16ac4231d6dc03631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:43 +0000
Subject: [PATCH 13/19] fix: find the shared nodes of a document at every depth

`Document::dump()` only counted references from the root node, and panicked when
it came to a node shared deeper down. Like libyaml, count them recursively.
---
 src/document.rs | 6 +++---
 src/emitter.rs  | 8 --------
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 6b20de0..7074159 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -612,13 +612,13 @@ impl Document {
             match &node.data {
                 NodeData::Sequence { items, .. } => {
                     for item in items {
-                        emitter.anchor_node_sub(*item);
+                        self.anchor_node(emitter, *item);
                     }
                 }
                 NodeData::Mapping { pairs, .. } => {
                     for pair in pairs {
-                        emitter.anchor_node_sub(pair.key);
-                        emitter.anchor_node_sub(pair.value);
+                        self.anchor_node(emitter, pair.key);
+                        self.anchor_node(emitter, pair.value);
                     }
                 }
                 _ => {}
diff --git a/src/emitter.rs b/src/emitter.rs
index d609f04..df0da1f 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1819,14 +1819,6 @@ impl<'w> Emitter<'w> {
         self.last_anchor_id = 0;
     }
 
-    pub(crate) fn anchor_node_sub(&mut self, index: i32) {
-        self.anchors[index as usize - 1].references += 1;
-        if self.anchors[index as usize - 1].references == 2 {
-            self.last_anchor_id += 1;
-            self.anchors[index as usize - 1].anchor = self.last_anchor_id;
-        }
-    }
-
     pub(crate) fn generate_anchor(anchor_id: i32) -> String {
         alloc::format!("id{anchor_id:03}")
     }
-- 
2.43.0


From c5c303ca23f49e1821ee927e8eb21b188b0c6595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:14 +0000
Subject: [PATCH 14/19] fix: do not panic when parsing goes on after an error

The parser state is incomplete after an error, so that the next call could pop
from an empty stack. Like libyaml, produce nothing more: `Parser::parse()` goes
on as at the end of the stream, and `Document::load()` returns an empty document.
---
 src/document.rs | 10 ++++++++--
 src/parser.rs   |  7 ++++++-
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/document.rs b/src/document.rs
index 7074159..34ea46a 100644
--- a/src/document.rs
+++ b/src/document.rs
@@ -2,8 +2,8 @@ use std::io::BufRead;
 
 use crate::{
     AliasData, Anchors, DEFAULT_MAPPING_TAG, DEFAULT_SCALAR_TAG, DEFAULT_SEQUENCE_TAG, Emitter,
-    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, Result, ScalarStyle,
-    SequenceStyle, TagDirective, VersionDirective,
+    Error, Event, EventData, MappingStyle, Mark, Parser, ParserInner, ParserState, Result,
+    ScalarStyle, SequenceStyle, TagDirective, VersionDirective,
 };
 
 /// The document structure.
@@ -264,6 +264,11 @@ impl Document {
                     data: EventData::StreamStart { .. },
                     ..
                 }) => (),
+                // The parser has failed before.
+                Ok(Event {
+                    data: EventData::StreamEnd,
+                    ..
+                }) => return Ok(document),
                 Ok(_) => panic!("expected stream start"),
                 Err(err) => {
                     parser.inner.delete_aliases();
@@ -292,6 +297,7 @@ impl Document {
             Err(e) => err = e,
         }
         parser.inner.delete_aliases();
+        parser.inner.state = ParserState::End;
         Err(err)
     }
 
diff --git a/src/parser.rs b/src/parser.rs
index 0e6f522..0320fd9 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -189,7 +189,12 @@ impl<R: BufRead> Parser<R> {
         if self.scanner.stream_end_produced || self.inner.state == ParserState::End {
             return Ok(Event::stream_end());
         }
-        self.state_machine()
+        let result = self.state_machine();
+        if result.is_err() {
+            // Like libyaml, produce nothing more after an error.
+            self.inner.state = ParserState::End;
+        }
+        result
     }
 
     fn state_machine(&mut self) -> Result<Event> {
-- 
2.43.0


From f80513f1180c2b40993e558d2399fd1ad627e6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 15/19] fix: write the start of a document whose root node is
 empty

---
 src/emitter.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index df0da1f..27943ea 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -581,7 +581,7 @@ impl<'w> Emitter<'w> {
                     self.write_indent()?;
                 }
             }
-            if Self::check_empty_document() {
+            if self.check_empty_document() {
                 implicit = false;
             }
             if !implicit {
@@ -881,8 +881,23 @@ impl<'w> Emitter<'w> {
         Ok(())
     }
 
-    fn check_empty_document() -> bool {
-        false
+    /// True if the root node of the document is written as nothing at all.
+    fn check_empty_document(&self) -> bool {
+        match self.events.front().map(|event| &event.data) {
+            Some(EventData::Scalar {
+                anchor,
+                value,
+                plain_implicit,
+                style,
+                ..
+            }) => {
+                anchor.is_none()
+                    && value.is_empty()
+                    && *plain_implicit
+                    && (*style == ScalarStyle::Any || *style == ScalarStyle::Plain)
+            }
+            _ => false,
+        }
     }
 
     fn check_empty_sequence(&self, event: &Event) -> bool {
-- 
2.43.0


From ff9d983f73c22d00a9958d671ea723cd9a1159e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 16/19] fix: do not panic when emitting goes on after an error

---
 src/emitter.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 27943ea..83d0d3f 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -305,7 +305,11 @@ impl<'w> Emitter<'w> {
             let tag_directives = core::mem::take(&mut self.tag_directives);
 
             let mut analysis = self.analyze_event(&event, &tag_directives)?;
-            self.state_machine(&event, &mut analysis)?;
+            if let Err(error) = self.state_machine(&event, &mut analysis) {
+                // The stacks may be left half updated, so nothing can follow.
+                self.state = EmitterState::End;
+                return Err(error);
+            }
 
             // The DOCUMENT-START event populates the tag directives, and this
             // happens only once, so don't swap out the tags in that case.
-- 
2.43.0


From fde160b1233d8fe07cb26ef99498c1e499b0fcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:33 +0000
Subject: [PATCH 17/19] fix: escape the flow indicators in the suffix of a tag

---
 src/emitter.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/emitter.rs b/src/emitter.rs
index 83d0d3f..f87bb27 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -581,7 +581,7 @@ impl<'w> Emitter<'w> {
                 for tag_directive in tag_directives {
                     self.write_indicator("%TAG", true, false, false)?;
                     self.write_tag_handle(&tag_directive.handle)?;
-                    self.write_tag_content(&tag_directive.prefix, true)?;
+                    self.write_tag_content(&tag_directive.prefix, true, true)?;
                     self.write_indent()?;
                 }
             }
@@ -1051,12 +1051,12 @@ impl<'w> Emitter<'w> {
         }
         if analysis.handle.is_empty() {
             self.write_indicator("!<", true, false, false)?;
-            self.write_tag_content(analysis.suffix, false)?;
+            self.write_tag_content(analysis.suffix, true, false)?;
             self.write_indicator(">", false, false, false)?;
         } else {
             self.write_tag_handle(analysis.handle)?;
             if !analysis.suffix.is_empty() {
-                self.write_tag_content(analysis.suffix, false)?;
+                self.write_tag_content(analysis.suffix, false, false)?;
             }
         }
         Ok(())
@@ -1429,7 +1429,12 @@ impl<'w> Emitter<'w> {
         Ok(())
     }
 
-    fn write_tag_content(&mut self, value: &str, need_whitespace: bool) -> Result<()> {
+    fn write_tag_content(
+        &mut self,
+        value: &str,
+        uri_char: bool,
+        need_whitespace: bool,
+    ) -> Result<()> {
         if need_whitespace && !self.whitespace {
             self.put(' ')?;
         }
@@ -1441,11 +1446,18 @@ impl<'w> Emitter<'w> {
             }
 
             match ch {
-                ';' | '/' | '?' | ':' | '@' | '&' | '=' | '+' | '$' | ',' | '_' | '.' | '~'
-                | '*' | '\'' | '(' | ')' | '[' | ']' => {
+                ';' | '/' | '?' | ':' | '@' | '&' | '=' | '+' | '$' | '_' | '.' | '~' | '*'
+                | '\'' | '(' | ')' => {
                     self.write_char(ch)?;
                     continue;
                 }
+                // These end the suffix of a shorthand tag.
+                ',' | '[' | ']' => {
+                    if uri_char {
+                        self.write_char(ch)?;
+                        continue;
+                    }
+                }
                 _ => {}
             }
 
-- 
2.43.0


From 66391fa9258516898d0d18914e9f990cd88f4aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:10 +0000
Subject: [PATCH 18/19] fix: do not fold the indented lines of a folded scalar

---
 src/emitter.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/emitter.rs b/src/emitter.rs
index f87bb27..532efc2 100644
--- a/src/emitter.rs
+++ b/src/emitter.rs
@@ -1783,6 +1783,7 @@ impl<'w> Emitter<'w> {
                     leading_spaces = is_blank(ch);
                 }
                 if !breaks
+                    && !leading_spaces
                     && is_space(ch)
                     && !is_space(chars.clone().next())
                     && self.column > self.best_width
-- 
2.43.0


From 57b871cee0ad8b4f602a06f61637f7ed0754825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 19/19] fix: keep the token after an empty key in a flow
 sequence

---
 src/parser.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/parser.rs b/src/parser.rs
index 0320fd9..3a9e95b 100644
--- a/src/parser.rs
+++ b/src/parser.rs
@@ -773,8 +773,7 @@ impl<R: BufRead> Parser<R> {
             token.data,
             TokenData::Value | TokenData::FlowEntry | TokenData::FlowSequenceEnd
         ) {
-            let mark: Mark = token.end_mark;
-            self.scanner.skip_token();
+            let mark: Mark = token.start_mark;
             self.inner.state = ParserState::FlowSequenceEntryMappingValue;
             Self::process_empty_scalar(mark)
         } else {
-- 
2.43.0

