From 2e32a184076a706639ed5df83e2cccb5b9d357bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 01/26] fix: do not apply attributes of one block to other
 headings or definitions

Attributes of a container, or of a preceding heading or link definition,
were picked up when collecting heading ids and link definitions.
---
 src/lib.rs | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f54dd63..471ad0d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2184,6 +2184,7 @@ impl<'s> PrePass<'s> {
         let mut headings: Vec<Heading> = Vec::new();
         let mut used_ids: Set<String> = Set::new();
 
+        // Attributes that directly precede the next block, if any.
         let mut attr_prev: Vec<std::ops::Range<usize>> = Vec::new();
         while let Some(e) = blocks.next() {
             match e.kind {
@@ -2192,11 +2193,9 @@ impl<'s> PrePass<'s> {
                 })) => {
                     // All link definition tags have to be obtained initially, as references can
                     // appear before the definition.
-                    let attrs = attr_prev
-                        .iter()
-                        .flat_map(|sp| {
-                            Attributes::try_from(&src[sp.clone()]).expect("should be valid")
-                        })
+                    let attrs = std::mem::take(&mut attr_prev)
+                        .into_iter()
+                        .flat_map(|sp| Attributes::try_from(&src[sp]).expect("should be valid"))
                         .collect::<Attributes>();
                     let url = if let Some(block::Event {
                         kind: block::EventKind::Inline,
@@ -2239,11 +2238,9 @@ impl<'s> PrePass<'s> {
                     // as formatting must be removed.
                     //
                     // We choose to parse all headers twice instead of caching them.
-                    let attrs = attr_prev
-                        .iter()
-                        .flat_map(|sp| {
-                            Attributes::try_from(&src[sp.clone()]).expect("should be valid")
-                        })
+                    let attrs = std::mem::take(&mut attr_prev)
+                        .into_iter()
+                        .flat_map(|sp| Attributes::try_from(&src[sp]).expect("should be valid"))
                         .collect::<Attributes>();
                     let id_override = attrs.get_value("id").map(|s| s.to_string());
 
@@ -2323,7 +2320,9 @@ impl<'s> PrePass<'s> {
                 block::EventKind::Atom(block::Atom::Attributes) => {
                     attr_prev.push(e.span.clone());
                 }
-                block::EventKind::Enter(..)
+                block::EventKind::Enter(block::Node::Container(block::Container::Section {
+                    ..
+                }))
                 | block::EventKind::Exit(block::Node::Container(block::Container::Section {
                     ..
                 })) => {}
-- 
2.43.0


From f6ade4f6ad7e20ff3a350918fb2998ac3539e00f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 02/26] fix: honor escapes directly after closing verbatim

The token after the closing backticks was peeked while still in verbatim
mode.
---
 src/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline.rs b/src/inline.rs
index c09f477..8a47d45 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -308,6 +308,7 @@ impl<'s> Parser<'s> {
             if usize::from(len_opener) == first.len
                 && matches!(first.kind, lex::Kind::Seq(Sequence::Backtick))
             {
+                self.input.lexer.verbatim = false;
                 let raw_format = self.input.ahead_raw_format();
                 if let Some(span_format) = raw_format.clone() {
                     self.events[event_opener].kind = EventKind::Enter(RawFormat {
@@ -327,7 +328,6 @@ impl<'s> Parser<'s> {
                     self.events.drain(*event_skip..);
                 }
                 self.push(EventKind::Exit(ty_opener));
-                self.input.lexer.verbatim = false;
                 self.verbatim = None;
                 if raw_format.is_none()
                     && self
-- 
2.43.0


From de744be48563c1176a75e42202906e0dab9cc466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:21 +0000
Subject: [PATCH 03/26] fix: ignore escapes on all lines of multi-line verbatim

---
 src/inline.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/inline.rs b/src/inline.rs
index 8a47d45..4fd5406 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -118,7 +118,9 @@ impl<'s> Input<'s> {
     }
 
     fn set_current_line(&mut self, line: std::ops::Range<usize>) {
+        let verbatim = self.lexer.verbatim;
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
+        self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
         self.span_line = line;
     }
-- 
2.43.0


From 3de5216123426807e6390453080699d066e91a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 04/26] fix: keep part of quoted attribute value before an
 escaped newline

---
 src/attr.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index e56773e..9115cb2 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -746,7 +746,11 @@ impl<'s> Parser<'s> {
 
             let st = std::mem::replace(&mut self.state, state_next);
 
-            if st != self.state && !matches!((st, self.state), (ValueEscape, _) | (_, ValueEscape))
+            if st != self.state
+                && !matches!(
+                    (st, self.state),
+                    (ValueEscape, ValueQuoted) | (ValueQuoted, ValueEscape)
+                )
             {
                 let content = &input[pos_prev..pos];
                 pos_prev = pos;
@@ -759,11 +763,10 @@ impl<'s> Parser<'s> {
                         },
                         "".into(),
                     )),
-                    Value | ValueQuoted | ValueContinued => {
+                    Value | ValueQuoted | ValueEscape | ValueContinued => {
                         let last = self.attrs.len() - 1;
-                        self.attrs.0[last]
-                            .1
-                            .extend(&content[usize::from(matches!(st, ValueQuoted))..]);
+                        let quote = matches!(st, ValueQuoted | ValueEscape);
+                        self.attrs.0[last].1.extend(&content[usize::from(quote)..]);
                     }
                     Comment | CommentNewline => {
                         let last = self.attrs.len() - 1;
-- 
2.43.0


From 8b46a9b7e6fcee7355eaa9d052208bf743e3fca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 05/26] fix: honor escapes on continuation lines of quoted
 attribute values

---
 src/attr.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/attr.rs b/src/attr.rs
index 9115cb2..4f62727 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -749,7 +749,10 @@ impl<'s> Parser<'s> {
             if st != self.state
                 && !matches!(
                     (st, self.state),
-                    (ValueEscape, ValueQuoted) | (ValueQuoted, ValueEscape)
+                    (ValueEscape, ValueQuoted)
+                        | (ValueQuoted, ValueEscape)
+                        | (ValueContinuedEscape, ValueContinued)
+                        | (ValueContinued, ValueContinuedEscape)
                 )
             {
                 let content = &input[pos_prev..pos];
@@ -763,7 +766,7 @@ impl<'s> Parser<'s> {
                         },
                         "".into(),
                     )),
-                    Value | ValueQuoted | ValueEscape | ValueContinued => {
+                    Value | ValueQuoted | ValueEscape | ValueContinued | ValueContinuedEscape => {
                         let last = self.attrs.len() - 1;
                         let quote = matches!(st, ValueQuoted | ValueEscape);
                         self.attrs.0[last].1.extend(&content[usize::from(quote)..]);
@@ -818,6 +821,7 @@ enum State {
     ValueEscape,
     ValueNewline,
     ValueContinued,
+    ValueContinuedEscape,
     Done,
     Invalid,
 }
@@ -857,10 +861,15 @@ impl State {
             ValueFirst if c == b'"' => ValueQuoted,
             ValueFirst => Invalid,
             ValueQuoted | ValueNewline | ValueContinued if c == b'"' => Whitespace,
-            ValueQuoted | ValueNewline | ValueContinued | ValueEscape if c == b'\n' => ValueNewline,
+            ValueQuoted | ValueNewline | ValueContinued | ValueEscape | ValueContinuedEscape
+                if c == b'\n' =>
+            {
+                ValueNewline
+            }
             ValueQuoted if c == b'\\' => ValueEscape,
             ValueQuoted | ValueEscape => ValueQuoted,
-            ValueNewline | ValueContinued => ValueContinued,
+            ValueNewline | ValueContinued if c == b'\\' => ValueContinuedEscape,
+            ValueNewline | ValueContinued | ValueContinuedEscape => ValueContinued,
             Invalid | Done => panic!("{self:?}"),
         }
     }
-- 
2.43.0


From 018f870c0e6e721606a59f65f0ed5758aa9acbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 06/26] fix: preserve consecutive newlines in attribute
 comments

---
 src/attr.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/attr.rs b/src/attr.rs
index 4f62727..d7a444e 100644
--- a/src/attr.rs
+++ b/src/attr.rs
@@ -746,7 +746,10 @@ impl<'s> Parser<'s> {
 
             let st = std::mem::replace(&mut self.state, state_next);
 
-            if st != self.state
+            // each newline of a comment is preserved
+            let comment_newlines = matches!((st, self.state), (CommentNewline, CommentNewline));
+
+            if (st != self.state || comment_newlines)
                 && !matches!(
                     (st, self.state),
                     (ValueEscape, ValueQuoted)
-- 
2.43.0


From 90e25bd686700b0013e713f0a21608fff43a1848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 07/26] fix: separate explicit classes from implicit math and
 task list classes

---
 src/html.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 8c87508..6748126 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -753,6 +753,9 @@ where
         Container::Math { display: true } => Some("math display"),
         _ => None,
     } {
+        if first_written {
+            out.write_char(' ')?;
+        }
         first_written = true;
         out.write_str(cls)?;
     }
-- 
2.43.0


From 6eda7e0d0724ebd1ac29806fb4d813a30f7c89e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:53 +0000
Subject: [PATCH 08/26] fix: do not write markup for hard breaks in image
 descriptions

---
 src/html.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/html.rs b/src/html.rs
index 6748126..2f543c7 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -659,8 +659,12 @@ impl<'s> Renderer<'s> {
             Event::EmDash => out.write_str("—")?,
             Event::NonBreakingSpace => out.write_str("&nbsp;")?,
             Event::Hardbreak => {
-                out.write_str("<br>")?;
-                self.block(out, 0)?;
+                if self.img_alt_text > 0 {
+                    out.write_char('\n')?;
+                } else {
+                    out.write_str("<br>")?;
+                    self.block(out, 0)?;
+                }
             }
             Event::Softbreak => {
                 out.write_char('\n')?;
-- 
2.43.0


From e03b35fe95e3861907b654f7ceee0f7fb9da4100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 09/26] fix: do not panic on headings with more than 65535
 levels

---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index cf43e85..35fcaf7 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -425,7 +425,7 @@ impl<'s> TreeParser<'s> {
                 Kind::Atom(a) => Block::Atom(a),
                 Kind::Paragraph => Block::Leaf(Paragraph),
                 Kind::Heading { level } => Block::Leaf(Heading {
-                    level: level.try_into().unwrap(),
+                    level: level.try_into().unwrap_or(u16::MAX),
                     has_section: top_level,
                     pos: span_start.start as u32,
                 }),
-- 
2.43.0


From dd01d3e548e612909d93e1eaf60ff3192dedd7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 10/26] fix: report failure to write buffered output to stdout

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 4ea4aec..3720633 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -15,6 +15,7 @@ struct App {
 fn run() -> Result<(), std::io::Error> {
     use jotdown::Render;
     use std::io::Read;
+    use std::io::Write;
 
     let app: App = clap::Parser::parse();
 
@@ -39,7 +40,11 @@ fn run() -> Result<(), std::io::Error> {
 
     match app.output {
         Some(path) => renderer.write_events(parser, std::fs::File::create(path)?)?,
-        None => renderer.write_events(parser, std::io::BufWriter::new(std::io::stdout()))?,
+        None => {
+            let mut out = std::io::BufWriter::new(std::io::stdout());
+            renderer.write_events(parser, &mut out)?;
+            out.flush()?;
+        }
     }
 
     Ok(())
-- 
2.43.0


From dd247cf52671572c75db3615f812f4a6b7cb05ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:45 +0000
Subject: [PATCH 11/26] fix: match references to headings that contain smart
 punctuation

The text of the heading lacked the punctuation while the label of an
implicit reference includes it.
---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 471ad0d..0cf1089 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -2285,6 +2285,9 @@ impl<'s> PrePass<'s> {
                                 text.push(' ');
                                 id_auto.push('-');
                             }
+                            inline::EventKind::Atom(inline::Atom::Hardbreak) => text.push(' '),
+                            inline::EventKind::Atom(inline::Atom::Escape) => {}
+                            inline::EventKind::Atom(..) => text.push_str(&src[ev.span]),
                             _ => {}
                         });
                         if span_inline.is_none() {
-- 
2.43.0


From 573085ad18d63c81c5e972a3fd3c3dfa34e2ad5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:12 +0000
Subject: [PATCH 12/26] fix: do not skip lines after attributes followed by
 invalid attributes

Lines examined for further attributes were consumed even if they did not
turn out to be part of valid attributes, causing the prefix of an outer
container to end up as text.
---
 src/inline.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 4fd5406..d279638 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -523,12 +523,14 @@ impl<'s> Parser<'s> {
             parser.finish()
         };
 
-        for _ in 0..line_next {
+        for _ in 0..state.valid_lines {
             let l = self.input.ahead.pop_front().unwrap();
             self.input.set_current_line(l);
         }
         self.input.span = start_attr..state.end_attr;
-        self.input.lexer = lex::Lexer::new(&self.input.src.as_bytes()[state.end_attr..line_end]);
+        self.input.lexer = lex::Lexer::new(
+            &self.input.src.as_bytes()[state.end_attr..self.input.span_line.end],
+        );
 
         if attrs.is_empty() {
             if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
-- 
2.43.0


From 7e336e95a3e06e2780648802972612eae6be3186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:53 +0000
Subject: [PATCH 13/26] fix: recognize math after an escaped backslash

---
 src/inline.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index d279638..b7a21a3 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -371,24 +371,23 @@ impl<'s> Parser<'s> {
             Some(Continue)
         } else if matches!(first.kind, lex::Kind::Seq(Sequence::Backtick)) {
             let len_opener = u8::try_from(first.len).ok()?;
+            let src = self.input.src.as_bytes();
+            let is_escaped = |i: usize| {
+                let backslashes = src[..i].iter().rev().take_while(|c| **c == b'\\');
+                backslashes.count() % 2 == 1
+            };
             let ty = if let Some(sp) = self
                 .events
                 .back()
                 .and_then(|e| matches!(&e.kind, EventKind::Str).then(|| e.span.clone()))
                 .filter(|sp| {
                     sp.end == self.input.span.start
-                        && self.input.src.as_bytes()[sp.start + sp.len() - 1] == b'$'
-                        && sp
-                            .end
-                            .checked_sub(2)
-                            .is_none_or(|i| self.input.src.as_bytes()[i] != b'\\')
+                        && src[sp.end - 1] == b'$'
+                        && !is_escaped(sp.end - 1)
                 }) {
                 let (ty, num_dollar) = if sp.len() > 1
-                    && self.input.src.as_bytes()[sp.start + sp.len() - 2] == b'$'
-                    && sp
-                        .end
-                        .checked_sub(3)
-                        .is_none_or(|i| self.input.src.as_bytes()[i] != b'\\')
+                    && src[sp.end - 2] == b'$'
+                    && !is_escaped(sp.end - 2)
                 {
                     (DisplayMath, 2)
                 } else {
-- 
2.43.0


From d3ce9f08dfb5d92b9610516401a589ebb92a28a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 14/26] fix: keep caret of unclosed footnote references

---
 src/inline.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index b7a21a3..00df0c5 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -658,20 +658,13 @@ impl<'s> Parser<'s> {
                 })
             )
         {
-            let tok = self.input.eat();
-            debug_assert_eq!(
-                tok,
-                Some(lex::Token {
-                    kind: lex::Kind::Sym(Symbol::Caret),
-                    len: 1,
-                })
-            );
             let mut end = false;
             let len = self
                 .input
                 .lexer
                 .ahead()
                 .iter()
+                .skip(1) // caret
                 .take_while(|c| {
                     if **c == b'[' {
                         return false;
@@ -683,6 +676,14 @@ impl<'s> Parser<'s> {
                 })
                 .count();
             if end {
+                let tok = self.input.eat();
+                debug_assert_eq!(
+                    tok,
+                    Some(lex::Token {
+                        kind: lex::Kind::Sym(Symbol::Caret),
+                        len: 1,
+                    })
+                );
                 self.input.lexer.skip_ahead(len + 1);
                 let span_label = self.input.span.end..(self.input.span.end + len);
                 let label = &self.input.src[span_label.clone()];
-- 
2.43.0


From 0b04c6e8b95263cbcc2a6741a29a38fc3d4c5ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:42 +0000
Subject: [PATCH 15/26] fix: strip indentation of first line in indented divs

---
 src/block.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 35fcaf7..c769b7b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -585,8 +585,10 @@ impl<'s> TreeParser<'s> {
         outer_len: usize,
         lines: &mut [std::ops::Range<usize>],
     ) {
-        // update spans, remove indentation / container prefix
-        lines.iter_mut().skip(1).for_each(|sp| {
+        // update spans, remove indentation / container prefix, the outer part of the first line has
+        // already been removed (for divs, the whole line with the opening fence)
+        let first = usize::from(!matches!(k, Kind::Fenced { .. }));
+        lines.iter_mut().skip(first).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
             let whitespace = src_t.as_ptr() as usize - src.as_ptr() as usize;
-- 
2.43.0


From d0a3813a751e6de03182ff3e284a452d8287c3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:18 +0000
Subject: [PATCH 16/26] fix: do not ignore a blank line before the last block
 of a list

A list was reported as tight whenever the only block after a blank line
was the last of the list (- a / blank / b), merging two paragraphs of an
item when rendered. Blank lines at the start or end of a nested list and
between a term and its details still do not count.
---
 src/block.rs | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index c769b7b..11816b1 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -197,7 +197,6 @@ struct TreeParser<'s> {
     src: &'s str,
     /// The previous block element was a blank line.
     prev_blankline: bool,
-    prev_loose: bool,
     attr_start: Option<usize>,
     /// Stack of currently open lists.
     open_lists: Vec<OpenList>,
@@ -218,7 +217,6 @@ impl<'s> TreeParser<'s> {
         Self {
             src,
             prev_blankline: false,
-            prev_loose: false,
             attr_start: None,
             open_lists: Vec::new(),
             alignments: Vec::new(),
@@ -391,6 +389,8 @@ impl<'s> TreeParser<'s> {
                         false
                     };
                     if !continues {
+                        // ignore blankline at end
+                        self.prev_blankline = false;
                         let l = self.open_lists.pop().unwrap();
                         self.close_list(&l, span_start.start);
                     }
@@ -401,8 +401,7 @@ impl<'s> TreeParser<'s> {
             if matches!(kind, Kind::Atom(Atom::Blankline)) {
                 self.prev_blankline = true;
             } else {
-                self.prev_loose = false;
-                if self.prev_blankline {
+                if self.prev_blankline && !self.is_after_term() {
                     if let Some(OpenList { event, depth, .. }) = self.open_lists.last() {
                         if usize::from(*depth) >= self.open.len()
                             || !matches!(kind, Kind::ListItem { .. })
@@ -410,10 +409,7 @@ impl<'s> TreeParser<'s> {
                             if let EventKind::Enter(Node::Container(List { tight, .. })) =
                                 &mut self.events[*event].kind
                             {
-                                if *tight {
-                                    self.prev_loose = true;
-                                    *tight = false;
-                                }
+                                *tight = false;
                             }
                         }
                     }
@@ -700,7 +696,6 @@ impl<'s> TreeParser<'s> {
             debug_assert!(usize::from(*depth) <= self.open.len());
             if self.open.len() == (*depth).into() {
                 self.prev_blankline = false;
-                self.prev_loose = false;
                 let l = self.open_lists.pop().unwrap();
                 self.close_list(&l, span_end.start);
             }
@@ -866,14 +861,29 @@ impl<'s> TreeParser<'s> {
         self.exit(span_end);
     }
 
+    /// Whether the current description item has nothing but its term yet.
+    fn is_after_term(&self) -> bool {
+        self.open.last().is_some_and(|&item| {
+            matches!(
+                self.events[item].kind,
+                EventKind::Enter(Node::Container(ListItem(ListItemKind::Description)))
+            ) && self.events[item + 1..]
+                .iter()
+                .enumerate()
+                .all(|(i, e)| match e.kind {
+                    EventKind::Enter(Node::Leaf(Paragraph)) => i == 0,
+                    EventKind::Inline
+                    | EventKind::Exit(Node::Leaf(Paragraph))
+                    | EventKind::Atom(Blankline) => true,
+                    _ => false,
+                })
+        })
+    }
+
     fn close_list(&mut self, list: &OpenList, pos: usize) {
-        if let EventKind::Enter(Node::Container(List { ty, tight })) =
+        if let EventKind::Enter(Node::Container(List { ty, .. })) =
             &mut self.events[list.event].kind
         {
-            if self.prev_loose {
-                // ignore blankline at end
-                *tight = true;
-            }
             *ty = list.ty_start;
         } else {
             panic!()
-- 
2.43.0


From d50b461eb284914b7320cbe5d5a815e6cb52c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:07 +0000
Subject: [PATCH 17/26] fix: keep attributes without elements out of the text
 of brackets

Brackets followed by an attribute group without elements that spans lines
took the group as text, including its line break and the prefix of the
container on the next line (> [a]{ / > }). Such a group is dropped
elsewhere, so do the same here.
---
 src/inline.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index 00df0c5..ac906e0 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -532,9 +532,12 @@ impl<'s> Parser<'s> {
         );
 
         if attrs.is_empty() {
-            if matches!(state.elem_ty, AttributesElementType::Container { .. }) {
-                let last = self.events.len() - 1;
-                self.events[last].span.end = self.input.span.end;
+            if let AttributesElementType::Container { e_placeholder } = state.elem_ty {
+                // brackets that do not become a span remain text, without the attributes
+                if !matches!(self.events[e_placeholder + 1].kind, EventKind::Str) {
+                    let last = self.events.len() - 1;
+                    self.events[last].span.end = self.input.span.end;
+                }
             }
         } else {
             let attr_index = self.store_attributes.len() as AttributesIndex;
-- 
2.43.0


From 19eb0a2617b856fe7e5de4848fb1cbb223624b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:40 +0000
Subject: [PATCH 18/26] fix: let all ambiguous items of a list take the type of
 a successor

A list of several markers that can be both roman and alphabetic kept the
roman type of its first marker when a later item could only be
alphabetic (c. d. e. started at 100), and an item could turn the list
alphabetic although items before it could only be roman (i. ii. i. j.).
---
 src/block.rs | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 11816b1..f1cf43b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -144,6 +144,14 @@ impl ListNumber {
 }
 
 impl ListType {
+    /// Return additional type that this list item could have, if any.
+    fn ambiguity(self) -> Option<Self> {
+        match self {
+            Ordered(n, s) => n.ambiguity().map(|n| Ordered(n, s)),
+            _ => None,
+        }
+    }
+
     /// Whether this list item can be continued by the other list item.
     ///
     /// If so, return the two new resolved `ListType` objects. They only differ from the input in
@@ -185,6 +193,8 @@ struct OpenList {
     /// Type of the previous item, generally the same as `ty_start` but value may differ in ordered
     /// lists.
     ty_prev: ListType,
+    /// Whether all items so far are ambiguous, i.e. the list could still be of another type.
+    ambiguous: bool,
     /// Depth in the tree where the direct list items of the list are. Needed to determine when to
     /// close the list.
     depth: u16,
@@ -369,6 +379,7 @@ impl<'s> TreeParser<'s> {
             if let Some(OpenList {
                 ty_start,
                 ty_prev,
+                ambiguous,
                 depth,
                 ..
             }) = self.open_lists.last_mut()
@@ -376,14 +387,20 @@ impl<'s> TreeParser<'s> {
                 debug_assert!(usize::from(*depth) <= self.open.len());
                 if self.open.len() == (*depth).into() {
                     let continues = if let Kind::ListItem { ty: ty_new, .. } = kind {
-                        if let Some((ty_prev_res, ty_new_res)) = ty_prev.continues(&ty_new) {
-                            if ty_start == ty_prev {
-                                *ty_start = ty_prev_res;
+                        match ty_prev.continues(&ty_new) {
+                            // previous items can only change type together
+                            Some((ty_prev_res, _)) if ty_prev_res != *ty_prev && !*ambiguous => {
+                                false
+                            }
+                            Some((ty_prev_res, ty_new_res)) => {
+                                if ty_prev_res != *ty_prev {
+                                    *ty_start = ty_start.ambiguity().unwrap();
+                                }
+                                *ambiguous &= ty_new_res.ambiguity().is_some();
+                                *ty_prev = ty_new_res;
+                                true
                             }
-                            *ty_prev = ty_new_res;
-                            true
-                        } else {
-                            false
+                            None => false,
                         }
                     } else {
                         false
@@ -625,6 +642,7 @@ impl<'s> TreeParser<'s> {
                 self.open_lists.push(OpenList {
                     ty_start: *ty,
                     ty_prev: *ty,
+                    ambiguous: ty.ambiguity().is_some(),
                     depth: self.open.len().try_into().unwrap(),
                     event,
                 });
-- 
2.43.0


From 1a56130f41b94c8470aec5ed5ae0c064942a912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:24 +0000
Subject: [PATCH 19/26] fix: strip the space after a block quote marker from
 blank lines too

---
 src/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index f1cf43b..6cc097b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -608,7 +608,9 @@ impl<'s> TreeParser<'s> {
             let skip = match k {
                 Kind::Blockquote => {
                     if src_t == ">" {
-                        whitespace + 1
+                        whitespace
+                            + 1
+                            + usize::from(src[whitespace + 1..].starts_with([' ', '\t']))
                     } else if src_t.starts_with('>')
                         && src_t[1..].starts_with(|c: char| c.is_ascii_whitespace())
                     {
-- 
2.43.0


From b98d0df9461625c0caaaccf0cfad55af5cd0fc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:01 +0000
Subject: [PATCH 20/26] fix: require further lines of link definition to be
 indented more than the first

---
 src/block.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 6cc097b..0592bef 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1286,11 +1286,10 @@ impl<'s> Kind<'s> {
                 *last_blankline = matches!(next, Self::Atom(Blankline));
                 whitespace > *indent || *last_blankline || cont_para
             }
-            Self::Definition { .. } => {
-                let blankline = line
-                    .trim_matches(|c: char| c.is_ascii_whitespace())
-                    .is_empty();
-                line.starts_with(' ') && !blankline
+            Self::Definition { indent, .. } => {
+                let line_t = line.trim_start_matches(|c: char| c.is_ascii_whitespace());
+                let whitespace = line.len() - line_t.len();
+                line.starts_with(' ') && whitespace > *indent && !line_t.is_empty()
             }
             Self::Fenced {
                 fence_length,
-- 
2.43.0


From 9ae0273cd2b9a86d6bb50a5666f12388933fe254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:24 +0000
Subject: [PATCH 21/26] fix: recognize pipe after escaped backslash as end of
 table row

---
 src/block.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/block.rs b/src/block.rs
index 0592bef..5d082f7 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1035,7 +1035,7 @@ impl<'s> IdentifiedBlock<'s> {
                 (attr::valid(line) == lt).then(|| (Kind::Atom(Attributes), indent..(indent + l)))
             }
             '|' => {
-                if lt >= 2 && line_t.ends_with('|') && !line_t.ends_with("\\|") {
+                if lt >= 2 && ends_with_pipe(line_t) {
                     Some((
                         Kind::Table {
                             caption: false,
@@ -1329,15 +1329,22 @@ impl<'s> Kind<'s> {
                     true
                 } else {
                     !*blankline
-                        && (line_t.starts_with('|')
-                            && line_t.ends_with('|')
-                            && !line_t.ends_with("\\|"))
+                        && line_t.starts_with('|')
+                        && ends_with_pipe(line_t)
                 }
             }
         }
     }
 }
 
+/// Whether the line ends with a pipe that is not escaped.
+fn ends_with_pipe(line: &str) -> bool {
+    line.strip_suffix('|').is_some_and(|l| {
+        let backslashes = l.bytes().rev().take_while(|c| *c == b'\\').count();
+        backslashes % 2 == 0
+    })
+}
+
 /// Similar to `std::str::split('\n')` but newline is included and spans are used instead of `str`.
 fn lines(src: &str) -> impl Iterator<Item = std::ops::Range<usize>> + '_ {
     let mut chars = src.chars();
-- 
2.43.0


From 0c8c7be0a7c2064be4482625f4a906b49a44acba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 22/26] fix: strip indentation from all lines of a table
 caption

---
 src/block.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 5d082f7..ed13868 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -742,7 +742,9 @@ impl<'s> TreeParser<'s> {
             })
             .map_or(lines.len(), |caption_line| {
                 self.enter(Node::Leaf(Caption), span_start.clone());
-                lines[caption_line] = self.trim_start(lines[caption_line].clone());
+                for line in &mut lines[caption_line..] {
+                    *line = self.trim_start(line.clone());
+                }
                 lines[caption_line].start += 2;
                 lines[lines.len() - 1] = self.trim_end(lines[lines.len() - 1].clone());
                 for line in &lines[caption_line..] {
-- 
2.43.0


From 7194317a3a6bad10fd01ee4d9f763991661d5dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:53:32 +0000
Subject: [PATCH 23/26] fix: remove indentation of containers from
 whitespace-only lines too

---
 src/block.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index ed13868..117ddba 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -604,7 +604,10 @@ impl<'s> TreeParser<'s> {
         lines.iter_mut().skip(first).for_each(|sp| {
             let src = &self.src[sp.clone()];
             let src_t = src.trim_matches(|c: char| c.is_ascii_whitespace());
-            let whitespace = src_t.as_ptr() as usize - src.as_ptr() as usize;
+            let whitespace = src
+                .bytes()
+                .take_while(|c| *c != b'\n' && c.is_ascii_whitespace())
+                .count();
             let skip = match k {
                 Kind::Blockquote => {
                     if src_t == ">" {
-- 
2.43.0


From dc4f27e75873f6f6604eb669ae329239a504405e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:47 +0000
Subject: [PATCH 24/26] fix: take destinations and labels that span lines from
 their source once

They were joined from events, so attributes in them were duplicated, also
with the prefix of their container ([a](<newline>u{.k}) led to u{.k}{.k}).
---
 src/inline.rs | 43 ++++++++++++++++++++-----------------------
 1 file changed, 20 insertions(+), 23 deletions(-)

diff --git a/src/inline.rs b/src/inline.rs
index ac906e0..67d87a5 100644
--- a/src/inline.rs
+++ b/src/inline.rs
@@ -84,6 +84,8 @@ struct Input<'s> {
     complete: bool,
     /// Span of current line.
     span_line: std::ops::Range<usize>,
+    /// Spans of lines within the current block, up to the current line.
+    lines: Vec<std::ops::Range<usize>>,
     /// Upcoming lines within the current block.
     ahead: std::collections::VecDeque<std::ops::Range<usize>>,
     /// Span of current event.
@@ -97,6 +99,7 @@ impl<'s> Input<'s> {
             lexer: lex::Lexer::new(b""),
             complete: false,
             span_line: 0..0,
+            lines: Vec::new(),
             ahead: std::collections::VecDeque::new(),
             span: 0..0,
         }
@@ -122,12 +125,14 @@ impl<'s> Input<'s> {
         self.lexer = lex::Lexer::new(&self.src.as_bytes()[line.clone()]);
         self.lexer.verbatim = verbatim;
         self.span = line.start..line.start;
+        self.lines.push(line.clone());
         self.span_line = line;
     }
 
     fn reset(&mut self) {
         self.lexer = lex::Lexer::new(b"");
         self.complete = false;
+        self.lines.clear();
         self.ahead.clear();
     }
 
@@ -790,33 +795,25 @@ impl<'s> Parser<'s> {
                             spec.push_str(&self.input.src[span]);
                             spec.into()
                         } else if multiline_spec {
+                            let first_line = self
+                                .input
+                                .lines
+                                .iter()
+                                .rposition(|line| line.start <= span_spec.start)
+                                .unwrap_or(0);
+
                             let mut spec = String::new();
-                            let mut first_part = true;
-                            let mut span =
-                                self.events[e_opener].span.end..self.events[e_opener].span.end;
-
-                            let mut append = |span: std::ops::Range<usize>| {
-                                self.input.src[span].split('\n').for_each(|s| {
-                                    if !s.is_empty() {
-                                        if !inline && !first_part {
-                                            spec.push(' ');
-                                        }
-                                        spec.push_str(s);
-                                        first_part = false;
+                            for line in &self.input.lines[first_line..] {
+                                let part = &self.input.src[line.start.max(span_spec.start)
+                                    ..line.end.min(span_spec.end)];
+                                let part = part.strip_suffix('\n').unwrap_or(part);
+                                if !part.is_empty() {
+                                    if !inline && !spec.is_empty() {
+                                        spec.push(' ');
                                     }
-                                });
-                            };
-
-                            for ev in self.events.iter().skip(e_opener + 1) {
-                                if span.end == ev.span.start {
-                                    span.end = ev.span.end;
-                                } else {
-                                    append(span);
-                                    span = ev.span.clone();
+                                    spec.push_str(part);
                                 }
                             }
-                            append(span);
-
                             spec.into()
                         } else {
                             self.input.src[span_spec.clone()].into()
-- 
2.43.0


From 4cec2e1b7a99e1809c8d4a4ca7ddfae0bad03a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:51 +0000
Subject: [PATCH 25/26] fix: let a tab indent further lines of a link
 definition

In a list item or footnote, where the line starts with other indentation, it
already did.
---
 src/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/block.rs b/src/block.rs
index 117ddba..0b94f5b 100644
--- a/src/block.rs
+++ b/src/block.rs
@@ -1294,7 +1294,7 @@ impl<'s> Kind<'s> {
             Self::Definition { indent, .. } => {
                 let line_t = line.trim_start_matches(|c: char| c.is_ascii_whitespace());
                 let whitespace = line.len() - line_t.len();
-                line.starts_with(' ') && whitespace > *indent && !line_t.is_empty()
+                whitespace > *indent && !line_t.is_empty()
             }
             Self::Fenced {
                 fence_length,
-- 
2.43.0


From a71cb6fe5c5d44f43b970d22e8aa294824f5c03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:59 +0000
Subject: [PATCH 26/26] fix: start anew with each document a renderer renders

State left by a previous document (footnotes, pending newline, and for
abandoned renderings also open lists, images and indentation) affected the
next one, e.g. paragraphs were not closed after a document with footnotes.
---
 src/html.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/html.rs b/src/html.rs
index 2f543c7..70b575e 100644
--- a/src/html.rs
+++ b/src/html.rs
@@ -354,6 +354,12 @@ impl<'s> Renderer<'s> {
     where
         W: std::fmt::Write,
     {
+        if matches!(e, Event::Start(Container::Document, ..)) {
+            // the previous document must not affect this one, even if it was never finished
+            *self = Self::new(self.indent.take());
+            return Ok(());
+        }
+
         if let Event::Start(Container::Footnote { label }, ..) = e {
             self.footnotes.start(label, Vec::new());
             return Ok(());
-- 
2.43.0

