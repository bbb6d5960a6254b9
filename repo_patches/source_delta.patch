From e15bb22a14fdd78076edac4cf48f52b887ec8411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:28 +0000
Subject: [PATCH 1/4] fix: punct directly before a character literal is not
 joint

The opening quote of a character literal was taken for the punct of a
lifetime, so '=' in `='a'` came out as Spacing::Joint even though no
Punct follows it. rustc's own lexer says Alone.
---
 src/parse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index 7de0a5c..ca18a58 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -880,6 +880,8 @@ fn punct(input: Cursor) -> PResult<Punct> {
         }
     } else {
         let kind = match punct_char(rest) {
+            // The quote of a character literal is not a punct.
+            Ok((_, '\'')) if character(rest).is_ok() => Spacing::Alone,
             Ok(_) => Spacing::Joint,
             Err(Reject) => Spacing::Alone,
         };
-- 
2.43.0


From ba49261a3b852439ad6c596d34baa440af3e8aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:28 +0000
Subject: [PATCH 2/4] fix: lifetime followed by a string literal

In `'b"x"` (also r, c, br, cr) the name of the lifetime was parsed
as the prefix of the string literal, producing the tokens `'` and
`b"x"`. rustc's lexer produces the lifetime `'b` and then `"x"`.
---
 src/parse.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index ca18a58..a98f159 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -243,8 +243,29 @@ pub(crate) fn token_stream(mut input: Cursor) -> Result<TokenStream, LexError> {
                 #[cfg(span_locations)]
                 hi: rest.off,
             }));
+            let is_lifetime = match &tt {
+                TokenTree::Punct(punct) => punct.as_char() == '\'',
+                _ => false,
+            };
             tokens.push_token_from_parser(tt);
             input = rest;
+
+            if is_lifetime {
+                // The name of a lifetime is never the prefix of a literal, as
+                // in `'b"..."`.
+                let (rest, mut ident) = match ident_any(input) {
+                    Ok((rest, ident)) => (rest, ident),
+                    Err(Reject) => return Err(lex_error(input)),
+                };
+                ident.set_span(crate::Span::_new_fallback(Span {
+                    #[cfg(span_locations)]
+                    lo: input.off,
+                    #[cfg(span_locations)]
+                    hi: rest.off,
+                }));
+                tokens.push_token_from_parser(TokenTree::Ident(ident));
+                input = rest;
+            }
         }
     }
 }
-- 
2.43.0


From 11e4b113acc07c936df4c16516e996e31e28a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:18 +0000
Subject: [PATCH 3/4] fix: Literal::subspan takes a range of source bytes

Spans of the fallback are positions in chars, so for a literal containing
non-ASCII text the byte range was misinterpreted: the returned span covered
the wrong text, and valid ranges near the end were refused.
---
 src/fallback.rs | 39 ++++++++++++++-------------------------
 1 file changed, 14 insertions(+), 25 deletions(-)

diff --git a/src/fallback.rs b/src/fallback.rs
index 61dc21d..3dd64c0 100644
--- a/src/fallback.rs
+++ b/src/fallback.rs
@@ -1165,33 +1165,22 @@ impl Literal {
         {
             use core::ops::Bound;
 
-            let lo = match range.start_bound() {
-                Bound::Included(start) => {
-                    let start = u32::try_from(*start).ok()?;
-                    self.span.lo.checked_add(start)?
-                }
-                Bound::Excluded(start) => {
-                    let start = u32::try_from(*start).ok()?;
-                    self.span.lo.checked_add(start)?.checked_add(1)?
-                }
-                Bound::Unbounded => self.span.lo,
+            // The range is in bytes of the source, whereas spans are in chars.
+            let source_text = self.span.source_text().unwrap_or_default();
+            let start = match range.start_bound() {
+                Bound::Included(start) => *start,
+                Bound::Excluded(start) => start.checked_add(1)?,
+                Bound::Unbounded => 0,
             };
-            let hi = match range.end_bound() {
-                Bound::Included(end) => {
-                    let end = u32::try_from(*end).ok()?;
-                    self.span.lo.checked_add(end)?.checked_add(1)?
-                }
-                Bound::Excluded(end) => {
-                    let end = u32::try_from(*end).ok()?;
-                    self.span.lo.checked_add(end)?
-                }
-                Bound::Unbounded => self.span.hi,
+            let end = match range.end_bound() {
+                Bound::Included(end) => end.checked_add(1)?,
+                Bound::Excluded(end) => *end,
+                Bound::Unbounded => source_text.len(),
             };
-            if lo <= hi && hi <= self.span.hi {
-                Some(Span { lo, hi })
-            } else {
-                None
-            }
+            let selected = source_text.get(start..end)?;
+            let lo = self.span.lo + source_text[..start].chars().count() as u32;
+            let hi = lo + selected.chars().count() as u32;
+            Some(Span { lo, hi })
         }
     }
 }
-- 
2.43.0


From 83cce5e16c878a1c3929b0e3f3420ee75fbcf370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:32 +0000
Subject: [PATCH 4/4] fix: no sign after an underscore in a float's exponent

---
 src/parse.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parse.rs b/src/parse.rs
index a98f159..51041df 100644
--- a/src/parse.rs
+++ b/src/parse.rs
@@ -811,6 +811,8 @@ fn float_digits(input: Cursor) -> Result<Cursor, Reject> {
                 '_' => {
                     chars.next();
                     len += 1;
+                    // A sign comes directly after the `e`, or not at all.
+                    has_sign = true;
                 }
                 _ => break,
             }
-- 
2.43.0

