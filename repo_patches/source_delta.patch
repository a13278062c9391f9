From 3f2f0b15ba1106480849cb49b96353d3fab4641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:45 +0000
Subject: [PATCH 1/4] fix: clear_region stays inside its clip rect

When both edges were in the same framebuffer word, pixels right of
clip.max.x were cleared too. When clip.max.x was a multiple of 32, the
high word shift overflowed (panic in debug builds; in release builds, 32
pixels right of the region got cleared).
---
 src/blit.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index ecb6496..b531d6f 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -21,12 +21,18 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
     }
     // Calculate word alignment for destination buffer
     let dest_low_word = clip.min.x >> 5;
-    let dest_high_word = clip.max.x >> 5;
+    let dest_high_word = (clip.max.x - 1) >> 5;
     let px_in_dest_low_word = 32 - (clip.min.x & 0x1f);
-    let px_in_dest_high_word = clip.max.x & 0x1f;
+    let px_in_dest_high_word = ((clip.max.x - 1) & 0x1f) + 1;
     // Blit it
     for y in clip.min.y..clip.max.y {
         let base = y * WORDS_PER_LINE;
+        if dest_low_word == dest_high_word {
+            // Left and right edges of the region are in the same word
+            let low_mask = 0xffffffff << (32 - px_in_dest_low_word);
+            fb[base + dest_low_word] |= low_mask & (0xffffffff >> (32 - px_in_dest_high_word));
+            continue;
+        }
         fb[base + dest_low_word] |= 0xffffffff << (32 - px_in_dest_low_word);
         for w in dest_low_word + 1..dest_high_word {
             fb[base + w] = 0xffffffff;
-- 
2.43.0


From 0271f112bbc8cec2cbc3be66d8d43b0b15a1686d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:47 +0000
Subject: [PATCH 2/4] fix: paint replacement glyph once for a trailing unknown
 char

When the last char of a string had no glyph, it was never consumed, so
the replacement glyph was painted again for each of the remaining loop
iterations (e.g. 5 times for "\u{e9}\u{e9}\u{e9}\u{416}").
---
 src/blit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index b531d6f..b399d1a 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -76,8 +76,7 @@ pub fn paint_str(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, st: GlyphStyle,
                 if let Some((i, _)) = cluster.char_indices().nth(1) {
                     cluster = &cluster[i..];
                 } else {
-                    //cluster = &cluster[1..];
-                    //break; // That was the last char, so stop now
+                    break; // That was the last char, so stop now
                 }
             }
         }
-- 
2.43.0


From 90b0670be0b4d5fcef5967c2dce6240dd22fb8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:48 +0000
Subject: [PATCH 3/4] fix: don't blit glyphs that are wider than the clip rect

Glyphs got painted past the right edge of a narrow clip rect. When the
clip rect was close to the right edge of the screen, that wrapped around
into the next line, or past the end of the frame buffer (panic).
---
 src/blit.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/blit.rs b/src/blit.rs
index b399d1a..d43ade5 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -138,6 +138,9 @@ fn xor_char(
     if gh.w > 32 {
         return Ok(0);
     }
+    if clip.min.x + 1 + gh.w > clip.max.x {
+        return Ok(0); // Clip rect is too narrow for this glyph, even on a new line
+    }
     // Don't clip if cursor is left of clip rect; instead, advance the cursor
     if c.pt.x < clip.min.x {
         c.pt.x = clip.min.x;
-- 
2.43.0


From e63dce7e49770f0fedf04cfb836e255f99fc306c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:49 +0000
Subject: [PATCH 4/4] fix: avoid integer overflow for cursors far outside the
 screen

A cursor with coordinates close to usize::MAX made paint_str() panic in
debug builds, or wrap around and paint left of the clip rect in release
builds.
---
 src/blit.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index d43ade5..a6ffe39 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -89,7 +89,7 @@ fn newline(clip: ClipRect, c: &mut Cursor) {
     if c.line_height < fonts::small::MAX_HEIGHT as usize {
         c.line_height = fonts::small::MAX_HEIGHT as usize;
     }
-    c.pt.y += c.line_height + 1;
+    c.pt.y = c.pt.y.saturating_add(c.line_height).saturating_add(1);
     c.line_height = 0;
 }
 
@@ -146,9 +146,9 @@ fn xor_char(
         c.pt.x = clip.min.x;
     }
     // Add 1px pad to left
-    let mut x0 = c.pt.x + 1;
+    let mut x0 = c.pt.x.saturating_add(1);
     // Adjust for word wrapping
-    if x0 + gh.w + 2 >= clip.max.x {
+    if x0.saturating_add(gh.w + 2) >= clip.max.x {
         newline(clip, c);
         x0 = c.pt.x + 1;
     }
@@ -158,7 +158,7 @@ fn xor_char(
     let dest_high_word = x1 >> 5;
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
     // Blit it
-    let y0 = c.pt.y + gh.y_offset;
+    let y0 = c.pt.y.saturating_add(gh.y_offset);
     if y0 > clip.max.y {
         return Ok(0); // Entire glyph is outside clip rect, so clip it
     }
-- 
2.43.0

