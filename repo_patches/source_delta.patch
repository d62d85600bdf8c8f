From 40181a248443acfd097c3c872f438c6eb66d56c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 01/14] fix: clear_region must not clear past the right edge of
 a narrow clip

When clip.min.x and clip.max.x fall in the same 32-bit word, the word was
cleared from min.x all the way to its last pixel instead of stopping at max.x.
---
 src/blit.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/blit.rs b/src/blit.rs
index ecb6496..7d60c18 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -27,6 +27,12 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
     // Blit it
     for y in clip.min.y..clip.max.y {
         let base = y * WORDS_PER_LINE;
+        if dest_low_word == dest_high_word {
+            // Left and right edges are both in the same word
+            fb[base + dest_low_word] |=
+                (0xffffffff << (32 - px_in_dest_low_word)) & (0xffffffff >> (32 - px_in_dest_high_word));
+            continue;
+        }
         fb[base + dest_low_word] |= 0xffffffff << (32 - px_in_dest_low_word);
         for w in dest_low_word + 1..dest_high_word {
             fb[base + w] = 0xffffffff;
-- 
2.43.0


From 50e5d0ea12019b3ef0987ae752d63b666cd1f9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 02/14] fix: clear_region with a right edge on a word boundary

When clip.max.x is a multiple of 32 there are no pixels to clear in the high
word, but the mask was computed as 0xffffffff >> 32. That panics with overflow
checks on and clears 32 pixels too many with them off.
---
 src/blit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/blit.rs b/src/blit.rs
index 7d60c18..e9db034 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -37,7 +37,7 @@ pub fn clear_region(fb: &mut FrBuf, clip: ClipRect) {
         for w in dest_low_word + 1..dest_high_word {
             fb[base + w] = 0xffffffff;
         }
-        if dest_low_word < dest_high_word {
+        if dest_low_word < dest_high_word && px_in_dest_high_word > 0 {
             fb[base + dest_high_word] |= 0xffffffff >> (32 - px_in_dest_high_word);
         }
     }
-- 
2.43.0


From 0898c602839fd18d0520a7b898040f8ec00bd37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 03/14] fix: paint only one replacement character for a
 trailing unknown char

When the last char of a string had no glyph, the string slice was not advanced
past it, so the replacement character got painted again for each remaining
iteration of the loop (once per UTF-8 byte, or more after multi-byte text).
---
 src/blit.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index e9db034..77fb6e6 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -76,8 +76,7 @@ pub fn paint_str(fb: &mut FrBuf, clip: ClipRect, c: &mut Cursor, st: GlyphStyle,
                 if let Some((i, _)) = cluster.char_indices().nth(1) {
                     cluster = &cluster[i..];
                 } else {
-                    //cluster = &cluster[1..];
-                    //break; // That was the last char, so stop now
+                    break; // That was the last char, so stop now
                 }
             }
         }
-- 
2.43.0


From 4a7d80c1c8c71ceca27d044312ba436b20154653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 04/14] fix: glyph below the clip rect must not swallow the
 rest of the string

xor_char() returned Ok(0) (zero bytes used) for a glyph with all its pixels
below the clip rect, so paint_str() retried the same glyph until it ran out of
iterations. On a line partly cut off by the bottom edge, one low glyph such as
'_' or '.' made everything after it disappear. Clip the glyph's rows instead.
---
 src/blit.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 77fb6e6..2433224 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -156,13 +156,10 @@ fn xor_char(
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
     // Blit it
     let y0 = c.pt.y + gh.y_offset;
-    if y0 > clip.max.y {
-        return Ok(0); // Entire glyph is outside clip rect, so clip it
-    }
     let y_max = if (y0 + gh.h) <= clip.max.y {
         gh.h
     } else {
-        clip.max.y - y0 // Clip bottom of glyph
+        clip.max.y.saturating_sub(y0) // Clip bottom of glyph (or all of it)
     };
     for y in 0..y_max {
         // Skip rows that are above the clip region
-- 
2.43.0


From 5b22d84ece4ef5ef7d92a6d162eddc18a1a1be0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:14 +0000
Subject: [PATCH 05/14] fix: clip the right edge of glyphs wider than the clip
 rect

After word wrapping, a glyph that was still too wide for the clip rect got
painted in full: over pixels to the right of the clip rect, over the start of
the next line at the right edge of the screen, and past the end of the frame
buffer (index out of bounds panic) in the bottom right corner.
---
 src/blit.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/blit.rs b/src/blit.rs
index 2433224..7af8936 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -154,6 +154,12 @@ fn xor_char(
     let dest_low_word = x0 >> 5;
     let dest_high_word = x1 >> 5;
     let px_in_dest_low_word = 32 - (x0 & 0x1f);
+    // Clip right edge of glyph if it's wider than the clip rect
+    let w_max = if x1 <= clip.max.x {
+        gh.w
+    } else {
+        clip.max.x - x0
+    };
     // Blit it
     let y0 = c.pt.y + gh.y_offset;
     let y_max = if (y0 + gh.h) <= clip.max.y {
@@ -185,10 +191,13 @@ fn xor_char(
             pattern_h >>= 32 - px_in_high_word;
             pattern |= pattern_h;
         }
+        if w_max < gh.w {
+            pattern &= (1 << w_max) - 1;
+        }
         // XOR glyph pixels onto destination buffer
         let base = (y0 + y) * WORDS_PER_LINE;
         fb[base + dest_low_word] ^= pattern << (32 - px_in_dest_low_word);
-        if px_in_dest_low_word < gh.w {
+        if px_in_dest_low_word < w_max {
             fb[base + dest_high_word] ^= pattern >> px_in_dest_low_word;
         }
     }
-- 
2.43.0


From f7c439c2bc56fab9a59790129d8718d1f97bf44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:41 +0000
Subject: [PATCH 06/14] fix: no arithmetic overflow for far off-screen cursors

Cursor fields are public and unchecked. With coordinates or a line height close
to usize::MAX the sums in paint_str() panicked with overflow checks on; with
overflow checks off, they wrapped and painted off-screen text at the top of the
clip rect. Saturate instead, so that off-screen stays off-screen.
---
 src/blit.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/blit.rs b/src/blit.rs
index 7af8936..471e784 100644
--- a/src/blit.rs
+++ b/src/blit.rs
@@ -89,7 +89,7 @@ fn newline(clip: ClipRect, c: &mut Cursor) {
     if c.line_height < fonts::small::MAX_HEIGHT as usize {
         c.line_height = fonts::small::MAX_HEIGHT as usize;
     }
-    c.pt.y += c.line_height + 1;
+    c.pt.y = c.pt.y.saturating_add(c.line_height.saturating_add(1));
     c.line_height = 0;
 }
 
@@ -143,9 +143,9 @@ fn xor_char(
         c.pt.x = clip.min.x;
     }
     // Add 1px pad to left
-    let mut x0 = c.pt.x + 1;
+    let mut x0 = c.pt.x.saturating_add(1);
     // Adjust for word wrapping
-    if x0 + gh.w + 2 >= clip.max.x {
+    if x0.saturating_add(gh.w + 2) >= clip.max.x {
         newline(clip, c);
         x0 = c.pt.x + 1;
     }
@@ -161,8 +161,8 @@ fn xor_char(
         clip.max.x - x0
     };
     // Blit it
-    let y0 = c.pt.y + gh.y_offset;
-    let y_max = if (y0 + gh.h) <= clip.max.y {
+    let y0 = c.pt.y.saturating_add(gh.y_offset);
+    let y_max = if y0.saturating_add(gh.h) <= clip.max.y {
         gh.h
     } else {
         clip.max.y.saturating_sub(y0) // Clip bottom of glyph (or all of it)
-- 
2.43.0


From c90fca9dc78b9a5348cf904c191641706201f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:17 +0000
Subject: [PATCH 07/14] fix: codegen must not ignore errors from writing font
 files

The error from ioutil.WriteFile() was dropped: with a missing output directory
or a full disk, codegen --write printed "Writing to ..." and exited with status
0, leaving a missing or truncated font file behind.
---
 codegen/main.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen/main.go b/codegen/main.go
index ba26deb..772f7c9 100644
--- a/codegen/main.go
+++ b/codegen/main.go
@@ -40,7 +40,9 @@ func codegen() {
 		// Generate rust source code and write it to a file
 		code := RenderFontFileTemplate(f, gs, f.M3Seed)
 		fmt.Println("Writing to", f.RustOut)
-		ioutil.WriteFile(f.RustOut, []byte(code), 0644)
+		if err := ioutil.WriteFile(f.RustOut, []byte(code), 0644); err != nil {
+			panic(err)
+		}
 	}
 }
 
-- 
2.43.0


From 65d1d4e921273604ea6beae6e327e034c1dc598b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:26 +0000
Subject: [PATCH 08/14] fix: codegen cuts out cells of the glyph size whatever
 the border

---
 codegen/lib/blitpattern.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/codegen/lib/blitpattern.go b/codegen/lib/blitpattern.go
index f2e5e47..9939cc7 100644
--- a/codegen/lib/blitpattern.go
+++ b/codegen/lib/blitpattern.go
@@ -42,9 +42,11 @@ func NewBlitPattern(img image.Image, font FontSpec, cs CharSpec, dbg bool) BlitP
 	gridSize := font.Size + font.Gutter
 	border := font.Border
 	pxMatrix := Matrix{}
-	for y := border + (row * gridSize); y < (row+1)*gridSize; y++ {
+	y0 := border + (row * gridSize)
+	x0 := border + (col * gridSize)
+	for y := y0; y < y0+font.Size; y++ {
 		var row MatrixRow
-		for x := border + (col * gridSize); x < (col+1)*gridSize; x++ {
+		for x := x0; x < x0+font.Size; x++ {
 			r, _, _, _ := img.At(x, y).RGBA()
 			//fmt.Println(r, g, b, a)
 			if r == 0 {
-- 
2.43.0


From f277bb64384265356c104a40abdd7bdd7d2209ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:01 +0000
Subject: [PATCH 09/14] fix: codegen refuses code points that are not Unicode
 scalar values

Surrogates and numbers over 10FFFF silently became U+FFFD in the index.
---
 codegen/lib/charspec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/codegen/lib/charspec.go b/codegen/lib/charspec.go
index 02793ae..42b77e0 100644
--- a/codegen/lib/charspec.go
+++ b/codegen/lib/charspec.go
@@ -8,6 +8,8 @@ import (
 	"io/ioutil"
 	"strconv"
 	"strings"
+	"unicode"
+	"unicode/utf8"
 )
 
 // Holds mappings from extended grapheme clusters to sprite sheet glyph grid coordinates
@@ -49,7 +51,7 @@ func StringFromHexGC(hexGC string) string {
 	}
 	for _, hc := range hexCodepoints {
 		n, err := strconv.ParseUint(hc, base, bits)
-		if err != nil {
+		if err != nil || n > unicode.MaxRune || !utf8.ValidRune(rune(n)) {
 			panic(fmt.Errorf("unexpected value for hexGC: %q", hexGC))
 		}
 		cluster += string(rune(n))
-- 
2.43.0


From 235c1ee480c41b3c525c375e480599f691eb9a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 10/14] fix: codegen must not drop alias lines without a word

Lines with two clusters separated by a tab or by more than one space, and
lines with any other number of clusters, were skipped silently.
---
 codegen/lib/charspec.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/codegen/lib/charspec.go b/codegen/lib/charspec.go
index 42b77e0..02fcccc 100644
--- a/codegen/lib/charspec.go
+++ b/codegen/lib/charspec.go
@@ -106,13 +106,15 @@ func EmojiAliases(inputFile string) []GCAlias {
 	for _, line := range strings.Split(string(text), "\n") {
 		// Trim comments and leading/trailing whitespace
 		txt := strings.TrimSpace(strings.SplitN(line, "#", 2)[0])
-		clusters := strings.Split(txt, " ")
-		if len(clusters) == 2 && len(clusters[0]) > 0 && len(clusters[1]) > 0 {
+		clusters := strings.Fields(txt)
+		if len(clusters) == 2 {
 			primary := clusters[0]
 			alias := clusters[1]
 			gcaList = append(gcaList, GCAlias{primary, alias})
+		} else if len(clusters) > 0 {
+			panic(fmt.Errorf("unexpected alias line: %q", line))
 		}
-		// Skip blank lines, comments, etc.
+		// Skip blank lines and comments
 	}
 	return gcaList
 }
-- 
2.43.0


From 603e00ed86896805bb336ea5ee97d2f8788ffa64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:02 +0000
Subject: [PATCH 11/14] fix: codegen refuses cells that are not within the
 sprite sheet

Cells right of the image were read as solid glyphs, and a last row without
a gutter below was refused.
---
 codegen/lib/blitpattern.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/codegen/lib/blitpattern.go b/codegen/lib/blitpattern.go
index 9939cc7..fb44a59 100644
--- a/codegen/lib/blitpattern.go
+++ b/codegen/lib/blitpattern.go
@@ -33,17 +33,16 @@ type BlitPattern struct {
 func NewBlitPattern(img image.Image, font FontSpec, cs CharSpec, dbg bool) BlitPattern {
 	row := cs.Row
 	col := cs.Col
-	imgRect := img.Bounds()
-	rows := (imgRect.Max.Y - font.Border) / (font.Size + font.Gutter)
-	if row < 0 || row >= rows || col < 0 || col >= font.Cols {
-		panic("row or column out of range")
-	}
-	// Get pixels for grid cell, converting from RGBA to 1-bit
 	gridSize := font.Size + font.Gutter
 	border := font.Border
-	pxMatrix := Matrix{}
 	y0 := border + (row * gridSize)
 	x0 := border + (col * gridSize)
+	cell := image.Rect(x0, y0, x0+font.Size, y0+font.Size)
+	if row < 0 || col < 0 || col >= font.Cols || !cell.In(img.Bounds()) {
+		panic("row or column out of range")
+	}
+	// Get pixels for grid cell, converting from RGBA to 1-bit
+	pxMatrix := Matrix{}
 	for y := y0; y < y0+font.Size; y++ {
 		var row MatrixRow
 		for x := x0; x < x0+font.Size; x++ {
-- 
2.43.0


From 77862c5ffcce23c9f2f7f46c4ee9a3c0b0b685f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:03 +0000
Subject: [PATCH 12/14] fix: codegen refuses glyphs that are too big for the
 blit pattern format

Glyphs wider than 32 px or higher than 255 px gave fonts that the library
cannot paint.
---
 codegen/lib/matrix.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen/lib/matrix.go b/codegen/lib/matrix.go
index 6d8a36f..3cc518c 100644
--- a/codegen/lib/matrix.go
+++ b/codegen/lib/matrix.go
@@ -40,6 +40,10 @@ func (m Matrix) convertToPattern(yOffset uint32) []uint32 {
 		patW = uint32(len(m[0]))
 		patH = uint32(len(m))
 	}
+	// Blitting works on rows of up to one word, the header has 8 bits each
+	if patW > 32 || patH > 255 || yOffset > 255 {
+		panic(fmt.Errorf("glyph too big: %d x %d px, %d px down", patW, patH, yOffset))
+	}
 	pattern := []uint32{(patW << 16) | (patH << 8) | yOffset}
 	bufWord := uint32(0)
 	flushed := false
-- 
2.43.0


From 8f73b30bd3d8a4253d8834d9d58531c51ec18190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:17 +0000
Subject: [PATCH 13/14] fix: codegen refuses aliases of clusters that only
 share a hash with one in the index

---
 codegen/lib/glyphset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/codegen/lib/glyphset.go b/codegen/lib/glyphset.go
index 3936202..6344ddb 100644
--- a/codegen/lib/glyphset.go
+++ b/codegen/lib/glyphset.go
@@ -59,7 +59,7 @@ func (g GlyphSet) FindDataOffset(block UBlock, utf8Cluster string, m3Seed uint32
 	dex := g.Index[block]
 	hash := Murmur3(utf8Cluster, m3Seed)
 	n := sort.Search(len(dex), func(i int) bool { return dex[i].M3Hash >= hash })
-	if n == len(dex) || dex[n].M3Hash != hash {
+	if n == len(dex) || dex[n].M3Hash != hash || dex[n].Cluster != utf8Cluster {
 		fmt.Printf("\nblock: %X..%X %s\n", block.Low, block.High, block.Name)
 		fmt.Printf("g.Index[block]:\n%+q\n", g.Index[block])
 		fmt.Printf("n := Search(key):\n  index[n]: %v,  key: %q\n", dex[n].M3Hash, utf8Cluster)
-- 
2.43.0


From 7123afe0a40d1661d8ad433ebc43fcdd6d606bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:56 +0000
Subject: [PATCH 14/14] fix: codegen refuses font sizes that are not 1 to 255

---
 codegen/lib/config.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/codegen/lib/config.go b/codegen/lib/config.go
index ba4e7a3..8e6482c 100644
--- a/codegen/lib/config.go
+++ b/codegen/lib/config.go
@@ -57,6 +57,10 @@ func NewConfig(configFile string) Config {
 func (c Config) Fonts() []FontSpec {
 	list := []FontSpec{}
 	for _, gs := range c.GlyphSets {
+		// Fonts have their maximum height (the size) as a u8
+		if gs.Size < 1 || gs.Size > 255 {
+			panic(fmt.Errorf("bad size for font %q: %d", gs.Name, gs.Size))
+		}
 		fs := FontSpec{
 			gs.Name, gs.Sprites, gs.Size, gs.Cols, gs.Gutter, gs.Border,
 			gs.readLegal(),
-- 
2.43.0

