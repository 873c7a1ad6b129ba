From ea6c2ad7fdd3b5a15313760039acb6fa63dd17f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 1/4] fix: build the 7-step alpha codebook from its own
 endpoints

The 7-alpha codebook was seeded with the 5-alpha endpoints, so pixels were
matched against values that the emitted block does not contain.
---
 lib/src/alpha.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/alpha.rs b/lib/src/alpha.rs
index d5cde06..c53e3d6 100644
--- a/lib/src/alpha.rs
+++ b/lib/src/alpha.rs
@@ -235,8 +235,8 @@ pub fn compress_bc3(rgba: &[[u8; 4]; 16], channel: usize, mask: u32, block: &mut
 
     // set up the 7-alpha codebook
     let mut codes7 = [0u8; 8];
-    codes7[0] = min5;
-    codes7[1] = max5;
+    codes7[0] = min7;
+    codes7[1] = max7;
     for i in 1..7i32 {
         codes7[1 + i as usize] = (((7 - i) * i32::from(min7) + i * i32::from(max7)) / 7) as u8;
     }
-- 
2.43.0


From cb51bded1eadbb1a2fee05ce2d149abd13701989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 2/4] fix: find the principal axis when it is orthogonal to (1,
 1, 1)

The power iteration divided by zero when the covariance matrix maps its
starting vector to zero (e.g. a red/green checkerboard), which collapsed the
block to a single colour.
---
 lib/src/math.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/src/math.rs b/lib/src/math.rs
index 1012f8f..e979a7b 100644
--- a/lib/src/math.rs
+++ b/lib/src/math.rs
@@ -80,6 +80,20 @@ impl Sym3x3 {
         let row2 = Vec4::new(self.x[2], self.x[4], self.x[5], 0.0);
         let mut v = Vec4::new(1.0, 1.0, 1.0, 1.0);
 
+        // a starting vector in the null space of the matrix never leaves it, so start from
+        // the most significant row in that case
+        let w = row0 + row1 + row2;
+        if w.x() == 0.0 && w.y() == 0.0 && w.z() == 0.0 {
+            let (xx, yy, zz) = (self.x[0], self.x[3], self.x[5]);
+            v = if xx >= yy && xx >= zz {
+                row0
+            } else if yy >= zz {
+                row1
+            } else {
+                row2
+            };
+        }
+
         for _ in 0..POWER_ITERATION_COUNT {
             // matrix multiplication
             let w = row0 * v.splat_x();
-- 
2.43.0


From 138ef5a4b99039a271bac71cc644d60ae77271db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:18 +0000
Subject: [PATCH 3/4] fix: do not process blocks beyond the image when the
 output buffer is larger

compress() documents its output buffer as 'at least' the compressed size, but
a larger buffer was filled with bogus blocks or caused a panic; decompress()
read past the end of its input.
---
 lib/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index ea15d64..ddcd10b 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -130,6 +130,9 @@ impl Format {
         #[cfg(not(feature = "rayon"))]
         let output_rows = output.chunks_mut(width * 4 * 4);
 
+        // only the image itself is written, the output buffer may be larger
+        let output_rows = output_rows.take(num_blocks(height));
+
         // loop over blocks
         output_rows.enumerate().for_each(|(y, output_row)| {
             for x in 0..blocks_wide {
@@ -302,6 +305,9 @@ impl Format {
         #[cfg(not(feature = "rayon"))]
         let output_rows = output.chunks_mut(blocks_wide * block_size);
 
+        // only the image itself is written, the output buffer may be larger
+        let output_rows = output_rows.take(num_blocks(height));
+
         output_rows.enumerate().for_each(|(y, output_row)| {
             let mut source_rgba = [[0u8; 4]; 16];
             let output_blocks = output_row.chunks_mut(block_size);
-- 
2.43.0


From 6003559bb871bd771af9e1d6addcc74d2ca200d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 4/4] fix: refuse an output buffer that is too small in
 decompress

A buffer that lacked whole rows of blocks was accepted and left the image
incomplete without any error.
---
 lib/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/lib.rs b/lib/src/lib.rs
index ddcd10b..9a64318 100644
--- a/lib/src/lib.rs
+++ b/lib/src/lib.rs
@@ -122,6 +122,8 @@ impl Format {
     /// * `height` - The height of the source image
     /// * `output` - Space to store the decompressed image
     pub fn decompress(self, data: &[u8], width: usize, height: usize, output: &mut [u8]) {
+        assert!(output.len() >= width * height * 4);
+
         let blocks_wide = num_blocks(width);
         let block_size = self.block_size();
 
-- 
2.43.0

