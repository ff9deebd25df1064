From c41a46335d97f58abbe66d517502cb25b1229c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:06:32 +0000
Subject: [PATCH 01/17] fix: encode images which use color index 255

The number of table entries was computed as a u8, so a pixel value of
255 overflowed.
---
 gift/src/encode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5122e51..5ac087a 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -210,8 +210,8 @@ impl ImageData {
     /// Format an image data block
     fn format<W: Write>(&self, w: &mut W) -> io::Result<()> {
         // number of entries needed is max value plus one
-        let min_code_bits =
-            next_high_bit(self.data().iter().copied().max().unwrap_or(0) + 1);
+        let max = self.data().iter().copied().max().unwrap_or(0);
+        let min_code_bits = next_high_bit(u16::from(max) + 1);
         // minimum code bits must be between 2 and 8
         let min_code_bits = 2.max(min_code_bits).min(8);
         w.write_all(&[min_code_bits])?;
@@ -229,7 +229,7 @@ impl ImageData {
 }
 
 /// Get the high bit of a value
-fn next_high_bit(value: u8) -> u8 {
+fn next_high_bit(value: u16) -> u8 {
     u32::from(value).next_power_of_two().trailing_zeros() as u8
 }
 
-- 
2.43.0


From 4f7a8ba10cfca0fdc4ccb23f78dff453a2df43c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:03 +0000
Subject: [PATCH 02/17] fix: write the last LZW data code of an image

Leftover bits were dropped after packing the end code, although they
could include bits of the final data code.  Decoding such an image
reported incomplete image data.
---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 8b1cffc..274738b 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -223,6 +223,10 @@ impl Compressor {
             self.pack(code, buffer);
         }
         self.pack(self.end_code(), buffer);
+        // leftover bits may include the last data code (not just end code)
+        if self.n_bits > u8::from(self.code_bits) {
+            buffer.push(self.code as u8);
+        }
     }
 
     /// Search and insert a node
-- 
2.43.0


From dee73d1931b4589455890c7b6acfc1ba8b2f794b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:03 +0000
Subject: [PATCH 03/17] fix: stop adding LZW codes when the table is full

Encoders may defer the clear code, so the table must stay at 4096
entries until it arrives.  It used to keep growing, until the code type
overflowed.
---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 274738b..afef0a5 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -380,6 +380,10 @@ impl Decompressor {
             return Err(Error::InvalidLzwData);
         }
         match self.prefix {
+            // Table is full until the next clear code
+            Some(_) if next_code >= Bits::MAX.entries() => {
+                self.decompress_buffer(code, buffer);
+            }
             Some(prefix) => {
                 // Is code already in table?
                 let data = if code < next_code {
-- 
2.43.0


From e3ca91d8583fd3b24c2373f39d9b20d575538106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:03 +0000
Subject: [PATCH 04/17] fix: reject LZW codes without a prefix

The first code after a clear code must be a data value.  Larger codes
were accepted, which could create a table entry with itself as parent
and make decompression loop forever.
---
 gift/src/lzw.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index afef0a5..814953d 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -394,6 +394,10 @@ impl Decompressor {
                 self.push_node(Some(prefix), data);
                 self.decompress_buffer(code, buffer);
             }
+            // First code after a clear must be a data value
+            None if code >= self.clear_code() => {
+                return Err(Error::InvalidLzwData);
+            }
             None => buffer.push(code as u8),
         }
         if next_code + 1 == self.code_bits.entries() {
-- 
2.43.0


From a45e50c82fd0f7e1f1cfa3255f9439ffb82ec265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:22 +0000
Subject: [PATCH 05/17] fix: stop LZW decompression at the end code

Codes after the end code were still decompressed into the image.
---
 gift/src/lzw.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index 814953d..a43bd8c 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -98,6 +98,8 @@ pub struct Decompressor {
     code: u32,
     /// Number of bits in current code
     n_bits: u8,
+    /// Has the end code been reached?
+    ended: bool,
 }
 
 impl CNode {
@@ -268,6 +270,7 @@ impl Decompressor {
             prefix: None,
             code: 0,
             n_bits: 0,
+            ended: false,
         };
         dec.reset_table();
         dec
@@ -341,7 +344,9 @@ impl Decompressor {
         buffer: &mut Vec<u8>,
     ) -> Result<()> {
         let mut bytes = bytes;
-        while let (Some(code), n_consumed) = self.unpack(bytes) {
+        while !self.ended
+            && let (Some(code), n_consumed) = self.unpack(bytes)
+        {
             self.decompress_code(code, buffer)?;
             bytes = &bytes[n_consumed..];
         }
@@ -360,8 +365,7 @@ impl Decompressor {
             self.code_bits = Bits::from(initial_code_bits);
             self.prefix = None;
         } else if code == self.end_code() {
-            // FIXME: end decompress loop here
-            self.prefix = None;
+            self.ended = true;
         } else {
             self.decompress_data(code, buffer)?;
             self.prefix = Some(code);
-- 
2.43.0


From 71955a5fdae9b84cc0ed22ceb06422b8743a3fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:22 +0000
Subject: [PATCH 06/17] fix: stop LZW decompression when the image is complete

Surplus image data was decompressed before being truncated, so a tiny
image could take thousands of times the memory of its file, ignoring
max_image_sz.
---
 gift/src/decode.rs | 9 +++++++--
 gift/src/lzw.rs    | 4 +++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 01bc93f..820918c 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -314,7 +314,11 @@ impl<R: Read> Blocks<R> {
             Comment(b) => b.parse_sub_block(bytes),
             Application(b) => b.parse_sub_block(bytes),
             Unknown(b) => b.parse_sub_block(bytes),
-            ImageData(b) => b.parse_sub_block(bytes, &mut self.decompressor)?,
+            ImageData(b) => b.parse_sub_block(
+                bytes,
+                self.image_sz,
+                &mut self.decompressor,
+            )?,
             _ => panic!("Invalid state in parse_sub_block!"),
         }
         Ok(())
@@ -326,10 +330,11 @@ impl ImageData {
     fn parse_sub_block(
         &mut self,
         bytes: &[u8],
+        image_sz: usize,
         decompressor: &mut Option<Decompressor>,
     ) -> Result<()> {
         if let Some(dec) = decompressor {
-            dec.decompress(bytes, self.data_mut())?;
+            dec.decompress(bytes, image_sz, self.data_mut())?;
             return Ok(());
         }
         panic!("Invalid state in decode_image_data!");
diff --git a/gift/src/lzw.rs b/gift/src/lzw.rs
index a43bd8c..ca33e4a 100644
--- a/gift/src/lzw.rs
+++ b/gift/src/lzw.rs
@@ -337,14 +337,16 @@ impl Decompressor {
         }
     }
 
-    /// Decompress a byte buffer
+    /// Decompress a byte buffer, until `image_sz` bytes are available
     pub fn decompress(
         &mut self,
         bytes: &[u8],
+        image_sz: usize,
         buffer: &mut Vec<u8>,
     ) -> Result<()> {
         let mut bytes = bytes;
         while !self.ended
+            && buffer.len() < image_sz
             && let (Some(code), n_consumed) = self.unpack(bytes)
         {
             self.decompress_code(code, buffer)?;
-- 
2.43.0


From ee3ddec59208d12dffa6eeda3f93e4c13c5d740d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:30 +0000
Subject: [PATCH 07/17] fix: end step iteration after a preamble error

A file without a usable preamble made the step iterator return errors
forever, and converting the decoder into a looping iterator never
returned.
---
 gift/src/decode.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 820918c..c7742df 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -573,6 +573,8 @@ struct StepsOnce<R: Read> {
     loop_count_ext: Option<Application>,
     /// Current raster of animation
     raster: Option<Raster<SRgba8>>,
+    /// Flag when preamble has been read
+    has_preamble: bool,
 }
 
 /// A step iterator which repeats the animation.
@@ -635,10 +637,11 @@ impl<R: Read> Iterator for StepsOnce<R> {
     type Item = Result<Step>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.raster.is_none()
-            && let Err(e) = self.make_raster()
-        {
-            return Some(Err(e));
+        if !self.has_preamble {
+            self.has_preamble = true;
+            if let Err(e) = self.make_raster() {
+                return Some(Err(e));
+            }
         }
         match self.raster {
             Some(_) => self.next_step(),
@@ -655,6 +658,7 @@ impl<R: Read> StepsOnce<R> {
             global_color_table: None,
             loop_count_ext: None,
             raster: None,
+            has_preamble: false,
         }
     }
 
-- 
2.43.0


From c97939997c07272402e50c420e26791006577461 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:51 +0000
Subject: [PATCH 08/17] fix: limit the logical screen to max_image_sz

The step iterator allocated a raster of whatever screen size the file
declared, and overflowed with screens larger than i32::MAX pixels.
---
 gift/src/decode.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index c7742df..f4874cc 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -668,8 +668,15 @@ impl<R: Read> StepsOnce<R> {
             Some(mut p) => {
                 self.global_color_table = p.global_color_table.take();
                 self.loop_count_ext = p.loop_count_ext.take();
-                let w = p.screen_width().into();
-                let h = p.screen_height().into();
+                let w = u32::from(p.screen_width());
+                let h = u32::from(p.screen_height());
+                // raster sizes are limited to i32::MAX
+                let max_sz = (self.frames.blocks.max_image_sz)
+                    .unwrap_or(usize::MAX)
+                    .min(i32::MAX as usize);
+                if w as usize * h as usize > max_sz {
+                    return Err(Error::TooLargeImage);
+                }
                 self.raster = Some(Raster::with_clear(w, h));
                 Ok(())
             }
-- 
2.43.0


From dbc07377d65243b74768b302c7e0799fee2c2b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:51 +0000
Subject: [PATCH 09/17] fix: report an error for frames with no pixels

A frame with zero width or height made the step iterator panic.
---
 gift/src/decode.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index f4874cc..0ff99df 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -699,6 +699,9 @@ impl<R: Read> StepsOnce<R> {
 
     /// Apply a frame to the raster
     fn apply_frame(&mut self, frame: Frame) -> Result<Step> {
+        if frame.image_desc.image_sz() == 0 {
+            return Err(Error::InvalidFrameDimensions);
+        }
         let transparent_color = frame
             .graphic_control_ext
             .unwrap_or_default()
-- 
2.43.0


From 1426a3379d61024fce686dfb877a54f92aaa3a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:07:51 +0000
Subject: [PATCH 10/17] fix: keep pixels underneath transparent pixels

Transparent pixels of a frame cleared the raster instead of leaving it
unchanged.
---
 gift/src/decode.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 0ff99df..d21414e 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -763,11 +763,10 @@ fn update_frame(
             if i + 2 > clrs.len() {
                 return Err(Error::InvalidColorIndex);
             }
-            let entry = match trans_clr {
-                Some(trans_idx) if trans_idx == idx => SRgba8::default(),
-                _ => SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255),
-            };
-            *p = entry;
+            // transparent pixels leave the raster unchanged
+            if trans_clr != Some(idx) {
+                *p = SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255);
+            }
         }
     }
     Ok(())
-- 
2.43.0


From a8221ef32e3a8ed595259c4963f37dfc8783745e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:10 +0000
Subject: [PATCH 11/17] fix: check frame dimensions before copying the raster

A screen with zero width made the step iterator panic when a frame was
to be disposed to the previous raster.
---
 gift/src/decode.rs | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index d21414e..142a720 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -699,7 +699,9 @@ impl<R: Read> StepsOnce<R> {
 
     /// Apply a frame to the raster
     fn apply_frame(&mut self, frame: Frame) -> Result<Step> {
-        if frame.image_desc.image_sz() == 0 {
+        let reg = frame.region();
+        let raster = self.raster.as_ref().unwrap();
+        if frame.image_desc.image_sz() == 0 || raster.intersection(reg) != reg {
             return Err(Error::InvalidFrameDimensions);
         }
         let transparent_color = frame
@@ -731,19 +733,14 @@ fn update_raster(
     frame: &Frame,
     global_tbl: &Option<GlobalColorTable>,
 ) -> Result<()> {
-    let reg = frame.region();
-    if raster.intersection(reg) == reg {
-        let clrs = if let Some(tbl) = &frame.local_color_table {
-            tbl.colors()
-        } else if let Some(tbl) = global_tbl {
-            tbl.colors()
-        } else {
-            return Err(Error::MissingColorTable);
-        };
-        update_frame(raster, reg, frame, clrs)
+    let clrs = if let Some(tbl) = &frame.local_color_table {
+        tbl.colors()
+    } else if let Some(tbl) = global_tbl {
+        tbl.colors()
     } else {
-        Err(Error::InvalidFrameDimensions)
-    }
+        return Err(Error::MissingColorTable);
+    };
+    update_frame(raster, frame.region(), frame, clrs)
 }
 
 /// Update a region of a raster with a new frame
-- 
2.43.0


From 2b3af8785bf8bc078a5d6d0879bcab6a8b006090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:10 +0000
Subject: [PATCH 12/17] fix: include the delay time in decoded steps

---
 gift/src/decode.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 142a720..44df92d 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -722,8 +722,10 @@ impl<R: Read> StepsOnce<R> {
             let rs = self.raster.as_mut().unwrap();
             rs.copy_color(frame.region(), SRgba8::default());
         }
+        let delay = frame.graphic_control_ext.map(|c| c.delay_time_cs());
         Ok(Step::with_true_color(raster)
-            .with_transparent_color(transparent_color))
+            .with_transparent_color(transparent_color)
+            .with_delay_time_cs(delay))
     }
 }
 
-- 
2.43.0


From c5ca0fef467000fe16b459f0ce2111719ceec373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:11 +0000
Subject: [PATCH 13/17] fix: use little-endian byte order for loop counts

Like every other 16-bit value in a GIF file, the count in a NETSCAPE2.0
extension is stored with the least significant byte first.
---
 gift/src/block.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gift/src/block.rs b/gift/src/block.rs
index a81db1c..1a101c8 100644
--- a/gift/src/block.rs
+++ b/gift/src/block.rs
@@ -654,7 +654,7 @@ impl Application {
     /// Use zero to loop forever.
     pub fn with_loop_count(loop_count: u16) -> Self {
         let param0 = b"NETSCAPE2.0".to_vec();
-        let param1 = vec![1, (loop_count >> 8) as u8, loop_count as u8];
+        let param1 = vec![1, loop_count as u8, (loop_count >> 8) as u8];
         let app_data = vec![param0, param1];
         Application { app_data }
     }
@@ -687,7 +687,7 @@ impl Application {
                      d[1].len() == 3 &&         // app data sub-block length
                      d[1][0] == 1; // sub-block ID
         if exists {
-            Some((u16::from(d[1][1]) << 8) | u16::from(d[1][2]))
+            Some((u16::from(d[1][2]) << 8) | u16::from(d[1][1]))
         } else {
             None
         }
-- 
2.43.0


From 5aa18a1b1be3dec56f0255232b4715f816646754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:44 +0000
Subject: [PATCH 14/17] fix: put rows of interlaced frames in display order

The step iterator drew the rows of interlaced frames in the order they
are stored.
---
 gift/src/decode.rs | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 44df92d..0839928 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -754,8 +754,15 @@ fn update_frame(
 ) -> Result<()> {
     let trans_clr = frame.transparent_color();
     let width = usize::from(frame.width());
+    let height = usize::from(frame.height());
     let data = frame.image_data.data();
-    for (row, frow) in raster.rows_mut(reg).zip(data.chunks_exact(width)) {
+    for (y, row) in raster.rows_mut(reg).enumerate() {
+        let y = if frame.image_desc.interlaced() {
+            interlaced_row(y, height)
+        } else {
+            y
+        };
+        let frow = &data[y * width..(y + 1) * width];
         for (p, fp) in row.iter_mut().zip(frow) {
             let idx = *fp;
             let i = 3 * idx as usize;
@@ -771,6 +778,16 @@ fn update_frame(
     Ok(())
 }
 
+/// Get the position of a display row within interlaced image data
+fn interlaced_row(y: usize, height: usize) -> usize {
+    match y % 8 {
+        0 => y / 8,
+        4 => height.div_ceil(8) + y / 8,
+        2 | 6 => height.div_ceil(4) + y / 4,
+        _ => height.div_ceil(2) + y / 2,
+    }
+}
+
 impl Iterator for StepsLooping {
     type Item = Result<Step>;
 
-- 
2.43.0


From 09d76ac699cd22056c935f88ab474497ac1661d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:55 +0000
Subject: [PATCH 15/17] fix: write the global color table set for a step
 encoder

The table given to with_global_color_table was never used.  Steps with
another palette get a local color table.
---
 gift/src/encode.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 5ac087a..25b8ace 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -370,11 +370,15 @@ impl<W: Write> StepEnc<W> {
         let image_desc = make_image_desc(raster)?;
         let image_data = raster.into();
         let (tbl_cfg, pal) = make_color_table(palette);
+        let (global_cfg, global_color_table) = match &self.global_color_table {
+            (cfg, Some(tbl)) => (*cfg, tbl.clone()),
+            _ => (tbl_cfg, GlobalColorTable::with_colors(&pal[..])),
+        };
         let logical_screen_desc = LogicalScreenDesc::default()
             .with_screen_width(image_desc.width())
             .with_screen_height(image_desc.height())
-            .with_color_table_config(tbl_cfg);
-        let global_color_table = Some(GlobalColorTable::with_colors(&pal[..]));
+            .with_color_table_config(global_cfg);
+        let global_color_table = Some(global_color_table);
         let loop_count_ext = self.loop_count.clone();
         let preamble = Preamble {
             logical_screen_desc,
@@ -390,21 +394,22 @@ impl<W: Write> StepEnc<W> {
                 {
                     return Err(Error::InvalidRasterDimensions);
                 }
-                if pre.global_color_table != preamble.global_color_table {
-                    let frame = Frame::new(
-                        control,
-                        image_desc.with_color_table_config(tbl_cfg),
-                        Some(LocalColorTable::with_colors(&pal[..])),
-                        image_data,
-                    );
-                    return self.frame_enc.encode_frame(&frame);
-                }
             }
             None => {
                 self.frame_enc.encode_preamble(&preamble)?;
                 self.preamble = Some(preamble);
             }
         }
+        let global = self.preamble.as_ref().map(|p| &p.global_color_table);
+        if global != Some(&Some(GlobalColorTable::with_colors(&pal[..]))) {
+            let frame = Frame::new(
+                control,
+                image_desc.with_color_table_config(tbl_cfg),
+                Some(LocalColorTable::with_colors(&pal[..])),
+                image_data,
+            );
+            return self.frame_enc.encode_frame(&frame);
+        }
         let frame = Frame::new(control, image_desc, None, image_data);
         self.frame_enc.encode_frame(&frame)
     }
-- 
2.43.0


From 5568820cfa643d33d86aab3a42aa5fd466011e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:08:56 +0000
Subject: [PATCH 16/17] fix: limit color tables to 256 entries

Palettes with more colors wrote a longer table than declared in the
flags, which made the rest of the file unreadable.
---
 gift/src/encode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/encode.rs b/gift/src/encode.rs
index 25b8ace..586c9cc 100644
--- a/gift/src/encode.rs
+++ b/gift/src/encode.rs
@@ -446,10 +446,10 @@ fn make_color_table(palette: &Palette) -> (ColorTableConfig, Vec<u8>) {
     let tbl_cfg = ColorTableConfig::new(
         ColorTableExistence::Present,
         ColorTableOrdering::NotSorted,
-        palette.len() as u16,
+        palette.len().min(256) as u16,
     );
-    let mut pal = Vec::with_capacity(palette.len() * 3);
-    for clr in palette.colors() {
+    let mut pal = Vec::with_capacity(tbl_cfg.size_bytes());
+    for clr in palette.colors().iter().take(256) {
         pal.push(u8::from(Rgb::red(*clr)));
         pal.push(u8::from(Rgb::green(*clr)));
         pal.push(u8::from(Rgb::blue(*clr)));
-- 
2.43.0


From aa35e465aeae3c5d00bfaff0eca47075e973cbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:07:22 +0000
Subject: [PATCH 17/17] fix: leave the canvas unchanged when a frame is
 rejected

A frame with an invalid color index was partly drawn before the error was
returned, so later steps showed pixels of the rejected frame.
---
 gift/src/decode.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gift/src/decode.rs b/gift/src/decode.rs
index 0839928..916cf60 100644
--- a/gift/src/decode.rs
+++ b/gift/src/decode.rs
@@ -756,6 +756,9 @@ fn update_frame(
     let width = usize::from(frame.width());
     let height = usize::from(frame.height());
     let data = frame.image_data.data();
+    if data.iter().any(|i| 3 * usize::from(*i) >= clrs.len()) {
+        return Err(Error::InvalidColorIndex);
+    }
     for (y, row) in raster.rows_mut(reg).enumerate() {
         let y = if frame.image_desc.interlaced() {
             interlaced_row(y, height)
@@ -766,9 +769,6 @@ fn update_frame(
         for (p, fp) in row.iter_mut().zip(frow) {
             let idx = *fp;
             let i = 3 * idx as usize;
-            if i + 2 > clrs.len() {
-                return Err(Error::InvalidColorIndex);
-            }
             // transparent pixels leave the raster unchanged
             if trans_clr != Some(idx) {
                 *p = SRgba8::new(clrs[i], clrs[i + 1], clrs[i + 2], 255);
-- 
2.43.0

