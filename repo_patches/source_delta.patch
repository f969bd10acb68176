From ebfa69ae67fd7b8c09d2c578d0ed470a25d0a54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:24 +0000
Subject: [PATCH 01/27] fix: unpack the third sample of each 10 bit group from
 the right byte

decode_10le took the low bits of the third of every four samples from the
third byte instead of the fourth, so every fourth pixel of a 10 bit DNG was wrong.
---
 src/decoders/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index 0b270d6..fc7a18e 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -52,7 +52,7 @@ pub fn decode_10le(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 
       o[0] = g1 << 2  | g2 >> 6;
       o[1] = (g2 & 0x3f) << 4 | g3 >> 4;
-      o[2] = (g3 & 0x0f) << 6 | g3 >> 2;
+      o[2] = (g3 & 0x0f) << 6 | g4 >> 2;
       o[3] = (g4 & 0x03) << 8 | g5;
     }
   }))
-- 
2.43.0


From 64ebdaae7cf4297cbbf94ba0e432c9b5e6ae92fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:28 +0000
Subject: [PATCH 02/27] fix: use the vertical step for rows and the horizontal
 one for columns when scaling

The two were swapped. They only differ when the aspect ratio gets rounded, and
then the right edge of the output ended up black or the bottom of the image
was dropped.
---
 src/imageops/demosaic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index b8de1ce..24bd0dd 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -97,8 +97,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
   let mut out = OpBuffer::new(nwidth, nheight, 4);
   let crop_cfa = img.cropped_cfa();
 
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
@@ -133,8 +133,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
 
 pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
   let mut out = OpBuffer::new(nwidth, nheight, buf.colors);
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
-- 
2.43.0


From 849cec723296a21f7f418adf8b85e6dbb052306f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:30 +0000
Subject: [PATCH 03/27] fix: never scale an image down to zero width or height

Very elongated images scaled to small sizes rounded one dimension to 0, which
panicked or returned an empty image.
---
 src/imageops/demosaic.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index 24bd0dd..37f6105 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -10,9 +10,9 @@ pub fn demosaic_and_scale(img: &RawImage, buf: &OpBuffer, maxwidth: usize, maxhe
     let xscale = (buf.width as f32) / (maxwidth as f32);
     let yscale = (buf.height as f32) / (maxheight as f32);
     if yscale > xscale {
-      (yscale, ((buf.width as f32)/yscale) as usize, maxheight)
+      (yscale, cmp::max(1, ((buf.width as f32)/yscale) as usize), maxheight)
     } else {
-      (xscale, maxwidth, ((buf.height as f32)/xscale) as usize)
+      (xscale, maxwidth, cmp::max(1, ((buf.height as f32)/xscale) as usize))
     }
   };
 
-- 
2.43.0


From 322592e0e9b2e0328268884deccd6f29b20363f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:33 +0000
Subject: [PATCH 04/27] fix: weigh the last row and column of a scaling block
 by how much it covers

The factors for the trailing edge were never applied because the ranges are
exclusive, so samples only partly inside the block counted in full.
---
 src/imageops/demosaic.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index 37f6105..a44db6a 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -88,7 +88,7 @@ fn calc_skips(idx: usize, idxmax: usize, skip: f32) -> (usize, usize, f32, f32)
 
   let to = ((idx+1) as f32)*skip;
   let toforward = (idxmax as f32).min(to.ceil());
-  let tofactor = (toforward-to).fract();
+  let tofactor = 1.0 - (toforward-to).fract();
 
   (fromback as usize, toforward as usize, fromfactor, tofactor)
 }
@@ -110,8 +110,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
         let (fromcol, tocol, leftfactor, rightfactor) = calc_skips(col, buf.width, colskip);
         for x in fromcol..tocol {
           let factor = {
-            (if y == fromrow {topfactor} else if y == torow {bottomfactor} else {1.0}) *
-            (if x == fromcol {leftfactor} else if x == tocol {rightfactor} else {1.0})
+            (if y == fromrow {topfactor} else if y == torow-1 {bottomfactor} else {1.0}) *
+            (if x == fromcol {leftfactor} else if x == tocol-1 {rightfactor} else {1.0})
           };
 
           let c = crop_cfa.color_at(y, x);
@@ -146,8 +146,8 @@ pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
         let (fromcol, tocol, leftfactor, rightfactor) = calc_skips(col, buf.width, colskip);
         for x in fromcol..tocol {
           let factor = {
-            (if y == fromrow {topfactor} else if y == torow {bottomfactor} else {1.0}) *
-            (if x == fromcol {leftfactor} else if x == tocol {rightfactor} else {1.0})
+            (if y == fromrow {topfactor} else if y == torow-1 {bottomfactor} else {1.0}) *
+            (if x == fromcol {leftfactor} else if x == tocol-1 {rightfactor} else {1.0})
           };
 
           for c in 0..buf.colors {
-- 
2.43.0


From 6d892273dbecdad77aad2b4e35383003237fccdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:54 +0000
Subject: [PATCH 05/27] fix: read three component images from the start of each
 line

The line offset was counted in samples instead of pixels so RGB images were
rendered from the first third of the data, sheared.
---
 src/imageops/gofloat.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/imageops/gofloat.rs b/src/imageops/gofloat.rs
index dc1d483..9e39976 100644
--- a/src/imageops/gofloat.rs
+++ b/src/imageops/gofloat.rs
@@ -24,7 +24,7 @@ pub fn convert(img: &RawImage) -> OpBuffer {
     // We're in an RGB image, turn it into four channel
     let mut out = OpBuffer::new(width, height, 4);
     out.mutate_lines(&(|line: &mut [f32], row| {
-      for (o, i) in line.chunks_mut(4).zip(img.data[img.width*(row+y)+x..].chunks(3)) {
+      for (o, i) in line.chunks_mut(4).zip(img.data[(img.width*(row+y)+x)*3..].chunks(3)) {
         o[0] = i[0] as f32;
         o[1] = i[1] as f32;
         o[2] = i[2] as f32;
-- 
2.43.0


From f5599765f0e98265eb7efe2d76adf9f6dacd4029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:56 +0000
Subject: [PATCH 06/27] fix: don't consume more bits than were peeked for 16
 bit ljpeg differences

With the DNG bug compatibility on, the table entry for a 16 bit difference
covers 16 extra bits that the 13 bit lookup has not made sure are in the pump.
Leave it to the slow path, as is done for all codes that don't fit the table.
---
 src/decoders/ljpeg/huffman.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 9d128cb..442a2f5 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -234,12 +234,8 @@ impl HuffTable {
         }
       }
 
-      if rv == 16 {
-        self.bigtable[i] = if self.dng_bug {
-          (-(32768 << 8)) | (16 + l as i32)
-        } else {
-          (-(32768 << 8)) | l as i32
-        };
+      if rv == 16 && !self.dng_bug {
+        self.bigtable[i] = (-(32768 << 8)) | l as i32;
         continue
       }
 
-- 
2.43.0


From 5ff290a7ae7dc90336c54a216a748efce60b5b4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:05:58 +0000
Subject: [PATCH 07/27] fix: don't loop forever on a MRW block with a wrapping
 length

In builds without overflow checks a block length of 0xfffffff8 made the
parser stay in place forever.
---
 src/decoders/mrw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/mrw.rs b/src/decoders/mrw.rs
index 049a74f..d38b8c7 100644
--- a/src/decoders/mrw.rs
+++ b/src/decoders/mrw.rs
@@ -52,7 +52,7 @@ impl<'a> MrwDecoder<'a> {
         }
         _ => {}
       }
-      currpos += (len+8) as usize;
+      currpos += len as usize + 8;
     }
 
     MrwDecoder { 
-- 
2.43.0


From 644a4f3ee4124137961aca6b9e9ce0bfc513ebeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:22 +0000
Subject: [PATCH 08/27] fix: limit the total number of IFDs followed in a TIFF
 file

The depth limit alone allows a tiny file whose IFDs all point to each other
to take exponential time and memory.
---
 src/decoders/tiff.rs | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 8984cac..45adae5 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -1,5 +1,6 @@
 use std::collections::HashMap;
 use decoders::basics::*;
+use std::cell::Cell;
 use std::str;
 use num::FromPrimitive;
 
@@ -97,6 +98,9 @@ pub enum Tag {
                           // 0-1-2-3-4-5-6-7-8-9-10-11-12-13
 const DATASHIFTS: [u8;14] = [0,0,0,1,2,3,0,0,1,2, 3, 2, 3, 2];
 
+// The most IFDs we'll follow in a single file, real ones have a few dozen at most
+const MAX_IFDS: usize = 1000;
+
 fn t (tag: Tag) -> u16 {
   tag as u16
 }
@@ -170,8 +174,9 @@ impl<'a> TiffIFD<'a> {
       x => {return Err(format!("TIFF: don't know marker 0x{:x}", x).to_string())},
     };
     let mut nextifd = endian.ru32(buf, offset+4) as usize;
+    let budget = Cell::new(MAX_IFDS);
     for _ in 0..100 { // Never read more than 100 IFDs
-      let ifd = try!(TiffIFD::new(&buf[offset..], nextifd, 0, offset, 0, endian));
+      let ifd = try!(TiffIFD::new_budgeted(&buf[offset..], nextifd, 0, offset, 0, endian, &budget));
       nextifd = ifd.nextifd;
       subifds.push(ifd);
       if nextifd == 0 {
@@ -189,6 +194,13 @@ impl<'a> TiffIFD<'a> {
   }
 
   pub fn new(buf: &'a[u8], offset: usize, base_offset: usize, start_offset: usize, depth: u32, e: Endian) -> Result<TiffIFD<'a>, String> {
+    TiffIFD::new_budgeted(buf, offset, base_offset, start_offset, depth, e, &Cell::new(MAX_IFDS))
+  }
+
+  // The budget limits the total number of IFDs, as the depth alone still allows a small
+  // file to point to the same IFDs over and over and take forever
+  fn new_budgeted(buf: &'a[u8], offset: usize, base_offset: usize, start_offset: usize, depth: u32, e: Endian, budget: &Cell<usize>) -> Result<TiffIFD<'a>, String> {
+    budget.set(budget.get().saturating_sub(1));
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
@@ -211,7 +223,8 @@ impl<'a> TiffIFD<'a> {
       || entry.tag == t(Tag::KdcIFD) {
         if depth < 10 { // Avoid infinite looping IFDs
           for i in 0..entry.count {
-            let ifd = TiffIFD::new(buf, entry.get_u32(i as usize) as usize, base_offset, start_offset, depth+1, e);
+            if budget.get() == 0 { break }
+            let ifd = TiffIFD::new_budgeted(buf, entry.get_u32(i as usize) as usize, base_offset, start_offset, depth+1, e, budget);
             match ifd {
               Ok(val) => {subifds.push(val);},
               Err(_) => {entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
@@ -219,8 +232,8 @@ impl<'a> TiffIFD<'a> {
           }
         }
       } else if entry.tag == t(Tag::Makernote) {
-        if depth < 10 { // Avoid infinite looping IFDs
-          let ifd = TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth+1, e);
+        if depth < 10 && budget.get() > 0 { // Avoid infinite looping IFDs
+          let ifd = TiffIFD::new_makernote(buf, entry.doffset(), base_offset, depth+1, e, budget);
           match ifd {
             Ok(val) => {subifds.push(val);},
             Err(_) => {entries.insert(entry.tag, entry);}, // Ignore unparsable IFDs
@@ -240,7 +253,7 @@ impl<'a> TiffIFD<'a> {
     })
   }
 
-  pub fn new_makernote(buf: &'a[u8], offset: usize, base_offset: usize, depth: u32, e: Endian) -> Result<TiffIFD<'a>, String> {
+  fn new_makernote(buf: &'a[u8], offset: usize, base_offset: usize, depth: u32, e: Endian, budget: &Cell<usize>) -> Result<TiffIFD<'a>, String> {
     let mut off = 0;
     let data = &buf[offset..];
     let mut endian = e;
@@ -267,13 +280,13 @@ impl<'a> TiffIFD<'a> {
     if data[0..6] == b"PENTAX"[..] {
       off += 8;
       let endian = if data[off..off+2] == b"II"[..] {LITTLE_ENDIAN} else {BIG_ENDIAN};
-      return TiffIFD::new(&buf[offset..], 10, base_offset, 0, depth, endian)
+      return TiffIFD::new_budgeted(&buf[offset..], 10, base_offset, 0, depth, endian, budget)
     }
 
     if data[0..7] == b"Nikon\0\x02"[..] {
       off += 10;
       let endian = if data[off..off+2] == b"II"[..] {LITTLE_ENDIAN} else {BIG_ENDIAN};
-      return TiffIFD::new(&buf[off+offset..], 8, base_offset, 0, depth, endian)
+      return TiffIFD::new_budgeted(&buf[off+offset..], 8, base_offset, 0, depth, endian, budget)
     }
 
     // Some have MM or II to indicate endianness - read that
@@ -285,7 +298,7 @@ impl<'a> TiffIFD<'a> {
       endian = BIG_ENDIAN;
     }
 
-    TiffIFD::new(buf, offset+off, base_offset, 0, depth, endian)
+    TiffIFD::new_budgeted(buf, offset+off, base_offset, 0, depth, endian, budget)
   }
 
   pub fn new_fuji(buf: &'a[u8], offset: usize) -> Result<TiffIFD<'a>, String> {
-- 
2.43.0


From 211f3aa12e819cd3ed94b012ca0ade66bc2cd94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:24 +0000
Subject: [PATCH 09/27] fix: limit the total number of IFDs followed in a CIFF
 file

As in TIFF the depth limit alone allows exponential time and memory.
---
 src/decoders/ciff.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/decoders/ciff.rs b/src/decoders/ciff.rs
index 7ffdde1..452ff0a 100644
--- a/src/decoders/ciff.rs
+++ b/src/decoders/ciff.rs
@@ -1,6 +1,7 @@
 use std::collections::HashMap;
 use decoders::basics::*;
 use decoders::Buffer;
+use std::cell::Cell;
 use std::str;
 
 enum_from_primitive! {
@@ -21,6 +22,9 @@ pub enum CiffTag {
 }
 }
 
+// The most IFDs we'll follow in a single file, real ones have about a dozen
+const MAX_IFDS: usize = 500;
+
 fn ct (tag: CiffTag) -> u16 {
   tag as u16
 }
@@ -48,10 +52,10 @@ pub fn is_ciff(buf: &[u8]) -> bool {
 impl<'a> CiffIFD<'a> {
   pub fn new_file(buf: &'a Buffer) -> Result<CiffIFD<'a>,String> {
     let data = &buf.buf;
-    CiffIFD::new(data, LEu32(data,2) as usize, buf.size, 1)
+    CiffIFD::new(data, LEu32(data,2) as usize, buf.size, 1, &Cell::new(MAX_IFDS))
   }
 
-  pub fn new(buf: &'a[u8], start: usize, end: usize, depth: u32) -> Result<CiffIFD<'a>, String> {
+  fn new(buf: &'a[u8], start: usize, end: usize, depth: u32, budget: &Cell<usize>) -> Result<CiffIFD<'a>, String> {
     let mut entries = HashMap::new();
     let mut subifds = Vec::new();
 
@@ -62,8 +66,9 @@ impl<'a> CiffIFD<'a> {
       let entry_offset: usize = start+valuedata_size+2+i*10;
       let e = try!(CiffEntry::new(buf, start, entry_offset));
       if e.typ == 0x2800 || e.typ == 0x3000 { // SubIFDs
-        if depth < 10 { // Avoid infinite looping IFDs
-          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset+e.bytesize, depth+1);
+        if depth < 10 && budget.get() > 0 { // Avoid infinite looping IFDs
+          budget.set(budget.get() - 1);
+          let ifd = CiffIFD::new(buf, e.data_offset, e.data_offset+e.bytesize, depth+1, budget);
           match ifd {
             Ok(val) => {subifds.push(val);},
             Err(_) => {entries.insert(e.tag, e);}, // Ignore unparsable IFDs
-- 
2.43.0


From 811536635be9eee62d347b63bc1e6d9d2ce22637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:07:26 +0000
Subject: [PATCH 10/27] fix: report errors writing the last part of the output
 file

The buffered writer was flushed on drop, which ignores errors, so a full disk
could leave a truncated PPM with a success exit code.
---
 src/bin/rawloader.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/bin/rawloader.rs b/src/bin/rawloader.rs
index a2feb62..6a0018f 100644
--- a/src/bin/rawloader.rs
+++ b/src/bin/rawloader.rs
@@ -81,4 +81,7 @@ fn main() {
       error(err.description());
     }
   }
+  if let Err(err) = f.flush() {
+    error(err.description());
+  }
 }
-- 
2.43.0


From 28c024339d4135d69e43511dbf451d27bd95e814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 11/27] fix: refuse unbelievable image sizes instead of
 aborting on allocation

The dimensions in the file were used directly to allocate the output, and a
failed allocation aborts the whole process instead of returning an error.
---
 src/decoders/arw.rs    |  2 +-
 src/decoders/basics.rs | 13 +++++++++++--
 src/decoders/cr2.rs    |  4 ++--
 src/decoders/crw.rs    |  2 +-
 src/decoders/dcr.rs    |  2 +-
 src/decoders/dng.rs    |  2 +-
 src/decoders/mos.rs    |  2 +-
 src/decoders/nef.rs    |  2 +-
 src/decoders/orf.rs    |  2 +-
 src/decoders/packed.rs |  4 ++--
 src/decoders/pef.rs    |  2 +-
 src/decoders/raf.rs    |  4 ++--
 src/decoders/srw.rs    |  6 +++---
 src/decoders/tfr.rs    |  3 ++-
 14 files changed, 30 insertions(+), 20 deletions(-)

diff --git a/src/decoders/arw.rs b/src/decoders/arw.rs
index aeccb3b..849488a 100644
--- a/src/decoders/arw.rs
+++ b/src/decoders/arw.rs
@@ -141,7 +141,7 @@ impl<'a> ArwDecoder<'a> {
 
   fn decode_arw1(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
     let mut pump = BitPumpMSB::new(buf);
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
 
     let mut sum: i32 = 0;
     for x in 0..width {
diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index cd1ef7d..6792259 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -80,10 +80,19 @@ pub static LITTLE_ENDIAN: Endian = Endian{big: false};
   LittleEndian::read_u16(&buf[pos..pos+2])
 }
 
+// Sizes come straight from the file, so refuse the ones no camera could have produced
+// before trying to allocate (and then decode) them
+pub fn alloc_image(width: usize, height: usize) -> Vec<u16> {
+  if width > 200000 || height > 200000 || width*height > 500000000 {
+    panic!("Image size {}x{} is not believable", width, height);
+  }
+  vec![0; width*height]
+}
+
 pub fn decode_threaded<F>(width: usize, height: usize, closure: &F) -> Vec<u16>
   where F : Fn(&mut [u16], usize)+Sync {
 
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image(width, height);
   out.par_chunks_mut(width).enumerate().for_each(|(row, line)| {
     closure(line, row);
   });
@@ -93,7 +102,7 @@ pub fn decode_threaded<F>(width: usize, height: usize, closure: &F) -> Vec<u16>
 pub fn decode_threaded_multiline<F>(width: usize, height: usize, lines: usize, closure: &F) -> Vec<u16>
   where F : Fn(&mut [u16], usize)+Sync {
 
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image(width, height);
   out.par_chunks_mut(width*lines).enumerate().for_each(|(row, line)| {
     closure(line, row*lines);
   });
diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index f8f2688..462c683 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -44,7 +44,7 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       let mut width = ljpegwidth;
       let mut height = decompressor.height();
       let cpp = if decompressor.super_h() == 2 {3} else {1};
-      let mut ljpegout = vec![0 as u16; width*height];
+      let mut ljpegout = alloc_image(width, height);
       try!(decompressor.decode(&mut ljpegout, 0, width, width, height));
 
       // Linearize the output (applies only to D2000 as far as I can tell)
@@ -87,7 +87,7 @@ impl<'a> Decoder for Cr2Decoder<'a> {
         if canoncol.get_usize(0) == 0 {
           (width, height, cpp, ljpegout)
         } else {
-          let mut out = vec![0 as u16; width*height];
+          let mut out = alloc_image(width, height);
           let mut fieldwidths = Vec::new();
           for _ in 0..canoncol.get_usize(0) {
             fieldwidths.push(canoncol.get_usize(1));
diff --git a/src/decoders/crw.rs b/src/decoders/crw.rs
index 88777d6..d05e1a9 100644
--- a/src/decoders/crw.rs
+++ b/src/decoders/crw.rs
@@ -189,7 +189,7 @@ impl<'a> CrwDecoder<'a> {
   }
 
   fn decode_compressed(&self, cam: &Camera, width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
 
     let dectable = fetch_tag!(self.ciff, CiffTag::DecoderTable).get_usize(0);
     if dectable > 2 {
diff --git a/src/decoders/dcr.rs b/src/decoders/dcr.rs
index e18b32a..0fc1a30 100644
--- a/src/decoders/dcr.rs
+++ b/src/decoders/dcr.rs
@@ -61,7 +61,7 @@ impl<'a> DcrDecoder<'a> {
   }
 
   fn decode_kodak65000(buf: &[u8], curve: &LookupTable, width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
     let mut input = ByteStream::new(buf, LITTLE_ENDIAN);
 
     let mut random: u32 = 0;
diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 98aab16..246fb0e 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -182,7 +182,7 @@ impl<'a> DngDecoder<'a> {
       }
       let offset = offsets.get_usize(0);
       let src = &self.buffer[offset..];
-      let mut out = vec![0 as u16; width*height];
+      let mut out = alloc_image(width, height);
       let decompressor = try!(LjpegDecompressor::new(src));
       try!(decompressor.decode(&mut out, 0, width, width, height));
       Ok(out)
diff --git a/src/decoders/mos.rs b/src/decoders/mos.rs
index 27ba117..7c957d1 100644
--- a/src/decoders/mos.rs
+++ b/src/decoders/mos.rs
@@ -89,7 +89,7 @@ impl<'a> MosDecoder<'a> {
     let decompressor = try!(LjpegDecompressor::new_full(src, true, true));
     let ljpegout = try!(decompressor.decode_leaf(width, height));
     if cam.find_hint("interlaced") {
-      let mut out = vec![0 as u16; width*height];
+      let mut out = alloc_image(width, height);
       for (row,line) in ljpegout.chunks(width).enumerate() {
         let orow = if row & 1 == 1 {height-1-row/2} else {row/2};
         out[orow*width .. (orow+1)*width].copy_from_slice(line);
diff --git a/src/decoders/nef.rs b/src/decoders/nef.rs
index 894402c..b632b71 100644
--- a/src/decoders/nef.rs
+++ b/src/decoders/nef.rs
@@ -285,7 +285,7 @@ impl<'a> NefDecoder<'a> {
     }
     let curve = LookupTable::new(&points[0..max]);
 
-    let mut out = vec![0 as u16; width * height];
+    let mut out = alloc_image(width, height);
     let mut pump = BitPumpMSB::new(src);
     let mut random = pump.peek_bits(24);
 
diff --git a/src/decoders/orf.rs b/src/decoders/orf.rs
index 2ab2802..86e6245 100644
--- a/src/decoders/orf.rs
+++ b/src/decoders/orf.rs
@@ -67,7 +67,7 @@ impl<'a> OrfDecoder<'a> {
    */
 
   pub fn decode_compressed(buf: &'a [u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
 
     /* Build a table to quickly look up "high" value */
     let mut bittable: [u8; 4096] = [0; 4096];
diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index fc7a18e..25671dc 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -74,7 +74,7 @@ pub fn decode_12be(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 }
 
 pub fn decode_12be_msb16(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image(width, height);
 
   for (o, i) in out.chunks_mut(4).zip(buf.chunks(6)) {
     let g1:  u16 = i[ 0] as u16;
@@ -109,7 +109,7 @@ pub fn decode_12le_16bitaligned(buf: &[u8], width: usize, height: usize) -> Vec<
 }
 
 pub fn decode_12be_msb32(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-  let mut out: Vec<u16> = vec![0; width*height];
+  let mut out: Vec<u16> = alloc_image(width, height);
 
   for (o, i) in out.chunks_mut(8).zip(buf.chunks(12)) {
     let g1:  u16 = i[ 0] as u16;
diff --git a/src/decoders/pef.rs b/src/decoders/pef.rs
index 2150809..6bd74c5 100644
--- a/src/decoders/pef.rs
+++ b/src/decoders/pef.rs
@@ -121,7 +121,7 @@ impl<'a> PefDecoder<'a> {
     let mut pred_left1: i32;
     let mut pred_left2: i32;
 
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
     for row in 0..height {
       pred_up1[row & 1] += try!(htable.huff_decode(&mut pump));
       pred_up2[row & 1] += try!(htable.huff_decode(&mut pump));
diff --git a/src/decoders/raf.rs b/src/decoders/raf.rs
index ae8dae2..b29ed5b 100644
--- a/src/decoders/raf.rs
+++ b/src/decoders/raf.rs
@@ -109,7 +109,7 @@ impl<'a> RafDecoder<'a> {
       let rotatedwidth = cropheight + cropwidth/2;
       let rotatedheight = rotatedwidth-1;
 
-      let mut out: Vec<u16> = vec![0; rotatedwidth * rotatedheight];
+      let mut out: Vec<u16> = alloc_image(rotatedwidth, rotatedheight);
       for row in 0..cropheight {
         let inb = &src[(row+y)*width+x..];
         for col in 0..cropwidth {
@@ -124,7 +124,7 @@ impl<'a> RafDecoder<'a> {
       let rotatedwidth = cropwidth + cropheight/2;
       let rotatedheight = rotatedwidth-1;
 
-      let mut out: Vec<u16> = vec![0; rotatedwidth * rotatedheight];
+      let mut out: Vec<u16> = alloc_image(rotatedwidth, rotatedheight);
       for row in 0..cropheight {
         let inb = &src[(row+y)*width+x..];
         for col in 0..cropwidth {
diff --git a/src/decoders/srw.rs b/src/decoders/srw.rs
index 5d6c494..ebd24a6 100644
--- a/src/decoders/srw.rs
+++ b/src/decoders/srw.rs
@@ -74,7 +74,7 @@ impl<'a> Decoder for SrwDecoder<'a> {
 
 impl<'a> SrwDecoder<'a> {
   pub fn decode_srw1(buf: &[u8], loffsets: &[u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
 
     for row in 0..height {
       let mut len: [u32; 4] = [if row < 2 {7} else {4}; 4];
@@ -141,7 +141,7 @@ impl<'a> SrwDecoder<'a> {
   }
 
   pub fn decode_srw2(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
 
     // This format has a variable length encoding of how many bits are needed
     // to encode the difference between pixels, we use a table to process it
@@ -213,7 +213,7 @@ impl<'a> SrwDecoder<'a> {
     // and Loring von Palleske (Samsung) for pointing to the open-source code of
     // Samsung's DNG converter at http://opensource.samsung.com/
 
-    let mut out: Vec<u16> = vec![0; width*height];
+    let mut out: Vec<u16> = alloc_image(width, height);
     let mut pump = BitPumpMSB32::new(buf);
 
     // Process the initial metadata bits, we only really use initVal, width and
diff --git a/src/decoders/tfr.rs b/src/decoders/tfr.rs
index 339be38..013bc09 100644
--- a/src/decoders/tfr.rs
+++ b/src/decoders/tfr.rs
@@ -1,5 +1,6 @@
 use decoders::*;
 use decoders::tiff::*;
+use decoders::basics::*;
 use decoders::ljpeg::*;
 use std::f32::NAN;
 
@@ -41,7 +42,7 @@ impl<'a> TfrDecoder<'a> {
   }
 
   fn decode_compressed(&self, src: &[u8], width: usize, height: usize) -> Result<Vec<u16>,String> {
-    let mut out = vec![0 as u16; width*height];
+    let mut out = alloc_image(width, height);
     let decompressor = try!(LjpegDecompressor::new_full(src, true, false));
     try!(decompressor.decode(&mut out, 0, width, width, height));
     Ok(out)
-- 
2.43.0


From c70d8380efa5d094a7d87c69dceb898765f3583c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:05 +0000
Subject: [PATCH 12/27] fix: don't return CR2 images with inconsistent sizes

When the size in the TIFF doesn't match the ljpeg data the returned image
didn't have width*height*cpp elements.
---
 src/decoders/cr2.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index 462c683..153fa2b 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -142,6 +142,11 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       }
     };
 
+    // The sizes in the TIFF and in the ljpeg can be inconsistent
+    if width % cpp != 0 || image.len() != width*height {
+      return Err(format!("CR2: got {} samples for a {}x{} image", image.len(), width, height).to_string())
+    }
+
     let wb = self.get_wb(&camera)?;
     let mut img = RawImage::new(camera, width, height, wb, image);
     if cpp == 3 {
-- 
2.43.0


From 6602c11aae88651f0194acdd65d87a6bd4f4db80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:07 +0000
Subject: [PATCH 13/27] fix: return an error when the crops leave no image to
 convert

The sizes underflowed and the conversion panicked even though it returns a
Result.
---
 src/decoders/image.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index 4e3b311..dfa793f 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -226,6 +226,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_rgb(&self, maxwidth: usize, maxheight: usize) -> Result<RGBImage,String> {
+    self.check_crops()?;
     let buffer = imageops::simple_decode(self, maxwidth, maxheight);
 
     Ok(RGBImage{
@@ -243,6 +244,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_srgb(&self, maxwidth: usize, maxheight: usize) -> Result<SRGBImage,String> {
+    self.check_crops()?;
     let buffer = imageops::simple_decode(self, maxwidth, maxheight);
     let mut image = vec![0 as u8; buffer.width*buffer.height*3];
     for (o, i) in image.chunks_mut(1).zip(buffer.data.iter()) {
@@ -264,6 +266,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_linear_rgb(&self, maxwidth: usize, maxheight: usize) -> Result<RGBImage,String> {
+    self.check_crops()?;
     let buffer = imageops::simple_decode_linear(self, maxwidth, maxheight);
 
     Ok(RGBImage{
@@ -273,6 +276,15 @@ impl RawImage {
     })
   }
 
+  // Broken files can have crops that leave nothing to convert
+  fn check_crops(&self) -> Result<(),String> {
+    if self.crops[1].saturating_add(self.crops[3]) >= self.width ||
+       self.crops[0].saturating_add(self.crops[2]) >= self.height {
+      return Err(format!("Crops {:?} don't leave anything of a {}x{} image", self.crops, self.width, self.height))
+    }
+    Ok(())
+  }
+
   /// Returns the CFA pattern after the crop has been applied (and thus the pattern
   /// potentially shifted)
   pub fn cropped_cfa(&self) -> CFA {
-- 
2.43.0


From 322476493367613d6daf387c56ca56a98f52d551 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:43 +0000
Subject: [PATCH 14/27] fix: average the masked areas without losing precision

The sums of large areas don't fit the 24 bits of a f32 so the black levels ended up
off by several values.
---
 src/decoders/image.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index dfa793f..89de9cc 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -64,19 +64,19 @@ pub struct SRGBImage {
 impl RawImage {
   #[doc(hidden)] pub fn new(camera: Camera, width: usize, height: usize, wb_coeffs: [f32;4], image: Vec<u16>) -> RawImage {
     let blacks = if camera.blackareah.1 != 0 || camera.blackareav.1 != 0 {
-      let mut avg = [0 as f32; 4];
-      let mut count = [0 as f32; 4];
+      let mut avg = [0 as f64; 4];
+      let mut count = [0 as f64; 4];
       for row in camera.blackareah.0 .. camera.blackareah.0+camera.blackareah.1 {
         for col in 0..width {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
+          avg[color] += image[row*width+col] as f64;
           count[color] += 1.0;
         }
       }
       for row in 0..height {
         for col in camera.blackareav.0 .. camera.blackareav.0+camera.blackareav.1 {
           let color = camera.cfa.color_at(row,col);
-          avg[color] += image[row*width+col] as f32;
+          avg[color] += image[row*width+col] as f64;
           count[color] += 1.0;
         }
       }
-- 
2.43.0


From 8d5ad1eb312d280e20a702320d73e591a9017d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:43 +0000
Subject: [PATCH 15/27] fix: don't use the lookup table for 16 bit ljpeg
 differences with long codes

Codes longer than the index of the table aren't fully known from it, so this decoded
the wrong values and consumed more bits than were available.
---
 src/decoders/ljpeg/huffman.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 442a2f5..5e17555 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -234,7 +234,7 @@ impl HuffTable {
         }
       }
 
-      if rv == 16 && !self.dng_bug {
+      if rv == 16 && !self.dng_bug && l <= BIG_TABLE_BITS {
         self.bigtable[i] = (-(32768 << 8)) | l as i32;
         continue
       }
-- 
2.43.0


From 4714772f9911b75f7ed5fb8e2392d7bd4ad38ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:27:43 +0000
Subject: [PATCH 16/27] fix: read uncompressed 16 bit DNGs in the byte order of
 the file

---
 src/decoders/dng.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/decoders/dng.rs b/src/decoders/dng.rs
index 246fb0e..7d33cac 100644
--- a/src/decoders/dng.rs
+++ b/src/decoders/dng.rs
@@ -156,7 +156,13 @@ impl<'a> DngDecoder<'a> {
     let src = &self.buffer[offset..];
 
     match fetch_tag!(raw, Tag::BitsPerSample).get_u32(0) {
-      16  => Ok(decode_16le(src, width, height)),
+      16  => {
+        if self.tiff.little_endian() {
+          Ok(decode_16le(src, width, height))
+        } else {
+          Ok(decode_16be(src, width, height))
+        }
+      },
       12  => Ok(decode_12be(src, width, height)),
       10  => Ok(decode_10le(src, width, height)),
       8   => {
-- 
2.43.0


From bc1d838e58d07ad77c58109b595d5b1615514c71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:04 +0000
Subject: [PATCH 17/27] fix: decode two component ljpeg data into images with
 an odd width

The padding value at the end of each line was written over the start of the next one,
or past the end of the image, and the lines lost sync with the differences.
---
 src/decoders/ljpeg/decompressors.rs | 31 +++++++++++++++--------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/decoders/ljpeg/decompressors.rs b/src/decoders/ljpeg/decompressors.rs
index 430e71f..64b9c15 100644
--- a/src/decoders/ljpeg/decompressors.rs
+++ b/src/decoders/ljpeg/decompressors.rs
@@ -14,25 +14,26 @@ pub fn decode_ljpeg_2components(ljpeg: &LjpegDecompressor, out: &mut [u16], x: u
   let mut pump = BitPumpJPEG::new(ljpeg.buffer);
 
   let base_prediction = 1 << (ljpeg.sof.precision - ljpeg.point_transform -1);
-  out[x]   = (base_prediction + try!(htable1.huff_decode(&mut pump))) as u16;
-  out[x+1] = (base_prediction + try!(htable2.huff_decode(&mut pump))) as u16;
-  let skip_x = ljpeg.sof.width - width/2;
+  // At start of line predictor starts with start of previous line
+  let (mut start1, mut start2) = (base_prediction, base_prediction);
+  let skip_x = ljpeg.sof.width - (width+1)/2;
 
   for row in 0..height {
-    let startcol = if row == 0 {x+2} else {x};
-    for col in (startcol..(width+x)).step(2) {
-      let (p1,p2) = if col == x {
-        // At start of line predictor starts with start of previous line
-        (out[(row-1)*stripwidth+x],out[(row-1)*stripwidth+1+x])
-      } else {
-        // All other cases use the two previous pixels in the same line
-        (out[row*stripwidth+col-2], out[row*stripwidth+col-1])
-      };
-
+    let (mut p1, mut p2) = (start1, start2);
+    for col in (x..(width+x)).step(2) {
       let diff1 = try!(htable1.huff_decode(&mut pump));
       let diff2 = try!(htable2.huff_decode(&mut pump));
-      out[row*stripwidth+col] = ((p1 as i32) + diff1) as u16;
-      out[row*stripwidth+col+1] = ((p2 as i32) + diff2) as u16;
+      p1 = ((p1 + diff1) as u16) as i32;
+      p2 = ((p2 + diff2) as u16) as i32;
+      if col == x {
+        start1 = p1;
+        start2 = p2;
+      }
+      out[row*stripwidth+col] = p1 as u16;
+      // With an odd width the second value of the last pair is just padding
+      if col+1 < width+x {
+        out[row*stripwidth+col+1] = p2 as u16;
+      }
     }
     // Skip extra encoded differences if the ljpeg frame is wider than the output
     for _ in 0..skip_x {
-- 
2.43.0


From a9acc2b545291a1b72810a35eaf2af659de36933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:17 +0000
Subject: [PATCH 18/27] fix: accept ljpeg huffman tables that leave codes
 unused

Looking up an unused code indexed past the end of the table.
---
 src/decoders/ljpeg/huffman.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 5e17555..01b40c7 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -223,7 +223,7 @@ impl HuffTable {
         }
 
         //With garbage input we may reach the sentinel value l = 17.
-        if l > self.precision as u32 || self.valptr[l as usize] == 0xff {
+        if l > self.precision as u32 || self.valptr[l as usize] == 0xff || code > self.maxcode[l as usize] {
           self.bigtable[i] = 0xff;
           continue
         } else {
-- 
2.43.0


From 5ca7c167b2105ac13c56fd1bdc0bd7199ecebf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:34 +0000
Subject: [PATCH 19/27] fix: clamp values to the number of bits asked for

Values above the range became -1 because of the arithmetic shift, which only works out as
the maximum for 16 bits. In small NEFs any pixel that needed it made the decoding fail.
---
 src/decoders/basics.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/decoders/basics.rs b/src/decoders/basics.rs
index 6792259..d42e655 100644
--- a/src/decoders/basics.rs
+++ b/src/decoders/basics.rs
@@ -8,9 +8,11 @@ pub use decoders::packed::*;
 pub use decoders::pumps::*;
 
 pub fn clampbits(val: i32, bits: u32) -> i32 {
-  let temp = val >> bits;
-  if temp != 0 {
-    !temp >> (32-bits)
+  let max = (1 << bits) - 1;
+  if val < 0 {
+    0
+  } else if val > max {
+    max
   } else {
     val
   }
-- 
2.43.0


From e564d1da32eadd700c75c1a81bc24171416552ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:34 +0000
Subject: [PATCH 20/27] fix: decode the lossy NEF differences after the split

The huffman trees used after the split have a shift besides the length in their values
but it was used as a length of more than 32 bits.
---
 src/decoders/ljpeg/huffman.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/decoders/ljpeg/huffman.rs b/src/decoders/ljpeg/huffman.rs
index 01b40c7..468d370 100644
--- a/src/decoders/ljpeg/huffman.rs
+++ b/src/decoders/ljpeg/huffman.rs
@@ -310,6 +310,15 @@ impl HuffTable {
         }
         -32768
       },
+      len if len > 16 => {
+        // Nikon lossy trees also encode how many of the lowest bits were discarded
+        let (len, shift) = (len & 0x0f, len >> 4);
+        let mut diff = ((((pump.get_bits(len - shift) << 1) + 1) << shift) >> 1) as i32;
+        if (diff & (1 << (len - 1))) == 0 {
+          diff -= 1 << len;
+        }
+        diff
+      },
       len => {
         // decode the difference and extend sign bit
         let mut diff = pump.get_bits(len) as i32;
-- 
2.43.0


From 4852b4bf81d6915402852719ec94f2511e375759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:34 +0000
Subject: [PATCH 21/27] fix: wrap around the end of the block when reading
 split Panasonic data

One of the values in each block was put together with a byte of the next block.
---
 src/decoders/rw2.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decoders/rw2.rs b/src/decoders/rw2.rs
index eeee447..09e987a 100644
--- a/src/decoders/rw2.rs
+++ b/src/decoders/rw2.rs
@@ -155,7 +155,9 @@ impl<'a> BitPump for BitPumpPanasonic<'a> {
     if self.split {
       byte = (byte + 0x4000 - 0x2008) % 0x4000;
     }
-    let bits = LEu16(self.buffer, byte as usize + self.pos - 0x4000) as u32;
+    // The rotation of split blocks can leave the two bytes at opposite ends of the block
+    let block = &self.buffer[self.pos-0x4000..];
+    let bits = block[byte as usize] as u32 | (block[(byte as usize+1) % 0x4000] as u32) << 8;
     (bits >> ((self.nbits-num) & 7)) & (0x0ffffffffu32 >> (32-num))
   }
 
-- 
2.43.0


From 67373572d96889990d42fe821760b4ba5258d7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:39 +0000
Subject: [PATCH 22/27] fix: don't reserve memory for Sony data that isn't in
 the file

A SRF file claiming a huge image size made sony_decrypt() reserve all that
memory upfront, aborting the process before noticing that the data isn't there.
---
 src/decoders/arw.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/decoders/arw.rs b/src/decoders/arw.rs
index 849488a..835e568 100644
--- a/src/decoders/arw.rs
+++ b/src/decoders/arw.rs
@@ -259,7 +259,8 @@ impl<'a> ArwDecoder<'a> {
       pad[p] = u32::from_be(pad[p]);
     }
 
-    let mut out = Vec::with_capacity(length+4);
+    // The length comes from the file so never reserve more than what could be in there
+    let mut out = Vec::with_capacity(cmp::min(length, buf.len())+4);
     for i in 0..(length/4+1) {
       let p = i + 127;
       pad[p & 127] = pad[(p+1) & 127] ^ pad[(p+1+64) & 127];
-- 
2.43.0


From 7f712c3ea968fb72356a2756168ea49afc37759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:03 +0000
Subject: [PATCH 23/27] fix: return an error when converting images with cpp
 other than 1 or 3

A DNG can claim any number of samples per pixel. With zero the conversion
panicked and with two or four it silently produced garbage.
---
 src/decoders/image.rs    | 14 +++++++++-----
 src/imageops/demosaic.rs |  1 -
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/decoders/image.rs b/src/decoders/image.rs
index 89de9cc..2fb6151 100644
--- a/src/decoders/image.rs
+++ b/src/decoders/image.rs
@@ -226,7 +226,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_rgb(&self, maxwidth: usize, maxheight: usize) -> Result<RGBImage,String> {
-    self.check_crops()?;
+    self.check_convertible()?;
     let buffer = imageops::simple_decode(self, maxwidth, maxheight);
 
     Ok(RGBImage{
@@ -244,7 +244,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_srgb(&self, maxwidth: usize, maxheight: usize) -> Result<SRGBImage,String> {
-    self.check_crops()?;
+    self.check_convertible()?;
     let buffer = imageops::simple_decode(self, maxwidth, maxheight);
     let mut image = vec![0 as u8; buffer.width*buffer.height*3];
     for (o, i) in image.chunks_mut(1).zip(buffer.data.iter()) {
@@ -266,7 +266,7 @@ impl RawImage {
   /// image that is either maxwidth wide or maxheight tall and maintains the image ratio.
   /// Pass in maxwidth and maxheight as 0 if you want the maximum possible image size.
   pub fn to_linear_rgb(&self, maxwidth: usize, maxheight: usize) -> Result<RGBImage,String> {
-    self.check_crops()?;
+    self.check_convertible()?;
     let buffer = imageops::simple_decode_linear(self, maxwidth, maxheight);
 
     Ok(RGBImage{
@@ -276,8 +276,12 @@ impl RawImage {
     })
   }
 
-  // Broken files can have crops that leave nothing to convert
-  fn check_crops(&self) -> Result<(),String> {
+  // Broken files can have crops that leave nothing to convert or numbers of components
+  // that we wouldn't know how to convert
+  fn check_convertible(&self) -> Result<(),String> {
+    if self.cpp != 1 && self.cpp != 3 {
+      return Err(format!("Don't know how to convert an image with {} components", self.cpp))
+    }
     if self.crops[1].saturating_add(self.crops[3]) >= self.width ||
        self.crops[0].saturating_add(self.crops[2]) >= self.height {
       return Err(format!("Crops {:?} don't leave anything of a {}x{} image", self.crops, self.width, self.height))
diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index a44db6a..0272f00 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -27,7 +27,6 @@ pub fn demosaic_and_scale(img: &RawImage, buf: &OpBuffer, maxwidth: usize, maxhe
   if scale < minscale || buf.colors != 1 {
     let out = match buf.colors {
       4 => buf.clone(),
-      // FIXME: return an error when cpp != 1 and cpp != 3
       _ => full(img, buf),
     };
     if scale > 1.0 {
-- 
2.43.0


From a7d579fafb499b5bea41d6474c11d2e71f021f0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:26:22 +0000
Subject: [PATCH 24/27] fix: return an error when a CR2 claims more stripes
 than columns

---
 src/decoders/cr2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index 153fa2b..7092338 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -89,6 +89,9 @@ impl<'a> Decoder for Cr2Decoder<'a> {
         } else {
           let mut out = alloc_image(width, height);
           let mut fieldwidths = Vec::new();
+          if canoncol.get_usize(0) > width {
+            return Err(format!("CR2: {} stripes in an image {} wide", canoncol.get_usize(0), width).to_string())
+          }
           for _ in 0..canoncol.get_usize(0) {
             fieldwidths.push(canoncol.get_usize(1));
           }
-- 
2.43.0


From 54d4e4ca9fe603e17cc49f49ce737ce8a77b6636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:34 +0000
Subject: [PATCH 25/27] fix: read the white balance of an MRW when its block is
 the last one

---
 src/decoders/mrw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/mrw.rs b/src/decoders/mrw.rs
index d38b8c7..48a88d0 100644
--- a/src/decoders/mrw.rs
+++ b/src/decoders/mrw.rs
@@ -30,7 +30,7 @@ impl<'a> MrwDecoder<'a> {
 
     let mut currpos: usize = 8;
     // At most we read 20 bytes from currpos so check we don't step outside that
-    while currpos+20 < data_offset {
+    while currpos+20 <= data_offset {
       let tag: u32 = BEu32(buf,currpos);
       let len: u32 = BEu32(buf,currpos+4);
       
-- 
2.43.0


From 20a19ace12f800301cbe050c7294f531dbfdc7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:34 +0000
Subject: [PATCH 26/27] fix: don't overflow on the largest entries of the Fuji
 directory

---
 src/decoders/tiff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 45adae5..45e8b7c 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -332,7 +332,7 @@ impl<'a> TiffIFD<'a> {
           endian: BIG_ENDIAN,
         });
       }
-      off += (len+4) as usize;
+      off += len as usize + 4;
     }
 
     Ok(TiffIFD {
-- 
2.43.0


From 0163d16d8a9a8f73c1ec3f2d3912099a46fffe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:49 +0000
Subject: [PATCH 27/27] fix: keep the sums exact when shrinking large images to
 very small ones

---
 src/imageops/demosaic.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index 0272f00..98ded75 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -102,8 +102,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
     for col in 0..nwidth {
-      let mut sums: [f32; 4] = [0.0;4];
-      let mut counts: [f32; 4] = [0.0;4];
+      let mut sums: [f64; 4] = [0.0;4];
+      let mut counts: [f64; 4] = [0.0;4];
       let (fromrow, torow, topfactor, bottomfactor) = calc_skips(row, buf.height, rowskip);
       for y in fromrow..torow {
         let (fromcol, tocol, leftfactor, rightfactor) = calc_skips(col, buf.width, colskip);
@@ -114,14 +114,14 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
           };
 
           let c = crop_cfa.color_at(y, x);
-          sums[c] += (buf.data[y*buf.width+x] as f32) * factor;
-          counts[c] += factor;
+          sums[c] += (buf.data[y*buf.width+x] * factor) as f64;
+          counts[c] += factor as f64;
         }
       }
 
       for c in 0..4 {
         if counts[c] > 0.0 {
-          line[col*4+c] = sums[c] / counts[c];
+          line[col*4+c] = (sums[c] / counts[c]) as f32;
         }
       }
     }
@@ -138,8 +138,8 @@ pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
     for col in 0..nwidth {
-      let mut sums: [f32; 4] = [0.0;4];
-      let mut counts: [f32; 4] = [0.0;4];
+      let mut sums: [f64; 4] = [0.0;4];
+      let mut counts: [f64; 4] = [0.0;4];
       let (fromrow, torow, topfactor, bottomfactor) = calc_skips(row, buf.height, rowskip);
       for y in fromrow..torow {
         let (fromcol, tocol, leftfactor, rightfactor) = calc_skips(col, buf.width, colskip);
@@ -150,15 +150,15 @@ pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
           };
 
           for c in 0..buf.colors {
-            sums[c] += buf.data[(y*buf.width+x)*buf.colors + c] * factor;
-            counts[c] += factor;
+            sums[c] += (buf.data[(y*buf.width+x)*buf.colors + c] * factor) as f64;
+            counts[c] += factor as f64;
           }
         }
       }
 
       for c in 0..buf.colors {
         if counts[c] > 0.0 {
-          line[col*buf.colors+c] = sums[c] / counts[c];
+          line[col*buf.colors+c] = (sums[c] / counts[c]) as f32;
         }
       }
     }
-- 
2.43.0

