From c1060fbfa250cd285e3395b06b533d2c20691723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:21 +0000
Subject: [PATCH 1/6] fix: decode_10le takes the low bits of the third pixel
 from the fourth byte

---
 src/decoders/packed.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/packed.rs b/src/decoders/packed.rs
index 0b270d6..fc7a18e 100644
--- a/src/decoders/packed.rs
+++ b/src/decoders/packed.rs
@@ -52,7 +52,7 @@ pub fn decode_10le(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
 
       o[0] = g1 << 2  | g2 >> 6;
       o[1] = (g2 & 0x3f) << 4 | g3 >> 4;
-      o[2] = (g3 & 0x0f) << 6 | g3 >> 2;
+      o[2] = (g3 & 0x0f) << 6 | g4 >> 2;
       o[3] = (g4 & 0x03) << 8 | g5;
     }
   }))
-- 
2.43.0


From d4e30e1ec6401a13501be190ba6aab0e3ec52765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:21 +0000
Subject: [PATCH 2/6] fix: scale the row and crop offset by the samples per
 pixel in gofloat

---
 src/imageops/gofloat.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/imageops/gofloat.rs b/src/imageops/gofloat.rs
index dc1d483..dc7916f 100644
--- a/src/imageops/gofloat.rs
+++ b/src/imageops/gofloat.rs
@@ -24,7 +24,7 @@ pub fn convert(img: &RawImage) -> OpBuffer {
     // We're in an RGB image, turn it into four channel
     let mut out = OpBuffer::new(width, height, 4);
     out.mutate_lines(&(|line: &mut [f32], row| {
-      for (o, i) in line.chunks_mut(4).zip(img.data[img.width*(row+y)+x..].chunks(3)) {
+      for (o, i) in line.chunks_mut(4).zip(img.data[(img.width*(row+y)+x)*3..].chunks(3)) {
         o[0] = i[0] as f32;
         o[1] = i[1] as f32;
         o[2] = i[2] as f32;
@@ -35,7 +35,7 @@ pub fn convert(img: &RawImage) -> OpBuffer {
   } else {
     let mut out = OpBuffer::new(width, height, img.cpp);
     out.mutate_lines(&(|line: &mut [f32], row| {
-      for (o, i) in line.chunks_mut(1).zip(img.data[img.width*(row+y)+x..].chunks(1)) {
+      for (o, i) in line.chunks_mut(1).zip(img.data[(img.width*(row+y)+x)*img.cpp..].chunks(1)) {
         o[0] = i[0] as f32;
       }
     }));
-- 
2.43.0


From cc955972bfec1e999a687ec8eb68ca3eec662912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:21 +0000
Subject: [PATCH 3/6] fix: step rows by the height ratio and columns by the
 width ratio when scaling

---
 src/imageops/demosaic.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/imageops/demosaic.rs b/src/imageops/demosaic.rs
index b8de1ce..24bd0dd 100644
--- a/src/imageops/demosaic.rs
+++ b/src/imageops/demosaic.rs
@@ -97,8 +97,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
   let mut out = OpBuffer::new(nwidth, nheight, 4);
   let crop_cfa = img.cropped_cfa();
 
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
@@ -133,8 +133,8 @@ pub fn scaled(img: &RawImage, buf: &OpBuffer, nwidth: usize, nheight: usize) ->
 
 pub fn scale_down(buf: &OpBuffer, nwidth: usize, nheight: usize) -> OpBuffer {
   let mut out = OpBuffer::new(nwidth, nheight, buf.colors);
-  let rowskip = (buf.width as f32) / (nwidth as f32);
-  let colskip = (buf.height as f32) / (nheight as f32);
+  let rowskip = (buf.height as f32) / (nheight as f32);
+  let colskip = (buf.width as f32) / (nwidth as f32);
 
   // Go around the image averaging blocks of pixels
   out.mutate_lines(&(|line: &mut [f32], row| {
-- 
2.43.0


From 313ab64b8bdcf3eb385edbf60951af32c64bf52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:21 +0000
Subject: [PATCH 4/6] fix: do not wrap the block length when walking MRW
 headers

---
 src/decoders/mrw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/mrw.rs b/src/decoders/mrw.rs
index 049a74f..d38b8c7 100644
--- a/src/decoders/mrw.rs
+++ b/src/decoders/mrw.rs
@@ -52,7 +52,7 @@ impl<'a> MrwDecoder<'a> {
         }
         _ => {}
       }
-      currpos += (len+8) as usize;
+      currpos += len as usize + 8;
     }
 
     MrwDecoder { 
-- 
2.43.0


From 30150ba69d72c3c16fa325f1dd731544eb438716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:52 +0000
Subject: [PATCH 5/6] fix: reject CR2 files whose tagged size does not match
 the decoded data

---
 src/decoders/cr2.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/decoders/cr2.rs b/src/decoders/cr2.rs
index f8f2688..6c372ca 100644
--- a/src/decoders/cr2.rs
+++ b/src/decoders/cr2.rs
@@ -142,6 +142,10 @@ impl<'a> Decoder for Cr2Decoder<'a> {
       }
     };
 
+    if width % cpp != 0 || image.len() != width*height {
+      return Err("CR2: image dimensions don't match the decoded data".to_string())
+    }
+
     let wb = self.get_wb(&camera)?;
     let mut img = RawImage::new(camera, width, height, wb, image);
     if cpp == 3 {
-- 
2.43.0


From e8b00eb96ab4329225a7ac78a58c0ec1aaba8c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:55 +0000
Subject: [PATCH 6/6] fix: don't wrap the entry length when walking the Fuji
 RAF directory

---
 src/decoders/tiff.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decoders/tiff.rs b/src/decoders/tiff.rs
index 8984cac..91f3900 100644
--- a/src/decoders/tiff.rs
+++ b/src/decoders/tiff.rs
@@ -319,7 +319,7 @@ impl<'a> TiffIFD<'a> {
           endian: BIG_ENDIAN,
         });
       }
-      off += (len+4) as usize;
+      off += len as usize + 4;
     }
 
     Ok(TiffIFD {
-- 
2.43.0

