From 666c058b141ec51d054bd93a386ec3325f550d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 01/15] fix: report palette segments of invalid size as error
 instead of panicking

---
 src/pgs/pds.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index fcb5615..0aa5c0a 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -7,6 +7,10 @@ pub enum Error {
     /// Read `PaletteDefinitionSegment` in a buffer failed.
     #[error("failed to read buffer with `PaletteDefinitionSegment`")]
     BufferParse(#[source] io::Error),
+
+    /// The size of the segment doesn't match a whole number of palette entries.
+    #[error("`PaletteDefinitionSegment` has an invalid size: {size}")]
+    InvalidSize { size: usize },
 }
 
 #[derive(Debug, Clone)]
@@ -60,11 +64,16 @@ pub(crate) fn read<R: Read>(
         .read_exact(&mut pds_buf)
         .map_err(Error::BufferParse)?;
 
+    if segments_size < 2 || (segments_size - 2) % 5 != 0 {
+        return Err(Error::InvalidSize {
+            size: segments_size,
+        });
+    }
+
     let palette_id = pds_buf[0];
     let palette_version_number = pds_buf[1];
 
     let nb_palette_entry: usize = (segments_size - 2) / 5;
-    assert_eq!((nb_palette_entry * 5) + 2, segments_size);
     let range = 0..nb_palette_entry;
     let palette_entries = range
         .map(|idx| {
-- 
2.43.0


From d547ac3a4d85f365bd2bc43380d3fb53d50f1ac6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:44 +0000
Subject: [PATCH 02/15] fix: report inconsistent object segments as error and
 stay aligned on segments

---
 src/pgs/ods.rs | 47 ++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/src/pgs/ods.rs b/src/pgs/ods.rs
index f78a608..ad3b6ef 100644
--- a/src/pgs/ods.rs
+++ b/src/pgs/ods.rs
@@ -1,7 +1,7 @@
 use super::{u24::u24, ReadError, ReadExt as _};
 use std::{
     fmt::{Debug, Display},
-    io::{self, BufRead, Seek},
+    io::{self, BufRead, Cursor, Seek},
 };
 use thiserror::Error;
 
@@ -43,6 +43,13 @@ pub enum Error {
         source: io::Error,
         buff_size: usize,
     },
+
+    /// The size of the segment and the length of the object data contradict each other.
+    #[error("segment of size {segment_size} does not fit the object data length {data_length}")]
+    InconsistentSize {
+        segment_size: usize,
+        data_length: usize,
+    },
 }
 
 #[repr(u8)]
@@ -125,19 +132,31 @@ pub fn read<Reader: BufRead + Seek>(
     segments_size: usize,
     current_ods: Option<ObjectDefinitionSegment>,
 ) -> Result<ObjectDefinitionSegment, Error> {
+    // Read the whole segment first: whatever it contains, `reader` is left at the next segment.
+    let mut segment = vec![0; segments_size];
+    read_object_data(reader, &mut segment)?;
+    let reader = &mut Cursor::new(segment);
+
     handle_object_fields(reader)?;
     let last_in_sequence_flag = LastInSequenceFlag::read(reader)?;
 
     match current_ods {
         None => {
-            assert!(
-                last_in_sequence_flag == LastInSequenceFlag::First
-                    || last_in_sequence_flag == LastInSequenceFlag::FirstAndLast
-            );
+            if last_in_sequence_flag == LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
-            let data_size = read_obj_data_length(reader)?;
+            let data_length = read_obj_data_length(reader)?;
             let (width, height) = read_img_size(reader)?;
-            let data_size = data_size - 4; // don't know why for now !!! Object Data Length include Width + Height ?
+            let is_complete = last_in_sequence_flag == LastInSequenceFlag::FirstAndLast;
+            let read_length = segments_size - 7; // Part of the data length present in this segment.
+            if read_length > data_length || (is_complete && read_length != data_length) {
+                return Err(Error::InconsistentSize {
+                    segment_size: segments_size,
+                    data_length,
+                });
+            }
+            let data_size = data_length - 4; // don't know why for now !!! Object Data Length include Width + Height ?
             let mut object_data = vec![0; data_size]; // Create a `Vec` for contain data of object (image)
 
             let read_data_size = segments_size - 11; // Only read data from this segment, additional data are in the next segment, if there are any.
@@ -151,9 +170,6 @@ pub fn read<Reader: BufRead + Seek>(
             };
 
             if last_in_sequence_flag == LastInSequenceFlag::FirstAndLast {
-                assert!(read_data_size == data_size);
-                assert!(segments_size == 11 + data_size);
-
                 Ok(ObjectDefinitionSegment::Complete(data))
             } else if last_in_sequence_flag == LastInSequenceFlag::First {
                 Ok(ObjectDefinitionSegment::Partial {
@@ -168,10 +184,19 @@ pub fn read<Reader: BufRead + Seek>(
             mut data,
             amount_of_data_read,
         }) => {
-            assert!(last_in_sequence_flag == LastInSequenceFlag::Last); //TODO: not first and not last ?
+            //TODO: not first and not last ?
+            if last_in_sequence_flag != LastInSequenceFlag::Last {
+                return Err(Error::LastInSequenceFlagNotManaged(last_in_sequence_flag));
+            }
 
             let start_idx = amount_of_data_read;
             let end_idx = start_idx + (segments_size - 4);
+            if end_idx != data.object_data.len() {
+                return Err(Error::InconsistentSize {
+                    segment_size: segments_size,
+                    data_length: data.object_data.len() + 4,
+                });
+            }
             let read_slice = &mut data.object_data.as_mut_slice()[start_idx..end_idx];
             read_object_data(reader, read_slice)?;
             Ok(ObjectDefinitionSegment::Complete(data))
-- 
2.43.0


From 727409b36bb09e2d3aae5ad845309aa797d88bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 03/15] fix: don't panic on a palette or partial object left
 unused in a SUP stream

---
 src/pgs/decoder.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index f4da975..6562d88 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -132,8 +132,6 @@ impl PgsDecoder for DecodeTimeImage {
             }
         }
 
-        assert!(palette.is_none()); // palette should be transferred into image before get out of the function.
-        assert!(prev_ods.is_none()); // Ods data should be converted into image before get out of the function.
         Ok(subtitle)
     }
 }
-- 
2.43.0


From 69c21ed312fc704818b54ad997166d96151041c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 04/15] fix: look up SUP palette entries by their number, not
 by their position

---
 src/pgs/pds.rs | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/src/pgs/pds.rs b/src/pgs/pds.rs
index 0aa5c0a..77eb616 100644
--- a/src/pgs/pds.rs
+++ b/src/pgs/pds.rs
@@ -16,27 +16,14 @@ pub enum Error {
 #[derive(Debug, Clone)]
 pub struct Palette {
     entries: Vec<PaletteEntry>,
-    offset: i16,
 }
 impl Palette {
-    fn new(entries: Vec<PaletteEntry>) -> Self {
-        let offset = compute_offset(&entries);
-        Self { entries, offset }
+    const fn new(entries: Vec<PaletteEntry>) -> Self {
+        Self { entries }
     }
 
-    #[expect(clippy::cast_sign_loss)]
     pub fn get(&self, id: u8) -> Option<&PaletteEntry> {
-        let idx = i16::from(id) + self.offset;
-        self.entries.get(idx as usize)
-    }
-}
-
-fn compute_offset(palette: &[PaletteEntry]) -> i16 {
-    //HACK offset is computed only on the first element, should be checked for all entries
-    if palette.is_empty() {
-        0
-    } else {
-        0 - i16::from(palette[0].entry_id)
+        self.entries.iter().find(|entry| entry.entry_id == id)
     }
 }
 
-- 
2.43.0


From 6f5ea599d581a35935cb60a1d2c5a427a290fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 05/15] fix: don't panic on truncated or zero-length runs of a
 SUP image

---
 src/pgs/pgs_image.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index ac4c144..3d19099 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -234,7 +234,7 @@ impl<C> RlePixelIterator<'_, C> {
             let next = color[0];
             if next == MARKER {
                 let mut l2 = [0; 1];
-                self.raw_data.read_exact(&mut l2).unwrap();
+                self.raw_data.read_exact(&mut l2).ok()?;
 
                 if l2[0] == MARKER {
                     //break; // End of line
@@ -243,7 +243,7 @@ impl<C> RlePixelIterator<'_, C> {
                     let nb_pixels = match CountMarker::from(byte) {
                         CountMarker::Long => {
                             let mut l3 = [0; 1];
-                            self.raw_data.read_exact(&mut l3).unwrap();
+                            self.raw_data.read_exact(&mut l3).ok()?;
                             let count_bytes = [byte & 0b0011_1111, l3[0]];
                             u16::from_be_bytes(count_bytes)
                         }
@@ -258,12 +258,14 @@ impl<C> RlePixelIterator<'_, C> {
                         ColorMarker::Color0 => COLOR_0,
                         ColorMarker::ColorN => {
                             let mut color = [0; 1];
-                            self.raw_data.read_exact(&mut color).unwrap();
+                            self.raw_data.read_exact(&mut color).ok()?;
                             color[0]
                         }
                     };
 
-                    return Some((color, nb_pixels));
+                    if nb_pixels > 0 {
+                        return Some((color, nb_pixels));
+                    }
                 }
             } else {
                 return Some((next, 1));
-- 
2.43.0


From 6c725a50c60486bbe8779c9e61277012e7cd1c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 06/15] fix: iterate over exactly the pixels of a SUP image,
 and report their number

---
 src/pgs/pgs_image.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pgs/pgs_image.rs b/src/pgs/pgs_image.rs
index 3d19099..58e37d1 100644
--- a/src/pgs/pgs_image.rs
+++ b/src/pgs/pgs_image.rs
@@ -29,6 +29,10 @@ impl RleEncodedImage {
         }
     }
 
+    const fn nb_pixels(&self) -> usize {
+        self.width as usize * self.height as usize
+    }
+
     /// Iterate on image pixels converted with a specified function.
     pub fn pixels<D: Primitive>(
         &self,
@@ -40,6 +44,7 @@ impl RleEncodedImage {
             current_color: LumaA([D::DEFAULT_MIN_VALUE, D::DEFAULT_MAX_VALUE]),
             default_color: LumaA([D::DEFAULT_MAX_VALUE, D::DEFAULT_MIN_VALUE]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_image_pixels: self.nb_pixels(),
             convert,
         }
     }
@@ -80,6 +85,7 @@ impl<'a> IntoIterator for &'a RleEncodedImage {
                 <u8 as Primitive>::DEFAULT_MIN_VALUE,
             ]), // Default: white + transparent
             nb_remaining_pixels: 0,
+            nb_image_pixels: self.nb_pixels(),
             convert: pe_to_luma_a,
         }
     }
@@ -173,10 +179,12 @@ pub struct RlePixelIterator<'a, C> {
     current_color: C,
     default_color: C,
     nb_remaining_pixels: u16,
+    nb_image_pixels: usize,
     convert: PixelConversion<C>,
 }
 
 /// Allow iterate over pixels of image encoded in `Rle`.
+/// Exactly width * height pixels are provided, the missing ones have the default color.
 impl<Pix, Sub> Iterator for RlePixelIterator<'_, Pix>
 where
     Sub: Primitive,
@@ -185,6 +193,8 @@ where
     type Item = Pix;
 
     fn next(&mut self) -> Option<Self::Item> {
+        self.nb_image_pixels = self.nb_image_pixels.checked_sub(1)?;
+
         if self.nb_remaining_pixels > 0 {
             self.nb_remaining_pixels -= 1;
             Some(self.current_color)
@@ -200,13 +210,12 @@ where
             self.nb_remaining_pixels = nb_pixel - 1;
             Some(self.current_color)
         } else {
-            None // End of pixels
+            Some(self.default_color) // End of data
         }
     }
 
     fn size_hint(&self) -> (usize, Option<usize>) {
-        let nb_pixels = (self.rle_image.width() * self.rle_image.height()) as usize;
-        (nb_pixels, Some(nb_pixels))
+        (self.nb_image_pixels, Some(self.nb_image_pixels))
     }
 }
 
-- 
2.43.0


From 07a78c44d3fb3bf195ebaf0e374cd60c51e0c448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:44 +0000
Subject: [PATCH 07/15] fix: retry interrupted reads while skipping a SUP
 segment

---
 src/pgs/mod.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pgs/mod.rs b/src/pgs/mod.rs
index 7716139..0b34f8d 100644
--- a/src/pgs/mod.rs
+++ b/src/pgs/mod.rs
@@ -17,7 +17,7 @@ pub use sup::SupParser;
 
 use self::segment::SegmentTypeCode;
 use std::{
-    io::{self, BufRead, Seek},
+    io::{self, BufRead, ErrorKind, Seek},
     num::TryFromIntError,
     path::PathBuf,
 };
@@ -137,9 +137,15 @@ where
     /// Will return `FailedSeek` if `seek` failed.
     /// Will return `InvalidSeekValue` if `to_skip` value can't be converted in i64.
     fn skip_data(&mut self, to_skip: usize) -> Result<(), ReadError> {
-        let buff = self.fill_buf().map_err(ReadError::FailedFillBuf)?;
-
-        if buff.len() >= to_skip {
+        let available = loop {
+            match self.fill_buf() {
+                Ok(buff) => break buff.len(),
+                Err(err) if err.kind() == ErrorKind::Interrupted => {} // Retry
+                Err(err) => return Err(ReadError::FailedFillBuf(err)),
+            }
+        };
+
+        if available >= to_skip {
             self.consume(to_skip);
         } else {
             let to_skip = i64::try_from(to_skip).map_err(|source| ReadError::InvalidSeekValue {
-- 
2.43.0


From f96829e35f7f117e678bda110c3cb8c27fe3190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 08/15] fix: report invalid VobSub bitmap data as error instead
 of panicking

---
 src/vobsub/decoder.rs | 18 +++++++++---------
 src/vobsub/img.rs     | 12 +++++++-----
 src/vobsub/sub.rs     |  2 +-
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 6357300..618ca84 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -1,4 +1,4 @@
-use super::{img::VobSubRleImage, VobSubIndexedImage};
+use super::{img::VobSubRleImage, VobSubError, VobSubIndexedImage};
 use crate::time::{TimePoint, TimeSpan};
 
 /// The default length of a subtitle if no end time is provided and no
@@ -17,7 +17,7 @@ pub trait VobSubDecoder<'a> {
         end_time: Option<f64>,
         force: bool,
         image: VobSubRleImage<'a>,
-    ) -> Self::Output;
+    ) -> Result<Self::Output, VobSubError>;
 }
 
 /// Implement creation of a tuple of [`TimeSpan`] and [`VobSubIndexedImage`] from parsing.
@@ -29,14 +29,14 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         end_time: Option<f64>,
         _force: bool,
         rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        (
+    ) -> Result<Self::Output, VobSubError> {
+        Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
                 TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
             ),
-            VobSubIndexedImage::from(rle_image),
-        )
+            VobSubIndexedImage::try_from(rle_image)?,
+        ))
     }
 }
 
@@ -49,10 +49,10 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
         end_time: Option<f64>,
         _force: bool,
         _rle_image: VobSubRleImage<'a>,
-    ) -> Self::Output {
-        Self::new(
+    ) -> Result<Self::Output, VobSubError> {
+        Ok(Self::new(
             TimePoint::from_secs(start_time),
             TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
-        )
+        ))
     }
 }
diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 28615cc..5fbf85f 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -270,15 +270,17 @@ impl ImageArea for VobSubIndexedImage {
     }
 }
 
-impl From<VobSubRleImage<'_>> for VobSubIndexedImage {
-    fn from(rle_image: VobSubRleImage) -> Self {
-        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data()).unwrap();
-        Self::new(
+impl TryFrom<VobSubRleImage<'_>> for VobSubIndexedImage {
+    type Error = Error;
+
+    fn try_from(rle_image: VobSubRleImage) -> Result<Self, Self::Error> {
+        let decompressed_image = decompress(rle_image.size(), rle_image.raw_data())?;
+        Ok(Self::new(
             rle_image.area(),
             *rle_image.palette(),
             *rle_image.alpha(),
             decompressed_image,
-        )
+        ))
     }
 }
 
diff --git a/src/vobsub/sub.rs b/src/vobsub/sub.rs
index bc7f414..762928d 100644
--- a/src/vobsub/sub.rs
+++ b/src/vobsub/sub.rs
@@ -395,7 +395,7 @@ where
     let rle_image = VobSubRleImage::new(area, palette, alpha, image_data);
 
     // Return our parsed subtitle.
-    let result = D::from_data(start_time, end_time, force, rle_image);
+    let result = D::from_data(start_time, end_time, force, rle_image)?;
     trace!("Parsed subtitle: {:?}", &result);
     Ok(result)
 }
-- 
2.43.0


From ad8602a6c0d611fd9ae978ab21b9d9d27a18144c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:50 +0000
Subject: [PATCH 09/15] fix: end a VobSub subtitle without stop date five
 seconds after its start

---
 src/vobsub/decoder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/decoder.rs b/src/vobsub/decoder.rs
index 618ca84..1d7de2b 100644
--- a/src/vobsub/decoder.rs
+++ b/src/vobsub/decoder.rs
@@ -33,7 +33,7 @@ impl<'a> VobSubDecoder<'a> for (TimeSpan, VobSubIndexedImage) {
         Ok((
             TimeSpan::new(
                 TimePoint::from_secs(start_time),
-                TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+                TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
             ),
             VobSubIndexedImage::try_from(rle_image)?,
         ))
@@ -52,7 +52,7 @@ impl<'a> VobSubDecoder<'a> for TimeSpan {
     ) -> Result<Self::Output, VobSubError> {
         Ok(Self::new(
             TimePoint::from_secs(start_time),
-            TimePoint::from_secs(end_time.unwrap_or(DEFAULT_SUBTITLE_LENGTH)),
+            TimePoint::from_secs(end_time.unwrap_or(start_time + DEFAULT_SUBTITLE_LENGTH)),
         ))
     }
 }
-- 
2.43.0


From c337f14dd8359a2a80d157fec9f1e4e135016aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 10/15] fix: accept PES packets with both PTS and DTS

---
 src/vobsub/mpeg2/pes.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vobsub/mpeg2/pes.rs b/src/vobsub/mpeg2/pes.rs
index 488ed18..fcaa81e 100644
--- a/src/vobsub/mpeg2/pes.rs
+++ b/src/vobsub/mpeg2/pes.rs
@@ -70,9 +70,10 @@ fn pts_only(input: &[u8]) -> IResult<&[u8], PtsDts> {
 /// Helper for `pts_dts`.  Parses the `PTS` and `DTS` case.
 fn pts_and_dts(input: &[u8]) -> IResult<&[u8], PtsDts> {
     bits(|input| {
-        let parse_tag = tag_bits(0b0010, 4u8);
+        let pts_tag = tag_bits(0b0011, 4u8);
+        let dts_tag = tag_bits(0b0001, 4u8);
         let (input, (_, pts, _, dts)): ((&[u8], usize), (_, _, _, _)) =
-            (&parse_tag, clock, &parse_tag, clock).parse(input)?;
+            (pts_tag, clock, dts_tag, clock).parse(input)?;
         Ok((
             input,
             PtsDts {
-- 
2.43.0


From bb3356d9670eb6cdfcb7ecc1b1cdb788f82f180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 11/15] fix: compute the width and height of an Area without
 overflow

---
 src/content/area.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/content/area.rs b/src/content/area.rs
index dbfb8d3..ac8574f 100644
--- a/src/content/area.rs
+++ b/src/content/area.rs
@@ -33,13 +33,13 @@ impl Area {
     /// The width of the subtitle.
     #[must_use]
     pub const fn width(&self) -> u16 {
-        self.0.x2 + 1 - self.0.x1
+        self.0.x2 - self.0.x1 + 1
     }
 
     /// The height of the subtitle.
     #[must_use]
     pub const fn height(&self) -> u16 {
-        self.0.y2 + 1 - self.0.y1
+        self.0.y2 - self.0.y1 + 1
     }
 
     /// The size of the subtitle.
@@ -64,6 +64,11 @@ impl TryFrom<AreaValues> for Area {
         // crash if they don't.
         if coords_value.x2 <= coords_value.x1 || coords_value.y2 <= coords_value.y1 {
             Err(ContentError::InvalidAreaBounding)
+        } else if coords_value.x2 - coords_value.x1 == u16::MAX
+            || coords_value.y2 - coords_value.y1 == u16::MAX
+        {
+            // The width or height would not be representable.
+            Err(ContentError::InvalidAreaBounding)
         } else {
             Ok(Self(coords_value))
         }
-- 
2.43.0


From e77b2e84736b6ef066eb43b4a6ee379e760b8de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:51 +0000
Subject: [PATCH 12/15] fix: display the minimal TimePoint without overflow

---
 src/time/time_point.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/time/time_point.rs b/src/time/time_point.rs
index a7b9969..4600751 100644
--- a/src/time/time_point.rs
+++ b/src/time/time_point.rs
@@ -74,15 +74,14 @@ impl TimePoint {
     ///
     /// Will return error of writing if happen.
     pub fn fmt_separator(&self, f: &mut fmt::Formatter<'_>, separator: char) -> fmt::Result {
-        let t = if self.0 < 0 { -*self } else { *self };
         write!(
             f,
             "{}{:02}:{:02}:{:02}{separator}{:03}",
             if self.0 < 0 { "-" } else { "" },
-            t.hours(),
-            t.mins_comp(),
-            t.secs_comp(),
-            t.msecs_comp()
+            self.hours().abs(),
+            self.mins_comp().abs(),
+            self.secs_comp().abs(),
+            self.msecs_comp().abs()
         )
     }
 }
-- 
2.43.0


From b20635bf014985e7f03840de1557bb2aa57e234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:56 +0000
Subject: [PATCH 13/15] fix: don't decode a VobSub run code truncated by the
 end of the data as another code

---
 src/vobsub/img.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/vobsub/img.rs b/src/vobsub/img.rs
index 5fbf85f..be99f73 100644
--- a/src/vobsub/img.rs
+++ b/src/vobsub/img.rs
@@ -7,7 +7,7 @@ use log::trace;
 use nom::{
     bits::complete::{tag as tag_bits, take as take_bits},
     branch::alt,
-    combinator::value,
+    combinator::{cut, value},
     sequence::preceded,
     IResult, Parser as _,
 };
@@ -126,14 +126,17 @@ struct Rle {
 
 /// Parse the count for a `Rle`.
 fn count(input: (&[u8], usize)) -> IResult<(&[u8], usize), u16> {
+    // Once the leading zero bits have selected a form, missing bits are a failure (`cut`):
+    // the shorter forms must not be tried on a code truncated by the end of the data.
+
     // Fill to end of line.
     let end_of_line = value(0, tag_bits(0, 14u16));
     // Count for 4-nibble RLE.
-    let count4 = preceded(tag_bits(0, 6u8), take_bits(8u16));
+    let count4 = preceded(tag_bits(0, 6u8), cut(take_bits(8u16)));
     // Count for 3-nibble RLE.
-    let count3 = preceded(tag_bits(0, 4u8), take_bits(6u16));
+    let count3 = preceded(tag_bits(0, 4u8), cut(take_bits(6u16)));
     // Count for 2-nibble RLE.
-    let count2 = preceded(tag_bits(0, 2u8), take_bits(4u16));
+    let count2 = preceded(tag_bits(0, 2u8), cut(take_bits(4u16)));
     // Count for 1-nibble RLE.
     let count1 = take_bits(2u16);
     alt((end_of_line, count4, count3, count2, count1)).parse(input)
-- 
2.43.0


From 96217275a2dc0bc93c888b1aafae1da2c2c15ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 14/15] fix: report an invalid palette or object in place of
 its subtitle, without shifting the following ones

---
 src/pgs/decoder.rs | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/pgs/decoder.rs b/src/pgs/decoder.rs
index 6562d88..126db73 100644
--- a/src/pgs/decoder.rs
+++ b/src/pgs/decoder.rs
@@ -81,6 +81,8 @@ impl PgsDecoder for DecodeTimeImage {
         let mut palette = None;
         let mut image = None;
         let mut prev_ods = None;
+        // First error of the subtitle : reported at its end, to stay aligned on the next subtitle.
+        let mut error = None;
 
         while let Some(seg_header) = {
             if subtitle.is_some() {
@@ -92,25 +94,31 @@ impl PgsDecoder for DecodeTimeImage {
             match seg_header.type_code() {
                 SegmentTypeCode::Pds => {
                     let seg_size = seg_header.size() as usize;
-                    let pds = pds::read(reader, seg_size)?;
-                    palette = Some(pds.palette);
+                    match pds::read(reader, seg_size) {
+                        Ok(pds) => palette = Some(pds.palette),
+                        Err(err) => error = error.or_else(|| Some(err.into())),
+                    }
                 }
                 SegmentTypeCode::Ods => {
                     let seg_size = seg_header.size() as usize;
-                    let ods = ods::read(reader, seg_size, prev_ods.take())?;
 
                     // If data are complete, construct `image` from palette and image data
                     // otherwise, keep read data to complete it with data from following segment.
-                    if let ObjectDefinitionSegment::Complete(ods) = ods {
-                        let palette = palette.take().ok_or(PgsError::MissingPalette)?;
-                        image = Some(RleEncodedImage::new(
-                            ods.width,
-                            ods.height,
-                            palette,
-                            ods.object_data,
-                        ));
-                    } else {
-                        prev_ods = Some(ods);
+                    match ods::read(reader, seg_size, prev_ods.take()) {
+                        Ok(ObjectDefinitionSegment::Complete(ods)) => {
+                            if let Some(palette) = palette.take() {
+                                image = Some(RleEncodedImage::new(
+                                    ods.width,
+                                    ods.height,
+                                    palette,
+                                    ods.object_data,
+                                ));
+                            } else {
+                                error = error.or(Some(PgsError::MissingPalette));
+                            }
+                        }
+                        Ok(ods) => prev_ods = Some(ods),
+                        Err(err) => error = error.or_else(|| Some(err.into())),
                     }
                 }
                 SegmentTypeCode::End => {
@@ -119,6 +127,9 @@ impl PgsDecoder for DecodeTimeImage {
                     if let Some(start_time) = start_time {
                         let times = TimeSpan::new(start_time, time);
 
+                        if let Some(error) = error {
+                            return Err(error);
+                        }
                         let image = image.take().ok_or(PgsError::MissingImage)?;
                         subtitle = Some((times, image));
                     } else {
@@ -132,6 +143,6 @@ impl PgsDecoder for DecodeTimeImage {
             }
         }
 
-        Ok(subtitle)
+        error.map_or(Ok(subtitle), Err)
     }
 }
-- 
2.43.0


From 7102c8b1368c34a9e5e4a177ed04609280c78559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:39 +0000
Subject: [PATCH 15/15] fix: SupParser keeps reporting the end once reported,
 even if its reader gets more data

---
 src/pgs/sup.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pgs/sup.rs b/src/pgs/sup.rs
index 38e1b4b..a11a8d1 100644
--- a/src/pgs/sup.rs
+++ b/src/pgs/sup.rs
@@ -14,6 +14,8 @@ where
     Decoder: PgsDecoder,
 {
     reader: Reader,
+    /// The end has been reported, it's final ([`FusedIterator`]) even if the reader gets more data.
+    ended: bool,
     phantom_data: PhantomData<Decoder>,
 }
 
@@ -26,6 +28,7 @@ where
     pub const fn new(reader: Reader) -> Self {
         Self {
             reader,
+            ended: false,
             phantom_data: PhantomData,
         }
     }
@@ -55,7 +58,12 @@ where
     type Item = Result<Decoder::Output, PgsError>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        Decoder::parse_next(&mut self.reader).transpose()
+        if self.ended {
+            return None;
+        }
+        let next = Decoder::parse_next(&mut self.reader).transpose();
+        self.ended = next.is_none();
+        next
     }
 
     // Set lower bound to promote the allocation of a minimum number of elements.
-- 
2.43.0

