From 7a3f3e950e1e249c01ebfbfd2280675edbaa37ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 01/41] fix: tag table entries that deviate from EXIF 2.32

TransferFunction has 3*256 components, SubjectLocation has 2, and
SpatialFrequencyResponse is UNDEFINED of any length; with the wrong format
every conforming block carrying it was rejected when reading.
---
 src/exif_tag/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/exif_tag/mod.rs b/src/exif_tag/mod.rs
index d11f305..307e6f4 100644
--- a/src/exif_tag/mod.rs
+++ b/src/exif_tag/mod.rs
@@ -565,7 +565,7 @@ build_tag_enum![
 
 	(ResolutionUnit,              0x0128, INT16U,        Some::<u32>(1),    true,      GENERIC),                        // Not EXIF but TIFF   x       x         x             x 
 
-	(TransferFunction,            0x012d, INT16U,        Some::<u32>(3),    true,      GENERIC),
+	(TransferFunction,            0x012d, INT16U,        Some::<u32>(768),  true,      GENERIC),
 
 	(Software,                    0x0131, STRING,        None::<u32>,       true,      GENERIC),
 	(ModifyDate,                  0x0132, STRING,        Some::<u32>(20),   true,      GENERIC),
@@ -649,11 +649,11 @@ build_tag_enum![
 	(RelatedSoundFile,            0xa004, STRING,        None::<u32>,       true,      EXIF),
 	(InteropOffset,               0xa005, INT32U,        Some::<u32>(1),    true,      EXIF),
 	(FlashEnergy,                 0xa20b, RATIONAL64U,   Some::<u32>(1),    true,      EXIF),
-	(SpatialFrequencyResponse,    0xa20c, INT16U,        Some::<u32>(1),    false,     EXIF),
+	(SpatialFrequencyResponse,    0xa20c, UNDEF,         None::<u32>,       false,     EXIF),
 	(FocalPlaneXResolution,       0xa20e, RATIONAL64U,   Some::<u32>(1),    true,      EXIF),
 	(FocalPlaneYResolution,       0xa20f, RATIONAL64U,   Some::<u32>(1),    true,      EXIF),
 	(FocalPlaneResolutionUnit,    0xa210, INT16U,        Some::<u32>(1),    true,      EXIF),
-	(SubjectLocation,             0xa214, INT16U,        Some::<u32>(1),    true,      EXIF),
+	(SubjectLocation,             0xa214, INT16U,        Some::<u32>(2),    true,      EXIF),
 	(ExposureIndex,               0xa215, RATIONAL64U,   Some::<u32>(1),    true,      EXIF),
 
 	(SensingMethod,               0xa217, INT16U,        Some::<u32>(1),    true,      EXIF),
-- 
2.43.0


From 384911ee040b106bf11bc63064370ae52384531b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:36 +0000
Subject: [PATCH 02/41] fix: write IFD entries in ascending order and each
 SubIFD pointer once

The generated SubIFD pointers were appended behind all other tags, and a
pointer tag set by the user resulted in a second entry.
---
 src/ifd/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 72e6e7b..bfc9d46 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -493,7 +493,13 @@ ImageFileDirectory
 
         // Store all relevant tags (IFD tags + offset tags) in a temporary 
         // location and sort them there
-        let mut all_relevant_tags = self.tags.clone();
+        // Note: Tags that describe offsets to SubIFDs are always generated (see
+        // `ifds_with_offset_info_only`). Any such tag set by the user has no
+        // meaningful value and would result in a duplicate entry.
+        let mut all_relevant_tags = self.tags.iter()
+            .filter(|tag| !matches!(tag.get_tag_type(), TagType::IFD_OFFSET(_)))
+            .cloned()
+            .collect::<Vec<ExifTag>>();
         if let Some(ifd_with_offset_info_only) = ifds_with_offset_info_only
             .iter()
             .find(|ifd| 
@@ -503,6 +509,7 @@ ImageFileDirectory
         {
             all_relevant_tags.extend(ifd_with_offset_info_only.get_tags().iter().cloned());
         }
+        all_relevant_tags.sort_by_key(|tag| tag.as_u16());
 
         // Start writing this IFD by adding the number of entries
         let count_entries = all_relevant_tags.iter().filter(
-- 
2.43.0


From 6d16b592d0105c839e41ae1cd23291090c6ba343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 03/41] fix: pad values that are shorter than their component
 count

An empty value of a tag with predefined component count was announced with
that count but not written, so the entry referred to bytes of other entries.
---
 src/ifd/mod.rs | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index bfc9d46..333c120 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -639,25 +639,24 @@ ImageFileDirectory
             let number_of_components: u32 = tag.number_of_components();
             encode_vec.extend(to_u8_vec_macro!(u32, &number_of_components, &data.get_endian()).iter());
 
-            // Optional string padding (i.e. string is shorter than it should be)
-            let mut string_padding: Vec<u8> = Vec::new();
-            if tag.is_string()
-            {
-                string_padding = vec![
-                    0x00; 
-                    number_of_components as usize - value.len()
-                ];
-            }
-
             // Add offset or value /                                            4 bytes
             // Depending on the amount of data, either put it directly into
             // next 4 bytes or write an offset where the data can be found 
             let byte_count: u32 = number_of_components * tag.format().bytes_per_component();
+
+            // Optional padding in case the value is shorter than it should be
+            // (e.g. an empty value for a tag that has a predefined number of
+            // components)
+            let padding = vec![
+                0x00_u8; 
+                (byte_count as usize).saturating_sub(value.len())
+            ];
+
             if byte_count > 4
             {
                 encode_vec.extend(to_u8_vec_macro!(u32, current_offset, &data.get_endian()).iter());
                 ifd_offset_area.extend(value.iter());
-                ifd_offset_area.extend(string_padding.iter());
+                ifd_offset_area.extend(padding.iter());
 
                 *current_offset += byte_count;
 
@@ -671,7 +670,7 @@ ImageFileDirectory
                 let pre_length = encode_vec.len();
 
                 encode_vec.extend(value.iter());
-                encode_vec.extend(string_padding.iter());
+                encode_vec.extend(padding.iter());
 
                 let post_length = encode_vec.len();
 
-- 
2.43.0


From b511f3dac0ac16746ee0ebc02126dae941f7133f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:22 +0000
Subject: [PATCH 04/41] fix: report errors of encoding an IFD instead of
 dropping the IFD

---
 src/metadata/mod.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 4e5ef43..529de51 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -192,22 +192,21 @@ Metadata
 
             let Some(last_ifd) = filter_result.last() else { continue; };
 
-            if let Ok((next_link_section, link_vec)) = last_ifd.encode_ifd(
+            let (next_link_section, link_vec) = last_ifd.encode_ifd(
                 self, 
                 &mut ifds_with_offset_info_only, 
                 &mut encode_vec, 
                 &mut current_offset
-            )
-            {
-                if let Some(index) = index_of_previous_ifds_link_section
-                {
-                    let mut cursor = Cursor::new(&mut encode_vec);
-                    cursor.set_position(index);
-                    cursor.write_all(&link_vec)?;
-                }
+            )?;
 
-                index_of_previous_ifds_link_section = Some(next_link_section);
+            if let Some(index) = index_of_previous_ifds_link_section
+            {
+                let mut cursor = Cursor::new(&mut encode_vec);
+                cursor.set_position(index);
+                cursor.write_all(&link_vec)?;
             }
+
+            index_of_previous_ifds_link_section = Some(next_link_section);
         }
 
         Ok(encode_vec)
-- 
2.43.0


From 2351027e4a64411957564d01df88966bd8b7aba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:46 +0000
Subject: [PATCH 05/41] fix: keep sign and range when converting numbers to
 rationals

Values beyond i32::MAX wrapped around in iR64 (or panicked for i32::MIN), a
numerator above i32::MAX chosen for a signed fraction flipped its sign, and
u32::MAX became i32::MAX in uR64.
---
 src/rational.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/rational.rs b/src/rational.rs
index 870aeed..04ba57b 100644
--- a/src/rational.rs
+++ b/src/rational.rs
@@ -83,12 +83,20 @@ f64_to_rational64s
 )
 -> iR64
 {
-    let best_approximation = f64_to_rational64u(real_number);
+    // The negative range is larger by one
+    let max_nominator = if real_number < 0.0
+        { i32::MIN.unsigned_abs() }
+    else
+        { i32::MAX as u32 };
+
+    let best_approximation = approximate_f64(real_number, max_nominator);
+    let signed_nominator   = if real_number < 0.0 
+        { -(best_approximation.nominator as i64) } 
+    else 
+        { best_approximation.nominator as i64 };
+
     return iR64 {
-        nominator: if real_number < 0.0 
-            { 0-best_approximation.nominator as i32 } 
-        else 
-            { best_approximation.nominator as i32 },
+        nominator:   signed_nominator               as i32,
         denominator: best_approximation.denominator as i32
     };
 }
@@ -99,6 +107,19 @@ f64_to_rational64u
     real_number:     f64,
 )
 -> uR64
+{
+    approximate_f64(real_number, u32::MAX)
+}
+
+/// Approximates the absolute value of the given number by a fraction with a
+/// nominator up to `max_nominator` and a denominator up to `i32::MAX`
+fn
+approximate_f64
+(
+    real_number:     f64,
+    max_nominator:   u32,
+)
+-> uR64
 {
     // Make sure that we are dealing with positive real numbers
     let real_number = real_number.abs();
@@ -110,9 +131,9 @@ f64_to_rational64u
     }
     
     // Check if real number is too large for us to handle
-    if real_number > u32::MAX as f64 - 0.5
+    if real_number > max_nominator as f64 - 0.5
     {
-        return uR64 { nominator: i32::MAX as u32, denominator: 1};
+        return uR64 { nominator: max_nominator, denominator: 1};
     }
 
     let mut reciprocal_residual     = real_number;
@@ -143,7 +164,7 @@ f64_to_rational64u
         if convergent.nominator > 0
         {
             n = std::cmp::min(
-                (u32::MAX - previous_convergent.nominator) / convergent.nominator, 
+                (max_nominator - previous_convergent.nominator) / convergent.nominator, 
                 n
             );	
         }
-- 
2.43.0


From 56fd72050e11590e4603a0963bec04eb99711f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 06/41] fix: reject instead of truncate or panic on
 out-of-range integer conversions

INT32U values above 65535 of INT16U tags were silently truncated, INT16U
values above 255 of INT8U tags and an empty GPSAltitudeRef string panicked,
and unsigned rationals were approximated although they fit unchanged.
---
 src/exif_tag/decode.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/exif_tag/decode.rs b/src/exif_tag/decode.rs
index bdeb002..9c5fa55 100644
--- a/src/exif_tag/decode.rs
+++ b/src/exif_tag/decode.rs
@@ -52,9 +52,10 @@ decode_tag_with_format_exceptions
 			},
 
 			(ExifTagFormat::INT16U, ExifTagFormat::INT32U) => {
-				// Not sure how to be more cautious in this case...
 				let int32u_data = <INT32U as U8conversion<INT32U>>::from_u8_vec(raw_data, endian);
-				let int16u_data = int32u_data.into_iter().map(|x| x as u16).collect::<Vec<u16>>();
+				let int16u_data = int32u_data.into_iter().map(u16::try_from).collect::<Result<Vec<u16>, _>>().map_err(
+					|_| io_error_plain!(InvalidData, format!("Could not decode tag {:?}: Value exceeds INT16U range", raw_tag))
+				)?;
 				return raw_tag.set_value_to_int16u_vec(int16u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
 				);
@@ -71,12 +72,9 @@ decode_tag_with_format_exceptions
 			// See issue #74
 			(ExifTagFormat::INT8U, ExifTagFormat::INT16U) => {
 				let int16u_data = <INT16U as U8conversion<INT16U>>::from_u8_vec(raw_data, endian);
-				let int8u_data  = int16u_data.clone().into_iter().map(|x| x as u8).collect::<Vec<u8>>();
-				for (element_u16, element_u8) in int16u_data.iter().zip(int8u_data.iter())
-				{
-					// Assert that the int16u data is within int8u range
-					assert_eq!(*element_u16, *element_u8 as u16);
-				}
+				let int8u_data  = int16u_data.into_iter().map(u8::try_from).collect::<Result<Vec<u8>, _>>().map_err(
+					|_| io_error_plain!(InvalidData, format!("Could not decode tag {:?}: Value exceeds INT8U range", raw_tag))
+				)?;
 				return raw_tag.set_value_to_int8u_vec(int8u_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
 				);
@@ -96,11 +94,11 @@ decode_tag_with_format_exceptions
 					// if it is 0x01 or 0x31 ("1") we set it to 1, and
 					// otherwise we panic and tell the user to open a ticket.
 
-					let first_char = raw_data[0];
+					let first_char = raw_data.first();
 					let int8u_data = match first_char
 					{
-						0x00 | 0x30 => vec![0u8],
-						0x01 | 0x31 => vec![1u8],
+						Some(0x00 | 0x30) => vec![0u8],
+						Some(0x01 | 0x31) => vec![1u8],
 						_ => io_error!(InvalidData, "Problem while decoding GPSAltitudeRef. Please open a new issue for little_exif!")?
 					};
 
@@ -124,8 +122,13 @@ decode_tag_with_format_exceptions
 			(ExifTagFormat::RATIONAL64S, ExifTagFormat::RATIONAL64U) => {
 				let uR64_data = <RATIONAL64U as U8conversion<RATIONAL64U>>::from_u8_vec(raw_data, endian);
 				let iR64_data = uR64_data
-					.into_iter().map(|x| x.into()).collect::<Vec<f64>>()
-					.into_iter().map(|x| x.into()).collect::<Vec<iR64>>();
+					.into_iter().map(
+						|x| match (i32::try_from(x.nominator), i32::try_from(x.denominator))
+						{
+							(Ok(nominator), Ok(denominator)) => iR64 { nominator, denominator },
+							_                                => f64::from(x).into()
+						}
+					).collect::<Vec<iR64>>();
 
 				return raw_tag.set_value_to_iR64_vec(iR64_data).map_err(
 					|e| io_error_plain!(Other, format!("Could not decode tag {:?}: {}", raw_tag, e))
-- 
2.43.0


From d0053f27adc887666ab90b7fe0ee340feb1f91d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 07/41] fix: replace a TIFF in its entirety when writing or
 clearing metadata

---
 src/tiff/file.rs | 24 +++++++++++++++---------
 src/tiff/mod.rs  | 15 +++++----------
 src/tiff/vec.rs  | 21 +++++++++------------
 3 files changed, 29 insertions(+), 31 deletions(-)

diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index 0066f7c..5da1782 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -2,7 +2,7 @@
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
 use std::io::BufReader;
-use std::io::BufWriter;
+use std::io::Write;
 use std::path::Path;
 
 use crate::general_file_io::open_read_file;
@@ -10,7 +10,7 @@ use crate::general_file_io::open_write_file;
 use crate::metadata::Metadata;
 
 use super::generic_read_metadata;
-use super::generic_write_metadata;
+use super::generic_encode_metadata;
 
 pub(crate) fn
 read_metadata
@@ -37,10 +37,8 @@ clear_metadata
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-	// Write the reduced data back to the backup cursor
-	generic_write_metadata(&mut BufWriter::new(open_write_file(path)?), &data)?;
-
-	return Ok(());
+	// Write the reduced data back to the file
+	return write_metadata(path, &data);
 }
 
 pub(crate) fn 
@@ -51,6 +49,14 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut buffered_file = BufWriter::new(open_write_file(path)?);
-	return generic_write_metadata(&mut buffered_file, metadata);
-}
\ No newline at end of file
+	// Encode first so that the file stays untouched in case this fails
+	let     encoded_metadata = generic_encode_metadata(metadata)?;
+	let mut file             = open_write_file(path)?;
+
+	file.write_all(&encoded_metadata)?;
+
+	// Cut off what is left of the (longer) previous content
+	file.set_len(encoded_metadata.len() as u64)?;
+
+	return Ok(());
+}
diff --git a/src/tiff/mod.rs b/src/tiff/mod.rs
index 9b51379..57fe02c 100644
--- a/src/tiff/mod.rs
+++ b/src/tiff/mod.rs
@@ -3,7 +3,6 @@
 
 use std::io::Seek;
 use std::io::Read;
-use std::io::Write;
 
 use crate::general_file_io::EXIF_HEADER;
 use crate::io_error;
@@ -13,23 +12,19 @@ use crate::ifd::ExifTagGroup::*;
 pub mod file;
 pub mod vec;
 
+/// Provides the bytes of the entire TIFF. As these replace the previous content
+/// in its entirety there is no need for clearing any metadata beforehand.
 pub(crate) fn
-generic_write_metadata
-<T: Seek + Write>
+generic_encode_metadata
 (
-    cursor:   &mut T,
     metadata: &Metadata
 )
--> Result<(), std::io::Error>
+-> Result<Vec<u8>, std::io::Error>
 {
     // First, check for required tags
     check_for_required_tags(metadata)?;
 
-    // Does *not* call generic_clear_metadata, as the entire tiff data gets
-    // overwritten anyways
-    cursor.write_all(&metadata.encode()?)?;
-
-    return Ok(());
+    return metadata.encode();
 }
 
 fn
diff --git a/src/tiff/vec.rs b/src/tiff/vec.rs
index 09ac912..79e0472 100644
--- a/src/tiff/vec.rs
+++ b/src/tiff/vec.rs
@@ -6,7 +6,7 @@ use std::io::Cursor;
 use crate::metadata::Metadata;
 
 use super::generic_read_metadata;
-use super::generic_write_metadata;
+use super::generic_encode_metadata;
 
 pub(crate) fn
 read_metadata
@@ -26,20 +26,15 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-	// Create cursor
-	let mut cursor           = Cursor::new(file_buffer);
-	let     cursor_start_pos = cursor.position();
-
 	// Read in the data
-	let     raw_data = generic_read_metadata(&mut cursor);
+	let     raw_data = read_metadata(file_buffer);
 	let mut data     = Metadata::general_decoding_wrapper(raw_data)?;
 
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-	// Write the reduced data back to the backup cursor
-	cursor.set_position(cursor_start_pos);
-	return generic_write_metadata(&mut cursor, &data);
+	// Write the reduced data back to the buffer
+	return write_metadata(file_buffer, &data);
 }
 
 pub(crate) fn
@@ -50,6 +45,8 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-	let mut cursor = Cursor::new(file_buffer);
-	return generic_write_metadata(&mut cursor, metadata);
-}
\ No newline at end of file
+	// This replaces the (possibly longer) previous content in its entirety
+	*file_buffer = generic_encode_metadata(metadata)?;
+
+	return Ok(());
+}
-- 
2.43.0


From 9c8539bc539e77c7ec797d23eee79602bf965539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:47 +0000
Subject: [PATCH 08/41] fix: reject cyclic, duplicate and oversized references
 when decoding IFDs

---
 src/ifd/mod.rs      | 125 ++++++++++++++++++++++++++++++++------------
 src/metadata/mod.rs |  13 ++++-
 2 files changed, 105 insertions(+), 33 deletions(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index 333c120..fc6f89d 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -94,6 +94,64 @@ ImageFileDirectory
         self.tags.sort_by_key(|tag| tag.as_u16());
     }
 
+    /// Provides the upper limit for the number of bytes (IFD entries and the
+    /// data they refer to) that may be decoded in total. Only reached in case
+    /// of malformed input where the same area is referenced again and again.
+    pub(crate) fn
+    get_decode_limit
+    (
+        data_length: usize
+    )
+    -> u64
+    {
+        return 1024 * 1024 + 256 * data_length as u64;
+    }
+
+    fn
+    reduce_decode_limit
+    (
+        decode_limit: &mut u64,
+        length:            u64
+    )
+    -> Result<(), std::io::Error>
+    {
+        match decode_limit.checked_sub(length)
+        {
+            Some(remaining) => { *decode_limit = remaining; return Ok(()); },
+            None            => return io_error!(InvalidData, "IFDs refer to far more data than there is available!")
+        }
+    }
+
+    /// Reads data referenced by an IFD entry without moving the cursor
+    fn
+    read_referenced_data
+    (
+        data_cursor:         &    Cursor<&Vec<u8>>,
+        data_begin_position:      u64,
+        offset:                   u32,
+        length:                   u32,
+        decode_limit:        &mut u64
+    )
+    -> Result<Vec<u8>, std::io::Error>
+    {
+        if length == 0
+        {
+            return Ok(Vec::new());
+        }
+
+        let start = data_begin_position + offset as u64;
+        let end   = start               + length as u64;
+
+        if end > data_cursor.get_ref().len() as u64
+        {
+            return io_error!(UnexpectedEof, "Not enough data to read data referenced by an IFD!");
+        }
+
+        Self::reduce_decode_limit(decode_limit, length as u64)?;
+
+        return Ok(data_cursor.get_ref()[start as usize..end as usize].to_vec());
+    }
+
     /// If everything goes Ok and there is enough data to unpack, this returns
     /// the offset to the next generic IFD that needs to be processed.
     pub(crate) fn
@@ -105,6 +163,7 @@ ImageFileDirectory
         group:               &    ExifTagGroup,
         generic_ifd_nr:           u32,                                          // Reuse value for recursive calls; only gets incremented by caller
         insert_into:         &mut Vec<ImageFileDirectory>,                      // Stays the same for all calls to this function while decoding
+        decode_limit:        &mut u64,                                          // Stays the same for all calls to this function while decoding
     )
     -> Result<Option<u32>, std::io::Error>
     {
@@ -139,6 +198,8 @@ ImageFileDirectory
             return io_error!(Other, format!("Not enough data to decode IFD! Required: {} Available: {}", required, available));
         }
 
+        Self::reduce_decode_limit(decode_limit, required as u64)?;
+
         // Temporarily storing specific tags that have been decoded
         // This has to do with data offset tags that are interconnected with
         // other tags.
@@ -197,18 +258,14 @@ ImageFileDirectory
                 // Compute the offset
                 let hex_offset = from_u8_vec_res_macro!(u32, &entry_buffer[8..12], endian)?;
 
-                // Backup current position & go to offset position
-                let backup_position = data_cursor.position();
-                data_cursor.set_position(data_begin_position);
-                data_cursor.seek(std::io::SeekFrom::Current(hex_offset as i64))?;
-
                 // Read the raw data
-                let mut raw_data_buffer = vec![0u8; byte_count as usize];
-                data_cursor.read_exact(&mut raw_data_buffer)?;
-                raw_data = raw_data_buffer.to_vec();
-            
-                // Rewind the cursor to the start of the next entry
-                data_cursor.set_position(backup_position);
+                raw_data = Self::read_referenced_data(
+                    data_cursor,
+                    data_begin_position,
+                    hex_offset,
+                    byte_count,
+                    decode_limit
+                )?;
             }
             else
             {
@@ -258,6 +315,16 @@ ImageFileDirectory
             // If this is an IFD offset tag, perform a recursive call
             if let TagType::IFD_OFFSET(subifd_group) = tag.get_tag_type()
             {
+                // There can't be two SubIFDs of the same type for the same IFD
+                if insert_into.iter().any(|ifd|
+                    ifd.get_ifd_type()       == subifd_group &&
+                    ifd.get_generic_ifd_nr() == generic_ifd_nr
+                )
+                {
+                    log::warn!("Ignoring additional SubIFD {subifd_group:?}!");
+                    continue;
+                }
+
                 // Compute the offset to the SubIFD and save the current position
                 let offset          = from_u8_vec_res_macro!(u32, &raw_data, endian)? as usize;
                 let backup_position = data_cursor.position();
@@ -273,6 +340,7 @@ ImageFileDirectory
                     &subifd_group,
                     generic_ifd_nr,
                     insert_into,
+                    decode_limit,
                 );
 
                 // Check that this actually worked
@@ -372,19 +440,18 @@ ImageFileDirectory
                     strip_tags_1.get_tag_type()
                 )
             {
-                let backup_position = data_cursor.position();
-
                 let mut strip_data = Vec::new();
 
                 // Gather the data from the offsets
                 for (offset, byte_count) in offsets.iter().zip(byte_counts.iter())
                 {
-                    data_cursor.set_position(data_begin_position);
-                    data_cursor.seek(std::io::SeekFrom::Current(*offset as i64))?;
-
-                    let mut data_buffer = vec![0u8; *byte_count as usize];
-                    data_cursor.read_exact(&mut data_buffer)?;
-                    strip_data.push(data_buffer);
+                    strip_data.push(Self::read_referenced_data(
+                        data_cursor,
+                        data_begin_position,
+                        *offset,
+                        *byte_count,
+                        decode_limit
+                    )?);
                 }
 
                 // Push StripOffset tag to tags vector
@@ -392,9 +459,6 @@ ImageFileDirectory
 
                 // Push StripByteCounts tag to tags vector
                 tags.push(ExifTag::StripByteCounts(byte_counts));
-
-                // Restore backup position
-                data_cursor.set_position(backup_position);
             }
         }
 
@@ -413,16 +477,16 @@ ImageFileDirectory
                     thumbnail_info_1.get_tag_type()
                 )
             {
-                let backup_position = data_cursor.position();
-
                 if offset.len() == 1 && length.len() == 1
                 {
-                    let mut thumbnail_data = vec![0u8; length[0] as usize];
-
                     // Gather the data at the offset
-                    data_cursor.set_position(data_begin_position);
-                    data_cursor.seek(std::io::SeekFrom::Current(offset[0] as i64))?;
-                    data_cursor.read_exact(&mut thumbnail_data)?;
+                    let thumbnail_data = Self::read_referenced_data(
+                        data_cursor,
+                        data_begin_position,
+                        offset[0],
+                        length[0],
+                        decode_limit
+                    )?;
 
                     // Push ThumbnailOffset tag to tags vector
                     tags.push(ExifTag::ThumbnailOffset(Vec::new(), thumbnail_data));
@@ -434,9 +498,6 @@ ImageFileDirectory
                 {
                     log::warn!("Can't decode thumbnail! The ThumbnailOffset and ThumbnailLength tags are expected to contain exactly 1 INT32U value. However, they have {} and {} values.", offset.len(), length.len());
                 }
-
-                // Restore backup position
-                data_cursor.set_position(backup_position);
             }
         }
 
diff --git a/src/metadata/mod.rs b/src/metadata/mod.rs
index 529de51..e0e3bcb 100644
--- a/src/metadata/mod.rs
+++ b/src/metadata/mod.rs
@@ -7,6 +7,7 @@ pub mod edit;
 pub mod get;
 pub mod set;
 
+use std::collections::HashSet;
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
@@ -303,8 +304,17 @@ Metadata
         // Decode all the IFDs
         let mut ifds = Vec::new();
         let mut generic_ifd_nr = 0;
+        let mut decode_limit   = ImageFileDirectory::get_decode_limit(data_cursor.get_ref().len());
+        let mut known_offsets  = HashSet::new();
         while let Some(ifd_offset) = ifd_offset_option
         {
+            // The chain of IFDs must not link back to one of its members
+            if !known_offsets.insert(ifd_offset)
+            {
+                log::warn!("Ignoring link to an IFD that has already been decoded!");
+                break;
+            }
+
             data_cursor.set_position(data_start_position);
             data_cursor.seek(std::io::SeekFrom::Current(ifd_offset as i64))?;
 
@@ -314,7 +324,8 @@ Metadata
                 &endian,
                 &ExifTagGroup::GENERIC,
                 generic_ifd_nr,
-                &mut ifds
+                &mut ifds,
+                &mut decode_limit
             );
 
             ifd_offset_option = decode_result?;
-- 
2.43.0


From 5f0b8a00f483a3422a03199aaba4b977162c03b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:50 +0000
Subject: [PATCH 09/41] fix: do not treat short reads as the end of the data

---
 src/util.rs | 93 ++++++++++++++++-------------------------------------
 1 file changed, 27 insertions(+), 66 deletions(-)

diff --git a/src/util.rs b/src/util.rs
index efade4c..4ff3397 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -6,6 +6,27 @@ use std::io::Seek;
 
 use crate::general_file_io::io_error;
 
+/// Reads in the next N bytes, no matter in how many pieces they are provided.
+fn
+read_n_bytes
+<T: Seek + Read, const N: usize>
+(
+    cursor: &mut T
+)
+-> Result<[u8; N], std::io::Error>
+{
+    let mut field = [0u8; N];
+
+    match cursor.read_exact(&mut field)
+    {
+        Ok(()) => Ok(field),
+        Err(error) if error.kind() == std::io::ErrorKind::UnexpectedEof
+               => io_error!(Other, format!("Could not read the next {N} bytes!")),
+        Err(error) 
+               => Err(error)
+    }
+}
+
 /// Reads in the next 1 bytes, starting at the current position of the cursor.
 /// The function call advances the cursor by 1 bytes.
 pub(crate) fn
@@ -16,17 +37,7 @@ read_1_bytes
 )
 -> Result<[u8; 1], std::io::Error>
 {
-    // Read in the 1 bytes
-    let mut field = [0u8; 1];
-    let bytes_read = cursor.read(&mut field)?;
-
-    // Check that indeed 1 bytes were read
-    if bytes_read != 1
-    {
-        return io_error!(Other, "Could not read the next 1 bytes!");
-    }
-
-    return Ok(field);
+    return read_n_bytes(cursor);
 }
 
 /// Reads in the next 2 bytes, starting at the current position of the cursor.
@@ -39,17 +50,7 @@ read_2_bytes
 )
 -> Result<[u8; 2], std::io::Error>
 {
-    // Read in the 2 bytes
-    let mut field = [0u8; 2];
-    let bytes_read = cursor.read(&mut field)?;
-
-    // Check that indeed 2 bytes were read
-    if bytes_read != 2
-    {
-        return io_error!(Other, "Could not read the next 2 bytes!");
-    }
-
-    return Ok(field);
+    return read_n_bytes(cursor);
 }
 
 /// Reads in the next 3 bytes, starting at the current position of the cursor.
@@ -62,17 +63,7 @@ read_3_bytes
 )
 -> Result<[u8; 3], std::io::Error>
 {
-    // Read in the 3 bytes
-    let mut field = [0u8; 3];
-    let bytes_read = cursor.read(&mut field)?;
-
-    // Check that indeed 3 bytes were read
-    if bytes_read != 3
-    {
-        return io_error!(Other, "Could not read the next 3 bytes!");
-    }
-
-    return Ok(field);
+    return read_n_bytes(cursor);
 }
 
 /// Reads in the next 4 bytes, starting at the current position of the cursor.
@@ -85,17 +76,7 @@ read_4_bytes
 )
 -> Result<[u8; 4], std::io::Error>
 {
-    // Read in the 4 bytes
-    let mut field = [0u8; 4];
-    let bytes_read = cursor.read(&mut field)?;
-
-    // Check that indeed 4 bytes were read
-    if bytes_read != 4
-    {
-        return io_error!(Other, "Could not read the next 4 bytes!");
-    }
-
-    return Ok(field);
+    return read_n_bytes(cursor);
 }
 
 /// Reads in the next 8 bytes, starting at the current position of the cursor.
@@ -108,17 +89,7 @@ read_8_bytes
 )
 -> Result<[u8; 8], std::io::Error>
 {
-    // Read in the 8 bytes
-    let mut field = [0u8; 8];
-    let bytes_read = cursor.read(&mut field)?;
-
-    // Check that indeed 8 bytes were read
-    if bytes_read != 8
-    {
-        return io_error!(Other, "Could not read the next 8 bytes!");
-    }
-
-    return Ok(field);
+    return read_n_bytes(cursor);
 }
 
 /// Reads in the next 16 bytes, starting at the current position of the cursor.
@@ -131,17 +102,7 @@ read_16_bytes
 )
 -> Result<[u8; 16], std::io::Error>
 {
-    // Read in the 16 bytes
-    let mut field = [0u8; 16];
-    let bytes_read = cursor.read(&mut field)?;
-
-    // Check that indeed 16 bytes were read
-    if bytes_read != 16
-    {
-        return io_error!(Other, "Could not read the next 16 bytes!");
-    }
-
-    return Ok(field);
+    return read_n_bytes(cursor);
 }
 
 /// Reads in a u16 in big endian format at the current cursor position
-- 
2.43.0


From c0c8899e9a807d34fb6dfce2c286a9b552a2ab34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:38 +0000
Subject: [PATCH 10/41] fix: report EXIF data exceeding the JPG segment limit
 before removing old metadata

---
 src/jpg.rs                  | 17 ++++++++++-------
 src/metadata/metadata_io.rs |  2 +-
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 2ce0949..64486a2 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -27,14 +27,16 @@ encode_metadata_jpg
 (
     exif_vec: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     // vector storing the data that will be returned
     let mut jpg_exif: Vec<u8> = Vec::new();
 
     // Compute the length of the exif data (includes the two bytes of the
     // actual length field)
-    let length = 2u16 + (EXIF_HEADER.len() as u16) + (exif_vec.len() as u16);
+    let Ok(length) = u16::try_from(2 + EXIF_HEADER.len() + exif_vec.len()) else {
+        return io_error!(InvalidInput, "EXIF data is too large for a JPG APP1 segment!");
+    };
 
     // Start with the APP1 marker and the length of the data
     // Then copy the previously encoded EXIF data 
@@ -43,7 +45,7 @@ encode_metadata_jpg
     jpg_exif.extend(EXIF_HEADER.iter());
     jpg_exif.extend(exif_vec.iter());
 
-    return jpg_exif;
+    return Ok(jpg_exif);
 }
 
 
@@ -284,7 +286,7 @@ as_u8_vec
 (
     general_encoded_metadata: &[u8],
 )
--> Vec<u8>
+-> Result<Vec<u8>, std::io::Error>
 {
     encode_metadata_jpg(general_encoded_metadata)
 }
@@ -299,12 +301,13 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
+    // Encode the data specifically for JPG. This needs to happen first so that
+    // nothing gets removed in case there is a problem with the new metadata
+    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?)?;
+
     // Remove old metadata
     clear_metadata(file_buffer)?;
 
-    // Encode the data specifically for JPG
-    let mut encoded_metadata = encode_metadata_jpg(&metadata.encode()?);
-
     // Insert the metadata right after the signature
     crate::util::insert_multiple_at(file_buffer, 2, &mut encoded_metadata);
 
diff --git a/src/metadata/metadata_io.rs b/src/metadata/metadata_io.rs
index 3051daf..06bb2bf 100644
--- a/src/metadata/metadata_io.rs
+++ b/src/metadata/metadata_io.rs
@@ -389,7 +389,7 @@ Metadata
             FileExtension::PNG { as_zTXt_chunk } 
                 =>  png::as_u8_vec(&general_encoded_metadata, as_zTXt_chunk),
             FileExtension::JPEG 
-                =>  jpg::as_u8_vec(&general_encoded_metadata),
+                =>  jpg::as_u8_vec(&general_encoded_metadata)?,
             FileExtension::WEBP 
                  => webp::as_u8_vec(&general_encoded_metadata),
             FileExtension::HEIF 
-- 
2.43.0


From e903f562683c7281bac648882bf60d0838309c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 11/41] fix: clear JPG segments all at once and cope with fill
 bytes and bad lengths

---
 src/general_file_io.rs |  20 +++++
 src/jpg.rs             | 163 +++++++++++++++++++++++------------------
 src/tiff/file.rs       |  13 +---
 3 files changed, 116 insertions(+), 80 deletions(-)

diff --git a/src/general_file_io.rs b/src/general_file_io.rs
index b93d70b..36fefb7 100644
--- a/src/general_file_io.rs
+++ b/src/general_file_io.rs
@@ -34,6 +34,7 @@ macro_rules! io_error_plain {
 
 use std::fs::File;
 use std::fs::OpenOptions;
+use std::io::Write;
 use std::path::Path;
 
 pub(crate) fn
@@ -72,4 +73,23 @@ open_write_file
 		.open(path)
 }
 
+/// Replaces the entire content of an already existing file
+pub(crate) fn
+overwrite_file
+(
+	path: &Path,
+	data: &[u8]
+)
+-> Result<(), std::io::Error>
+{
+	let mut file = open_write_file(path)?;
+
+	file.write_all(data)?;
+
+	// Cut off what is left in case the previous content was longer
+	file.set_len(data.len() as u64)?;
+
+	return Ok(());
+}
+
 pub(crate) use io_error;
\ No newline at end of file
diff --git a/src/jpg.rs b/src/jpg.rs
index 64486a2..338a132 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -7,7 +7,6 @@ use std::io::Cursor;
 use std::io::Seek;
 use std::io::SeekFrom;
 use std::io::Read;
-use std::io::Write;
 use std::path::Path;
 
 use crate::endian::Endian;
@@ -110,13 +109,49 @@ clear_segment
     prefix_bytes:   Option<&[u8]>,
 )
 -> Result<(), std::io::Error>
+{
+    // Determine all segments first so that nothing gets removed if there is a
+    // problem with the file
+    let segments = find_segments(file_buffer, segment_marker, prefix_bytes)?;
+
+    if segments.is_empty()
+    {
+        return Ok(());
+    }
+
+    // Copy everything in between these segments
+    let mut new_file_buffer = Vec::with_capacity(file_buffer.len());
+    let mut keep_from       = 0;
+    for (start, end) in segments
+    {
+        new_file_buffer.extend(&file_buffer[keep_from..start]);
+        keep_from = end;
+    }
+    new_file_buffer.extend(&file_buffer[keep_from..]);
+
+    *file_buffer = new_file_buffer;
+
+    return Ok(());
+}
+
+/// Provides start and end position of all segments with the given marker that
+/// start with the given prefix (if any) up to the end of the image
+fn
+find_segments
+(
+    file_buffer:    &Vec<u8>,
+    segment_marker: u8,
+    prefix_bytes:   Option<&[u8]>,
+)
+-> Result<Vec<(usize, usize)>, std::io::Error>
 {
     check_signature(file_buffer)?;
 
     // Setup of variables necessary for going through the file
     let mut byte_buffer = [0u8; 1];                                             // A buffer for reading in a byte of data from the file
     let mut previous_byte_was_marker_prefix = false;                            // A boolean for remembering if the previous byte was a marker prefix (0xFF)
-    let mut cursor = Cursor::new(file_buffer);
+    let mut cursor   = Cursor::new(file_buffer);
+    let mut segments = Vec::new();
 
     // Skip 0xFFD8 at the start
     cursor.seek(SeekFrom::Current(2))?;
@@ -130,7 +165,7 @@ clear_segment
             {
                 // Reached end of file without encountering EOI marker 0xd9
                 // See issue #93 for examples where this happens
-                return Ok(());
+                return Ok(segments);
             }
             else
             {
@@ -145,9 +180,25 @@ clear_segment
             if byte_buffer[0] == 0xd9                                           // EOI marker
             {
                 // No more data to read in
-                return Ok(());
+                return Ok(segments);
+            }
+
+            // Any marker may be preceded by any number of 0xFF fill bytes
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
             }
 
+            // Not a segment, i.e. no length information to read in
+            if is_standalone_marker(byte_buffer[0])
+            {
+                previous_byte_was_marker_prefix = false;
+                continue;
+            }
+
+            // Position of the marker prefix
+            let segment_start = cursor.position() as usize - 2;
+
             // Read in the length of the segment
             // (which follows immediately after the marker)
             let mut length_buffer = [0u8; 2];
@@ -155,64 +206,30 @@ clear_segment
 
             // Decode the length to determine how much more data there is
             let length = from_u8_vec_res_macro!(u16, &length_buffer, &Endian::Big)?;
-            let remaining_length = (length - 2) as usize;
-
-            if byte_buffer[0] == segment_marker                                 // Given marker, e.g. for APP1
+            if length < 2
             {
-                // Backup current position, account for the 4 bytes already read
-                let backup_position = cursor.position() - 4;
-
-                let mut do_not_delete_segment_override = false;
-
-                // If we are given prefix bytes to check for, read them in
-                if let Some(prefix) = prefix_bytes
-                {
-                    let mut prefix_buffer = vec![0u8; prefix.len()];
-                    cursor.read_exact(&mut prefix_buffer)?;
-                    cursor.seek(SeekFrom::Current(-(prefix_buffer.len() as i64)))?;
-
-                    // We are given a prefix but don't know yet if it matches
-                    // So set the override to true for now as we might have to
-                    // skip deleting this segment if we don't get a match
-                    do_not_delete_segment_override = true;
+                return io_error!(InvalidData, "Mangled JPG data encountered!");
+            }
 
-                    // Only delete the segment if the prefix matches
-                    if prefix_buffer.as_slice() == prefix
-                    {
-                        do_not_delete_segment_override = false;
-                    }
-                }
+            let remaining_length = (length - 2) as usize;
+            let data_start       = cursor.position() as usize;
+            let data_end         = std::cmp::min(data_start + remaining_length, file_buffer.len());
 
-                // Skip the segment
-                cursor.seek(SeekFrom::Current(remaining_length as i64))?;
+            // Skip the segment
+            cursor.seek(SeekFrom::Current(remaining_length as i64))?;
 
-                // Overwrite segment only if we are allowed to
-                if !do_not_delete_segment_override
+            if byte_buffer[0] == segment_marker                                 // Given marker, e.g. for APP1
+            {
+                // If we are given prefix bytes only segments where the prefix
+                // matches are of interest
+                if file_buffer[data_start..data_end].starts_with(prefix_bytes.unwrap_or(&[]))
                 {
-                    // Copy data from there onwards into a buffer
-                    let mut temp_buffer = Vec::new();
-                    cursor.read_to_end(&mut temp_buffer)?;
-
-                    // Overwrite segment
-                    cursor.set_position(backup_position);
-                    cursor.write_all(&temp_buffer)?;
-
-                    // Cut off right-most bytes that are now duplicates due 
-                    // to the previous shift-to-left operation
-                    let cutoff_index = 0
-                        + backup_position as usize 
-                        + temp_buffer.len();
-                    cursor.get_mut().truncate(cutoff_index);
-
-                    // Seek to start of next segment
-                    cursor.set_position(backup_position);
+                    segments.push((segment_start, data_end));
                 }
             }
             else if byte_buffer[0] == 0xda
             {
                 // See `generic_read_metadata`
-                cursor.seek(SeekFrom::Current(remaining_length as i64))?;
-
                 if let Err(e) = skip_ecs(&mut cursor)
                 {
                     if e.kind() == std::io::ErrorKind::UnexpectedEof
@@ -220,7 +237,7 @@ clear_segment
                         // Again, same as the check above, we have reached end
                         // of file without encountering EOI marker 0xd9
                         // See issue #93 for examples where this happens
-                        return Ok(());
+                        return Ok(segments);
                     }
                     else
                     {
@@ -228,11 +245,6 @@ clear_segment
                     }
                 }
             }
-            else
-            {
-                // Skip this segment
-                cursor.seek(SeekFrom::Current(remaining_length as i64))?;
-            }
 
             previous_byte_was_marker_prefix = false;
         }
@@ -243,6 +255,25 @@ clear_segment
     }
 }
 
+/// Checks if the given marker is *not* followed by the length of a segment
+fn
+is_standalone_marker
+(
+    marker: u8
+)
+-> bool
+{
+    match marker
+    {
+        0x00        |                                                           // Stuffed byte, not an actual marker
+        0x01        |                                                           // TEM
+        0xd0..=0xd7 |                                                           // Restart
+        0xd8                                                                    // SOI
+            => true,
+        _   => false
+    }
+}
+
 pub(crate) fn
 file_clear_segment
 (
@@ -262,10 +293,7 @@ file_clear_segment
     
     // Write the file
     // Possible to optimize further by returning the purged bytestream itself?
-    let mut file = std::fs::OpenOptions::new().write(true).truncate(true).open(path)?;
-    file.write_all(&file_buffer)?;
-
-    return Ok(());
+    return overwrite_file(path, &file_buffer);
 }
 
 pub(crate) fn
@@ -328,20 +356,15 @@ file_write_metadata
 {
     // Load the entire file into memory instead of performing multiple read, 
     // seek and write operations
-    let mut file = open_write_file(path)?;
-    let mut file_buffer: Vec<u8> = Vec::new();
-    file.read_to_end(&mut file_buffer)?;
+    let mut file_buffer: Vec<u8> = std::fs::read(path)?;
 
     // Writes the metadata to the file_buffer vec
     // The called function handles the removal of old metadata and the JPG
     // specific encoding, so we pass only the generally encoded metadata here
     write_metadata(&mut file_buffer, metadata)?;
 
-    // Seek back to start & write the file
-    file.seek(SeekFrom::Start(0))?;
-    file.write_all(&file_buffer)?;
-
-    return Ok(());
+    // Write the file
+    return overwrite_file(path, &file_buffer);
 }
 
 pub(crate) fn
diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index 5da1782..9fbce84 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -2,11 +2,10 @@
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
 use std::io::BufReader;
-use std::io::Write;
 use std::path::Path;
 
 use crate::general_file_io::open_read_file;
-use crate::general_file_io::open_write_file;
+use crate::general_file_io::overwrite_file;
 use crate::metadata::Metadata;
 
 use super::generic_read_metadata;
@@ -50,13 +49,7 @@ write_metadata
 -> Result<(), std::io::Error>
 {
 	// Encode first so that the file stays untouched in case this fails
-	let     encoded_metadata = generic_encode_metadata(metadata)?;
-	let mut file             = open_write_file(path)?;
+	let encoded_metadata = generic_encode_metadata(metadata)?;
 
-	file.write_all(&encoded_metadata)?;
-
-	// Cut off what is left of the (longer) previous content
-	file.set_len(encoded_metadata.len() as u64)?;
-
-	return Ok(());
+	return overwrite_file(path, &encoded_metadata);
 }
-- 
2.43.0


From 583f8c00878caf599e1e64aca1760d8bb11aafb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:44 +0000
Subject: [PATCH 12/41] fix: skip APP1 segments without EXIF data and fill
 bytes when reading a JPG

---
 src/jpg.rs | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/jpg.rs b/src/jpg.rs
index 338a132..53bd465 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -477,6 +477,19 @@ generic_read_metadata
                 return io_error!(Other, "No EXIF data found!");
             }
 
+            // Any marker may be preceded by any number of 0xFF fill bytes
+            if byte_buffer[0] == JPG_MARKER_PREFIX
+            {
+                continue;
+            }
+
+            // Not a segment, i.e. no length information to read in
+            if is_standalone_marker(byte_buffer[0])
+            {
+                previous_byte_was_marker_prefix = false;
+                continue;
+            }
+
             // Read in the length of the segment
             // (which follows immediately after the marker)
             let mut length_buffer = [0u8; 2];
@@ -494,11 +507,15 @@ generic_read_metadata
             match byte_buffer[0]
             {
                 0xe1 => {                                                       // APP1 marker
-                    // Read in & return the remaining data
+                    // Read in & return the remaining data if this is an EXIF
+                    // segment - APP1 is also used for e.g. XMP
                     let mut app1_buffer = vec![0u8; remaining_length];
                     cursor.read_exact(&mut app1_buffer)?;
 
-                    return Ok(app1_buffer);
+                    if app1_buffer.starts_with(&EXIF_HEADER)
+                    {
+                        return Ok(app1_buffer);
+                    }
                 },
 
                 0xda => {                                                       // SOS marker
-- 
2.43.0


From 7310180baeb46f46c8683b34a14cbea4490ae749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:15 +0000
Subject: [PATCH 13/41] fix: detect file types by their complete signature and
 all HEIF brands

---
 src/filetype.rs | 36 +++++++++++++++++++++++++-----------
 src/jpg.rs      | 11 +++++++----
 2 files changed, 32 insertions(+), 15 deletions(-)

diff --git a/src/filetype.rs b/src/filetype.rs
index 6b1189a..cb4f550 100644
--- a/src/filetype.rs
+++ b/src/filetype.rs
@@ -36,10 +36,20 @@ FileExtension
     -> Option<Self>
     {
         // Read first few bytes (32 bytes because I don't know any better)
+        // Note: A single call to `read` may provide less than what is available
         let mut buffer = [0; 32];
-        let Ok(n) = cursor.read(&mut buffer) else {
-            return None;
-        };
+        let mut n      = 0;
+        while n < buffer.len()
+        {
+            match cursor.read(&mut buffer[n..])
+            {
+                Ok(0)           => break,
+                Ok(bytes_read)  => n += bytes_read,
+                Err(error) if error.kind() == ErrorKind::Interrupted
+                                => continue,
+                Err(_)          => return None
+            }
+        }
 
         if n < 4
         {
@@ -48,7 +58,7 @@ FileExtension
 
         match buffer {
             // PNG
-            [0x89, 0x50, 0x4E, 0x47, ..] => {
+            [0x89, 0x50, 0x4E, 0x47, 0x0D, 0x0A, 0x1A, 0x0A, ..] => {
                 return Some(FileExtension::PNG { as_zTXt_chunk: true });
             }
 
@@ -88,18 +98,22 @@ FileExtension
             }
 
             // HEIC/HEIF/AVIF
-            // length       f     t     y     p 
-              [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x63, ..]  // heic
-            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x68, 0x65, 0x69, 0x66, ..]  // heif
-            | [_, _, _, _, 0x66, 0x74, 0x79, 0x70, 0x61, 0x76, 0x69, 0x66, ..]  // avif
+            // length       f     t     y     p     major brand
+            // For these brands see also:
+            // https://www.loc.gov/preservation/digital/formats/fdd/fdd000526.shtml
+            [_, _, _, _, 0x66, 0x74, 0x79, 0x70, a, b, c, d, ..] 
+            if matches!(
+                &[a, b, c, d],
+                b"heic" | b"heix" | b"heim" | b"heis" | 
+                b"hevc" | b"hevx" | b"hevm" | b"hevs" |
+                b"mif1" | b"mif2" | b"msf1" | b"heif" | 
+                b"avif" | b"avis" | b"avci" | b"avcs"
+            )
             => 
             {
                 return Some(FileExtension::HEIF)
             }
 
-            // TODO: Other HEIF formats, e.g. ftypmif1, see also:
-            // https://www.loc.gov/preservation/digital/formats/fdd/fdd000526.shtml
-
             _ => { 
                 return None;
             }
diff --git a/src/jpg.rs b/src/jpg.rs
index 53bd465..8bf826a 100644
--- a/src/jpg.rs
+++ b/src/jpg.rs
@@ -76,11 +76,14 @@ file_check_signature
     
     // Read & check the signature
     let mut signature_buffer = [0u8; 2];
-    let bytes_read = file.read(&mut signature_buffer)?;
-
-    if bytes_read != 2
+    if let Err(error) = file.read_exact(&mut signature_buffer)
     {
-        return io_error!(InvalidData, "Can't open JPG file - Can't read signature!");
+        if error.kind() == std::io::ErrorKind::UnexpectedEof
+        {
+            return io_error!(InvalidData, "Can't open JPG file - Can't read signature!");
+        }
+
+        return Err(error);
     }
 
     check_signature(&signature_buffer)?;
-- 
2.43.0


From a80ae8ee1bfba942dda150a20f59d51c36b3add6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 14/41] fix: report malformed raw profiles and text chunks in
 PNGs instead of panicking

---
 src/png/mod.rs  | 181 ++++++++++++-----------------------------------
 src/png/read.rs |   7 +-
 src/png/text.rs | 183 +++++++++++++++++-------------------------------
 3 files changed, 114 insertions(+), 257 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 623f9ce..a35907c 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -5,7 +5,6 @@ pub mod chunk;
 mod read;
 mod text;
 
-use std::collections::VecDeque;
 use std::fs::File;
 use std::io::Cursor;
 use std::io::Seek;
@@ -101,11 +100,15 @@ file_check_signature
     
     // Read & check the signature
     let mut signature_buffer = [0u8; 8];
-    let     bytes_read       = file.read(&mut signature_buffer)?;
 
-    if bytes_read != 8
+    if let Err(error) = file.read_exact(&mut signature_buffer)
     {
-        return io_error!(InvalidData, "Can't open PNG file - Can't read signature!");
+        if error.kind() == std::io::ErrorKind::UnexpectedEof
+        {
+            return io_error!(InvalidData, "Can't open PNG file - Can't read signature!");
+        }
+
+        return Err(error);
     }
 
     check_signature(&signature_buffer.to_vec())?;
@@ -737,163 +740,71 @@ encode_metadata_png
     return png_exif;
 }
 
+/// Decodes the text of a raw profile, which consists of
+/// - a newline and the name of the profile
+/// - a newline and the size of the profile as decimal number with leading spaces
+/// - a newline and the profile as hex digits, split up by further newlines
 fn
 decode_metadata_png
 (
-    encoded_data: &Vec<u8>
+    encoded_data: &[u8]
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-
-    let mut exif_all:       VecDeque<u8> = VecDeque::new();
-    let mut opt_other_byte: Option<u8>   = None;
+    let mut lines = encoded_data
+        .split(|byte| *byte == NEWLINE)
+        .filter(|line| !line.is_empty());
+
+    // Skip the name, read in the size
+    let _name = lines.next();
+    let Some(given_exif_len) = lines.next()
+        .and_then(|line| std::str::from_utf8(line).ok())
+        .and_then(|line| line.trim().parse::<usize>().ok())
+    else {
+        return io_error!(Other, "Mangled EXIF size info");
+    };
 
     // This performs the reverse operation to encode_byte:
     // Two succeeding bytes represent the ASCII values of the digits of 
     // a hex value, e.g. 0x31, 0x32 represent '1' and '2', so the resulting
     // hex value is 0x12, which gets pushed onto exif_all
-    for byte in encoded_data
-    {
-        // Ignore newline characters
-        if *byte == b'\n'
-        {
-            continue;
-        }
+    let mut exif_all:        Vec<u8>     = Vec::new();
+    let mut opt_other_digit: Option<u32> = None;
 
-        if opt_other_byte.is_none()
-        {
-            opt_other_byte = Some(*byte);
-            continue;
-        }
-
-        let Some(other_byte) = opt_other_byte else {
+    for byte in lines.flatten().filter(|byte| !byte.is_ascii_whitespace())
+    {
+        let Some(digit) = (*byte as char).to_digit(16) else {
             return io_error!(Other, "Mangled PNG EXIF data encountered during decoding!");
         };
 
-        let value_string = "".to_owned()
-            + &(other_byte as char).to_string()
-            + &(*byte as char).to_string();
-
-        if let Ok(value) = u8::from_str_radix(value_string.trim(), 16)
+        match opt_other_digit.take()
         {
-            exif_all.push_back(value);
+            Some(other_digit) => exif_all.push((other_digit * 16 + digit) as u8),
+            None              => opt_other_digit = Some(digit),
         }
-
-        opt_other_byte = None;
     }
 
-    // Now remove the first element until the exif header or endian information 
-    // is found.
-    // Store the popped elements to get the size information
-    let mut exif_header_found = false;
-    let mut endian_info_found = false;
-    let mut pop_storage: Vec<u8> = Vec::new();
-
-    while !exif_header_found && !endian_info_found
+    if opt_other_digit.is_some() || exif_all.len() != given_exif_len
     {
-        let mut counter = 0;
-        for header_value in &EXIF_HEADER
-        {
-            if *header_value != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        exif_header_found = counter == EXIF_HEADER.len();
-
-        if exif_header_found
-        {
-            break;
-        }
-
-        counter = 0;
-
-        // But what if the EXIF_HEADER is missing and we are directly starting
-        // with the endian information? See issue #54
-        for endian_info in &LITTLE_ENDIAN_INFO
-        {
-            if *endian_info != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        endian_info_found = counter == LITTLE_ENDIAN_INFO.len();
-
-        if endian_info_found
-        {
-            break;
-        }
-
-        // And the same check for big endian
-        for endian_info in &BIG_ENDIAN_INFO
-        {
-            if *endian_info != exif_all[counter]
-            {
-                break;
-            }
-            counter += 1;
-        }
-
-        endian_info_found = counter == BIG_ENDIAN_INFO.len();
-
-        if endian_info_found
-        {
-            break;
-        }
-
-        if let Some(next_byte) = exif_all.pop_front()
-        {
-            pop_storage.push(next_byte);
-        }
-        else
-        {
-            return io_error!(
-                InvalidData, 
-                "Can't decode PNG EXIF data - No EXIF header or endian information found!"
-            );
-        }
+        return io_error!(Other, "PNG EXIF data does not match the given size!");
     }
 
-    // The exif header has been found
-    // -> exif_all now starts with the exif header information
-    // -> pop_storage has in its last 4 elements the size information
-    //    that will now get extracted
-    // Consider this part optional as it might be removed in the future and
-    // isn't strictly necessary and just for validating the data we get
-    assert!(!pop_storage.is_empty());
-
-    // Using the encode_byte function re-encode the bytes regarding the size
-    // information and construct its value using decimal based shifting
-    // Example: 153 = 0
-    // + 5*10*10^(2*0) + 3*1*10^(2*0) 
-    // + 0*10*10^(2*1) + 1*1*10^(2*1)
-    let mut given_exif_len = 0u64;
-    for i in 0..std::cmp::min(4, pop_storage.len())
+    // Find the start of the exif header. But what if the EXIF_HEADER is missing
+    // and we are directly starting with the endian information? See issue #54
+    for start in 0..exif_all.len()
     {
-        let re_encoded_byte = encode_byte(&pop_storage[pop_storage.len() -1 -i]);
-        let tens_place = match (re_encoded_byte[0] as char).to_string().parse::<u64>()
-        {
-            Ok(value) => value,
-            Err(_)    => return io_error!(Other, "Mangled EXIF size info"),
-        };
-        let ones_place = match (re_encoded_byte[1] as char).to_string().parse::<u64>()
+        if exif_all[start..].starts_with(&EXIF_HEADER)        ||
+           exif_all[start..].starts_with(&LITTLE_ENDIAN_INFO) ||
+           exif_all[start..].starts_with(&BIG_ENDIAN_INFO)
         {
-            Ok(value) => value,
-            Err(_)    => return io_error!(Other, "Mangled EXIF size info"),
-        };
-        // (2*i) is small and fits into u32 safely
-        given_exif_len += tens_place * 10 * 10_u64.pow((2 * i) as u32);
-        given_exif_len += ones_place *  1 * 10_u64.pow((2 * i) as u32);
+            return Ok(exif_all.split_off(start));
+        }
     }
 
-    assert_eq!(given_exif_len, exif_all.len() as u64);
-    // End optional part
-
-    return Ok(Vec::from(exif_all));
+    return io_error!(
+        InvalidData, 
+        "Can't decode PNG EXIF data - No EXIF header or endian information found!"
+    );
 }
 
 /// Provides the PNG specific encoding result as vector of bytes to be used
diff --git a/src/png/read.rs b/src/png/read.rs
index 715c949..b8ab786 100644
--- a/src/png/read.rs
+++ b/src/png/read.rs
@@ -50,8 +50,11 @@ read_chunk_data
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    let mut chunk_data_buffer = vec![0u8; chunk_length];
-    let     bytes_read        = cursor.read(&mut chunk_data_buffer)?;
+    // Do not allocate the (possibly wrong) length that is given by the file
+    let mut chunk_data_buffer = Vec::new();
+    let     bytes_read        = cursor
+        .take(chunk_length as u64)
+        .read_to_end(&mut chunk_data_buffer)?;
     
     if bytes_read != chunk_length
     {
diff --git a/src/png/text.rs b/src/png/text.rs
index ecbf03a..0b5911d 100644
--- a/src/png/text.rs
+++ b/src/png/text.rs
@@ -5,6 +5,7 @@ use miniz_oxide::inflate::decompress_to_vec_zlib;
 use miniz_oxide::deflate::compress_to_vec_zlib;
 
 use crate::general_file_io::io_error;
+use crate::io_error_plain;
 
 /// This gets the keyword of a $TEXT chunk.
 /// Fortunately, this is the same for tEXt, zTXt and iTXt, as they all
@@ -35,7 +36,9 @@ get_data_from_text_chunk
 {
     // The keyword length is required in all cases for determining the start
     // of the actual data
-    let keyword_length = get_keyword_from_text_chunk(chunk_data).len();
+    let Some(keyword_length) = chunk_data.iter().position(|byte| *byte == 0x00) else {
+        return io_error!(InvalidData, "Text chunk has no NUL separator!");
+    };
 
     match chunk_name
     {
@@ -54,7 +57,7 @@ get_data_from_text_chunk
             let data_start = keyword_length + 2;
 
             // Check compression method
-            if chunk_data[keyword_length + 1] != 0x00
+            if chunk_data.get(keyword_length + 1) != Some(&0x00)
             {
                 return io_error!(
                     Other,
@@ -83,17 +86,8 @@ get_data_from_text_chunk
             let (
                 compression_flag,
                 compression_method,
-                _keyword,
-                language_tag,
-                translated_keyword,
-            ) = get_info_about_iTXt_chunk(chunk_data);
-
-            let data_start = keyword_length // keyword
-                + 3                         // NUL, compression flag & method
-                + language_tag.len()        // language tag
-                + 1                         // NUL
-                + translated_keyword.len()  // translated keyword
-                + 1;                        // NUL
+                data_start,
+            ) = get_info_about_iTXt_chunk(chunk_data)?;
 
             if compression_flag == 0x00
             {
@@ -144,22 +138,21 @@ construct_similar_with_new_data
     // data describes the entire data field that includes the keyword, the
     // compression information and so on
 
-    // The keyword and NUL will be needed in every cases:
-    let     keyword        = get_keyword_from_text_chunk(old_chunk_data);
-    let mut new_chunk_data = keyword
-        .bytes()
-        .collect::<Vec<u8>>();
-    new_chunk_data.push(0x00);
+    let Some(keyword_length) = old_chunk_data.iter().position(|byte| *byte == 0x00) else {
+        return io_error!(InvalidData, "Text chunk has no NUL separator!");
+    };
 
-    match chunk_name
+    // Determine where the old data starts and if it is compressed - everything
+    // before that is taken over as it is
+    let (data_start, is_compressed) = match chunk_name
     {
         "tEXt" => {
-            new_chunk_data.extend(new_data);
+            (keyword_length + 1, false)
         },
 
         "zTXt" => {
             // Check compression method
-            if old_chunk_data[keyword.len() + 1] != 0x00
+            if old_chunk_data.get(keyword_length + 1) != Some(&0x00)
             {
                 return io_error!(
                     Other,
@@ -167,7 +160,7 @@ construct_similar_with_new_data
                 );
             }
 
-            new_chunk_data.extend(compress_to_vec_zlib(new_data, 8).iter());
+            (keyword_length + 2, true)
         },
 
         "iTXt" => {
@@ -175,45 +168,35 @@ construct_similar_with_new_data
             let (
                 compression_flag,
                 compression_method,
-                _keyword,
-                language_tag,
-                translated_keyword,
-            ) = get_info_about_iTXt_chunk(old_chunk_data);
-
-            // Push compression information
-            new_chunk_data.push(compression_flag);
-            new_chunk_data.push(compression_method);
-
-            // Add the language tag and translated keyword
-            new_chunk_data.extend(language_tag.bytes());
-            new_chunk_data.push(0x00);
-            new_chunk_data.extend(translated_keyword.bytes());
-            new_chunk_data.push(0x00);
+                data_start,
+            ) = get_info_about_iTXt_chunk(old_chunk_data)?;
 
             // Check compression
-            if compression_flag == 0x00
+            if compression_flag != 0x00 && compression_method != 0x00
             {
-                // No compression, simply add the new data
-                new_chunk_data.extend(new_data);
-            }
-            else
-            {
-                if compression_method != 0x00
-                {
-                    return io_error!(
-                        Other,
-                        "Unknown compression method for iTXt!"
-                    );
-                }
-                new_chunk_data.extend(
-                    compress_to_vec_zlib(new_data, 8).iter()
+                return io_error!(
+                    Other,
+                    "Unknown compression method for iTXt!"
                 );
             }
+
+            (data_start, compression_flag != 0x00)
         },
 
         _ => {
             return io_error!(Other, "Unknown text chunk!");
         }
+    };
+
+    let mut new_chunk_data = old_chunk_data[..data_start].to_vec();
+
+    if is_compressed
+    {
+        new_chunk_data.extend(compress_to_vec_zlib(new_data, 8).iter());
+    }
+    else
+    {
+        new_chunk_data.extend(new_data);
     }
 
     return Ok(new_chunk_data);
@@ -237,74 +220,34 @@ get_info_about_iTXt_chunk
 (
     chunk_data:   &[u8]
 )
--> (
+-> Result<(
     u8,     // compression flag
     u8,     // compression method
-    String, // keyword
-    String, // language tag
-    String, // translated keyword
-)
+    usize,  // start of the text
+), std::io::Error>
 {
-    // Tells us where we currently are in the chunk data
-    let mut chunk_counter = 0;
-
-    // Buffers for the different attributes
-    let mut keyword_buffer = Vec::new();
-
-    loop
-    {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            keyword_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
-        {
-            break;
-        }
-    }
-
-    let _null_separator_1  = chunk_data[chunk_counter + 0];
-    let compression_flag   = chunk_data[chunk_counter + 1];
-    let compression_method = chunk_data[chunk_counter + 2];
-
-    chunk_counter += 3;
-    let mut language_tag_buffer = Vec::new();
-
-    loop 
-    {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            language_tag_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
-        {
-            break;
-        }
-    }
-
-    chunk_counter += 1;
-    let mut translated_keyword_buffer = Vec::new();
-
-    loop 
-    {
-        if chunk_data[chunk_counter] != 0x00
-        {
-            translated_keyword_buffer.push(chunk_data[chunk_counter]);
-            chunk_counter += 1;
-        }
-        else
-        {
-            break;
-        }
-    }
-
-    return (
-        compression_flag,
-        compression_method,
-        String::from_utf8(keyword_buffer           ).unwrap_or_default(),
-        String::from_utf8(language_tag_buffer      ).unwrap_or_default(),
-        String::from_utf8(translated_keyword_buffer).unwrap_or_default()
-    );
-}
\ No newline at end of file
+    // Position of the next NUL separator
+    let find_null = |start: usize| chunk_data
+        .get(start..)
+        .and_then(|rest| rest.iter().position(|byte| *byte == 0x00))
+        .map(|length| start + length)
+        .ok_or(io_error_plain!(InvalidData, "iTXt chunk is incomplete!"));
+
+    let keyword_end = find_null(0)?;
+
+    let (Some(compression_flag), Some(compression_method)) = (
+        chunk_data.get(keyword_end + 1),
+        chunk_data.get(keyword_end + 2)
+    ) else {
+        return io_error!(InvalidData, "iTXt chunk is incomplete!");
+    };
+
+    let language_tag_end       = find_null(keyword_end      + 3)?;
+    let translated_keyword_end = find_null(language_tag_end + 1)?;
+
+    return Ok((
+        *compression_flag,
+        *compression_method,
+        translated_keyword_end + 1
+    ));
+}
-- 
2.43.0


From b1da08b5ff37b83d0936db28aa17cda64556c6da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:14 +0000
Subject: [PATCH 15/41] fix: clear and write PNG metadata in one go and keep
 XMP that is not related to EXIF as it is

---
 src/png/mod.rs | 308 +++++++++++++++----------------------------------
 src/xmp.rs     | 182 ++++++++++++++++-------------
 2 files changed, 196 insertions(+), 294 deletions(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index a35907c..8db95d9 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -8,10 +8,7 @@ mod text;
 use std::fs::File;
 use std::io::Cursor;
 use std::io::Seek;
-use std::io::SeekFrom;
 use std::io::Read;
-use std::io::Write;
-use std::ops::Neg;
 use std::path::Path;
 
 use crc::Crc;
@@ -22,6 +19,7 @@ use text::get_data_from_text_chunk;
 
 use crate::general_file_io::io_error;
 use crate::general_file_io::open_read_file;
+use crate::general_file_io::overwrite_file;
 use crate::general_file_io::EXIF_HEADER;
 use crate::general_file_io::LITTLE_ENDIAN_INFO;
 use crate::general_file_io::BIG_ENDIAN_INFO;
@@ -37,7 +35,7 @@ use crate::png::read::read_chunk_crc;
 use crate::png::text::get_keyword_from_text_chunk;
 
 use crate::xmp::remove_exif_from_xmp;
-use crate::util::range_remove;
+use crate::util::insert_multiple_at;
 
 pub(crate) const PNG_SIGNATURE: [u8; 8] = [0x89, 0x50, 0x4e, 0x47, 0x0d, 0x0a, 0x1a, 0x0a];
 pub(crate) const RAW_PROFILE_TYPE_EXIF: [u8; 21] = [
@@ -370,13 +368,7 @@ file_clear_metadata
 
     // Write the file
     // Possible to optimize further by returning the purged bytestream itself?
-    let mut file = std::fs::OpenOptions::new()
-        .write(true)
-        .truncate(true)
-        .open(path)?;
-    file.write_all(&file_buffer)?;
-
-    return Ok(());
+    return overwrite_file(path, &file_buffer);
 }
 
 // Clears existing metadata chunk from a png file
@@ -392,147 +384,89 @@ clear_metadata
     // Parse the PNG - if this fails, the clear operation fails as well
     let parse_png_result = vec_parse_png(file_buffer)?;
 
-    // Parsed PNG is Ok to use - Open the file and go through the chunks
-    let mut cursor = Cursor::new(file_buffer);
-
-    // Skip the PNG file header (8 bytes)
-    let mut remove_start;
-    cursor.seek(std::io::SeekFrom::Current(8))?;
+    // Parsed PNG is Ok to use - Go through the chunks and copy what is kept,
+    // starting with the PNG file header (8 bytes)
+    let mut new_file_buffer = file_buffer[..PNG_SIGNATURE.len()].to_vec();
+    let mut position        = PNG_SIGNATURE.len();
 
     for chunk in &parse_png_result
     {
-        // Where the chunk that we might want to remove starts
-        remove_start = cursor.stream_position()? as usize;
+        // 12 additional bytes due to the length, name and CRC fields
+        let chunk_start = position;
+        let chunk_end   = position + chunk.length() as usize + 12;
+        position        = chunk_end;
 
-        match chunk.as_string().as_str()
+        let chunk_name  = chunk.as_string();
+        let chunk_data  = &file_buffer[chunk_start + 8..chunk_end - 4];
+
+        match chunk_name.as_str()
         {
             "eXIf" => {
-                // Remove the entire chunk (done after the match)
+                // Remove the entire chunk
+                continue;
             },
 
             "iTXt" | "zTXt" | "tEXt" => {
 
-                // Skip chunk length and type (4+4 Bytes)
-                cursor.seek(std::io::SeekFrom::Current(4+4))?;
-
-                // Read chunk data into buffer for checking that this is the
-                // correct chunk to delete
-                let chunk_data = read_chunk_data(
-                    &mut cursor, 
-                    chunk.length() as usize
-                )?;
-
-                let keyword = get_keyword_from_text_chunk(&chunk_data);
+                let keyword = get_keyword_from_text_chunk(chunk_data);
 
                 // Compare to the "Raw profile type exif" string constant
-                let mut has_raw_profile_type_exif = false;
-                if keyword.len() == RAW_PROFILE_TYPE_EXIF.len()
+                if keyword.as_bytes() == RAW_PROFILE_TYPE_EXIF
                 {
-                    has_raw_profile_type_exif = keyword
-                        .bytes()
-                        .zip(RAW_PROFILE_TYPE_EXIF.iter())
-                        .all(|(a,b)| a == *b);
+                    // Remove the entire chunk
+                    continue;
                 }
 
                 // Compare to the "XML:com.adobe.xmp" string constant
-                let mut has_xml_com_adobe_xmp = false;
-                if keyword.len() == XML_COM_ADOBE_XMP.len()
-                {
-                    has_xml_com_adobe_xmp = keyword
-                        .bytes()
-                        .zip(XML_COM_ADOBE_XMP.iter())
-                        .all(|(a,b)| a == *b);
-                }
-
-                if has_xml_com_adobe_xmp
+                if keyword.as_bytes() == XML_COM_ADOBE_XMP
                 {
                     // Don't fully remove the chunk, only remove EXIF from XMP
-                    // To do that, reposition the cursor to the start of the 
-                    // entire chunk
-                    cursor.seek(SeekFrom::Current((chunk.length() as i64).neg()))?;
-                    cursor.seek(SeekFrom::Current(-8))?;
-                    clear_exif_from_xmp_metadata(&mut cursor, &chunk_data)?;
-                    continue;
-                }
-
-                // If this is not the correct zTXt/iTXt chunk, 
-                // ignore it, skip its CRC and continue with next chunk
-                if !has_raw_profile_type_exif
-                {
-                    cursor.seek(SeekFrom::Current(4))?;
-                    continue;
+                    match clear_exif_from_xmp_metadata(&chunk_name, chunk_data)
+                    {
+                        Ok(Some(new_chunk_data)) => {
+                            new_file_buffer.extend(construct_chunk(&chunk_name, &new_chunk_data));
+                            continue;
+                        },
+                        Ok(None) => {
+                            // There is no EXIF data, keep this as it is
+                        },
+                        Err(error) => {
+                            // Keep what can't be understood
+                            log::warn!("Could not remove EXIF from XMP data: {error}");
+                        }
+                    }
                 }
             },
 
-            _ => {
-                // In any other case, skip this chunk and continue with the 
-                // next one after adjusting the cursor
-                cursor.seek(std::io::SeekFrom::Current(12 + chunk.length() as i64))?;
-                continue;
-            }
+            _ => ()
         }
 
-        // As we haven't continued to the next chunk in a previous match arm, 
-        // we have now established that we want to remove this chunk.
-        cursor.set_position(remove_start as u64);
-        remove_chunk_at(&mut cursor)?;
-
+        new_file_buffer.extend(&file_buffer[chunk_start..chunk_end]);
     }
 
-    return Ok(());
-}
-
+    // Whatever there is after the last chunk
+    new_file_buffer.extend(&file_buffer[position..]);
 
-
-/// Removes the chunk that starts at the given position.
-/// After that, cursor is positioned at the start of the next chunk.
-fn
-remove_chunk_at
-(
-    cursor: &mut Cursor<&mut Vec<u8>>,
-)
--> Result<(), std::io::Error>
-{
-    let chunk_start_position = cursor.position() as usize;
-    let chunk_length         = read_chunk_length(cursor)?;
-
-    // Seek to the end of the chunk, with the 8 additional bytes due to the 
-    // name and CRC fields
-    cursor.seek(SeekFrom::Current(chunk_length as i64 + 8))?;
-    let chunk_end_position = cursor.position() as usize;
-
-    range_remove(
-        cursor.get_mut(), 
-        chunk_start_position, 
-        chunk_end_position
-    );
-
-    // Set the position of the cursor to the original start position
-    cursor.set_position(chunk_start_position as u64);
+    *file_buffer = new_file_buffer;
 
     return Ok(());
 }
 
 
 
+/// Provides the new data of a text chunk or `None` if the XMP data does not
+/// contain any EXIF data
 fn
 clear_exif_from_xmp_metadata
 (
-    cursor:     &mut Cursor<&mut Vec<u8>>,
+    chunk_name: &str,
     chunk_data: &[u8],
 )
--> Result<(), std::io::Error>
+-> Result<Option<Vec<u8>>, std::io::Error>
 {
-    // Read the chunk name and seek back
-    let _          = read_chunk_length(cursor)?;
-    let chunk_name = read_chunk_name(cursor)?;
-    cursor.seek(SeekFrom::Current(-8))?;
-
     // Clear the EXIF from the XMP data
-    let text_chunk_data = get_data_from_text_chunk(
-        chunk_name.as_str(), chunk_data
-    )?;
-    let clean_xmp_data = match remove_exif_from_xmp(&text_chunk_data)
+    let text_chunk_data = get_data_from_text_chunk(chunk_name, chunk_data)?;
+    let clean_xmp_data  = match remove_exif_from_xmp(&text_chunk_data)
     {
         Ok(data) => data,
         Err(e)   => {
@@ -542,20 +476,22 @@ clear_exif_from_xmp_metadata
         }
     };
 
+    if clean_xmp_data == text_chunk_data
+    {
+        return Ok(None);
+    }
+
     // Construct new chunk data field
-    let new_chunk_data = construct_similar_with_new_data(
-        chunk_name.as_str(), 
+    return construct_similar_with_new_data(
+        chunk_name, 
         chunk_data, 
         &clean_xmp_data
-    )?;
-
-    // Replace chunk
-    remove_chunk_at(cursor)?;
-    return write_chunk(cursor, chunk_name.as_str(), &new_chunk_data);
+    ).map(Some);
 }
 
 
 
+#[allow(non_snake_case)]
 pub(crate) fn
 write_metadata
 (
@@ -564,16 +500,37 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // First clear the existing metadata
-    // This also parses the PNG and checks its validity, so it is safe to
-    // assume that is, in fact, a usable PNG file
-    clear_metadata(file_buffer)?;
+    // Encode the data specifically for PNG. This needs to happen first so that
+    // nothing gets removed in case there is a problem with the new metadata
+    let encoded_metadata = encode_metadata_png(&metadata.encode()?);
 
-    // Parsed PNG is Ok to use - Create a cursor for writing
-    let mut cursor = Cursor::new(file_buffer);
+    // Build data of new chunk using zlib compression (level=8 -> default)
+    let zTXt_chunk_data: Vec<u8> = construct_zTXt_chunk_data(
+        &Vec::new(),
+        &encoded_metadata
+    );
+    let mut zTXt_chunk = construct_chunk("zTXt", &zTXt_chunk_data);
+
+    // Clear the existing metadata
+    // This also parses the PNG and checks its validity
+    let mut new_file_buffer = file_buffer.clone();
+    clear_metadata(&mut new_file_buffer)?;
 
-    // Call the generic write function
-    return generic_write_metadata(&mut cursor, metadata);
+    // Insert the new chunk right after the IHDR chunk
+    let mut insert_position = PNG_SIGNATURE.len();
+    for chunk in vec_parse_png(&new_file_buffer)?
+    {
+        insert_position += chunk.length() as usize + 12;                        // 12 bytes for length, type and CRC
+        
+        if chunk.as_string() == "IHDR"
+        {
+            insert_multiple_at(&mut new_file_buffer, insert_position, &mut zTXt_chunk);
+            *file_buffer = new_file_buffer;
+            return Ok(());
+        }
+    }
+
+    return io_error!(InvalidData, "PNG has no IHDR chunk!");
 }
 
 pub(crate) fn
@@ -584,10 +541,7 @@ file_write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // First clear the existing metadata
-    // This also parses the PNG and checks its validity, so it is safe to
-    // assume that is, in fact, a usable PNG file
-    // For that, load the entire file into memory
+    // Load the entire file into memory
     let mut file_buffer: Vec<u8> = std::fs::read(path)?;
 
     // Clear old metadata and write new to buffer
@@ -595,26 +549,17 @@ file_write_metadata
 
     // Write the file
     // Possible to optimize further by returning the purged bytestream itself?
-    let mut file = std::fs::OpenOptions::new()
-        .write(true)
-        .truncate(true)
-        .open(path)?;
-    file.write_all(&file_buffer)?;
-
-    return Ok(());
+    return overwrite_file(path, &file_buffer);
 }
 
-/// Assumes the cursor to be positioned at the insert position
-#[allow(non_snake_case)]
+/// Constructs an entire chunk, including its length and CRC
 fn
-write_chunk
-<T: Seek + Read + Write>
+construct_chunk
 (
-    cursor:     &mut T,
     chunk_name: &str,
     chunk_data: &[u8],
 )
--> Result<(), std::io::Error>
+-> Vec<u8>
 {
     // Create a new vec for computing the CRC
     let mut data = chunk_name.as_bytes().to_vec();
@@ -622,75 +567,14 @@ write_chunk
 
     // Compute CRC and append it to the data vector
     let crc_struct = Crc::<u32>::new(&CRC_32_ISO_HDLC);
-    let checksum = crc_struct.checksum(&data);
-    for i in 0..4
-    {
-        data.push( (checksum >> (8 * (3-i))) as u8);		
-    }
+    let checksum   = crc_struct.checksum(&data);
+    data.extend(checksum.to_be_bytes());
 
-    // Prepare writing: 
-    // - Backup cursor position 
-    // - Read everything from there onwards into a buffer
-    // - Go back to insert position
-    let     backup_cursor_position = cursor.stream_position()?;
-    let mut buffer                 = Vec::new();
-    cursor.read_to_end(&mut buffer)?;
-    cursor.seek(SeekFrom::Start(backup_cursor_position))?;
-
-    // Write length of the new chunk (which is 8 bytes shorter than `data`)
-    let chunk_data_len = chunk_data.len() as u32;
-    for i in 0..4
-    {
-        let bytes_written = cursor.write(&[(chunk_data_len >> (8 * (3-i))) as u8])?;
-        assert_eq!(bytes_written, 1);
-    }
-
-    // Write data of new chunk, remember that position, write remaining PNG
-    // data and revert position so that cursor now points to the chunk right
-    // after the one that has been written
-    cursor.write_all(&data)?;
-    let end_of_written_chunk_cursor_position = cursor.stream_position()?;
-    cursor.write_all(&buffer)?;
-    cursor.seek(SeekFrom::Start(end_of_written_chunk_cursor_position))?;
-
-    return Ok(());
-}
-
-#[allow(non_snake_case)]
-fn
-generic_write_metadata
-<T: Seek + Read + Write>
-(
-    cursor:     &mut T,
-    metadata:   &Metadata
-)
--> Result<(), std::io::Error>
-{
-    cursor.seek(SeekFrom::Start(8))?;
-
-    let mut IHDR_length = 0u32;
-
-    if let Ok(chunks) = generic_parse_png(cursor)
-    {
-        IHDR_length = chunks[0].length();
-    }
-
-    // Encode the data specifically for PNG and open the image file
-    let encoded_metadata = encode_metadata_png(&metadata.encode()?);
-    let seek_start = 0u64         // Skip ...
-    + PNG_SIGNATURE.len() as u64  // PNG Signature
-    + IHDR_length         as u64  // IHDR data section
-    + 12                        ; // rest of IHDR chunk (length, type, CRC)
-
-    // Build data of new chunk using zlib compression (level=8 -> default)
-    let zTXt_chunk_data: Vec<u8> = construct_zTXt_chunk_data(
-        &Vec::new(),
-        &encoded_metadata
-    );
+    // Start with the length of the new chunk
+    let mut chunk = (chunk_data.len() as u32).to_be_bytes().to_vec();
+    chunk.extend(data);
 
-    // Seek to insert position and write the chunk
-    cursor.seek(SeekFrom::Start(seek_start))?;
-    return write_chunk(cursor, "zTXt", &zTXt_chunk_data);
+    return chunk;
 }
 
 
diff --git a/src/xmp.rs b/src/xmp.rs
index 707ece2..385b1cc 100644
--- a/src/xmp.rs
+++ b/src/xmp.rs
@@ -1,17 +1,15 @@
 // Copyright © 2025 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use quick_xml::events::BytesStart;
 use quick_xml::events::Event;
 use quick_xml::Reader;
-use quick_xml::Writer;
-use std::io::Cursor;
 
 /// Some images also contain XMP metadata, which in turn may include EXIF data
 /// that is simply a duplicate from e.g. the eXIf chunk in a PNG.
 /// This function takes in the raw XMP information and removes EXIF attributes,
 /// while maintaining other XMP information so that the result can be 
-/// written back to the image data.
+/// written back to the image data. Everything that is not related to EXIF is
+/// copied as it is.
 pub(crate) fn
 remove_exif_from_xmp
 (
@@ -19,131 +17,151 @@ remove_exif_from_xmp
 )
 -> Result<Vec<u8>, Box<dyn std::error::Error>>
 {
-    let mut reader = Reader::from_reader(data);
-    let mut writer = Writer::new(Cursor::new(Vec::new()));
-
-    // Needed by the reader
-    let mut read_buffer = Vec::new();
+    let mut reader     = Reader::from_reader(data);
+    let mut clean_data = Vec::with_capacity(data.len());
 
     // Needed for skipping stuff like 
     // <exif:Description>Hi</exif:Description>\n
+    // Counts *all* elements, starting with the outermost EXIF element, as e.g.
+    // <exif:ISOSpeedRatings> consists of further (rdf) elements
     let mut skip_depth   = 0u32;
     let mut skip_next_nl = false;
 
+    // Needed to make sure that the data is complete
+    let mut depth = 0u32;
+
     loop 
     {
-        // Read in the event
-        let read_event = reader.read_event_into(&mut read_buffer);
+        // Read in the event & determine what part of the data belongs to it
+        let start = reader.buffer_position() as usize;
+        let event = reader.read_event()?;
+        let end   = reader.buffer_position() as usize;
+        let raw   = &data[start..end];
+
+        let skip_this_nl = std::mem::take(&mut skip_next_nl);
 
-        match read_event
+        match event
         {
-            Ok(Event::Start(ref event)) => {
-                let event_name = String::from_utf8(event.name().0.to_vec())?;
+            Event::Start(ref event) => {
+                depth += 1;
 
-                if event_name.starts_with("exif:")
+                if skip_depth > 0 || event.name().0.starts_with(b"exif:")
                 {
                     skip_depth += 1;
                 }
-                else if skip_depth == 0
+                else
                 {
-                    writer.write_event(Event::Start(get_exif_filtered_event(event)?))?;
+                    push_exif_filtered_tag(&mut clean_data, raw)?;
                 }
             }
 
-            Ok(Event::Empty(ref event)) => {
-                let event_name = String::from_utf8(event.name().0.to_vec())?;
-
-                if event_name.starts_with("exif:")
+            Event::Empty(ref event) => {
+                if skip_depth == 0 && !event.name().0.starts_with(b"exif:")
                 {
-                    // do nothing
-                }
-                else if skip_depth == 0
-                {
-                    writer.write_event(Event::Empty(get_exif_filtered_event(event)?))?;
+                    push_exif_filtered_tag(&mut clean_data, raw)?;
                 }
             }
 
-            Ok(Event::End(ref event)) => {
+            Event::End(_) => {
+                depth -= 1;
+
                 if skip_depth > 0 
                 {
                     skip_depth  -= 1;
-                    skip_next_nl = true;
+                    skip_next_nl = skip_depth == 0;
                 } 
                 else 
                 {
-                    writer.write_event(Event::End(event.clone()))?;
+                    clean_data.extend(raw);
                 }
             }
 
-            Ok(Event::Eof) => {
-                assert_eq!(skip_depth, 0);
+            Event::Eof => {
+                if depth != 0
+                {
+                    return Err("XMP data is incomplete".into());
+                }
                 break;
             }
 
-            Ok(Event::Text(ref event)) => {
-                let event_string = String::from_utf8(event.to_vec())?;
+            Event::Text(_) => {
+                // Was this just about starting a new line after an element 
+                // that has been removed?
+                let is_newline = true
+                    && raw.iter().all(|byte| byte.is_ascii_whitespace())
+                    && raw.iter().filter(|byte| **byte == b'\n').count() == 1;
 
-                let characters = event_string.chars()
-                    .filter(|c| *c == '\n' || !c.is_whitespace())
-                    .collect::<Vec<char>>();
-
-                if characters == vec!['\n'] && skip_next_nl
-                {
-                    skip_next_nl = false;
-                }
-                else if skip_depth == 0 
+                if skip_depth == 0 && !(is_newline && skip_this_nl)
                 {
-                    writer.write_event(Event::Text(event.clone()))?; 
+                    clean_data.extend(raw);
                 }
             }
 
-            Ok(other_event) => {
-                if skip_depth == 0 { writer.write_event(other_event)?; }
-            }
-
-            Err(error_message) => {
-                log::error!(
-                    "Error at position {}: {:?}", 
-                    reader.buffer_position(), 
-                    error_message
-                );
-                break;
+            _ => {
+                if skip_depth == 0 { clean_data.extend(raw); }
             }
         };
-
-        read_buffer.clear();
     }
 
-    return Ok(writer.into_inner().into_inner());
+    return Ok(clean_data);
 }
 
+/// Copies a start or empty tag (including the angle brackets) but leaves out
+/// all EXIF attributes and the whitespace in front of these
 fn
-get_exif_filtered_event<'a>
+push_exif_filtered_tag
 (
-    event: &'a BytesStart<'a>
+    clean_data: &mut Vec<u8>,
+    tag:        &[u8]
 )
--> Result<BytesStart<'a>, Box<dyn std::error::Error>>
+-> Result<(), Box<dyn std::error::Error>>
 {
-    let mut new_event = BytesStart::new(
-        std::str::from_utf8(event.name().0)?
-    );
-
-    new_event.extend_attributes(
-        event.attributes()
-            .filter_map(Result::ok)
-            .filter(|attribute| 
-                {
-                    if let Ok(key) = std::str::from_utf8(
-                        attribute.key.as_ref()
-                    ) 
-                    {
-                        !key.starts_with("exif:")
-                    } else {
-                        true
-                    }
-                }
-            ),
-    );
+    let is_end_of_name = |byte: &u8| byte.is_ascii_whitespace() || matches!(byte, b'=' | b'/' | b'>');
 
-    return Ok(new_event);
-}
\ No newline at end of file
+    // Copy the name of the element
+    let mut position = tag.iter().position(is_end_of_name).unwrap_or(tag.len());
+    clean_data.extend(&tag[..position]);
+
+    loop
+    {
+        // Skip whitespace in front of the attribute name
+        let start = position;
+        position += tag[position..].iter().take_while(|byte| byte.is_ascii_whitespace()).count();
+
+        // No more attributes?
+        if position == tag.len() || matches!(tag[position], b'/' | b'>')
+        {
+            clean_data.extend(&tag[start..]);
+            return Ok(());
+        }
+
+        // The name is followed by an equals sign (possibly surrounded by
+        // whitespace), which is followed by the quoted value
+        let name = position;
+        position += tag[position..].iter().take_while(|byte| !is_end_of_name(byte)).count();
+        position += tag[position..].iter().take_while(|byte| byte.is_ascii_whitespace()).count();
+
+        if position == name || tag.get(position) != Some(&b'=')
+        {
+            return Err("Malformed attribute in XMP data".into());
+        }
+
+        position += 1;
+        position += tag[position..].iter().take_while(|byte| byte.is_ascii_whitespace()).count();
+
+        let Some(quote @ (b'"' | b'\'')) = tag.get(position) else {
+            return Err("Attribute value in XMP data is not quoted".into());
+        };
+
+        let Some(value_length) = tag[position + 1..].iter().position(|byte| byte == quote) else {
+            return Err("Attribute value in XMP data is not terminated".into());
+        };
+
+        position += value_length + 2;
+
+        if !tag[name..].starts_with(b"exif:")
+        {
+            clean_data.extend(&tag[start..position]);
+        }
+    }
+}
-- 
2.43.0


From 06d82a305355e4566eadf7ee9d927e86775150d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 16/41] fix: use one WebP implementation for files and buffers
 and keep flag, size and canvas correct

---
 src/webp/file.rs | 709 +----------------------------------------------
 src/webp/mod.rs  |  22 +-
 src/webp/vec.rs  | 357 +++++++++---------------
 3 files changed, 162 insertions(+), 926 deletions(-)

diff --git a/src/webp/file.rs b/src/webp/file.rs
index 371c678..6aab7a8 100644
--- a/src/webp/file.rs
+++ b/src/webp/file.rs
@@ -1,258 +1,10 @@
 // Copyright © 2024-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::fs::File;
-use std::io::Read;
-use std::io::Write;
-use std::io::Seek;
-use std::io::SeekFrom;
 use std::path::Path;
 
-use crate::endian::*;
+use crate::general_file_io::overwrite_file;
 use crate::metadata::Metadata;
-use crate::u8conversion::*;
-use crate::general_file_io::*;
-use super::riff_chunk::RiffChunk;
-use super::riff_chunk::RiffChunkDescriptor;
-use super::*;
-
-/// A WebP file starts as follows
-/// - The RIFF signature: ASCII characters "R", "I", "F", "F"  -> 4 bytes
-/// - The file size starting at offset 8                       -> 4 bytes
-/// - The WEBP signature: ASCII characters "W", "E", "B", "P"  -> 4 bytes
-/// 
-/// This function checks these 3 sections and their correctness after making
-/// sure that the file actually exists and can be opened. 
-/// Finally, the file struct is returned for further processing
-fn
-check_signature
-(
-    path: &Path
-)
--> Result<File, std::io::Error>
-{
-    let mut file = open_write_file(path)?;
-
-    // Get the first 12 bytes that are required for the following checks
-    let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
-
-    if bytes_read != 12
-    {
-        return io_error!(InvalidData, "Can't open WebP file - Can't read & check signature!");
-    }
-
-    let first_12_bytes_vec = first_12_bytes.to_vec();
-    
-    // Perform checks
-    check_riff_signature(&first_12_bytes_vec             )?;
-    check_byte_count(    &first_12_bytes_vec, Some(&file))?;
-    check_webp_signature(&first_12_bytes_vec             )?;
-
-    // Signature is valid - can proceed using the file as WebP file
-    return Ok(file);
-}
-
-
-
-/// Gets the next RIFF chunk, starting at the current file cursor
-/// Advances the cursor to the start of the next chunk
-fn
-get_next_chunk
-<T: Seek + Read>
-(
-    file: &mut T
-)
--> Result<RiffChunk, std::io::Error>
-{
-    // Read the start of the chunk
-    let mut chunk_start = [0u8; 8];
-    let mut bytes_read = file.read(&mut chunk_start)?;
-
-    // Check that indeed 8 bytes were read
-    if bytes_read != 8
-    {
-        return io_error!(UnexpectedEof, "Could not read start of chunk");
-    }
-
-    // Construct name of chunk and its length
-    let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
-
-    // Account for the possible padding byte
-    chunk_length += chunk_length % 2;
-
-    // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = file.read(&mut chunk_data_buffer)?;
-    if bytes_read != chunk_length as usize
-    {
-        return io_error!(
-            Other, 
-            format!("Could not read RIFF chunk data! Expected {chunk_length} bytes but read {bytes_read}")
-        );
-    }
-
-    if let Ok(parsed_chunk_name) = chunk_name
-    {
-        return Ok(RiffChunk::new(
-            parsed_chunk_name as String, 
-            chunk_length      as usize,
-            chunk_data_buffer as Vec<u8>
-        ));
-    }
-    else
-    {
-        return io_error!(Other, "Could not parse RIFF fourCC chunk name!");
-    }
-}
-
-
-
-/// Gets a descriptor of the next RIFF chunk, starting at the current file
-/// cursor position. Advances the cursor to the start of the next chunk
-/// Relies on `get_next_chunk` by basically calling that function and throwing
-/// away the actual payload
-fn
-get_next_chunk_descriptor
-<T: Seek + Read>
-(
-    file: &mut T
-)
--> Result<RiffChunkDescriptor, std::io::Error>
-{
-    let next_chunk_result = get_next_chunk(file)?;
-    return Ok(next_chunk_result.descriptor());
-}
-
-
-
-/// "Parses" the WebP file by checking various properties:
-/// - Can the file be opened and is the signature valid, including the file size?
-/// - Are the chunks and their size descriptions OK? Relies on the local subroutine `get_next_chunk_descriptor`
-pub(crate) fn
-parse_webp
-(
-    path: &Path
-)
--> Result<Vec<RiffChunkDescriptor>, std::io::Error>
-{
-    let mut file   = check_signature(path)?;
-    let mut chunks = Vec::new();
-
-    // The amount of data we expect to read while parsing the chunks
-    let expected_length = file.metadata()?.len();
-
-    // How much data we have parsed so far.
-    // Starts with 12 bytes: 
-    // - 4 bytes for RIFF signature
-    // - 4 bytes for file size
-    // - 4 bytes for WEBP signature
-    // These bytes are already read in by the `check_signature` subroutine
-    let mut parsed_length = 12u64;
-
-    loop
-    {
-        let next_chunk_descriptor_result = get_next_chunk_descriptor(&mut file);
-        if let Ok(chunk_descriptor) = next_chunk_descriptor_result
-        {
-            // The parsed length increases by the length of the chunk's 
-            // header (4 byte) + it's size section (4 byte) and the payload
-            // size, which is noted by the aforementioned size section
-            parsed_length += 4u64 + 4u64 + chunk_descriptor.len() as u64;
-
-            // Add the chunk descriptor
-            chunks.push(chunk_descriptor);
-            
-            if parsed_length == expected_length
-            {
-                // In this case we don't expect any more data to be in the file
-                break;
-            }
-        }
-        else
-        {
-            // This is the case when the read of the next chunk descriptor 
-            // fails due to not being able to fetch 8 bytes for the header and
-            // chunk size information, indicating that there is no further data
-            // in the file and we are done with parsing.
-            // If the subroutine fails due to other reasons, the error gets
-            // propagated further.
-            if let Err(e) = next_chunk_descriptor_result
-            {
-                if e.kind() == std::io::ErrorKind::UnexpectedEof
-                {
-                    break;
-                }
-                else
-                {
-                    return Err(e);
-                }
-            }
-        }
-    }
-
-    return Ok(chunks);
-}
-
-
-
-fn
-check_exif_in_file
-(
-    path: &Path
-)
--> Result<(File, Vec<RiffChunkDescriptor>), std::io::Error>
-{
-    // Parse the WebP file - if this fails, we surely can't read any metadata
-    let parsed_webp_result = parse_webp(path)?;
-
-    // Next, check if this is an Extended File Format WebP file
-    // In this case, the first Chunk SHOULD have the type "VP8X"
-    // Otherwise, the file is either invalid ("VP8X" at wrong location) or a 
-    // Simple File Format WebP file which don't contain any EXIF metadata.
-    if let Some(first_chunk) = parsed_webp_result.first()
-    {
-        // Compare the chunk descriptor header.
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
-        {
-            return io_error!(
-                Other, 
-                format!("Expected first chunk of WebP file to be of type 'VP8X' but instead got {}!", first_chunk.header())
-            );
-        }
-    }
-    else
-    {
-        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
-    }
-
-    // Finally, check the flag by opening up the file and reading the data of
-    // the VP8X chunk
-    // Regarding the seek:
-    // - RIFF + file size + WEBP -> 12 byte
-    // - VP8X header             ->  4 byte
-    // - VP8X chunk size         ->  4 byte
-    let mut file = check_signature(path)?;
-    let mut flag_buffer = vec![0u8; 4usize];
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
-    {
-        return io_error!(Other, "Could not read flags of VP8X chunk!");
-    }
-
-    // Check the 5th bit of the 32 bit flag_buffer. 
-    // For further details see the Extended File Format section at
-    // https://developers.google.com/speed/webp/docs/riff_container#extended_file_format
-    if flag_buffer[0] & 0x08 != 0x08
-    {
-        return io_error!(Other, "No EXIF chunk according to VP8X flags!");
-    }
-
-    return Ok((file, parsed_webp_result));
-}
-
-
 
 /// Reads the raw EXIF data from the WebP file. Note that if the file contains
 /// multiple such chunks, the first one is returned and the others get ignored.
@@ -263,298 +15,12 @@ read_metadata
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut file, parse_webp_result) = check_exif_in_file(path)?;
-
-    // At this point we have established that the file has to contain an EXIF
-    // chunk at some point. So, now we need to find & return it
-    // Start by seeking to the start of the first chunk and visiting chunk after
-    // chunk via checking the type and seeking again to the next chunk via the
-    // size information
-    file.seek(SeekFrom::Start(12u64))?;
-    let mut header_buffer = vec![0u8; 4usize];
-    let mut chunk_index = 0usize;
-    loop
-    {
-        // Read the chunk type into the buffer
-        if file.read(&mut header_buffer)? != 4
-        {
-            return io_error!(Other, "Could not read chunk type while traversing WebP file!");
-        }
-        let chunk_type = String::from_u8_vec(&header_buffer.to_vec(), &Endian::Little);
-
-        // Check that this is still the type that we expect from the previous
-        // parsing over the file
-        // TODO: Maybe remove this part?
-        let Some(chunk_at_index) = parse_webp_result.get(chunk_index) else
-        {
-            return io_error!(
-                Other, 
-                format!("Could not get chunk descriptor at index {} while traversing WebP file!", chunk_index)
-            );
-        }; 
-
-        let expected_chunk_type = chunk_at_index.header();
-        if chunk_type != expected_chunk_type
-        {
-            return io_error!(
-                Other, 
-                format!("Got unexpected chunk type! Expected {} but got {}", 
-                    expected_chunk_type, 
-                    chunk_type
-                )
-            );
-        }
-
-        // Get the size of this chunk from the previous parsing process and skip
-        // the 4 bytes regarding the size
-        let chunk_size = chunk_at_index.len();
-        file.seek(std::io::SeekFrom::Current(4))?;
-
-        if chunk_type.to_lowercase() == EXIF_CHUNK_HEADER.to_lowercase()
-        {
-            // Read the EXIF chunk's data into a buffer
-            let mut payload_buffer = vec![0u8; chunk_size];
-            let     bytes_read     = file.read(&mut payload_buffer)?;
-
-            if bytes_read != chunk_size
-            {
-                return io_error!(
-                    Other, 
-                    format!("Could not read entire EXIF chunk data! Expected {chunk_size} bytes but read {bytes_read}")
-                );
-            }
-
-            // Add the 6 bytes of the EXIF_HEADER as Prefix for the generic EXIF
-            // data parser that is called on the result of this read function
-            // Otherwise the result would directly start with the Endianness
-            // information, leading to a failed EXIF header signature check in 
-            // the function `decode_metadata_general`
-            let mut raw_exif_data = EXIF_HEADER.to_vec();
-            raw_exif_data.append(&mut payload_buffer);
-
-            return Ok(raw_exif_data);
-        }
-        else
-        {
-            // Skip the entire chunk
-            file.seek(std::io::SeekFrom::Current(chunk_size as i64))?;
-
-            // Note that we have to seek another byte in case the chunk is of 
-            // uneven size to account for the padding byte that must be included
-            file.seek(std::io::SeekFrom::Current(chunk_size as i64 % 2))?;
-        }
-
-        // Update for next loop iteration
-        chunk_index += 1;
-    }
-}
-
-
-
-fn
-update_file_size_information
-(
-    file:  &mut File,
-    delta: i32
-)
--> Result<(), std::io::Error>
-{
-    // Note from the documentation:
-    // As the size of any chunk is even, the size given by the RIFF header is also even.
-
-    // Update the file size information, first by reading in the current value...
-    file.seek(SeekFrom::Start(4))?;
-    let mut file_size_buffer = [0u8; 4];
-
-    // ...converting it to u32 representation...
-    let bytes_read = file.read(&mut file_size_buffer)?;
-
-    if bytes_read != 4
-    {
-        return io_error!(Other, "Could not read file size information from WebP file!");
-    }
-
-    let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
-
-    // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
-    {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
-
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
-
-    // ...and writing back to file...
-    file.seek(SeekFrom::Start(4))?;
-    file.write_all(&to_u8_vec_macro!(u32, &new_file_size, &Endian::Little))?;
-
-    Ok(())
-}
-
-
-
-fn
-convert_to_extended_format
-(
-    file: &mut File
-)
--> Result<(), std::io::Error>
-{
-    // Start by getting the first chunk of the WebP file
-    file.seek(SeekFrom::Start(12))?;
-    let first_chunk = get_next_chunk(file)?;
-
-    // Find out what simple type of WebP file we are dealing with
-    let (width, height) = match first_chunk.descriptor().header().as_str()
-    {
-        "VP8 " 
-            => get_dimension_info_from_vp8_chunk(first_chunk.payload()),
-        "VP8L"
-            => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
-        _ 
-            => io_error!(Other, "Expected either 'VP8 ' or 'VP8L' chunk for conversion!")
-    }?;
-
-    let width_vec  = to_u8_vec_macro!(u32, &width,  &Endian::Little);
-    let height_vec = to_u8_vec_macro!(u32, &height, &Endian::Little);
-
-    let mut vp8x_chunk = vec![
-        0x56, 0x50, 0x38, 0x58, // ASCII chars "V", "P", "8", "X"                  -> 4 byte
-        0x0A, 0x00, 0x00, 0x00, // size of this chunk (32 + 24 + 24 bit = 10 byte) -> 4 byte
-        0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
-    ];
-
-    // Add the two 24 bits for width and height information
-    for byte in  width_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-    for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
-
-    // Write the VP8X chunk, first by reading the file (except for the header)
-    // into a buffer...
-    let mut buffer = Vec::new();
-    file.seek(SeekFrom::Start(12u64))?;
-    file.read_to_end(&mut buffer)?;
-
-    // ...actually writing the VP8X chunk data...
-    file.seek(SeekFrom::Start(12u64))?;
-    if file.write(&vp8x_chunk)? != vp8x_chunk.len()
-    {
-        return io_error!(Other, "Could not write entire VP8X chunk data!");
-    }
-
-    // ...and writing back the file contents
-    if file.write(&buffer)? != buffer.len()
-    {
-        return io_error!(Other, "Could not write back entire WebP file data!");
-    }
-
-    // Finally, update the file size information
-    update_file_size_information(file, 18)?;
-
-    Ok(())
-}
-
-
-
-fn
-get_dimension_info_from_vp8l_chunk
-(
-    payload: &[u8],
-)
--> Result<(u32, u32), std::io::Error>
-{
-    // Get the 4 bytes containing the dimension information
-    // (although we only need 28 bits)
-    // Starting at byte 1 instead of 0 due to the 0x2F byte
-    // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
-    
-    // Convert to a single u32 number for bit-mask operations
-    let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
-    
-    let mut width  = 0;
-    let mut height = 0;
-
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    return Ok((width, height));
-}
-
-
-
-fn
-set_exif_flag
-(
-    path:  &Path,
-    exif_flag_value: bool
-)
--> Result<(), std::io::Error>
-{
-    // Parse the WebP file - if this fails, we surely can't read any metadata
-    let parsed_webp_result = parse_webp(path)?;
-
-    // Open the file for further processing
-    let mut file = check_signature(path)?;
-
-    // Next, check if this is an Extended File Format WebP file
-    // In this case, the first Chunk SHOULD have the type "VP8X"
-    // Otherwise we have to create the VP8X chunk!
-    if let Some(first_chunk) = parsed_webp_result.first()
-    {
-        // Compare the chunk descriptor header and call chunk creator if required
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
-        {
-            convert_to_extended_format(&mut file)?;
-        }
-    }
-    else
-    {
-        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
-    }	
-
-    // At this point we know that we have a VP8X chunk at the expected location
-    // So, read in the flags and set the EXIF flag according to the given bool
-    let mut flag_buffer = vec![0u8; 4usize];
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    if file.read(&mut flag_buffer)? != 4
-    {
-        return io_error!(Other, "Could not read flags of VP8X chunk!");
-    }
-
-    // Mask the old flag by either or-ing with 1 at the EXIF flag position for
-    // setting it to true, or and-ing with 1 everywhere but the EXIF flag pos
-    // to set it to false
-    flag_buffer[0] = if exif_flag_value
-    {
-        flag_buffer[0] | 0x08
-    }
-    else
-    {
-        flag_buffer[0] & 0b11110111
-    };
-
-    // Write flag buffer back to the file
-    file.seek(SeekFrom::Start(12u64 + 4u64 + 4u64))?;
-    file.write_all(&flag_buffer)?;
-
-    Ok(())
+    return super::vec::read_metadata(&std::fs::read(path)?);
 }
 
 
 
+/// Removes all EXIF metadata from the WebP file at the specified path.
 pub(crate) fn
 clear_metadata
 (
@@ -562,86 +28,12 @@ clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut file, parse_webp_result) = match check_exif_in_file(path) 
-    {
-        Ok((file, parse_webp_result)) => (file, parse_webp_result),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
-    };
-
-    // Compute a delta of how much the file size information has to change
-    let mut delta = 0i32;
-
-    // Skip the WEBP signature
-    file.seek(std::io::SeekFrom::Current(4i64))?;
-
-    for parsed_chunk in parse_webp_result
-    {
-        // At the start of each iteration, the file cursor is at the start of
-        // the fourCC section of a chunk
-
-        // Compute how many bytes this chunk has
-        let parsed_chunk_byte_count = 
-            4u64                            // fourCC section of EXIF chunk
-            + 4u64                          // size information of EXIF chunk
-            + parsed_chunk.len() as u64     // actual size of EXIF chunk data
-            + parsed_chunk.len() as u64 % 2 // accounting for possible padding byte
-        ;
-
-        // Not an EXIF chunk, seek to next one and continue
-        if parsed_chunk.header().to_lowercase() != EXIF_CHUNK_HEADER.to_lowercase()
-        {
-            file.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-            continue;
-        }
-
-        // Get the current size of the file in bytes
-        let old_file_byte_count = file.metadata()?.len();
+    // Load the entire file into memory & clear the metadata there
+    let mut file_buffer: Vec<u8> = std::fs::read(path)?;
+    super::vec::clear_metadata(&mut file_buffer)?;
 
-        // Get a backup of the current cursor position
-        let exif_chunk_start_cursor_position = SeekFrom::Start(file.stream_position()?);
-
-        // Skip the EXIF chunk ...
-        file.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-
-        // ...and copy everything afterwards into a buffer...
-        let mut buffer = Vec::new();
-        file.read_to_end(&mut buffer)?;
-
-        // ...and seek back to where the EXIF chunk is located...
-        file.seek(exif_chunk_start_cursor_position)?;
-
-        // ...and overwrite the EXIF chunk...
-        file.write_all(&buffer)?;
-
-        // ...and finally update the size of the file
-        file.set_len(old_file_byte_count - parsed_chunk_byte_count)?;
-
-        // Additionally, update the size information that gets written to the 
-        // file header after this loop
-        delta -= parsed_chunk_byte_count as i32;
-    }
-
-    // Update file size information
-    update_file_size_information(&mut file, delta)?;
-    
-    // Set the flags in the VP8X chunk. First, read in the current flags
-    set_exif_flag(path, false)?;
-
-    return Ok(());
+    // Write the file
+    return overwrite_file(path, &file_buffer);
 }
 
 
@@ -658,91 +50,16 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Clear the metadata from the file and return if this results in an error
-    clear_metadata(path)?;
-
-    // Encode the general metadata format to WebP specifications
-    let encoded_metadata = encode_metadata_webp(&metadata.encode()?);
-
-    // Open the file...
-    let mut file = check_signature(path)?;
-
-    // ...and find a location where to put the EXIF chunk
-    // This is done by requesting a chunk descriptor as long as we find a chunk
-    // that is both known and should be located *before* the EXIF chunk
-    let pre_exif_chunks = [
-        "VP8X",
-        "VP8",
-        "VP8L",
-        "ICCP",
-        "ANIM"
-    ];
-
-    loop
-    {
-        // Request a chunk descriptor. If this fails, check the error 
-        // Depending on its type, either continue normally or return it
-        let chunk_descriptor_result = get_next_chunk_descriptor(&mut file);
+    // Load the entire file into memory & write the metadata there
+    let mut file_buffer: Vec<u8> = std::fs::read(path)?;
+    super::vec::write_metadata(&mut file_buffer, metadata)?;
 
-        match chunk_descriptor_result
-        {
-            Ok(chunk_descriptor) => {
-                let mut chunk_type_found_in_pre_exif_chunks = false;
-
-                // Check header of chunk descriptor against any of the known chunks
-                // that should come before the EXIF chunk
-                for pre_exif_chunk in &pre_exif_chunks
-                {
-                    chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
-                }
-
-                if !chunk_type_found_in_pre_exif_chunks
-                {
-                    break;
-                }
-            },
-            Err(e) => {
-                match e.kind()
-                {
-                    std::io::ErrorKind::UnexpectedEof
-                        => break, // No further chunks, place EXIF chunk here
-                    _
-                        => return Err(e)
-                }
-            }
-        }
-    }
-
-    // Next, read remaining file into a buffer...
-    let current_file_cursor = SeekFrom::Start(file.stream_position()?);
-    let mut read_buffer = Vec::new();
-    file.read_to_end(&mut read_buffer)?;
-
-    // ...and write the EXIF chunk at the previously found location...
-    file.seek(current_file_cursor)?;
-    file.write_all(&encoded_metadata)?;
-
-    // ...and writing back the remaining file content
-    file.write_all(&read_buffer)?;
-
-    // Update the file size information by adding the byte count of the EXIF chunk
-    // (Note: Due to  the WebP specific encoding function, this vector already
-    // contains the EXIF header characters and size information, as well as the
-    // possible padding byte. Therefore, simply taking the length of this
-    // vector takes their byte count also into account and no further values
-    // need to be added)
-    update_file_size_information(&mut file, encoded_metadata.len() as i32)?;
-
-    // Finally, set the EXIF flag
-    set_exif_flag(path, true)?;
-
-    return Ok(());
+    // Write the file
+    return overwrite_file(path, &file_buffer);
 }
 
 
 
-
-
 #[cfg(test)]
 mod tests 
 {
diff --git a/src/webp/mod.rs b/src/webp/mod.rs
index 287a269..35d418a 100644
--- a/src/webp/mod.rs
+++ b/src/webp/mod.rs
@@ -11,8 +11,6 @@ pub(crate) const WEBP_SIGNATURE:       [u8; 4] = [0x57, 0x45, 0x42, 0x50];
 pub(crate) const VP8X_HEADER:          &str    = "VP8X";
 pub(crate) const EXIF_CHUNK_HEADER:    &str    = "EXIF";
 
-use std::fs::File;
-
 use crate::endian::Endian;
 use crate::general_file_io::io_error;
 use crate::io_error_plain;
@@ -71,7 +69,6 @@ fn
 check_byte_count
 (
     file_buffer: &[u8],
-    opt_file:     Option<&File>,
 )
 -> Result<(), std::io::Error>
 {
@@ -83,14 +80,7 @@ check_byte_count
         io_error_plain!(InvalidData, "Can't open WebP file - Byte count in RIFF header is too large!")
     )?;
 
-    if let Some(file) = opt_file
-    {
-        if file.metadata()?.len() != byte_count as u64
-        {
-            return io_error!(InvalidData, "Can't open WebP file - Promised byte count does not correspond with file size!");
-        }
-    }
-    else if file_buffer.len() != byte_count as usize
+    if file_buffer.len() != byte_count as usize
     {
         return io_error!(InvalidData, format!("Can't handle WebP file buffer - Promised byte count {} does not correspond with file buffer length {}!", byte_count, file_buffer.len()));
     }
@@ -155,6 +145,11 @@ get_dimension_info_from_vp8_chunk
     // VP8 Data Format https://datatracker.ietf.org/doc/html/rfc6386#section-9.1
     // Parsing function function vp8_parse_frame_header: https://datatracker.ietf.org/doc/html/rfc6386#section-20.4
 
+    if payload.len() < 10
+    {
+        return io_error!(InvalidData, "VP8 chunk is too small!");
+    }
+
     let header_magic = payload[3..=5].to_vec();
     if 
         header_magic.len() != 3 || 
@@ -174,5 +169,10 @@ get_dimension_info_from_vp8_chunk
     let width  = width_info  & bitmask_14;
     let height = height_info & bitmask_14;
 
+    if width == 0 || height == 0
+    {
+        return io_error!(InvalidData, "VP8 image has no dimensions!");
+    }
+
     return Ok((width as u32 -1, height as u32 -1));
 }
\ No newline at end of file
diff --git a/src/webp/vec.rs b/src/webp/vec.rs
index 129bcf9..da120e9 100644
--- a/src/webp/vec.rs
+++ b/src/webp/vec.rs
@@ -4,12 +4,10 @@
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
-use std::io::Write;
 
 use crate::general_file_io::EXIF_HEADER;
 use crate::metadata::Metadata;
 use crate::util::insert_multiple_at;
-use crate::util::range_remove;
 
 use super::riff_chunk::RiffChunk;
 use super::riff_chunk::RiffChunkDescriptor;
@@ -33,9 +31,9 @@ check_signature
         return io_error!(InvalidData, "Can't open WebP file - File too small to contain required signatures!");
     }
 
-    check_riff_signature(file_buffer      )?;
-    check_byte_count(    file_buffer, None)?;
-    check_webp_signature(file_buffer      )?;
+    check_riff_signature(file_buffer)?;
+    check_byte_count(    file_buffer)?;
+    check_webp_signature(file_buffer)?;
 
     let mut cursor = Cursor::new(file_buffer);
     cursor.set_position(12);
@@ -57,7 +55,7 @@ get_next_chunk
     // Read the start of the chunk
     let mut chunk_start = [0u8; 8];
 
-    let mut bytes_read = cursor.read(&mut chunk_start)?;
+    let bytes_read = cursor.read(&mut chunk_start)?;
 
     // Check that indeed 8 bytes were read
     if bytes_read != 8
@@ -67,14 +65,16 @@ get_next_chunk
 
     // Construct name of chunk and its length
     let chunk_name = String::from_utf8(chunk_start[0..4].to_vec());
-    let mut chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
+    let chunk_length = from_u8_vec_res_macro!(u32, &chunk_start[4..8], &Endian::Little)?;
 
     // Account for the possible padding byte
-    chunk_length += chunk_length % 2;
+    let Some(chunk_length) = chunk_length.checked_add(chunk_length % 2) else {
+        return io_error!(InvalidData, "RIFF chunk is too large!");
+    };
 
-    // Read RIFF chunk data
-    let mut chunk_data_buffer = vec![0u8; chunk_length as usize];
-    bytes_read = cursor.read(&mut chunk_data_buffer)?;
+    // Read RIFF chunk data (but do not allocate a possibly wrong length)
+    let mut chunk_data_buffer = Vec::new();
+    let     bytes_read        = cursor.take(chunk_length as u64).read_to_end(&mut chunk_data_buffer)?;
     if bytes_read != chunk_length as usize
     {
         return io_error!(
@@ -204,7 +204,7 @@ check_exif_in_file
     if let Some(first_chunk) = parsed_webp_result.first()
     {
         // Compare the chunk descriptor header.
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
+        if first_chunk.header() != VP8X_HEADER
         {
             return io_error!(
                 Other, 
@@ -299,7 +299,7 @@ read_metadata
         let chunk_size = chunk_at_index.len();
         cursor.seek(std::io::SeekFrom::Current(4))?;
 
-        if chunk_type.to_lowercase() == EXIF_CHUNK_HEADER.to_lowercase()
+        if chunk_type == EXIF_CHUNK_HEADER
         {
             // Read the EXIF chunk's data into a buffer
             let mut payload_buffer = vec![0u8; chunk_size];
@@ -318,6 +318,12 @@ read_metadata
             // Otherwise the result would directly start with the Endianness
             // information, leading to a failed EXIF header signature check in 
             // the function `decode_metadata_general`
+            // (Some writers already store that prefix in the EXIF chunk)
+            if payload_buffer.starts_with(&EXIF_HEADER)
+            {
+                return Ok(payload_buffer);
+            }
+
             let mut raw_exif_data = EXIF_HEADER.to_vec();
             raw_exif_data.append(&mut payload_buffer);
 
@@ -343,33 +349,16 @@ read_metadata
 fn
 update_file_size_information
 (
-    cursor: &mut Cursor<&mut Vec<u8>>,
-    delta:  i32
+    file_buffer: &mut Vec<u8>
 )
 -> Result<(), std::io::Error>
 {
-    // Note from the documentation:
-    // As the size of any chunk is even, the size given by the RIFF header is also even.
-
-    // Update the file size information, first by reading in the current value...
-    let file_size_buffer = cursor.get_ref()[4..8].to_vec();
-
-    // ...converting it to u32 representation...
-    let old_file_size = from_u8_vec_res_macro!(u32, &file_size_buffer, &Endian::Little)?;
-
-    // ...adding the delta byte count (and performing some checks)...
-    if delta < 0
-    {
-        assert!(old_file_size as i32 > delta);
-    }
-    let new_file_size = (old_file_size as i32 + delta) as u32;
-
-    assert!(old_file_size % 2 == 0);
-    assert!(new_file_size % 2 == 0);
+    // The size does not include the RIFF signature and the size itself
+    let Ok(file_size) = u32::try_from(file_buffer.len() - 8) else {
+        return io_error!(InvalidInput, "WebP file gets too large!");
+    };
 
-    // ...and writing back to file...
-    cursor.set_position(4);
-    cursor.write_all(&to_u8_vec_macro!(u32, &new_file_size, &Endian::Little))?;
+    file_buffer[4..8].copy_from_slice(&to_u8_vec_macro!(u32, &file_size, &Endian::Little));
 
     Ok(())
 }
@@ -379,25 +368,18 @@ update_file_size_information
 fn
 convert_to_extended_format
 (
-    cursor: &mut Cursor<&mut Vec<u8>>
+    file_buffer: &mut Vec<u8>
 )
 -> Result<(), std::io::Error>
 {
     // Start by getting the first chunk of the WebP file
-
-    // Clippy is a bit stupid here, the as_ref is required as otherwise the 
-    // read_cursor provided to get_next_chunk is of a mutable container.
-    // This happens again in the function write_metadata further down.
-    #[allow(clippy::useless_asref)]
-    let mut read_cursor = Cursor::new(cursor.get_ref().as_ref());
-    read_cursor.set_position(12);
-    let first_chunk = get_next_chunk(&mut read_cursor)?;
+    let first_chunk = get_next_chunk(&mut check_signature(file_buffer)?)?;
 
     // Find out what simple type of WebP file we are dealing with
-    let (width, height) = match first_chunk.descriptor().header().as_str()
+    let (width, height, has_alpha) = match first_chunk.descriptor().header().as_str()
     {
         "VP8 "
-            => {log::debug!("VP8 !"); io_error!(Other, "Conversion from Simple File Format with 'VP8' chunk to Extended File Format not yet implemented!") },
+            => get_dimension_info_from_vp8_chunk(first_chunk.payload()).map(|(width, height)| (width, height, false)),
         "VP8L"
             => get_dimension_info_from_vp8l_chunk(first_chunk.payload()),
         _ 
@@ -406,11 +388,12 @@ convert_to_extended_format
 
     let width_vec  = to_u8_vec_macro!(u32, &width,  &Endian::Little);
     let height_vec = to_u8_vec_macro!(u32, &height, &Endian::Little);
+    let flags      = if has_alpha { 0x10 } else { 0x00 };
 
     let mut vp8x_chunk = vec![
         0x56, 0x50, 0x38, 0x58, // ASCII chars "V", "P", "8", "X"                  -> 4 byte
         0x0A, 0x00, 0x00, 0x00, // size of this chunk (32 + 24 + 24 bit = 10 byte) -> 4 byte
-        0x00, 0x00, 0x00, 0x00, // Flags and reserved area                         -> 4 byte
+        flags, 0x00, 0x00, 0x00, // Flags and reserved area                        -> 4 byte
     ];
 
     // Add the two 24 bits for width and height information
@@ -418,168 +401,123 @@ convert_to_extended_format
     for byte in height_vec.iter().take(3) { vp8x_chunk.push(*byte); }
 
     // Write the VP8X chunk
-    insert_multiple_at(cursor.get_mut(), 12, &mut vp8x_chunk);
+    insert_multiple_at(file_buffer, 12, &mut vp8x_chunk);
 
     // Finally, update the file size information
-    update_file_size_information(cursor, 18)?;
-
-    Ok(())
+    return update_file_size_information(file_buffer);
 }
 
 
 
+/// Provides width - 1 and height - 1 and if the alpha channel is used
 fn
 get_dimension_info_from_vp8l_chunk
 (
     payload: &[u8],
 )
--> Result<(u32, u32), std::io::Error>
+-> Result<(u32, u32, bool), std::io::Error>
 {
     // Get the 4 bytes containing the dimension information
-    // (although we only need 28 bits)
     // Starting at byte 1 instead of 0 due to the 0x2F byte
     // See: https://developers.google.com/speed/webp/docs/webp_lossless_bitstream_specification#3_riff_header
-    let width_height_info_buffer = payload[1..5].to_vec();
+    let Some(width_height_info_buffer) = payload.get(1..5) else {
+        return io_error!(InvalidData, "VP8L chunk is too small!");
+    };
     
     // Convert to a single u32 number for bit-mask operations
-    let width_height_info = from_u8_vec_res_macro!(u32, &width_height_info_buffer, &Endian::Little)?;
-    
-    let mut width  = 0;
-    let mut height = 0;
+    let width_height_info = from_u8_vec_res_macro!(u32, width_height_info_buffer, &Endian::Little)?;
 
-    // Get the first 14 bit to construct the width
-    for bit_index in 0..14
-    {
-        width  |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
-
-    // Get the next 14 bit to construct the height
-    for bit_index in 14..28
-    {
-        height |= ((width_height_info >> (27 - bit_index)) & 0x01) << (13 - (bit_index % 14));
-    }
+    // Bits are stored least significant first: 14 for the width, 14 for the 
+    // height, one for the alpha channel and 3 for the version
+    let bitmask_14 = (1 << 14) - 1;
+    let width      = width_height_info         & bitmask_14;
+    let height     = (width_height_info >> 14) & bitmask_14;
+    let has_alpha  = (width_height_info >> 28) & 0x01 == 0x01;
 
-    return Ok((width, height));
+    return Ok((width, height, has_alpha));
 }
 
 
 
-fn
-set_exif_flag
+pub(crate) fn
+clear_metadata
 (
-    cursor: &mut Cursor<&mut Vec<u8>>,
-    exif_flag_value: bool
+    file_buffer: &mut Vec<u8>
 )
 -> Result<(), std::io::Error>
 {
-    // Parse the WebP file - if this fails, we surely can't read any metadata
-    let parsed_webp_result = parse_webp(cursor.get_ref())?;
+    // Check the file signature & parse it
+    let parse_webp_result = parse_webp(file_buffer)?;
 
-    // Next, check if this is an Extended File Format WebP file
-    // In this case, the first Chunk SHOULD have the type "VP8X"
-    // Otherwise we have to create the VP8X chunk!
-    if let Some(first_chunk) = parsed_webp_result.first()
+    let Some(first_chunk) = parse_webp_result.first() else {
+        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
+    };
+
+    // Copy the RIFF header and all chunks that are not EXIF chunks (no matter
+    // if the flag is set in the VP8X chunk)
+    let mut position        = 12;
+    let mut new_file_buffer = file_buffer[..position].to_vec();
+
+    for parsed_chunk in &parse_webp_result
     {
-        // Compare the chunk descriptor header and call chunk creator if required
-        if first_chunk.header().to_lowercase() != VP8X_HEADER.to_lowercase()
+        let chunk_start = position;
+        let chunk_end   = chunk_start
+            + 4                  // fourCC section of the chunk
+            + 4                  // size information of the chunk
+            + parsed_chunk.len() // actual size, already accounts for the padding byte
+        ;
+
+        if parsed_chunk.header() != EXIF_CHUNK_HEADER
         {
-            convert_to_extended_format(cursor)?;
+            new_file_buffer.extend(&file_buffer[chunk_start..chunk_end]);
         }
+
+        position = chunk_end;
     }
-    else
-    {
-        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
-    }	
 
-    // At this point we know that we have a VP8X chunk at the expected location
-    // Mask the old flag by either or-ing with 1 at the EXIF flag position for
-    // setting it to true, or and-ing with 1 everywhere but the EXIF flag pos
-    // to set it to false
-    cursor.get_mut()[20] = if exif_flag_value
+    new_file_buffer.extend(&file_buffer[position..]);
+
+    // Update file size information
+    update_file_size_information(&mut new_file_buffer)?;
+
+    // Set the flag in the VP8X chunk
+    if first_chunk.header() == VP8X_HEADER
     {
-        cursor.get_ref()[20] | 0x08
+        set_exif_flag(&mut new_file_buffer, false)?;
     }
-    else
-    {
-        cursor.get_ref()[20] & 0b11110111
-    };
 
-    Ok(())
+    *file_buffer = new_file_buffer;
+
+    return Ok(());
 }
 
 
 
-pub(crate) fn
-clear_metadata
+/// Sets the EXIF flag in the VP8X chunk, which has to be the first one
+fn
+set_exif_flag
 (
-    file_buffer: &mut Vec<u8>
+    file_buffer:     &mut Vec<u8>,
+    exif_flag_value: bool
 )
 -> Result<(), std::io::Error>
 {
-    // Check the file signature, parse it, check that it has a VP8X chunk and
-    // the EXIF flag is set there
-    let (mut cursor, parse_webp_result) = match check_exif_in_file(file_buffer) 
+    if get_next_chunk_descriptor(&mut check_signature(file_buffer)?)?.len() < 10
     {
-        Ok((_file, parse_webp_result)) => (
-            Cursor::new(file_buffer), 
-            parse_webp_result
-        ),
-        Err(e) => {
-            match e.to_string().as_str()
-            {
-                "No EXIF chunk according to VP8X flags!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8L!"
-                    => return Ok(()),
-                "Expected first chunk of WebP file to be of type 'VP8X' but instead got VP8 !"
-                    => return Ok(()),
-                _
-                    => return Err(e)
-            }
-        }
-    };
-
-    // Compute a delta of how much the file size information has to change
-    let mut delta = 0i32;
-
-    // Skip the WEBP signature
-    cursor.set_position(4);
+        return io_error!(InvalidData, "VP8X chunk is too small!");
+    }
 
-    for parsed_chunk in parse_webp_result
+    // Mask the old flag by either or-ing with 1 at the EXIF flag position for
+    // setting it to true, or and-ing with 1 everywhere but the EXIF flag pos
+    // to set it to false
+    if exif_flag_value
     {
-        // At the start of each iteration, the file cursor is at the start of
-        // the fourCC section of a chunk
-
-        // Compute how many bytes this chunk has
-        let parsed_chunk_byte_count = 
-            4u64                            // fourCC section of EXIF chunk
-            + 4u64                          // size information of EXIF chunk
-            + parsed_chunk.len() as u64     // actual size of EXIF chunk data
-            + parsed_chunk.len() as u64 % 2 // accounting for possible padding byte
-        ;
-
-        // Not an EXIF chunk, seek to next one and continue
-        if parsed_chunk.header().to_lowercase() != EXIF_CHUNK_HEADER.to_lowercase()
-        {
-            cursor.seek(std::io::SeekFrom::Current(parsed_chunk_byte_count as i64))?;
-            continue;
-        }
-
-        // Remove the range containing the EXIF chunk
-        let remove_start = cursor.position() as usize;
-        let remove_end   = remove_start + parsed_chunk_byte_count as usize;
-        range_remove(cursor.get_mut(), remove_start, remove_end);
-
-        // Additionally, update the size information that gets written to the 
-        // file header after this loop
-        delta -= parsed_chunk_byte_count as i32;
+        file_buffer[20] |= 0x08;
+    }
+    else
+    {
+        file_buffer[20] &= 0b11110111;
     }
-
-    // Update file size information
-    update_file_size_information(&mut cursor, delta)?;
-    
-    // Set the flags in the VP8X chunk. First, read in the current flags
-    set_exif_flag(&mut cursor, false)?;
 
     return Ok(());
 }
@@ -598,82 +536,63 @@ write_metadata
 )
 -> Result<(), std::io::Error>
 {
-    // Clear the metadata from the file and return if this results in an error
-    clear_metadata(file_buffer)?;
-
     // Encode the general metadata format to WebP specifications
     let mut encoded_metadata = encode_metadata_webp(&metadata.encode()?);
-    let encoded_metadata_len = encoded_metadata.len() as i32;
 
-    // Find a location where to put the EXIF chunk
-    // This is done by requesting a chunk descriptor as long as we find a chunk
-    // that is both known and should be located *before* the EXIF chunk
+    // Everything happens on a copy so that nothing is changed in case of an error
+    let mut new_file_buffer = file_buffer.clone();
+
+    // Clear the metadata from the file and return if this results in an error
+    clear_metadata(&mut new_file_buffer)?;
+
+    // Next, check if this is an Extended File Format WebP file
+    // In this case, the first Chunk SHOULD have the type "VP8X"
+    // Otherwise we have to create the VP8X chunk!
+    let Some(first_chunk) = parse_webp(&new_file_buffer)?.into_iter().next() else {
+        return io_error!(Other, "Could not read first chunk descriptor of WebP file!");
+    };
+
+    if first_chunk.header() != VP8X_HEADER
+    {
+        convert_to_extended_format(&mut new_file_buffer)?;
+    }
+
+    // Find a location where to put the EXIF chunk, which is in front of the
+    // first chunk that is *not* known to be located *before* the EXIF chunk
     let pre_exif_chunks = [
         "VP8X",
-        "VP8",
+        "VP8 ",
         "VP8L",
+        "ALPH",
         "ICCP",
-        "ANIM"
+        "ANIM",
+        "ANMF"
     ];
 
-    // Clippy wrongly needs this allowance, otherwise it states that this call
-    // to as_ref does nothing. However, it *does* something, mainly 
-    // creating an immutable reference that gets passed as a copy to the
-    // constructor of the cursor, so file_buffer is later on still available
-    // when calling insert_multiple_at.
-    // I guess there is a less messy solution to this?
-    #[allow(clippy::useless_asref)]
-    let mut read_cursor = Cursor::new(file_buffer.as_ref());
-
-    loop
+    let mut insert_position = 12;
+    for chunk in parse_webp(&new_file_buffer)?
     {
-        // Request a chunk descriptor. If this fails, check the error 
-        // Depending on its type, either continue normally or return it
-        let chunk_descriptor_result = get_next_chunk_descriptor(&mut read_cursor);
-
-        match chunk_descriptor_result
+        if !pre_exif_chunks.contains(&chunk.header().as_str())
         {
-            Ok(chunk_descriptor) => {
-                let mut chunk_type_found_in_pre_exif_chunks = false;
-
-                // Check header of chunk descriptor against any of the known chunks
-                // that should come before the EXIF chunk
-                for pre_exif_chunk in &pre_exif_chunks
-                {
-                    chunk_type_found_in_pre_exif_chunks |= pre_exif_chunk.to_lowercase() == chunk_descriptor.header().to_lowercase();
-                }
-
-                if !chunk_type_found_in_pre_exif_chunks
-                {
-                    break;
-                }
-            },
-            Err(e) => {
-                match e.kind()
-                {
-                    std::io::ErrorKind::UnexpectedEof
-                        => break, // No further chunks, place EXIF chunk here
-                    _
-                        => return Err(e)
-                }
-            }
+            break;
         }
+
+        insert_position += 4 + 4 + chunk.len();
     }
 
     // Write the EXIF chunk at the found location
-    insert_multiple_at(file_buffer, read_cursor.position() as usize, &mut encoded_metadata);
-
-    // Update the file size information by adding the byte count of the EXIF chunk
     // (Note: Due to  the WebP specific encoding function, this vector already
     // contains the EXIF header characters and size information, as well as the
-    // possible padding byte. Therefore, simply taking the length of this
-    // vector takes their byte count also into account and no further values
-    // need to be added)
-    let mut write_cursor = Cursor::new(file_buffer);
-    update_file_size_information(&mut write_cursor, encoded_metadata_len)?;
+    // possible padding byte)
+    insert_multiple_at(&mut new_file_buffer, insert_position, &mut encoded_metadata);
+
+    // Update the file size information
+    update_file_size_information(&mut new_file_buffer)?;
 
     // Finally, set the EXIF flag
-    set_exif_flag(&mut write_cursor, true)?;
+    set_exif_flag(&mut new_file_buffer, true)?;
+
+    *file_buffer = new_file_buffer;
 
     return Ok(());
 }
-- 
2.43.0


From 1a2277db780709b38110cb40837519d5b63ab5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:47 +0000
Subject: [PATCH 17/41] fix: handle box lengths in JXL files properly and
 replace such files entirely

---
 src/jxl.rs | 368 ++++++++++++++++++-----------------------------------
 1 file changed, 127 insertions(+), 241 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index ee028e6..e2dfa8b 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -1,12 +1,8 @@
 // Copyright © 2024-2026 Tobias J. Prisching <tobias.prisching@icloud.com> and CONTRIBUTORS
 // See https://github.com/TechnikTobi/little_exif#license for licensing details
 
-use std::fs::File;
 use std::io::Cursor;
 use std::io::Read;
-use std::io::Seek;
-use std::io::SeekFrom;
-use std::io::Write;
 use std::path::Path;
 
 use crate::endian::Endian;
@@ -14,7 +10,6 @@ use crate::metadata::Metadata;
 use crate::u8conversion::*;
 use crate::general_file_io::*;
 use crate::util::insert_multiple_at;
-use crate::util::range_remove;
 
 pub(crate) const JXL_SIGNATURE:          [u8; 2]  = [0xff, 0x0a];
 pub(crate) const ISO_BMFF_JXL_SIGNATURE: [u8; 12] = [
@@ -101,29 +96,57 @@ check_signature
     return Ok(());
 }
 
+/// Determines the box that starts at the given position. Returns the length of
+/// the entire box, the length of its header and the box type
 fn
-file_check_signature
+get_box_at
 (
-    path: &Path
+    file_buffer: &[u8],
+    position:    usize
 )
--> Result<File, std::io::Error>
+-> Result<(usize, usize, [u8; 4]), std::io::Error>
 {
-    let mut file = open_write_file(path)?;
-
-    let mut signature_buffer = [0u8; 12];
-    let bytes_read = file.read(&mut signature_buffer)?;
+    let remaining = &file_buffer[position..];
 
-    if bytes_read != 12
+    if remaining.len() < 8
     {
-        return io_error!(InvalidData, "Can't open JXL file - Can't read signature!");
+        return io_error!(InvalidData, "Incomplete box header found in JXL data!");
     }
 
-    check_signature(&signature_buffer)?;
+    // Get the first 4 bytes at the current position to determine the length 
+    // of the current box
+    let     length_buffer = remaining[0..4].to_vec();
+    let mut length        = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as u64;
+    let mut header_length = 8;
 
-    return Ok(file);
-}
+    // Next, read the box type
+    let box_type = [remaining[4], remaining[5], remaining[6], remaining[7]];
+
+    if length == 0
+    {
+        // Box extends to the end of the file
+        length = remaining.len() as u64;
+    }
+    else if length == 1
+    {
+        // The actual length is stored as a 64 bit value after the type
+        if remaining.len() < 16
+        {
+            return io_error!(InvalidData, "Incomplete box header found in JXL data!");
+        }
+
+        let largesize_buffer = remaining[8..16].to_vec();
+        length        = from_u8_vec_res_macro!(u64, &largesize_buffer, &Endian::Big)?;
+        header_length = 16;
+    }
 
+    if length < header_length as u64 || length > remaining.len() as u64
+    {
+        return io_error!(InvalidData, "Invalid box length found in JXL data!");
+    }
 
+    return Ok((length as usize, header_length, box_type));
+}
 
 pub(crate) fn
 clear_metadata
@@ -134,35 +157,26 @@ clear_metadata
 {
     check_signature(file_buffer)?;
 
-    let mut position = 0;
+    let mut position    = 0;
+    let mut new_buffer  = Vec::with_capacity(file_buffer.len());
 
-    loop
+    while position < file_buffer.len()
     {
-        if position >= file_buffer.len() { return Ok(()); }
-
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box 
-        let length_buffer = file_buffer[position..position+4].to_vec();
-        let length        = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
-
-        // Next, read the box type
-        let type_buffer = file_buffer[position+4..position+8].to_vec();
-
-        if box_contains_exif(
-            &mut Cursor::new(
-                file_buffer[position+8..position+12].to_vec()
-            ), 
-            [type_buffer[0], type_buffer[1], type_buffer[2], type_buffer[3]]
-        )?
-        {
-            range_remove(file_buffer, position, position+length);
-        }
-        else
+        let (length, header_length, box_type) = get_box_at(file_buffer, position)?;
+        let box_end                           = position + length;
+
+        if !box_contains_exif(&file_buffer[position+header_length..box_end], box_type)
         {
-            // Not an EXIF box so skip it
-            position += length;
+            // Not an EXIF box so keep it
+            new_buffer.extend_from_slice(&file_buffer[position..box_end]);
         }
+
+        position = box_end;
     }
+
+    *file_buffer = new_buffer;
+
+    return Ok(());
 }
 
 pub(crate) fn
@@ -172,93 +186,38 @@ file_clear_metadata
 )
 -> Result<(), std::io::Error>
 {
-    let mut file = file_check_signature(path)?;
-
-    let mut length_buffer = [0u8; 4];
-    let mut type_buffer   = [0u8; 4];
-
-    loop
-    {
-        let position        = file.stream_position()?;
-        let old_file_length = file.metadata()?.len();
-        if position >= old_file_length { return Ok(()); }
-
-        file.read_exact(&mut length_buffer)?;
-        file.read_exact(&mut type_buffer)?;
-
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)? as usize;
-
-        if box_contains_exif(&mut file, type_buffer)?
-        {
-            // Seek past the EXIF box ...
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-
-
-            // ... copy everything from here onwards into a buffer ...
-            let mut buffer = Vec::new();
-            file.read_to_end(&mut buffer)?;
-
-            // ... seek back to the start of the EXIF box ...
-            file.seek(std::io::SeekFrom::Start(position))?;
+    let mut file_buffer = read_file(path)?;
 
-            // ... overwrite everything from here onward ...
-            file.write_all(&buffer)?;
-            file.seek(std::io::SeekFrom::Start(position))?;
+    clear_metadata(&mut file_buffer)?;
 
-            // ... and finally update the file size - otherwise there will be
-            // duplicate bytes at the end!
-            file.set_len(old_file_length - length as u64)?;
-        }
-        else
-        {
-            // Not an EXIF box so skip it
-            assert_eq!(position+8, file.stream_position()?);
-            file.seek(SeekFrom::Current((length-8) as i64))?;
-        }
-    }
+    return overwrite_file(path, &file_buffer);
 }
 
 
 fn
-check_brob_type_for_exif
-<T: Seek + Read>
+box_contains_exif
 (
-    cursor: &mut T
+    box_data: &[u8],
+    box_type: [u8; 4],
 )
--> Result<bool, std::io::Error>
+-> bool
 {
-    // Check if the next for 4 bytes say 'Exif'
-    let mut brob_type = [0u8; 4];
-    cursor.read_exact(&mut brob_type)?;
-
-    // Seek back to position prior to brob type
-
-    cursor.seek(SeekFrom::Current(-4))?;
-
-    return Ok(brob_type == EXIF);
+    // For Brotli compressed boxes the first 4 bytes of the box data tell the
+    // type of the compressed box
+    return box_type == EXIF || (box_type == BROB_BOX && box_data.starts_with(&EXIF));
 }
 
-
-
 fn
-box_contains_exif
-<T: Seek + Read>
+read_file
 (
-    cursor:      &mut T,
-    type_buffer:  [u8; 4],
+    path: &Path
 )
--> Result<bool, std::io::Error>
+-> Result<Vec<u8>, std::io::Error>
 {
-    if type_buffer == EXIF
-    {
-        return Ok(true);
-    }
-    if type_buffer == BROB_BOX && check_brob_type_for_exif(cursor)?
-    {
-        return Ok(true);
-    }
+    let mut file_buffer = Vec::new();
+    open_read_file(path)?.read_to_end(&mut file_buffer)?;
 
-    return Ok(false);
+    return Ok(file_buffer);
 }
 
 
@@ -272,115 +231,58 @@ read_metadata
 {
     check_signature(file_buffer)?;
 
-    let mut cursor = Cursor::new(file_buffer);
+    let mut position = 0;
 
-    return generic_read_metadata(&mut cursor);
-}
+    while position < file_buffer.len()
+    {
+        let (length, header_length, box_type) = get_box_at(file_buffer, position)?;
+        let box_data = &file_buffer[position+header_length..position+length];
 
-pub(crate) fn
-file_read_metadata
-(
-    path: &Path
-)
--> Result<Vec<u8>, std::io::Error>
-{
-    let mut file = open_read_file(path)?;
+        if box_contains_exif(box_data, box_type)
+        {
+            // In both cases the first 4 bytes get skipped: For an EXIF box 
+            // these contain the offset of the TIFF header, for a Brotli box 
+            // these are the type of the compressed box
+            let Some(exif_data) = box_data.get(4..)
+            else
+            {
+                return io_error!(InvalidData, "EXIF box in JXL data is too short!");
+            };
+
+            if box_type == EXIF
+            {
+                return Ok(exif_data.to_vec());
+            }
 
-    // Read first 12 bytes and check that we have a ISO BMFF file
-    let mut first_12_bytes = [0u8; 12];
-    let     bytes_read     = file.read(&mut first_12_bytes)?;
+            let mut decompressed_exif_buffer = Vec::new();
+            brotli::BrotliDecompress(
+                &mut Cursor::new(exif_data), 
+                &mut decompressed_exif_buffer
+            )?;
+
+            // Ignore the offset of the TIFF header here as well
+            return match decompressed_exif_buffer.get(4..)
+            {
+                Some(exif_data) => Ok(exif_data.to_vec()),
+                None            => io_error!(InvalidData, "EXIF box in JXL data is too short!")
+            };
+        }
 
-    if bytes_read != 12
-    {
-        return io_error!(InvalidData, "Can't open JXL file - Can't read & check ISO BMFF signature!");
+        // Not an EXIF box so skip it
+        position += length;
     }
 
-    check_signature(&first_12_bytes)?;
-
-    return generic_read_metadata(&mut file);
+    return io_error!(Other, "No EXIF data found!");
 }
 
-fn
-generic_read_metadata
-<T: Seek + Read>
+pub(crate) fn
+file_read_metadata
 (
-    cursor: &mut T
+    path: &Path
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    loop
-    {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )?;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
-
-        match type_buffer
-        {
-            EXIF => {
-                // Skip the next 4 bytes (which contain the minor version???)
-                cursor.seek(SeekFrom::Current(4))?;
-
-                // `length-4` because of the previous relative seek operation
-                let mut exif_buffer = vec![0u8; (length-4) as usize];
-                cursor.read_exact(&mut exif_buffer)?;
-
-                return Ok(exif_buffer);
-            },
-
-            BROB_BOX => { // -> Brotli encoded data
-
-                let position = cursor.stream_position()? as usize;
-
-                if check_brob_type_for_exif(cursor)?
-                {
-                    // Skip the next 4 bytes (which contain the minor version???)
-                    cursor.seek(SeekFrom::Current(4))?;
-
-                    let mut compressed_exif_buffer = vec![
-                        0u8; 
-                        (length-4) as usize
-                    ];
-                    cursor.read_exact(&mut compressed_exif_buffer)?;
-                    
-                    let mut decompressed_exif_buffer = Vec::new();
-
-                    match brotli::BrotliDecompress(
-                        &mut Cursor::new(compressed_exif_buffer), 
-                        &mut decompressed_exif_buffer
-                    ) 
-                    {
-                        Ok(_)  => (),
-                        Err(e) => return Err(e)
-                    };
-
-                    // Ignore the next 4 bytes (I guess for the same reason 
-                    // as above - some sort of minor version?)
-                    return Ok(decompressed_exif_buffer[4..].to_vec());
-                }
-                else 
-                {
-                    cursor.seek(SeekFrom::Start(position as u64 + length as u64))?;
-                }
-            }
-
-            _ => {
-                // Not an EXIF box so skip it
-                cursor.seek(SeekFrom::Current(length as i64))?;
-            }
-        }
-    }
+    return read_metadata(&read_file(path)?);
 }
 
 fn
@@ -415,38 +317,26 @@ find_insert_position
 )
 -> Result<usize, std::io::Error>
 {
-    let mut cursor = Cursor::new(file_buffer);
+    let mut position = 0;
 
-    loop
+    while position < file_buffer.len()
     {
-        // Get the first 4 bytes at the current cursor position to determine
-        // the length of the current box (and account for the 8 bytes of length
-        // and box type)
-        let mut length_buffer = [0u8; 4];
-        cursor.read_exact(&mut length_buffer)?;
-        let length = from_u8_vec_res_macro!(u32, &length_buffer, &Endian::Big)?.checked_sub(8).ok_or(
-            std::io::Error::new(
-                std::io::ErrorKind::InvalidData,
-                "Invalid box length found when reading JXL metadata!"
-            )
-        )? as usize;
-
-        // Next, read the box type
-        let mut type_buffer = [0u8; 4];
-        cursor.read_exact(&mut type_buffer)?;
-
-        match type_buffer
+        let (length, _, box_type) = get_box_at(file_buffer, position)?;
+
+        match box_type
         {
             IsoBmffBoxType::JXL |
             IsoBmffBoxType::FTYP => {
                 // Place exif box after these boxes
-                cursor.seek(SeekFrom::Current(length as i64))?;
+                position += length;
             }
             _ => {
-                return Ok(cursor.position() as usize - 8);
+                break;
             }
         }
     }
+
+    return Ok(position);
 }
 
 pub(crate) fn 
@@ -457,6 +347,9 @@ write_metadata
 )
 -> Result<(), std::io::Error> 
 {
+    // Encode the new metadata before changing anything
+    let mut encoded_metadata = encode_metadata_jxl(&metadata.encode()?);
+
     if starts_with_jxl_signature(file_buffer)
     {
         // Need to modify the file_buffer first so that it is a ISO BMFF 
@@ -483,8 +376,7 @@ write_metadata
     clear_metadata(file_buffer)?;
     
     // Insert new metadata
-    let mut encoded_metadata = encode_metadata_jxl(&metadata.encode()?);
-    let     insert_position  = find_insert_position(file_buffer)?;
+    let insert_position = find_insert_position(file_buffer)?;
     insert_multiple_at(file_buffer, insert_position, &mut encoded_metadata);
 
     return Ok(());
@@ -500,18 +392,12 @@ file_write_metadata
 {
     // Load the entire file into memory instead of performing multiple read, 
     // seek and write operations
-    let mut file = open_write_file(path)?;
-    let mut file_buffer: Vec<u8> = Vec::new();
-    file.read_to_end(&mut file_buffer)?;
+    let mut file_buffer = read_file(path)?;
 
     // Writes the metadata to the file_buffer vec
     // The called function handles the removal of old metadata and the JXL
     // specific encoding, so we pass only the generally encoded metadata here
     write_metadata(&mut file_buffer, metadata)?;
 
-    // Seek back to start & write the file
-    file.seek(SeekFrom::Start(0))?;
-    file.write_all(&file_buffer)?;
-
-    return Ok(());
-}
\ No newline at end of file
+    return overwrite_file(path, &file_buffer);
+}
-- 
2.43.0


From bceb75b0ab97db88ca2fe2cf0cf20ad54e17632b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:44 +0000
Subject: [PATCH 18/41] fix: keep all HEIF items and boxes intact when changing
 EXIF data and reject what can't be handled

---
 src/heif/box_header.rs           |  70 ++--
 src/heif/box_type.rs             |   6 +-
 src/heif/boxes/iso.rs            |  42 +-
 src/heif/boxes/item_info.rs      | 129 ++++--
 src/heif/boxes/item_location.rs  | 173 ++++++--
 src/heif/boxes/item_reference.rs |   9 +-
 src/heif/boxes/meta.rs           | 107 +++--
 src/heif/boxes/mod.rs            |  38 +-
 src/heif/container.rs            | 654 +++++++++++++++----------------
 src/heif/mod.rs                  |  25 +-
 src/util.rs                      |  62 +--
 11 files changed, 730 insertions(+), 585 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 3ea282c..258db78 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -63,7 +63,7 @@ BoxHeader
         {
             box_size:    8,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 8,
             version:     None,
             flags:       None,
@@ -79,7 +79,7 @@ BoxHeader
         {
             box_size:    12,
             largesize:   false,
-            box_type:    BoxType::unknown { box_type: "tobi".to_owned() },
+            box_type:    BoxType::unknown { box_type: *b"tobi" },
             header_size: 12,
             version:     Some(0),
             flags:       Some([0, 0, 0]),
@@ -109,15 +109,6 @@ BoxHeader
             flags:       None,
         };
 
-        if box_type.extends_fullbox()
-        {
-            header.version = Some(read_1_bytes(cursor)?[0]);
-            header.flags   = Some(read_3_bytes(cursor)?);
-
-            // Adjust header size information
-            header.header_size += 4;
-        }
-
         // Uses largesize box size
         if header.box_size == 1
         { 
@@ -136,10 +127,6 @@ BoxHeader
                     )
                 );
             }
-            {
-
-            }
-
             // Adjust header size information
             header.header_size += 8;
         }
@@ -153,6 +140,29 @@ BoxHeader
             header.header_size += 16;
         }
 
+        if box_type.extends_fullbox()
+        {
+            header.version = Some(read_1_bytes(cursor)?[0]);
+            header.flags   = Some(read_3_bytes(cursor)?);
+
+            // Adjust header size information
+            header.header_size += 4;
+        }
+
+        // A size of zero tells that the box extends to the end of the file
+        if header.box_size != 0 && header.box_size < header.header_size
+        {
+            return io_error!(
+                InvalidData,
+                format!(
+                    "Box size {} is smaller than header size {} for box type {:?}",
+                    header.box_size,
+                    header.header_size,
+                    header.box_type
+                )
+            );
+        }
+
         return Ok(header);
     }
 
@@ -221,6 +231,16 @@ BoxHeader
         return self.version.expect("BoxHeader: version is not set");
     }
 
+    pub(super) fn
+    is_largesize
+    (
+        &self
+    )
+    -> bool
+    {
+        return self.largesize;
+    }
+
     pub(super) fn
     set_version
     (
@@ -253,16 +273,6 @@ BoxHeader
         // Serialize box type - Part 1
         serialized.extend(self.box_type.to_4_bytes());
 
-        // Serialize version and flags (if present)
-        if self.box_type.extends_fullbox()
-        {
-            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
-            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
-            {
-                serialized.push(flag);
-            }
-        }
-
         // Serialize box size - Part 2
         if self.largesize
         {
@@ -278,6 +288,16 @@ BoxHeader
             }
         }
 
+        // Serialize version and flags (if present)
+        if self.box_type.extends_fullbox()
+        {
+            serialized.push(self.version.expect("BoxHeader: version is not set when serializing"));
+            for flag in self.flags.expect("BoxHeader: flags not set when serializing")
+            {
+                serialized.push(flag);
+            }
+        }
+
         return serialized;
     }
 
diff --git a/src/heif/box_type.rs b/src/heif/box_type.rs
index 951a1f4..7296d2b 100644
--- a/src/heif/box_type.rs
+++ b/src/heif/box_type.rs
@@ -92,7 +92,7 @@ BoxType
     hmhd,
     sthd,
     uuid    { usertype: [u8; 16] },
-    unknown { box_type: String }
+    unknown { box_type: [u8; 4] }
 }
 
 impl
@@ -194,7 +194,7 @@ BoxType
             "hmhd" => BoxType::hmhd,
             "sthd" => BoxType::sthd,
             "uuid" => BoxType::uuid { usertype: [0u8; 16] },
-            _      => BoxType::unknown { box_type: String::from(box_type_str) }
+            _      => BoxType::unknown { box_type: bytes }
         }
     }
 
@@ -293,7 +293,7 @@ BoxType
             BoxType::hmhd => "hmhd",
             BoxType::sthd => "sthd",
             BoxType::uuid { usertype: _ } => "uuid",
-            BoxType::unknown { box_type } => box_type
+            BoxType::unknown { box_type } => return box_type.to_vec()
         }.as_bytes().to_vec()
     }
 
diff --git a/src/heif/boxes/iso.rs b/src/heif/boxes/iso.rs
index cb594e8..1837fd0 100644
--- a/src/heif/boxes/iso.rs
+++ b/src/heif/boxes/iso.rs
@@ -7,6 +7,7 @@ use std::io::Seek;
 use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
+use crate::util::read_bytes;
 
 #[allow(dead_code)]
 #[derive(Clone)]
@@ -20,6 +21,38 @@ IsoBox
 impl
 IsoBox
 {
+    /// Creates a new, empty `mdat` box
+    pub(crate) fn
+    new_media_data_box
+    ()
+    -> Self
+    {
+        let mut header = BoxHeader::new_simple_box_header();
+        header.set_box_type_via_string("mdat");
+
+        return IsoBox { header, data: Vec::new() };
+    }
+
+    pub(crate) fn
+    get_data
+    (
+        &self
+    )
+    -> &[u8]
+    {
+        return &self.data;
+    }
+
+    pub(crate) fn
+    get_data_mut
+    (
+        &mut self
+    )
+    -> &mut Vec<u8>
+    {
+        return &mut self.data;
+    }
+
     fn
     construct_from_cursor_unboxed
     <T: Seek + Read>
@@ -55,14 +88,7 @@ IsoBox
             ));
         };
 
-        let mut buffer: Vec<u8> = Vec::new();
-
-        // This may cause an out of memory error, but won't panic like vec![]
-        buffer.try_reserve_exact(data_left_to_read as usize)?;
-
-        // Can't use read_exact here because the name buffer we read into is
-        // still size 0 (only has reserved capacity!)
-        cursor.take(data_left_to_read as u64).read_to_end(&mut buffer)?;
+        let buffer = read_bytes(cursor, data_left_to_read)?;
 
         return Ok(IsoBox {
             header: header,
diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 63ea6c5..0b62ab9 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -5,14 +5,17 @@ use std::io::Read;
 use std::io::Seek;
 
 use crate::endian::Endian;
+use crate::general_file_io::EXIF;
 use crate::general_file_io::io_error;
 use crate::u8conversion::U8conversion;
 use crate::u8conversion::to_u8_vec_macro;
 use crate::util::read_be_u16;
 use crate::util::read_be_u32;
-use crate::util::read_null_terminated_string;
+use crate::util::read_4_bytes;
+use crate::util::read_bytes;
 
 use crate::heif::box_header::BoxHeader;
+use crate::heif::box_type::BoxType;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
@@ -23,7 +26,8 @@ use crate::heif::boxes::ParsableIsoBox;
 // 000001:     24 bits of flags
 // 0019:       item ID (16 bits)
 // 0000:       item protection index (16 bits)
-// 6876633100: item name, a null terminated string, here: "hvc1"
+// 68766331:   item type, here: "hvc1"
+// 00:         item name, a null terminated string, here: empty
 // theoretically, after this point there would be two other strings, the
 // content_type and the optional content_encoding, however, the practical
 // examples did *not* have any of this
@@ -34,10 +38,16 @@ pub struct
 ItemInfoEntryBox
 {
     pub(self)  header:                BoxHeader,
-    pub(crate) item_id:               u16,
+    pub(crate) item_id:               u32,
+        // only if version == 3, otherwise this is u16
+
     pub(crate) item_protection_index: u16,
-    pub(crate) item_name:             String,
+
+    pub(crate) item_type:             Option<[u8; 4]>,
+        // only present if version == 2 || 3
+
     pub(crate) additional_data:       Vec<u8>,
+        // the item name and whatever comes after that
 }
 
 // - iinf
@@ -69,17 +79,41 @@ ItemInfoEntryBox
     )
     -> Result<Self, std::io::Error>
     {
-        let item_id               = read_be_u16(cursor)?;
+        if header.get_box_type() != BoxType::infe
+        {
+            return io_error!(InvalidData, "Expected only infe boxes in iinf box");
+        }
+
+        // See: ISO/IEC 14496-12:2015, § 8.11.6.2
+        let mut data_read_so_far = header.get_header_size();
+
+        let item_id = if header.get_version() == 3
+        {
+            data_read_so_far += 4;
+            read_be_u32(cursor)?
+        }
+        else
+        {
+            data_read_so_far += 2;
+            read_be_u16(cursor)? as u32
+        };
+
         let item_protection_index = read_be_u16(cursor)?;
-        let item_name             = read_null_terminated_string(cursor)?;
+        data_read_so_far += 2;
 
-        // Determine how much data is left for this entry
-        let data_read_so_far = header.get_header_size() 
-            + 2                           // item_id
-            + 2                           // item_protection_index
-            + item_name.len() as u64 + 1; // string len + null terminator
+        let item_type = if header.get_version() >= 2
+        {
+            data_read_so_far += 4;
+            Some(read_4_bytes(cursor)?)
+        }
+        else
+        {
+            None
+        };
 
-        if data_read_so_far > header.get_box_size()
+        // Determine how much data is left for this entry
+        let Some(data_left_to_read) = header.get_box_size().checked_sub(data_read_so_far)
+        else
         {
             return io_error!(
                 InvalidData,
@@ -89,25 +123,36 @@ ItemInfoEntryBox
                     header.get_box_size()
                 )
             );
-        }
-
-        let data_left_to_read = header.get_box_size() - data_read_so_far;
+        };
 
-        let mut additional_data: Vec<u8> = Vec::new();
-        additional_data.try_reserve_exact(data_left_to_read as usize)?;
-        cursor.take(data_left_to_read as u64).read_to_end(&mut additional_data)?;
+        let additional_data = read_bytes(cursor, data_left_to_read)?;
 
-        log::trace!("Successfully read in ItemInfoEntryBox with ID: {item_id}, Name: {item_name}");
+        log::trace!("Successfully read in ItemInfoEntryBox with ID: {item_id}, Type: {item_type:?}");
 
         return Ok(ItemInfoEntryBox {
             header,
             item_id,
             item_protection_index,
-            item_name,
+            item_type,
             additional_data,
         });
     }
 
+    fn
+    is_exif_item
+    (
+        &self
+    )
+    -> bool
+    {
+        return match self.item_type
+        {
+            Some(item_type) => item_type == EXIF,
+
+            // Older versions don't have a type, only a name
+            None            => self.additional_data.starts_with(b"Exif\0")
+        };
+    }
 }
 
 impl
@@ -142,27 +187,24 @@ ItemInfoBox
     -> Option<&ItemInfoEntryBox>
     {
         return self.items.iter()
-            .find(|item| item.item_name == "Exif")
+            .find(|item| item.is_exif_item())
     }
 
-    /// Creates a new item in this item information box and returns by how many
-    /// bytes this box got longer
+    /// Creates a new item for EXIF data in this item information box
     pub(crate) fn
-    create_new_item_info_entry
+    create_new_exif_item_info_entry
     (
         &mut self,
-        iloc_id: u32,
-        name:    &str,
+        item_id: u16,
     )
-    -> u64
     {
         self.items.push(ItemInfoEntryBox 
             { 
                 header:                BoxHeader::new_exif_info_entry_box_header(), 
-                item_id:               iloc_id as u16, 
+                item_id:               item_id as u32, 
                 item_protection_index: 0, 
-                item_name:             name.to_string(), 
-                additional_data:       Vec::new()
+                item_type:             Some(EXIF), 
+                additional_data:       vec![0x00] // an empty name
             }
         );
 
@@ -170,13 +212,8 @@ ItemInfoBox
 
         // Due to the addition of a new item, the size in the header needs to 
         // be adjusted as well
-        // TODO: make this more efficient by only computing how much memory is
-        // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
         let new_box_size = self.serialize().len() as u64;
         self.header.set_box_size(new_box_size);
-
-        return new_box_size - old_box_size;
     }
 }
 
@@ -207,10 +244,10 @@ ItemInfoBox
         let mut items = Vec::new();
         for _ in 0..item_count
         {
-            let header = BoxHeader::read_box_header(cursor)?;
+            let item_header = BoxHeader::read_box_header(cursor)?;
             items.push(ItemInfoEntryBox::construct_from_cursor_unboxed(
                 cursor, 
-                header
+                item_header
             )?);
         }
 
@@ -236,10 +273,22 @@ ItemInfoEntryBox
     {
         let mut serialized = self.header.serialize();
         
-        serialized.extend(to_u8_vec_macro!(u16, &self.item_id,               &Endian::Big).iter());
+        if self.header.get_version() == 3
+        {
+            serialized.extend(to_u8_vec_macro!(u32, &self.item_id,               &Endian::Big).iter());
+        }
+        else
+        {
+            serialized.extend(to_u8_vec_macro!(u16, &(self.item_id as u16),      &Endian::Big).iter());
+        }
+
         serialized.extend(to_u8_vec_macro!(u16, &self.item_protection_index, &Endian::Big).iter());
-        serialized.extend(self.item_name.bytes());
-        serialized.push(0x00); // null terminator for item name string
+
+        if let Some(item_type) = self.item_type
+        {
+            serialized.extend(item_type);
+        }
+
         serialized.extend(&self.additional_data);
 
         return serialized;
diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index b49425a..1c85ee4 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -47,6 +47,7 @@ ItemConstructionMethod
     FILE = 0,
     IDAT = 1,
     ITEM = 2,
+    UNKNOWN,
 }
 
 
@@ -234,10 +235,43 @@ ItemLocationEntry
             0 => ItemConstructionMethod::FILE,
             1 => ItemConstructionMethod::IDAT,
             2 => ItemConstructionMethod::ITEM,
-            _ => panic!("Unknown item construction method!")
+            _ => ItemConstructionMethod::UNKNOWN
         };
     }
 
+    /// Sets the positions of all extents, keeping the base offset if possible
+    fn
+    set_offsets
+    (
+        &mut self,
+        offsets:          &[u64],
+        base_offset_size: u8,
+        offset_size:      u8
+    )
+    -> Result<(), std::io::Error>
+    {
+        let fits = |base: u64| offsets.iter().all(
+            |offset| *offset >= base && *offset - base <= max_value(offset_size)
+        );
+
+        if !fits(self.base_offset)
+        {
+            self.base_offset = offsets.iter().min().copied().unwrap_or(0);
+
+            if !fits(self.base_offset) || self.base_offset > max_value(base_offset_size)
+            {
+                return io_error!(Unsupported, "Location of item can't be stored in iloc box");
+            }
+        }
+
+        for (extent, offset) in self.extents.iter_mut().zip(offsets)
+        {
+            extent.extent_offset = offset - self.base_offset;
+        }
+
+        return Ok(());
+    }
+
     /*
     pub(crate) fn
     get_size
@@ -352,12 +386,12 @@ ItemLocationBox
     get_item_location_entry
     (
         &self,
-        item_id: u16
+        item_id: u32
     )
     -> Result<&ItemLocationEntry, std::io::Error>
     {
         self.items.iter()
-            .find(|item| item.item_id == item_id as u32)
+            .find(|item| item.item_id == item_id)
             .ok_or(
                 io_error_plain!(
                     Other, 
@@ -366,26 +400,22 @@ ItemLocationBox
             )
     }
 
-    // Returns the ID of the new entry and by how many bytes this box got longer
+    /// Creates a new entry with one extent whose location has yet to be set
     pub(crate) fn
     create_new_item_location_entry
     (
         &mut self,
-        data_start:  u64,
-        data_length: u64
+        item_id: u16
     )
-    -> (u32, u64)
     {
-        // Determine largest iloc ID so far
-        let old_largest_id = self.items
-            .iter()
-            .map(|x| x.item_id)
-            .max()
-            .unwrap_or(0);
+        // Make sure that the location of the new item can be stored. This does
+        // not change the meaning of the already existing entries
+        if self.offset_size == 0 { self.offset_size = 4; }
+        if self.length_size == 0 { self.length_size = 4; }
 
         self.items.push(ItemLocationEntry 
             {
-                item_id:                          old_largest_id + 1, 
+                item_id:                          item_id as u32, 
                 reserved_and_construction_method: 0, 
                 data_reference_index:             0, 
                 base_offset:                      0,
@@ -394,8 +424,8 @@ ItemLocationBox
                     ItemLocationEntryExtentEntry 
                     {
                         extent_index:  Some(0),
-                        extent_offset: data_start,
-                        extent_length: data_length,
+                        extent_offset: 0,
+                        extent_length: 0,
                     }
                 ]
             }
@@ -405,39 +435,69 @@ ItemLocationBox
 
         // Due to the addition of a new item, the size in the header needs to 
         // be adjusted as well
-        // TODO: make this more efficient by only computing how much memory is
-        // needed, not by actually serializing (and thus, allocating memory)
-        let old_box_size = self.header.get_box_size();
         let new_box_size = self.serialize().len() as u64;
         self.header.set_box_size(new_box_size);
-
-        return (
-            self.items.last_mut().expect("No items present after insertion").item_id,
-            new_box_size - old_box_size
-        );
     }
 
+    /// Sets the location of an item that consists of a single extent
     pub(crate) fn
-    add_to_extents
+    set_item_location
     (
         &mut self,
-        value: i64
+        item_id: u32,
+        offset:  u64,
+        length:  u64
     )
+    -> Result<(), std::io::Error>
     {
-        for item in &mut self.items
+        let base_offset_size = self.base_offset_size;
+        let offset_size      = self.offset_size;
+        let length_size      = self.length_size;
+
+        if length > max_value(length_size)
         {
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
+            return io_error!(Unsupported, "Length of item can't be stored in iloc box");
+        }
+
+        for item in self.items.iter_mut().filter(|item| item.item_id == item_id)
+        {
+            item.set_offsets(&[offset], base_offset_size, offset_size)?;
+
+            for extent in &mut item.extents
             {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
-                continue;
+                extent.extent_length = length;
             }
+        }
+
+        return Ok(());
+    }
+
+    /// Computes the new locations of all items that are stored in the file
+    /// except for the given one. The function gets the position and the length
+    /// of an extent within the file and returns the new position
+    pub(crate) fn
+    relocate_items
+    <F: Fn(u64, u64) -> Result<u64, std::io::Error>>
+    (
+        &mut self,
+        skip_item_id: u32,
+        new_position: F
+    )
+    -> Result<(), std::io::Error>
+    {
+        let base_offset_size = self.base_offset_size;
+        let offset_size      = self.offset_size;
 
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
+        for item in &mut self.items
+        {
+            // In case of the other construction methods the offset is relative
+            // to an idat box or another item's extent
+            // -> not affected by change in length of another box
+            if 
+                item.item_id == skip_item_id 
+                || 
+                item.get_construction_method() != ItemConstructionMethod::FILE
             {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
                 continue;
             }
 
@@ -449,18 +509,49 @@ ItemLocationBox
                 continue;
             }
 
-            // For now, just add the value to the extent offsets. 
-            // This may be problematic in case the offset points to a location
-            // before the iloc or iinf boxes, so changing their length won't
-            // affect that offset value
-            for extent in &mut item.extents
+            let mut offsets = Vec::new();
+            let mut changed = false;
+
+            for extent in &item.extents
+            {
+                let Some(old_offset) = item.base_offset.checked_add(extent.extent_offset)
+                else
+                {
+                    return io_error!(InvalidData, "Item location exceeds the maximum file size");
+                };
+
+                let new_offset = new_position(old_offset, extent.extent_length)?;
+
+                changed |= new_offset != old_offset;
+                offsets.push(new_offset);
+            }
+
+            if changed
             {
-                extent.extent_offset = (extent.extent_offset as i64 + value) as u64;
+                item.set_offsets(&offsets, base_offset_size, offset_size)?;
             }
         }
+
+        return Ok(());
     }
 }
 
+/// Largest value that can be stored in a field of the given size
+fn
+max_value
+(
+    size: u8
+)
+-> u64
+{
+    return match size
+    {
+        0 => 0,
+        4 => u32::MAX as u64,
+        _ => u64::MAX
+    };
+}
+
 impl
 ParsableIsoBox
 for
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 3763c2f..5b3cf4c 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -92,6 +92,12 @@ SingleItemTypeReferenceBox
             );
         }
 
+        let ID_size = if is_large { 4 } else { 2 };
+        if header.get_box_size() != header.get_header_size() + 2 + ID_size * (1 + reference_count as u64)
+        {
+            return io_error!(InvalidData, "Box size and number of references do not match in iref box");
+        }
+
         return Ok(SingleItemTypeReferenceBox
             {
                 header,
@@ -161,7 +167,6 @@ ItemReferenceBox
         from_item_ID:   u32,
         to_item_ID:     Vec<u32>
     )
-    -> u64
     {
         // Determine is_large and the box size
         let is_large = self.header.get_version() >= 1;
@@ -191,8 +196,6 @@ ItemReferenceBox
         let old_iref_box_size = self.header.get_box_size();
         let new_iref_box_size = old_iref_box_size + box_size;
         self.header.set_box_size(new_iref_box_size);
-
-        return box_size;
     }
 }
 
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 1617bc6..207c3d8 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -10,17 +10,19 @@ use crate::general_file_io::io_error;
 use crate::u8conversion::U8conversion;
 use crate::u8conversion::to_u8_vec_macro;
 use crate::util::read_be_u32;
+use crate::util::read_bytes;
 
 use crate::heif::box_type::BoxType;
 use crate::heif::box_header::BoxHeader;
 use crate::heif::boxes::GenericIsoBox;
 use crate::heif::boxes::ParsableIsoBox;
 
+use crate::heif::boxes::iso::IsoBox;
 use crate::heif::boxes::item_info::ItemInfoBox;
 use crate::heif::boxes::item_location::ItemLocationBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 
-use super::read_box_based_on_header;
+use super::read_next_box;
 
 #[allow(dead_code)]
 pub struct 
@@ -86,28 +88,6 @@ MetaBox
         }
     }
 
-    pub(crate) fn
-    get_item_location_box_mut
-    (
-        &mut self
-    )
-    -> Result<&mut ItemLocationBox, std::io::Error>
-    {
-        match self.other_boxes.iter_mut().find(|b| b.get_header().get_box_type() == BoxType::iloc) {
-            Some(b) => match b.as_any_mut().downcast_mut::<ItemLocationBox>() {
-                Some(unboxed) => Ok(unboxed),
-                None => io_error!(
-                    InvalidData,
-                    "Found iloc box but could not downcast to ItemLocationBox"
-                ),
-            },
-            None => io_error!(
-                NotFound,
-                "No iloc box found in MetaBox"
-            ),
-        }
-    }
-
     pub(crate) fn
     get_item_reference_box
     (
@@ -123,29 +103,54 @@ MetaBox
         return None;
     }
 
+    /// Gets the ID of the primary item, usually the image
+    pub(crate) fn
+    get_primary_item_id
+    (
+        &self
+    )
+    -> Option<u32>
+    {
+        let pitm = self.other_boxes.iter()
+            .find(|b| b.get_header().get_box_type() == BoxType::pitm)?
+            .as_any()
+            .downcast_ref::<IsoBox>()?;
+
+        // See: ISO/IEC 14496-12:2015, § 8.11.4.2
+        return match (pitm.get_header().get_version(), pitm.get_data())
+        {
+            (0, [a, b])       => Some(u16::from_be_bytes([*a, *b]) as u32),
+            (0, _)            => None,
+            (_, [a, b, c, d]) => Some(u32::from_be_bytes([*a, *b, *c, *d])),
+            (_, _)            => None
+        };
+    }
+
     pub(crate) fn
     create_new_item_reference_box_if_none_exists_yet
     (
         &mut self
     )
-    -> u64
+    -> Result<(), std::io::Error>
     {
         if self.get_item_reference_box().is_some()
         {
-            return 0;
+            return Ok(());
         }
 
-        let new_iref_box      = ItemReferenceBox::new();
-        let new_iref_box_size = new_iref_box.get_header().get_box_size();
+        let new_iref_box = ItemReferenceBox::new();
 
-        let index = self.other_boxes
+        let Some(index) = self.other_boxes
             .iter()
             .position(|x| x.get_header().get_box_type() == BoxType::iinf)
-            .expect("Could not find iinf box to insert iref before");
+        else
+        {
+            return io_error!(NotFound, "Could not find iinf box to insert iref before");
+        };
          
         self.other_boxes.insert(index, Box::new(new_iref_box));
 
-        return new_iref_box_size;
+        return Ok(());
     }
 }
 
@@ -175,20 +180,9 @@ MetaBox
             );
         }
 
-        if header.get_box_size() < header.get_header_size() {
-            return io_error!(
-                InvalidData,
-                format!(
-                    "MetaBox has invalid size: box size {} is too small",
-                    header.get_box_size()
-                )
-            );
-        }
         // Read in the remaining bytes for this box
-        let     remaining_bytes = header.get_box_size() - header.get_header_size();
-        let mut meta_box_bytes: Vec<u8> = Vec::new();
-        meta_box_bytes.try_reserve_exact(remaining_bytes as usize)?;
-        cursor.take(remaining_bytes as u64).read_to_end(&mut meta_box_bytes)?;
+        let remaining_bytes = header.get_box_size() - header.get_header_size();
+        let meta_box_bytes  = read_bytes(cursor, remaining_bytes)?;
 
         // Construct local cursor for these bytes
         let mut local_cursor = Cursor::new(meta_box_bytes);
@@ -204,11 +198,7 @@ MetaBox
         let mut other_boxes = Vec::new();
         while local_cursor.position() < remaining_bytes as u64
         {
-            let sub_header = BoxHeader::read_box_header(&mut local_cursor)?;
-            let sub_box    = read_box_based_on_header(
-                &mut local_cursor, 
-                sub_header
-            )?;
+            let sub_box = read_next_box(&mut local_cursor, true)?;
 
             other_boxes.push(sub_box);
         }
@@ -278,23 +268,14 @@ HandlerBox
             );
         }
 
-        let number_of_bytes_that_form_the_name = header.get_box_size() as u64
-            - header.get_header_size() as u64 // header
-            - 4                               // pre_defined
-            - 4                               // handler_type
-            - 12                              // reserved
+        let number_of_bytes_that_form_the_name = header.get_box_size()
+            - header.get_header_size() // header
+            - 4                        // pre_defined
+            - 4                        // handler_type
+            - 12                       // reserved
             ;
 
-        let mut name: Vec<u8> = Vec::new();
-
-        // This may cause an out of memory error, but won't panic like vec![]
-        name.try_reserve_exact(number_of_bytes_that_form_the_name as usize)?;
-
-        // Can't use read_exact here because the name buffer we read into is
-        // still size 0 (only has reserved capacity!)
-        cursor
-            .take(number_of_bytes_that_form_the_name as u64)
-            .read_to_end(&mut name)?;
+        let name = read_bytes(cursor, number_of_bytes_that_form_the_name)?;
 
         return Ok(HandlerBox { 
             header, 
diff --git a/src/heif/boxes/mod.rs b/src/heif/boxes/mod.rs
index 72f14d9..559327a 100644
--- a/src/heif/boxes/mod.rs
+++ b/src/heif/boxes/mod.rs
@@ -3,8 +3,10 @@
 
 use std::io::Read;
 use std::io::Seek;
+use std::io::SeekFrom;
 
 use crate::heif::boxes::item_reference::ItemReferenceBox;
+use crate::io_error;
 
 use super::box_type::BoxType;
 use super::box_header::BoxHeader;
@@ -50,13 +52,17 @@ pub(super) fn
 read_box_based_on_header
 <T: Seek + Read>
 (
-    cursor: &mut T,
-    header:  BoxHeader
+    cursor:     &mut T,
+    header:      BoxHeader,
+    in_meta_box: bool
 )
 -> Result<Box<dyn GenericIsoBox>, std::io::Error>
 {
     return match header.get_box_type()
     {
+        // A meta box can't contain another meta box
+        BoxType::meta if in_meta_box => IsoBox::construct_from_cursor(cursor, header),
+
         BoxType::meta => MetaBox::         construct_from_cursor(cursor, header),
         BoxType::iinf => ItemInfoBox::     construct_from_cursor(cursor, header),
         BoxType::iloc => ItemLocationBox:: construct_from_cursor(cursor, header),
@@ -69,13 +75,35 @@ pub(super) fn
 read_next_box
 <T: Seek + Read>
 (
-    cursor: &mut T,
+    cursor:     &mut T,
+    in_meta_box: bool
 )
 -> Result<Box<dyn GenericIsoBox>, std::io::Error>
 {
-    let header = BoxHeader::read_box_header(cursor)?;
+    let start    = cursor.stream_position()?;
+    let header   = BoxHeader::read_box_header(cursor)?;
+    let box_size = header.get_box_size();
 
     log::trace!("Read in next HEIF box - Success! Header: {:?}", header);
 
-    return read_box_based_on_header(cursor, header);
+    let next_box = read_box_based_on_header(cursor, header, in_meta_box)?;
+
+    // A size of zero tells that the box extends to the end of the file
+    if box_size != 0
+    {
+        let Some(end) = start.checked_add(box_size)
+        else
+        {
+            return io_error!(InvalidData, "Box exceeds the maximum file size");
+        };
+
+        if cursor.stream_position()? > end
+        {
+            return io_error!(InvalidData, "Box contents exceed the size of the box");
+        }
+
+        cursor.seek(SeekFrom::Start(end))?;
+    }
+
+    return Ok(next_box);
 }
\ No newline at end of file
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 5f17e97..98de0a2 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -8,15 +8,15 @@ use std::io::Seek;
 use crate::general_file_io::io_error;
 use crate::general_file_io::EXIF_HEADER;
 use crate::heif::box_type::BoxType;
-use crate::heif::boxes::item_location::ItemConstructionMethod;
+use crate::heif::as_u8_vec;
+use crate::heif::boxes::iso::IsoBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 use crate::heif::boxes::meta::MetaBox;
 use crate::heif::read_next_box;
 
 use crate::metadata::Metadata;
-use crate::util::insert_multiple_at;
-use crate::util::range_remove;
 use crate::util::read_be_u32;
+use crate::util::read_bytes;
 
 use super::boxes::GenericIsoBox;
 use super::boxes::item_info::ItemInfoBox;
@@ -84,7 +84,7 @@ HeifContainer
     {
         let mut boxes = Vec::new();
 
-        while let Ok(next_box) = read_next_box(cursor)
+        while let Ok(next_box) = read_next_box(cursor, false)
         {
             boxes.push(next_box);
         }
@@ -137,23 +137,20 @@ HeifContainer
     (
         &self
     )
-    -> Result<u16, std::io::Error>
+    -> Result<Option<u32>, std::io::Error>
     {
-        if let Ok(meta) = self.get_meta_box() 
-        {
-            if let Some(item) = meta.get_item_info_box()?.get_exif_item() {
-                return Ok(item.item_id);
-            }
-        }
-
-        return io_error!(Other, "No EXIF item found!");
+        return Ok(self.get_meta_box()?
+            .get_item_info_box()?
+            .get_exif_item()
+            .map(|item| item.item_id)
+        );
     }
 
     fn
     get_exif_data_pos_and_len
     (
         &self,
-        exif_item_id: u16,
+        exif_item_id: u32,
     )
     -> Result<(u64, u64), std::io::Error>
     {
@@ -172,14 +169,17 @@ HeifContainer
         match exif_item.get_construction_method()
         {
             super::boxes::item_location::ItemConstructionMethod::FILE => {
-                if let Some(first) = exif_extents.first() {
-                    return Ok((
-                        first.extent_offset + exif_item.base_offset,
-                        first.extent_length
-                    ));
-                } else {
-                    return io_error!(Other, "Expected one EXIF extent");
+                if exif_item.data_reference_index != 0
+                {
+                    return io_error!(Unsupported, "EXIF data is stored in another file");
                 }
+
+                let first = &exif_extents[0];
+                return match first.extent_offset.checked_add(exif_item.base_offset)
+                {
+                    Some(start) => Ok((start, first.extent_length)),
+                    None        => io_error!(InvalidData, "EXIF location exceeds the maximum file size")
+                };
             },
 
             super::boxes::item_location::ItemConstructionMethod::IDAT => {
@@ -189,6 +189,10 @@ HeifContainer
             super::boxes::item_location::ItemConstructionMethod::ITEM => {
                 return io_error!(Other, "HEIF: item constr. method 'ITEM' currently not supported. Please create a new ticket at https://github.com/TechnikTobi/little_exif with an example image file");
             },
+
+            super::boxes::item_location::ItemConstructionMethod::UNKNOWN => {
+                return io_error!(InvalidData, "HEIF: Unknown item construction method!");
+            },
         }
     }
 
@@ -202,136 +206,104 @@ HeifContainer
     -> Result<Vec<u8>, std::io::Error>
     {
         // Locate exif data
-        let exif_item_id    = self.get_item_id_exif_data()?;
+        let Some(exif_item_id) = self.get_item_id_exif_data()?
+        else
+        {
+            return io_error!(Other, "No EXIF item found!");
+        };
         let (start, length) = self.get_exif_data_pos_and_len(exif_item_id)?;
 
-        // Reset cursor to start of exif data
+        // Go to start of exif data and read it
         cursor.seek(std::io::SeekFrom::Start(start))?;
+        let exif_data = read_bytes(cursor, length)?;
 
-        // Read in the first 4 bytes, which gives the offset to the start
-        // of the TIFF header and seek to that
-        let exif_tiff_header_offset = read_be_u32(cursor)? as usize;
+        // Decode the first 4 bytes, which gives the offset to the start
+        // of the TIFF header
+        let exif_tiff_header_offset = read_be_u32(&mut Cursor::new(&exif_data))? as u64;
 
-        cursor.seek(std::io::SeekFrom::Current(exif_tiff_header_offset as i64))?;
-
-        if length < 4 + exif_tiff_header_offset as u64
+        if length < 4 + exif_tiff_header_offset
         {
             return io_error!(
                 InvalidData,
                 format!(
                     "EXIF data length ({}) is smaller than expected minimum size ({})",
                     length,
-                    4 + exif_tiff_header_offset as u64
+                    4 + exif_tiff_header_offset
                 )
             );
         }
 
-        // Read in the remaining bytes
-        let mut exif_buffer = vec![0u8; 
-            length as usize 
-            - 4                       // the 4 bytes that store the offset
-            - exif_tiff_header_offset // the actual offset
-        ];
-        cursor.read_exact(&mut exif_buffer)?;
-
         // Stick a EXIF_HEADER in the front
         let mut full_exif_data = EXIF_HEADER.to_vec();
-        full_exif_data.append(&mut exif_buffer);
+        full_exif_data.extend(&exif_data[4 + exif_tiff_header_offset as usize..]);
 
         return Ok(full_exif_data);
     }
 
-    /// Constructs a new version of the exif data area of the HEIF file
-    /// the i64 tells us the delta in bytes. If negative, the new area is
-    /// shorter than the old one, positive if longer
-    #[allow(unused_assignments)]
+    /// Creates the entries for a new EXIF item, i.e.
+    /// - an item location entry that (later) points to the EXIF data
+    /// - an item information entry that tells us that it is EXIF data
+    /// - an item reference entry that links the EXIF data to the image
     fn
-    construct_new_exif_data_area
-    <T: Seek + Read>
+    create_exif_item
     (
-        &self,
-        cursor:   &mut T,
-        metadata: &Metadata,
+        &mut self
     )
-    -> Result<(Vec<u8>, i64), std::io::Error>
+    -> Result<u32, std::io::Error>
     {
-        // The buffer containing the new metadata that gets returned
-        let mut new_exif_buffer;
-
-        // Try to locate the old exif data. 
-        let exif_item_id = self.get_item_id_exif_data()?;
+        let meta = self.get_meta_box_mut()?;
 
-        // Determine the start and length of the previous exif data area
-        let (start, length) = self.get_exif_data_pos_and_len(exif_item_id)?;
-
-        // If the length is zero, we assume that this is a previously newly 
-        // created exif data area, which requires special handling.
-        // If the length is non-zero, there has been exif data before:
-        if length > 0
-        {
-            // Reset cursor to start of exif data
-            cursor.seek(std::io::SeekFrom::Start(start))?;
-
-            // Read in all of this area
-            let mut exif_buffer = vec![0u8; length as usize];
-            cursor.read_exact(&mut exif_buffer)?;
-
-            // Decode the first 4 bytes, which tells us where to cut off the old 
-            // data and replace with the new one
-            let mut local_cursor            = Cursor::new(exif_buffer[0..4].to_vec());
-            let     exif_tiff_header_offset = read_be_u32(&mut local_cursor)?;
+        // Determine the ID for the new item
+        let largest_id = std::iter::empty()
+            .chain(meta.get_item_info_box()?    .items.iter().map(|item| item.item_id))
+            .chain(meta.get_item_location_box()?.items.iter().map(|item| item.item_id))
+            .max()
+            .unwrap_or(0);
 
-            // Cut off data, starting at the old TIFF header and replace with new
-            new_exif_buffer = exif_buffer[0..exif_tiff_header_offset as usize + 4].to_vec();
-        }
-        else
+        if largest_id >= u16::MAX as u32
         {
-            // Create a new exif header, starting with an empty TIFF header.
-            // new_exif_buffer = 0_u32.to_be_bytes().to_vec();
-            new_exif_buffer = [0x00, 0x00, 0x00, 0x06].to_vec();
-            new_exif_buffer.extend(EXIF_HEADER.to_vec());
+            return io_error!(Unsupported, "No item ID left for EXIF data");
         }
 
-        // Append the encoded metadata to the old/newly created TIFF header and
-        // compute the delta in length
-        if !metadata.get_ifds().is_empty()
-        {
-            new_exif_buffer.append(&mut metadata.encode()?);
-        }
-        let delta = new_exif_buffer.len() as i64 - length as i64;
+        let item_id         = largest_id as u16 + 1;
+        let primary_item_id = meta.get_primary_item_id().unwrap_or(1);
 
-        return Ok((
-            new_exif_buffer,
-            delta 
-        ));
-    }
+        // If there is no iref box yet, create one so we can find one
+        meta.create_new_item_reference_box_if_none_exists_yet()?;
 
-
-    fn
-    get_start_address_for_new_exif_area
-    (
-        &self
-    )
-    -> u64
-    {
-        // Assumes that the new exif area that gets created should start at the
-        // end of the mdat area
-
-        let mut byte_count = 0;
-
-        for b in &self.boxes
+        for other_box in &mut meta.other_boxes
         {
-            byte_count += b.get_header().get_box_size();
+            let other_box = other_box.as_any_mut();
 
-            if b.get_header().get_box_type() == BoxType::mdat
+            if let Some(iloc) = other_box.downcast_mut::<ItemLocationBox>()
+            {
+                iloc.create_new_item_location_entry(item_id);
+            }
+            else if let Some(iinf) = other_box.downcast_mut::<ItemInfoBox>()
+            {
+                iinf.create_new_exif_item_info_entry(item_id);
+            }
+            else if let Some(iref) = other_box.downcast_mut::<ItemReferenceBox>()
             {
-                return byte_count as u64;
+                if iref.get_header().get_version() == 0 && primary_item_id > u16::MAX as u32
+                {
+                    return io_error!(Unsupported, "ID of primary item is too large for iref box");
+                }
+
+                iref.create_new_single_item_reference_box(
+                    "cdsc",             // TODO: Check if this is always this type?
+                    item_id as u32, 
+                    vec![primary_item_id]
+                );
             }
         }
 
-        return u64::MAX;
-    }
+        // Fix up the size of the meta box as well
+        let new_box_size = meta.serialize().len() as u64;
+        meta.get_header_mut().set_box_size(new_box_size);
 
+        return Ok(item_id as u32);
+    }
 
     pub(super) fn
     generic_write_metadata
@@ -342,262 +314,213 @@ HeifContainer
     )
     -> Result<(), std::io::Error>
     {
-        // Find out where old exif is located, needed to determine which iloc
-        // entries need to be updated
-        let mut id = self.get_item_id_exif_data();
+        // The new exif data area
+        let new_exif_area = as_u8_vec(&metadata.encode()?);
+
+        // As the boxes get serialized again later, make sure that this gives
+        // us what has been read in. There may be additional data at the end
+        // that is not part of any box
+        let mut box_starts = Vec::new();
+        let mut serialized = Vec::new();
+        for iso_box in &self.boxes
+        {
+            box_starts.push(serialized.len() as u64);
+            serialized.extend(iso_box.serialize());
+        }
 
-        // Check that the ID is okay - if not, there is no exif area yet and
-        // we need to create one!
-        if id.is_err()
+        if !file_buffer.starts_with(&serialized)
         {
-            // What we need to do at this point is
-            // - Create a new item location entry that points to the EXIF data
-            // - Create an item information entry that tells us that the iloc 
-            //   entry points to EXIF data
-            // - Create an item reference entry that links the EXIF data to the
-            //   image/iloc ID #1 -> is this always #1?
-
-            // Where to put the new exif area
-            let new_exif_start = self.get_start_address_for_new_exif_area();
-
-            // If there is no iref box yet, create one so we can find one,
-            // and get the size delta of the new box for extents
-            let mut iref_size_delta = self.get_meta_box_mut()?.create_new_item_reference_box_if_none_exists_yet();
-
-            // Acquire the item location, the item information and the item 
-            // reference boxes that are inside the meta box. For some reason, 
-            // this is not trivial - using e.g. get_item_location_box_mut() 
-            // does not work due to (according to the borrow checker) multiple 
-            // mutable usages of self
-            let mut iloc_opt = None;
-            let mut iinf_opt = None;
-            let mut iref_opt = None;
-
-            let meta_mut_ref = self.get_meta_box_mut()?;
-            for other_box in &mut meta_mut_ref.other_boxes
-            {
-                if other_box.get_header().get_box_type() == BoxType::iloc
-                {
-                    iloc_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemLocationBox>();
-                }
-                else if other_box.get_header().get_box_type() == BoxType::iinf
-                {
-                    iinf_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemInfoBox>();
-                }
-                else if other_box.get_header().get_box_type() == BoxType::iref
-                {
-                    iref_opt = other_box
-                        .as_any_mut()
-                        .downcast_mut::<ItemReferenceBox>();
-                }
-            }
+            return io_error!(Unsupported, "HEIF: Can't reproduce all boxes of the file");
+        }
 
-            let iloc = match iloc_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iloc box should exist"),
-            };
-            let iinf = match iinf_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iinf box should exist"),
-            };
-            let iref = match iref_opt {
-                Some(v) => v,
-                None => return io_error!(Other, "iref box should exist"),
-            };
+        let end_of_boxes = serialized.len() as u64;
+        let tail         = file_buffer[serialized.len()..].to_vec();
+        drop(serialized);
 
-            // Note that the given `new_exif_start` value is based on old
-            // length values (which change due to adding a new item to both the
-            // iloc and iinf boxes) - but this does not matter as this will 
-            // be updated anyway later by `add_to_extents`
-            // This way, we don't need any exception during the update procedure
-            let (new_iloc_id, iloc_size_delta) = iloc.create_new_item_location_entry(
-                new_exif_start,
-                0
-            );
-            let               iinf_size_delta  = iinf.create_new_item_info_entry(
-                new_iloc_id, 
-                "Exif"
-            );
-                              iref_size_delta += iref.create_new_single_item_reference_box(
-                "cdsc",             // TODO: Check if this is always this type?
-                new_iloc_id, 
-                vec![1]             // TODO: Check if this is always item #1?
-            );
+        let get_box_end = |index: usize| box_starts.get(index + 1).copied().unwrap_or(end_of_boxes);
 
-            // Fix the extents in the iloc box
-            iloc.add_to_extents(
-                (iloc_size_delta + iinf_size_delta + iref_size_delta) as i64
-            );
+        let Some(meta_index) = self.boxes.iter()
+            .position(|b| b.get_header().get_box_type() == BoxType::meta)
+        else
+        {
+            return io_error!(Other, "No meta box found in HEIF container");
+        };
+
+        let meta_end      = get_box_end(meta_index);
+        let old_meta_size = self.boxes[meta_index].serialize().len() as i64;
 
-            // Fix up the size of the meta box as well
-            let new_box_size = self.get_meta_box()?.serialize().len() as u64;
-            self.get_meta_box_mut()?.get_header_mut().set_box_size(new_box_size);
+        // Find out where old exif is located, and in which box. If there is no
+        // exif area yet the new one gets created at the end of the mdat area
+        let exif_item_id;
+        let exif_box_index;
+        let (old_exif_start, old_exif_end);
+        let mut new_header_size = 0;
 
-            // No change to the mdat data at this point as we set up the
-            // iloc item so that the exif area currently has a length of zero
+        if let Some(id) = self.get_item_id_exif_data()?
+        {
+            let (start, length) = self.get_exif_data_pos_and_len(id)?;
 
-            // Now we have a valid exif area with an iloc ID!
-            id = Ok(new_iloc_id as u16);
+            exif_item_id   = id;
+            old_exif_start = start;
+            old_exif_end   = start.saturating_add(length);
+
+            exif_box_index = match (0..self.boxes.len()).find(|index| {
+                old_exif_start >= box_starts[*index] + self.boxes[*index].get_header().get_header_size()
+                &&
+                old_exif_end   <= get_box_end(*index)
+            })
+            {
+                Some(index) => index,
+                None        => return io_error!(InvalidData, "EXIF data is not located in a box"),
+            };
         }
+        else
+        {
+            exif_item_id = self.create_exif_item()?;
 
-        // Get position and length of current exif area
-        let (old_exif_pos, old_exif_len) = match &id {
-            Ok(idv) => self.get_exif_data_pos_and_len(*idv)?,
-            Err(_) => (0, 0),
-        };
+            exif_box_index = match self.boxes.iter()
+                .position(|b| b.get_header().get_box_type() == BoxType::mdat)
+            {
+                Some(index) => index,
+                None        => {
+                    if self.boxes.iter().any(|b| b.get_header().get_box_size() == 0)
+                    {
+                        return io_error!(Unsupported, "Can't add another box at the end of the file");
+                    }
+
+                    let new_box = IsoBox::new_media_data_box();
+                    new_header_size = new_box.get_header().get_header_size();
+
+                    self.boxes.push(Box::new(new_box));
+                    self.boxes.len() - 1
+                }
+            };
 
-        // Get cursor for file
-        let mut cursor = Cursor::new(file_buffer);
+            old_exif_end   = get_box_end(exif_box_index);
+            old_exif_start = old_exif_end;
+        }
 
-        // Construct new exif data area
-        let (mut new_exif_area, delta) = self.construct_new_exif_data_area(
-            &mut cursor, 
-            metadata
-        )?;
+        // By how much did the meta box and the exif data area change?
+        let meta_delta = self.boxes[meta_index].serialize().len() as i64 - old_meta_size;
+        let exif_delta = new_exif_area.len() as i64 - (old_exif_end - old_exif_start) as i64;
 
-        let meta_mut = self.get_meta_box_mut()?;
-        for item in &mut meta_mut.get_item_location_box_mut()?.items
+        // Determines where an area of the old file is located in the new file 
+        let get_new_position = |position: u64, length: u64| -> Result<u64, std::io::Error>
         {
-            // First, check if any extent of this item has the same offset as
-            // the old exif data area. In that case, there must be only one
-            // extent - other cases can't be handled right now
-            if item.extents.iter()
-                .any(|extent| {
-                    item.base_offset + extent.extent_offset == old_exif_pos
-                })
-            {
-                assert!(item.extents.len() == 1, "Expect to have exactly one extent info for EXIF!");
+            let end = position.saturating_add(length);
 
-                // In case of the EXIF extent information we need to update
-                // the length information, not the offset!
-                let first_extent = match item.extents.first() {
-                    Some(f) => f,
-                    None => return io_error!(Other, "Expected one extent for EXIF"),
-                };
-                let new_ext_len = (
-                    first_extent.extent_length as i64
-                    + delta
-                ) as u64;
-                match item.extents.first_mut() {
-                    Some(fm) => fm.extent_length = new_ext_len,
-                    None => return io_error!(Other, "Expected one extent for EXIF (mut)"),
-                }
-
-                 continue;
+            let overlaps_exif = if length == 0
+            {
+                position > old_exif_start && position < old_exif_end
             }
-
-            if item.get_construction_method() == ItemConstructionMethod::IDAT
+            else if old_exif_start == old_exif_end
             {
-                // In this case the offset information is relative to the
-                // position of an idat box -> not affected by change in length
-                // of another box
-                continue;
+                position < old_exif_start && end > old_exif_end
             }
+            else
+            {
+                position < old_exif_end && end > old_exif_start
+            };
 
-            if item.get_construction_method() == ItemConstructionMethod::ITEM
+            if overlaps_exif
             {
-                // Offset is relative to another item's extent
-                // Also nothing to do here (for now...)
-                continue;
+                return io_error!(Unsupported, "HEIF: EXIF data overlaps with other data");
             }
 
-            if item.data_reference_index != 0
+            if meta_delta != 0 && position < meta_end && end > meta_end
             {
-                // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
-                // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
-                continue;
+                return io_error!(Unsupported, "HEIF: Meta box overlaps with other data");
             }
 
-            if item.base_offset > delta.unsigned_abs()
+            let mut new_position = position as i64;
+
+            if position >= meta_end     { new_position += meta_delta; }
+            if position >= old_exif_end { new_position += exif_delta + new_header_size as i64; }
+
+            return Ok(new_position as u64);
+        };
+
+        // The start of the exif area only gets moved due to the meta box and in
+        // case of a new box its header
+        let new_exif_start = new_header_size + if old_exif_start >= meta_end
+            { (old_exif_start as i64 + meta_delta) as u64 }
+            else
+            { old_exif_start };
+
+        // Update the locations of the items
+        for other_box in &mut self.get_meta_box_mut()?.other_boxes
+        {
+            if let Some(iloc) = other_box.as_any_mut().downcast_mut::<ItemLocationBox>()
             {
-                // Potentially modify the entire base offset 
-                // however, we can only do that if all complete offsets
-                // point to an area after the exif data area
-                // So we need to check that first:
-                if item.extents.iter()
-                    .all(|extent| {
-                        item.base_offset + extent.extent_offset >= old_exif_pos
-                    })
-                {
-                    item.base_offset = (item.base_offset as i64 + delta) as u64;
-                    continue;
-                }
+                iloc.relocate_items(exif_item_id, get_new_position)?;
+                iloc.set_item_location(
+                    exif_item_id, 
+                    new_exif_start, 
+                    new_exif_area.len() as u64
+                )?;
             }
+        }
 
-            // At this point we have no option left but to modify all 
-            // individual extent offsets
-            for extent in &mut item.extents
+        // Update the locations of data of image sequences
+        if meta_delta != 0 || exif_delta != 0
+        {
+            for iso_box in &mut self.boxes
             {
-                let complete_offset = item.base_offset + extent.extent_offset;
-
-                if complete_offset > old_exif_pos
+                match iso_box.get_header().get_box_type().to_4_bytes().as_slice()
                 {
-                    extent.extent_offset = (extent.extent_offset as i64 + delta) as u64;
+                    b"moov" => if let Some(moov) = iso_box.as_any_mut().downcast_mut::<IsoBox>()
+                    {
+                        relocate_chunks(moov.get_data_mut(), &get_new_position)?;
+                    },
+
+                    b"moof" => return io_error!(Unsupported, "HEIF: Can't modify files with movie fragments"),
+
+                    _       => ()
                 }
             }
         }
 
-        // Now we clear the vec and write the boxes to it
-        // Keep track of how many bytes were written so we know when to 
-        // replace old exif data with new
-        cursor.get_mut().clear();
-
-        let mut written_bytes    = 0usize;
-        let mut new_exif_written = false;
-        let     end_of_old_exif  = (old_exif_pos + old_exif_len) as usize;
+        // Replace the old exif data within its box
+        let exif_box = &mut self.boxes[exif_box_index];
+        let box_size = exif_box.get_header().get_box_size();
+        let new_size = (box_size as i64 + exif_delta) as u64;
 
-        for iso_box in &mut self.boxes
+        // A size of zero tells that the box extends to the end of the file
+        if box_size != 0
         {
-            let mut serialized = iso_box.serialize();
-
-            // If this box encompasses the exif data area, update its size and
-            // serialize it again
-            // TODO: As this is not the cleanest approach (e.g. what if the
-            // exif area is not in this top level box but some nested box? 
-            // -> requires update of size fields of all boxes "downward") some
-            // other solution needs to be found for this
-            // In the meantime, this should work for the majority of HEIFs
-            if 
-                written_bytes + serialized.len() >= end_of_old_exif 
-                && 
-                !new_exif_written
+            if new_size > u32::MAX as u64 && !exif_box.get_header().is_largesize()
             {
-                let new_size = (iso_box.get_header().get_box_size() as i64 + delta) as u64;
-                iso_box.get_header_mut().set_box_size(new_size);
-                serialized = iso_box.serialize();
-
-                // Write the serialized box with the OLD exif data
-                cursor.get_mut().extend(&serialized);
-
-                // Remove old exif data
-                range_remove(
-                    cursor.get_mut(), 
-                    old_exif_pos as usize, 
-                    (old_exif_pos + old_exif_len) as usize
-                );
+                return io_error!(Unsupported, "HEIF: Box is too large for EXIF data");
+            }
 
-                // Insert new exif data
-                insert_multiple_at(
-                    cursor.get_mut(),
-                    old_exif_pos as usize, 
-                    &mut new_exif_area
-                );
+            exif_box.get_header_mut().set_box_size(new_size);
+        }
 
-                new_exif_written = true;
-            }
-            else
-            {
-                // Just extend with the serialized box contents
-                cursor.get_mut().extend(&serialized);
-            }
+        let header_size = exif_box.get_header().get_header_size();
+        let Some(exif_box) = exif_box.as_any_mut().downcast_mut::<IsoBox>()
+        else
+        {
+            return io_error!(Unsupported, "HEIF: EXIF data is located in an unexpected box");
+        };
+
+        let data_start = match box_starts.get(exif_box_index)
+        {
+            Some(start) => start + header_size,
+            None        => end_of_boxes
+        };
 
-            written_bytes += serialized.len();
+        exif_box.get_data_mut().splice(
+            (old_exif_start - data_start) as usize..(old_exif_end - data_start) as usize, 
+            new_exif_area
+        );
+
+        // Finally, put everything together
+        file_buffer.clear();
+        for iso_box in &self.boxes
+        {
+            file_buffer.extend(iso_box.serialize());
         }
+        file_buffer.extend(tail);
 
         return Ok(());
     }
@@ -623,13 +546,20 @@ HeifContainer
         // Note: It is up for debate whether keeping this information is wanted
         // or not/this should write a truly empty exif area
 
+        if self.get_item_id_exif_data()?.is_none()
+        {
+            // Nothing to clear
+            return Ok(());
+        }
+
         // Create cursor
         let mut cursor = Cursor::new(file_buffer);
 
-        // Read original metadata
+        // Read original metadata. If this is not possible then there is nothing
+        // that can be kept
         let orig_metadata = Metadata::general_decoding_wrapper(
             self.get_exif_data(&mut cursor)
-        )?;
+        ).unwrap_or_else(|_| Metadata::new());
 
         // Construct new metadata that only contains the above tags
         let mut new_metadata = Metadata::new();
@@ -661,3 +591,69 @@ HeifContainer
         return self.generic_write_metadata(cursor.get_mut(), &new_metadata);
     }
 }
+
+/// Updates the locations of the chunks of image sequences that are stored in
+/// (the descendants of) the `moov` box, given the data of the box
+/// See ISO/IEC 14496-12:2015 § 8.7.5
+fn
+relocate_chunks
+<F: Fn(u64, u64) -> Result<u64, std::io::Error>>
+(
+    data:         &mut [u8],
+    new_position: &F
+)
+-> Result<(), std::io::Error>
+{
+    let mut remaining = data;
+
+    while !remaining.is_empty()
+    {
+        if remaining.len() < 8
+        {
+            return io_error!(InvalidData, "HEIF: Incomplete box in moov box");
+        }
+
+        let size     = u32::from_be_bytes([remaining[0], remaining[1], remaining[2], remaining[3]]) as usize;
+        let box_type = [remaining[4], remaining[5], remaining[6], remaining[7]];
+
+        if size < 8 || size > remaining.len()
+        {
+            return io_error!(InvalidData, "HEIF: Invalid box size in moov box");
+        }
+
+        let (current, next) = remaining.split_at_mut(size);
+        let content         = &mut current[8..];
+
+        match &box_type
+        {
+            b"trak" | b"mdia" | b"minf" | b"stbl"
+                => relocate_chunks(content, new_position)?,
+
+            // Version, flags and number of entries come first
+            b"stco" => for entry in content.chunks_exact_mut(4).skip(2)
+            {
+                let position = u32::from_be_bytes([entry[0], entry[1], entry[2], entry[3]]) as u64;
+                let Ok(position) = u32::try_from(new_position(position, 0)?)
+                else
+                {
+                    return io_error!(Unsupported, "HEIF: Chunk offset can't be stored");
+                };
+                entry.copy_from_slice(&position.to_be_bytes());
+            },
+
+            b"co64" => for entry in content.get_mut(8..).unwrap_or(&mut []).chunks_exact_mut(8)
+            {
+                let mut position = [0u8; 8];
+                position.copy_from_slice(entry);
+                let position = new_position(u64::from_be_bytes(position), 0)?;
+                entry.copy_from_slice(&position.to_be_bytes());
+            },
+
+            _ => ()
+        }
+
+        remaining = next;
+    }
+
+    return Ok(());
+}
diff --git a/src/heif/mod.rs b/src/heif/mod.rs
index 155fc9a..6e1c356 100644
--- a/src/heif/mod.rs
+++ b/src/heif/mod.rs
@@ -14,11 +14,10 @@ mod container;
 use std::io::Cursor;
 use std::io::Read;
 use std::io::Seek;
-use std::io::Write;
 use std::path::Path;
 
 use crate::general_file_io::open_read_file;
-use crate::general_file_io::open_write_file;
+use crate::general_file_io::overwrite_file;
 
 use crate::general_file_io::EXIF_HEADER;
 use crate::metadata::Metadata;
@@ -86,22 +85,15 @@ file_write_metadata
 {
     // Load the entire file into memory instead of performing multiple read, 
     // seek and write operations
-    let mut file = open_write_file(path)?;
     let mut file_buffer: Vec<u8> = Vec::new();
-    file.read_to_end(&mut file_buffer)?;
+    open_read_file(path)?.read_to_end(&mut file_buffer)?;
 
     let mut cursor    = Cursor::new(file_buffer);
     let mut container = HeifContainer::construct_from_cursor_unboxed(&mut cursor)?;
 
     container.generic_write_metadata(cursor.get_mut(), metadata)?;
 
-    // Seek back to start, write the file and adjust its length, possibly 
-    // truncating the file if new contents are shorter
-    file.seek(std::io::SeekFrom::Start(0))?;
-    file.write_all(cursor.get_ref())?;
-    file.set_len(cursor.get_ref().len() as u64)?;
-
-    return Ok(());
+    return overwrite_file(path, cursor.get_ref());
 }
 
 /// Encodes the given metadata into a vector of bytes that can be used as
@@ -149,20 +141,13 @@ file_clear_metadata
 {
     // Load the entire file into memory instead of performing multiple read, 
     // seek and write operations
-    let mut file = open_write_file(path)?;
     let mut file_buffer: Vec<u8> = Vec::new();
-    file.read_to_end(&mut file_buffer)?;
+    open_read_file(path)?.read_to_end(&mut file_buffer)?;
 
     let mut cursor    = Cursor::new(file_buffer);
     let mut container = HeifContainer::construct_from_cursor_unboxed(&mut cursor)?;
 
     container.generic_clear_metadata(cursor.get_mut())?;
 
-    // Seek back to start, write the file and adjust its length, possibly 
-    // truncating the file if new contents are shorter
-    file.seek(std::io::SeekFrom::Start(0))?;
-    file.write_all(cursor.get_ref())?;
-    file.set_len(cursor.get_ref().len() as u64)?;
-
-    return Ok(());
+    return overwrite_file(path, cursor.get_ref());
 }
diff --git a/src/util.rs b/src/util.rs
index 4ff3397..a33db9b 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -161,30 +161,26 @@ read_be_u64
     return Ok(value);
 }
 
+/// Reads exactly the given number of bytes. In contrast to `read_exact` with a
+/// preallocated vector the memory required is limited by what is available for
+/// reading, not by the (potentially bogus) number of bytes requested
 pub(crate) fn
-read_null_terminated_string
-<T: Seek + Read>
+read_bytes
+<T: Read>
 (
-    cursor: &mut T
+    cursor: &mut T,
+    length: u64
 )
--> Result<String, std::io::Error>
+-> Result<Vec<u8>, std::io::Error>
 {
-    let mut string_buffer    = Vec::new();
-    let mut character_buffer = read_1_bytes(cursor)?;
-    while character_buffer[0] != 0x00
+    let mut buffer = Vec::new();
+
+    if cursor.take(length).read_to_end(&mut buffer)? as u64 != length
     {
-        string_buffer.push(character_buffer[0]);
-        character_buffer = read_1_bytes(cursor)?;
+        return io_error!(UnexpectedEof, "Not enough data left to read");
     }
 
-    return String::from_utf8(string_buffer).map_err(
-        |_e| 
-        std::io::Error::new
-        (
-            std::io::ErrorKind::InvalidData,
-            "Could not convert byte data to UTF-8 string!"
-        )
-    );
+    return Ok(buffer);
 }
 
 
@@ -227,36 +223,6 @@ where T: Copy
     }
 }
 
-/// Removes a section in the middle of a vector. The element at index `start` 
-/// is where the removal starts, up to the element prior to at index `end`
-/// The element originally positioned at `end` will survive. 
-pub(crate) fn
-range_remove<T>
-(
-    vec:   &mut Vec<T>,
-    start: usize,
-    end:   usize
-)
-where T: Copy
-{
-    // Invalid input, nothing to do here
-    if start > end { return; }
-
-    let old_vec_len = vec.len();
-
-    // Simply truncating is sufficient in this case
-    if end >= old_vec_len { vec.truncate(start); return; }
-
-    // Otherwise, move the elements starting at end over to the left
-    for (dst_offset, src_index) in (end..old_vec_len).enumerate()
-    {
-        vec[start + dst_offset] = vec[src_index];
-    }
-
-    // Resize the vector to cut off any residue from the shifting operations
-    let new_vec_len = old_vec_len - (end - start);
-    vec.truncate(new_vec_len);
-}
 
 /*
 /// Inserts a slice into a vector at a given offset, shifting elements 
@@ -331,4 +297,4 @@ where T: Copy
         },
     }
 }
-*/
\ No newline at end of file
+*/
-- 
2.43.0


From 291befe9637d3618595a0108feb5f819443788ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:51 +0000
Subject: [PATCH 19/41] fix: read item references of any type in iref boxes of
 HEIF files

---
 src/heif/box_header.rs           | 29 ++++++++++++++++++++++++++++-
 src/heif/boxes/item_reference.rs |  2 +-
 2 files changed, 29 insertions(+), 2 deletions(-)

diff --git a/src/heif/box_header.rs b/src/heif/box_header.rs
index 258db78..6b4ef79 100644
--- a/src/heif/box_header.rs
+++ b/src/heif/box_header.rs
@@ -93,12 +93,39 @@ BoxHeader
         cursor: &mut T
     )
     -> Result<Self, std::io::Error>
+    {
+        return Self::read_header(cursor, BoxType::from_4_bytes);
+    }
+
+    /// Reads the header of a box located in an iref box. There, the type tells
+    /// the kind of reference. It may have the same name as another box (like 
+    /// `iloc`), but the box itself never is a full box
+    /// See ISO/IEC 14496-12:2015 § 8.11.12.2
+    pub(super) fn
+    read_reference_box_header
+    <T: Seek + Read>
+    (
+        cursor: &mut T
+    )
+    -> Result<Self, std::io::Error>
+    {
+        return Self::read_header(cursor, |box_type| BoxType::unknown { box_type });
+    }
+
+    fn
+    read_header
+    <T: Seek + Read>
+    (
+        cursor:         &mut T,
+        determine_type: impl Fn([u8; 4]) -> BoxType
+    )
+    -> Result<Self, std::io::Error>
     {
         // Read in the size
         let box_size = read_be_u32(cursor)?;
 
         // Read in the box type
-        let box_type = BoxType::from_4_bytes(read_4_bytes(cursor)?);
+        let box_type = determine_type(read_4_bytes(cursor)?);
 
         let mut header = Self {
             box_size:    box_size as u64,
diff --git a/src/heif/boxes/item_reference.rs b/src/heif/boxes/item_reference.rs
index 5b3cf4c..561ed73 100644
--- a/src/heif/boxes/item_reference.rs
+++ b/src/heif/boxes/item_reference.rs
@@ -48,7 +48,7 @@ SingleItemTypeReferenceBox
     )
     -> Result<Self, std::io::Error>
     {
-        let     header     = BoxHeader::read_box_header(cursor)?;
+        let     header     = BoxHeader::read_reference_box_header(cursor)?;
         let mut to_item_ID = Vec::new();
 
         // Depending on the version stored in the header of the iref box,
-- 
2.43.0


From 6bcaecd65ed6247952816a04879837b98d3444f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:19 +0000
Subject: [PATCH 20/41] fix: link new HEIF EXIF items to an existing item

---
 src/heif/container.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 98de0a2..e3944b4 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -266,7 +266,13 @@ HeifContainer
         }
 
         let item_id         = largest_id as u16 + 1;
-        let primary_item_id = meta.get_primary_item_id().unwrap_or(1);
+
+        // If there is no primary item then refer to the first item there is
+        let primary_item_id = match meta.get_primary_item_id()
+        {
+            Some(primary_item_id) => primary_item_id,
+            None => meta.get_item_info_box()?.items.first().map(|item| item.item_id).unwrap_or(1)
+        };
 
         // If there is no iref box yet, create one so we can find one
         meta.create_new_item_reference_box_if_none_exists_yet()?;
-- 
2.43.0


From ed8b5c4c77124b536acfd8841b1d7c9117d83529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:47 +0000
Subject: [PATCH 21/41] fix: limit the size of decompressed EXIF data in JXL
 files

---
 src/jxl.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index e2dfa8b..e070c6f 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -30,6 +30,8 @@ pub(crate) const ISO_BMFF_EXIF_MINOR_VERSION: [u8; 4] = [0x00, 0x00, 0x00, 0x06]
 
 pub(crate) const BROB_BOX: [u8; 4] = [0x62, 0x72, 0x6f, 0x62];
 
+const MAX_DECOMPRESSED_EXIF_SIZE: u64 = 32 * 1024 * 1024;
+
 #[non_exhaustive]
 struct IsoBmffBoxType;
 
@@ -254,11 +256,16 @@ read_metadata
                 return Ok(exif_data.to_vec());
             }
 
+            // Limit the size as a few bytes may decompress to many gigabytes
             let mut decompressed_exif_buffer = Vec::new();
-            brotli::BrotliDecompress(
-                &mut Cursor::new(exif_data), 
-                &mut decompressed_exif_buffer
-            )?;
+            brotli::Decompressor::new(Cursor::new(exif_data), 4096)
+                .take(MAX_DECOMPRESSED_EXIF_SIZE + 1)
+                .read_to_end(&mut decompressed_exif_buffer)?;
+
+            if decompressed_exif_buffer.len() as u64 > MAX_DECOMPRESSED_EXIF_SIZE
+            {
+                return io_error!(InvalidData, "Decompressed EXIF box in JXL data is too large!");
+            }
 
             // Ignore the offset of the TIFF header here as well
             return match decompressed_exif_buffer.get(4..)
-- 
2.43.0


From b33432be8f9ee24d0ba982ea780cb2c68663f7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:25 +0000
Subject: [PATCH 22/41] fix: clear the EXIF data of all images in a HEIF file

A HEIF file may hold an Exif item for each of several images, but clearing
only emptied the first of them.
---
 src/heif/boxes/item_info.rs |  2 +-
 src/heif/container.rs       | 74 ++++++++++++++++++++++++++++++++-----
 2 files changed, 66 insertions(+), 10 deletions(-)

diff --git a/src/heif/boxes/item_info.rs b/src/heif/boxes/item_info.rs
index 0b62ab9..ff39303 100644
--- a/src/heif/boxes/item_info.rs
+++ b/src/heif/boxes/item_info.rs
@@ -138,7 +138,7 @@ ItemInfoEntryBox
         });
     }
 
-    fn
+    pub(crate) fn
     is_exif_item
     (
         &self
diff --git a/src/heif/container.rs b/src/heif/container.rs
index e3944b4..1c85796 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -211,6 +211,20 @@ HeifContainer
         {
             return io_error!(Other, "No EXIF item found!");
         };
+
+        return self.get_exif_data_of_item(cursor, exif_item_id);
+    }
+
+    fn
+    get_exif_data_of_item
+    <T: Seek + Read>
+    (
+        &self,
+        cursor:       &mut T,
+        exif_item_id: u32,
+    )
+    -> Result<Vec<u8>, std::io::Error>
+    {
         let (start, length) = self.get_exif_data_pos_and_len(exif_item_id)?;
 
         // Go to start of exif data and read it
@@ -319,6 +333,22 @@ HeifContainer
         metadata:    &    Metadata
     )
     -> Result<(), std::io::Error>
+    {
+        let old_exif_item_id = self.get_item_id_exif_data()?;
+
+        return self.write_exif_item(file_buffer, metadata, old_exif_item_id);
+    }
+
+    /// Writes the metadata to the given EXIF item, or to a new one
+    fn
+    write_exif_item
+    (
+        &mut self,
+        file_buffer:      &mut Vec<u8>,
+        metadata:         &    Metadata,
+        old_exif_item_id: Option<u32>
+    )
+    -> Result<(), std::io::Error>
     {
         // The new exif data area
         let new_exif_area = as_u8_vec(&metadata.encode()?);
@@ -362,7 +392,7 @@ HeifContainer
         let (old_exif_start, old_exif_end);
         let mut new_header_size = 0;
 
-        if let Some(id) = self.get_item_id_exif_data()?
+        if let Some(id) = old_exif_item_id
         {
             let (start, length) = self.get_exif_data_pos_and_len(id)?;
 
@@ -540,6 +570,38 @@ HeifContainer
         file_buffer: &mut Vec<u8>,
     )
     -> Result<(), std::io::Error>
+    {
+        // There may be EXIF data for more than just one image
+        let exif_item_ids = self.get_meta_box()?
+            .get_item_info_box()?
+            .items.iter()
+            .filter(|item| item.is_exif_item())
+            .map(|item| item.item_id)
+            .collect::<Vec<u32>>();
+
+        let mut new_file_buffer = file_buffer.clone();
+
+        for exif_item_id in exif_item_ids
+        {
+            let mut cursor    = Cursor::new(&mut new_file_buffer);
+            let mut container = Self::construct_from_cursor_unboxed(&mut cursor)?;
+
+            container.clear_exif_item(cursor.get_mut(), exif_item_id)?;
+        }
+
+        *file_buffer = new_file_buffer;
+
+        return Ok(());
+    }
+
+    fn
+    clear_exif_item
+    (
+        &mut self,
+        file_buffer:  &mut Vec<u8>,
+        exif_item_id: u32
+    )
+    -> Result<(), std::io::Error>
     {
         // Instead of truly clearing the metadata, just write an empty 
         // exif data area
@@ -552,19 +614,13 @@ HeifContainer
         // Note: It is up for debate whether keeping this information is wanted
         // or not/this should write a truly empty exif area
 
-        if self.get_item_id_exif_data()?.is_none()
-        {
-            // Nothing to clear
-            return Ok(());
-        }
-
         // Create cursor
         let mut cursor = Cursor::new(file_buffer);
 
         // Read original metadata. If this is not possible then there is nothing
         // that can be kept
         let orig_metadata = Metadata::general_decoding_wrapper(
-            self.get_exif_data(&mut cursor)
+            self.get_exif_data_of_item(&mut cursor, exif_item_id)
         ).unwrap_or_else(|_| Metadata::new());
 
         // Construct new metadata that only contains the above tags
@@ -594,7 +650,7 @@ HeifContainer
             new_metadata.set_tag(tag.clone());
         }
 
-        return self.generic_write_metadata(cursor.get_mut(), &new_metadata);
+        return self.write_exif_item(cursor.get_mut(), &new_metadata, Some(exif_item_id));
     }
 }
 
-- 
2.43.0


From e15f18b5e19c618cd9e002968c46e31b9bc8e858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:55 +0000
Subject: [PATCH 23/41] fix: find an ID for new EXIF items in HEIF files with
 large item IDs

---
 src/heif/container.rs | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 1c85796..08f0c14 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -267,19 +267,21 @@ HeifContainer
     {
         let meta = self.get_meta_box_mut()?;
 
-        // Determine the ID for the new item
-        let largest_id = std::iter::empty()
+        // Determine the ID for the new item. As the versions of the boxes that
+        // are already there may not allow for larger numbers this has to be
+        // one that fits into 16 bits
+        let used_ids = std::iter::empty()
             .chain(meta.get_item_info_box()?    .items.iter().map(|item| item.item_id))
             .chain(meta.get_item_location_box()?.items.iter().map(|item| item.item_id))
-            .max()
-            .unwrap_or(0);
+            .collect::<std::collections::BTreeSet<u32>>();
 
-        if largest_id >= u16::MAX as u32
+        let next_id = used_ids.last().map_or(1, |largest_id| largest_id.saturating_add(1));
+        let Some(item_id) = u16::try_from(next_id).ok()
+            .or_else(|| (1..=u16::MAX).find(|id| !used_ids.contains(&(*id as u32))))
+        else
         {
             return io_error!(Unsupported, "No item ID left for EXIF data");
-        }
-
-        let item_id         = largest_id as u16 + 1;
+        };
 
         // If there is no primary item then refer to the first item there is
         let primary_item_id = match meta.get_primary_item_id()
-- 
2.43.0


From 294c7979d51494dbeaeaf38e7462be04ed083fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 24/41] fix: don't give new EXIF items in HEIF files the ID of
 an entity group

---
 src/heif/boxes/meta.rs | 34 ++++++++++++++++++++++++++++++++++
 src/heif/container.rs  |  1 +
 2 files changed, 35 insertions(+)

diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 207c3d8..1d16238 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -126,6 +126,40 @@ MetaBox
         };
     }
 
+    /// Provides the IDs of the entity groups, which share their number space
+    /// with the items, see ISO/IEC 23008-12:2017, § 9.4.1
+    pub(crate) fn
+    get_entity_group_ids
+    (
+        &self
+    )
+    -> Vec<u32>
+    {
+        let mut group_ids = Vec::new();
+
+        for other_box in &self.other_boxes
+        {
+            let Some(iso_box) = other_box.as_any().downcast_ref::<IsoBox>() else { continue };
+
+            if iso_box.get_header().get_box_type() != (BoxType::unknown { box_type: *b"grpl" })
+            {
+                continue;
+            }
+
+            // Each group starts with size, type, version & flags and its ID
+            let mut remaining = iso_box.get_data();
+            while let [s0, s1, s2, s3, _, _, _, _, _, _, _, _, i0, i1, i2, i3, ..] = remaining
+            {
+                group_ids.push(u32::from_be_bytes([*i0, *i1, *i2, *i3]));
+
+                let size  = u32::from_be_bytes([*s0, *s1, *s2, *s3]) as usize;
+                remaining = remaining.get(std::cmp::max(size, 16)..).unwrap_or(&[]);
+            }
+        }
+
+        return group_ids;
+    }
+
     pub(crate) fn
     create_new_item_reference_box_if_none_exists_yet
     (
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 08f0c14..1f3a599 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -273,6 +273,7 @@ HeifContainer
         let used_ids = std::iter::empty()
             .chain(meta.get_item_info_box()?    .items.iter().map(|item| item.item_id))
             .chain(meta.get_item_location_box()?.items.iter().map(|item| item.item_id))
+            .chain(meta.get_entity_group_ids())
             .collect::<std::collections::BTreeSet<u32>>();
 
         let next_id = used_ids.last().map_or(1, |largest_id| largest_id.saturating_add(1));
-- 
2.43.0


From 1418291e3d12f2f4f3d760df5202650cf6938446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:50 +0000
Subject: [PATCH 25/41] fix: report HEIF locations that exceed the maximum file
 size instead of overflowing

---
 src/heif/container.rs | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 1f3a599..bcf1316 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -471,12 +471,16 @@ HeifContainer
                 return io_error!(Unsupported, "HEIF: Meta box overlaps with other data");
             }
 
-            let mut new_position = position as i64;
+            let mut delta = 0;
 
-            if position >= meta_end     { new_position += meta_delta; }
-            if position >= old_exif_end { new_position += exif_delta + new_header_size as i64; }
+            if position >= meta_end     { delta += meta_delta; }
+            if position >= old_exif_end { delta += exif_delta + new_header_size as i64; }
 
-            return Ok(new_position as u64);
+            return match u64::try_from(position as i128 + delta as i128)
+            {
+                Ok(new_position) => Ok(new_position),
+                Err(_)           => io_error!(InvalidData, "HEIF: Location of data exceeds the maximum file size")
+            };
         };
 
         // The start of the exif area only gets moved due to the meta box and in
-- 
2.43.0


From a77884cb8f4d00d739939d6312cfd1e4cec3f1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:32 +0000
Subject: [PATCH 26/41] fix: refuse to write TIFFs whose tiles or SubIFDs would
 be lost

---
 src/tiff/file.rs |  4 ++++
 src/tiff/mod.rs  | 23 ++++++++++++++++++++++-
 src/tiff/vec.rs  |  4 ++++
 3 files changed, 30 insertions(+), 1 deletion(-)

diff --git a/src/tiff/file.rs b/src/tiff/file.rs
index 9fbce84..9f37e86 100644
--- a/src/tiff/file.rs
+++ b/src/tiff/file.rs
@@ -8,6 +8,7 @@ use crate::general_file_io::open_read_file;
 use crate::general_file_io::overwrite_file;
 use crate::metadata::Metadata;
 
+use super::check_for_unsupported_tags;
 use super::generic_read_metadata;
 use super::generic_encode_metadata;
 
@@ -33,6 +34,9 @@ clear_metadata
 	let     raw_data = generic_read_metadata(&mut BufReader::new(open_read_file(path)?));
 	let mut data     = Metadata::general_decoding_wrapper(raw_data)?;
 
+	// Don't lose image data that is not part of the metadata
+	check_for_unsupported_tags(&data)?;
+
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
diff --git a/src/tiff/mod.rs b/src/tiff/mod.rs
index 57fe02c..5253a01 100644
--- a/src/tiff/mod.rs
+++ b/src/tiff/mod.rs
@@ -21,12 +21,33 @@ generic_encode_metadata
 )
 -> Result<Vec<u8>, std::io::Error>
 {
-    // First, check for required tags
+    // First, check for required tags and those that can't be handled
+    check_for_unsupported_tags(metadata)?;
     check_for_required_tags(metadata)?;
 
     return metadata.encode();
 }
 
+/// Only the image data in strips is carried along by the metadata. Everything
+/// else that is merely referred to would be lost when (re-)writing the file.
+fn
+check_for_unsupported_tags
+(
+    metadata: &Metadata
+)
+-> Result<(), std::io::Error>
+{
+    for (hex_tag, name) in [(0x0144, "TileOffsets"), (0x014A, "SubIFDs")]
+    {
+        if metadata.get_tag_by_hex(hex_tag, Some(GENERIC)).count() != 0
+        {
+            return io_error!(Unsupported, format!("Can't write TIFF with {name} (0x{hex_tag:04x}) tag!"));
+        }
+    }
+
+    return Ok(());
+}
+
 fn
 check_for_required_tags
 (
diff --git a/src/tiff/vec.rs b/src/tiff/vec.rs
index 79e0472..633011d 100644
--- a/src/tiff/vec.rs
+++ b/src/tiff/vec.rs
@@ -5,6 +5,7 @@ use std::io::Cursor;
 
 use crate::metadata::Metadata;
 
+use super::check_for_unsupported_tags;
 use super::generic_read_metadata;
 use super::generic_encode_metadata;
 
@@ -30,6 +31,9 @@ clear_metadata
 	let     raw_data = read_metadata(file_buffer);
 	let mut data     = Metadata::general_decoding_wrapper(raw_data)?;
 
+	// Don't lose image data that is not part of the metadata
+	check_for_unsupported_tags(&data)?;
+
 	// Remove all IFDs that aren't required
 	data.reduce_to_a_minimum();
 
-- 
2.43.0


From feb6229c8620e1e5585278896f90265eaa6bc73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:05 +0000
Subject: [PATCH 27/41] fix: report an IFD with too many entries instead of
 wrapping the count

---
 src/ifd/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ifd/mod.rs b/src/ifd/mod.rs
index fc6f89d..810fa81 100644
--- a/src/ifd/mod.rs
+++ b/src/ifd/mod.rs
@@ -579,7 +579,11 @@ ImageFileDirectory
                  TagType::IFD_OFFSET(_) |
                  TagType::DATA_OFFSET(_)
             )
-        ).count() as u16;
+        ).count();
+
+        let Ok(count_entries) = u16::try_from(count_entries) else {
+            return io_error!(InvalidInput, format!("An IFD can't hold {count_entries} entries!"));
+        };
 
         encode_vec.extend(to_u8_vec_macro!(u16, &count_entries, &data.get_endian()).iter());
 
-- 
2.43.0


From aa313eddaed0137b892780f1e5c63b6ad9ea6715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:37 +0000
Subject: [PATCH 28/41] fix: EXIF blocks of 100 MB and more made the PNG
 encoder panic

---
 src/png/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/png/mod.rs b/src/png/mod.rs
index 8db95d9..24ddc00 100644
--- a/src/png/mod.rs
+++ b/src/png/mod.rs
@@ -601,7 +601,7 @@ encode_metadata_png
     let mut png_exif: Vec<u8> = vec![NEWLINE, 0x65, 0x78, 0x69, 0x66, NEWLINE];
 
     // Write ssss, padded to 8 bytes with leading spaces
-    png_exif.extend(vec![SPACE; 8 - ssss.len()]);
+    png_exif.extend(vec![SPACE; 8_usize.saturating_sub(ssss.len())]);
     png_exif.extend(ssss.as_bytes().to_vec().iter());
     png_exif.push(NEWLINE);
 
-- 
2.43.0


From 780c470a748b27882e401995f96288d6efcf3723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 29/41] fix: honour the TIFF header offset stated in the EXIF
 box of a JXL

---
 src/jxl.rs | 50 ++++++++++++++++++++++++++++++++------------------
 1 file changed, 32 insertions(+), 18 deletions(-)

diff --git a/src/jxl.rs b/src/jxl.rs
index e070c6f..8039935 100644
--- a/src/jxl.rs
+++ b/src/jxl.rs
@@ -223,6 +223,32 @@ read_file
 }
 
 
+/// Gets the EXIF data out of the content of an EXIF box, which starts with 4
+/// bytes telling how many more bytes there are in front of the TIFF header
+fn
+get_exif_data
+(
+    box_data: &[u8],
+)
+-> Result<Vec<u8>, std::io::Error>
+{
+    let (Some(offset), Some(exif_data)) = (box_data.get(..4), box_data.get(4..))
+    else
+    {
+        return io_error!(InvalidData, "EXIF box in JXL data is too short!");
+    };
+
+    let offset      = from_u8_vec_res_macro!(u32, &offset.to_vec(), &Endian::Big)? as usize;
+    let tiff_header = exif_data.get(offset..).unwrap_or_default();
+
+    if tiff_header.starts_with(&LITTLE_ENDIAN_INFO) || tiff_header.starts_with(&BIG_ENDIAN_INFO)
+    {
+        return Ok(tiff_header.to_vec());
+    }
+
+    return Ok(exif_data.to_vec());
+}
+
 
 pub(crate) fn
 read_metadata
@@ -242,23 +268,16 @@ read_metadata
 
         if box_contains_exif(box_data, box_type)
         {
-            // In both cases the first 4 bytes get skipped: For an EXIF box 
-            // these contain the offset of the TIFF header, for a Brotli box 
-            // these are the type of the compressed box
-            let Some(exif_data) = box_data.get(4..)
-            else
-            {
-                return io_error!(InvalidData, "EXIF box in JXL data is too short!");
-            };
-
             if box_type == EXIF
             {
-                return Ok(exif_data.to_vec());
+                return get_exif_data(box_data);
             }
 
-            // Limit the size as a few bytes may decompress to many gigabytes
+            // For Brotli compressed boxes the first 4 bytes are the type of 
+            // the compressed box. Limit the size as a few bytes may decompress 
+            // to many gigabytes
             let mut decompressed_exif_buffer = Vec::new();
-            brotli::Decompressor::new(Cursor::new(exif_data), 4096)
+            brotli::Decompressor::new(Cursor::new(&box_data[4..]), 4096)
                 .take(MAX_DECOMPRESSED_EXIF_SIZE + 1)
                 .read_to_end(&mut decompressed_exif_buffer)?;
 
@@ -267,12 +286,7 @@ read_metadata
                 return io_error!(InvalidData, "Decompressed EXIF box in JXL data is too large!");
             }
 
-            // Ignore the offset of the TIFF header here as well
-            return match decompressed_exif_buffer.get(4..)
-            {
-                Some(exif_data) => Ok(exif_data.to_vec()),
-                None            => io_error!(InvalidData, "EXIF box in JXL data is too short!")
-            };
+            return get_exif_data(&decompressed_exif_buffer);
         }
 
         // Not an EXIF box so skip it
-- 
2.43.0


From faa59f40acc93ff5ebd40c9031ce899132a34a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:42 +0000
Subject: [PATCH 30/41] fix: relocate HEIF items whose data reference is the
 file itself

---
 src/heif/boxes/item_location.rs | 11 +++++-----
 src/heif/boxes/meta.rs          | 38 +++++++++++++++++++++++++++++++++
 src/heif/container.rs           |  7 ++++--
 3 files changed, 49 insertions(+), 7 deletions(-)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 1c85ee4..3e0d20d 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -480,8 +480,9 @@ ItemLocationBox
     <F: Fn(u64, u64) -> Result<u64, std::io::Error>>
     (
         &mut self,
-        skip_item_id: u32,
-        new_position: F
+        skip_item_id:    u32,
+        this_file_index: &[u16],
+        new_position:    F
     )
     -> Result<(), std::io::Error>
     {
@@ -501,10 +502,10 @@ ItemLocationBox
                 continue;
             }
 
-            if item.data_reference_index != 0
+            if !this_file_index.contains(&item.data_reference_index)
             {
-                // A value other than 0 implies that this extent refers to
-                // another file, not this one, so we can also skip this
+                // This implies that this extent refers to another file, not
+                // this one, so we can also skip this
                 // See ISO/IEC 14496-12:2015 § 8.11.3.1, p. 78
                 continue;
             }
diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 1d16238..d6cf93a 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -126,6 +126,44 @@ MetaBox
         };
     }
 
+    /// Provides the values of `data_reference_index` that refer to this file,
+    /// which is 0 and any data reference with the `self-contained` flag
+    /// See ISO/IEC 14496-12:2015 § 8.7.2 and § 8.11.3.1
+    pub(crate) fn
+    get_data_references_to_this_file
+    (
+        &self
+    )
+    -> Vec<u16>
+    {
+        let mut references = vec![0];
+
+        let dref = self.other_boxes.iter()
+            .filter_map(|b| b.as_any().downcast_ref::<IsoBox>())
+            .filter(|b| b.get_header().get_box_type() == BoxType::dinf)
+            .find_map(|b| {
+                let data = b.get_data();
+                return if data.get(4..8) == Some(b"dref") { data.get(16..) } else { None };
+            });
+
+        let mut remaining = dref.unwrap_or(&[]);
+        for index in 1..=u16::MAX
+        {
+            // Each data reference starts with size, type, version & flags
+            let [s0, s1, s2, s3, _, _, _, _, _, _, _, flags, ..] = remaining else { break };
+
+            if flags & 1 != 0
+            {
+                references.push(index);
+            }
+
+            let size  = u32::from_be_bytes([*s0, *s1, *s2, *s3]) as usize;
+            remaining = remaining.get(std::cmp::max(size, 12)..).unwrap_or(&[]);
+        }
+
+        return references;
+    }
+
     /// Provides the IDs of the entity groups, which share their number space
     /// with the items, see ISO/IEC 23008-12:2017, § 9.4.1
     pub(crate) fn
diff --git a/src/heif/container.rs b/src/heif/container.rs
index bcf1316..5f05e3a 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -169,7 +169,9 @@ HeifContainer
         match exif_item.get_construction_method()
         {
             super::boxes::item_location::ItemConstructionMethod::FILE => {
-                if exif_item.data_reference_index != 0
+                if !self.get_meta_box()?
+                    .get_data_references_to_this_file()
+                    .contains(&exif_item.data_reference_index)
                 {
                     return io_error!(Unsupported, "EXIF data is stored in another file");
                 }
@@ -491,11 +493,12 @@ HeifContainer
             { old_exif_start };
 
         // Update the locations of the items
+        let this_file_index = self.get_meta_box()?.get_data_references_to_this_file();
         for other_box in &mut self.get_meta_box_mut()?.other_boxes
         {
             if let Some(iloc) = other_box.as_any_mut().downcast_mut::<ItemLocationBox>()
             {
-                iloc.relocate_items(exif_item_id, get_new_position)?;
+                iloc.relocate_items(exif_item_id, &this_file_index, get_new_position)?;
                 iloc.set_item_location(
                     exif_item_id, 
                     new_exif_start, 
-- 
2.43.0


From a2c17fa4ea9a17444c0188caa6e6c6e958f4ee2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:20 +0000
Subject: [PATCH 31/41] fix: clearing a TIFF lost tags needed for decoding its
 image data

---
 src/metadata/edit.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/metadata/edit.rs b/src/metadata/edit.rs
index d3f85de..938ebfd 100644
--- a/src/metadata/edit.rs
+++ b/src/metadata/edit.rs
@@ -9,6 +9,22 @@ use super::Metadata;
 impl
 Metadata
 {
+	/// Tags without a variant of their own that tell how to decode the image 
+	/// data of a TIFF
+	const IMAGE_DATA_TAGS: [u16; 11] = [
+		0x00FE, // SubfileType
+		0x010A, // FillOrder
+		0x0124, // T4Options
+		0x0125, // T6Options
+		0x013D, // Predictor
+		0x014C, // InkSet
+		0x014E, // NumberOfInks
+		0x0150, // DotRange
+		0x0152, // ExtraSamples
+		0x0153, // SampleFormat
+		0x015B, // JPEGTables
+	];
+
 	/// Reduces the `Metadata` struct to the absolute minimum required for 
 	/// TIFF compliance without losing important data (see table in exif_tag.rs,
 	/// strip and thumbnail data) which is all assumed to be in GENERIC IFDs.
@@ -46,6 +62,14 @@ Metadata
 					| ExifTag::YResolution(_)
 					| ExifTag::ResolutionUnit(_)
 					| ExifTag::ColorMap(_)
+					| ExifTag::PlanarConfiguration(_)
+					| ExifTag::YCbCrCoefficients(_)
+					| ExifTag::YCbCrSubSampling(_)
+					| ExifTag::YCbCrPositioning(_)
+					| ExifTag::ReferenceBlackWhite(_)
+					=> (),
+
+					_ if Self::IMAGE_DATA_TAGS.contains(&tag.as_u16())
 					=> (),
 
 					_ 
-- 
2.43.0


From 9a3ab39354139f9441496a788b97a7a6963e520d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:11 +0000
Subject: [PATCH 32/41] fix: clearing a HEIF took over resolution tags of the
 thumbnail

---
 src/heif/container.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 5f05e3a..76fc781 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -13,6 +13,7 @@ use crate::heif::boxes::iso::IsoBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 use crate::heif::boxes::meta::MetaBox;
 use crate::heif::read_next_box;
+use crate::ifd::ExifTagGroup;
 
 use crate::metadata::Metadata;
 use crate::util::read_be_u32;
@@ -633,29 +634,35 @@ HeifContainer
             self.get_exif_data_of_item(&mut cursor, exif_item_id)
         ).unwrap_or_else(|_| Metadata::new());
 
+        // Only IFD0 describes the image, the values in other IFDs are those of
+        // e.g. the thumbnail
+        let orig_ifd     = orig_metadata.get_ifd(ExifTagGroup::GENERIC, 0);
+        let get_orig_tag = |hex| orig_ifd
+            .and_then(|ifd| ifd.get_tags().iter().find(|tag| tag.as_u16() == hex));
+
         // Construct new metadata that only contains the above tags
         let mut new_metadata = Metadata::new();
 
         // 0x0112: Orientation
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x0112, None).next()
+        if let Some(tag) = get_orig_tag(0x0112)
         {
             new_metadata.set_tag(tag.clone());
         }
 
         // 0x011A: XResolution
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x011A, None).next()
+        if let Some(tag) = get_orig_tag(0x011A)
         {
             new_metadata.set_tag(tag.clone());
         }
 
         // 0x011A: YResolution
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x011B, None).next()
+        if let Some(tag) = get_orig_tag(0x011B)
         {
             new_metadata.set_tag(tag.clone());
         }
 
         // 0x0128: ResolutionUnit
-        if let Some(tag) = orig_metadata.get_tag_by_hex(0x0128, None).next()
+        if let Some(tag) = get_orig_tag(0x0128)
         {
             new_metadata.set_tag(tag.clone());
         }
-- 
2.43.0


From 1450e45901c9a1f0856538bc06835bd5d5fd4fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 33/41] fix: relocate auxiliary information of samples in HEIF
 files

---
 src/heif/container.rs | 52 +++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 76fc781..0ac999d 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -728,6 +728,9 @@ relocate_chunks
                 entry.copy_from_slice(&position.to_be_bytes());
             },
 
+            // Auxiliary information on samples, see § 8.7.9
+            b"saio" => relocate_auxiliary_information(content, new_position)?,
+
             _ => ()
         }
 
@@ -736,3 +739,52 @@ relocate_chunks
 
     return Ok(());
 }
+
+/// Updates the locations of auxiliary information on samples, given the data 
+/// of the `saio` box
+/// See ISO/IEC 14496-12:2015 § 8.7.9
+fn
+relocate_auxiliary_information
+<F: Fn(u64, u64) -> Result<u64, std::io::Error>>
+(
+    data:         &mut [u8],
+    new_position: &F
+)
+-> Result<(), std::io::Error>
+{
+    // Version and flags, optionally type & parameter, and number of entries
+    let [version, _, _, flags, ..] = *data
+    else
+    {
+        return io_error!(InvalidData, "HEIF: Incomplete saio box");
+    };
+
+    let start   = if flags & 1 != 0 { 16 } else { 8 };
+    let entries = data.get_mut(start..).unwrap_or(&mut []);
+
+    if version == 0
+    {
+        for entry in entries.chunks_exact_mut(4)
+        {
+            let position = u32::from_be_bytes([entry[0], entry[1], entry[2], entry[3]]) as u64;
+            let Ok(position) = u32::try_from(new_position(position, 0)?)
+            else
+            {
+                return io_error!(Unsupported, "HEIF: Offset of auxiliary information can't be stored");
+            };
+            entry.copy_from_slice(&position.to_be_bytes());
+        }
+    }
+    else
+    {
+        for entry in entries.chunks_exact_mut(8)
+        {
+            let mut position = [0u8; 8];
+            position.copy_from_slice(entry);
+            let position = new_position(u64::from_be_bytes(position), 0)?;
+            entry.copy_from_slice(&position.to_be_bytes());
+        }
+    }
+
+    return Ok(());
+}
-- 
2.43.0


From d8880a6f9eba8395e8a7cbf0d61078aeac2ac7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:29 +0000
Subject: [PATCH 34/41] fix: keep offsets of HEIF tracks whose samples are in
 another file

---
 src/heif/boxes/meta.rs |  60 +++++++++++++++----------
 src/heif/container.rs  | 100 ++++++++++++++++++++++++++++++++++++++---
 2 files changed, 131 insertions(+), 29 deletions(-)

diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index d6cf93a..0b9bea0 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -136,32 +136,12 @@ MetaBox
     )
     -> Vec<u16>
     {
-        let mut references = vec![0];
-
-        let dref = self.other_boxes.iter()
+        let dinf = self.other_boxes.iter()
             .filter_map(|b| b.as_any().downcast_ref::<IsoBox>())
             .filter(|b| b.get_header().get_box_type() == BoxType::dinf)
-            .find_map(|b| {
-                let data = b.get_data();
-                return if data.get(4..8) == Some(b"dref") { data.get(16..) } else { None };
-            });
-
-        let mut remaining = dref.unwrap_or(&[]);
-        for index in 1..=u16::MAX
-        {
-            // Each data reference starts with size, type, version & flags
-            let [s0, s1, s2, s3, _, _, _, _, _, _, _, flags, ..] = remaining else { break };
-
-            if flags & 1 != 0
-            {
-                references.push(index);
-            }
+            .find(|b| b.get_data().get(4..8) == Some(b"dref"));
 
-            let size  = u32::from_be_bytes([*s0, *s1, *s2, *s3]) as usize;
-            remaining = remaining.get(std::cmp::max(size, 12)..).unwrap_or(&[]);
-        }
-
-        return references;
+        return data_references_to_this_file(dinf.map_or(&[], |b| b.get_data()));
     }
 
     /// Provides the IDs of the entity groups, which share their number space
@@ -283,6 +263,40 @@ MetaBox
     }
 }
 
+/// Provides the values of `data_reference_index` that refer to this file given 
+/// the data of a `dinf` box, see ISO/IEC 14496-12:2015 § 8.7.2
+pub(crate) fn
+data_references_to_this_file
+(
+    dinf: &[u8]
+)
+-> Vec<u16>
+{
+    let mut references = vec![0];
+
+    let mut remaining = match dinf.get(4..8)
+    {
+        Some(b"dref") => dinf.get(16..).unwrap_or(&[]),
+        _             => &[]
+    };
+
+    for index in 1..=u16::MAX
+    {
+        // Each data reference starts with size, type, version & flags
+        let [s0, s1, s2, s3, _, _, _, _, _, _, _, flags, ..] = remaining else { break };
+
+        if flags & 1 != 0
+        {
+            references.push(index);
+        }
+
+        let size  = u32::from_be_bytes([*s0, *s1, *s2, *s3]) as usize;
+        remaining = remaining.get(std::cmp::max(size, 12)..).unwrap_or(&[]);
+    }
+
+    return references;
+}
+
 #[allow(dead_code)]
 pub struct
 HandlerBox
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 0ac999d..1e404ed 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -12,6 +12,7 @@ use crate::heif::as_u8_vec;
 use crate::heif::boxes::iso::IsoBox;
 use crate::heif::boxes::item_reference::ItemReferenceBox;
 use crate::heif::boxes::meta::MetaBox;
+use crate::heif::boxes::meta::data_references_to_this_file;
 use crate::heif::read_next_box;
 use crate::ifd::ExifTagGroup;
 
@@ -517,7 +518,7 @@ HeifContainer
                 {
                     b"moov" => if let Some(moov) = iso_box.as_any_mut().downcast_mut::<IsoBox>()
                     {
-                        relocate_chunks(moov.get_data_mut(), &get_new_position)?;
+                        relocate_chunks(moov.get_data_mut(), None, &get_new_position)?;
                     },
 
                     b"moof" => return io_error!(Unsupported, "HEIF: Can't modify files with movie fragments"),
@@ -672,14 +673,16 @@ HeifContainer
 }
 
 /// Updates the locations of the chunks of image sequences that are stored in
-/// (the descendants of) the `moov` box, given the data of the box
+/// (the descendants of) the `moov` box, given the data of the box and the values
+/// of `data_reference_index` that refer to this file (if these are known)
 /// See ISO/IEC 14496-12:2015 § 8.7.5
 fn
 relocate_chunks
 <F: Fn(u64, u64) -> Result<u64, std::io::Error>>
 (
-    data:         &mut [u8],
-    new_position: &F
+    data:            &mut [u8],
+    this_file_index: Option<&[u16]>,
+    new_position:    &F
 )
 -> Result<(), std::io::Error>
 {
@@ -705,8 +708,16 @@ relocate_chunks
 
         match &box_type
         {
-            b"trak" | b"mdia" | b"minf" | b"stbl"
-                => relocate_chunks(content, new_position)?,
+            // Offsets of samples in another file are not affected
+            b"stbl" if !samples_are_in_this_file(content, this_file_index)? => (),
+
+            b"minf" => {
+                let references = get_data_references_to_this_file(content);
+                relocate_chunks(content, references.as_deref(), new_position)?;
+            },
+
+            b"trak" | b"mdia" | b"stbl"
+                => relocate_chunks(content, this_file_index, new_position)?,
 
             // Version, flags and number of entries come first
             b"stco" => for entry in content.chunks_exact_mut(4).skip(2)
@@ -740,6 +751,83 @@ relocate_chunks
     return Ok(());
 }
 
+/// Determines the values of `data_reference_index` in the descriptions of the 
+/// samples that refer to this file, given the data of the `minf` box
+/// See ISO/IEC 14496-12:2015 § 8.7.2
+fn
+get_data_references_to_this_file
+(
+    data: &[u8]
+)
+-> Option<Vec<u16>>
+{
+    let mut remaining = data;
+
+    while let [s0, s1, s2, s3, box_type @ ..] = remaining
+    {
+        let size = u32::from_be_bytes([*s0, *s1, *s2, *s3]) as usize;
+
+        if box_type.starts_with(b"dinf")
+        {
+            return Some(data_references_to_this_file(remaining.get(8..size)?));
+        }
+
+        remaining = remaining.get(std::cmp::max(size, 8)..).unwrap_or(&[]);
+    }
+
+    return None;
+}
+
+/// Tells if the samples described by the given data of a `stbl` box are located
+/// in this file
+/// See ISO/IEC 14496-12:2015 § 8.5.2
+fn
+samples_are_in_this_file
+(
+    data:            &[u8],
+    this_file_index: Option<&[u16]>
+)
+-> Result<bool, std::io::Error>
+{
+    let Some(this_file_index) = this_file_index else { return Ok(true) };
+
+    let (mut in_this_file, mut elsewhere) = (false, false);
+    let mut remaining = data;
+
+    while let [s0, s1, s2, s3, box_type @ ..] = remaining
+    {
+        let size = u32::from_be_bytes([*s0, *s1, *s2, *s3]) as usize;
+
+        if box_type.starts_with(b"stsd")
+        {
+            // Header, version & flags and number of entries come first
+            let mut entries = remaining.get(16..size).unwrap_or(&[]);
+
+            // Each entry starts with size, type, 6 reserved bytes & the index
+            while let [s0, s1, s2, s3, _, _, _, _, _, _, _, _, _, _, i0, i1, ..] = entries
+            {
+                match this_file_index.contains(&u16::from_be_bytes([*i0, *i1]))
+                {
+                    true  => in_this_file = true,
+                    false => elsewhere    = true
+                }
+
+                let size = u32::from_be_bytes([*s0, *s1, *s2, *s3]) as usize;
+                entries  = entries.get(std::cmp::max(size, 16)..).unwrap_or(&[]);
+            }
+        }
+
+        remaining = remaining.get(std::cmp::max(size, 8)..).unwrap_or(&[]);
+    }
+
+    if in_this_file && elsewhere
+    {
+        return io_error!(Unsupported, "HEIF: Samples of a track are located in several files");
+    }
+
+    return Ok(!elsewhere);
+}
+
 /// Updates the locations of auxiliary information on samples, given the data 
 /// of the `saio` box
 /// See ISO/IEC 14496-12:2015 § 8.7.9
-- 
2.43.0


From 4c7108360defe0228859af97082f1e8c7f1aecec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:04 +0000
Subject: [PATCH 35/41] fix: relocate items of additional meta boxes in HEIF
 files

---
 src/heif/boxes/item_location.rs |  4 +--
 src/heif/container.rs           | 52 +++++++++++++++++++++++++++++++--
 2 files changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/heif/boxes/item_location.rs b/src/heif/boxes/item_location.rs
index 3e0d20d..1c68ef3 100644
--- a/src/heif/boxes/item_location.rs
+++ b/src/heif/boxes/item_location.rs
@@ -480,7 +480,7 @@ ItemLocationBox
     <F: Fn(u64, u64) -> Result<u64, std::io::Error>>
     (
         &mut self,
-        skip_item_id:    u32,
+        skip_item_id:    Option<u32>,
         this_file_index: &[u16],
         new_position:    F
     )
@@ -495,7 +495,7 @@ ItemLocationBox
             // to an idat box or another item's extent
             // -> not affected by change in length of another box
             if 
-                item.item_id == skip_item_id 
+                Some(item.item_id) == skip_item_id 
                 || 
                 item.get_construction_method() != ItemConstructionMethod::FILE
             {
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 1e404ed..2cd6bb0 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -500,7 +500,7 @@ HeifContainer
         {
             if let Some(iloc) = other_box.as_any_mut().downcast_mut::<ItemLocationBox>()
             {
-                iloc.relocate_items(exif_item_id, &this_file_index, get_new_position)?;
+                iloc.relocate_items(Some(exif_item_id), &this_file_index, get_new_position)?;
                 iloc.set_item_location(
                     exif_item_id, 
                     new_exif_start, 
@@ -509,14 +509,15 @@ HeifContainer
             }
         }
 
-        // Update the locations of data of image sequences
+        // Update the locations of data of image sequences and of the items of
+        // additional meta boxes
         if meta_delta != 0 || exif_delta != 0
         {
             for iso_box in &mut self.boxes
             {
                 match iso_box.get_header().get_box_type().to_4_bytes().as_slice()
                 {
-                    b"moov" => if let Some(moov) = iso_box.as_any_mut().downcast_mut::<IsoBox>()
+                    b"moov" | b"meco" => if let Some(moov) = iso_box.as_any_mut().downcast_mut::<IsoBox>()
                     {
                         relocate_chunks(moov.get_data_mut(), None, &get_new_position)?;
                     },
@@ -739,6 +740,9 @@ relocate_chunks
                 entry.copy_from_slice(&position.to_be_bytes());
             },
 
+            // There may be further meta boxes with items of their own
+            b"meta" => relocate_items_of_meta_box(current, new_position)?,
+
             // Auxiliary information on samples, see § 8.7.9
             b"saio" => relocate_auxiliary_information(content, new_position)?,
 
@@ -876,3 +880,45 @@ relocate_auxiliary_information
 
     return Ok(());
 }
+
+/// Updates the locations of items of a meta box other than the one of the file
+/// See ISO/IEC 14496-12:2015 § 8.11.1 and § 8.11.7
+fn
+relocate_items_of_meta_box
+<F: Fn(u64, u64) -> Result<u64, std::io::Error>>
+(
+    meta_box:     &mut [u8],
+    new_position: &F
+)
+-> Result<(), std::io::Error>
+{
+    // Other formats know meta boxes too, but these don't have items
+    if !meta_box.windows(4).any(|box_type| box_type == b"iloc")
+    {
+        return Ok(());
+    }
+
+    let mut next_box = read_next_box(&mut Cursor::new(&*meta_box), false)?;
+
+    if next_box.serialize() != meta_box
+    {
+        return io_error!(Unsupported, "HEIF: Can't reproduce an additional meta box");
+    }
+
+    if let Some(meta) = next_box.as_any_mut().downcast_mut::<MetaBox>()
+    {
+        let this_file_index = meta.get_data_references_to_this_file();
+        for other_box in &mut meta.other_boxes
+        {
+            if let Some(iloc) = other_box.as_any_mut().downcast_mut::<ItemLocationBox>()
+            {
+                iloc.relocate_items(None, &this_file_index, new_position)?;
+            }
+        }
+    }
+
+    // Only offsets have changed
+    meta_box.copy_from_slice(&next_box.serialize());
+
+    return Ok(());
+}
-- 
2.43.0


From fc828fd9f2a7c4e27f5924d806d612f878ea1893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:38 +0000
Subject: [PATCH 36/41] fix: deeply nested boxes in the moov box of a HEIF
 exhausted the stack

---
 src/heif/container.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 2cd6bb0..1fe65df 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -519,7 +519,7 @@ HeifContainer
                 {
                     b"moov" | b"meco" => if let Some(moov) = iso_box.as_any_mut().downcast_mut::<IsoBox>()
                     {
-                        relocate_chunks(moov.get_data_mut(), None, &get_new_position)?;
+                        relocate_chunks(moov.get_data_mut(), 0, None, &get_new_position)?;
                     },
 
                     b"moof" => return io_error!(Unsupported, "HEIF: Can't modify files with movie fragments"),
@@ -675,13 +675,15 @@ HeifContainer
 
 /// Updates the locations of the chunks of image sequences that are stored in
 /// (the descendants of) the `moov` box, given the data of the box and the values
-/// of `data_reference_index` that refer to this file (if these are known)
+/// of `data_reference_index` that refer to this file (if these are known). The
+/// level tells how far down this is, as each box only occurs in a certain other
 /// See ISO/IEC 14496-12:2015 § 8.7.5
 fn
 relocate_chunks
 <F: Fn(u64, u64) -> Result<u64, std::io::Error>>
 (
     data:            &mut [u8],
+    level:           usize,
     this_file_index: Option<&[u16]>,
     new_position:    &F
 )
@@ -709,16 +711,19 @@ relocate_chunks
 
         match &box_type
         {
+            b"trak" | b"mdia" | b"minf" | b"stbl"
+                if [b"trak", b"mdia", b"minf", b"stbl"].get(level) != Some(&&box_type) => (),
+
             // Offsets of samples in another file are not affected
             b"stbl" if !samples_are_in_this_file(content, this_file_index)? => (),
 
             b"minf" => {
                 let references = get_data_references_to_this_file(content);
-                relocate_chunks(content, references.as_deref(), new_position)?;
+                relocate_chunks(content, level + 1, references.as_deref(), new_position)?;
             },
 
             b"trak" | b"mdia" | b"stbl"
-                => relocate_chunks(content, this_file_index, new_position)?,
+                => relocate_chunks(content, level + 1, this_file_index, new_position)?,
 
             // Version, flags and number of entries come first
             b"stco" => for entry in content.chunks_exact_mut(4).skip(2)
-- 
2.43.0


From 534da153d58836f87ef564aa95b1c4a17678f0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:29 +0000
Subject: [PATCH 37/41] fix: accept 64-bit box sizes within the moov box of a
 HEIF

---
 src/heif/container.rs | 65 ++++++++++++++++++++++++++-----------------
 1 file changed, 40 insertions(+), 25 deletions(-)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 1fe65df..319eaff 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -673,6 +673,32 @@ HeifContainer
     }
 }
 
+/// Provides type, size of the header and overall size of the box at the start 
+/// of the given data, if there is a complete box
+/// See ISO/IEC 14496-12:2015 § 4.2
+fn
+parse_box_header
+(
+    data: &[u8]
+)
+-> Option<([u8; 4], usize, usize)>
+{
+    let box_type = data.get(4..8)?.try_into().ok()?;
+
+    let (header_size, size) = match u32::from_be_bytes(data.get(0..4)?.try_into().ok()?)
+    {
+        1    => (16, u64::from_be_bytes(data.get(8..16)?.try_into().ok()?)),
+        size => ( 8, size as u64)
+    };
+
+    if size < header_size || size > data.len() as u64
+    {
+        return None;
+    }
+
+    return Some((box_type, header_size as usize, size as usize));
+}
+
 /// Updates the locations of the chunks of image sequences that are stored in
 /// (the descendants of) the `moov` box, given the data of the box and the values
 /// of `data_reference_index` that refer to this file (if these are known). The
@@ -693,21 +719,14 @@ relocate_chunks
 
     while !remaining.is_empty()
     {
-        if remaining.len() < 8
-        {
-            return io_error!(InvalidData, "HEIF: Incomplete box in moov box");
-        }
-
-        let size     = u32::from_be_bytes([remaining[0], remaining[1], remaining[2], remaining[3]]) as usize;
-        let box_type = [remaining[4], remaining[5], remaining[6], remaining[7]];
-
-        if size < 8 || size > remaining.len()
+        let Some((box_type, header_size, size)) = parse_box_header(remaining)
+        else
         {
-            return io_error!(InvalidData, "HEIF: Invalid box size in moov box");
-        }
+            return io_error!(InvalidData, "HEIF: Invalid box in moov box");
+        };
 
         let (current, next) = remaining.split_at_mut(size);
-        let content         = &mut current[8..];
+        let content         = &mut current[header_size..];
 
         match &box_type
         {
@@ -772,16 +791,14 @@ get_data_references_to_this_file
 {
     let mut remaining = data;
 
-    while let [s0, s1, s2, s3, box_type @ ..] = remaining
+    while let Some((box_type, header_size, size)) = parse_box_header(remaining)
     {
-        let size = u32::from_be_bytes([*s0, *s1, *s2, *s3]) as usize;
-
-        if box_type.starts_with(b"dinf")
+        if &box_type == b"dinf"
         {
-            return Some(data_references_to_this_file(remaining.get(8..size)?));
+            return Some(data_references_to_this_file(&remaining[header_size..size]));
         }
 
-        remaining = remaining.get(std::cmp::max(size, 8)..).unwrap_or(&[]);
+        remaining = &remaining[size..];
     }
 
     return None;
@@ -803,14 +820,12 @@ samples_are_in_this_file
     let (mut in_this_file, mut elsewhere) = (false, false);
     let mut remaining = data;
 
-    while let [s0, s1, s2, s3, box_type @ ..] = remaining
+    while let Some((box_type, header_size, size)) = parse_box_header(remaining)
     {
-        let size = u32::from_be_bytes([*s0, *s1, *s2, *s3]) as usize;
-
-        if box_type.starts_with(b"stsd")
+        if &box_type == b"stsd"
         {
-            // Header, version & flags and number of entries come first
-            let mut entries = remaining.get(16..size).unwrap_or(&[]);
+            // Version & flags and number of entries come first
+            let mut entries = remaining[header_size..size].get(8..).unwrap_or(&[]);
 
             // Each entry starts with size, type, 6 reserved bytes & the index
             while let [s0, s1, s2, s3, _, _, _, _, _, _, _, _, _, _, i0, i1, ..] = entries
@@ -826,7 +841,7 @@ samples_are_in_this_file
             }
         }
 
-        remaining = remaining.get(std::cmp::max(size, 8)..).unwrap_or(&[]);
+        remaining = &remaining[size..];
     }
 
     if in_this_file && elsewhere
-- 
2.43.0


From 2f93d26e2ca8c7844d303cd76458050add9727df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:33 +0000
Subject: [PATCH 38/41] fix: accept a meta box that extends to the end of a
 HEIF file

---
 src/heif/boxes/meta.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 0b9bea0..27f0486 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -220,7 +220,14 @@ MetaBox
     )
     -> Result<Box<dyn GenericIsoBox>, std::io::Error>
     {
-        if header.get_box_size() < header.get_header_size()
+        // A size of zero tells that the box extends to the end of the file
+        let mut meta_box_bytes = Vec::new();
+
+        if header.get_box_size() == 0
+        {
+            cursor.read_to_end(&mut meta_box_bytes)?;
+        }
+        else if header.get_box_size() < header.get_header_size()
         {
             return io_error!(
                 InvalidData,
@@ -231,10 +238,13 @@ MetaBox
                 )
             );
         }
+        else
+        {
+            // Read in the remaining bytes for this box
+            meta_box_bytes = read_bytes(cursor, header.get_box_size() - header.get_header_size())?;
+        }
 
-        // Read in the remaining bytes for this box
-        let remaining_bytes = header.get_box_size() - header.get_header_size();
-        let meta_box_bytes  = read_bytes(cursor, remaining_bytes)?;
+        let remaining_bytes = meta_box_bytes.len();
 
         // Construct local cursor for these bytes
         let mut local_cursor = Cursor::new(meta_box_bytes);
-- 
2.43.0


From c6cc44466caff6a0d007bb81e3c358b8e8caac36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:59 +0000
Subject: [PATCH 39/41] fix: relocate item data within the meta box of a HEIF

Items may be located in the meta box itself, by their position in the file.
Adding an EXIF item makes some of the boxes in there grow, which moved such
data but did not update its location.
---
 src/heif/boxes/meta.rs | 11 +++++++++++
 src/heif/container.rs  | 22 ++++++++++++++++++++--
 2 files changed, 31 insertions(+), 2 deletions(-)

diff --git a/src/heif/boxes/meta.rs b/src/heif/boxes/meta.rs
index 27f0486..2c42165 100644
--- a/src/heif/boxes/meta.rs
+++ b/src/heif/boxes/meta.rs
@@ -103,6 +103,17 @@ MetaBox
         return None;
     }
 
+    /// Provides the boxes that follow the handler box
+    pub(crate) fn
+    serialize_other_boxes
+    (
+        &self
+    )
+    -> Vec<Vec<u8>>
+    {
+        return self.other_boxes.iter().map(|sub_box| sub_box.serialize()).collect();
+    }
+
     /// Gets the ID of the primary item, usually the image
     pub(crate) fn
     get_primary_item_id
diff --git a/src/heif/container.rs b/src/heif/container.rs
index 319eaff..5ea2519 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -391,6 +391,7 @@ HeifContainer
 
         let meta_end      = get_box_end(meta_index);
         let old_meta_size = self.boxes[meta_index].serialize().len() as i64;
+        let old_sub_boxes = self.get_meta_box()?.serialize_other_boxes();
 
         // Find out where old exif is located, and in which box. If there is no
         // exif area yet the new one gets created at the end of the mdat area
@@ -447,6 +448,23 @@ HeifContainer
         let meta_delta = self.boxes[meta_index].serialize().len() as i64 - old_meta_size;
         let exif_delta = new_exif_area.len() as i64 - (old_exif_end - old_exif_start) as i64;
 
+        // There may be data within the meta box, so determine which part of it
+        // (given by positions in the old file) has changed
+        let new_sub_boxes = self.get_meta_box()?.serialize_other_boxes();
+        let is_same       = |(old, new): &(&Vec<u8>, &Vec<u8>)| old == new;
+
+        let sub_boxes_start = meta_end - old_sub_boxes.iter().map(|b| b.len() as u64).sum::<u64>();
+        let changes_start   = sub_boxes_start + old_sub_boxes.iter()
+            .zip(new_sub_boxes.iter())
+            .take_while(is_same)
+            .map(|(b, _)| b.len() as u64)
+            .sum::<u64>();
+        let changes_end     = meta_end - old_sub_boxes.iter().rev()
+            .zip(new_sub_boxes.iter().rev())
+            .take_while(is_same)
+            .map(|(b, _)| b.len() as u64)
+            .sum::<u64>();
+
         // Determines where an area of the old file is located in the new file 
         let get_new_position = |position: u64, length: u64| -> Result<u64, std::io::Error>
         {
@@ -470,14 +488,14 @@ HeifContainer
                 return io_error!(Unsupported, "HEIF: EXIF data overlaps with other data");
             }
 
-            if meta_delta != 0 && position < meta_end && end > meta_end
+            if meta_delta != 0 && position < changes_end && end > changes_start
             {
                 return io_error!(Unsupported, "HEIF: Meta box overlaps with other data");
             }
 
             let mut delta = 0;
 
-            if position >= meta_end     { delta += meta_delta; }
+            if position >= changes_end  { delta += meta_delta; }
             if position >= old_exif_end { delta += exif_delta + new_header_size as i64; }
 
             return match u64::try_from(position as i128 + delta as i128)
-- 
2.43.0


From b3c1b6e15f7f6f3495c63aeb820a1157f8eee942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:23 +0000
Subject: [PATCH 40/41] fix: refuse to add an item that a HEIF's iinf box can't
 count

Version 0 of the box counts its entries with 16 bits, so with 65535 of them
the counter became zero.
---
 src/heif/container.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/heif/container.rs b/src/heif/container.rs
index 5ea2519..2ee0ea8 100644
--- a/src/heif/container.rs
+++ b/src/heif/container.rs
@@ -308,6 +308,11 @@ HeifContainer
             }
             else if let Some(iinf) = other_box.downcast_mut::<ItemInfoBox>()
             {
+                if iinf.get_header().get_version() == 0 && iinf.items.len() >= u16::MAX as usize
+                {
+                    return io_error!(Unsupported, "Too many items for version of iinf box");
+                }
+
                 iinf.create_new_exif_item_info_entry(item_id);
             }
             else if let Some(iref) = other_box.downcast_mut::<ItemReferenceBox>()
-- 
2.43.0


From e03ae60f2d6e7f5a8e0b281736c07709dc4d8e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:54 +0000
Subject: [PATCH 41/41] fix: don't lose JPEG tables and global parameters of
 TIFFs

The tags JPEGQTables, JPEGDCTables, JPEGACTables and GlobalParametersIFD hold
offsets of data that is not part of the metadata. After writing these pointed
at something else, so that such an image could not be decoded any more.
---
 src/tiff/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/tiff/mod.rs b/src/tiff/mod.rs
index 5253a01..0efc39c 100644
--- a/src/tiff/mod.rs
+++ b/src/tiff/mod.rs
@@ -37,7 +37,14 @@ check_for_unsupported_tags
 )
 -> Result<(), std::io::Error>
 {
-    for (hex_tag, name) in [(0x0144, "TileOffsets"), (0x014A, "SubIFDs")]
+    for (hex_tag, name) in [
+        (0x0144, "TileOffsets"), 
+        (0x014A, "SubIFDs"),
+        (0x0190, "GlobalParametersIFD"),
+        (0x0207, "JPEGQTables"),
+        (0x0208, "JPEGDCTables"),
+        (0x0209, "JPEGACTables")
+    ]
     {
         if metadata.get_tag_by_hex(hex_tag, Some(GENERIC)).count() != 0
         {
-- 
2.43.0

