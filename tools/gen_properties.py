#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

p("C01","Metadata survives encoding and decoding unchanged",
  "For every metadata object holding at least one directory chain 0..n (any mix of known and unknown tags, any groups, any value lengths, strip and thumbnail payloads, either byte order), encoding it and decoding the result yields the same byte order, the same directories, and in each directory exactly the same tags with the same number, format and value. Tags the library declares non-writable are the only ones that may be missing afterwards. Encoding is deterministic and does not change the object.",
  ["inputs","histories"],
  "all known tags and unknown numbers x all value formats x value lengths around the inline/offset boundary, all subsets and creation orders of directories, both byte orders",
  "tests round-trip a handful of tags (mostly ImageDescription/ISO/GPS) in one directory layout; offset/padding/ordering errors depend on the combination of lengths, counts and directories",
  ["src/ifd/mod.rs","src/metadata/mod.rs","src/exif_tag/mod.rs","src/exif_tag/decode.rs","src/u8conversion.rs"],
  [("Metadata::encode / ImageFileDirectory::encode_ifd","src/metadata/mod.rs, src/ifd/mod.rs"),("Metadata::decode / ImageFileDirectory::decode_ifd","src/metadata/mod.rs, src/ifd/mod.rs")],
  ["Metadata::encode","Metadata::new_from_vec(.., TIFF)","Metadata::get_ifds"])

p("C02","Encoded EXIF blocks are well-formed TIFF",
  "Every EXIF block the library produces is a valid TIFF structure when read by an independent strict parser: correct header, entry counts that match, entries in strictly ascending tag order, every value, directory, strip and thumbnail inside the block, word aligned, and not overlapping any other region, and every directory chain terminated. Sub-directory pointers appear exactly once, in the directory that owns them, and inline values occupy the entry's value field left-justified in the block's byte order.",
  ["inputs","histories"],
  "all metadata objects of C01 plus objects containing empty values and user-supplied offset tags",
  "the tests only ever read blocks back with the same library, so a block other readers reject (unsorted entries, overlapping or dangling offsets) goes unnoticed",
  ["src/ifd/mod.rs","src/metadata/mod.rs","src/exif_tag/mod.rs"],
  [("encode_ifd offset bookkeeping (current_offset, ifd_offset_area, re-alignment)","src/ifd/mod.rs"),("offset tag generation per sub-directory","src/metadata/mod.rs")],
  ["Metadata::encode","as_u8_vec"])

p("C03","What is written to an image is what is read back",
  "For every supported image container shape and every metadata object, if writing succeeds then reading the image again returns exactly the tags, directories and byte order that were written, and writing does succeed for every valid image of a supported kind whose container can hold the block. In a HEIF file with several Exif items the first one is replaced and the others stay as they are. When the container cannot hold the block (for example above the JPEG segment limit, or a HEIF file whose Exif item lies in an item data box) the write returns an error instead of producing a corrupt image.",
  ["inputs","histories","configurations"],
  "all small valid shapes of JPEG, PNG, WebP, JXL, HEIF/AVIF and TIFF (with and without previous EXIF, other metadata, padding, unknown chunks) x a metadata alphabet including empty, multi-directory, big, boundary-size and big-endian blocks, through both the vector and the file interface",
  "the tests write one or two tags into about ten sample files",
  ["src/jpg.rs","src/png/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/jxl.rs","src/heif/container.rs","src/tiff/mod.rs","src/metadata/metadata_io.rs"],
  [("write_to_vec / write_to_file dispatch","src/metadata/metadata_io.rs"),("per-format clear-then-insert writers","src/*")],
  ["Metadata::write_to_vec","Metadata::write_to_file","Metadata::new_from_vec","Metadata::new_from_path"])

p("C04","JPEG content is preserved by metadata operations",
  "Writing or clearing metadata in a JPEG changes nothing but the EXIF segment: every other marker segment (including other APP1 payloads such as XMP, APP2, comments), every scan's entropy-coded data, restart markers, fill bytes and any data after the end marker stay byte-identical and in order. The result is a structurally valid JPEG whose EXIF segment, if any, directly follows the start marker and has a correct length.",
  ["inputs","histories"],
  "all sequences of up to a bounded number of segments/scans drawn from an alphabet of marker kinds x operation sequences",
  "the tests use a few camera files and mostly check tag values, not the bytes of the rest of the file",
  ["src/jpg.rs"],
  [("clear_segment","src/jpg.rs"),("write_metadata / skip_ecs","src/jpg.rs")],
  ["write_to_vec/clear_metadata on JPEG"])

p("C05","PNG content is preserved by metadata operations",
  "Writing or clearing metadata in a PNG leaves every chunk that does not carry EXIF byte-identical and in order, with valid lengths and CRCs throughout. The result starts with the signature and IHDR, ends with IEND, keeps image data chunks consecutive, and holds text chunks and all ancillary chunks with their original keyword, compression and content, apart from EXIF removed from XMP.",
  ["inputs","histories"],
  "all sequences of up to a bounded number of chunks drawn from an alphabet (IDAT, PLTE, tEXt, zTXt, iTXt, eXIf, private chunks, raw-profile chunks) x operation sequences",
  "tests check three PNG files and the tag values only",
  ["src/png/mod.rs","src/png/chunk.rs","src/png/read.rs","src/png/text.rs"],
  [("parse_png / clear_metadata / write_metadata","src/png/mod.rs"),("chunk reading and CRC","src/png/read.rs, src/png/chunk.rs")],
  ["write_to_vec/clear_metadata on PNG"])

p("C06","WebP content is preserved by metadata operations",
  "Writing or clearing metadata in a WebP file leaves every chunk other than EXIF and the VP8X header byte-identical and in order, keeps the RIFF size equal to the file size, keeps chunk padding, and changes in an existing VP8X chunk only the EXIF flag. The EXIF flag is set exactly when an EXIF chunk is present, and a VP8X header that had to be created states the image's true canvas width, height and alpha.",
  ["inputs","histories"],
  "all sequences of up to a bounded number of chunks (VP8X with every flag combination used, ICCP, ANIM, ANMF, ALPH, VP8, VP8L, EXIF, XMP, unknown, odd and even sizes) and simple lossless/lossy files over all boundary dimensions x operation sequences",
  "five sample files; none has a chunk after the EXIF chunk that is checked, none is decoded after the change",
  ["src/webp/vec.rs","src/webp/file.rs","src/webp/mod.rs"],
  [("clear_metadata chunk walk","src/webp/vec.rs, src/webp/file.rs"),("convert_to_extended_format","src/webp/vec.rs, src/webp/file.rs"),("update_file_size_information / set_exif_flag","src/webp/vec.rs, src/webp/file.rs")],
  ["write_to_vec/write_to_file/clear_metadata on WebP"])

p("C07","JPEG XL content is preserved by metadata operations",
  "Writing or clearing metadata in a JPEG XL container leaves every box other than the Exif carrier (plain or brotli-compressed) byte-identical and in order, keeps the signature and file-type boxes first, and yields a box sequence whose sizes exactly tile the file. A bare codestream is never turned into an invalid file: it is either wrapped into a valid container or rejected with an error.",
  ["inputs","histories"],
  "all sequences of up to a bounded number of boxes (jxlc, jxlp, xml, jumb, brob variants, unknown, 64-bit sizes, size-0 last box) x operation sequences",
  "six sample files of two layouts",
  ["src/jxl.rs"],
  [("clear_metadata / find_ISO_BMFF positions","src/jxl.rs"),("write_metadata insert position","src/jxl.rs")],
  ["write_to_vec/write_to_file/clear_metadata on JXL"])

p("C08","HEIF/AVIF items stay intact under metadata operations",
  "Writing or clearing metadata in a HEIF/AVIF file leaves every non-EXIF item readable with byte-identical data at its stated location, for every extent layout and construction method, and leaves every other box and property unchanged. Every other location stored in the file (chunks and auxiliary information of image sequences, items of further meta boxes, items whose data lies within the meta box) keeps referring to the same bytes. Box sizes keep tiling the file, every item location stays inside the file, and item information, location and reference tables stay mutually consistent.",
  ["inputs","histories"],
  "all small valid files over item counts, extent counts, iloc versions and field widths, construction methods (file, idat), box order (meta before/after mdat), existing Exif item present/absent and its position among other items, presence of iref/iprp/free boxes x operation sequences",
  "three sample files from two encoders, checked by reading the tags back",
  ["src/heif/container.rs","src/heif/boxes/item_location.rs","src/heif/boxes/item_info.rs","src/heif/boxes/item_reference.rs","src/heif/boxes/meta.rs"],
  [("generic_write_metadata / construct_new_exif_data_area","src/heif/container.rs"),("iloc offset adjustment","src/heif/boxes/item_location.rs")],
  ["write_to_vec/write_to_file/clear_metadata on HEIF"])

p("C09","TIFF pixel data and essential tags survive metadata operations",
  "Reading a TIFF's metadata, changing any tags and writing it back keeps every page's strips byte-identical and in order, keeps all pages and their essential tags, and yields a strictly valid TIFF that ends exactly where its last datum ends. A write that lacks a tag TIFF requires is rejected without touching the image. A TIFF with image data the library does not carry along (tiles, directories behind SubIFDs or GlobalParametersIFD, tables of old-style JPEG compression) is either kept complete or refused and left untouched.",
  ["inputs","histories"],
  "all small TIFFs over page counts, strip counts and lengths, byte orders and data layouts x edit sequences, through vector and file interface",
  "one sample TIFF and one multi-page file, compared on tags only",
  ["src/tiff/mod.rs","src/tiff/vec.rs","src/tiff/file.rs","src/ifd/mod.rs"],
  [("strip gathering and re-emission","src/ifd/mod.rs"),("check_for_required_tags","src/tiff/mod.rs")],
  ["write_to_vec/write_to_file on TIFF"])

p("C10","Clearing removes all EXIF and is idempotent",
  "After a successful clear no EXIF carrier remains anywhere in the image (no EXIF segment, chunk, box, item or raw profile, no set EXIF flag, none of the old payload bytes left over, not even past the new end) and reading finds no tags. For TIFF the structural tags remain, and for HEIF/AVIF every Exif item itself stays, holding exactly the orientation and resolution tags its first directory (which describes the image) already had. Clearing an image that has no EXIF succeeds and changes nothing, so clearing twice equals clearing once, and clearing undoes a write: clear(write(x)) equals clear(x) in content.",
  ["inputs","histories"],
  "all container shapes of C04-C09, with zero, one or several EXIF carriers in any position, vector and file interface",
  "tests clear a few files with exactly one carrier at the usual position",
  ["src/jpg.rs","src/png/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/jxl.rs","src/heif/container.rs","src/metadata/edit.rs"],
  [("per-format clear_metadata","src/*")],
  ["Metadata::clear_metadata","Metadata::file_clear_metadata"])

p("C11","The last write wins: results do not depend on history",
  "After any sequence of writes and clears on an image, reading returns exactly the metadata of the last write since the last clear, exactly one EXIF carrier exists (in HEIF, the Exif items of further images stay besides), and no bytes of earlier metadata remain. Apart from the one-time addition of container plumbing needed to hold EXIF, the resulting image is the same as if only the last operation had been applied, so repeated writes never grow the file.",
  ["histories","inputs"],
  "all operation sequences up to a bounded depth over an alphabet of writes (small, large, empty, shrinking, growing metadata) and clears on every start shape, explored to a fixed point of reachable image states",
  "tests perform at most two operations on a file",
  ["src/jpg.rs","src/png/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/jxl.rs","src/heif/container.rs","src/tiff/vec.rs"],
  [("clear-before-write in every writer","src/*")],
  ["write_to_vec","clear_metadata","write_to_file"])

p("C12","File interface and vector interface agree",
  "For every image, metadata object and operation (read, write, clear, APP12/APP13 clear), the path-based function and the buffer-based function give the same outcome: both succeed or both fail, the file's final bytes equal the buffer's final bytes, and both reads return the same metadata. The file interface touches nothing but the named file.",
  ["inputs","histories"],
  "all container shapes, valid and malformed, x operations x metadata alphabet, including files that shrink",
  "tests exercise one interface at a time and never compare them",
  ["src/metadata/metadata_io.rs","src/webp/file.rs","src/webp/vec.rs","src/tiff/file.rs","src/tiff/vec.rs","src/jpg.rs","src/png/mod.rs","src/jxl.rs","src/heif/mod.rs"],
  [("parallel vec/file implementations","src/webp, src/tiff, src/jpg.rs, src/png/mod.rs, src/jxl.rs, src/heif")],
  ["write_to_file vs write_to_vec","file_clear_metadata vs clear_metadata","new_from_path vs new_from_vec"])

p("C13","Malformed input never panics, hangs or exhausts memory",
  "For every byte sequence, declared file type and operation (detect, read, write, clear, segment clear, re-encode of what was read), the library returns normally with a value or an error: it does not panic, loop forever, overflow the stack, or allocate memory out of proportion to the input (beyond a fixed allowance of about a hundred megabytes). This includes truncated, bit-flipped, self-referential and length-lying files.",
  ["inputs"],
  "every truncation and every single-byte substitution from a boundary-value alphabet of a corpus of small valid images covering every container feature, all pairs of length-field corruptions, plus every short byte string over a structural alphabet",
  "tests hold only the malformed files users have reported; the fuzz targets in the repository are not run by the tests and sample",
  ["src/ifd/mod.rs","src/exif_tag/decode.rs","src/jpg.rs","src/png","src/webp","src/jxl.rs","src/heif","src/util.rs","src/u8conversion.rs"],
  [("length and bounds checks in every parser","src/*")],
  ["all public I/O entry points"])

p("C14","A failed operation leaves the image untouched",
  "Whenever a write, clear or segment clear returns an error because of the image or the metadata (wrong or damaged container, block too large, missing required tags, unsupported variant), the caller's buffer, or the file on disk, is byte-identical to what it was before the call. In particular an operation never removes the old metadata and then fails to write the new one.",
  ["inputs","histories"],
  "all shapes and malformed variants of C13 and oversize/invalid metadata of C03, x all mutating operations, vector and file interface",
  "the tests never inspect the image after a failed call",
  ["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/webp/vec.rs","src/webp/file.rs","src/jxl.rs","src/heif/container.rs","src/tiff/mod.rs"],
  [("order of validation, clearing and insertion in every writer","src/*")],
  ["buffer/file after Err"])

p("C15","The in-memory metadata store behaves like a keyed map",
  "After any sequence of set, remove, directory creation and lookup calls, the object holds exactly the tags a map keyed by (directory number, group, tag number) would hold: setting replaces, removing deletes only the addressed tag, lookups by tag, by number with or without group, iteration and directory listing all report the same contents in a consistent order. Directories appear with their parents, unique and sorted, and tags within a directory stay sorted.",
  ["histories"],
  "all call sequences up to a bounded depth over an alphabet of tags that collide in number across groups, unknown tags, and directory numbers 0..2",
  "tests set and remove single tags; collisions between groups and directories and sequences are not covered",
  ["src/metadata/set.rs","src/metadata/get.rs","src/metadata/iterator.rs","src/metadata/mod.rs","src/ifd/set.rs","src/ifd/get.rs"],
  [("set_tag/remove_tag retain-and-push with sort","src/ifd/set.rs"),("create_ifd with parent creation","src/metadata/mod.rs")],
  ["Metadata::set_tag/remove_tag/get_tag/get_tag_by_hex/get_ifd/get_ifds/into_iter"])

p("C16","Rational conversions are accurate and total",
  "Converting any number to a rational and back gives the nearest value up to the documented tolerance: integers in range convert exactly, the result has the input's sign, a non-zero denominator, and an error no larger than the approximation tolerance; converting a fraction with small terms to floating point and back gives the reduced fraction. Out-of-range, NaN and infinite inputs give a defined, sign-correct saturated or not-a-number result and never panic or wrap.",
  ["inputs"],
  "all fractions with numerator and denominator up to a bound, all integers around every power of two, all boundary floating-point values, for unsigned and signed rationals and all conversions between them",
  "no test touches the conversions except a few fixed values",
  ["src/rational.rs"],
  [("f64_to_rational64u continued fraction","src/rational.rs")],
  ["From impls of uR64 and iR64"])

p("C17","Decoding depends on a block's meaning, not its layout",
  "For every valid EXIF block produced by any conforming writer (either byte order, directories and data areas in any order, with gaps, shared or unsorted data, with or without the EXIF prefix), decoding returns exactly the logical tags: their numbers, directories, formats and values. Integer tags stored in a narrower or wider permitted integer format decode to the same number or are rejected, never silently altered.",
  ["inputs","configurations"],
  "all logical contents of a small alphabet x all permutations of placement of directories and data areas x byte order x permitted format substitutions and values around the width boundaries",
  "tests only read camera files of a few vendors plus the library's own output",
  ["src/ifd/mod.rs","src/exif_tag/decode.rs","src/metadata/mod.rs","src/u8conversion.rs"],
  [("decode_ifd","src/ifd/mod.rs"),("decode_tag_with_format_exceptions","src/exif_tag/decode.rs")],
  ["Metadata::new_from_vec"])

p("C18","Reducing to a minimum keeps exactly the essential tags",
  "Reducing metadata to a minimum, and clearing a TIFF, keeps in every main directory exactly the structural tags (dimensions, bits, compression, photometry, samples, strips, resolution, colour map, thumbnail, and what tells how to decode the image data: planar configuration, the YCbCr tags and reference black/white, subfile type, fill order, T4/T6 options, predictor, ink set and number of inks, dot range, extra samples, sample format, JPEG tables) with unchanged values, removes every other tag and every sub-directory, and is idempotent. A cleared TIFF remains a valid TIFF with identical strips on every page and contains no bytes of the removed values.",
  ["inputs","histories"],
  "all subsets of directories x every known tag plus unknown tags in each, every page count up to a bound",
  "one sample TIFF is cleared in the tests",
  ["src/metadata/edit.rs","src/tiff/vec.rs","src/tiff/file.rs"],
  [("reduce_to_a_minimum","src/metadata/edit.rs")],
  ["Metadata::reduce_to_a_minimum","Metadata::clear_metadata(.., TIFF)"])

p("C19","Editing one tag preserves all others",
  "Reading an image's metadata, setting or removing one tag and writing it back preserves every other tag of every directory, including tags unknown to the library, maker notes, thumbnails and second directories, with identical number, format and value, and keeps the block's byte order. This holds for repeated read-modify-write cycles.",
  ["histories","inputs"],
  "all edit sequences up to a bounded depth over an alphabet of set/remove edits on images with rich foreign EXIF blocks in every container",
  "tests check the edited tag and rarely the others",
  ["src/ifd/mod.rs","src/metadata/mod.rs","src/metadata/set.rs","src/metadata/metadata_io.rs"],
  [("decode then encode of all directories","src/ifd/mod.rs, src/metadata/mod.rs")],
  ["new_from_vec -> set_tag/remove_tag -> write_to_vec -> new_from_vec"])

p("C20","File types are recognised by content and extension",
  "Content detection returns a type only for data that starts with that type's signature, never fails, gives the same answer however the reader splits its transfers, and recognises every image the library can produce or modify. Opening a path uses the content type when content and extension disagree, falls back to the extension (any letter case) otherwise, and unknown extensions, missing files and unsupported types give an error (of kind Unsupported for an unknown extension) and change nothing. Writing and clearing by path go by the extension.",
  ["inputs","configurations"],
  "all signatures x all single-byte corruptions and truncations, all extensions x case variants x content types",
  "tests check a table of lower-case extensions and one mismatch",
  ["src/filetype.rs","src/metadata/metadata_io.rs"],
  [("auto_detect","src/filetype.rs"),("FromStr / get_file_type","src/filetype.rs"),("new_from_path precedence","src/metadata/metadata_io.rs")],
  ["FileExtension::auto_detect","FileExtension::from_str","get_file_type","Metadata::new_from_path"])

p("C21","EXIF is removed from PNG XMP text without damaging the rest",
  "Clearing or writing metadata in a PNG removes exactly the elements and attributes with the prefix exif: from XMP stored in tEXt, zTXt or iTXt chunks (compressed or not) and keeps every other element, attribute, text (apart from a line break that directly follows a removed element) and the chunk's keyword, language, translated keyword and compression kind. The remaining XMP is well-formed whenever the original was, and XMP that cannot be parsed is left unchanged rather than truncated.",
  ["inputs"],
  "all small XML trees over an alphabet of EXIF and non-EXIF elements, attributes with both quote styles and entities, nesting, empty elements, comments and processing instructions x the chunk kinds",
  "two sample PNGs",
  ["src/xmp.rs","src/png/text.rs","src/png/mod.rs"],
  [("remove_exif_from_xmp","src/xmp.rs"),("construct_similar_with_new_data","src/png/text.rs")],
  ["clear_metadata/write_to_vec on PNG"])

p("C22","I/O failures are reported and short transfers are handled",
  "Under any single fault of the operating system during a file operation (failed open, read, write, seek, truncate, out of space, or a short read or write), the call either returns an error or has done exactly what a fault-free call does (a read of a file whose name has an unknown ending may then go by the content): success is never reported for a file that was not completely written, or with metadata that was only partly read. Short transfers alone never change the outcome, and a fault during reading, or before the first byte is written, leaves the file unchanged.",
  ["fault_sequences","inputs"],
  "every system call position of every file operation on every format x every fault kind, one and two faults per run",
  "no test injects a fault",
  ["src/jpg.rs","src/png/mod.rs","src/png/read.rs","src/webp/file.rs","src/jxl.rs","src/heif/mod.rs","src/tiff/file.rs","src/general_file_io.rs","src/util.rs"],
  [("use of read/write/read_exact/write_all, buffering and flushing","src/*")],
  ["write_to_file","file_clear_metadata","new_from_path under injected faults"])

p("C23","APP12/APP13 clearing removes exactly those segments",
  "Clearing APP12 or APP13 from a JPEG removes every segment with that marker before the end of the image and nothing else: all other segments, scans, trailing data and the EXIF metadata stay byte-identical, and the call is idempotent. For every other file type the call returns an error and changes nothing.",
  ["inputs","histories"],
  "all sequences of up to a bounded number of segments/scans from an alphabet containing APP12/APP13 in every position, adjacent and repeated, x operation sequences",
  "two sample files with one such segment each",
  ["src/jpg.rs","src/metadata/metadata_io.rs"],
  [("clear_segment without prefix","src/jpg.rs")],
  ["clear_app12_segment","clear_app13_segment","file_clear_app12_segment","file_clear_app13_segment"])

p("C24","Exported container payloads equal what writing embeds",
  "The byte vector the library hands out for a given file type (for embedding by other code) (JPEG: a segment; PNG: the content of a text chunk, or a zTXt chunk's type and data; WebP: a chunk; HEIF: the content of an Exif item) is complete and valid for that type and holds the same EXIF block that writing the same metadata to an image of that type embeds; for other types an error is returned. Placing it at the format's insertion point of an image without EXIF gives an image from which the library reads back exactly that metadata.",
  ["inputs"],
  "metadata alphabet of C03 x exportable file types x container shapes without EXIF",
  "no test covers the exported vectors for most types",
  ["src/metadata/metadata_io.rs","src/jpg.rs","src/png/mod.rs","src/webp/mod.rs","src/heif/mod.rs"],
  [("as_u8_vec per format","src/metadata/metadata_io.rs")],
  ["Metadata::as_u8_vec"])

p("C25","Value/byte conversions are lossless in both byte orders",
  "For every supported value type, converting a value or list of values to bytes and back in the same byte order is the identity, the bytes are the standard big- or little-endian representation, and a byte string whose length does not fit the type gives an error from the fallible conversion. Strings are stored NUL-terminated and come back without the terminator; bytes that are not UTF-8 decode without failing.",
  ["inputs"],
  "all 8- and 16-bit values, boundary 32/64-bit and floating-point bit patterns, all lengths 0..40, all one- and two-byte strings, both byte orders",
  "no direct tests",
  ["src/u8conversion.rs"],
  [("build_u8conversion / build_vec_u8conversion macros","src/u8conversion.rs")],
  ["U8conversion::to_u8_vec","U8conversion::from_u8_vec_res"])

p("C26","The tag dictionary is consistent and matches the EXIF standard",
  "For every tag number and group, looking the tag up by number gives either the standard tag for that number and group, whose number, group, format and component count are those of the EXIF/TIFF standard, or an unknown tag that faithfully carries the given number, group, format and data. Construction from data, number, group, format, component count, writability and unknown-ness queries are mutually consistent for every tag.",
  ["inputs"],
  "all 65536 tag numbers x 4 groups x 12 formats x value lengths, exhaustively",
  "tests touch about twenty tags",
  ["src/exif_tag/mod.rs","src/exif_tag_format.rs"],
  [("build_tag_enum table","src/exif_tag/mod.rs"),("ExifTagFormat codes","src/exif_tag_format.rs")],
  ["ExifTag::from_u16","ExifTag::from_u16_with_data","ExifTag::as_u16/get_group/format/number_of_components"])

p("C27","EXIF stored by other software is read completely",
  "For every valid image of a supported type that holds EXIF data in any of the carriers the format defines (APP1 segment at any position in front of the image data, eXIf chunk or raw-profile text chunk of any kind, EXIF chunk, Exif box or Brotli-compressed Exif box, Exif item with any extents and construction method, TIFF directories), reading returns exactly the tags, directories and byte order stored there, through buffer and path alike. For an image without EXIF data reading never makes up tags. A HEIF Exif item stored where the library does not look (item data box, several extents, another file or item) gives an error or the complete data, never a part of it or other data, and the operation leaves such an image unchanged.",
  ["inputs","configurations"],
  "all container shapes of C04-C09 x carrier variants and positions x blocks of both byte orders",
  "tests read files of a few vendors plus the library's own output; which carrier a file uses and what precedes it depends on the writing software",
  ["src/jpg.rs","src/png/mod.rs","src/png/read.rs","src/png/text.rs","src/webp/mod.rs","src/webp/vec.rs","src/jxl.rs","src/heif","src/tiff/mod.rs","src/metadata/metadata_io.rs"],
  [("read_metadata per format","src/*"),("general_decoding_wrapper","src/metadata/metadata_io.rs")],
  ["Metadata::new_from_vec","Metadata::new_from_path"])

p("C28","The outcome of a call depends on its arguments alone",
  "For every call of the library (reading, writing, clearing, encoding, exporting, type detection, editing a metadata object), what it returns and what it leaves in the buffer or file is determined by its arguments and the image alone. It is the same in a fresh process and after any sequence of earlier calls in the same process (successful or failed, on the same path, the same buffer or the same metadata object), under every interleaving with a call in another thread that works on another file, buffer or reads the same file, with or without a logger installed at any level, and for any working directory and environment variables.",
  ["inputs","histories","schedules","configurations"],
  "all ordered pairs of about 550 calls (thorough: triples of a part), every damaged image followed by an intact one, all interleavings of two calls with one preemption at any allocation or file system call (thorough: two) and up to three preemptions at file system calls",
  "unit tests start from a fresh state and run without a logger; shared state in the library (caches, scratch buffers, temporary files) goes wrong only after particular histories or under particular schedules",
  ["src/metadata","src/general_file_io.rs","src/png","src/jpg.rs","src/jxl.rs","src/webp","src/heif","src/tiff","src/ifd/mod.rs"],
  [("all public operations","src/metadata/metadata_io.rs"),("file access","src/general_file_io.rs"),("decoding","src/ifd/mod.rs")],
  ["Metadata::new_from_vec/new_from_path","Metadata::write_to_vec/write_to_file","Metadata::clear_metadata/file_clear_metadata","Metadata::encode/as_u8_vec","FileExtension::auto_detect"])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P),"properties")
