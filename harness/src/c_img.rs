//! Properties of the image containers, decided by exploring every state reachable from enumerated seed images: C03-C12 C14 C23
use crate::c_meta::{c19_starts, class, reduced, tiff_base};
use crate::img::*;
use crate::rt::*;
use crate::spec::*;
use crate::tiffref::{self, Layout};
use little_exif::filetype::FileExtension;
use little_exif::metadata::Metadata;
use std::collections::HashMap;
use std::path::{Path, PathBuf};

pub fn defs() -> Vec<Def> {
    vec![
        Def { id: "C03", level: "model_checking", f: c03, rule: "state = image bytes; from every seed image of the enumerated shapes the graph of all states reachable by writes of the metadata alphabet and clears is explored to closure; after every write the image is read back through the library and the carrier block is read by the independent strict parser",
            assumptions: &["the container builders produce valid images", "metadata alphabet: small, rich big-endian, blank, odd-length, largest for one JPEG segment, one step above it"] },
        Def { id: "C04", level: "model_checking", f: c04, rule: "state = JPEG bytes; all header segment sequences up to the length bound over 18 segment kinds x 8 scan structures x 5 trailers; all states reachable by writes and clears; every transition compared by a strict marker parser",
            assumptions: &["T.81 marker syntax as implemented in img.rs"] },
        Def { id: "C05", level: "model_checking", f: c05, rule: "state = PNG bytes; all placements of up to the bound of 20 ancillary chunk kinds before and after the image data, 1 or 3 IDAT chunks, trailing data; all states reachable by writes and clears; every transition compared by a strict chunk parser with CRC check",
            assumptions: &["EXIF in XMP is recognised by the prefix exif:"] },
        Def { id: "C06", level: "model_checking", f: c06, rule: "state = WebP bytes; simple files over canvas sizes and both codecs, extended files over all chunk sequences up to the bound with true and false flags; all states reachable by writes and clears; every transition compared by a strict RIFF parser",
            assumptions: &[] },
        Def { id: "C07", level: "model_checking", f: c07, rule: "state = JPEG XL bytes; all box sequences up to the bound over 14 box kinds (32-bit, 64-bit and open-ended sizes), bare codestreams; all states reachable by writes and clears; every transition compared by a strict box parser",
            assumptions: &[] },
        Def { id: "C08", level: "model_checking", f: c08, rule: "state = HEIF bytes; item sets x data orders x top-level layouts x item table versions and field sizes; all states reachable by writes and clears; every transition compared by a strict parser resolving every item's extents",
            assumptions: &["item properties are opaque", "files with one Exif item at most, plus dedicated seeds with several"] },
        Def { id: "C09", level: "model_checking", f: c09, rule: "state = TIFF bytes; enumerated pages, strips, byte orders and region layouts; all read-edit-write and clear sequences up to the depth bound; every result read by the strict TIFF parser",
            assumptions: &["strip-organised TIFF"] },
        Def { id: "C10", level: "model_checking", f: c10, rule: "state = image bytes; every clear transition from every state reachable from the seeds of all six containers is checked for carriers, leftovers, flags, read result, idempotence and agreement with clearing the seed",
            assumptions: &["markers OLDMETA/NEWMETA in metadata values stand for old payload bytes"] },
        Def { id: "C11", level: "model_checking", f: c11, rule: "state = image bytes; graph of all states reachable by writes and clears explored to closure; every state reached by a write must be byte-identical to that write applied to the seed, every state reached by a clear must hold the items of the cleared seed",
            assumptions: &[] },
        Def { id: "C12", level: "model_checking", f: c12, rule: "state = (image bytes, operation); every operation on every reachable state is executed through the vector and the file interface and outcomes, bytes, reads and the directory content are compared; also for truncated images",
            assumptions: &["files live on tmpfs"] },
        Def { id: "C14", level: "fault_enumeration", f: c14, rule: "every failing operation on valid seeds, on every truncation and on every single-byte corruption of small images of every kind, vector and file interface; bytes compared with those before the call",
            assumptions: &["errors caused by the image or the metadata; operating system faults are C22"] },
        Def { id: "C23", level: "model_checking", f: c23, rule: "state = JPEG bytes; APP12/APP13 clears from every state reachable by writes, clears and segment clears over all header sequences up to the bound; also every non-JPEG seed",
            assumptions: &[] },
    ]
}

// ------------------------------------------------------------------------------------------ alphabet
#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum Op { W(usize), Clear, A12, A13 }
pub struct M { pub name: &'static str, pub lm: LMeta, pub m: Metadata, pub blk: Vec<u8> }
pub fn mk(name: &'static str, lm: LMeta) -> M { let m = lm.meta(); let blk = m.encode().expect("alphabet metadata must encode"); M { name, lm, m, blk } }
pub fn small() -> LMeta { LMeta::new(false).with(0, LTag::s(0x10f, 0, "NEWMETA-0")).with(0, LTag::u16s(0x8827, 1, &[400])) }
pub fn rich() -> LMeta {
    let mut m = LMeta::new(true);
    m.put(0, LTag::s(0x10e, 0, "NEWMETA-1 grüße")).put(0, LTag::u16s(0x112, 0, &[8])).put(0, LTag::rat(0x11a, 0, &[(300, 1)])).put(0, LTag::undef(0xfde8, 0, b"private"))
        .put(0, LTag::rat(0x829a, 1, &[(1, 60)])).put(0, LTag::undef(0x927c, 1, b"NEWMETA-1 makernote")).put(0, LTag::s(1, 2, "R98")).put(0, LTag::s(1, 3, "N")).put(0, LTag::rat(2, 3, &[(1, 1), (2, 1), (3, 1)])).put(1, LTag::u16s(0x103, 0, &[6])).put(1, LTag::rat(0x11a, 0, &[(72, 1)])).put(1, LTag::u16s(0x128, 0, &[3]));
    m.thumb(1, b"\xff\xd8\xff\xd9thumb".to_vec())
}
fn sized(n: usize) -> LMeta {
    // tune the description so that the block has exactly n bytes
    let mk = |l: usize| LMeta::new(false).with(0, LTag::s(0x10e, 0, &format!("NEWMETA-x{}", "x".repeat(l))));
    let l0 = mk(100).meta().encode().unwrap().len();
    let m = mk((100 + n).saturating_sub(l0));
    for d in 0..4usize { let c = mk((100 + n).saturating_sub(l0 + d)); if c.meta().encode().unwrap().len() == n { return c; } }
    m
}
pub fn metas() -> Vec<M> {
    vec![
        mk("small", small()), mk("rich", rich()), mk("blank", LMeta::new(false)),
        mk("odd", LMeta::new(false).with(0, LTag::s(0x10e, 0, "")).with(0, LTag::u16s(0x112, 0, &[3])).with(0, LTag::undef(0x9286, 1, b"NEWMETA-3odd!")).with(0, LTag::u16s(0x128, 0, &[2])).with(0, LTag::rat(0x11b, 0, &[(72, 1)]))),
        mk("max", sized(65526)), mk("over", sized(65528)), mk("nasty", nasty()),
    ]
}
/// values that look like pieces of containers
fn nasty() -> LMeta {
    let mut u = b"NEWMETA-6".to_vec();
    for x in [&b"Exif\0\0MM\0*\0\0\0\x08"[..], b"\xff\xd9\xff\xda\xff\xd8\xff\xe1\0\x0eExif\0\0II*\0", b"\0\0\0\x04eXIfII*\0\0\0\0\0IEND\xaeB`\x82\n", b"RIFF\x04\0\0\0WEBPEXIF\x04\0\0\0VP8X", b"\0\0\0\x0cJXL \r\n\x87\n\0\0\0\x08Exif\0\0\0\x10iloc\0\0\0\0brob", b"<exif:A>1</exif:A>"] { u.extend(x); }
    LMeta::new(true).with(0, LTag::s(0x10e, 0, "Exif")).with(0, LTag::undef(0x9286, 1, &u)).with(0, LTag::undef(0x927c, 1, b"Exif\0\0II*\0\x08\0\0\0")).with(0, LTag::undef(0xfde8, 0, b"MM\0*\0\0\0\x08"))
}
/// writes of the alphabet and clear; every kind can be asked to hold the first four and `nasty`
pub fn ops_for(k: K, level: usize) -> Vec<Op> {
    if k == K::Tiff { return wops(5); }
    let mut v: Vec<Op> = [0, 1, 2, 3, 6].into_iter().map(Op::W).collect();
    if k == K::Jpg { v.extend([Op::W(4), Op::W(5)]) } else if level >= 2 { v.push(Op::W(4)) }
    v.push(Op::Clear); v
}
/// explores all seeds, then images of every kind with written blocks of every length of a range and around powers of two
fn explore_all(k: K, sl: usize, ops: &[Op], depth: usize, mon: &(dyn Fn(&Tr) + Sync)) {
    let (ms, l) = (metas(), level());
    explore(&seeds(k, sl), &ms, ops, depth, mon);
    explore(&huge_seeds(k), &ms, &ops.iter().copied().filter(|o| matches!(o, Op::W(0) | Op::W(1) | Op::Clear)).collect::<Vec<_>>(), 2, mon);
    if k == K::Tiff { return; }
    let mut ns: Vec<usize> = (36..=if l >= 2 { 1200 } else { 300 }).collect();
    for p in 9..=17 { for d in [-2i64, -1, 0, 1, 2, 7] { ns.push(((1i64 << p) + d) as usize); } }
    ns.extend([12345, 65500, 65519, 65520, 65521, 65522, 65523, 65524, 65525, 65526, 70000, 99999]);
    ns.retain(|n| k != K::Jpg || *n <= 65526);
    ns.sort(); ns.dedup();
    let base: Vec<(String, Vec<u8>)> = bases(k).into_iter().enumerate().filter(|(i, _)| match k { K::Jpg => *i == 0, K::Png => *i < 2, K::Heif => *i == 0 || *i == 2, _ => true }).map(|x| x.1).collect();
    let jobs: Vec<(usize, &(String, Vec<u8>))> = ns.iter().flat_map(|n| base.iter().map(move |b| (*n, b))).collect();
    par(&jobs, |_, (n, (name, b))| {
        let mut own = vec![mk("small", small()), mk("rich", rich()), mk("blank", LMeta::new(false)), mk("odd", LMeta::new(false))];
        own.push(mk("sized", sized(*n)));
        explore_one(&Seed { name: format!("{} size {}", name, n), k, b: b.clone(), lm: None }, &own, &[Op::W(4), Op::W(0), Op::Clear], 8, mon);
    });
}
/// pieces longer than a megabyte and longer than 24 bits count, before, between and behind the EXIF data
pub fn huge_seeds(k: K) -> Vec<Seed> {
    let mut v: Vec<(String, Vec<u8>, Option<LMeta>)> = vec![];
    for (n, fit) in [((1usize << 20) + 1, true), ((1 << 24) + 5, false)] {
        let fill = |x: u32| -> Vec<u8> { (0..n as u32).map(|i| (i ^ i >> 8 ^ i >> 16 ^ x) as u8 & 0x7f).collect() };
        let old = old_block(false, 0);
        let e = |b: &[u8]| [&[0u8; 4][..], b].concat();
        // the EXIF data itself is that long
        let big = || LMeta::new(fit).with(0, LTag::s(0x10f, 0, OLD)).thumb(0, fill(5)).meta().encode().unwrap();
        match k {
            K::Jpg => { let (ex, bo) = (seg(0xe1, &exif_hdr(&old)), jpg_bodies()[0].1.clone()); let sos = { let p = bo.windows(2).position(|w| w == [0xff, 0xda]).unwrap(); bo[..p + 10].to_vec() };
                v.push((format!("jpg[huge scan {}]", n), jpg_join(&[&ex], &[sos, fill(1), vec![0xff, 0xd0], fill(2), vec![0xff, 0xd9]].concat(), b"tail"), None));
                v.push((format!("jpg[huge tail {}]", n), jpg_join(&[], &bo, &[fill(3), ex].concat()), None)); }
            K::Png => {
                v.push((format!("png[huge block {}]", n), png_join(&[&chunk(b"eXIf", &big())], 1, &[], b""), None));
                v.push((format!("png[huge profile {}]", n), png_join(&[&text_build(&Text { typ: *b"zTXt", kw: RAW.to_vec(), compressed: true, lang: vec![], tkw: vec![], text: hex_profile("exif", &exif_hdr(&big()), 36) }, 6)], 1, &[], b""), None));
                v.push((format!("png[huge eXIf {}]", n), png_join(&[&chunk(b"prVt", &fill(1)), &chunk(b"eXIf", &old), &chunk(b"prVt", &fill(2))], 1, &[], &fill(3)), None));
                let t = |z: bool, xmp: &str| text_build(&Text { typ: *b"iTXt", kw: XMPKW.to_vec(), compressed: z, lang: vec![], tkw: vec![], text: format!("<x:xmpmeta xmlns:exif=\"e\"><a>{}</a>{}<b/></x:xmpmeta>", String::from_utf8(fill(1).iter().map(|b| b'a' + b % 26).collect()).unwrap(), xmp).into_bytes() }, 6);
                if fit { for z in [false, true] { v.push((format!("png[huge xmp {} {}]", z, n), png_join(&[&t(z, "<exif:A>1</exif:A>"), &chunk(b"eXIf", &old)], 1, &[], b""), None)); } }
            }
            K::Webp => {
                v.push((format!("webp[huge block {}]", n), webp_join(&[vp8x(8, 30, 20), vp8(30, 20, 5), riff(b"EXIF", &big())]), None));
                v.push((format!("webp[huge VP8 {}]", n), webp_join(&[vp8(30, 20, n)]), None));
                v.push((format!("webp[huge X {}]", n), webp_join(&[vp8x(8 | 4 | 0x20, 30, 20), riff(b"ICCP", &fill(1)), vp8(30, 20, n), riff(b"EXIF", &old), riff(b"unkn", &fill(2))]), None));
            }
            K::Jxl => {
                let st = || [JXL_SIG.to_vec(), jxl_ftyp()].concat(); let code = |x: u32| [&[0xff, 0x0a][..], &fill(x)].concat();
                v.push((format!("jxl[huge Exif {}]", n), [st(), bx(b"xml ", &fill(1)), bx(b"Exif", &e(&old)), bx(b"jxlc", &code(2)), bx0(b"free", &fill(3))].concat(), None));
                v.push((format!("jxl[huge brob {}]", n), [st(), bx64(b"jxlc", &code(1)), bx(b"brob", &[b"Exif".to_vec(), brotli_c(&e(&old))].concat()), bx(b"brob", &[&b"xml "[..], &fill(2)].concat())].concat(), None));
                v.push((format!("jxl[huge block {}]", n), [st(), bx(b"Exif", &e(&big())), bx(b"jxlc", &[0xff, 0x0a, 1])].concat(), None));
                v.push((format!("jxl[huge brob block {}]", n), [st(), bx(b"brob", &[b"Exif".to_vec(), brotli_c(&e(&big()))].concat()), bx(b"jxlc", &[0xff, 0x0a, 1])].concat(), None));
                v.push((format!("jxl[naked huge {}]", n), code(1), None));
            }
            K::Heif => for (i, b) in crate::heif::huge(&fill(1), &fill(2), &big()).into_iter().enumerate() { v.push((format!("heif[huge {} {}]", i, n), b, None)) },
            K::Tiff => for be in [false, true] {
                let mut lm = tiff_base(&LMeta::new(be)); lm.put(0, LTag::s(0x131, 0, OLD));
                lm.ifd(0, 0).strips = Some(vec![fill(1), vec![1, 2, 3], fill(2)]);
                v.push((format!("tiff[huge be={} {}]", be, n), tiffref::plain(&lm), Some(lm)));
            },
        }
    }
    if k == K::Heif { v.extend(crate::heif::counters().into_iter().chain(crate::heif::tables()).map(|(n, b)| (n, b, None))); }
    v.into_iter().map(|(name, b, lm)| Seed { name, k, b, lm }).collect()
}
/// long pieces and many pieces
fn scale_seeds(k: K) -> Vec<(String, Vec<u8>)> {
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    let fill = |n: usize| -> Vec<u8> { (0..n).map(|i| (i % 251) as u8).collect() };
    let old = old_block(false, 0);
    let lens = [4095usize, 4096, 8191, 8192, 16384, 32768, 65533, 65535, 65536, 70001];
    match k {
        K::Jpg => {
            let (ex, bo) = (seg(0xe1, &exif_hdr(&old)), jpg_bodies());
            let sos = { let b = &bo[0].1; let p = b.windows(2).position(|w| w == [0xff, 0xda]).unwrap(); b[..p + 10].to_vec() };
            for n in lens {
                // stuffed bytes and a restart marker across every small boundary of the scan
                for d in 0..3usize { let mut e = vec![0x33; n - d]; e.extend([0xff, 0, 0xff, 0xd0, 0xff, 0xff, 0xd9]); v.push((format!("jpg[EXIF|long scan {}|]", n - d), jpg_join(&[&ex], &[&sos[..], &e].concat(), b"tail"))); }
                v.push((format!("jpg[long tail {}]", n), jpg_join(&[&ex], &bo[0].1, &[fill(n), ex.clone()].concat())));
            }
            let com: Vec<Vec<u8>> = (0..300usize).map(|i| seg(if i % 7 == 3 { 0xec } else { 0xfe }, format!("segment {}", i).as_bytes())).collect();
            let mut r: Vec<&[u8]> = com.iter().map(|x| &x[..]).collect(); r.push(&ex);
            v.push(("jpg[300 segments]".into(), jpg_join(&r, &bo[0].1, b"")));
            let r: Vec<&[u8]> = (0..9).map(|_| &ex[..]).collect();
            v.push(("jpg[9 EXIF]".into(), jpg_join(&r, &bo[0].1, b"")));
            let full: Vec<Vec<u8>> = (0..5u8).map(|i| seg(0xe2, &[&b"ICC_PROFILE\0"[..], &[i + 1, 5], &vec![i; 65519]].concat())).collect();
            let mut r: Vec<&[u8]> = full.iter().map(|x| &x[..]).collect(); r.push(&ex);
            v.push(("jpg[big profile]".into(), jpg_join(&r, &bo[0].1, b"")));
            v.push(("jpg[many scans]".into(), jpg_join(&[&ex], &[(0..40).map(|i| [&sos[..], &[i as u8 % 200, 0xff, 0, 0xff, 0xd1]].concat()).collect::<Vec<_>>().concat(), vec![0xff, 0xd9]].concat(), b"")));
        }
        K::Png => {
            let raw = hex_profile("exif", &exif_hdr(&old), 36); let z = |kw: &[u8], t: &[u8]| text_build(&Text { typ: *b"zTXt", kw: kw.to_vec(), compressed: true, lang: vec![], tkw: vec![], text: t.to_vec() }, 6);
            let ex = z(RAW, &raw);
            for n in lens {
                let xm = format!("<x:xmpmeta xmlns:exif=\"e\"><a>{}</a><exif:A>1</exif:A></x:xmpmeta>", "y".repeat(n));
                v.push((format!("png[long {}]", n), png_join(&[&chunk(b"prVt", &fill(n)), &ex, &z(b"Description", &fill(n).iter().map(|b| b | 1).collect::<Vec<_>>())], 1, &[], &fill(n))));
                v.push((format!("png[long xmp {}]", n), png_join(&[&text_build(&Text { typ: *b"iTXt", kw: XMPKW.to_vec(), compressed: n % 2 == 0, lang: vec![], tkw: vec![], text: xm.into_bytes() }, 6), &ex], 1, &[], b"")));
                let bigold = sized(n.max(4096) / 2 * 2).meta().encode().unwrap();
                let mut e = chunk(b"eXIf", &bigold); if n % 2 == 0 { e = z(RAW, &hex_profile("exif", &exif_hdr(&bigold), 36)) }
                v.push((format!("png[long exif {}]", n), png_join(&[&e], 3, &[], b"")));
            }
            let t: Vec<Vec<u8>> = (0..300usize).map(|i| chunk(if i % 3 == 0 { b"tEXt" } else { b"prVt" }, format!("Comment\0nr {}", i).as_bytes())).collect();
            let mut r: Vec<&[u8]> = t.iter().map(|x| &x[..]).collect(); r.push(&ex);
            v.push(("png[300 chunks]".into(), png_join(&r, 1, &[&t[1], &ex], b"")));
            let r: Vec<&[u8]> = (0..9).map(|_| &ex[..]).collect(); v.push(("png[9 profiles]".into(), png_join(&r, 1, &r, b"")));
            v.push(("png[keyword 79]".into(), png_join(&[&chunk(b"tEXt", &[&[b'k'; 79][..], b"\0text"].concat()), &ex], 1, &[], b"")));
        }
        K::Webp => {
            let ex = riff(b"EXIF", &old);
            for n in lens {
                v.push((format!("webp[long VP8 {}]", n), webp_join(&[vp8(30, 20, n)])));
                v.push((format!("webp[long VP8L {}]", n), webp_join(&[vp8l(30, 20, n % 2 == 0, n)])));
                v.push((format!("webp[long X {}]", n), webp_join(&[vp8x(8 | 4 | 0x20, 30, 20), riff(b"ICCP", &fill(n)), vp8(30, 20, 3), riff(b"EXIF", &sized(n.max(4096) / 2 * 2).meta().encode().unwrap()), riff(b"XMP ", &fill(n))])));
            }
            let mut c = vec![vp8x(8, 30, 20), vp8(30, 20, 3), ex.clone()]; c.extend((0..300usize).map(|i| riff(b"UNKN", &fill(i % 5)))); v.push(("webp[300 chunks]".into(), webp_join(&c)));
            let mut c = vec![vp8x(2, 30, 20), riff(b"ANIM", &[0; 6])]; c.extend((0..300usize).map(|i| riff(b"ANMF", &[vec![0u8; 16], vp8(30, 20, i % 4)].concat()))); v.push(("webp[300 frames]".into(), webp_join(&c)));
            let mut c = vec![vp8x(8, 30, 20), vp8(30, 20, 3)]; c.extend((0..9).map(|_| ex.clone())); v.push(("webp[9 EXIF]".into(), webp_join(&c)));
        }
        K::Jxl => {
            let e = |b: &[u8]| { let mut d = vec![0u8; 4]; d.extend(b); d };
            let st = || [JXL_SIG.to_vec(), jxl_ftyp()].concat();
            for n in lens {
                let big = sized(n.max(4096) / 2 * 2).meta().encode().unwrap();
                let code = [&[0xff, 0x0a][..], &fill(n - 2)].concat();
                v.push((format!("jxl[long {}]", n), [st(), bx(b"xml ", &fill(n)), bx(b"Exif", &e(&big)), bx(b"jxlc", &code)].concat()));
                v.push((format!("jxl[long brob {}]", n), [st(), bx64(b"jxlc", &code), bx(b"brob", &[b"Exif".to_vec(), brotli_c(&e(&big))].concat()), bx0(b"xml ", &fill(n))].concat()));
                v.push((format!("jxl[naked long {}]", n), code));
            }
            v.push(("jxl[300 boxes]".into(), [st(), (0..300usize).flat_map(|i| bx(b"jxlp", &[&(i as u32 | if i == 299 { 1 << 31 } else { 0 }).to_be_bytes()[..], &fill(i % 4)].concat())).collect(), bx(b"Exif", &e(&old))].concat()));
            v.push(("jxl[9 Exif]".into(), [st(), (0..9).flat_map(|_| bx(b"Exif", &e(&old))).collect(), bx(b"jxlc", &[0xff, 0x0a, 1])].concat()));
        }
        K::Heif => v.extend(crate::heif::scale(&sized(40000).meta().encode().unwrap())),
        K::Tiff => (),
    }
    v
}

pub struct Seed { pub name: String, pub k: K, pub b: Vec<u8>, pub lm: Option<LMeta> }
fn seeds_raw(k: K, level: usize) -> Vec<(String, Vec<u8>)> {
    match k {
        K::Jpg => match level {
            0 => jpg_seeds(1, 6, 2, 2),
            1 => { let mut v = jpg_seeds(1, 19, 8, 5); v.extend(jpg_seeds(2, 14, 8, 1)); v.extend(jpg_seeds(2, 19, 2, 2)); v.extend(jpg_seeds(3, 6, 1, 1)); v }
            2 => { let mut v = jpg_seeds(2, 19, 8, 5); v.extend(jpg_seeds(3, 9, 8, 3)); v.extend(jpg_seeds(4, 6, 2, 1)); v }
            _ => { let mut v = seeds_raw(k, 2); v.extend(jpg_seeds(3, 19, 2, 1)); v.extend(jpg_seeds(4, 9, 2, 1)); v.extend(jpg_seeds(5, 6, 1, 1)); v }
        },
        K::Png => match level { 0 => png_seeds(1, 1, 6, 2), 1 => png_seeds(2, 2, 24, 1).into_iter().chain(png_seeds(1, 1, 24, 3)).collect(), _ => png_seeds(2, 2, 24, 3).into_iter().chain(png_seeds(3, 3, 8, 1)).collect() },
        K::Webp => if level == 0 { webp_seeds(0).into_iter().enumerate().filter(|(i, _)| i % 11 == 0).map(|x| x.1).collect() } else { webp_seeds(level) },
        K::Jxl => match level { 0 => jxl_seeds(1, 8), 1 => jxl_seeds(2, 19).into_iter().chain(jxl_seeds(3, 10)).collect(), 2 => jxl_seeds(3, 19).into_iter().chain(jxl_seeds(4, 7)).collect(), _ => jxl_seeds(4, 14) },
        K::Heif => { let mut v = crate::heif::seeds(level); if level > 0 { v.extend(crate::heif::names()); v.extend(crate::heif::inside()); } v }
        K::Tiff => vec![],
    }
}
pub fn seeds(k: K, level: usize) -> Vec<Seed> {
    if k == K::Tiff { return tiff_seeds(level); }
    let mut raw = seeds_raw(k, level);
    if level > 0 { raw.extend(scale_seeds(k)); }
    if level > 0 { for (n, b) in bases(k) { raw.extend(restructured(k, &b, level > 1).into_iter().filter(|(n, x)| is_valid(k, n, x, &b)).map(|(w, x)| (format!("var[{} {}]", n, w), x))); } }
    let mut seen = std::collections::HashSet::new();
    raw.into_iter().filter(|x| seen.insert(h128(&x.1))).map(|(name, b)| Seed { name, k, b, lm: None }).collect()
}
/// strictly valid, also in what the parsers do not look at
fn is_valid(k: K, n: &str, b: &[u8], base: &[u8]) -> bool {
    if !parse(k, b).map(|i| i.flaws.is_empty()).unwrap_or(false) { return false; }
    let ps = pieces(k, b);
    let count = |t: &str| ps.iter().filter(|p| p.name == t).count();
    match k {
        K::Webp => {
            let frame = |p: &Piece| { let d = &b[p.data..p.data_end]; match &p.name[..] { "VP8 " => d.len() >= 10 && d[0] & 1 == 0 && d[3..6] == [0x9d, 1, 0x2a] && d[6..10] != [0; 4], "VP8L" => d.len() >= 5 && d[0] == 0x2f && d[4] >> 5 == 0, _ => true } };
            ps.iter().all(frame) && (count("VP8 ") + count("VP8L") == 1 && count("ANMF") == 0 || count("ANMF") > 0 && count("VP8 ") + count("VP8L") == 0) && (count("VP8X") == 1 || matches!(&ps[0].name[..], "VP8 " | "VP8L"))
        }
        K::Jxl => count("JXL ") == 1 && count("ftyp") == 1 && count("jxlc") + count("jxlp") > 0 && ps[1].name == "ftyp",
        K::Heif => {
            // the same items, at places that were not shifted
            let data = |x: &[u8]| parse(k, x).map(|i| (i.items.into_iter().filter(|i| i.0.contains("item ")).collect::<Vec<_>>(), i.blocks));
            !["ftyp", "moov", "trak", "mdia", "minf", "stbl", "stco", "co64"].iter().any(|t| n.starts_with(t)) && !n.contains(" as ") && data(b) == data(base)
        }
        K::Png => !n.contains("ff"), // XMP in another encoding than UTF-8 is C21's matter
        _ => true,
    }
}
pub fn tiff_seeds(level: usize) -> Vec<Seed> {
    let mut v = vec![];
    for (n, lm) in c19_starts() {
        let mut lm = tiff_base(&lm);
        lm.put(0, LTag::s(0x131, 0, OLD)).put(0, LTag::s(0xa430, 1, OLD));
        let perms: usize = match level { 0 => 1, 1 => 6, _ => 40 };
        for perm in 0..perms { for (gap, align) in if level == 0 { vec![(0, true)] } else { vec![(0, true), (2, true), (6, true)] } {
            v.push(Seed { name: format!("tiff[{} perm={} gap={} align={}]", n, perm, gap, align), k: K::Tiff, b: tiffref::build(&lm, &Layout { align, gap, perm: (perm as usize).wrapping_mul(0x123456789abcd17), ..Default::default() }, &|_, _| None), lm: Some(lm.clone()) });
        } }
    }
    // pages and strips
    for be in [false, true] { for pages in 1..=(if level >= 2 { 4 } else { 3u32 }) { for strips in 0..=3usize { for len in [0usize, 1, 2, 5] {
        if level == 0 && (pages > 2 || len > 2) { continue; }
        let mut lm = tiff_base(&LMeta::new(be));
        for p in 0..pages {
            lm.put(p, LTag::u32s(0x100, 0, &[4 + p])).put(p, LTag::u32s(0x101, 0, &[3])).put(p, LTag::u16s(0x102, 0, &[8, 8, 8])).put(p, LTag::u16s(0x115, 0, &[3])).put(p, LTag::s(0x10e, 0, OLD));
            if strips > 0 { lm.ifd(p, 0).strips = Some((0..strips).map(|s| vec![p as u8 * 16 + s as u8 + 1; len + s]).collect()); } else if p > 0 { lm.ifd(p, 0).strips = None; }
        }
        v.push(Seed { name: format!("tiff[be={} pages={} strips={} len={}]", be, pages, strips, len), k: K::Tiff, b: tiffref::build(&lm, &Layout { align: true, perm: (pages as usize) * 3 + strips, ..Default::default() }, &|_, _| None), lm: Some(lm) });
    } } } }
    // many and long strips, many pages
    if level > 0 { for be in [false, true] { for (n, sizes) in [("300 strips", (0..300usize).map(|i| i % 5).collect::<Vec<_>>()), ("long", vec![70001, 65535, 65536]), ("many long", vec![9000; 20]), ("16 bit", vec![65535])] { for pages in [1u32, 2, 12] {
        let mut lm = tiff_base(&LMeta::new(be));
        for p in 0..pages {
            lm.put(p, LTag::u32s(0x100, 0, &[4 + p])).put(p, LTag::u32s(0x101, 0, &[3])).put(p, LTag::u16s(0x102, 0, &[8, 8, 8])).put(p, LTag::u16s(0x115, 0, &[3])).put(p, LTag::s(0x10e, 0, OLD));
            lm.ifd(p, 0).strips = if pages > 2 && sizes.len() < 300 { Some(vec![vec![p as u8; 10]; 2]) } else { Some(sizes.iter().enumerate().map(|(i, s)| (0..*s).map(|x| (x + i + p as usize) as u8).collect()).collect()) };
        }
        v.push(Seed { name: format!("tiff[be={} pages={} {}]", be, pages, n), k: K::Tiff, b: tiffref::build(&lm, &Layout { align: true, perm: pages as usize, ..Default::default() }, &|_, _| None), lm: Some(lm) });
    } } } }
    // integers stored in the narrower of the two formats the standard allows
    for be in [false, true] { for val in [0u32, 1, 255, 32767, 32768, 40000, 65535] { for so in [false, true] { for sizes in [&[5usize][..], &[2, 3], &[1, 2, 3], &[32768], &[3, 33000, 1]] {
        if level == 0 && (val != 40000 || sizes.len() > 2) { continue; }
        let mut lm = tiff_base(&LMeta::new(be));
        lm.put(0, LTag::u32s(0x100, 0, &[val])).put(0, LTag::u32s(0x101, 0, &[val ^ 1])).put(0, LTag::u32s(0x116, 0, &[val])).put(0, LTag::s(0x131, 0, OLD));
        lm.ifd(0, 0).strips = Some(sizes.iter().enumerate().map(|(i, n)| vec![i as u8 + 1; *n]).collect());
        let narrow = |_: (u32, u8), t: &LTag| matches!(t.num, 0x100 | 0x101 | 0x116).then(|| (3u16, { let x = u32::from_le_bytes(t.le[..4].try_into().unwrap()) as u16; if be { x.to_be_bytes().to_vec() } else { x.to_le_bytes().to_vec() } }));
        v.push(Seed { name: format!("tiff[be={} short={} offsets={} strips={:?}]", be, val, so, sizes), k: K::Tiff, b: tiffref::build(&lm, &Layout { align: true, short_strips: true, short_offs: so, ..Default::default() }, &narrow), lm: Some(lm) });
    } } } }
    v
}
pub fn tiff_metas(lm: &LMeta) -> Vec<M> {
    let mut a = lm.clone(); a.put(0, LTag::s(0x10f, 0, "NEWMETA-0")).put(0, LTag::u16s(0x8827, 1, &[400]));
    let mut b = lm.clone(); for d in b.ifds.values_mut() { d.tags.retain(|t| t.num != 0x131 && t.num != 0xa430 && t.num != 0x10e); } b.put(0, LTag::s(0x10e, 0, "NEWMETA-1")).put(0, LTag::rat(2, 3, &[(1, 1), (2, 1), (3, 1)])).put(0, LTag::undef(0xfde8, 0, b"odd")).put(0, LTag::s(1, 2, "R98"));
    let c = reduced(lm);
    let mut d = lm.clone(); for x in d.ifds.values_mut() { x.tags.retain(|t| t.num != 0x103); }
    vec![mk("set", a), mk("replace", b), mk("reduced", c), mk("lacks compression", d), mk("lacks all", LMeta::new(false).with(0, LTag::s(0x10f, 0, "x")))]
}

// ------------------------------------------------------------------------------------------ calls
pub type Res = Result<(), String>;
fn es(r: Result<(), std::io::Error>) -> Res { r.map_err(|e| e.to_string()) }
pub fn vec_op(k: K, b: &mut Vec<u8>, op: Op, ms: &[M]) -> Option<Res> { vec_op_as(k.ext(), b, op, ms) }
pub fn vec_op_as(x: FileExtension, b: &mut Vec<u8>, op: Op, ms: &[M]) -> Option<Res> {
    let n = b.len();
    match op {
        Op::W(i) => sut_np("write_to_vec", n + ms[i].blk.len(), || es(ms[i].m.write_to_vec(b, x))),
        Op::Clear => sut_np("clear_metadata", n, || es(Metadata::clear_metadata(b, x))),
        Op::A12 => sut_np("clear_app12_segment", n, || es(Metadata::clear_app12_segment(b, x))),
        Op::A13 => sut_np("clear_app13_segment", n, || es(Metadata::clear_app13_segment(b, x))),
    }
}
pub fn file_op(p: &Path, n: usize, op: Op, ms: &[M]) -> Option<Res> {
    match op {
        Op::W(i) => sut_np("write_to_file", n + ms[i].blk.len(), || es(ms[i].m.write_to_file(p))),
        Op::Clear => sut_np("file_clear_metadata", n, || es(Metadata::file_clear_metadata(p))),
        Op::A12 => sut_np("file_clear_app12_segment", n, || es(Metadata::file_clear_app12_segment(p))),
        Op::A13 => sut_np("file_clear_app13_segment", n, || es(Metadata::file_clear_app13_segment(p))),
    }
}
pub fn read_vec(k: K, b: &Vec<u8>) -> Option<Result<Canon, String>> { sut_np("new_from_vec", b.len(), || Metadata::new_from_vec(b, k.ext()).map_err(|e| e.to_string())).map(|r| r.map(|m| canon(&m))) }
pub fn read_file(p: &Path, n: usize) -> Option<Result<Canon, String>> { sut_np("new_from_path", n, || Metadata::new_from_path(p).map_err(|e| e.to_string())).map(|r| r.map(|m| canon(&m))) }
pub fn thread_dir() -> PathBuf {
    thread_local! { static D: PathBuf = {
        static N: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);
        let p = PathBuf::from(format!("{}/t{}", scratch(), N.fetch_add(1, std::sync::atomic::Ordering::SeqCst)));
        std::fs::create_dir_all(&p).unwrap(); p
    } }
    D.with(|d| d.clone())
}

// ------------------------------------------------------------------------------------------ engine
pub struct Tr<'a> { pub k: K, pub seed: &'a Seed, pub ms: &'a [M], pub pre: &'a Vec<u8>, pub op: Op, pub res: &'a Res, pub post: &'a Vec<u8>, pub first: &'a HashMap<Op, Vec<u8>>, pub depth: usize }
impl Tr<'_> {
    pub fn art(&self) -> Vec<(&'static str, &[u8])> { vec![("seed", &self.seed.b), ("before", self.pre), ("after", self.post)] }
    pub fn key(&self, what: &str) -> String { format!("{}:{}:{}", self.k.name(), match self.op { Op::W(_) => "write", Op::Clear => "clear", Op::A12 => "app12", Op::A13 => "app13" }, what) }
    pub fn v(&self, what: &str, msg: &str) { viol(&self.key(what), msg, &self.art()) }
    pub fn img(&self, b: &[u8], what: &str) -> Option<Img> { match parse(self.k, b) { Ok(i) => Some(i), Err(e) => { self.v(&format!("{} invalid:{}", what, class(&e)), &e); None } } }
}
fn opname(op: Op, ms: &[M]) -> String { match op { Op::W(i) => format!("write {}", ms[i].name), Op::Clear => "clear".into(), Op::A12 => "app12".into(), Op::A13 => "app13".into() } }
/// Breadth-first exploration to closure (or to `depth`) of the states reachable from each seed; `mon` sees every transition.
/// far more than any seed needs
const MAXSTATES: usize = 300;
pub fn explore(seeds: &[Seed], ms: &[M], ops: &[Op], depth: usize, mon: &(dyn Fn(&Tr) + Sync)) {
    par(seeds, |_, s| explore_one(s, ms, ops, depth, mon));
}
pub fn explore_one(s: &Seed, ms: &[M], ops: &[Op], depth: usize, mon: &(dyn Fn(&Tr) + Sync)) {
    if let Some(o) = &run().only { if !o.starts_with(&s.name) { return; } }
    set_case(&s.name);
    if let Err(e) = parse(s.k, &s.b) { eprintln!("engine error: seed {} is not valid: {}", s.name, e); std::process::exit(3); }
    let own; let ms = match &s.lm { Some(lm) => { own = tiff_metas(lm); &own[..] } None => ms };
    let ops: Vec<Op> = ops.iter().copied().filter(|o| match o { Op::W(i) => *i < ms.len(), _ => true }).collect();
    let mut first: HashMap<Op, Vec<u8>> = HashMap::new();
    let mut seen = std::collections::HashSet::new();
    seen.insert(h128(&s.b)); state(&s.b);
    let mut frontier: Vec<(Vec<u8>, String)> = vec![(s.b.clone(), s.name.clone())];
    let mut d = 0;
    let (v0, mut bytes) = (viols_here(), 0usize);
    'all: while !frontier.is_empty() && d < depth {
        let mut next = vec![];
        for (pre, path) in &frontier { for op in &ops {
            if viols_here() > v0 + 100 { break 'all; }
            let case = format!("{} > {}", path, opname(*op, ms));
            let chk = want(&case);
            let mut post = pre.clone();
            let Some(res) = vec_op(s.k, &mut post, *op, ms) else { continue };
            trace();
            if d == 0 && res.is_ok() { first.insert(*op, post.clone()); }
            if chk { mon(&Tr { k: s.k, seed: s, ms, pre, op: *op, res: &res, post: &post, first: &first, depth: d }); }
            if res.is_ok() { state(&post); if seen.insert(h128(&post)) {
                bytes += post.len();
                if seen.len() > 20 + MAXSTATES || bytes > 1 << 28 { set_case(&s.name); viol(&format!("{}:growth", s.k.name()), &format!("more than {} images are reachable from one", seen.len()), &[("seed", &s.b)]); break 'all; }
                next.push((post, case));
            } }
        } }
        frontier = next; d += 1;
    }
    if !frontier.is_empty() && depth > 6 { set_case(&s.name); viol(&format!("{}:growth", s.k.name()), &format!("the set of reachable images does not close within {} steps", depth), &[("seed", &s.b)]); }

    sample(|| format!("{} : {} states, depth {}", s.name, seen.len(), d));
}
/// checks of a single kind of container can afford more seeds
pub fn slevel(k: K) -> usize { match k { K::Png | K::Heif | K::Tiff => level(), _ => level() + 1 } }
pub fn level() -> usize { if thorough() { 2 } else { 1 } }
pub fn wops(n: usize) -> Vec<Op> { let mut v: Vec<Op> = (0..n).map(Op::W).collect(); v.push(Op::Clear); v }
fn naked(b: &[u8]) -> bool { b.starts_with(&[0xff, 0x0a]) }

/// must this operation succeed on this valid image?
fn must_succeed(t: &Tr) -> bool {
    match (t.k, t.op) {
        (K::Jpg, Op::W(i)) => t.ms[i].blk.len() + 8 <= 65535,
        (K::Jxl, Op::Clear) => !naked(t.pre),
        (K::Tiff, Op::W(i)) => !t.ms[i].name.starts_with("lacks"),
        (K::Jpg, _) => true,
        (_, Op::A12 | Op::A13) => false,
        _ => true,
    }
}
/// EXIF stored in a way the crate may reject, as long as it says so and does nothing
pub fn unsupported(s: &Seed) -> bool { s.name.contains("uns:") }
/// HEIF images may hold one Exif item for each of several images
fn several(s: &Seed) -> bool { s.k == K::Heif && parse(K::Heif, &s.b).map(|i| i.blocks.len() > 1).unwrap_or(false) }
fn outcome_check(t: &Tr) {
    if unsupported(t.seed) { return; }
    match (must_succeed(t), t.res) {
        (true, Err(e)) => t.v(&format!("fails:{}", class(e)), &format!("the operation fails on a valid image: {}", e)),
        (false, Ok(())) => t.v("accepted", "the operation succeeds although the container cannot hold the result"),
        _ => (),
    }
}
/// reads the carrier block strictly and compares it with the metadata written
fn block_check(t: &Tr, b: &[u8], lm: &LMeta) {
    let r = if lm.ifds.is_empty() || b.len() <= 9 { return } else { tiffref::parse(b) };
    match r {
        Err(e) => t.v(&format!("block:{}", class(&e)), &e),
        Ok(r) => { let mut w = lm.clone(); for d in w.ifds.values_mut() { d.tags.retain(|x| x.known().map(|k| k.4).unwrap_or(true)); } if let Err(e) = tiffref::same_logical(&w, &r.logical()) { t.v("block content", &e) } }
    }
}
/// blocks of many megabytes, around every length at which a size field of the containers gets another digit or byte
fn c03_large() {
    let mut jobs = vec![];
    for k in KINDS { if k == K::Tiff || !kinds().contains(&k) { continue; } for n in [70_000usize, 999_992, 999_993, 9_999_992, 9_999_993, 16_777_170, 16_777_300, 99_999_992, 99_999_993, 110_000_000] {
        if n > 20_000_000 && !thorough() && !(k == K::Png && n == 99_999_993) { continue; }
        jobs.push((k, n));
    } }
    jobs.sort_by_key(|x| std::cmp::Reverse(x.1));
    par(&jobs, |_, (k, n)| {
        let (name, b) = bases(*k).into_iter().next().unwrap();
        let case = format!("{} > write block of {} bytes", name, n);
        if !want(&case) { return; }
        let with = |l: usize| LMeta::new(false).with(0, LTag::s(0x10f, 0, "NEWMETA-0")).thumb(0, vec![0; l]);
        let over = with(1000).meta().encode().map(|e| e.len() - 1000).unwrap_or(0);
        let lm = with(n - over);
        let m = lm.meta();
        let mut post = b.clone();
        let Some(r) = sut_np("write_to_vec", *n, || es(m.write_to_vec(&mut post, k.ext()))) else { return };
        trace(); eval(); state_h(h128(case.as_bytes()));
        let art: &[(&str, &[u8])] = &[("before", &b)];
        match r {
            Err(e) => { if *k != K::Jpg { viol(&format!("{}:large:fails:{}", k.name(), class(&e)), &e, art) } if post != b { viol(&format!("{}:large:changed", k.name()), "the failing write changed the image", art) } }
            Ok(()) => { if *k == K::Jpg { viol("jpg:large:accepted", "a block larger than a segment was accepted", art); return; } match sut_np("read", post.len().max(*n), || Metadata::new_from_vec(&post, k.ext())) { None => (), Some(Err(e)) => viol(&format!("{}:large:unreadable", k.name()), &e.to_string(), art), Some(Ok(g)) => if canon(&g) != lm.canon_written() { viol(&format!("{}:large:differs", k.name()), "what was written is not what is read", art) } } }
        }
    });
}
fn c03() {
    c03_large();
    for k in kinds() {
        explore_all(k, level(), &ops_for(k, level()), 8, &|t| {
            if !matches!(t.op, Op::W(_)) { return; }
            outcome_check(t);
            let (Op::W(i), Ok(())) = (t.op, t.res) else { return };
            let m = &t.ms[i];
            match read_vec(t.k, t.post) {
                None => (),
                Some(Err(e)) => t.v(&format!("unreadable:{}", class(&e)), &format!("what was written cannot be read: {}", e)),
                Some(Ok(c)) => { let w = m.lm.canon_written(); if c != w { t.v("read back", &diff(&w, &c)) } }
            }
            if let Some(img) = t.img(t.post, "result") {
                if img.blocks.len() != 1 && !(several(t.seed) && img.blocks.len() > 1) { t.v("carriers", &format!("{} EXIF carriers after a write", img.blocks.len())) } else { block_check(t, &img.blocks[0], &m.lm) }
            }
        });
    }
}
/// shared monitor of the preservation properties
fn preserve(t: &Tr) {
    if t.res.is_err() { return; }
    let (Ok(a), Some(b)) = (parse(t.k, t.pre), t.img(t.post, "result")) else { return };
    let mut want = a.items.clone();
    if t.k == K::Jxl && naked(t.pre) {
        let s = b.items.iter().position(|i| i.0.starts_with("jxlc"));
        want = vec![("JXL ".into(), JXL_SIG.to_vec()), ("ftyp".into(), jxl_ftyp()), ("jxlc".into(), bx(b"jxlc", t.pre))];
        if b.items.len() == 3 && s == Some(2) { if b.items[2].1.ends_with(t.pre) && boxes(&b.items[2].1, 0).is_ok() { want[2] = b.items[2].clone(); } }
    }
    if let Some(d) = item_diff(&want, &b.items) { t.v(&format!("content:{}", class(&d.split('[').next().unwrap_or(""))), &d); }
    match (t.k, t.op) {
        (K::Jpg, Op::W(_)) => if b.at != [0] { t.v("position", &format!("the EXIF segment is not (only) directly behind the start marker: {:?}", b.at)) },
        (K::Webp, _) => {
            for f in &b.flaws { if !a.flaws.contains(f) || f.starts_with("VP8X EXIF flag") { t.v(&format!("flaw:{}", class(f)), f) } }
            if let Some(x) = a.plumb.first() { if b.plumb.first() != Some(x) { t.v("VP8X", &format!("VP8X was {} and is {:?}", short(&x.1), b.plumb.first().map(|y| short(&y.1)))) } }
        }
        (K::Heif, Op::W(_)) => {
            if a.blocks.len() > 1 && a.blocks[1..] != b.blocks[1.min(b.blocks.len())..] { t.v("other Exif", "the EXIF data of another image changed") }
            let prim = b.plumb.iter().find(|p| p.0 == "primary").map(|p| p.1.clone()).unwrap_or(b.plumb.iter().find(|p| p.0 == "first item").map(|p| p.1.clone()).unwrap_or_default());
            if a.blocks.is_empty() && !a.plumb.iter().any(|p| p.0 == "ref cdsc from Exif") && !b.plumb.iter().any(|p| p.0 == "ref cdsc from Exif" && p.1 == prim) { t.v("reference", "the new Exif item is not linked to the primary item") }
            for p in &a.plumb { if !b.plumb.contains(p) { t.v("reference", &format!("lost {:?}", p)) } }
        }
        _ => (),
    }
}
fn run_preserve(k: K) {
    let mut ops = ops_for(k, 2);
    if k == K::Jpg { ops.retain(|o| *o != Op::W(4)); }
    explore_all(k, slevel(k), &ops, 8, &preserve);
}
fn c04() { run_preserve(K::Jpg) }
fn c05() { run_preserve(K::Png) }
fn c06() { run_preserve(K::Webp) }
fn c07() { run_preserve(K::Jxl) }
fn c08() { run_preserve(K::Heif) }

fn c10() {
    for k in kinds() {
        explore_all(k, level(), &ops_for(if k == K::Jpg { K::Heif } else { k }, 1), 8, &|t| {
            if t.op != Op::Clear { return; }
            outcome_check(t);
            if t.res.is_err() { return; }
            let Some(b) = t.img(t.post, "result") else { return };
            let kept: Vec<u16> = match t.k { K::Heif => vec![0x112, 0x11a, 0x11b, 0x128], K::Tiff => crate::c_meta::KEEP.to_vec(), _ => vec![] };
            if !kept.is_empty() {
                for blk in &b.blocks { if blk.len() > 9 { match tiffref::parse(blk) {
                    Err(e) => t.v(&format!("block:{}", class(&e)), &e),
                    Ok(r) => for (k, d) in &r.ifds { for x in &d.tags { if k.1 != 0 || !kept.contains(&x.num) { t.v("tags left", &format!("tag {:04x} of directory {:?} is still there", x.num, k)) } } },
                } } }
            } else if !b.blocks.is_empty() { t.v("carrier left", &format!("{} EXIF carriers left", b.blocks.len())) }
            for f in &b.flaws { if f.contains("EXIF flag") || f.contains("EXIF chunk") || t.k == K::Tiff { t.v(&format!("flaw:{}", class(f)), f) } }
            // payload bytes of whatever was in an EXIF carrier before (trailing data of the image is not EXIF)
            if let Ok(a) = parse(t.k, t.pre) {
                for mark in [OLD.as_bytes(), b"NEWMETA-"] {
                    let has = |i: &Img| i.items.iter().any(|x| find(&x.1, mark).is_some());
                    if find(t.post, mark).is_some() && !has(&a) { t.v("payload left", &format!("{:?} is still in the file", String::from_utf8_lossy(mark))) }
                }
                // what stays is what the directory of the image had
                if t.k == K::Heif && a.blocks.len() == b.blocks.len() {
                    let main = |blk: &Vec<u8>| tiffref::parse(blk).ok().map(|r| r.logical()).map(|l| l.ifds.get(&(0, 0)).map(|d| d.tags.iter().filter(|x| kept.contains(&x.num)).map(|x| format!("{:?}", x)).collect::<Vec<_>>()).unwrap_or_default());
                    for (x, y) in a.blocks.iter().zip(&b.blocks) { if let (Some(x), Some(y)) = (main(x), main(y)) { if x != y { t.v("kept", &format!("of {:?} was kept {:?}", x, y)) } } }
                }
                let exif_free = a.blocks.is_empty() && !png_xmp_exif(t.k, t.pre) && a.flaws.is_empty();
                if exif_free && t.pre != t.post { t.v("changed", "clearing an image without EXIF changes it") }
            }
            if png_xmp_exif(t.k, t.post) { t.v("XMP", "EXIF left in XMP") }
            match read_vec(t.k, t.post) { Some(Ok(c)) => { let rest: Vec<&(u16, String)> = c.ifds.values().flatten().filter(|x| !kept.contains(&x.0)).collect(); if !rest.is_empty() { t.v("read", &format!("tags are read after clearing: {:?}", rest)) } } _ => () }
            let mut again = t.post.clone();
            if let Some(r) = vec_op(t.k, &mut again, Op::Clear, t.ms) { if r.is_err() || &again != t.post { t.v("not idempotent", &format!("clearing again: {:?}, {} -> {} bytes", r, t.post.len(), again.len())) } }
            if let Some(f) = t.first.get(&Op::Clear) { if t.k != K::Tiff { if let (Ok(x), Ok(y)) = (parse(t.k, f), parse(t.k, t.post)) { if let Some(d) = item_diff(&x.items, &y.items) { t.v("differs from cleared seed", &d) } } } }
        });
    }
}
fn png_xmp_exif(k: K, b: &[u8]) -> bool {
    if k != K::Png { return false; }
    let Ok((cs, _)) = png_chunks(b) else { return false };
    cs.iter().any(|(t, d, _)| matches!(t, b"tEXt" | b"zTXt" | b"iTXt") && d.split(|x| *x == 0).next() == Some(XMPKW) && text_parse(t, d).map(|x| crate::xml::has_exif(&x.text)).unwrap_or(false))
}
fn c11() {
    for k in kinds() {
        let mut ops = ops_for(k, level()); ops.retain(|o| *o != Op::W(5));
        explore_all(k, level(), &ops, 8, &|t| {
            if t.res.is_err() { return; }
            match t.op {
                Op::W(i) => {
                    match t.first.get(&t.op) {
                        Some(f) => if f != t.post && !(several(t.seed) && parse(t.k, f).ok().zip(parse(t.k, t.post).ok()).is_some_and(|(a, b)| a.items == b.items && a.plumb == b.plumb && a.blocks[0] == b.blocks[0])) && !(t.k == K::Heif && f.len() == t.post.len() && parse(t.k, f) == parse(t.k, t.post)) {
                            // a file that was wrapped or extended once keeps that plumbing; everything else must be identical
                            let d = parse(t.k, f).ok().zip(parse(t.k, t.post).ok()).and_then(|(a, b)| item_diff(&a.items, &b.items));
                            t.v("history", &format!("{} bytes after this history, {} bytes when only the last write is applied ({:?})", t.post.len(), f.len(), d))
                        },
                        None => t.v("history outcome", "the write succeeds here but fails on the seed"),
                    }
                    if let Some(img) = t.img(t.post, "result") { if img.blocks.len() != 1 && !(several(t.seed) && img.blocks.len() > 1) { t.v("carriers", &format!("{} EXIF carriers", img.blocks.len())) } }
                    if let Ok(a) = parse(t.k, &t.seed.b) { for (n, mk) in [(9, OLD.to_string()), (0, "NEWMETA-0".into()), (1, "NEWMETA-1".into()), (3, "NEWMETA-3".into()), (4, "NEWMETA-x".into()), (6, "NEWMETA-6".into())] {
                        if t.k == K::Tiff || n == i || n == 9 && several(t.seed) || a.items.iter().any(|x| find(&x.1, mk.as_bytes()).is_some()) { continue; }
                        if find(t.post, mk.as_bytes()).is_some() { t.v("earlier metadata left", &format!("{} is still in the file", mk)) }
                    } }
                    if let Some(Ok(c)) = read_vec(t.k, t.post) { let w = t.ms[i].lm.canon_written(); if c != w { t.v("last write lost", &diff(&w, &c)) } } else { t.v("last write unreadable", "reading fails") }
                }
                Op::Clear => {
                    let Some(f) = t.first.get(&Op::Clear) else { if !(t.k == K::Jxl && naked(&t.seed.b)) { t.v("history outcome", "clearing succeeds here but fails on the seed") } return };
                    if let (Ok(a), Some(b)) = (parse(t.k, f), t.img(t.post, "result")) { if let Some(d) = item_diff(&a.items, &b.items) { t.v("history content", &d) } }
                }
                _ => (),
            }
        });
    }
}
fn dir_state(d: &Path) -> Vec<(String, u64)> { let mut v: Vec<(String, u64)> = std::fs::read_dir(d).unwrap().map(|e| { let e = e.unwrap(); (e.file_name().to_string_lossy().to_string(), e.metadata().unwrap().len()) }).collect(); v.sort(); v }
/// runs `op` through the file interface on a file with content `pre`
pub fn via_file(k: K, pre: &[u8], op: Op, ms: &[M]) -> Option<(Res, Vec<u8>, bool)> {
    let d = thread_dir();
    let by = d.join(format!("bystander.{}", k.suffix()));
    if !by.exists() { for e in std::fs::read_dir(&d).unwrap() { let _ = std::fs::remove_file(e.unwrap().path()); } std::fs::write(&by, b"\xff\xd8keep me").unwrap(); }
    let p = d.join(format!("img.{}", k.suffix()));
    std::fs::write(&p, pre).unwrap();
    let r = file_op(&p, pre.len(), op, ms)?;
    let post = std::fs::read(&p).unwrap_or_default();
    let clean = dir_state(&d) == { let mut v = vec![(format!("bystander.{}", k.suffix()), 9u64), (format!("img.{}", k.suffix()), post.len() as u64)]; v.sort(); v } && std::fs::read(&by).unwrap() == b"\xff\xd8keep me";
    Some((r, post, clean))
}
fn c12() {
    let (ms, l) = (metas(), level());
    c12_paths();
    for k in kinds() {
        let mut ops = ops_for(k, 1); ops.extend([Op::A12, Op::A13]);
        let mut sd = seeds(k, l);
        if !thorough() && sd.len() > 3000 { let n = sd.len(); let s = n.div_ceil(3000); let mut i = 0; sd.retain(|x| { i += 1; i % s == 0 || x.name.len() < 26 }); }
        let mon = |t: &Tr| {
            let Some((r, post, clean)) = via_file(t.k, t.pre, t.op, t.ms) else { return };
            trace();
            if t.k == K::Png {
                // the kind of chunk asked for only matters when exporting
                let x = FileExtension::PNG { as_zTXt_chunk: false }; let mut q = t.pre.clone();
                if let Some(r2) = vec_op_as(x, &mut q, t.op, t.ms) { if r2.is_ok() != t.res.is_ok() || &q != t.post { viol(&t.key("chunk kind"), &format!("without asking for a zTXt chunk: {:?}", r2), &[("before", t.pre), ("after", t.post), ("after, other type", &q)]) } }
                if t.res.is_ok() { let (a, b) = (read_vec(t.k, t.post), sut_np("new_from_vec", post.len(), || Metadata::new_from_vec(t.post, x).map(|m| canon(&m)).map_err(|e| e.to_string()))); if let (Some(a), Some(b)) = (a, b) { if a.is_ok() != b.is_ok() || a.is_ok() && a != b { t.v("read kind", &format!("read as zTXt {:?}, as other {:?}", a.map(|c| c.short()), b.map(|c| c.short()))) } } }
            }
            if r.is_ok() != t.res.is_ok() { t.v(&format!("outcome:{}", class(r.as_ref().err().or(t.res.as_ref().err()).unwrap())), &format!("vector: {:?}, file: {:?}", t.res, r)) }
            if &post != t.post { viol(&t.key("bytes"), &format!("vector result has {} bytes, file {} bytes", t.post.len(), post.len()), &[("before", t.pre), ("vector", t.post), ("file", &post)]) }
            if !clean { t.v("other files", "the directory holds other or changed files") }
            if t.depth == 0 || t.res.is_ok() {
                let p = thread_dir().join(format!("img.{}", t.k.suffix()));
                let (Some(a), Some(b)) = (read_vec(t.k, &post), read_file(&p, post.len())) else { return };
                match (&a, &b) { (Ok(x), Ok(y)) if x == y => (), (Err(_), Err(_)) => (), _ => t.v("read", &format!("vector read {:?}, file read {:?}", a.as_ref().map(|c| c.short()), b.as_ref().map(|c| c.short()))) }
            }
        };
        explore(&sd, &ms, &ops, if k == K::Jpg && !thorough() { 2 } else { 8 }, &mon);
        explore(&huge_seeds(k), &ms, &[Op::W(0), Op::Clear], 1, &mon);
        // damaged images: both interfaces must agree as well
        let small = seeds(k, 0);
        par(&small, |i, s| {
            if !thorough() && i % 5 != 0 { return; }
            let own; let ms2 = match &s.lm { Some(lm) => { own = tiff_metas(lm); &own[..] } None => &ms[..] };
            for cut in cuts(s.b.len(), if thorough() { 400 } else { 60 }) { for op in [Op::W(0), Op::Clear, Op::A12] {
                if !want(&format!("{} cut at {} > {}", s.name, cut, opname(op, ms2))) { continue; }
                let pre = s.b[..cut].to_vec(); let mut post = pre.clone();
                let Some(res) = vec_op(k, &mut post, op, ms2) else { continue };
                mon(&Tr { k, seed: s, ms: ms2, pre: &pre, op, res: &res, post: &post, first: &HashMap::new(), depth: 0 });
            } }
        });
    }
}
/// names, links and access rights: what the file is called and how it is reached makes no difference
fn c12_paths() {
    use std::os::unix::{ffi::OsStrExt, fs::{MetadataExt, PermissionsExt}};
    let ms = metas();
    for k in kinds() { for (n, b) in bases(k) {
        let sf = k.suffix();
        let own; let ms2 = if k == K::Tiff { own = vec![mk("small", tiff_base(&small()))]; &own[..] } else { &ms[..] };
        let mut names: Vec<Vec<u8>> = [format!("plain.{}", sf), format!("a b c.{}", sf.to_uppercase()), format!(".{0}.{0}", sf), format!("two.parts.{}", sf), format!("x.png.{}", sf), format!("ünï.{}", { let mut c = sf.to_string(); c[..1].make_ascii_uppercase(); c }), format!("in.jpg/img.{}", sf), format!("./../{}/img.{}", thread_dir().join("w").file_name().unwrap().to_string_lossy(), sf), format!("-{}", "n".repeat(200)) + "." + sf].iter().map(|s| s.clone().into_bytes()).collect();
        names.push([&b"\xff\xfe."[..], sf.as_bytes()].concat());
        for name in names { for link in [false, true] { for mode in [0o644u32, 0o600, 0o755] { for op in [Op::W(0), Op::Clear, Op::A12, Op::A13] {
            if !want(&format!("{} at {} link={} mode={:o} > {}", n, String::from_utf8_lossy(&name), link, mode, opname(op, ms2))) { continue; }
            let d = thread_dir().join("w"); let _ = std::fs::remove_dir_all(&d); std::fs::create_dir_all(d.join("in.jpg")).unwrap(); std::fs::create_dir_all(d.join("real")).unwrap();
            let p = d.join(std::ffi::OsStr::from_bytes(&name));
            let target = if link { d.join("real").join("data.bin") } else { p.clone() };
            std::fs::write(&target, &b).unwrap(); std::fs::set_permissions(&target, std::fs::Permissions::from_mode(mode)).unwrap();
            if link { std::os::unix::fs::symlink(&target, &p).unwrap(); }
            let list = || -> Vec<(std::path::PathBuf, u32)> { let mut v = vec![]; let mut st = vec![d.clone()]; while let Some(x) = st.pop() { for e in std::fs::read_dir(x).unwrap() { let q = e.unwrap().path(); let m = std::fs::symlink_metadata(&q).unwrap(); if m.is_dir() { st.push(q.clone()) } v.push((q, m.mode())); } } v.sort(); v };
            let before = list();
            let mut w = b.clone();
            let (Some(a), Some(f)) = (vec_op(k, &mut w, op, ms2), file_op(&p, b.len(), op, ms2)) else { continue };
            trace();
            let post = std::fs::read(&target).unwrap_or_default();
            state(&post);
            let art: &[(&str, &[u8])] = &[("before", &b), ("vector", &w), ("file", &post)];
            let key = format!("{}:{}:path", k.name(), opname(op, ms2));
            if a.is_ok() != f.is_ok() { viol(&format!("{} outcome", key), &format!("vector: {:?}, file: {:?}", a, f), art) }
            if w != post { viol(&format!("{} bytes", key), "the file does not hold what the vector holds", art) }
            if before != list() { viol(&format!("{} other files", key), &format!("before {:?} and after {:?}", before, list()), art) }
            if let (Some(x), Some(y)) = (read_vec(k, &w), read_file(&p, post.len())) { if x.is_ok() != y.is_ok() || x.is_ok() && x != y { viol(&format!("{} read", key), &format!("vector read {:?}, file read {:?}", x.map(|c| c.short()), y.map(|c| c.short())), art) } }
        } } } }
    } }
}
pub fn cuts(n: usize, max: usize) -> Vec<usize> { if n <= max { (0..n).collect() } else { let mut v: Vec<usize> = (0..max / 2).collect(); v.extend((0..max / 2).map(|i| max / 2 + (n - max / 2) * i / (max / 2))); v.dedup(); v } }

/// A write of metadata that lacks any of the tags a TIFF must have is rejected, for every subset of these tags
const REQUIRED: [u16; 10] = [0x100, 0x101, 0x103, 0x106, 0x111, 0x116, 0x117, 0x11a, 0x11b, 0x128];
fn required(s: &Seed) {
    use little_exif::ifd::ExifTagGroup::GENERIC;
    let full = thorough() || h128(s.name.as_bytes()) % 40 == 0;
    for mask in 1u32..1 << REQUIRED.len() {
        if !full && mask.count_ones() > 1 { continue; }
        let gone: Vec<u16> = (0..REQUIRED.len()).filter(|i| mask >> i & 1 == 1).map(|i| REQUIRED[i]).collect();
        // the numbers may still be in use in the sub-directories, where they mean nothing
        for elsewhere in [false, true] {
        if elsewhere && gone.iter().any(|t| matches!(t, 0x111 | 0x117)) { continue; }
        if !want(&format!("{} > without {:x?}{}", s.name, gone, if elsewhere { " elsewhere" } else { "" })) { continue; }
        let Some(Ok(mut m)) = sut_np("read", s.b.len(), || Metadata::new_from_vec(&s.b, FileExtension::TIFF)) else { return };
        for i in 0..=m.get_max_generic_ifd_number() { if m.get_ifd(GENERIC, i).is_some() { for t in &gone { m.get_ifd_mut(GENERIC, i).remove_tag(*t); } } }
        if elsewhere { use little_exif::{exif_tag::ExifTag, ifd::ExifTagGroup::{EXIF, GPS}}; for t in &gone { m.set_tag(ExifTag::UnknownINT16U(vec![1], *t, EXIF)); m.set_tag(ExifTag::UnknownINT16U(vec![1], *t, GPS)); } }
        let mut post = s.b.clone();
        let Some(r) = sut_np("write_to_vec", s.b.len(), || es(m.write_to_vec(&mut post, FileExtension::TIFF))) else { continue };
        trace(); eval();
        if r.is_ok() { viol(&format!("tiff:required:{:x?}", gone), "a write that lacks a required tag is accepted", &[("before", &s.b), ("after", &post)]) }
        else if post != s.b { viol("tiff:rejected write changed", "the rejected write changed the image", &[("before", &s.b), ("after", &post)]) }
        }
    }
}
/// TIFFs with image data that metadata does not carry: tiles and directories behind the SubIFDs tag. Whatever an operation
/// does, no image data may get lost: it stays where the new file says it is, or the call fails and the file stays as it was
#[derive(Default)]
struct Pg { strips: Vec<Vec<u8>>, tiles: Vec<Vec<u8>>, subs: Vec<Pg>, exif: bool, tables: u8, jpeg: u8, global: bool }
fn page_put(v: &mut Vec<u8>, p: &Pg, be: bool, next: u32, sub: bool) -> u32 {
    use tiffref::{p16, p32};
    let pad = |v: &mut Vec<u8>| if v.len() % 2 == 1 { v.push(0) };
    let data = |v: &mut Vec<u8>, d: &Vec<Vec<u8>>| -> (Vec<u32>, Vec<u32>) { d.iter().map(|x| { pad(v); let o = v.len() as u32; v.extend(x); (o, x.len() as u32) }).unzip() };
    let (so, sl) = data(v, &p.strips); let (to, tl) = data(v, &p.tiles);
    let subs: Vec<u32> = p.subs.iter().map(|s| page_put(v, s, be, 0, true)).collect();
    let mut e: Vec<(u16, u16, Vec<u32>)> = vec![(0x100, 4, vec![4]), (0x101, 4, vec![4]), (0x103, 3, vec![1]), (0x106, 3, vec![1]), (0x116, 4, vec![4]), (0x11a, 5, vec![72, 1]), (0x11b, 5, vec![72, 1]), (0x128, 3, vec![2])];
    if sub { e.push((0xfe, 4, vec![1])); }
    if !so.is_empty() { e.push((0x111, 4, so)); e.push((0x117, 4, sl)); }
    if !to.is_empty() { e.push((0x142, 4, vec![16])); e.push((0x143, 4, vec![16])); e.push((0x144, 4, to)); e.push((0x145, 4, tl)); }
    if !subs.is_empty() { e.push((0x14a, 4, subs)); }
    // tables of the JPEG compression of TIFF 6.0: for quantization, DC and AC
    for (i, t) in [0x207u16, 0x208, 0x209].iter().enumerate() { if p.tables as usize > i { let (o, _) = data(v, &vec![vec![0x41 + i as u8; 4], vec![0x61 + i as u8; 4]]); e.push((*t, 4, o)); } }
    if p.jpeg > 0 { let (o, l) = data(v, &vec![b"\xff\xd8JPEG\xff\xd9".to_vec()]); e.push((0x201, 4, o)); if p.jpeg > 1 { e.push((0x202, 4, l)); } }
    if p.global { pad(v); let o = v.len() as u32; p16(v, 1, be); p16(v, 0x191, be); p16(v, 4, be); p32(v, 1, be); p32(v, 0x47474747, be); p32(v, 0, be); e.push((0x190, 4, vec![o])); }
    if p.exif { pad(v); let o = v.len() as u32; p16(v, 1, be); p16(v, 0x8827, be); p16(v, 3, be); p32(v, 1, be); p16(v, 100, be); p16(v, 0, be); p32(v, 0, be); e.push((0x8769, 4, vec![o])); }
    e.sort();
    let vals: Vec<Option<u32>> = e.iter().map(|(_, f, x)| (*f == 5 || x.len() > 1).then(|| { pad(v); let o = v.len() as u32; for y in x { p32(v, *y, be); } o })).collect();
    pad(v); let at = v.len() as u32;
    p16(v, e.len() as u16, be);
    for ((n, f, x), o) in e.iter().zip(vals) { p16(v, *n, be); p16(v, *f, be); p32(v, if *f == 5 { 1 } else { x.len() as u32 }, be); match o { Some(o) => p32(v, o, be), None if *f == 3 => { p16(v, x[0] as u16, be); p16(v, 0, be) } None => p32(v, x[0], be) } }
    p32(v, next, be);
    at
}
fn pages_file(pages: &[Pg], be: bool) -> Vec<u8> {
    let mut v = if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() }; v.extend([0; 4]);
    let mut next = 0;
    for p in pages.iter().rev() { next = page_put(&mut v, p, be, next, false); }
    let h = if be { next.to_be_bytes() } else { next.to_le_bytes() }; v[4..8].copy_from_slice(&h);
    v
}
/// all image data of all directories, those behind SubIFDs included, in order
fn pages_data(b: &[u8]) -> Option<Vec<(String, Vec<u8>)>> {
    use tiffref::{g16, g32};
    let be = match b.get(..2)? { b"II" => false, b"MM" => true, _ => return None };
    fn dir(b: &[u8], o: usize, be: bool, name: String, out: &mut Vec<(String, Vec<u8>)>, depth: usize) -> Option<u32> {
        if depth > 4 { return None; }
        let n = g16(b, o, be)? as usize;
        let mut m = std::collections::BTreeMap::new();
        for i in 0..n {
            let e = o + 2 + 12 * i; let (t, f, c) = (g16(b, e, be)?, g16(b, e + 2, be)?, g32(b, e + 4, be)? as usize);
            if !matches!(t, 0x111 | 0x117 | 0x144 | 0x145 | 0x14a | 0x207..=0x209 | 0x201 | 0x202 | 0x190) { continue; }
            let w = match f { 3 => 2, 4 | 13 => 4, _ => return None };
            let at = if w * c > 4 { g32(b, e + 8, be)? as usize } else { e + 8 };
            m.insert(t, (0..c).map(|j| if w == 2 { g16(b, at + 2 * j, be).map(|x| x as u32) } else { g32(b, at + 4 * j, be) }).collect::<Option<Vec<u32>>>()?);
        }
        for (a, l, k) in [(0x111u16, 0x117u16, "strip"), (0x144, 0x145, "tile")] { match (m.get(&a), m.get(&l)) {
            (Some(a), Some(l)) if a.len() == l.len() => for (i, (a, l)) in a.iter().zip(l).enumerate() { out.push((format!("{} {} {}", name, k, i), b.get(*a as usize..(*a as usize).checked_add(*l as usize)?)?.to_vec())); },
            (None, None) => (), _ => return None } }
        for t in [0x207u16, 0x208, 0x209] { for a in m.get(&t).cloned().unwrap_or_default() { out.push((format!("{} table {:x}", name, t), b.get(a as usize..a as usize + 4)?.to_vec())); } }
        if let Some(a) = m.get(&0x201) { let n = m.get(&0x202).map(|n| n[0]).unwrap_or(8) as usize; out.push((format!("{} JPEG", name), b.get(a[0] as usize..a[0] as usize + n)?.to_vec())); }
        if let Some(a) = m.get(&0x190) { let o = a[0] as usize; out.push((format!("{} global parameters", name), [g16(b, o, be)? as u32, g16(b, o + 2, be)? as u32, g32(b, o + 10, be)?].iter().flat_map(|x| x.to_be_bytes()).collect())); }
        for (i, s) in m.get(&0x14a).cloned().unwrap_or_default().iter().enumerate() { dir(b, *s as usize, be, format!("{} sub {}", name, i), out, depth + 1)?; }
        g32(b, o + 2 + 12 * n, be)
    }
    let mut out = vec![]; let mut o = g32(b, 4, be)?; let mut i = 0;
    while o != 0 { o = dir(b, o as usize, be, format!("page {}", i), &mut out, 0)?; i += 1; if i > 20 { return None; } }
    Some(out)
}
fn c09_other_data() {
    let d = |k: u8, n: usize| -> Vec<Vec<u8>> { (0..n).map(|i| vec![k * 16 + i as u8 + 1; 5 + i]).collect() };
    let kinds: Vec<(&str, fn(&dyn Fn(u8, usize) -> Vec<Vec<u8>>, u8) -> Pg)> = vec![
        ("strips", |d, k| Pg { strips: d(k, 2), tiles: vec![], subs: vec![], exif: k == 0, ..Default::default() }),
        ("tile", |d, k| Pg { strips: vec![], tiles: d(k, 1), subs: vec![], exif: true, ..Default::default() }),
        ("tiles", |d, k| Pg { strips: vec![], tiles: d(k, 3), subs: vec![], exif: false, ..Default::default() }),
        ("sub", |d, k| Pg { strips: d(k, 1), tiles: vec![], subs: vec![Pg { strips: d(k + 3, 2), tiles: vec![], subs: vec![], exif: false, ..Default::default() }], exif: true, ..Default::default() }),
        ("subs", |d, k| Pg { strips: d(k, 1), tiles: vec![], subs: vec![Pg { strips: d(k + 3, 1), tiles: vec![], subs: vec![], exif: true, ..Default::default() }, Pg { strips: vec![], tiles: d(k + 5, 2), subs: vec![], exif: false, ..Default::default() }], exif: false, ..Default::default() }),
        ("strips and tiles", |d, k| Pg { strips: d(k, 1), tiles: d(k + 3, 2), subs: vec![], exif: false, ..Default::default() }),
        ("old JPEG tables", |d, k| Pg { strips: d(k, 2), tables: 1 + k % 3, ..Default::default() }),
        ("old JPEG", |d, k| Pg { strips: d(k, 1), jpeg: 2, ..Default::default() }),
        ("global parameters", |d, k| Pg { strips: d(k, 1), global: true, exif: true, ..Default::default() }),
    ];
    let eds = crate::c_meta::edits();
    let mut jobs = vec![];
    for be in [false, true] { for n in 1..=(if thorough() { 3usize } else { 2 }) { for mut x in 0..kinds.len().pow(n as u32) {
        let mut names = vec![]; let mut pages = vec![];
        for i in 0..n { let (nm, f) = &kinds[x % kinds.len()]; x /= kinds.len(); names.push(*nm); pages.push(f(&d, i as u8 * 4)); }
        jobs.push((format!("tiff[{} pages: {}]", if be { "MM" } else { "II" }, names.join(", ")), pages_file(&pages, be), names.iter().all(|n| *n == "strips")));
    } } }
    par(&jobs, |_, (name, b, plain)| {
        let Some(data) = pages_data(b) else { eprintln!("engine error: seed {}", name); std::process::exit(3) };
        for ei in 0..eds.len() + 2 { for file in [false, true] {
            let op = if ei < eds.len() { eds[ei].0.clone() } else { ["clear", "no edit"][ei - eds.len()].to_string() };
            if !want(&format!("{} > {}{}", name, op, if file { " (file)" } else { "" })) { continue; }
            let p = thread_dir().join("img.tif"); std::fs::write(&p, b).unwrap();
            let mut post = b.clone();
            let r = if op == "clear" { if file { sut_np("file_clear_metadata", b.len(), || es(Metadata::file_clear_metadata(&p))) } else { vec_op(K::Tiff, &mut post, Op::Clear, &[]) } } else {
                let m = if file { sut_np("read", b.len(), || Metadata::new_from_path(&p)) } else { sut_np("read", b.len(), || Metadata::new_from_vec(b, FileExtension::TIFF)) };
                let Some(Ok(mut m)) = m else { viol("tiff:unreadable", "a valid TIFF cannot be read", &[("before", b)]); continue };
                if ei < eds.len() { (eds[ei].1)(&mut m); }
                if file { sut_np("write_to_file", b.len(), || es(m.write_to_file(&p))) } else { sut_np("write_to_vec", b.len(), || es(m.write_to_vec(&mut post, FileExtension::TIFF))) }
            };
            if file { post = std::fs::read(&p).unwrap_or_default(); }
            let Some(r) = r else { continue };
            trace(); eval(); state(&post);
            let art: &[(&str, &[u8])] = &[("before", b), ("after", &post)];
            match r {
                Err(e) => { outcome(&format!("other data: {}", class(&e))); if *plain { viol("tiff:fails:plain pages", &e, art) } if &post != b { viol("tiff:other data:changed", "the call fails and changes the image", art) } }
                Ok(()) => if pages_data(&post).as_ref() != Some(&data) { let now = pages_data(&post); viol("tiff:other data:lost", &match now { None => "image data of the result is outside the file".to_string(), Some(n) => format!("image data {:?} is lost or changed", data.iter().find(|x| !n.contains(x)).map(|x| x.0.clone())) }, art) },
            }
        } }
    });
    sample(|| format!("{} TIFFs with tiles and SubIFDs", jobs.len()));
}
fn c09() {
    c09_other_data();
    explore(&huge_seeds(K::Tiff), &[], &[Op::W(0), Op::W(1), Op::Clear], 2, &|t| {
        if let Err(e) = t.res { t.v(&format!("huge:fails:{}", class(e)), e); return; }
        let want = &t.seed.lm.as_ref().unwrap().ifds[&(0, 0)].strips;
        match tiffref::parse(t.post) { Err(e) => t.v(&format!("huge:invalid:{}", class(&e)), &e), Ok(p) => if p.logical().ifds.get(&(0, 0)).map(|d| &d.strips) != Some(want) { t.v("huge:strips", "the strips differ") } }
    });
    let sd = tiff_seeds(level());
    let eds = crate::c_meta::edits();
    let depth = if thorough() { 4 } else { 3 };
    par(&sd, |_, s| {
        if let Some(o) = &run().only { if !o.starts_with(&s.name) { return; } }
        set_case(&s.name);
        let lm0 = s.lm.clone().unwrap();
        if let Err(e) = tiffref::parse(&s.b) { if !s.name.contains("align=false") { eprintln!("engine error: seed {}: {}", s.name, e); std::process::exit(3); } }
        required(s);
        let mut seen = std::collections::HashSet::new();
        let mut fr: Vec<(Vec<u8>, LMeta, String)> = vec![(s.b.clone(), lm0, s.name.clone())];
        for d in 0..depth {
            let mut next = vec![];
            for (pre, lm, path) in &fr {
                for ei in 0..eds.len() + 2 {
                    if d > 1 && !thorough() && ei < eds.len() && ei % 3 != d % 3 { continue; }
                    let name = if ei < eds.len() { eds[ei].0.clone() } else { ["clear", "no edit"][ei - eds.len()].to_string() };
                    let case = format!("{} > {}", path, name);
                    let chk = want(&case);
                    let mut l2 = lm.clone(); let mut post = pre.clone();
                    let art: &[(&str, &[u8])] = &[("before", pre)];
                    let r = if name == "clear" { l2 = reduced(lm); vec_op(K::Tiff, &mut post, Op::Clear, &[]) } else {
                        let Some(m) = sut_np("read", pre.len(), || Metadata::new_from_vec(pre, FileExtension::TIFF)) else { continue };
                        let Ok(mut m) = m else { if chk { viol("tiff:unreadable", &format!("{:?}", m.err()), art) } continue };
                        if ei < eds.len() { (eds[ei].1)(&mut m); (eds[ei].2)(&mut l2); }
                        sut_np("write_to_vec", pre.len(), || es(m.write_to_vec(&mut post, FileExtension::TIFF)))
                    };
                    let Some(r) = r else { continue };
                    trace();
                    if !chk { if r.is_ok() { next.push((post, l2, case)); } continue; }
                    let art: &[(&str, &[u8])] = &[("seed", &s.b), ("before", pre), ("after", &post)];
                    if let Err(e) = &r { viol(&format!("tiff:fails:{}", class(e)), e, art); continue }
                    match tiffref::parse(&post) {
                        Err(e) => viol(&format!("tiff:invalid:{}", class(&e)), &e, art),
                        Ok(t) => {
                            let mut w = l2.clone(); for d in w.ifds.values_mut() { d.tags.retain(|x| x.known().map(|k| k.4).unwrap_or(true)); }
                            if let Err(e) = tiffref::same_logical(&w, &t.logical()) { viol(&format!("tiff:content:{}", class(&e)), &e, art) }
                            // the file ends where the last datum ends (one pad byte for word alignment)
                            if t.end != post.len() && (t.end + 3) / 4 * 4 != post.len() { viol("tiff:end", &format!("last datum ends at {} of {}", t.end, post.len()), art) }
                            let strips = |m: &LMeta| -> Vec<(u32, Option<Vec<Vec<u8>>>)> { m.ifds.iter().filter(|x| x.0.1 == 0).map(|x| (x.0.0, x.1.strips.clone())).collect() };
                            let (now, before) = (strips(&t.logical()), strips(lm)); if before.iter().any(|x| !now.contains(x)) || now.len() < before.len() { viol("tiff:strips", "pages or strips differ", art) }
                        }
                    }
                    state(&post);
                    if seen.insert(h128(&post)) { next.push((post, l2, case)); }
                }
            }
            fr = next;
        }
        sample(|| format!("{} : {} states", s.name, seen.len()));
    });
}
/// metadata whose encoding fails as the entries of one directory do not fit the 16 bit counter
fn unencodable() -> Vec<M> {
    use little_exif::{exif_tag::ExifTag, ifd::{ExifTagGroup, ImageFileDirectory}};
    let full = |g: ExifTagGroup, nr: u32| ImageFileDirectory::new_with_tags((0..=0xffffu32).filter(|n| *n != 0x8769 && *n != 0x8825 && *n != 0xa005).chain([0, 1, 2, 3]).map(|n| ExifTag::UnknownINT8U(vec![1], n as u16, g)).collect(), g, nr);
    [("entries of IFD 0", ExifTagGroup::GENERIC, 0), ("entries of IFD 1", ExifTagGroup::GENERIC, 1), ("entries of EXIF", ExifTagGroup::EXIF, 0), ("entries of GPS", ExifTagGroup::GPS, 0)].into_iter().map(|(name, g, nr)| {
        let lm = if nr == 0 { tiff_base(&small()) } else { tiff_base(&rich()) };
        let mut m = lm.meta(); *m.get_ifd_mut(g, nr) = full(g, nr);
        M { name, lm, m, blk: vec![] }
    }).collect()
}
fn c14() {
    let ms = metas();
    let huge = unencodable();
    let l = level();
    let fails = |k: K, name: &str, pre: &Vec<u8>, op: Op, ms: &[M], file: bool, x: Option<FileExtension>| {
        let case = format!("{} > {}{}", name, opname(op, ms), if file { " (file)" } else { "" });
        if !want(&case) { return; }
        let (r, post) = if file { match via_file(k, pre, op, ms) { Some((r, p, _)) => (r, p), None => return } } else { let mut p = pre.clone(); match vec_op_as(x.unwrap_or(k.ext()), &mut p, op, ms) { Some(r) => (r, p), None => return } };
        eval();
        if let Err(e) = r {
            state_h(h128(e.as_bytes()) ^ h128(pre));
            outcome(&format!("{}: {}", k.name(), class(&e)));
            if &post != pre { viol(&format!("{}:{}:{}:{}", k.name(), if file { "file" } else { "vector" }, opname(op, ms), class(&e)), &format!("the operation fails ({}) and changes the image from {} to {} bytes", e, pre.len(), post.len()), &[("before", pre), ("after", &post)]) }
        }
    };
    for k in kinds() {
        let all = { let mut o = ops_for(k, 2); o.extend([Op::A12, Op::A13]); o };
        // operations that valid images cannot hold or kinds that do not support them
        let sd = seeds(k, l.min(1));
        par(&sd, |_, s| {
            let own; let ms2 = match &s.lm { Some(lm) => { own = tiff_metas(lm); &own[..] } None => &ms[..] };
            for op in &all { for file in [false, true] { if k != K::Jpg || matches!(op, Op::W(4 | 5)) { fails(k, &s.name, &s.b, *op, ms2, file, None); } } }
            // wrong declared type
            for x in KINDS { if x != k { for op in [Op::W(0), Op::Clear, Op::A12] {
                let (n, b) = (format!("{} as {}", s.name, x.name()), &s.b);
                fails(k, &n, b, op, if x == K::Tiff || k != K::Tiff { &ms[..] } else { ms2 }, false, Some(x.ext()));
            } } }
            fails(k, &format!("{} as naked jxl", s.name), &s.b, Op::W(0), ms2, false, Some(FileExtension::NAKED_JXL));
        });
        // metadata that cannot be encoded: more entries than an IFD can hold
        let picks: Vec<&Seed> = sd.iter().step_by((sd.len() / 24).max(1)).chain(sd.iter().rev().take(8)).collect();
        par(&picks, |_, s| for i in 0..huge.len() { for file in [false, true] { fails(k, &s.name, &s.b, Op::W(i), &huge, file, None) } });
        // damaged images
        let base = bases(k);
        let mut jobs: Vec<(String, Vec<u8>, usize)> = vec![];
        for (bi, (n, b)) in base.iter().enumerate() {
            for cut in cuts(b.len(), if thorough() { 2000 } else { 400 }) { jobs.push((format!("{} cut at {}", n, cut), b[..cut].to_vec(), bi)); }
            for (p, v) in subst(b, thorough()) { let mut x = b.clone(); x[p] = v; jobs.push((format!("{} byte {}={:02x}", n, p, v), x, bi)); }
            for (nm, x) in lies(b, thorough()) { jobs.push((format!("{} {}", n, nm), x, bi)); }
            for (nm, x) in restructured(k, b, thorough()) { jobs.push((format!("{} {}", n, nm), x, bi)); }
        }
        par(&jobs, |i, (n, b, _)| {
            let own; let ms2 = if k == K::Tiff { own = vec![mk("small", tiff_base(&small()))]; &own[..] } else { &ms[..] };
            for op in [Op::W(0), Op::Clear, Op::A12] { fails(k, n, b, op, ms2, false, None); if i % 3 == 0 || thorough() { fails(k, n, b, op, ms2, true, None); } }
        });
        sample(|| format!("{}: {} damaged images, e.g. {}", k.name(), jobs.len(), jobs[jobs.len() / 2].0));
    }
}
/// small images of every shape of a kind for byte-level enumeration
pub fn bases(k: K) -> Vec<(String, Vec<u8>)> {
    let m = |x: &[u8]| x.to_vec();
    let mut v: Vec<(String, Vec<u8>)> = vec![];
    match k {
        K::Jpg => {
            let al = jpg_alphabet(); let bo = jpg_bodies();
            v.push(("jpg exif".into(), jpg_join(&[&al[1].1, &al[3].1], &bo[1].1, b"tail")));
            v.push(("jpg prog".into(), jpg_join(&[&al[0].1, &al[6].1, &al[10].1], &bo[5].1, b"")));
        }
        K::Png => {
            let al = png_alphabet(); let g = |n: &str| al.iter().find(|x| x.0 == n).unwrap().1.clone();
            for set in [&["zRaw"][..], &["eXIf", "iXmpE"], &["tRaw", "iRawC"], &["izXmpE", "zDesc"], &["tXmpE", "zXmpE"]] { let c: Vec<Vec<u8>> = set.iter().map(|n| g(n)).collect(); let r: Vec<&[u8]> = c.iter().map(|x| &x[..]).collect(); v.push((format!("png {}", set.join(" ")), png_join(&r, 1, &[], b""))); }
        }
        K::Webp => {
            v.push(("webp simple".into(), webp_join(&[vp8(30, 20, 3)])));
            v.push(("webp lossless".into(), webp_join(&[vp8l(30, 20, true, 3)])));
            v.push(("webp extended".into(), webp_join(&[vp8x(8 | 4, 30, 20), vp8(30, 20, 3), riff(b"EXIF", &old_block(false, 0)), riff(b"XMP ", b"<x/>!")])));
        }
        K::Jxl => {
            let e0 = { let mut d = vec![0u8; 4]; d.extend(old_block(false, 0)); d };
            v.push(("jxl exif".into(), [m(&JXL_SIG), jxl_ftyp(), bx(b"jxll", &[5]), bx(b"Exif", &e0), bx64(b"jxlc", &[0xff, 0x0a, 1, 2, 3])].concat()));
            v.push(("jxl brob".into(), [m(&JXL_SIG), jxl_ftyp(), bx(b"brob", &[b"Exif".to_vec(), brotli_c(&e0)].concat()), bx0(b"jxlc", &[0xff, 0x0a, 1])].concat()));
            v.push(("jxl naked".into(), vec![0xff, 0x0a, 1, 2, 3, 4, 5, 6]));
        }
        K::Heif => {
            for want in ["heif[exif+mime|e1|meta mdat|v1]", "heif[exif|e0|moov mdat meta|v2 88 base8 idx4 iinf1 infe3 iref1 pitm1]", "heif[noexif|-|meta mdat0|v0 pitm- iref-]", "heif[gridexif|e1|split|v1 Lmeta iref-]", "heif[noexif|-|moov mdat meta|v1 o8 l4 base8 idx8 iref1]"] {
                if let Some((n, c)) = crate::heif::cfgs(1).into_iter().find(|x| x.0 == want) { v.push((n, c.build())); } else { eprintln!("engine error: no config {}", want); std::process::exit(3); }
            }
        }
        K::Tiff => {
            let lm = tiff_base(&rich()); v.push(("tiff rich".into(), tiffref::plain(&lm)));
            let mut lm = tiff_base(&LMeta::new(false)); lm.ifd(0, 0).strips = Some(vec![vec![1, 2], vec![3, 4]]); lm.put(1, LTag::s(0x131, 0, "two")); v.push(("tiff two".into(), tiffref::plain(&lm)));
        }
    }
    v
}
/// single-byte substitutions
pub fn subst(b: &[u8], deep: bool) -> Vec<(usize, u8)> {
    let mut v = vec![];
    let lim = if deep { 2500 } else { 700 };
    for p in 0..b.len().min(lim) {
        let x = b[p];
        let mut vals = vec![0, 1, 0xff, 0x7f, 0x80, x ^ 1, x ^ 0x80, x.wrapping_add(1), x.wrapping_sub(1)];
        if deep { vals.extend([2, 3, 4, 7, 8, 0x0c, 0x10, 0x20, 0x2a, 0x40, 0x49, 0x4d, 0xc0, 0xd8, 0xd9, 0xda, 0xe1, 0xfe, x ^ 2, x ^ 4, x ^ 8, x ^ 0x10, x ^ 0x20, x ^ 0x40, x.wrapping_add(2), x.wrapping_sub(2)]); }
        vals.sort(); vals.dedup(); vals.retain(|y| *y != x);
        v.extend(vals.into_iter().map(|y| (p, y)));
    }
    v
}
/// multi-byte lies: extreme 16-, 32- and 64-bit numbers at every offset, insertions and deletions
pub fn lies(b: &[u8], deep: bool) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let lim = if deep { 2500 } else { 1000 };
    for p in 0..b.len().min(lim) {
        for (n, w) in [("ffffffff", &[0xff, 0xff, 0xff, 0xff][..]), ("7fffffff", &[0x7f, 0xff, 0xff, 0xff]), ("00000000", &[0, 0, 0, 0]), ("80000000", &[0x80, 0, 0, 0]), ("00000001", &[0, 0, 0, 1]), ("ffffff7f", &[0xff, 0xff, 0xff, 0x7f]), ("ffff", &[0xff, 0xff]), ("0000", &[0, 0]), ("ff*8", &[0xff; 8]), ("7ff*8", &[0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff]), ("00*8", &[0; 8])] {
            
            if p + w.len() > b.len() { continue; }
            let mut x = b.to_vec(); x[p..p + w.len()].copy_from_slice(w); if x != b { v.push((format!("at {} {}", p, n), x)); }
        }
        let mut x = b.to_vec(); x.remove(p); v.push((format!("without {}", p), x));
        let mut x = b.to_vec(); x.insert(p, 0); v.push((format!("zero before {}", p), x));
        if deep { let mut x = b.to_vec(); let y = x[p]; x.insert(p, y); v.push((format!("twice {}", p), x)); }
    }
    v
}
fn c23() {
    let (ms, l) = (metas(), slevel(K::Jpg));
    let marks: [(Op, &str); 2] = [(Op::A12, "ffec"), (Op::A13, "ffed")];
    let ops = [Op::W(0), Op::Clear, Op::A12, Op::A13];
    explore(&seeds(K::Jpg, l), &ms, &ops, 8, &|t| {
        let Some((_, mk)) = marks.iter().find(|x| x.0 == t.op) else { return };
        outcome_check(t);
        if t.res.is_err() { return; }
        let (Ok(a), Some(b)) = (parse(K::Jpg, t.pre), t.img(t.post, "result")) else { return };
        let want: Vec<(String, Vec<u8>)> = a.items.iter().filter(|i| i.0 != *mk).cloned().collect();
        if let Some(d) = item_diff(&want, &b.items) { t.v("content", &d) }
        if a.blocks != b.blocks { t.v("EXIF", "the EXIF segments changed") }
        let mut again = t.post.clone();
        if let Some(r) = vec_op(K::Jpg, &mut again, t.op, t.ms) { if r.is_err() || &again != t.post { t.v("not idempotent", &format!("{:?}", r)) } }
        if want.len() == a.items.len() && t.pre != t.post { t.v("changed", "nothing to remove but the image changed") }
        if let Some((r, p, _)) = (t.depth <= 1).then(|| via_file(K::Jpg, t.pre, t.op, t.ms)).flatten() { if r.is_err() || &p != t.post { t.v("file", &format!("file interface: {:?}", r)) } }
    });
    for k in kinds() { if k != K::Jpg {
        let sd = seeds(k, 1);
        par(&sd, |_, s| for (op, n) in marks {
            if !want(&format!("{} > clear {}", s.name, n)) { continue; }
            state(&s.b);
            let mut p = s.b.clone();
            if let Some(r) = vec_op(k, &mut p, op, &[]) { trace(); if r.is_ok() || p != s.b { viol(&format!("{}:{}:accepted", k.name(), n), &format!("{:?}, image {}", r, if p == s.b { "unchanged" } else { "changed" }), &[("image", &s.b)]) } }
            if let Some((r, f, _)) = via_file(k, &s.b, op, &[]) { if r.is_ok() || f != s.b { viol(&format!("{}:{}:accepted file", k.name(), n), &format!("{:?}", r), &[("image", &s.b)]) } }
        });
    } }
}
