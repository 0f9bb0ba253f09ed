//! C13: no input makes the library panic, hang or allocate out of proportion. C20: detection.
use crate::c_img::*;
use crate::img::*;
use crate::rt::*;
use crate::spec::*;
use crate::tiffref;
use little_exif::filetype::{get_file_type, FileExtension};
use little_exif::metadata::Metadata;
use std::io::{Read, Seek, SeekFrom};

pub fn defs() -> Vec<Def> {
    vec![
        Def { id: "C13", level: "model_checking", f: c13, rule: "state = malformed input; all truncations, byte substitutions, multi-byte lies, insertions and deletions of small images of every kind and shape, all short token strings behind every signature, all wirings of small directory graphs, all (tag, format, count, offset) entries over the stated value sets, deep and wide series and decompression bombs; every input goes through every operation (and, sampled by stride, the file interface); calls are guarded against panic, abort, hang and allocation",
            assumptions: &["memory budget 128 MiB + 4096 times the input length", "a call that takes 40 s hangs"] },
        Def { id: "C20", level: "model_checking", f: c20, rule: "state = (content, extension, reader behaviour); every signature prefix and every single-byte change of every signature position to all 256 values, all brands, all seeds and reachable images, all content x extension pairs through the path interface, readers that transfer short, are interrupted or fail",
            assumptions: &["2 or 3 bytes starting like a JPEG or a codestream may or may not be detected"] },
    ]
}
fn fresh() -> &'static Vec<(K, Vec<u8>)> {
    static F: std::sync::OnceLock<Vec<(K, Vec<u8>)>> = std::sync::OnceLock::new();
    F.get_or_init(|| KINDS.iter().filter(|k| **k != K::Tiff).map(|k| (*k, bases(*k)[0].1.clone())).collect())
}
const ALLX: [FileExtension; 8] = [FileExtension::JPEG, FileExtension::PNG { as_zTXt_chunk: true }, FileExtension::PNG { as_zTXt_chunk: false }, FileExtension::WEBP, FileExtension::JXL, FileExtension::NAKED_JXL, FileExtension::HEIF, FileExtension::TIFF];
fn reencode(n: usize, m: &Metadata, full: bool) {
    sut_np("get_ifds", n, || { for i in m.get_ifds() { for t in i.get_tags() { let _ = (t.as_u16(), t.format(), t.is_writable(), t.get_group(), format!("{:?}", t).len()); } } });
    sut_np("iterate", n, || { let mut c = 0; for t in m { c += t.as_u16() as u64; } c });
    sut_np("encode", n, || m.encode().is_ok());
    if !full { return; }
    for x in ALLX { sut_np("as_u8_vec", n, || m.as_u8_vec(x).is_ok()); }
    for (k, b) in fresh() { let mut v = b.clone(); sut_np("write what was read", n, || m.write_to_vec(&mut v, k.ext()).is_ok()); }
    sut_np("clone, reduce and write", n, || { let mut c = m.clone(); c.reduce_to_a_minimum(); c.encode().is_ok() });
}
/// runs every operation on one input declared as `x`
fn all_ops(x: FileExtension, b: &Vec<u8>, ms: &[M], full: bool) {
    state(b);
    let n = b.len();
    if let Some(Ok(m)) = sut_np("new_from_vec", n, || Metadata::new_from_vec(b, x).ok()).map(|o| o.ok_or(())) { trace(); reencode(n, &m, full); }
    for op in [Op::W(0), Op::Clear] { let mut v = b.clone(); vec_op_as(x, &mut v, op, ms); }
    if x == FileExtension::JPEG { for op in [Op::A12, Op::A13] { let mut v = b.clone(); vec_op_as(x, &mut v, op, ms); } }
}
fn file_ops(k: K, b: &Vec<u8>, ms: &[M]) {
    let p = thread_dir().join(format!("m.{}", k.suffix()));
    for op in [Op::W(0), Op::Clear, Op::A12] {
        if op == Op::A12 && k != K::Jpg { continue; }
        std::fs::write(&p, b).unwrap();
        file_op(&p, b.len(), op, ms);
    }
    std::fs::write(&p, b).unwrap();
    if let Some(Ok(m)) = sut_np("new_from_path", b.len(), || Metadata::new_from_path(&p).ok()).map(|o| o.ok_or(())) { reencode(b.len(), &m, false); }
}
fn detect(b: &[u8]) -> Option<Option<FileExtension>> { sut_np("auto_detect", b.len(), || FileExtension::auto_detect(&mut std::io::Cursor::new(b))) }

fn ifd_entry(v: &mut Vec<u8>, be: bool, num: u16, f: u16, c: u32, o: u32) { tiffref::p16(v, num, be); tiffref::p16(v, f, be); tiffref::p32(v, c, be); tiffref::p32(v, o, be); }
fn hdr(be: bool, o: u32) -> Vec<u8> { let mut v = if be { b"MM\0*".to_vec() } else { b"II*\0".to_vec() }; tiffref::p32(&mut v, o, be); v }
/// token strings behind a prefix
fn tokens(k: K) -> (Vec<Vec<u8>>, Vec<Vec<u8>>) {
    let u = |x: &[u8]| x.to_vec();
    match k {
        K::Jpg => (vec![u(&[0xff, 0xd8])], vec![u(&[0xff]), u(&[0]), u(&[0xe1]), u(&[0xd9]), u(&[0xda]), u(&[0, 2]), u(&[0, 8]), u(b"Exif\0\0"), u(&[0xec]), u(&[0xff, 0xff]), u(b"II*\0\x08\0\0\0")]),
        K::Png => (vec![u(&PNG_SIG), [u(&PNG_SIG), ihdr()].concat()], vec![u(&[0; 4]), u(&[0xff; 4]), u(&[0x7f, 0xff, 0xff, 0xff]), chunk(b"eXIf", b"II*\0"), chunk(b"zTXt", &[RAW, b"\0"].concat()), chunk(b"tEXt", &[RAW, b"\0\nexif\n"].concat()), chunk(b"iTXt", &[RAW, b"\0\x01\0"].concat()), chunk(b"IEND", b""), u(b"IEND"), chunk(b"tEXt", RAW), chunk(b"zTXt", &[XMPKW, &b"\0\0x"[..]].concat()), chunk(b"iTXt", XMPKW), ihdr(), u(&[0xff, 0xfe, 0x80, 0x81])]),
        K::Webp => (vec![u(b"RIFF\x04\0\0\0WEBP"), u(b"RIFF\xff\xff\xff\xffWEBP"), u(b"RIFF")], vec![u(b"VP8X"), u(b"EXIF"), u(b"VP8 "), u(b"VP8L"), u(&[0; 4]), u(&[1, 0, 0, 0]), u(&[0xff; 4]), u(&[10, 0, 0, 0]), u(&[8, 0, 0, 0, 0x1d, 0, 0, 0x13, 0, 0]), u(&[0x2f]), u(&[0, 0, 0, 0x9d, 1, 0x2a, 5, 0, 5, 0]), u(b"ALPH"), u(b"ANMF")]),
        K::Jxl => (vec![u(&JXL_SIG), [u(&JXL_SIG), jxl_ftyp()].concat(), u(&[0xff, 0x0a])], vec![u(&[0; 4]), u(&[0, 0, 0, 1]), u(&[0, 0, 0, 8]), u(&[0, 0, 0, 12]), u(b"Exif"), u(b"brob"), u(b"jxlc"), u(&[0xff; 4]), u(&[0, 0, 0, 0, 0, 0, 0, 16]), u(&[0x7f, 0xff, 0xff, 0xff]), u(b"II*\0\x08\0\0\0")]),
        K::Heif => {
            let ft = bx(b"ftyp", b"heic\0\0\0\0mif1");
            let f = |t: &[u8; 4], d: &[u8]| full_(t, d);
            (vec![ft.clone(), [ft.clone(), u(&[0, 0, 0, 0]), u(b"meta\0\0\0\0")].concat()], vec![u(&[0; 4]), u(&[0, 0, 0, 1]), u(&[0, 0, 0, 8]), u(&[0, 0, 0, 12]), u(b"meta"), u(b"iinf"), u(b"iloc"), u(b"mdat"), u(&[0xff; 4]), u(b"iref"), bx(b"mdat", b"x"), f(b"iinf", &[0, 1]), f(b"iloc", &[0x44, 0, 0, 1]), f(b"iloc", &[0xff, 0xff, 0xff, 0xff]), f(b"pitm", &[0, 1]), f(b"iinf", &[&[0, 1][..], &full_(b"infe", b"\0\x01\0\0Exif\0")].concat()), u(b"idat")])
        }
        K::Tiff => (vec![u(b"II*\0"), u(b"MM\0*")], vec![u(&[0; 4]), u(&[8, 0, 0, 0]), u(&[0, 0, 0, 8]), u(&[1, 0]), u(&[0, 1]), u(&[0xff; 2]), u(&[0xff; 4]), u(&[0x69, 0x87, 4, 0]), u(&[0x11, 1, 4, 0]), u(&[1, 0, 0, 0]), u(&[2, 1, 3, 0])]),
    }
}
fn full_(t: &[u8; 4], d: &[u8]) -> Vec<u8> { bx(t, &[&[0, 0, 0, 0][..], d].concat()) }
fn series() -> Vec<(String, K, Vec<u8>)> {
    let mut v: Vec<(String, K, Vec<u8>)> = vec![];
    let big = if thorough() { 50_000usize } else { 20_000 };
    for n in [10usize, 1000, big] {
        for be in [false, true] {
            // a chain of n empty directories, a chain of n directories in one EXIF pointer
            let mut b = hdr(be, 8); for i in 0..n { tiffref::p16(&mut b, 0, be); tiffref::p32(&mut b, if i + 1 < n { (8 + 6 * (i + 1)) as u32 } else { 0 }, be); } v.push((format!("chain of {} empty directories", n), K::Tiff, b));
            let mut b = hdr(be, 8); for i in 0..n { tiffref::p16(&mut b, 1, be); let nx = if i + 1 < n { (8 + 18 * (i + 1)) as u32 } else { 0 }; ifd_entry(&mut b, be, 0x8769, 4, 1, nx); tiffref::p32(&mut b, 0, be); } v.push((format!("{} nested EXIF pointers", n), K::Tiff, b));
            let mut b = hdr(be, 8); for i in 0..n { tiffref::p16(&mut b, 1, be); let nx = if i + 1 < n { (8 + 18 * (i + 1)) as u32 } else { 8 }; ifd_entry(&mut b, be, 0x131, 2, 4, 0x41414141); tiffref::p32(&mut b, nx, be); } v.push((format!("cycle of {} directories", n), K::Tiff, b));
            // one directory, many entries that all point at the whole file
            let m = n.min(65535); let mut b = hdr(be, 8); tiffref::p16(&mut b, m as u16, be); let len = (8 + 2 + 12 * m + 4) as u32; for i in 0..m { ifd_entry(&mut b, be, 0xc000 + (i % 0x3000) as u16, 1, if n > 1000 { len / 64 } else { len }, 0); } tiffref::p32(&mut b, 0, be); v.push((format!("{} entries pointing at everything", m), K::Tiff, b));
            let mut b = hdr(be, 8); tiffref::p16(&mut b, 2, be); ifd_entry(&mut b, be, 0x111, 4, n as u32, 38); ifd_entry(&mut b, be, 0x117, 4, n as u32, (38 + 4 * n) as u32); tiffref::p32(&mut b, 0, be);
            for _ in 0..n { tiffref::p32(&mut b, 0, be) } for _ in 0..n { tiffref::p32(&mut b, if n > 1000 { 64 } else { 38 }, be) } v.push((format!("{} strips over the same bytes", n), K::Tiff, b));
        }
        let mut b = vec![0xff, 0xd8]; for _ in 0..n { b.extend(seg(0xe1, b"Exif\0\0")) } b.extend(&jpg_bodies()[0].1); v.push((format!("{} EXIF segments", n), K::Jpg, b));
        let mut b = vec![0xff, 0xd8]; b.extend(vec![0xff; n]); b.extend(&jpg_bodies()[0].1); v.push((format!("{} fill bytes", n), K::Jpg, b));
        let mut b = vec![0xff, 0xd8]; for _ in 0..n { b.extend(seg(0xda, &[1, 1, 0, 0, 63, 0])) } b.extend([0xff, 0xd9]); v.push((format!("{} scans", n), K::Jpg, b));
        let e = chunk(b"eXIf", b"II*\0\x08\0\0\0\0\0\0\0\0\0"); let pre: Vec<&[u8]> = (0..n).map(|_| &e[..]).collect(); v.push((format!("{} eXIf chunks", n), K::Png, png_join(&pre, 1, &[], b"")));
        v.push((format!("XMP attributes {}", n), K::Png, png_join(&[&chunk(b"tEXt", &[XMPKW, b"\0<a ", &(0..n).map(|i| format!("exif:b{}=\"1\" ", i)).collect::<String>().into_bytes(), b"/>"].concat())], 1, &[], b"")));
        let c = riff(b"EXIF", b""); let mut cs = vec![vp8x(8, 30, 20), vp8(30, 20, 3)]; for _ in 0..n { cs.push(c.clone()) } v.push((format!("{} EXIF chunks", n), K::Webp, webp_join(&cs)));
        let mut b = JXL_SIG.to_vec(); b.extend(jxl_ftyp()); for _ in 0..n { b.extend(bx(b"Exif", b"\0\0\0\0")) } v.push((format!("{} Exif boxes", n), K::Jxl, b));
    }
    // nested boxes and elements
    for n in [10usize, 1000, 30_000, 1_000_000] {
        let nest = |open: &str, close: &str| chunk(b"iTXt", &[XMPKW, b"\0\0\0\0\0", open.repeat(n).as_bytes(), close.repeat(n).as_bytes()].concat());
        v.push((format!("XMP nested {} deep", n), K::Png, png_join(&[&nest("<a>", "</a>")], 1, &[], b"")));
        v.push((format!("EXIF in XMP nested {} deep", n), K::Png, png_join(&[&nest("<exif:a>", "</exif:a>")], 1, &[], b"")));
        for t in [b"meta", b"moov", b"iref", b"iinf", b"iprp", b"dinf"] {
            let inner = nested(t, n, if t == b"meta" || t == b"iinf" || t == b"iref" { 4 } else { 0 });
            v.push((format!("{} nested {} deep", String::from_utf8_lossy(t), n), K::Heif, [bx(b"ftyp", b"heic\0\0\0\0mif1"), inner.clone()].concat()));
            v.push((format!("{} nested {} deep in meta", String::from_utf8_lossy(t), n), K::Heif, [bx(b"ftyp", b"heic\0\0\0\0mif1"), full_(b"meta", &inner)].concat()));
        }
        let tr = nested(b"trak", n, 0); v.push((format!("trak nested {} deep", n), K::Heif, { let (_, c) = crate::heif::cfgs(0).remove(0); [bx(b"ftyp", b"heic\0\0\0\0mif1"), bx(b"moov", &tr), c.build()[28..].to_vec()].concat() }));
    }
    // decompression bombs
    let z = deflate(&vec![0u8; 8 << 20], 9);
    for (kw, n) in [(RAW, "raw profile"), (XMPKW, "XMP")] { v.push((format!("zlib bomb in {}", n), K::Png, png_join(&[&chunk(b"zTXt", &[kw, b"\0\0", &z].concat())], 1, &[], b""))); v.push((format!("zlib bomb in {} iTXt", n), K::Png, png_join(&[&chunk(b"iTXt", &[kw, b"\0\x01\0\0\0", &z].concat())], 1, &[], b""))); }
    let bomb = |n: usize| { let mut o = vec![]; let p = brotli::enc::BrotliEncoderParams { quality: 2, lgwin: 22, ..Default::default() }; brotli::BrotliCompress(&mut std::io::repeat(0).take(n as u64), &mut o, &p).unwrap(); o };
    for mb in if thorough() { vec![64usize, 512, 4096] } else { vec![64, 512] } { v.push((format!("brotli bomb of {} MiB", mb), K::Jxl, [JXL_SIG.to_vec(), jxl_ftyp(), bx(b"brob", &[b"Exif".to_vec(), bomb(mb << 20)].concat()), bx(b"jxlc", &[0xff, 0x0a])].concat())); }
    v
}
fn c13() {
    crate::c_indep::logging(true); // messages are formatted: that may fail too
    let deep = thorough();
    let ms = metas();
    let tms = vec![mk_pub("small", tiffref_base())];
    let msf = |x: FileExtension| if x == FileExtension::TIFF { &tms[..] } else { &ms[..] };
    // A: damaged images of every kind
    for k in kinds() {
        let mut jobs: Vec<(String, Vec<u8>)> = vec![];
        for (n, b) in bases(k) {
            for cut in cuts(b.len(), if deep { 4000 } else { 500 }) { jobs.push((format!("{} cut at {}", n, cut), b[..cut].to_vec())); }
            for (p, v) in subst(&b, deep) { let mut x = b.clone(); x[p] = v; jobs.push((format!("{} byte {}={:02x}", n, p, v), x)); }
            jobs.extend(lies(&b, deep).into_iter().map(|(a, x)| (format!("{} {}", n, a), x)));
            jobs.extend(restructured(k, &b, deep).into_iter().map(|(a, x)| (format!("{} {}", n, a), x)));
        }
        note(&format!("damaged {} images", k.name()), jobs.len());
        par(&jobs, |i, (n, b)| {
            if !want(n) { return; }
            detect(b);
            all_ops(k.ext(), b, msf(k.ext()), i % 16 == 0 || deep);
            if i % 7 == 0 || deep { file_ops(k, b, msf(k.ext())); }
        });
        sample(|| format!("{}: {} damaged images, e.g. {}", k.name(), jobs.len(), jobs[jobs.len() / 3].0));
    }
    // PNG chunks: the same inside text and eXIf chunks with a correct CRC; EXIF blocks inside each carrier
    {
        let mut jobs: Vec<(String, K, Vec<u8>)> = vec![];
        let al = png_alphabet();
        for nm in ["zRaw", "tRaw", "iRawC", "eXIf", "iXmpE", "izXmpE", "zXmpE", "tXmpE"] {
            let c = al.iter().find(|x| x.0 == nm).unwrap().1.clone();
            let t: [u8; 4] = c[4..8].try_into().unwrap(); let d = c[8..c.len() - 4].to_vec();
            let mut muts: Vec<(String, Vec<u8>)> = (0..d.len().min(if deep { 3000 } else { 500 })).map(|i| (format!("cut {}", i), d[..i].to_vec())).collect();
            muts.extend(subst(&d, deep).into_iter().map(|(p, v)| { let mut x = d.clone(); x[p] = v; (format!("byte {}={:02x}", p, v), x) }));
            muts.extend(lies(&d, deep).into_iter().step_by(if deep { 1 } else { 4 }));
            for (m, x) in muts { jobs.push((format!("png {} data {}", nm, m), K::Png, png_join(&[&chunk(&t, &x)], 1, &[], b""))); }
        }
        // raw profile text before compression
        let raw = hex_profile("exif", &exif_hdr(&old_block(false, 0)), 36);
        for (p, v) in subst(&raw, deep) { let mut x = raw.clone(); x[p] = v; jobs.push((format!("png profile text byte {}={:02x}", p, v), K::Png, png_join(&[&chunk(b"zTXt", &[RAW, b"\0\0", &deflate(&x, 1)].concat())], 1, &[], b""))); }
        for i in 0..raw.len() { jobs.push((format!("png profile text cut {}", i), K::Png, png_join(&[&chunk(b"tEXt", &[RAW, b"\0", &raw[..i]].concat())], 1, &[], b""))); }
        let blk = tiffref::plain(&rich());
        let mut muts: Vec<(String, Vec<u8>)> = (0..blk.len()).map(|i| (format!("cut {}", i), blk[..i].to_vec())).collect();
        muts.extend(subst(&blk, deep).into_iter().map(|(p, v)| { let mut x = blk.clone(); x[p] = v; (format!("byte {}={:02x}", p, v), x) }));
        muts.extend(lies(&blk, deep).into_iter().step_by(if deep { 1 } else { 5 }));
        for (m, x) in muts {
            let e = exif_hdr(&x);
            if e.len() < 65000 { jobs.push((format!("jpeg block {}", m), K::Jpg, jpg_join(&[&seg(0xe1, &e)], &jpg_bodies()[0].1, b""))); }
            if deep {
                jobs.push((format!("png block {}", m), K::Png, png_join(&[&chunk(b"eXIf", &x)], 1, &[], b"")));
                jobs.push((format!("webp block {}", m), K::Webp, webp_join(&[vp8x(8, 30, 20), vp8(30, 20, 3), riff(b"EXIF", &x)])));
                jobs.push((format!("jxl block {}", m), K::Jxl, [JXL_SIG.to_vec(), jxl_ftyp(), bx(b"Exif", &[vec![0, 0, 0, 6], e.clone()].concat()), bx(b"jxlc", b"x")].concat()));
                jobs.push((format!("jxl brob block {}", m), K::Jxl, [JXL_SIG.to_vec(), jxl_ftyp(), bx(b"brob", &[b"Exif".to_vec(), brotli_c(&[vec![0, 0, 0, 0], x.clone()].concat())].concat()), bx(b"jxlc", b"x")].concat()));
            }
        }
        note("damaged chunks and blocks with correct checksums", jobs.len());
        par(&jobs, |i, (n, k, b)| { if want(n) { all_ops(k.ext(), b, &ms, i % 32 == 0); if i % 29 == 0 { file_ops(*k, b, &ms); } } });
    }
    // B: every image under every declared type
    {
        let mut jobs: Vec<(String, Vec<u8>)> = vec![("empty".into(), vec![])];
        for k in kinds() { jobs.extend(bases(k)); for s in seeds(k, 0).into_iter().take(if deep { 4000 } else { 120 }) { jobs.push((s.name, s.b)); } }
        par(&jobs, |_, (n, b)| for x in ALLX { if want(&format!("{} as {:?}", n, x)) { all_ops(x, b, msf(x), false); } });
    }
    // C: all short byte strings and token strings behind every signature
    for k in kinds() {
        let (pre, tok) = tokens(k);
        let n = if deep { 5 } else { 4 };
        for (pi, p) in pre.iter().enumerate() {
            let first: Vec<usize> = (0..=tok.len()).collect();
            par(&first, |_, f| {
                let rest = if *f == tok.len() { vec![vec![]] } else { seqs(tok.len(), if tok.len() > 12 && k != K::Tiff && !deep { 2 } else { n - 1 }) };
                for s in rest {
                    let mut b = p.clone(); if *f < tok.len() { b.extend(&tok[*f]) } for i in &s { b.extend(&tok[*i]) }
                    let name = if *f == tok.len() { format!("{} prefix {}", k.name(), pi) } else { format!("{} prefix {} tokens {} {:?}", k.name(), pi, f, s) };
                    if want(&name) { all_ops(k.ext(), &b, msf(k.ext()), false); }
                }
            });
        }
    }
    // D: wirings of small directory graphs
    for be in [false, true] {
        let nd = if deep { 3u32 } else { 2 };
        let size = 2 + 12 * 3 + 4;
        let at = |i: u32| 8 + size * i;
        let mut targets: Vec<u32> = vec![0]; targets.extend((0..nd).map(at)); targets.push(at(nd) - 2); if !deep { targets.push(0xffff_fff0); }
        let t = targets.len();
        let per = t.pow(4);
        let outer: Vec<usize> = (0..per).collect();
        par(&outer, |_, a| {
            let step = if nd == 3 { 7 } else { 1 };
            let mut c = a % step;
            let total = if nd == 3 { per * t } else { per };
            while c < total {
                let mut b = hdr(be, 8);
                let codes = [*a, c % per, (c / per) * 211 % per];
                for i in 0..nd as usize {
                    let mut x = codes[i]; let mut g = || { let r = targets[x % t]; x /= t; r };
                    let (e, gp, io, nx) = (g(), g(), g(), g());
                    tiffref::p16(&mut b, 3, be); ifd_entry(&mut b, be, 0x8769, 4, 1, e); ifd_entry(&mut b, be, 0x8825, 4, 1, gp); ifd_entry(&mut b, be, 0xa005, 4, 1, io); tiffref::p32(&mut b, nx, be);
                }
                let name = format!("graph be={} {:?}", be, &codes[..nd as usize]);
                if want(&name) {
                    state(&b);
                    let n = b.len();
                    if let Some(Some(m)) = sut_np("new_from_vec", n, || Metadata::new_from_vec(&b, FileExtension::TIFF).ok()) { trace(); sut_np("encode", n, || m.encode().is_ok()); }
                    let mut v = b.clone(); vec_op(K::Tiff, &mut v, Op::Clear, &tms);
                }
                c += step;
            }
        });
    }
    // E: entries
    {
        let mut nums: Vec<(u16, u8)> = crate::dict::DICT.iter().map(|d| (d.1, d.5)).collect(); nums.extend([(0xfffe, 0), (0xfffe, 1), (0xfffe, 2), (0xfffe, 3), (0x8769, 0), (0x8825, 0), (0xa005, 1), (0x111, 0), (0x117, 0), (0x201, 0), (0x202, 0)]); nums.sort(); nums.dedup();
        let fm: Vec<u16> = (0..15).chain([0xffff, 0x100, 0x0200]).collect();
        let cn: Vec<u32> = vec![0, 1, 2, 3, 4, 5, 8, 9, 0xffff, 0x10000, 0x0fffffff, 0x1fffffff, 0x20000000, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000, 0xffffffff];
        par(&nums, |_, (num, g)| for be in [false, true] { for f in &fm { for c in &cn { for o in [0u32, 8, 60, 100, 0x7fffffff, 0xffffffff] {
            let name = format!("entry {:04x} group {} be={} format {} count {:x} offset {:x}", num, g, be, f, c, o);
            if !want(&name) { continue; }
            let mut b = hdr(be, 8);
            let own = |b: &mut Vec<u8>, next: Option<(u16, u32)>| { // directory with the entry and possibly a pointer
                let extra = if *g == 0 && (*num == 0x111 || *num == 0x201) { Some((*num + if *num == 0x111 { 6 } else { 1 }, 4u16, 1u32, 16u32)) } else if *g == 0 && (*num == 0x117 || *num == 0x202) { Some((*num - if *num == 0x117 { 6 } else { 1 }, 4, 1, 8)) } else { None };
                match next { Some((p, t)) => { tiffref::p16(b, 1, be); ifd_entry(b, be, p, 4, 1, t); tiffref::p32(b, 0, be); }
                    None => { tiffref::p16(b, 1 + extra.is_some() as u16, be); ifd_entry(b, be, *num, *f, *c, o); if let Some(x) = extra { ifd_entry(b, be, x.0, x.1, x.2, x.3); } tiffref::p32(b, 0, be); } }
            };
            match g { 0 => own(&mut b, None), 1 => { own(&mut b, Some((0x8769, 26))); own(&mut b, None) } 3 => { own(&mut b, Some((0x8825, 26))); own(&mut b, None) } _ => { own(&mut b, Some((0x8769, 26))); own(&mut b, Some((0xa005, 44))); own(&mut b, None) } }
            b.extend([0x41; 60]);
            state(&b);
            let n = b.len();
            if let Some(Some(m)) = sut_np("new_from_vec", n, || Metadata::new_from_vec(&b, FileExtension::TIFF).ok()) { trace(); reencode(n, &m, false); if deep { let mut v = b.clone(); sut_np("write back", n, || m.write_to_vec(&mut v, FileExtension::TIFF).is_ok()); } }
            if *c < 10 || deep { let mut v = b.clone(); vec_op(K::Tiff, &mut v, Op::Clear, &tms); }
        } } } });
    }
    // F: deep, wide and compressed
    let sr = series();
    par(&sr, |_, (n, k, b)| { if want(&format!("{} {}", k.name(), n)) { detect(b); all_ops(k.ext(), b, msf(k.ext()), false); file_ops(*k, b, msf(k.ext())); } });
    sample(|| format!("series: {}", sr.iter().map(|s| s.0.clone()).collect::<Vec<_>>().join("; ")));
}

// ------------------------------------------------------------------------------------------ C20
/// a reader over a buffer with a fixed behaviour
struct Rd<'a> { b: &'a [u8], p: u64, step: usize, intr: bool, tick: usize, fail_at: Option<usize>, max: u64 }
impl Read for Rd<'_> {
    fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> {
        self.tick += 1;
        if self.fail_at == Some(self.tick) { return Err(std::io::Error::new(std::io::ErrorKind::Other, "injected")); }
        if self.intr && self.tick % 2 == 1 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let s = (self.p as usize).min(self.b.len()); let n = o.len().min(self.step).min(self.b.len() - s);
        o[..n].copy_from_slice(&self.b[s..s + n]); self.p += n as u64; self.max = self.max.max(self.p); Ok(n)
    }
}
impl Seek for Rd<'_> { fn seek(&mut self, p: SeekFrom) -> std::io::Result<u64> { let n = match p { SeekFrom::Start(x) => x as i64, SeekFrom::Current(d) => self.p as i64 + d, SeekFrom::End(d) => self.b.len() as i64 + d }; if n < 0 { return Err(std::io::ErrorKind::InvalidInput.into()); } self.p = n as u64; Ok(self.p) } }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Ty { Jpg, Png, Webp, Jxl, Naked, Heif, Tiff }
fn ty(x: FileExtension) -> Ty { match x { FileExtension::JPEG => Ty::Jpg, FileExtension::PNG { .. } => Ty::Png, FileExtension::WEBP => Ty::Webp, FileExtension::JXL => Ty::Jxl, FileExtension::NAKED_JXL => Ty::Naked, FileExtension::HEIF => Ty::Heif, FileExtension::TIFF => Ty::Tiff } }
const BRANDS: [&[u8; 4]; 16] = [b"heic", b"heix", b"heim", b"heis", b"hevc", b"hevx", b"hevm", b"hevs", b"mif1", b"mif2", b"msf1", b"heif", b"avif", b"avis", b"avci", b"avcs"];
const NOT_BRANDS: [&[u8; 4]; 12] = [b"isom", b"mp41", b"mp42", b"qt  ", b"jxl ", b"jp2 ", b"M4A ", b"3gp5", b"crx ", b"\0\0\0\0", b"mif\0", b"HEIC"];
/// what detection may answer: the type whose signature the data starts with; the second value says whether it has to
fn allowed(b: &[u8]) -> Option<(Option<Ty>, bool)> {
    let s = |p: &[u8]| b.starts_with(p);
    Some(if s(&PNG_SIG) { (Some(Ty::Png), true) } else if s(b"II*\0") || s(b"MM\0*") { (Some(Ty::Tiff), true) } else if s(b"RIFF") && b.len() >= 12 && &b[8..12] == b"WEBP" { (Some(Ty::Webp), true) }
        else if s(&JXL_SIG) { (Some(Ty::Jxl), true) } else if s(&[0xff, 0xd8]) { (Some(Ty::Jpg), b.len() >= 4) } else if s(&[0xff, 0x0a]) { (Some(Ty::Naked), b.len() >= 4) }
        else if b.len() >= 12 && &b[4..8] == b"ftyp" { let br: &[u8; 4] = b[8..12].try_into().unwrap(); if BRANDS.contains(&br) { (Some(Ty::Heif), true) } else if NOT_BRANDS.contains(&br) { (None, true) } else { return None } }
        else { (None, true) })
}
fn c20() {
    let deep = thorough();
    let judge = |name: &str, b: &[u8]| {
        if !want(name) { return; }
        state(b);
        let Some(r) = detect(b) else { return };
        trace();
        let g = r.map(ty);
        let art: &[(&str, &[u8])] = &[("data", &b[..b.len().min(64)])];
        if let Some((w, must)) = allowed(b) {
            if g.is_some() && g != w { viol(&format!("detects {:?}", g), &format!("detected as {:?}", g), art) }
            if must && g != w { viol(&format!("does not detect {:?}", w), &format!("detected as {:?} instead of {:?}", g, w), art) }
        } else if !matches!(g, None | Some(Ty::Heif)) { viol("brand", &format!("a file type box with an unknown brand is detected as {:?}", g), art) }
        // the same through readers that transfer short or are interrupted; a failing reader never panics and never reads past the data
        for (step, intr) in [(1usize, false), (3, false), (1, true), (5, true)] {
            let mut rd = Rd { b, p: 0, step, intr, tick: 0, fail_at: None, max: 0 };
            if let Some(r2) = sut_np("auto_detect", b.len(), || FileExtension::auto_detect(&mut rd)) { if r2.map(ty) != g { viol("short reads", &format!("detected as {:?} in one piece and as {:?} in pieces of {} (interrupted: {})", g, r2, step, intr), art) } }
        }
        for f in 1..4 { let mut rd = Rd { b, p: 0, step: 4, intr: false, tick: 0, fail_at: Some(f), max: 0 }; if let Some(r2) = sut_np("auto_detect", b.len(), || FileExtension::auto_detect(&mut rd)) { if let (Some(t), Some((w, _))) = (r2.map(ty), allowed(b)) { if Some(t) != w { viol("failing reader", &format!("detected as {:?}", t), art) } } } }
    };
    // signatures: prefixes and single-byte changes
    let mut sigs: Vec<(String, Vec<u8>)> = vec![
        ("png".into(), PNG_SIG.to_vec()), ("tiff II".into(), b"II*\0".to_vec()), ("tiff MM".into(), b"MM\0*".to_vec()), ("webp".into(), b"RIFF\x10\0\0\0WEBP".to_vec()), ("jxl".into(), JXL_SIG.to_vec()), ("naked".into(), vec![0xff, 0x0a]), ("jpeg".into(), vec![0xff, 0xd8]), ("bigtiff".into(), b"II+\0\x08\0\0\0".to_vec()), ("zero".into(), vec![0; 12]), ("wave".into(), b"RIFF\x10\0\0\0WAVE".to_vec()),
    ];
    for b in BRANDS.iter().chain(NOT_BRANDS.iter()) { sigs.push((format!("ftyp {}", String::from_utf8_lossy(*b)), [b"\0\0\0\x18ftyp", &b[..]].concat())); }
    for (n, s) in &sigs {
        let lens: Vec<usize> = (0..=40).collect();
        for fill in [0u8, 0xff, 0x2a, 0x0a] {
            for l in &lens { let mut b = s.clone(); b.resize(*l, fill); judge(&format!("{} length {} fill {:02x}", n, l, fill), &b); }
        }
        let all: Vec<usize> = (0..s.len()).collect();
        par(&all, |_, p| for v in 0..=255u8 {
            for tail in if deep { vec![0usize, 1, 2, 4, 10, 20, 28] } else { vec![2, 20] } { let mut b = s.clone(); b[*p] = v; b.extend(vec![0x55; tail]); judge(&format!("{} byte {}={:02x} tail {}", n, p, v, tail), &b); }
            if deep { for q in p + 1..s.len() { for w in [0u8, 1, 0xff, s[q] ^ 0x20, s[q] ^ 1, s[q].wrapping_add(1)] { let mut b = s.clone(); b[*p] = v; b[q] = w; b.extend([0x55; 20]); judge(&format!("{} bytes {}={:02x} {}={:02x}", n, p, v, q, w), &b); } } }
        });
    }
    // all two- and three-byte starts
    let hi: Vec<u8> = (0..=255).collect();
    par(&hi, |_, a| for b in 0..=255u8 { let x = vec![*a, b]; judge(&format!("bytes {:02x}{:02x}", a, b), &x); let mut y = x.clone(); y.extend([0x2a, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0]); judge(&format!("bytes {:02x}{:02x}2a00", a, b), &y); });
    // every image the library can produce or modify
    let ms = metas();
    for k in kinds() {
        let expect = |b: &[u8]| if k == K::Jxl && b.starts_with(&[0xff, 0x0a]) { Ty::Naked } else { ty(k.ext()) };
        let sd = seeds(k, level());
        let chk = |b: &Vec<u8>, seed: bool| { if let Some(r) = detect(b) { trace(); if b.len() >= 4 && r.map(ty) != Some(expect(b)) { viol(&format!("{}:{}", k.name(), if seed { "seed" } else { "result" }), &format!("detected as {:?}", r), &[("image", &b[..b.len().min(200)])]) } } };
        par(&sd, |_, s| if want(&s.name) { chk(&s.b, true) });
        explore(&sd, &ms, &ops_for(k, 1), if deep { 8 } else { 2 }, &|t| if t.res.is_ok() { chk(t.post, false) });
    }
    // path interface
    let old = old_block(false, 0);
    let contents: Vec<(&str, Option<Ty>, Vec<u8>)> = vec![
        ("jpeg", Some(Ty::Jpg), jpg_join(&[&seg(0xe1, &exif_hdr(&old))], &jpg_bodies()[0].1, b"")), ("png", Some(Ty::Png), png_join(&[&chunk(b"eXIf", &old)], 1, &[], b"")), ("webp", Some(Ty::Webp), webp_join(&[vp8x(8, 30, 20), vp8(30, 20, 3), riff(b"EXIF", &old)])),
        ("jxl", Some(Ty::Jxl), [JXL_SIG.to_vec(), jxl_ftyp(), bx(b"Exif", &[vec![0; 4], old.clone()].concat()), bx(b"jxlc", &[0xff, 0x0a])].concat()), ("naked", Some(Ty::Naked), vec![0xff, 0x0a, 1, 2, 3, 4]), ("heif", Some(Ty::Heif), bases(K::Heif)[0].1.clone()), ("tiff", Some(Ty::Tiff), old.clone()),
        ("text", None, b"just some text, longer than thirty-two bytes".to_vec()), ("empty", None, vec![]), ("two bytes", None, vec![0x12, 0x34]), ("spoilt heif", None, { let mut b = bases(K::Heif)[0].1.clone(); b[8] = b'x'; b }),
    ];
    let exts: Vec<(&str, Option<Ty>)> = vec![("jpg", Some(Ty::Jpg)), ("jpeg", Some(Ty::Jpg)), ("png", Some(Ty::Png)), ("webp", Some(Ty::Webp)), ("jxl", Some(Ty::Jxl)), ("heif", Some(Ty::Heif)), ("heic", Some(Ty::Heif)), ("hif", Some(Ty::Heif)), ("avif", Some(Ty::Heif)), ("tif", Some(Ty::Tiff)), ("tiff", Some(Ty::Tiff)), ("txt", None), ("gif", None), ("jp", None), ("jpgg", None), ("ti ff", None), ("ünï", None)];
    let mut names: Vec<(String, Option<Option<Ty>>)> = vec![("noextension".into(), None), (".jpg".into(), None)];
    for (e, t) in &exts {
        let cap: String = e.chars().enumerate().map(|(i, c)| if i % 2 == 0 { c.to_ascii_uppercase() } else { c }).collect();
        for x in [e.to_string(), e.to_uppercase(), cap] { names.push((format!("a.{}", x), Some(*t))); }
        names.push((format!("b.txt.{}", e), Some(*t)));
    }
    names.push(("c.jpg.".into(), Some(None)));
    use std::os::unix::ffi::OsStringExt;
    let d = thread_dir().join("detect"); std::fs::create_dir_all(&d).unwrap();
    for (n, et) in &names { for (cn, ct, content) in &contents {
        if !want(&format!("path {} content {}", n, cn)) { continue; }
        let p = d.join(n); std::fs::write(&p, content).unwrap(); state_h(h128(n.as_bytes()) ^ h128(content));
        let n_ = content.len();
        // get_file_type and FromStr answer by extension only
        let g = sut_np("get_file_type", n_, || get_file_type(&p));
        let Some(g) = g else { continue };
        trace();
        match (et, &g) {
            (None, Err(_)) => (), (Some(None), Err(e)) => if e.kind() != std::io::ErrorKind::Unsupported { viol("path:kind of unsupported", &format!("{:?}: {}", e.kind(), e), &[]) },
            (Some(Some(t)), Ok(x)) if ty(*x) == *t => (),
            _ => viol("path:get_file_type", &format!("{} is {:?}", n, g), &[]),
        }
        let Some(r) = sut_np("new_from_path", n_, || Metadata::new_from_path(&p)) else { continue };
        let ok = r.is_ok();
        // expected: the type by content, else by extension
        let eff: Result<Ty, ()> = match (et, ct) { (Some(None), _) => Err(()), (_, Some(t)) => Ok(*t), (Some(Some(t)), None) => Ok(*t), (None, None) => Err(()) };
        match eff {
            Err(()) => { match &r { Ok(_) => viol("path:accepted", "a file of unknown type is read", &[]), Err(e) => if *et == Some(None) && e.kind() != std::io::ErrorKind::Unsupported { viol("path:kind of unsupported", &format!("{:?}: {}", e.kind(), e), &[]) } } }
            Ok(t) => {
                let should = match (t, *cn) { (Ty::Naked, _) => false, (Ty::Heif, "spoilt heif") => true, (_, _) => ct.is_some() };
                if ok != should { viol(&format!("path:{}:{:?}", if should { "not read" } else { "read" }, t), &format!("{:?}", r.as_ref().map(|_| ()).map_err(|e| e.to_string())), &[]) }
                if let Ok(m) = &r { let c = canon(m); let w = if *cn == "heif" || *cn == "spoilt heif" { None } else { Some(old_meta(false, 0).canon_written()) }; if let Some(w) = w { if w != c { viol("path:content", &diff(&w, &c), &[]) } } }
            }
        }
        // write and clear use the extension; they never accept an unknown one
        for (opn, r) in [("write_to_file", sut_np("write_to_file", n_, || ms[0].m.write_to_file(&p))), ("file_clear_metadata", sut_np("file_clear_metadata", n_, || Metadata::file_clear_metadata(&p))), ("file_clear_app12_segment", sut_np("file_clear_app12_segment", n_, || Metadata::file_clear_app12_segment(&p)))] {
            let Some(r) = r else { continue };
            if !matches!(et, Some(Some(_))) { match &r { Ok(()) => viol(&format!("path:{} accepted", opn), "unknown extension accepted", &[]), Err(e) => if *et == Some(None) && e.kind() != std::io::ErrorKind::Unsupported { viol(&format!("path:{} kind", opn), &format!("{:?}: {}", e.kind(), e), &[]) } } if &std::fs::read(&p).unwrap() != content { viol("path:changed", "the rejected operation changed the file", &[]) } }
        }
        std::fs::remove_file(&p).unwrap();
        // missing files
        for (opn, r) in [("new_from_path", sut_np("new_from_path", 0, || Metadata::new_from_path(&p).map(|_| ()))), ("get_file_type", sut_np("get_file_type", 0, || get_file_type(&p).map(|_| ()))), ("write_to_file", sut_np("write_to_file", 0, || ms[0].m.write_to_file(&p))), ("file_clear_metadata", sut_np("file_clear_metadata", 0, || Metadata::file_clear_metadata(&p))), ("file_clear_app13_segment", sut_np("file_clear_app13_segment", 0, || Metadata::file_clear_app13_segment(&p)))] {
            match r { Some(Ok(())) => viol(&format!("missing:{}", opn), "a missing file is accepted", &[]), Some(Err(e)) => if opn == "new_from_path" && e.kind() != std::io::ErrorKind::NotFound && !matches!(et, Some(None)) { viol("missing:kind", &format!("{:?}", e.kind()), &[]) }, None => () }
            if p.exists() { viol(&format!("missing:{} creates", opn), "the file was created", &[]); let _ = std::fs::remove_file(&p); }
        }
    } }
    // names that are no UTF-8, directories
    let odd = d.join(std::ffi::OsString::from_vec(b"x.jp\xffg".to_vec()));
    if want("path not UTF-8") { std::fs::write(&odd, &contents[0].2).unwrap(); state(b"utf8"); if let Some(r) = sut_np("get_file_type", 0, || get_file_type(&odd)) { if r.is_ok() { viol("path:not UTF-8", "an extension that is no UTF-8 is accepted", &[]) } } sut_np("new_from_path", 0, || Metadata::new_from_path(&odd).is_ok()); sut_np("write_to_file", 0, || ms[0].m.write_to_file(&odd).is_ok()); let _ = std::fs::remove_file(&odd); }
    if want("path directory") { let p = d.join("dir.jpg"); std::fs::create_dir_all(&p).unwrap(); for r in [sut_np("new_from_path", 0, || Metadata::new_from_path(&p).is_ok()), sut_np("write_to_file", 0, || ms[0].m.write_to_file(&p).is_ok()), sut_np("file_clear_metadata", 0, || Metadata::file_clear_metadata(&p).is_ok())] { if r == Some(true) { viol("path:directory", "a directory is accepted", &[]) } } let _ = std::fs::remove_dir(&p); }
    // FromStr over all names and cases
    use std::str::FromStr;
    for (e, t) in &exts { for mask in 0..1u32 << e.len().min(6) {
        let s: String = e.chars().enumerate().map(|(i, c)| if mask >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect();
        if !want(&format!("from_str {}", s)) { continue; }
        state(s.as_bytes());
        if let Some(r) = sut_np("from_str", s.len(), || FileExtension::from_str(&s)) { trace(); match (&r, t) { (Ok(x), Some(t)) if ty(*x) == *t => (), (Err(e), None) if e.kind() == std::io::ErrorKind::Unsupported => (), _ => viol("from_str", &format!("{:?}", r), &[]) } }
    } }
}
fn tiffref_base() -> LMeta { crate::c_meta::tiff_base(&small()) }
fn mk_pub(name: &'static str, lm: LMeta) -> M { let m = lm.meta(); let blk = m.encode().expect("alphabet"); M { name, lm, m, blk } }
/// boxes in boxes, each with `extra` bytes of its own
fn nested(t: &[u8; 4], n: usize, extra: usize) -> Vec<u8> {
    (0..n).flat_map(|i| [&(((8 + extra) * (n - i)) as u32).to_be_bytes()[..], t, &vec![0; extra]].concat()).collect()
}
