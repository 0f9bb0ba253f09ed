//! Properties of the in-memory metadata object and the EXIF block codec: C01 C02 C15 C16 C17 C18 C19 C25 C26
use crate::dict::DICT;
use crate::rt::*;
use crate::spec::*;
use crate::tiffref::{self, Layout};
use little_exif::endian::Endian;
use little_exif::exif_tag::ExifTag;
use little_exif::exif_tag_format::ExifTagFormat;
use little_exif::filetype::FileExtension;
use little_exif::ifd::ExifTagGroup;
use little_exif::metadata::Metadata;
use std::collections::{BTreeMap, HashMap};
use std::sync::atomic::Ordering::Relaxed;

pub fn defs() -> Vec<Def> {
    vec![
        Def { id: "C01", level: "model_checking", f: c01, rule: "state = distinct encoded block; every metadata object of the enumerated families (all dictionary tags x counts x patterns, unknown tags x 12 formats x groups x counts, all value-length tuples around sub-directory pointers, all directory configurations, strips/thumbnail lengths, big directories) is encoded twice and decoded, in both byte orders",
            assumptions: &["strings do not end in NUL and numeric values of tags with a predefined count are non-empty (nothing else is representable in the block)", "values above 70 kB and chains above 3 directories are not explored"] },
        Def { id: "C02", level: "model_checking", f: c02, rule: "state = distinct encoded block; same families as C01 plus empty values and user-set sub-directory pointers; each block is read by the independent strict parser and compared with the logical metadata",
            assumptions: &["the strict parser in tiffref.rs is the reference for TIFF validity"] },
        Def { id: "C15", level: "model_checking", f: c15, rule: "state = canonical content of a Metadata object; breadth-first exploration of all operation sequences over the alphabet up to the depth bound, every read API compared with a reference map after every transition",
            assumptions: &["tag alphabet of 7 tags in 4 groups with 2 values each, directory numbers 0..2"] },
        Def { id: "C16", level: "model_checking", f: c16, rule: "state = distinct result fraction; all 32-bit float bit patterns (thorough: every one, quick: every exponent with the top 9 and the low 1 mantissa bits), all fractions n/d with small terms, all 16-bit integers and all integers near powers of two, special values",
            assumptions: &["the nearest fraction is computed by an independent continued fraction in 128-bit integers"] },
        Def { id: "C17", level: "model_checking", f: c17, rule: "state = distinct block; for each logical metadata object every region order (all permutations), gap, alignment, sharing, prefix, byte order and integer-format substitution is decoded and compared",
            assumptions: &["blocks built by the independent builder in tiffref.rs are conforming"] },
        Def { id: "C18", level: "model_checking", f: c18, rule: "state = distinct metadata content; every subset of directories with all dictionary tags set, reduced once and twice, plus clear of enumerated TIFF files",
            assumptions: &["list of structural tags as documented in the code and the README"] },
        Def { id: "C19", level: "model_checking", f: c19, rule: "state = distinct metadata content reached; breadth-first read-modify-write cycles over an edit alphabet from enumerated start blocks",
            assumptions: &["edits of one tag at a time"] },
        Def { id: "C25", level: "model_checking", f: c25, rule: "state = distinct (type, value bytes); all values of 8- and 16-bit types, all one- and two-byte patterns at every byte position of wider types, all list lengths up to 6, every wrong length up to 40",
            assumptions: &[] },
        Def { id: "C26", level: "model_checking", f: c26, rule: "state = (tag number, group, format); all 65536 numbers x 4 groups x 12 formats x counts 1..3",
            assumptions: &["the table in dict.rs is the EXIF 2.32 / TIFF 6.0 tag table"] },
    ]
}

type Sink<'a> = &'a (dyn Fn(&str, LMeta) + Sync);
type Job = Box<dyn Fn(Sink) + Sync + Send>;

// ------------------------------------------------------------------------------------------ families
fn pattern(p: usize, n: usize) -> Vec<u8> {
    match p { 0 => (0..n).map(|i| (i as u8).wrapping_mul(37).wrapping_add(1)).collect(), 1 => vec![0xff; n], 2 => vec![0; n], 3 => (0..n).map(|i| if i % 4 == 3 { 0x80 } else { 0 }).collect(), _ => (0..n).map(|i| 0x41 + (i % 26) as u8).collect() }
}
fn text(p: usize, n: usize) -> Vec<u8> {
    match p {
        0 => (0..n).map(|i| 0x41 + (i % 26) as u8).collect(),
        1 => { let s: String = "äß€𝄞".chars().cycle().take(n).collect(); s.into_bytes() }
        _ => { let mut v: Vec<u8> = (0..n).map(|i| if i % 3 == 1 { 0 } else { 0x61 + (i % 26) as u8 }).collect(); if let Some(l) = v.last_mut() { if *l == 0 { *l = b'z' } } v }
    }
}
pub fn is_ptr(num: u16, g: u8) -> bool { matches!((num, g), (0x8769, 0) | (0x8825, 0) | (0xa005, 1)) }
const COUNTS: [u32; 11] = [1, 2, 3, 4, 5, 6, 7, 8, 9, 13, 257];

fn families() -> Vec<Job> {
    let mut jobs: Vec<Job> = vec![];
    // (a) every dictionary tag
    for (di, d) in DICT.iter().enumerate() {
        if is_ptr(d.1, d.5) { continue; }
        jobs.push(Box::new(move |out| {
            let d = &DICT[di];
            for be in [false, true] { for nr in [0u32, 1] { for p in 0..3 {
                let mut cs: Vec<u32> = COUNTS.to_vec();
                if d.3 > 0 && !cs.contains(&d.3) { cs.push(d.3) }
                if d.3 == 0 || d.2 == 2 { cs.push(0) }
                cs.extend([16, 31, 32, 33, 255, 256, 1000]); if p == 0 { cs.push(20000) }
                if thorough() { cs.extend(10..64); if p == 0 { cs.extend([32767, 32768, 65535, 65536, 70000]) } }
                for c in cs {
                    let le = if d.2 == 2 { text(p, c as usize) } else { pattern(p, c as usize * FSZ[d.2 as usize] as usize) };
                    let mut m = LMeta::new(be);
                    if nr == 1 { m.ifd(0, 0); }
                    m.put(nr, LTag::new(d.1, d.5, d.2, le));
                    out(&format!("tag {} be={} nr={} pat={} count={}", d.0, be, nr, p, c), m);
                }
            } } }
        }));
    }
    // (a') unknown tags
    for g in 0..4u8 { for f in 1..=12u16 {
        jobs.push(Box::new(move |out| for num in [0x0003u16, 0x00fe, 0x4746, 0x8768, 0x876a, 0xc4a5, 0xfde8, 0xffff] {
            if DICT.iter().any(|d| d.1 == num && d.5 == g) { continue; }
            for be in [false, true] { for p in 0..3 { for c in COUNTS.iter().chain([0u32, 10, 11, 12].iter()) {
                let le = if f == 2 { text(p, *c as usize) } else { pattern(p, *c as usize * FSZ[f as usize] as usize) };
                let mut m = LMeta::new(be); m.put(0, LTag::new(num, g, f, le));
                out(&format!("unknown {:04x} {} fmt={} be={} pat={} count={}", num, gname(g), f, be, p, c), m);
            } } }
        }));
    } }
    // (b) value-length tuples around sub-directory pointers
    const LS: [usize; 7] = [0, 1, 3, 4, 5, 6, 8];
    const LD: [usize; 10] = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9];
    for subs in 0..8u8 { for l1 in LS {
        jobs.push(Box::new(move |out| {
            if subs & 4 != 0 && subs & 1 == 0 { return; }
            for be in [false, true] { let ls = if thorough() { &LD[..] } else { &LS[..] }; for &l2 in ls { for &l3 in ls { for l4 in ls {
                let mut m = LMeta::new(be);
                m.put(0, LTag::undef(0x8700, 0, &pattern(0, l1)));
                m.put(0, LTag::undef(0x8800, 0, &pattern(1, l2)));
                m.put(0, LTag::undef(0x9999, 0, &pattern(4, l3)));
                if subs & 1 != 0 { m.put(0, LTag::undef(0xa004 + 0x100, 1, &pattern(0, *l4))); m.put(0, LTag::undef(0x9286, 1, &pattern(4, l2))); }
                if subs & 2 != 0 { m.put(0, LTag::undef(0x001c, 3, &pattern(0, *l4))); }
                if subs & 4 != 0 { m.put(0, LTag::undef(0x0002, 2, &pattern(0, l3))); }
                out(&format!("tuple subs={} be={} L={},{},{},{}", subs, be, l1, l2, l3, l4), m);
            } } } }
        }));
    } }
    // (c) directory configurations
    fn cfg(m: &mut LMeta, nr: u32, sub: usize, pop: usize, st: usize) {
        m.ifd(nr, 0);
        let subs: &[u8] = [&[][..], &[1], &[3], &[1, 3], &[1, 2], &[1, 2, 3]][sub];
        let mut groups = vec![0u8]; groups.extend(subs);
        for g in groups {
            m.ifd(nr, g);
            let (inl, off) = match g { 0 => (LTag::u16s(0x112, 0, &[6]), LTag::s(0x10f, 0, "Manufacturer")), 1 => (LTag::u16s(0x8822, 1, &[2]), LTag::rat(0x829a, 1, &[(1, 250 + nr)])), 2 => (LTag::s(1, 2, "R98"), LTag::undef(0x1000, 2, b"0100-interop")), _ => (LTag::s(1, 3, "N"), LTag::rat(2, 3, &[(1, 1), (2, 1), (nr, 1)])) };
            if pop & 1 != 0 { m.put(nr, inl); }
            if pop & 2 != 0 { m.put(nr, off); }
        }
        match st { 1 => m.ifd(nr, 0).strips = Some(vec![pattern(0, 5), pattern(1, 4)]), 2 => m.ifd(nr, 0).thumb = Some(pattern(4, 7)), 3 => { let d = m.ifd(nr, 0); d.strips = Some(vec![pattern(0, 3)]); d.thumb = Some(pattern(4, 9)); } _ => () }
    }
    for be in [false, true] { for sub0 in 0..6 { for pop0 in 0..4 { for st0 in 0..4 {
        jobs.push(Box::new(move |out| {
            let mut m0 = LMeta::new(be); cfg(&mut m0, 0, sub0, pop0, st0);
            out(&format!("cfg be={} [{}{}{}]", be, sub0, pop0, st0), m0.clone());
            for sub1 in 0..6 { for pop1 in 0..4 { for st1 in 0..4 {
                let mut m1 = m0.clone(); cfg(&mut m1, 1, sub1, pop1, st1);
                out(&format!("cfg be={} [{}{}{}][{}{}{}]", be, sub0, pop0, st0, sub1, pop1, st1), m1.clone());
                let sub2s = if thorough() { 0..6 } else { 0..4 };
                for sub2 in sub2s { for pop2 in 0..4 { for st2 in if thorough() { &[0usize, 1, 2, 3][..] } else { &[0, 3] } { if !thorough() && (sub2 + pop2 + st2 + sub1 + pop1 + sub0) % 2 == 1 { continue; } let mut m2 = m1.clone(); cfg(&mut m2, 2, sub2, pop2, *st2); out(&format!("cfg be={} [{}{}{}][{}{}{}][{}{}{}]", be, sub0, pop0, st0, sub1, pop1, st1, sub2, pop2, st2), m2); } } }
            } } }
        }));
    } } } }
    // (c') long chains of directories
    for be in [false, true] { for n in 3..=if thorough() { 40u32 } else { 14 } { jobs.push(Box::new(move |out| for a in 0..6usize { for p in 0..4usize { for st in 0..4usize { for stride in [1usize, 5] {
        let mut m = LMeta::new(be);
        for nr in 0..n { let i = nr as usize * stride; cfg(&mut m, nr, (a + i) % 6, (p + i / 2) % 4, (st + i / 3) % 4); }
        out(&format!("chain be={} n={} a={} p={} st={} stride={}", be, n, a, p, st, stride), m);
    } } } })); } }
    for be in [false, true] { for sub in [0usize, 5] { jobs.push(Box::new(move |out| for n in (15..=40u32).chain([63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000]).chain(if sub == 0 && thorough() { vec![32767, 32768, 65535, 65536, 65537] } else { vec![] }) {
        let mut m = LMeta::new(be);
        for nr in 0..n { cfg(&mut m, nr, sub, if n < 2000 { 3 } else { 1 }, 0); }
        out(&format!("longchain be={} sub={} n={}", be, sub, n), m);
    })); } }
    for be in [false, true] { jobs.push(Box::new(move |out| for n in [512usize, 1023, 1024, 1025, 4095, 4096, 4097, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 70001] { for l in [0usize, 1] {
        let mut m = LMeta::new(be).with(0, LTag::s(0x131, 0, "around"));
        m.ifd(0, 0).strips = Some((0..n).map(|i| pattern(i % 5, l)).collect());
        out(&format!("manystrips be={} n={} l={}", be, n, l), m);
    } })); }
    // (d') many or large strips, large thumbnails
    for be in [false, true] { jobs.push(Box::new(move |out| for (n, l) in [(4usize, 3usize), (10, 1), (100, 7), (255, 2), (256, 2), (257, 3), (300, 1), (1, 65535), (1, 65536), (2, 65537), (3, 70001), (5, 0)] { for th in [None, Some(0usize), Some(255), Some(65536), Some(70001)] { for nr in [0u32, 1] {
        let mut m = LMeta::new(be).with(0, LTag::s(0x131, 0, "around"));
        m.ifd(nr, 0).strips = Some((0..n).map(|i| pattern(i % 5, l)).collect());
        m.ifd(nr, 0).thumb = th.map(|t| pattern(4, t));
        m.put(0, LTag::undef(0x9286, 1, b"12345"));
        out(&format!("bulk be={} n={} l={} th={:?} nr={}", be, n, l, th, nr), m);
    } } })); }
    // (d) strips and thumbnails
    for be in [false, true] { for n in 0..=3usize {
        jobs.push(Box::new(move |out| {
            let ls = [0usize, 1, 2, 3, 4, 5];
            let tot = 6usize.pow(n as u32);
            for k in 0..tot { for th in 0..7 { for extra in 0..4 {
                let mut m = LMeta::new(be);
                m.ifd(0, 0).strips = Some((0..n).map(|i| pattern(i, ls[(k / 6usize.pow(i as u32)) % 6])).collect());
                if th < 6 { m.ifd(0, 0).thumb = Some(pattern(4, ls[th])); }
                if extra & 1 != 0 { m.put(0, LTag::s(0x10e, 0, "abcde")); m.put(0, LTag::s(0x131, 0, "abcdef")); }
                if extra & 2 != 0 { m.put(0, LTag::undef(0x9286, 1, b"12345")); }
                out(&format!("strips be={} n={} k={} th={} extra={}", be, n, k, th, extra), m);
            } } }
        }));
    } }
    // (e) directory sizes
    for be in [false, true] {
        jobs.push(Box::new(move |out| for n in (0..=64usize).chain([100, 255, 256, 257, 300]) { for l in [2usize, 5, 64] {
            let mut m = LMeta::new(be); m.ifd(0, 0);
            for i in 0..n { m.put(0, LTag::undef(0xb000 + i as u16, (i % 2) as u8, &pattern(i, l))); }
            out(&format!("many be={} n={} l={}", be, n, l), m);
        } }));
        jobs.push(Box::new(move |out| for l in [65530usize, 65535, 65536, 65537, 70000] { for g in [0u8, 1, 3] {
            let m = LMeta::new(be).with(0, LTag::undef(0xc000, g, &pattern(0, l))).with(0, LTag::s(0x131, 0, "after"));
            out(&format!("big be={} l={} g={}", be, l, g), m);
        } }));
    }
    jobs
}

/// encode twice, check determinism and immutability
fn encode_checked(key: &str, lm: &LMeta) -> Option<(Metadata, Vec<u8>)> {
    let m = match sut_np("build metadata", 1000, || lm.meta()) { Some(m) => m, None => return None };
    let c0 = canon(&m);
    if c0 != lm.canon() { viol(&format!("{}:object differs from what was set", key), &diff(&lm.canon(), &c0), &[]); return None; }
    let e = match sut_np("encode", 100000, || m.encode())? { Ok(e) => e, Err(x) => { viol(&format!("{}:encode error", key), &format!("encode failed: {}", x), &[]); return None; } };
    let e2 = sut_np("encode again", 100000, || m.encode())?;
    if e2.as_ref().ok() != Some(&e) { viol(&format!("{}:encode not deterministic", key), "second encode differs", &[("first", &e)]); }
    if canon(&m) != c0 { viol(&format!("{}:encode changed the object", key), &diff(&c0, &canon(&m)), &[]); }
    Some((m, e))
}
fn decode(e: &Vec<u8>) -> Option<Result<Metadata, std::io::Error>> { sut_np("decode", e.len(), || Metadata::new_from_vec(e, FileExtension::TIFF)) }

fn c01() {
    let jobs = families();
    note("jobs", jobs.len());
    par(&jobs, |_, j| j(&|case, lm| {
        if !want(case) { return; }
        let Some((_, e)) = encode_checked("C01", &lm) else { return };
        state(&e);
        trace();
        match decode(&e) {
            None => (),
            Some(Err(x)) => viol("C01:decode error", &format!("the encoded block does not decode: {}", x), &[("block", &e)]),
            Some(Ok(d)) => {
                let (w, g) = (lm.canon_written(), canon(&d));
                if w != g { viol(&format!("C01:roundtrip:{}", case.split(' ').next().unwrap()), &diff(&w, &g), &[("block", &e)]); }
            }
        }
        sample(|| format!("{}: {} -> {} bytes", case, lm.canon().short().chars().take(120).collect::<String>(), e.len()));
    }));
}

fn c02() {
    let jobs = families();
    par(&jobs, |_, j| j(&|case, lm| {
        if !want(case) { return; }
        let Some((_, e)) = encode_checked("C02", &lm) else { return };
        state(&e);
        trace();
        match tiffref::parse(&e) {
            Err(x) => viol(&format!("C02:invalid:{}", class(&x)), &x, &[("block", &e)]),
            Ok(t) => {
                if let Err(x) = tiffref::same_logical(&lm, &t.logical()) { viol("C02:content", &x, &[("block", &e)]); }
            }
        }
        sample(|| format!("{} -> {} bytes, strict parse ok", case, e.len()));
    }));
    // as many entries as an entry count can state, and more: either a valid block or an error
    let full: Vec<(u32, usize, bool)> = (0..2).flat_map(|nr| [0usize, 1, 2, 3, 20].map(|missing| (nr, missing, nr == 0 && missing < 2))).flat_map(|(a, b, _)| [(a, b, false), (a, b, true)]).collect();
    par(&full, |_, (nr, missing, subs)| {
        let case = format!("directory {} with all tag numbers but {} subs={}", nr, missing, subs);
        if !want(&case) { return; }
        let (mut lm, mut n) = (LMeta::new(false), 0usize);
        let mut m = Metadata::new();
        if *nr == 1 { m.create_ifd(ExifTagGroup::GENERIC, 0); lm.ifd(0, 0); }
        if *subs { for (g, t) in [(1u8, LTag::u16s(0x8827, 1, &[100])), (3, LTag::s(1, 3, "N"))] { m.get_ifd_mut(group(g), *nr).set_tag(t.tag()); lm.put(*nr, t); } n += 2; }
        let mut tags = vec![];
        for num in 0..=0xffffu16 {
            if num as usize >= 0x10000 - *missing || matches!(num, 0x111 | 0x117 | 0x201 | 0x202) { continue; }
            let t = match DICT.iter().find(|d| d.1 == num && d.5 == 0) { Some(d) => { if is_ptr(num, 0) || !d.4 { continue; } let c = d.3.max(1); LTag::new(num, 0, d.2, if d.2 == 2 { text(1, c as usize) } else { pattern(1, c as usize * FSZ[d.2 as usize] as usize) }) } None => LTag::undef(num, 0, &[num as u8]) };
            tags.push(t);
        }
        n += tags.len() + 4;
        let d = lm.ifd(*nr, 0); d.tags = tags.clone(); d.strips = Some(vec![vec![1, 2, 3]]); d.thumb = Some(vec![4, 5]);
        let mut ts: Vec<ExifTag> = tags.iter().map(|t| t.tag()).collect();
        ts.extend([ExifTag::StripOffsets(vec![], vec![vec![1, 2, 3]]), ExifTag::StripByteCounts(vec![3]), ExifTag::ThumbnailOffset(vec![], vec![4, 5]), ExifTag::ThumbnailLength(vec![2])]);
        *m.get_ifd_mut(ExifTagGroup::GENERIC, *nr) = little_exif::ifd::ImageFileDirectory::new_with_tags(ts, ExifTagGroup::GENERIC, *nr);
        let Some(r) = sut_np("encode", 40_000_000, || m.encode()) else { return };
        trace(); eval();
        match r {
            Err(e) => if n <= 0xffff { viol("C02:encode error", &format!("{} entries: {}", n, e), &[]) },
            Ok(e) => { state(&e); match tiffref::parse(&e) { Err(x) => viol("C02:invalid:full directory", &format!("{} entries: {}", n, x), &[]), Ok(t) => if let Err(x) = tiffref::same_logical(&lm, &t.logical()) { viol("C02:content:full directory", &format!("{} entries: {}", n, x), &[]) } } }
        }
        outcome(&format!("full directory: {}", if n > 0xffff { "too many entries" } else { "entries fit" }));
    });
    // empty values, strings ending in NUL, user-set sub-directory pointers
    let mut extra: Vec<(String, Vec<ExifTag>)> = vec![];
    for d in DICT.iter() {
        let t = ExifTag::from_u16(d.1, &group(d.5)).expect("known tag");
        extra.push((format!("empty {}", d.0), vec![t.clone()]));
        extra.push((format!("empty {} + Make", d.0), vec![ExifTag::Make("x".into()), t.clone(), ExifTag::Software("longer text".into()), ExifTag::ISO(vec![100]), ExifTag::GPSLatitudeRef("N".into())]));
    }
    for n in 0..6 { extra.push((format!("nul-terminated string {}", n), vec![ExifTag::Make("\0".repeat(n)), ExifTag::Model(format!("a{}", "\0".repeat(n)))])); }
    for k in 0..64u32 {
        let mut v = vec![];
        for (i, val) in [vec![], vec![0u32], vec![8], vec![1000], vec![8, 8], vec![0xffffffff]].iter().enumerate() {
            if i as u32 == k / 8 {
                if k & 1 != 0 { v.push(ExifTag::ExifOffset(val.clone())) }
                if k & 2 != 0 { v.push(ExifTag::GPSInfo(val.clone())) }
                if k & 4 != 0 { v.push(ExifTag::InteropOffset(val.clone())) }
            }
        }
        if v.is_empty() { continue; }
        for with in 0..8u32 {
            let mut w = v.clone();
            if with & 1 != 0 { w.push(ExifTag::ISO(vec![100])) }
            if with & 2 != 0 { w.push(ExifTag::GPSLatitudeRef("N".into())) }
            if with & 4 != 0 { w.push(ExifTag::InteroperabilityIndex("R98".into())) }
            w.push(ExifTag::Make("Maker".into()));
            extra.push((format!("pointer k={} with={}", k, with), w));
        }
    }
    par(&extra, |_, (case, tags)| {
        if !want(case) { return; }
        let mut m = Metadata::new();
        for t in tags { m.set_tag(t.clone()); }
        let Some(r) = sut_np("encode", 1000, || m.encode()) else { return };
        trace();
        match r {
            Err(x) => viol("C02:encode error", &format!("encode failed: {}", x), &[]),
            Ok(e) => {
                state(&e);
                match tiffref::parse(&e) {
                    Err(x) => viol(&format!("C02:invalid:{}", class(&x)), &x, &[("block", &e)]),
                    Ok(t) => for x in tags {
                        // every other tag that was set is in the block
                        if x.is_string() || is_ptr(x.as_u16(), gnum(x.get_group())) || !x.is_writable() { continue; }
                        let has = t.ifds.get(&(0, gnum(x.get_group()))).map(|d| d.tags.iter().any(|r| r.num == x.as_u16())).unwrap_or(false);
                        let isoff = matches!(x.as_u16(), 0x111 | 0x117 | 0x201 | 0x202);
                        if !has && !isoff { viol("C02:content", &format!("tag {:?} is missing from the block", x), &[("block", &e)]); }
                    },
                }
                // a block the library wrote must be readable by it
                if let Some(Err(x)) = decode(&e) { viol("C02:own block unreadable", &x.to_string(), &[("block", &e)]); }
            }
        }
    });
}
/// error class: the message without numbers
pub fn class(x: &str) -> String { let s: Vec<String> = x.split(|c: char| !c.is_alphanumeric()).filter(|w| !w.is_empty() && !w.chars().any(|c| c.is_ascii_digit()) && !w.chars().all(|c| c.is_ascii_hexdigit())).map(|w| w.chars().filter(|c| c.is_ascii()).collect()).take(9).collect(); s.join("_") }

// ------------------------------------------------------------------------------------------ C15
#[derive(Clone, Debug)]
enum Op { Set(usize, usize), Rem(usize), RemHex(u16, u8), Create(u8, u32), IfdSet(u8, u32, usize, usize), IfdRem(u8, u32, u16), Reduce }
fn alpha(i: usize, v: usize) -> ExifTag {
    match i {
        0 => ExifTag::ImageDescription(["a", "bb"][v].into()),
        1 => ExifTag::Copyright(["(c)", ""][v].into()),
        2 => ExifTag::ISO(vec![[100, 200][v]]),
        3 => ExifTag::GPSLatitudeRef(["N", "S"][v].into()),
        4 => ExifTag::InteroperabilityIndex(["R98", "R03"][v].into()),
        5 => if v == 0 { ExifTag::UnknownINT8U(vec![7], 0x010d, ExifTagGroup::GENERIC) } else { ExifTag::UnknownSTRING("seven".into(), 0x010d, ExifTagGroup::GENERIC) },
        6 => ExifTag::UnknownINT16U(vec![[1, 2][v]], 0x010e, ExifTagGroup::EXIF),
        _ => ExifTag::XResolution(vec![little_exif::rational::uR64 { nominator: [72, 300][v], denominator: 1 }]),
    }
}
const NA: usize = 8;
type Ref = BTreeMap<(u32, u8), BTreeMap<u16, String>>;
fn ref_create(r: &mut Ref, g: u8, nr: u32) {
    match g { 1 | 3 => { r.entry((nr, 0)).or_default(); } 2 => { r.entry((nr, 0)).or_default(); r.entry((nr, 1)).or_default(); } _ => () }
    r.entry((nr, g)).or_default();
}
fn c15_apply(m: &mut Metadata, r: &mut Ref, op: &Op) -> Option<String> {
    match op {
        Op::Set(i, v) => { let t = alpha(*i, *v); let g = gnum(t.get_group()); m.set_tag(t.clone()); ref_create(r, g, 0); r.get_mut(&(0, g)).unwrap().insert(t.as_u16(), format!("{:?}", t)); }
        Op::Rem(i) => { let t = alpha(*i, 0); let g = gnum(t.get_group()); let any = r.iter().any(|(k, d)| k.1 == g && d.contains_key(&t.as_u16())); let n = m.remove_tag(t.clone()); for (k, d) in r.iter_mut() { if k.1 == g { d.remove(&t.as_u16()); } } if any && n == 0 { return Some("remove_tag reports 0 although a tag was removed".into()); } let dirs = r.keys().filter(|k| k.1 == g).count(); if n != dirs { return Some(format!("remove_tag reports {} for {} directories of that group", n, dirs)); } }
        Op::RemHex(h, g) => { let any = r.iter().any(|(k, d)| k.1 == *g && d.contains_key(h)); let n = m.remove_tag_by_hex_group(*h, group(*g)); for (k, d) in r.iter_mut() { if k.1 == *g { d.remove(h); } } if any && n == 0 { return Some("remove_tag_by_hex_group reports 0 although a tag was removed".into()); } let dirs = r.keys().filter(|k| k.1 == *g).count(); if n != dirs { return Some(format!("remove_tag_by_hex_group reports {} for {} directories of that group", n, dirs)); } }
        Op::Create(g, nr) => { m.create_ifd(group(*g), *nr); ref_create(r, *g, *nr); }
        Op::IfdSet(g, nr, i, v) => { let t = alpha(*i, *v); m.get_ifd_mut(group(*g), *nr).set_tag(t.clone()); ref_create(r, *g, *nr); r.get_mut(&(*nr, *g)).unwrap().insert(t.as_u16(), format!("{:?}", t)); }
        Op::IfdRem(g, nr, h) => { m.get_ifd_mut(group(*g), *nr).remove_tag(*h); ref_create(r, *g, *nr); r.get_mut(&(*nr, *g)).unwrap().remove(h); }
        Op::Reduce => { m.reduce_to_a_minimum(); r.retain(|k, _| k.1 == 0); for d in r.values_mut() { d.retain(|h, t| kept(*h, 0, !t.starts_with("Unknown"))); } }
    }
    None
}
fn c15_check(m: &Metadata, r: &Ref) -> Option<String> {
    // directory listing: sorted, unique, complete
    let ks: Vec<(u32, u8)> = m.get_ifds().iter().map(|i| (i.get_generic_ifd_nr(), gnum(i.get_ifd_type()))).collect();
    let want: Vec<(u32, u8)> = r.keys().copied().collect();
    if ks != want { return Some(format!("directories {:?}, expected {:?}", ks, want)); }
    let mut flat = vec![];
    for i in m.get_ifds() {
        let k = (i.get_generic_ifd_nr(), gnum(i.get_ifd_type()));
        let got: Vec<(u16, String)> = i.get_tags().iter().map(|t| (t.as_u16(), format!("{:?}", t))).collect();
        let exp: Vec<(u16, String)> = r[&k].iter().map(|(a, b)| (*a, b.clone())).collect();
        if got != exp { return Some(format!("directory {:?} holds {:?}, expected {:?}", k, got, exp)); }
        flat.extend(got.into_iter().map(|x| (k, x.0, x.1)));
        match m.get_ifd(group(k.1), k.0) { Some(x) if std::ptr::eq(x, i) => (), _ => return Some(format!("get_ifd({:?}) does not return the listed directory", k)) }
    }
    for nr in 0..10u32 { for g in 0..4u8 { if m.get_ifd(group(g), nr).is_some() != r.contains_key(&(nr, g)) { return Some(format!("get_ifd({},{}) presence is wrong", gname(g), nr)); } } }
    let it: Vec<(u16, String)> = m.into_iter().map(|t| (t.as_u16(), format!("{:?}", t))).collect();
    if it != flat.iter().map(|x| (x.1, x.2.clone())).collect::<Vec<_>>() { return Some(format!("iteration yields {:?}, expected {:?}", it, flat)); }
    let mg = r.keys().filter(|k| k.1 == 0).map(|k| k.0).max().unwrap_or(0);
    if m.get_max_generic_ifd_number() != mg { return Some(format!("get_max_generic_ifd_number {} expected {}", m.get_max_generic_ifd_number(), mg)); }
    let mut hs: Vec<u16> = (0..NA).map(|i| alpha(i, 0).as_u16()).collect(); hs.push(0xffff); hs.sort(); hs.dedup();
    for h in hs { for g in [None, Some(0u8), Some(1), Some(2), Some(3)] {
        let got: Vec<String> = m.get_tag_by_hex(h, g.map(group)).map(|t| format!("{:?}", t)).collect();
        let exp: Vec<String> = flat.iter().filter(|x| x.1 == h && g.map(|g| x.0 .1 == g).unwrap_or(true)).map(|x| x.2.clone()).collect();
        if got != exp { return Some(format!("get_tag_by_hex({:04x},{:?}) yields {:?}, expected {:?}", h, g.map(gname), got, exp)); }
    } }
    for i in 0..NA { let t = alpha(i, 0); let g = gnum(t.get_group());
        let got: Vec<String> = m.get_tag(&t).map(|t| format!("{:?}", t)).collect();
        let exp: Vec<String> = flat.iter().filter(|x| x.1 == t.as_u16() && x.0 .1 == g).map(|x| x.2.clone()).collect();
        if got != exp { return Some(format!("get_tag({:?}) yields {:?}, expected {:?}", t, got, exp)); } }
    None
}
fn c15() {
    let mut ops = vec![];
    for i in 0..NA { for v in 0..2 { ops.push(Op::Set(i, v)); } ops.push(Op::Rem(i)); }
    for g in 0..4u8 { ops.push(Op::RemHex(1, g)); ops.push(Op::RemHex(0x10e, g)); for nr in [0, 1, 2, 7] { ops.push(Op::Create(g, nr)); } }
    for nr in 0..3u32 { for v in 0..2 { ops.push(Op::IfdSet(0, nr, 0, v)); ops.push(Op::IfdSet(1, nr, 2, v)); } ops.push(Op::IfdSet(2, nr, 4, 0)); ops.push(Op::IfdSet(3, nr, 3, 0)); ops.push(Op::IfdSet(0, nr, 5, 1)); ops.push(Op::IfdSet(0, nr, 7, 1)); ops.push(Op::IfdRem(0, nr, 0x10e)); ops.push(Op::IfdRem(1, nr, 0x8827)); ops.push(Op::IfdRem(3, nr, 1)); }
    ops.push(Op::Reduce);
    let depth = if thorough() { 5 } else { 4 };
    note("alphabet", ops.len()); note("depth", depth);
    let key = |r: &Ref, be: bool| -> u128 { h128(format!("{}{:?}", be, r).as_bytes()) };
    // starts: blank objects, a decoded one with several directories, one with many tags, one with a directory far away
    let dense = |n: u16| { let mut m = LMeta::new(true); for i in 0..n { m.put(0, LTag::u16s(0x7000 + i.wrapping_mul(37) % 1009, 0, &[i])).put(0, LTag::u16s(0xb000 + i, 1, &[i])); } m };
    let decoded = |l: &LMeta| Metadata::new_from_vec(&l.meta().encode().expect("start"), FileExtension::TIFF).expect("start");
    let mut starts: Vec<(String, bool, Metadata)> = vec![];
    for be in [false, true] { starts.push((format!("be={}", be), be, LMeta::new(be).meta())); }
    starts.push(("rich".into(), true, decoded(&crate::c_img::rich())));
    starts.push(("dense".into(), true, decoded(&dense(if thorough() { 300 } else { 40 }))));
    starts.push(("far".into(), false, { let mut m = Metadata::new(); m.create_ifd(ExifTagGroup::GPS, 5); m.create_ifd(ExifTagGroup::INTEROP, 2); m }));
    for (si, (sname, be, base)) in starts.into_iter().enumerate() {
        let depth = if si == 0 { depth } else if si == 1 { 4 } else { depth - 1 };
        let mut r0: Ref = BTreeMap::new();
        for i in base.get_ifds() { r0.insert((i.get_generic_ifd_nr(), gnum(i.get_ifd_type())), i.get_tags().iter().map(|t| (t.as_u16(), format!("{:?}", t))).collect()); }
        if let Some(b) = c15_check(&base, &r0) { set_case(&format!("{} start", sname)); viol(&format!("C15:start {}", class(&b)), &b, &[]); }
        let mut frontier: Vec<(Metadata, Ref, String)> = vec![(base, r0, String::new())];
        for d in 0..depth {
            let nextf = std::sync::Mutex::new(Vec::new());
            let last = d + 1 == depth;
            par(&frontier, |_, (m, r, path)| for (oi, op) in ops.iter().enumerate() {
                let case = format!("{} ops={}.{}", sname, path, oi);
                if let Some(o) = &run().only { if !(o.as_str() == case || o.starts_with(&format!("{}.", case))) { continue; } if *o == case { run().matched.fetch_add(1, Relaxed); } }
                set_case(&case);
                let (mut m2, mut r2) = (m.clone(), r.clone());
                let Some(bad) = sut_np("operation", 1000, || { let b = c15_apply(&mut m2, &mut r2, op); b.or_else(|| c15_check(&m2, &r2)) }) else { continue };
                if m2.get_endian() != endian(be) { viol("C15:byte order", "operation changed the byte order", &[]); }
                if let Some(b) = bad { viol(&format!("C15:{}", class(&b)), &format!("after {:?} (path {}): {}", op, case, b), &[]); continue; }
                let h = key(&r2, be);
                if state_h(h) {
                    trace();
                    // encoding depends on content only
                    if !last { nextf.lock().unwrap().push((m2, r2, format!("{}.{}", path, oi))); }
                }
                sample(|| format!("{} last op {:?}", case, op));
            });
            frontier = nextf.into_inner().unwrap();
            note(&format!("frontier {} depth {}", sname, d + 1), frontier.len());
        }
    }
    // the encoding is a function of the content, not of the history: all orders of setting up to 5 tags
    let five = [0usize, 1, 5, 7, 2];
    let mut perms = vec![];
    fn rec(a: &mut Vec<usize>, k: usize, o: &mut Vec<Vec<usize>>) { if k == a.len() { o.push(a.clone()); return; } for i in k..a.len() { a.swap(k, i); rec(a, k + 1, o); a.swap(k, i); } }
    rec(&mut five.to_vec(), 0, &mut perms);
    let mk = |p: &Vec<usize>, junk: bool| { let mut m = Metadata::new(); if junk { m.set_tag(alpha(3, 0)); m.set_tag(alpha(3, 1)); } for i in p { if junk { m.set_tag(alpha(*i, 1)); } m.set_tag(alpha(*i, 0)); } m };
    let want0 = [mk(&perms[0], false).encode().ok(), mk(&perms[0], true).encode().ok()];
    for p in &perms { for junk in [false, true] {
        if !want(&format!("order {:?} junk={}", p, junk)) { continue; }
        let e = sut_np("encode", 1000, || mk(p, junk).encode().ok());
        if e != Some(want0[junk as usize].clone()) { viol("C15:history", "encoding depends on the order in which tags were set", &[]); }
    } }
}

// ------------------------------------------------------------------------------------------ C16
use little_exif::rational::{iR64, uR64};
/// best approximation error (as f64) of x>=0 with numerator <= nmax and denominator <= dmax, by exact continued fraction of the dyadic rational
fn best_err(x: f64, nmax: u128, dmax: u128) -> f64 {
    // x = m / 2^k exactly, with k <= 100
    let bits = x.to_bits();
    let exp = ((bits >> 52) & 0x7ff) as i32;
    let man = if exp == 0 { (bits & ((1 << 52) - 1)) << 1 } else { (bits & ((1 << 52) - 1)) | (1 << 52) } as u128;
    let e = exp - 1075;
    if e < -120 { return x; }
    let (mut a, mut b) = if e >= 0 { (man << e.min(60), 1u128) } else { (man, 1u128 << (-e).min(120)) };
    let g = gcd(a, b); a /= g; b /= g;
    let (mut p0, mut q0, mut p1, mut q1) = (0u128, 1u128, 1u128, 0u128);
    let mut best = f64::INFINITY;
    for _ in 0..200 {
        if b == 0 { break; }
        let t = a / b;
        let r = a % b; a = b; b = r;
        // largest usable term
        let tn = if p1 > 0 { (nmax - p0.min(nmax)) / p1 } else { u128::MAX };
        let td = if q1 > 0 { (dmax - q0.min(dmax)) / q1 } else { u128::MAX };
        let u = t.min(tn).min(td);
        let (p2, q2) = (u * p1 + p0, u * q1 + q0);
        if q2 > 0 { best = best.min((x - p2 as f64 / q2 as f64).abs()); }
        if u < t { break; }
        p0 = p1; q0 = q1; p1 = p2; q1 = q2;
    }
    best
}
fn gcd(mut a: u128, mut b: u128) -> u128 { while b != 0 { let r = a % b; a = b; b = r; } a.max(1) }
/// rare classes only: returns a description when the result is wrong
fn chk_u(x: f64, r: &uR64) -> Option<String> {
    if x.is_nan() { return if r.nominator == 0 && r.denominator == 0 { None } else { Some(format!("NaN -> {:?}, expected 0/0", r)) }; }
    if x < 0.0 { return None; } // unsigned target: only totality is required
    if r.denominator == 0 { return Some(format!("{:e} -> {:?}: zero denominator", x, r)); }
    if x > u32::MAX as f64 { return if (r.nominator, r.denominator) == (u32::MAX, 1) || (r.nominator, r.denominator) == (i32::MAX as u32, 1) { None } else { Some(format!("{:e} -> {:?}: out of range but not saturated", x, r)) }; }
    near(x, r.nominator as f64 / r.denominator as f64, u32::MAX as u128).map(|e| format!("{:e} -> {:?}: {}", x, r, e))
}
fn near(x: f64, y: f64, nmax: u128) -> Option<String> {
    let err = (x - y).abs();
    if err <= 1.0e-9 + x * 2e-15 { return None; }
    let b = best_err(x, nmax, i32::MAX as u128);
    if err <= b * 1.000001 + 1.1e-9 + x * 2e-15 { None } else { Some(format!("error {:e}, but {:e} is achievable", err, b)) }
}
fn chk_i(x: f64, r: &iR64) -> Option<String> {
    if x.is_nan() { return if r.nominator == 0 && r.denominator == 0 { None } else { Some(format!("NaN -> {:?}, expected 0/0", r)) }; }
    if r.denominator <= 0 { return Some(format!("{:e} -> {:?}: denominator not positive", x, r)); }
    if (x > 0.0 && r.nominator < 0) || (x < 0.0 && r.nominator > 0) { return Some(format!("{:e} -> {:?}: wrong sign", x, r)); }
    let ax = x.abs();
    let lim = if x < 0.0 { 2147483648.0 } else { 2147483647.0 };
    if ax > lim { return if r.denominator == 1 && (r.nominator == i32::MAX || r.nominator == -i32::MAX || r.nominator == i32::MIN) { None } else { Some(format!("{:e} -> {:?}: out of range but not saturated", x, r)) }; }
    near(ax, (r.nominator as f64 / r.denominator as f64).abs(), lim as u128).map(|e| format!("{:e} -> {:?}: {}", x, r, e))
}
fn c16_batch(case: &str, xs: impl Iterator<Item = f64>, keep: bool) {
    if !want(case) { return; }
    let mut n = 0u64;
    let mut hs: Vec<u128> = vec![];
    let cur = std::cell::Cell::new(0f64);
    let r = sut(case, 1 << 16, || {
        let mut bad: Option<(f64, String, String)> = None;
        for x in xs {
            n += 1;
            cur.set(x);
            let u: uR64 = x.into();
            let i: iR64 = x.into();
            if keep { hs.push((u.nominator as u128) << 96 | (u.denominator as u128) << 64 | ((i.nominator as u32 as u128) << 32) | i.denominator as u32 as u128); }
            if let Some(b) = chk_u(x, &u) { bad.get_or_insert((x, "f64->uR64".into(), b)); }
            if let Some(b) = chk_i(x, &i) { bad.get_or_insert((x, "f64->iR64".into(), b)); }
            // and back: total, equal to the quotient
            let (fu, fi): (f64, f64) = (u.clone().into(), i.clone().into());
            let ok = |f: f64, a: f64, b: f64| if b == 0.0 { f.is_nan() || f.is_infinite() } else { f == a / b };
            if !ok(fu, u.nominator as f64, u.denominator as f64) || !ok(fi, i.nominator as f64, i.denominator as f64) { bad.get_or_insert((x, "fraction->f64".into(), format!("{:?} -> {} / {:?} -> {}", u, fu, i, fi))); }
            let (_a, _b): (u32, u32) = (u.into(), i.into());
        }
        bad
    });
    run().transitions.fetch_add(n * 6, Relaxed);
    run().traces.fetch_add(n, Relaxed);
    for h in hs { state_h(h); }
    match r {
        Sut::Panic(p) => viol(&format!("C16:panic:{}", panic_site(&p)), &format!("conversion of {:e} (bits {:x}) panicked: {}", cur.get(), cur.get().to_bits(), p), &[]),
        Sut::Ret(Some((x, k, b))) => viol(&format!("C16:{}:{}", k, class(&b)), &format!("{} (input bits {:x})", b, x.to_bits()), &[]),
        _ => (),
    }
}
fn c16() {
    // f32 bit patterns
    let hi: Vec<u32> = (0..=0xffffu32).collect();
    if thorough() {
        par(&hi, |_, h| c16_batch(&format!("f32 {:04x}____", h), (0..=0xffffu32).map(|l| f32::from_bits(h << 16 | l) as f64), false));
        note("float patterns", 1u64 << 32);
    }
    let hi9: Vec<u32> = (0..512u32).collect();
    par(&hi9, |_, h| c16_batch(&format!("f32 exponent/sign {:03x} top 10 mantissa bits", h), (0..(1u32 << 10)).flat_map(|l| { let b = h << 23 | l << 13; [b, b | 1, b | 0x1fff] }).map(|b| f32::from_bits(b) as f64), true));
    // f64 exponents
    let e: Vec<u32> = (0..4096u32).collect();
    par(&e, |_, h| c16_batch(&format!("f64 sign/exponent {:03x}", h), (0..256u64).flat_map(|l| { let b = (*h as u64) << 52 | l << 44; [b, b | 1, b | ((1 << 44) - 1)] }).map(f64::from_bits), true));
    // integers exactly
    let blk: Vec<u32> = (0..64).collect();
    par(&blk, |_, k| {
        let case = format!("integers {}", k);
        if !want(&case) { return; }
        let mut xs: Vec<i64> = (0..1024i64 * if thorough() { 64 } else { 4 }).map(|i| i + *k as i64 * 1024 * if thorough() { 64 } else { 4 }).collect();
        if *k < 33 { for d in -40i64..=40 { xs.push((1i64 << *k) + d); xs.push((3i64 << *k) / 2 + d); } }
        for x in xs {
            for s in [x, -x] {
                let cur = s;
                let r = sut("integer conversion", 64, || {
                    let mut o: Vec<String> = vec![];
                    if let Ok(u) = u32::try_from(cur) { let r: uR64 = u.into(); if (r.nominator, r.denominator) != (u, 1) { o.push(format!("u32_to_uR64: {} -> {:?}", u, r)) } let b: u32 = r.into(); if b != u && o.is_empty() { o.push(format!("uR64_to_u32: {} -> {}", u, b)) }
                        let r: iR64 = u.into(); if u <= i32::MAX as u32 { if (r.nominator, r.denominator) != (u as i32, 1) { o.push(format!("u32_to_iR64: {} -> {:?}", u, r)) } } else if (r.nominator, r.denominator) != (i32::MAX, 1) { o.push(format!("u32_to_iR64 out of range not saturated: {} -> {:?}", u, r)) } }
                    if let Ok(i) = i32::try_from(cur) { let r: iR64 = i.into(); if (r.nominator, r.denominator) != (i, 1) { o.push(format!("i32_to_iR64: {} -> {:?}", i, r)) } }
                    if cur >= 0 && cur <= u32::MAX as i64 { let r: uR64 = (cur as f64).into(); if (r.nominator as i64, r.denominator) != (cur, 1) { o.push(format!("f64_to_uR64: {} -> {:?}", cur, r)) } }
                    if cur.abs() <= i32::MAX as i64 { let r: iR64 = (cur as f64).into(); if (r.nominator as i64, r.denominator) != (cur, 1) { o.push(format!("f64_to_iR64: {} -> {:?}", cur, r)) } }
                    o
                });
                match r { Sut::Panic(p) => viol(&format!("C16:panic:{}", panic_site(&p)), &format!("integer {} panicked: {}", cur, p), &[]), Sut::Ret(o) => for b in o { viol(&format!("C16:int:{}", b.split(':').next().unwrap()), &b, &[]) } }
            }
        }
    });
    // fractions with small terms reduce
    let lim = if thorough() { 2000u32 } else { 500 };
    let ds: Vec<u32> = (1..=lim).collect();
    par(&ds, |_, d| {
        let case = format!("fractions with denominator {}", d);
        if !want(&case) { return; }
        let r = sut("fraction conversion", 64, || {
            for n in 0..=2 * lim {
                let g = gcd(n as u128, *d as u128) as u32;
                let u: uR64 = f64::from(uR64 { nominator: n, denominator: *d }).into();
                if (u.nominator, u.denominator) != (n / g, d / g) { return Some(format!("{}/{} -> f64 -> {:?}", n, d, u)); }
                for s in [1i32, -1] { let i: iR64 = f64::from(iR64 { nominator: s * n as i32, denominator: *d as i32 }).into(); if (i.nominator, i.denominator) != (s * (n / g) as i32, (d / g) as i32) { return Some(format!("{}{}/{} -> f64 -> {:?}", if s < 0 { "-" } else { "" }, n, d, i)); } }
            }
            None
        });
        run().transitions.fetch_add(6 * lim as u64, Relaxed);
        match r { Sut::Panic(p) => viol(&format!("C16:panic:{}", panic_site(&p)), &p, &[]), Sut::Ret(Some(b)) => viol("C16:small fraction", &b, &[]), _ => () }
        sample(|| case.clone());
    });
    // reverse conversions of all edge fractions are total
    let edge: Vec<u32> = vec![0, 1, 2, 3, 0x7ffffffe, 0x7fffffff, 0x80000000, 0x80000001, 0xfffffffe, 0xffffffff];
    for n in &edge { for d in &edge {
        if !want(&format!("edge {}/{}", n, d)) { continue; }
        let r = sut_np("fraction to number", 64, || { let u = uR64 { nominator: *n, denominator: *d }; let i = iR64 { nominator: *n as i32, denominator: *d as i32 }; let (a, b): (f64, f64) = (u.clone().into(), i.clone().into()); let (c, e): (u32, u32) = (u.into(), i.into()); (a, b, c, e) });
        if let Some((a, b, _, _)) = r { if *d != 0 && (a != *n as f64 / *d as f64 || b != *n as i32 as f64 / *d as i32 as f64) { viol("C16:fraction->f64", &format!("{}/{} -> {} {}", n, d, a, b), &[]); } }
    } }
    // quadratic irrationals: longest continued fractions
    c16_batch("long continued fractions", (2..2000u32).flat_map(|k| { let s = (k as f64).sqrt(); [s, (1.0 + s) / 2.0, 1.0 / s, s * 1000.0, -s, std::f64::consts::PI * k as f64, 1.0 / (k as f64 * 1e5 + 0.5), 0.6180339887498949 + k as f64] }), true);
}

// ------------------------------------------------------------------------------------------ C17
fn c17_metas() -> Vec<(String, LMeta)> {
    let mut v = vec![];
    for be in [false, true] {
        let b = |s: &str| format!("{} {}", s, if be { "MM" } else { "II" });
        v.push((b("single"), LMeta::new(be).with(0, LTag::u16s(0x112, 0, &[6]))));
        v.push((b("empty dir"), { let mut m = LMeta::new(be); m.ifd(0, 0); m }));
        v.push((b("exif+gps"), LMeta::new(be).with(0, LTag::s(0x10f, 0, "Maker")).with(0, LTag::s(0x10e, 0, "Maker")).with(0, LTag::rat(0x829a, 1, &[(1, 250)])).with(0, LTag::rat(2, 3, &[(1, 1), (2, 1), (3, 1)]))));
        v.push((b("interop"), LMeta::new(be).with(0, LTag::s(1, 2, "R98")).with(0, LTag::undef(2, 2, b"0100")).with(0, LTag::undef(0x927c, 1, b"makernote bytes")).with(0, LTag::u16s(0x8827, 1, &[100, 200, 400]))));
        v.push((b("two pages"), LMeta::new(be).with(0, LTag::u32s(0x100, 0, &[4])).strips(0, vec![vec![1, 2, 3], vec![4, 5]]).with(1, LTag::s(0x131, 0, "page two")).strips(1, vec![vec![9, 9, 9, 9, 9]])));
        v.push((b("thumbnail"), LMeta::new(be).with(0, LTag::s(0x110, 0, "Model X")).thumb(1, vec![0xff, 0xd8, 0xff, 0xd9, 0]).with(1, LTag::u16s(0x103, 0, &[6]))));
        v.push((b("three chains"), { let mut m = LMeta::new(be); m.put(0, LTag::s(0x131, 0, "abcdef")); m.put(1, LTag::s(1, 3, "N")); m.put(2, LTag::u16s(0x8822, 1, &[3])); m.put(2, LTag::rat(0x829d, 1, &[(28, 10)])); m }));
        let mut all = LMeta::new(be);
        for f in 1..=12u16 { all.put(0, LTag::new(0xc000 + f, 0, f, if f == 2 { b"text value".to_vec() } else { pattern(0, 3 * FSZ[f as usize] as usize) })); }
        v.push((b("all formats"), all));
        let mut inl = LMeta::new(be);
        for f in [1u16, 2, 3, 4, 6, 7, 8, 9, 11] { inl.put(0, LTag::new(0xc100 + f, 0, f, if f == 2 { b"abc".to_vec() } else { pattern(0, 4 / FSZ[f as usize] as usize * FSZ[f as usize] as usize) })); }
        v.push((b("all inline"), inl));
    }
    v
}
fn c17_decode(case: &str, blk: &Vec<u8>, lm: &LMeta) {
    state(blk); trace();
    match decode(blk) {
        None => (),
        Some(Err(x)) => viol(&format!("C17:rejected:{}", case.split('/').next().unwrap_or("").trim()), &format!("a conforming block is rejected: {}", x), &[("block", blk)]),
        Some(Ok(d)) => { let (w, g) = (lm.canon(), canon(&d)); if w != g { viol(&format!("C17:content:{}", case.split('/').next().unwrap_or("").trim()), &diff(&w, &g), &[("block", blk)]); } }
    }
}
/// the block with its "Exif" prefix, carried by a JPEG segment
fn c17_decode_jpeg(case: &str, blk: &[u8], lm: &LMeta) {
    let mut j = vec![0xff, 0xd8, 0xff, 0xe1];
    j.extend(((blk.len() + 2) as u16).to_be_bytes()); j.extend(blk);
    j.extend([0xff, 0xdb, 0, 3, 0, 0xff, 0xda, 0, 3, 0, 0x55, 0xff, 0xd9]);
    state(&j); trace();
    match sut_np("decode (JPEG)", j.len(), || Metadata::new_from_vec(&j, FileExtension::JPEG)) {
        None => (),
        Some(Err(x)) => viol(&format!("C17:jpeg rejected:{}", case.split('/').next().unwrap_or("").trim()), &format!("a conforming block is rejected: {}", x), &[("jpeg", &j)]),
        Some(Ok(d)) => { let (w, g) = (lm.canon(), canon(&d)); if w != g { viol(&format!("C17:jpeg content:{}", case.split('/').next().unwrap_or("").trim()), &diff(&w, &g), &[("jpeg", &j)]); } }
    }
}
fn c17() {
    let metas = c17_metas();
    // the builder agrees with the strict parser (self-check of the reference)
    for (n, m) in &metas { let b = tiffref::plain(m); match tiffref::parse(&b) { Ok(t) => tiffref::same_logical(m, &t.logical()).unwrap_or_else(|e| panic!("builder self-check {}: {}", n, e)), Err(e) => panic!("builder self-check {}: {}", n, e) } }
    let mut work: Vec<(usize, usize)> = vec![];
    for (i, (_, m)) in metas.iter().enumerate() { let n = tiffref::regions_of(m); let f: usize = (1..=n.min(8)).product(); let cap = if thorough() { 40320 } else { 720 }; let tot: usize = (1..=n).product(); let step = (tot / f.min(cap)).max(1) | 1; let mut k = 0; while k < tot { work.push((i, k)); k += step; } }
    note("layout orders", work.len());
    par(&work, |_, (i, perm)| {
        let (n, m) = &metas[*i];
        for gap in [0usize, 2, 7] { for share in [false, true] { for pre in [false, true] { for align in [true, false] { for fill in [0u8, 0xff] { for tail in [0usize, 3] { for link in [0u32, 0xdeadbeef] {
            if (fill == 0xff) != (gap == 7) && !thorough() { continue; }
            if link != 0 && (tail != 0 || !m.ifds.keys().any(|k| k.1 != 0)) { continue; }
            let case = format!("{} / perm={} gap={} share={} prefix={} align={} fill={} tail={} link={:x}", n, perm, gap, share, pre, align, fill, tail, link);
            if !want(&case) { continue; }
            let b = tiffref::build(m, &Layout { perm: *perm, gap, share, exif_prefix: pre, fill, align, tail, short_strips: perm % 2 == 1, short_offs: perm % 3 == 1, sub_link: link }, &|_, _| None);
            if pre { c17_decode_jpeg(&case, &b, m) } else { c17_decode(&case, &b, m) }
            sample(|| format!("{}: {} bytes", case, b.len()));
        } } } } } } }
    });
    // integer format substitution for every known integer tag
    let rows: Vec<usize> = (0..DICT.len()).filter(|i| [1u16, 3, 4].contains(&DICT[*i].2) && !is_ptr(DICT[*i].1, DICT[*i].5)).collect();
    par(&rows, |_, i| {
        let d = &DICT[*i];
        for be in [false, true] { for stored in [1u16, 3, 4] { for cnt in 1..=5u32 { for (vi, val) in [0u32, 1, 2, 127, 128, 254, 255, 256, 257, 0x1234, 32767, 32768, 65534, 65535, 65536, 65537, 0x12345678, 0x7fffffff, 0x80000000, 0xffffffff].iter().enumerate() { for mix in [false, true] {
            if (*val as u64) >= 1u64 << (8 * FSZ[stored as usize]) { continue; }
            let vals: Vec<u32> = (0..cnt).map(|k| if mix && k + 1 < cnt { 1 } else { *val }).collect();
            if mix && cnt == 1 { continue; }
            let case = format!("substitute {} fmt {}->{} count={} value={} mix={} be={} ({})", d.0, d.2, stored, cnt, val, mix, be, vi);
            if !want(&case) { continue; }
            let fits = (*val as u64) < 1u64 << (8 * FSZ[d.2 as usize]);
            let mk = |f: u16| -> Vec<u8> { let mut o = vec![]; for v in &vals { match f { 1 => o.push(*v as u8), 3 => p16(&mut o, *v as u16, false), _ => p32(&mut o, *v, false) } } o };
            let lm = LMeta::new(be).with(0, LTag::new(d.1, d.5, d.2, mk(d.2)));
            let st = if be { swap(stored, &mk(stored)) } else { mk(stored) };
            let blk = tiffref::build(&lm, &Layout { align: true, ..Default::default() }, &|_, t| if t.num == d.1 && t.grp == d.5 { Some((stored, st.clone())) } else { None });
            state(&blk); trace();
            match decode(&blk) {
                None => (),
                Some(Err(x)) => if stored == d.2 { viol("C17:substitute:native rejected", &x.to_string(), &[("block", &blk)]) } else { outcome(&format!("{}->{} rejected", stored, d.2)) },
                Some(Ok(g)) => {
                    outcome(&format!("{}->{} accepted", stored, d.2));
                    if !fits || canon(&g) != lm.canon() { viol(&format!("C17:substitute:{}->{} altered", stored, d.2), &format!("stored values {:?} decode to {}", vals, canon(&g).short()), &[("block", &blk)]); }
                }
            }
        } } } } }
    });
    // permitted widenings must be accepted (TIFF: readers must accept BYTE, SHORT, LONG for unsigned integers of dimension-like tags)
    for (name, num, g, stored) in [("ImageWidth", 0x100u16, 0u8, 3u16), ("ImageHeight", 0x101, 0, 3), ("RowsPerStrip", 0x116, 0, 3), ("ExifImageWidth", 0xa002, 1, 3), ("ExifImageHeight", 0xa003, 1, 3)] { for be in [false, true] {
        let case = format!("widen {} be={}", name, be);
        if !want(&case) { continue; }
        let lm = LMeta::new(be).with(0, LTag::u32s(num, g, &[640]));
        let mut o = vec![]; p16(&mut o, 640, be);
        let blk = tiffref::build(&lm, &Layout { align: true, ..Default::default() }, &|_, t| if t.num == num { Some((stored, o.clone())) } else { None });
        c17_decode(&case, &blk, &lm);
    } }
    // unsigned rationals where signed ones are expected: the value is preserved or the block rejected
    for d in DICT.iter().filter(|d| d.2 == 10) { for be in [false, true] { for a in [0u32, 1, 2, 3, 100, 625, 65535, 0x10000, 0x7ffffffe, 0x7fffffff, 0x80000000, 0xffffffff] { for b in [0u32, 1, 2, 3, 10, 1000, 0xffff, 0x7fffffff, 0x80000000, 0xffffffff] {
        let case = format!("urational for {} {}/{} be={}", d.0, a, b, be);
        if !want(&case) { continue; }
        let lm = LMeta::new(be).with(0, LTag::srat(d.1, d.5, &[(1, 1)]));
        let mut o = vec![]; p32(&mut o, a, be); p32(&mut o, b, be);
        let blk = tiffref::build(&lm, &Layout { align: true, ..Default::default() }, &|_, t| if t.num == d.1 && t.grp == d.5 { Some((5, o.clone())) } else { None });
        state(&blk); trace();
        if let Some(Ok(g)) = decode(&blk) {
            let t = g.get_ifd(group(d.5), 0).and_then(|i| i.get_tags().iter().find(|t| t.as_u16() == d.1).cloned());
            let Some(t) = t else { viol("C17:urational lost", "tag lost", &[("block", &blk)]); continue };
            let by = t.value_as_u8_vec(&Endian::Little);
            if by.len() != 8 { viol("C17:urational altered", &format!("{}/{} decodes to {:?}", a, b, t), &[("block", &blk)]); continue; }
            let (x, y) = (i32::from_le_bytes(by[0..4].try_into().unwrap()), i32::from_le_bytes(by[4..8].try_into().unwrap()));
            let ok = if a > i32::MAX as u32 && (b == 0 || a as f64 / b as f64 > i32::MAX as f64) { true } else if b == 0 { (x, y) == (a as i32, 0) } else { y > 0 && x >= 0 && { let (w, h) = (a as f64 / b as f64, x as f64 / y as f64); (w - h).abs() <= 1e-8 * w.max(1.0) } };
            if !ok { viol("C17:urational altered", &format!("{}/{} decodes to {}/{}", a, b, x, y), &[("block", &blk)]); }
        } else { outcome("urational rejected") }
    } } } }
}
use crate::tiffref::{p16, p32};

// ------------------------------------------------------------------------------------------ C18
/// what a TIFF needs, and what tells how to decode its image data (of the latter some have no name in the library)
pub const KEEP: [u16; 31] = [0x100, 0x101, 0x102, 0x103, 0x106, 0x111, 0x115, 0x116, 0x117, 0x11a, 0x11b, 0x11c, 0x128, 0x140, 0x201, 0x202, 0x211, 0x212, 0x213, 0x214,
    0xfe, 0x10a, 0x124, 0x125, 0x13d, 0x14c, 0x14e, 0x150, 0x152, 0x153, 0x15b];
pub const KEEP_UNKNOWN: std::ops::Range<usize> = 20..31;
pub fn kept(num: u16, grp: u8, known: bool) -> bool { grp == 0 && (known && KEEP.contains(&num) || !known && KEEP[KEEP_UNKNOWN].contains(&num)) }
pub fn sample_tag(d: &(&'static str, u16, u16, u32, bool, u8), salt: usize) -> LTag {
    let c = if d.3 > 0 { d.3 } else { 3 } as usize;
    if d.2 == 2 { LTag::new(d.1, d.5, 2, text(0, (c - 1).max(1))) } else { LTag::new(d.1, d.5, d.2, pattern(salt % 2, c * FSZ[d.2 as usize] as usize)) }
}
pub fn reduced(m: &LMeta) -> LMeta { let mut r = m.clone(); r.ifds.retain(|k, _| k.1 == 0); for d in r.ifds.values_mut() { d.tags.retain(|t| kept(t.num, t.grp, t.known().is_some())); } r }
/// adds what the library demands of every TIFF (anywhere in the main directories) to directory 0
pub fn tiff_base(lm: &LMeta) -> LMeta {
    let mut m = lm.clone();
    let has = |m: &LMeta, n: u16| m.ifds.iter().any(|(k, d)| k.1 == 0 && d.tags.iter().any(|t| t.num == n));
    for t in [LTag::u32s(0x100, 0, &[4]), LTag::u32s(0x101, 0, &[4]), LTag::u16s(0x103, 0, &[1]), LTag::u16s(0x106, 0, &[1]), LTag::u32s(0x116, 0, &[4]), LTag::rat(0x11a, 0, &[(72, 1)]), LTag::rat(0x11b, 0, &[(72, 1)]), LTag::u16s(0x128, 0, &[2])] {
        if !has(&m, t.num) { m.put(0, t); }
    }
    if !m.ifds.iter().any(|(k, d)| k.1 == 0 && d.strips.is_some()) { m.ifd(0, 0).strips = Some(vec![vec![1, 2, 3, 4, 5]]); }
    m
}
fn c18() {
    // every dictionary tag alone and next to its neighbours, in directory nr 0..2
    let mut cases: Vec<(String, LMeta)> = vec![];
    for be in [false, true] { for nr in 0..3u32 {
        for d in DICT.iter() {
            if is_ptr(d.1, d.5) { continue; }
            let mut m = LMeta::new(be);
            for k in 0..=nr { m.put(k, LTag::u32s(0x100, 0, &[4 + k])); m.put(k, LTag::s(0x131, 0, "software")); }
            m.put(nr, sample_tag(d, 0));
            cases.push((format!("one {} nr={} be={}", d.0, nr, be), m.clone()));
            m.ifd(nr, 0).strips = Some(vec![pattern(0, 3), pattern(1, 6)]); m.ifd(0, 0).thumb = Some(pattern(4, 5));
            cases.push((format!("one+strips {} nr={} be={}", d.0, nr, be), m));
        }
        for g in 0..4u8 { for num in KEEP.iter().copied().chain([0x0003u16, 0x00ff, 0x0123, 0x012d, 0x014d, 0x0151, 0x0154, 0xfde8]) { for f in 1..=12u16 {
            if DICT.iter().any(|d| d.1 == num && d.5 == g) || matches!(num, 0x111 | 0x117 | 0x201 | 0x202) { continue; }
            let mut m = LMeta::new(be); for k in 0..=nr { m.put(k, LTag::u32s(0x101, 0, &[9])); }
            m.put(nr, LTag::new(num, g, f, if f == 2 { b"xyz".to_vec() } else { pattern(0, 2 * FSZ[f as usize] as usize) }));
            cases.push((format!("unknown {:04x} {} fmt={} nr={} be={}", num, gname(g), f, nr, be), m));
        } } }
    }
        // all subsets of structural tags with a non-structural companion set
        let keepd: Vec<_> = DICT.iter().filter(|d| d.5 == 0 && KEEP.contains(&d.1)).collect();
        let tot = 1usize << keepd.len();
        for k in 0..tot { 
            let mut m = LMeta::new(be); m.ifd(0, 0);
            for (i, d) in keepd.iter().enumerate() { if k >> i & 1 == 1 { m.put(0, sample_tag(d, i)); } }
            for d in DICT.iter().filter(|d| !is_ptr(d.1, d.5) && !(d.5 == 0 && KEEP.contains(&d.1)) && (d.1 as usize + k) % 3 == 0) { m.put((d.1 % 2) as u32, sample_tag(d, k)); }
            m.ifd(0, 0).strips = Some(vec![pattern(0, k % 5)]);
            cases.push((format!("subset {} be={}", k, be), m));
        }
        let mut all = LMeta::new(be); for d in DICT.iter() { if !is_ptr(d.1, d.5) { for nr in 0..3 { all.put(nr, sample_tag(d, nr as usize)); } } } for nr in 0..3 { all.ifd(nr, 0).strips = Some(vec![pattern(0, 8); 2]); all.ifd(nr, 0).thumb = Some(pattern(1, 3)); }
        cases.push((format!("everything be={}", be), all));
    }
    par(&cases, |_, (case, lm)| {
        if !want(case) { return; }
        let mut m = lm.meta();
        let exp = reduced(lm).canon();
        let Some(()) = sut_np("reduce_to_a_minimum", 1000, || m.reduce_to_a_minimum()) else { return };
        trace();
        let c = canon(&m);
        state(format!("{:?}", c).as_bytes());
        if c != exp { viol("C18:reduce", &diff(&exp, &c), &[]); return; }
        let mut m2 = m.clone();
        if sut_np("reduce again", 1000, || m2.reduce_to_a_minimum()).is_some() && canon(&m2) != c { viol("C18:not idempotent", &diff(&c, &canon(&m2)), &[]); }
        sample(|| format!("{} -> {}", case, c.short().chars().take(200).collect::<String>()));
        // clearing the TIFF built from it
        let lm = &tiff_base(lm);
        let blk = tiffref::plain(lm);
        let wn: Vec<&LTag> = lm.ifds.values().flat_map(|d| d.tags.iter()).filter(|t| !kept(t.num, t.grp, t.known().is_some())).collect();
        let mut v = blk.clone();
        match sut_np("clear_metadata(vec,TIFF)", v.len(), || Metadata::clear_metadata(&mut v, FileExtension::TIFF)) {
            None => (),
            Some(Err(x)) => viol("C18:clear error", &format!("clearing a valid TIFF fails: {}", x), &[("tiff", &blk)]),
            Some(Ok(())) => {
                trace(); state(&v);
                match tiffref::parse(&v) {
                    Err(x) => viol(&format!("C18:clear invalid:{}", class(&x)), &x, &[("before", &blk), ("after", &v)]),
                    Ok(t) => {
                        if let Err(x) = tiffref::same_logical(&reduced(lm), &t.logical()) { viol("C18:clear content", &x, &[("before", &blk), ("after", &v)]); }
                        if t.end != v.len() && (t.end + 3) / 4 * 4 != v.len() { viol("C18:clear leftover", &format!("{} bytes after the last datum", v.len() - t.end), &[("before", &blk), ("after", &v)]); }
                        for w in wn { let s = w.stored(lm.be); if s.len() >= 8 && w.fmt == 2 && v.windows(s.len() - 1).any(|x| x == &s[..s.len() - 1]) && !lm.ifds.values().any(|d| d.strips.iter().flatten().any(|z| z.windows(s.len() - 1).any(|x| x == &s[..s.len() - 1]))) { viol("C18:clear leftover", &format!("bytes of removed tag {:04x} are still in the file", w.num), &[("after", &v)]); } }
                        let mut v2 = v.clone();
                        if let Some(r) = sut_np("clear again", v2.len(), || Metadata::clear_metadata(&mut v2, FileExtension::TIFF)) { if r.is_err() || v2 != v { viol("C18:clear not idempotent", &format!("{:?}", r), &[("once", &v), ("twice", &v2)]); } }
                    }
                }
            }
        }
    });
}

// ------------------------------------------------------------------------------------------ C19 (blocks; containers follow in c_cont)
pub fn edits() -> Vec<(String, Box<dyn Fn(&mut Metadata) + Sync + Send>, Box<dyn Fn(&mut LMeta) + Sync + Send>)> {
    let mut v: Vec<(String, Box<dyn Fn(&mut Metadata) + Sync + Send>, Box<dyn Fn(&mut LMeta) + Sync + Send>)> = vec![];
    for (n, t, nr) in [("desc", LTag::s(0x10e, 0, "new description"), 0u32), ("desc2", LTag::s(0x10e, 0, "x"), 0), ("orient", LTag::u16s(0x112, 0, &[3]), 0), ("iso", LTag::u16s(0x8827, 1, &[800]), 0), ("gps", LTag::s(1, 3, "S"), 0), ("interop", LTag::s(1, 2, "R03"), 0), ("ifd1 software", LTag::s(0x131, 0, "second directory"), 1), ("unknown", LTag::undef(0xfde8, 0, b"private"), 0), ("datetime", LTag::s(0x9003, 1, "2024:01:02 03:04:05"), 0), ("latitude", LTag::rat(2, 3, &[(48, 1), (12, 1), (345, 100)]), 0)] {
        let (t1, t2) = (t.clone(), t.clone());
        let g = t.grp;
        v.push((format!("set {}", n), Box::new(move |m| if nr == 0 { m.set_tag(t1.tag()) } else { m.get_ifd_mut(group(g), nr).set_tag(t1.tag()) }), Box::new(move |l| { l.put(nr, t2.clone()); })));
    }
    for (n, num, g) in [("desc", 0x10eu16, 0u8), ("make", 0x10f, 0), ("iso", 0x8827, 1), ("gpsref", 1, 3), ("makernote", 0x927c, 1), ("unknown", 0xfde8, 0), ("interop idx", 1, 2)] {
        v.push((format!("remove {}", n), Box::new(move |m| { m.remove_tag_by_hex_group(num, group(g)); }), Box::new(move |l| for (k, d) in l.ifds.iter_mut() { if k.1 == g { d.tags.retain(|t| t.num != num) } })));
    }
    v
}
pub fn c19_starts() -> Vec<(String, LMeta)> {
    let mut v = c17_metas();
    for be in [false, true] {
        let mut full = LMeta::new(be);
        full.put(0, LTag::s(0x10e, 0, "old description")).put(0, LTag::s(0x10f, 0, "Maker")).put(0, LTag::u16s(0x112, 0, &[1])).put(0, LTag::rat(0x11a, 0, &[(72, 1)])).put(0, LTag::undef(0xfde8, 0, b"private data block")).put(0, LTag::new(0xfde9, 0, 12, 1.5f64.to_le_bytes().to_vec()))
            .put(0, LTag::rat(0x829a, 1, &[(1, 60)])).put(0, LTag::u16s(0x8827, 1, &[100, 200])).put(0, LTag::undef(0x927c, 1, &pattern(0, 37))).put(0, LTag::undef(0x9286, 1, b"ASCII\0\0\0comment")).put(0, LTag::undef(0xa301, 1, &[1]))
            .put(0, LTag::s(1, 2, "R98")).put(0, LTag::undef(2, 2, b"0100")).put(0, LTag::s(1, 3, "N")).put(0, LTag::rat(2, 3, &[(1, 1), (2, 1), (3, 1)])).put(0, LTag::new(5, 3, 1, vec![0])).put(1, LTag::u16s(0x103, 0, &[6])).put(1, LTag::s(0x131, 0, "thumb sw"));
        full.ifd(1, 0).thumb = Some(pattern(4, 33));
        v.push((format!("full {}", if be { "MM" } else { "II" }), full));
        let mut tif = LMeta::new(be);
        for nr in 0..2 { tif.put(nr, LTag::u32s(0x100, 0, &[2])).put(nr, LTag::u32s(0x101, 0, &[2])).put(nr, LTag::u16s(0x103, 0, &[1])).put(nr, LTag::s(0x10e, 0, "page")); tif.ifd(nr, 0).strips = Some(vec![vec![1, 2, 3, 4], vec![5, 6, 7]]); }
        v.push((format!("tiff {}", if be { "MM" } else { "II" }), tif));
    }
    v
}
fn c19() {
    let starts = c19_starts();
    let eds = edits();
    let depth = if thorough() { 8 } else { 5 };
    par(&starts, |si, (sn, lm)| {
        let blk = tiffref::build(lm, &Layout { align: true, gap: 2, perm: si, share: true, ..Default::default() }, &|_, _| None);
        let mut seen: HashMap<u128, ()> = HashMap::new();
        let mut frontier: Vec<(Vec<u8>, LMeta, String)> = vec![(blk, lm.clone(), String::new())];
        for dd in 0..depth {
            let mut next = vec![];
            for (b, l, path) in &frontier { for (ei, (en, em, el)) in eds.iter().enumerate() {
                let case = format!("{} :{}.{}", sn, path, ei);
                if let Some(o) = &run().only { if !(o.as_str() == case || o.starts_with(&format!("{}.", case))) { continue; } if *o == case { run().matched.fetch_add(1, Relaxed); } }
                set_case(&case);
                let Some(Ok(mut m)) = decode(b) else { viol("C19:read", "block of the previous cycle does not decode", &[("block", b)]); continue };
                let mut l2 = l.clone();
                el(&mut l2);
                if sut_np("edit", 1000, || em(&mut m)).is_none() { continue; }
                let Some(r) = sut_np("encode", b.len(), || m.encode()) else { continue };
                let Ok(e) = r else { viol("C19:encode error", &format!("{:?}", r.err()), &[("block", b)]); continue };
                trace();
                let Some(Ok(m2)) = decode(&e) else { viol("C19:reread", "the rewritten block does not decode", &[("block", &e)]); continue };
                let (w, g) = (l2.canon_written(), canon(&m2));
                if w != g { viol("C19:tags not preserved", &format!("after '{}': {}", en, diff(&w, &g)), &[("before", b), ("after", &e)]); continue; }
                let h = h128(&e);
                state_h(h);
                if seen.insert(h, ()).is_none() && dd + 1 < depth { next.push((e, l2, format!("{}.{}", path, ei))); }
                sample(|| format!("{} {}", case, en));
            } }
            frontier = next;
        }
    });
    // a value set on top of every dictionary tag: everything else stays
    let idx: Vec<usize> = (0..DICT.len()).filter(|i| !is_ptr(DICT[*i].1, DICT[*i].5) && DICT[*i].4).collect();
    par(&idx, |_, i| for be in [false, true] {
        let d = &DICT[*i];
        let mut all = LMeta::new(be);
        for x in DICT.iter() { if !is_ptr(x.1, x.5) && x.4 { all.put(0, sample_tag(x, 0)); } }
        all.put(0, LTag::undef(0xfde8, 0, b"private data block"));
        let blk = tiffref::plain(&all);
        for rem in [false, true] {
            let case = format!("all tags, {} {} be={}", if rem { "remove" } else { "set" }, d.0, be);
            if !want(&case) { continue; }
            let Some(Ok(mut m)) = decode(&blk) else { viol("C19:read", "start block does not decode", &[("block", &blk)]); continue };
            let mut l = all.clone();
            let t = { let mut t = sample_tag(d, 1); if d.2 == 2 { t.le.reverse() } t };
            if rem { m.remove_tag_by_hex_group(d.1, group(d.5)); l.ifd(0, d.5).tags.retain(|x| x.num != d.1) } else { m.set_tag(t.tag()); l.put(0, t); }
            let Some(Ok(e)) = sut_np("encode", blk.len(), || m.encode()) else { viol("C19:encode error", "encode failed", &[]); continue };
            state(&e); trace();
            let Some(Ok(m2)) = decode(&e) else { viol("C19:reread", "the rewritten block does not decode", &[("block", &e)]); continue };
            if l.canon_written() != canon(&m2) { viol("C19:tags not preserved", &diff(&l.canon_written(), &canon(&m2)), &[("after", &e)]); }
        }
    });
}

// ------------------------------------------------------------------------------------------ C25
fn c25() {
    use little_exif::u8conversion::U8conversion;
    macro_rules! scalar {
        ($t:ty, $n:expr, $vals:expr, $same:expr) => {{
            let vals: Vec<$t> = $vals;
            let same: fn(&$t, &$t) -> bool = $same;
            let case = format!("scalar {}", stringify!($t));
            if want(&case) {
                let r = sut_np(&case, 1 << 20, || {
                    for v in &vals { for e in [Endian::Little, Endian::Big] {
                        let b = <$t as U8conversion<$t>>::to_u8_vec(v, &e);
                        let exp = if e == Endian::Little { v.to_le_bytes().to_vec() } else { v.to_be_bytes().to_vec() };
                        if b != exp { return Some(format!("{:?} -> {:?}, expected {:?}", v, b, exp)); }
                        match <$t as U8conversion<$t>>::from_u8_vec_res(&b, &e) { Ok(x) if same(&x, v) => (), x => return Some(format!("{:?} -> bytes -> {:?}", v, x)) }
                        if !same(&<$t as U8conversion<$t>>::from_u8_vec(&b, &e), v) { return Some(format!("from_u8_vec of {:?}", v)); }
                    } }
                    for len in 0..40usize { for e in [Endian::Little, Endian::Big] {
                        let r = <$t as U8conversion<$t>>::from_u8_vec_res(&vec![1u8; len], &e);
                        if r.is_ok() != (len == $n) { return Some(format!("{} bytes: {:?}", len, r)); }
                        let r = <Vec<$t> as U8conversion<Vec<$t>>>::from_u8_vec_res(&vec![1u8; len], &e);
                        if r.is_ok() != (len % $n == 0) { return Some(format!("list from {} bytes: {:?}", len, r)); }
                    } }
                    let k = vals.len();
                    for n in 0..=6usize { for s in 0..k.min(97) { for e in [Endian::Little, Endian::Big] {
                        let l: Vec<$t> = (0..n).map(|i| vals[(s * 31 + i * 7) % k].clone()).collect();
                        let b = <Vec<$t> as U8conversion<Vec<$t>>>::to_u8_vec(&l, &e);
                        let exp: Vec<u8> = l.iter().flat_map(|v| if e == Endian::Little { v.to_le_bytes().to_vec() } else { v.to_be_bytes().to_vec() }).collect();
                        if b != exp { return Some(format!("list {:?} -> {:?}", l, b)); }
                        match <Vec<$t> as U8conversion<Vec<$t>>>::from_u8_vec_res(&b, &e) { Ok(x) if x.len() == n && x.iter().zip(&l).all(|(a, b)| same(a, b)) => (), x => return Some(format!("list {:?} -> {:?}", l, x)) }
                    } } }
                    None
                });
                if let Some(Some(b)) = r { viol(&format!("C25:{}", stringify!($t)), &b, &[]); }
                for v in &vals { state(&[&v.to_le_bytes()[..], stringify!($t).as_bytes()].concat()); }
                run().transitions.fetch_add(vals.len() as u64 * 6, Relaxed); run().traces.fetch_add(vals.len() as u64, Relaxed);
                sample(|| format!("{}: {} values", case, vals.len()));
            }
        }};
    }
    fn pats<const N: usize>() -> Vec<[u8; N]> {
        let mut v = vec![];
        for p in 0..N { for b in 0..=255u8 { let mut x = [0u8; N]; x[p] = b; v.push(x); let mut y = [0xffu8; N]; y[p] = b; v.push(y); } }
        if N >= 2 { for p in 0..N { for q in 0..N { if p != q { for b in 0..64u8 { let mut x = [0x5au8; N]; x[p] = b.wrapping_mul(4).wrapping_add(1); x[q] = 255 - b; v.push(x); } } } } }
        v
    }
    scalar!(u8, 1, (0..=255).collect(), |a, b| a == b);
    scalar!(i8, 1, (-128..=127).collect(), |a, b| a == b);
    scalar!(u16, 2, (0..=65535).collect(), |a, b| a == b);
    scalar!(i16, 2, (-32768..=32767).collect(), |a, b| a == b);
    scalar!(u32, 4, pats::<4>().into_iter().map(u32::from_le_bytes).collect(), |a, b| a == b);
    scalar!(i32, 4, pats::<4>().into_iter().map(i32::from_le_bytes).collect(), |a, b| a == b);
    scalar!(u64, 8, pats::<8>().into_iter().map(u64::from_le_bytes).collect(), |a, b| a == b);
    scalar!(i64, 8, pats::<8>().into_iter().map(i64::from_le_bytes).collect(), |a, b| a == b);
    scalar!(f32, 4, pats::<4>().into_iter().map(f32::from_le_bytes).collect(), |a, b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()));
    scalar!(f64, 8, pats::<8>().into_iter().map(f64::from_le_bytes).collect(), |a, b| a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()));
    // rationals
    let vs: Vec<u32> = pats::<4>().into_iter().map(u32::from_le_bytes).filter(|x| x % 3 == 0 || *x < 300).collect();
    par(&vs, |_, a| {
        if !want(&format!("rational {}", a)) { return; }
        let r = sut_np("rational bytes", 4096, || {
            for b in vs.iter() { for be in [false, true] {
                let e = endian(be);
                let u = uR64 { nominator: *a, denominator: *b };
                let i = iR64 { nominator: *a as i32, denominator: *b as i32 };
                let mut exp = vec![]; p32(&mut exp, *a, be); p32(&mut exp, *b, be);
                let (x, y) = (<uR64 as U8conversion<uR64>>::to_u8_vec(&u, &e), <iR64 as U8conversion<iR64>>::to_u8_vec(&i, &e));
                if x != exp || y != exp { return Some(format!("{:?} -> {:?} / {:?}", u, x, y)); }
                if <uR64 as U8conversion<uR64>>::from_u8_vec_res(&exp, &e).ok() != Some(u.clone()) || <iR64 as U8conversion<iR64>>::from_u8_vec_res(&exp, &e).ok() != Some(i.clone()) { return Some(format!("bytes -> {:?}", u)); }
                let l = vec![u.clone(), uR64 { nominator: *b, denominator: *a }, u.clone()];
                let lb = <Vec<uR64> as U8conversion<Vec<uR64>>>::to_u8_vec(&l, &e);
                if lb.len() != 24 || <Vec<uR64> as U8conversion<Vec<uR64>>>::from_u8_vec_res(&lb, &e).ok() != Some(l) { return Some(format!("list of {:?}", u)); }
                let l = vec![i.clone(), i.clone()];
                let lb = <Vec<iR64> as U8conversion<Vec<iR64>>>::to_u8_vec(&l, &e);
                if <Vec<iR64> as U8conversion<Vec<iR64>>>::from_u8_vec_res(&lb, &e).ok() != Some(l) { return Some(format!("list of {:?}", i)); }
            } }
            None
        });
        run().transitions.fetch_add(vs.len() as u64, Relaxed);
        state(&[&a.to_le_bytes()[..], b"rational"].concat()); trace();
        if let Some(Some(b)) = r { viol("C25:rational", &b, &[]); }
    });
    for len in 0..40usize { for be in [false, true] { if want(&format!("rational length {} {}", len, be)) {
        let v = vec![1u8; len]; let e = endian(be);
        let r = sut_np("rational length", 64, || (<uR64 as U8conversion<uR64>>::from_u8_vec_res(&v, &e).is_ok(), <iR64 as U8conversion<iR64>>::from_u8_vec_res(&v, &e).is_ok(), <Vec<uR64> as U8conversion<Vec<uR64>>>::from_u8_vec_res(&v, &e).is_ok(), <Vec<iR64> as U8conversion<Vec<iR64>>>::from_u8_vec_res(&v, &e).is_ok()));
        if let Some(r) = r { if r != (len == 8, len == 8, len % 8 == 0, len % 8 == 0) { viol("C25:rational length", &format!("{} bytes: {:?}", len, r), &[]); } }
    } } }
    // strings: all byte strings of length <= 2, all 3-byte strings over representatives, longer UTF-8
    let firsts: Vec<u16> = (0..=256).collect();
    par(&firsts, |_, a| {
        if !want(&format!("strings starting with {}", a)) { return; }
        let reps: Vec<u8> = (0..=255).collect();
        let mut strs: Vec<Vec<u8>> = vec![];
        if *a == 256 { strs.push(vec![]) } else { let a = *a as u8; strs.push(vec![a]); for b in 0..=255u8 { strs.push(vec![a, b]); for c in &reps { strs.push(vec![a, b, *c]); } } for b in &reps { for c in &reps { for d in if thorough() { &[0u8, 1, 0x20, 0x41, 0x7f, 0x80, 0xa4, 0xbf, 0xc3, 0xf4, 0xff][..] } else { &[0u8, 0x41, 0x80] } { strs.push(vec![a, *b, *c, *d]); } } } }
        let r = sut_np("string conversion", 4096, || {
            for s in &strs { for be in [false, true] {
                let e = endian(be);
                let g = match <String as U8conversion<String>>::from_u8_vec_res(s, &e) { Ok(g) => g, Err(x) => return Some(format!("{:?} fails: {}", s, x)) };
                let exp = match String::from_utf8(s.clone()) { Ok(s) => s.trim_end_matches('\0').to_string(), Err(_) => s.iter().filter(|b| **b != 0).map(|b| *b as char).collect::<String>() };
                if g != exp { return Some(format!("{:?} -> {:?}, expected {:?}", s, g, exp)); }
                let b = <String as U8conversion<String>>::to_u8_vec(&g, &e);
                if b.last() != Some(&0) || b[..b.len() - 1] != *g.as_bytes() { return Some(format!("{:?} -> {:?}: not the string plus NUL", g, b)); }
                if <String as U8conversion<String>>::from_u8_vec_res(&b, &e).ok() != Some(g.clone()) { return Some(format!("{:?} not recovered", g)); }
            } }
            None
        });
        for s in strs.iter().take(600) { state(s); }
        run().transitions.fetch_add(strs.len() as u64 * 6, Relaxed); run().traces.fetch_add(strs.len() as u64, Relaxed);
        if let Some(Some(b)) = r { viol("C25:string", &b, &[]); }
    });
}

// ------------------------------------------------------------------------------------------ C26
fn c26() {
    let nums: Vec<u32> = (0..=0xffff).collect();
    par(&nums, |_, num| {
        let num = *num as u16;
        for g in 0..4u8 {
            if !want(&format!("tag {:04x} {}", num, gname(g))) { continue; }
            let gr = group(g);
            let row = DICT.iter().find(|d| d.1 == num && d.5 == g);
            let off = matches!(num, 0x111 | 0x117 | 0x201 | 0x202);
            let bad = sut_np("tag lookup", 4096, || -> Option<String> {
                match (ExifTag::from_u16(num, &gr), row) {
                    (Ok(t), Some(d)) => {
                        let name = format!("{:?}", t);
                        if name.split('(').next() != Some(d.0) { return Some(format!("is {}, expected {}", name, d.0)); }
                        if t.as_u16() != num { return Some(format!("{} reports number {:04x}", d.0, t.as_u16())); }
                        if t.get_group() != gr { return Some(format!("{} reports group {:?}", d.0, t.get_group())); }
                        if t.format().as_u16() != d.2 { return Some(format!("{} has format {:?}, standard says {}", d.0, t.format(), FNAME[d.2 as usize])); }
                        if t.is_string() != (d.2 == 2) { return Some(format!("{} is_string {}", d.0, t.is_string())); }
                        if t.is_writable() != d.4 { return Some(format!("{} is_writable {}", d.0, t.is_writable())); }
                        if t.is_unknown() || !t.unknown_is_justified() { return Some(format!("{} claims to be unknown", d.0)); }
                        let n = t.number_of_components();
                        let exp = if d.2 == 2 { 1 } else { d.3 };
                        if n != exp { return Some(format!("{} has component count {}, standard says {}", d.0, n, exp)); }
                    }
                    (Ok(t), None) => if !off { return Some(format!("non-standard known tag {:?}", t)); },
                    (Err(_), Some(d)) => return Some(format!("standard tag {} is not known", d.0)),
                    (Err(_), None) => if off { return Some("offset tag not known".into()); },
                }
                // construction from data
                for f in 1..=12u16 { for cnt in 1..=3u32 { for be in [false, true] {
                    let le = if f == 2 { text(0, cnt as usize) } else { pattern(0, (cnt * FSZ[f as usize]) as usize) };
                    let lt = LTag::new(num, g, f, le);
                    if let Some(d) = row { if d.2 != f { continue; } }
                    if off && f != 4 { continue; }
                    let t = match ExifTag::from_u16_with_data(num, &fmt(f), &lt.stored(be), &endian(be), &gr) { Ok(t) => t, Err(e) => return Some(format!("fmt {} count {}: {}", f, cnt, e)) };
                    if t.as_u16() != num || t.format().as_u16() != f || (t.get_group() != gr && !off) { return Some(format!("constructed tag {:?} reports {:04x} {:?} {:?}", t, t.as_u16(), t.format(), t.get_group())); }
                    if off { if t.is_unknown() || !t.is_writable() { return Some(format!("{:?} flags", t)); } continue; }
                    if format!("{:?}", t) != lt.dbg() { return Some(format!("fmt {} count {}: {:?}, expected {}", f, cnt, t, lt.dbg())); }
                    if t.is_unknown() != row.is_none() || !t.unknown_is_justified() || t.is_string() != (f == 2) { return Some(format!("{:?}: is_unknown {} justified {} is_string {}", t, t.is_unknown(), t.unknown_is_justified(), t.is_string())); }
                    if row.is_none() && !t.is_writable() { return Some(format!("{:?} is not writable", t)); }
                    if t.number_of_components() != lt.count() { return Some(format!("{:?} has {} components, expected {}", t, t.number_of_components(), lt.count())); }
                    if t.value_as_u8_vec(&endian(be)) != lt.stored(be) { return Some(format!("{:?} does not give back its bytes", t)); }
                    state(&[&num.to_le_bytes()[..], &[g, f as u8]].concat());
                } } }
                // an unknown variant for a known number is not justified
                let u = ExifTag::UnknownINT8U(vec![1], num, gr);
                if u.unknown_is_justified() != (row.is_none() && !off) || !u.is_unknown() || u.as_u16() != num || u.get_group() != gr { return Some(format!("{:?}: unknown_is_justified {}", u, u.unknown_is_justified())); }
                None
            });
            run().transitions.fetch_add(100, Relaxed);
            trace();
            if let Some(Some(b)) = bad { viol(&format!("C26:{:04x}:{}", num, gname(g)), &format!("tag {:04x} in {}: {}", num, gname(g), b), &[]); }
            sample(|| format!("tag {:04x} in {}: {}", num, gname(g), row.map(|d| d.0).unwrap_or("unknown")));
        }
    });
    // formats
    for f in 0..=0xffffu32 { if f > 12 && f % 997 != 0 && f != 13 && f != 0xffff { continue; } if want(&format!("format {}", f)) {
        let r = sut_np("format lookup", 64, || ExifTagFormat::from_u16(f as u16).map(|x| (x.as_u16(), x.bytes_per_component())));
        if r != Some(if (1..=12).contains(&f) { Some((f as u16, FSZ[f as usize])) } else { None }) { viol("C26:format", &format!("format {}: {:?}", f, r), &[]); }
    } }
}
