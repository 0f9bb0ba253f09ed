//! Independent builders, strict parsers and canonical forms of the container formats (JPEG, PNG, WebP, JPEG XL, TIFF; HEIF in heif.rs)
use crate::spec::*;
use crate::tiffref;
use little_exif::filetype::FileExtension;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum K { Jpg, Png, Webp, Jxl, Heif, Tiff }
pub const KINDS: [K; 6] = [K::Jpg, K::Png, K::Webp, K::Jxl, K::Heif, K::Tiff];
/// all kinds of images, or (for experiments) those named in LEMC_KINDS
pub fn kinds() -> Vec<K> { match std::env::var("LEMC_KINDS") { Ok(s) => KINDS.into_iter().filter(|k| s.contains(k.name())).collect(), Err(_) => KINDS.to_vec() } }
impl K {
    pub fn ext(self) -> FileExtension { match self { K::Jpg => FileExtension::JPEG, K::Png => FileExtension::PNG { as_zTXt_chunk: true }, K::Webp => FileExtension::WEBP, K::Jxl => FileExtension::JXL, K::Heif => FileExtension::HEIF, K::Tiff => FileExtension::TIFF } }
    pub fn suffix(self) -> &'static str { match self { K::Jpg => "jpg", K::Png => "png", K::Webp => "webp", K::Jxl => "jxl", K::Heif => "heic", K::Tiff => "tif" } }
    pub fn name(self) -> &'static str { match self { K::Jpg => "jpeg", K::Png => "png", K::Webp => "webp", K::Jxl => "jxl", K::Heif => "heif", K::Tiff => "tiff" } }
}

/// Everything a metadata operation must keep, in order, plus the EXIF carriers
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Img {
    pub items: Vec<(String, Vec<u8>)>,
    /// EXIF blocks found in carriers (without "Exif\0\0" prefix, without padding)
    pub blocks: Vec<Vec<u8>>,
    /// position (index into the item list) in front of which each carrier stands
    pub at: Vec<usize>,
    /// container plumbing that may be added once: (label, bytes)
    pub plumb: Vec<(String, Vec<u8>)>,
    /// violations of the format's rules that depend on the EXIF carrier (e.g. the WebP flag)
    pub flaws: Vec<String>,
}
pub type R<T> = Result<T, String>;
pub fn parse(k: K, b: &[u8]) -> R<Img> {
    match k { K::Jpg => jpg_parse(b), K::Png => png_parse(b), K::Webp => webp_parse(b), K::Jxl => jxl_parse(b), K::Heif => crate::heif::parse(b), K::Tiff => tiff_parse(b) }
}
/// first difference of two item lists
pub fn item_diff(a: &[(String, Vec<u8>)], b: &[(String, Vec<u8>)]) -> Option<String> {
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if x == y => (),
            (Some(x), Some(y)) => return Some(format!("item {} was {} [{}] and is now {} [{}]", i, x.0, short(&x.1), y.0, short(&y.1))),
            (Some(x), None) => return Some(format!("item {} lost: {} [{}]", i, x.0, short(&x.1))),
            (None, Some(y)) => return Some(format!("item {} appeared: {} [{}]", i, y.0, short(&y.1))),
            _ => (),
        }
    }
    None
}
pub fn short(b: &[u8]) -> String { let mut s: String = b.iter().take(48).map(|x| format!("{:02x}", x)).collect(); if b.len() > 48 { s.push_str(&format!("..{}B", b.len())) } s }
pub fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }
pub fn be16(b: &[u8], o: usize) -> R<usize> { b.get(o..o + 2).map(|x| u16::from_be_bytes(x.try_into().unwrap()) as usize).ok_or_else(|| format!("truncated at {}", o)) }
pub fn be32(b: &[u8], o: usize) -> R<usize> { b.get(o..o + 4).map(|x| u32::from_be_bytes(x.try_into().unwrap()) as usize).ok_or_else(|| format!("truncated at {}", o)) }
pub fn be64(b: &[u8], o: usize) -> R<u64> { b.get(o..o + 8).map(|x| u64::from_be_bytes(x.try_into().unwrap())).ok_or_else(|| format!("truncated at {}", o)) }
pub fn le32(b: &[u8], o: usize) -> R<usize> { b.get(o..o + 4).map(|x| u32::from_le_bytes(x.try_into().unwrap()) as usize).ok_or_else(|| format!("truncated at {}", o)) }

/// metadata of the "old" EXIF data placed in seeds; its strings are searched for after clearing
pub const OLD: &str = "OLDMETA-secret";
pub fn old_meta(be: bool, salt: usize) -> LMeta {
    let mut m = LMeta::new(be);
    m.put(0, LTag::s(0x10f, 0, &format!("{}{}", OLD, "x".repeat(salt))));
    m.put(0, LTag::u16s(0x112, 0, &[6]));
    m.put(0, LTag::rat(0x829a, 1, &[(1, 250)]));
    m.put(0, LTag::s(0xa430, 1, OLD));
    // a thumbnail directory that repeats tags of the first, and has one more
    if salt == 2 { m.put(1, LTag::u16s(0x112, 0, &[3])); m.put(1, LTag::rat(0x11b, 0, &[(31, 1)])); m.put(1, LTag::u16s(0x103, 0, &[6])); }
    m
}
pub fn old_block(be: bool, salt: usize) -> Vec<u8> { tiffref::plain(&old_meta(be, salt)) }
pub fn exif_hdr(b: &[u8]) -> Vec<u8> { let mut v = b"Exif\0\0".to_vec(); v.extend(b); v }

// ================================================================================================ JPEG
pub fn seg(m: u8, p: &[u8]) -> Vec<u8> { let mut v = vec![0xff, m]; v.extend(((p.len() + 2) as u16).to_be_bytes()); v.extend(p); v }
/// Strict marker walk. Lenient only where T.81 and deployed files are: missing EOI is an error, data after EOI is allowed.
pub fn jpg_parse(b: &[u8]) -> R<Img> {
    if !b.starts_with(&[0xff, 0xd8]) { return Err("no SOI".into()); }
    let mut img = Img::default();
    let mut p = 2;
    loop {
        if b.get(p) != Some(&0xff) { return Err(format!("expected a marker at {}, found {:?}", p, b.get(p))); }
        while b.get(p + 1) == Some(&0xff) { img.items.push(("fill byte".into(), vec![0xff])); p += 1; }
        let start = p;
        let m = *b.get(p + 1).ok_or("truncated marker")?;
        p += 2;
        match m {
            0xd9 => { img.items.push(("EOI".into(), b[start..p].to_vec())); break; }
            0x01 => { img.items.push(("TEM".into(), b[start..p].to_vec())); continue; }
            0x00 | 0xd0..=0xd8 => return Err(format!("unexpected marker ff{:02x} at {}", m, start)),
            _ => (),
        }
        let l = be16(b, p)?;
        if l < 2 { return Err(format!("segment ff{:02x} at {} has length {}", m, start, l)); }
        let pay = b.get(p + 2..p + l).ok_or_else(|| format!("segment ff{:02x} at {} exceeds the file", m, start))?;
        p += l;
        if m == 0xe1 && pay.starts_with(b"Exif\0\0") {
            img.at.push(img.items.len());
            img.blocks.push(pay[6..].to_vec());
        } else { img.items.push((format!("ff{:02x}", m), b[start..p].to_vec())); }
        if m == 0xda {
            let s = p;
            loop {
                match (b.get(p), b.get(p + 1)) {
                    (Some(0xff), Some(0x00)) | (Some(0xff), Some(0xd0..=0xd7)) => p += 2,
                    (Some(0xff), Some(_)) => break,
                    (Some(_), _) => p += 1,
                    _ => return Err("entropy-coded data runs to the end of the file".into()),
                }
            }
            img.items.push(("ECS".into(), b[s..p].to_vec()));
        }
    }
    if p < b.len() { img.items.push(("after EOI".into(), b[p..].to_vec())); }
    Ok(img)
}
pub fn jpg_alphabet() -> Vec<(&'static str, Vec<u8>)> {
    let old = old_block(false, 0);
    vec![
        ("JFIF", seg(0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0")),
        ("EXIF", seg(0xe1, &exif_hdr(&old))),
        ("XMP", seg(0xe1, b"http://ns.adobe.com/xap/1.0/\0<x:xmpmeta/>")),
        ("APP12", seg(0xec, b"Ducky\0\x01\0\x04\0\0\0\x3c\0\0")),
        ("APP13", seg(0xed, b"Photoshop 3.0\0" )),
        ("COM", seg(0xfe, b"\xff\xd8\xff\xe1\0\x10Exif\0\0\xff\xd9\xff\xda")),
        ("fCOM", { let mut v = vec![0xff, 0xff, 0xff]; v.extend(seg(0xfe, b"fill")); v }),
        ("APP1e", seg(0xe1, b"")),
        ("APP1x", seg(0xe1, b"Exif")),
        ("APP2", seg(0xe2, b"ICC_PROFILE\0\x01\x01\xff\xec\0\x04\xff\xed")),
        ("fEXIF", { let mut v = vec![0xff, 0xff]; v.extend(seg(0xe1, &exif_hdr(&old_block(true, 3)))); v }),
        ("EXIF0", seg(0xe1, b"Exif\0\0")),
        ("fAPP12", { let mut v = vec![0xff]; v.extend(seg(0xec, b"")); v }),
        ("APP14", seg(0xee, b"Adobe\0\x64\0\0\0\0\0")),
        ("DRI", seg(0xdd, &[0, 4])),
        ("XMPext", seg(0xe1, b"http://ns.adobe.com/xmp/extension/\0Exif\0\0II*\0")),
        ("big", seg(0xe5, &[0xff, 0xd9].repeat(32767)[..65533])),
        ("half", seg(0xe6, &[0xff, 0xda, 0, 2].repeat(8192)[..])),
        ("TEM", vec![0xff, 1]),
    ]
}
fn dqt() -> Vec<u8> { let mut p = vec![0u8]; p.extend([1u8; 64]); seg(0xdb, &p) }
fn dht() -> Vec<u8> { let mut p = vec![0u8, 0, 1]; p.extend([0u8; 14]); p.push(0); seg(0xc4, &p) }
fn sof(n: u8) -> Vec<u8> { seg(n, &[8, 0, 8, 0, 8, 1, 1, 0x11, 0]) }
fn sos() -> Vec<u8> { seg(0xda, &[1, 1, 0, 0, 63, 0]) }
pub fn jpg_bodies() -> Vec<(&'static str, Vec<u8>)> {
    let old = seg(0xe1, &exif_hdr(&old_block(false, 1)));
    let base = [dqt(), sof(0xc0), dht(), sos()].concat();
    let a12 = seg(0xec, b"mid12"); let a13 = seg(0xed, b"mid13");
    let eoi = vec![0xff, 0xd9];
    vec![
        ("plain", [base.clone(), vec![0x12, 0x34, 0xff, 0x00, 0xe1, 0x56], eoi.clone()].concat()),
        ("rst", [base.clone(), vec![0x12, 0xff, 0xd0, 0x34, 0xff, 0xd7, 0xff, 0x00, 0xff, 0x00, 0xd9], eoi.clone()].concat()),
        ("fillEOI", [base.clone(), vec![0x12, 0xff], eoi.clone()].concat()),
        ("emptyecs", [base.clone(), eoi.clone()].concat()),
        ("prog", [dqt(), sof(0xc2), dht(), sos(), vec![0x77, 0xff, 0], dht(), seg(0xfe, b"between"), sos(), vec![0x78, 0xff, 0xd1, 0x01], eoi.clone()].concat()),
        ("progexif", [dqt(), sof(0xc2), dht(), sos(), vec![0x77, 0xff, 0], old.clone(), dht(), sos(), vec![0x78], eoi.clone()].concat()),
        ("progapp", [dqt(), sof(0xc2), dht(), sos(), vec![0x77], a12, a13, sos(), vec![0x78], eoi.clone()].concat()),
        ("dnl", [dqt(), sof(0xc2), dht(), sos(), vec![0x77, 0xff, 0], seg(0xdc, &[0xff, 0xe1]), old.clone(), dht(), sos(), vec![0x78, 0xff, 0xd1, 0x01], eoi.clone()].concat()),
    ]
}
pub fn jpg_tails() -> Vec<(&'static str, Vec<u8>)> {
    let a = seg(0xe1, b"Exif\0\0keepme"); let b12 = seg(0xec, b"tail12");
    vec![
        ("", vec![]), ("zero", vec![0]), ("mpf", [vec![0xff, 0xd8], a, b12, sos(), vec![1, 0xff, 0xd9]].concat()), ("ff", vec![0xff, 0xff, 0xff]), ("long", vec![0x41; 300]),
    ]
}
pub fn jpg_join(pre: &[&[u8]], body: &[u8], tail: &[u8]) -> Vec<u8> { let mut v = vec![0xff, 0xd8]; for p in pre { v.extend(*p) } v.extend(body); v.extend(tail); v }
/// all header segment sequences of length <= n over the first `m` letters, times bodies and tails
pub fn jpg_seeds(n: usize, m: usize, nb: usize, nt: usize) -> Vec<(String, Vec<u8>)> {
    let al = jpg_alphabet(); let al = &al[..m.min(al.len())];
    let mut out = vec![];
    for (bn, body) in jpg_bodies().iter().take(nb) { for (tn, tail) in jpg_tails().iter().take(nt) {
        for seq in seqs(al.len(), n) {
            let pre: Vec<&[u8]> = seq.iter().map(|i| &al[*i].1[..]).collect();
            out.push((format!("jpg[{}|{}|{}]", seq.iter().map(|i| al[*i].0).collect::<Vec<_>>().join(" "), bn, tn), jpg_join(&pre, body, tail)));
        }
    } }
    out
}
/// all sequences over 0..m of length 0..=n
pub fn seqs(m: usize, n: usize) -> Vec<Vec<usize>> {
    let mut out: Vec<Vec<usize>> = vec![vec![]];
    let mut lo = 0;
    for _ in 0..n { let hi = out.len(); for i in lo..hi { for c in 0..m { let mut s = out[i].clone(); s.push(c); out.push(s); } } lo = hi; }
    out
}

// ================================================================================================ PNG
pub const PNG_SIG: [u8; 8] = [0x89, b'P', b'N', b'G', 13, 10, 26, 10];
pub fn crc32(b: &[u8]) -> u32 { let mut c = !0u32; for x in b { c ^= *x as u32; for _ in 0..8 { c = if c & 1 != 0 { (c >> 1) ^ 0xedb88320 } else { c >> 1 } } } !c }
pub fn chunk(t: &[u8; 4], d: &[u8]) -> Vec<u8> { let mut v = (d.len() as u32).to_be_bytes().to_vec(); let mut x = t.to_vec(); x.extend(d); let c = crc32(&x); v.extend(x); v.extend(c.to_be_bytes()); v }
pub fn deflate(b: &[u8], level: u8) -> Vec<u8> { miniz_oxide::deflate::compress_to_vec_zlib(b, level) }
pub fn inflate(b: &[u8]) -> R<Vec<u8>> { miniz_oxide::inflate::decompress_to_vec_zlib(b).map_err(|e| format!("bad zlib data: {:?}", e.status)) }
pub fn hex_profile(name: &str, b: &[u8], width: usize) -> Vec<u8> {
    let mut s = format!("\n{}\n{:8}", name, b.len());
    for (i, x) in b.iter().enumerate() { if i % width == 0 { s.push('\n') } s.push_str(&format!("{:02x}", x)); }
    s.push('\n');
    s.into_bytes()
}
/// A decoded text chunk
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Text { pub typ: [u8; 4], pub kw: Vec<u8>, pub compressed: bool, pub lang: Vec<u8>, pub tkw: Vec<u8>, pub text: Vec<u8> }
pub fn text_parse(typ: &[u8; 4], d: &[u8]) -> R<Text> {
    let z = d.iter().position(|x| *x == 0).ok_or("text chunk without keyword terminator")?;
    let kw = d[..z].to_vec(); let r = &d[z + 1..];
    let mut t = Text { typ: *typ, kw, compressed: false, lang: vec![], tkw: vec![], text: vec![] };
    match typ {
        b"tEXt" => t.text = r.to_vec(),
        b"zTXt" => { if r.first() != Some(&0) { return Err("zTXt: unknown compression method".into()); } t.compressed = true; t.text = inflate(&r[1..])?; }
        _ => {
            if r.len() < 2 || r[0] > 1 || r[1] != 0 { return Err("iTXt: bad compression flag or method".into()); }
            t.compressed = r[0] == 1;
            let r = &r[2..]; let a = r.iter().position(|x| *x == 0).ok_or("iTXt: language not terminated")?;
            t.lang = r[..a].to_vec(); let r = &r[a + 1..];
            let a = r.iter().position(|x| *x == 0).ok_or("iTXt: translated keyword not terminated")?;
            t.tkw = r[..a].to_vec(); let r = &r[a + 1..];
            t.text = if t.compressed { inflate(r)? } else { r.to_vec() };
        }
    }
    Ok(t)
}
pub fn text_build(t: &Text, level: u8) -> Vec<u8> {
    let mut d = t.kw.clone(); d.push(0);
    match &t.typ {
        b"tEXt" => d.extend(&t.text),
        b"zTXt" => { d.push(0); d.extend(deflate(&t.text, level)); }
        _ => { d.push(t.compressed as u8); d.push(0); d.extend(&t.lang); d.push(0); d.extend(&t.tkw); d.push(0); if t.compressed { d.extend(deflate(&t.text, level)) } else { d.extend(&t.text) } }
    }
    chunk(&t.typ, &d)
}
pub const RAW: &[u8] = b"Raw profile type exif";
pub const XMPKW: &[u8] = b"XML:com.adobe.xmp";
pub fn png_chunks(b: &[u8]) -> R<(Vec<([u8; 4], Vec<u8>, std::ops::Range<usize>)>, usize)> {
    if !b.starts_with(&PNG_SIG) { return Err("no PNG signature".into()); }
    let mut p = 8; let mut v = vec![];
    loop {
        let l = be32(b, p)?;
        let end = p.checked_add(12 + l).filter(|e| *e <= b.len()).ok_or_else(|| format!("chunk at {} exceeds the file", p))?;
        let t: [u8; 4] = b[p + 4..p + 8].try_into().unwrap();
        if !t.iter().all(|x| x.is_ascii_alphabetic()) { return Err(format!("bad chunk type {:?}", t)); }
        if crc32(&b[p + 4..p + 8 + l]) as usize != be32(b, p + 8 + l)? { return Err(format!("bad CRC of {} at {}", String::from_utf8_lossy(&t), p)); }
        v.push((t, b[p + 8..p + 8 + l].to_vec(), p..end));
        p = end;
        if &t == b"IEND" { return Ok((v, p)); }
    }
}
fn raw_block(text: &[u8]) -> R<Vec<u8>> {
    let mut l = text.split(|c| *c == b'\n').filter(|l| !l.is_empty());
    let name = l.next().ok_or("raw profile: no name")?;
    if name != b"exif" { return Err(format!("raw profile name is {:?}", String::from_utf8_lossy(name))); }
    let n: usize = l.next().and_then(|x| std::str::from_utf8(x).ok()).and_then(|x| x.trim().parse().ok()).ok_or("raw profile: no length")?;
    let hex: Vec<u8> = l.flatten().copied().filter(|c| !c.is_ascii_whitespace()).collect();
    if hex.len() != 2 * n { return Err(format!("raw profile: stated length {} but {} hex digits", n, hex.len())); }
    let by: Vec<u8> = hex.chunks(2).map(|c| u8::from_str_radix(std::str::from_utf8(c).unwrap_or("?"), 16).map_err(|_| "raw profile: bad hex digit".to_string())).collect::<R<_>>()?;
    Ok(by.strip_prefix(b"Exif\0\0").unwrap_or(&by).to_vec())
}
pub fn png_parse(b: &[u8]) -> R<Img> {
    let (cs, end) = png_chunks(b)?;
    let mut img = Img::default();
    if &cs[0].0 != b"IHDR" || cs[0].1.len() != 13 { return Err("first chunk is not IHDR".into()); }
    let idat: Vec<usize> = cs.iter().enumerate().filter(|(_, c)| &c.0 == b"IDAT").map(|x| x.0).collect();
    if idat.is_empty() { return Err("no IDAT".into()); }
    if idat.last().unwrap() - idat[0] + 1 != idat.len() { return Err("IDAT chunks are not consecutive".into()); }
    for (t, d, r) in &cs {
        if t == b"eXIf" { img.at.push(img.items.len()); img.blocks.push(d.clone()); continue; }
        if matches!(t, b"tEXt" | b"zTXt" | b"iTXt") {
            let kw = d.split(|x| *x == 0).next().unwrap_or(&[]);
            if kw == RAW {
                let tx = text_parse(t, d)?;
                img.at.push(img.items.len());
                img.blocks.push(raw_block(&tx.text)?);
                continue;
            }
            if kw == XMPKW {
                // canonical content with EXIF removed; untouched when it cannot be parsed
                if let Ok(tx) = text_parse(t, d) {
                    if let Ok(x) = crate::xml::loose(&tx.text) {
                        img.items.push((format!("XMP in {} compressed={}", String::from_utf8_lossy(t), tx.compressed), [&tx.kw[..], b"|", &tx.lang, b"|", &tx.tkw, b"|", &x].concat()));
                        continue;
                    }
                }
            }
        }
        img.items.push((String::from_utf8_lossy(t).to_string(), b[r.clone()].to_vec()));
    }
    if end < b.len() { img.items.push(("after IEND".into(), b[end..].to_vec())); }
    Ok(img)
}
pub const XMP_NO: &str = "<?xpacket begin=\"\u{feff}\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n<x:xmpmeta xmlns:x=\"adobe:ns:meta/\">\n <rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about='' xmlns:dc=\"http://purl.org/dc/elements/1.1/\" dc:format = \"image/png\">\n   <dc:title>a &amp; b &#x41;</dc:title><!-- exif:No -->\n  </rdf:Description>\n </rdf:RDF>\n</x:xmpmeta>\n<?xpacket end=\"w\"?>";
pub const XMP_EX: &str = "<x:xmpmeta xmlns:x=\"adobe:ns:meta/\">\n <rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"\" xmlns:exif='http://ns.adobe.com/exif/1.0/' xmlns:tiff=\"http://ns.adobe.com/tiff/1.0/\" exif:ExposureTime=\"OLDMETA-secret\" tiff:Make='keep > this'>\n   <exif:ISOSpeedRatings>\n    <rdf:Seq>\n     <rdf:li>OLDMETA-secret</rdf:li>\n    </rdf:Seq>\n   </exif:ISOSpeedRatings>\n   <tiff:Model>keep</tiff:Model>\n   <exif:Flash exif:Fired=\"True\"/>\n  </rdf:Description>\n </rdf:RDF>\n</x:xmpmeta>\n";
pub fn ihdr() -> Vec<u8> { chunk(b"IHDR", &[0, 0, 0, 1, 0, 0, 0, 1, 8, 3, 0, 0, 0]) }
fn tx(typ: &[u8; 4], kw: &[u8], comp: bool, text: &[u8]) -> Vec<u8> { text_build(&Text { typ: *typ, kw: kw.to_vec(), compressed: comp, lang: b"en-us".to_vec(), tkw: "Übersetzt".as_bytes().to_vec(), text: text.to_vec() }, 6) }
pub fn png_alphabet() -> Vec<(&'static str, Vec<u8>)> {
    let old = old_block(false, 0); let oldb = old_block(true, 1);
    let raw = hex_profile("exif", &exif_hdr(&old), 36);
    let raw2 = hex_profile("exif", &oldb, 32);
    vec![
        ("eXIf", chunk(b"eXIf", &oldb)),
        ("zRaw", tx(b"zTXt", RAW, true, &raw)),
        ("tTitle", tx(b"tEXt", b"Title", false, b"Raw profile type exif\0II*\0")),
        ("iXmp", tx(b"iTXt", XMPKW, false, XMP_NO.as_bytes())),
        ("iXmpE", tx(b"iTXt", XMPKW, false, XMP_EX.as_bytes())),
        ("tRaw", tx(b"tEXt", RAW, false, &raw2)),
        ("zDesc", tx(b"zTXt", b"Description", true, b"some text, some text, some text")),
        ("gAMA", chunk(b"gAMA", &[0, 0, 0xb1, 0x8f])),
        ("iRawC", tx(b"iTXt", RAW, true, &raw)),
        ("unk", chunk(b"prVt", b"eXIf")),
        ("izXmpE", tx(b"iTXt", XMPKW, true, XMP_EX.as_bytes())),
        ("zXmpE", tx(b"zTXt", XMPKW, true, XMP_EX.as_bytes())),
        ("tXmpE", tx(b"tEXt", XMPKW, false, XMP_EX.as_bytes())),
        ("badXmp", tx(b"iTXt", XMPKW, false, b"<x:xmpmeta><exif:A>1</exif:B")),
        ("iComm", tx(b"iTXt", b"Comment", true, "ünïcode".as_bytes())),
        ("tRawlike", tx(b"tEXt", b"Raw profile type exif2", false, &raw2)),
        ("tRawxmp", tx(b"tEXt", b"Raw profile type xmp", false, b"\nxmp\n       2\n4142\n")),
        ("tIME", chunk(b"tIME", &[7, 0xea, 1, 1, 1, 1, 1])),
        ("empty", chunk(b"tEXt", b"Software\0")),
        ("acTL", chunk(b"acTL", &[0, 0, 0, 1, 0, 0, 0, 0])),
        ("exIf", chunk(b"exIf", b"private")),
        ("iXmpEl", text_build(&Text { typ: *b"iTXt", kw: XMPKW.to_vec(), compressed: false, lang: b"x-default".to_vec(), tkw: vec![], text: XMP_EX.as_bytes().to_vec() }, 6)),
        ("iRawt", text_build(&Text { typ: *b"iTXt", kw: RAW.to_vec(), compressed: true, lang: vec![], tkw: b"Profil".to_vec(), text: raw.clone() }, 6)),
        ("iRawl", text_build(&Text { typ: *b"iTXt", kw: RAW.to_vec(), compressed: false, lang: b"de".to_vec(), tkw: vec![], text: raw2.clone() }, 6)),
    ]
}
pub fn png_join(pre: &[&[u8]], idats: usize, post: &[&[u8]], tail: &[u8]) -> Vec<u8> {
    let mut v = PNG_SIG.to_vec(); v.extend(ihdr());
    for p in pre { v.extend(*p) }
    v.extend(chunk(b"PLTE", &[1, 2, 3]));
    let z = deflate(&[0, 0], 6);
    for i in 0..idats { let a = z.len() * i / idats; let b = z.len() * (i + 1) / idats; v.extend(chunk(b"IDAT", &z[a..b])); }
    for p in post { v.extend(*p) }
    v.extend(chunk(b"IEND", b"")); v.extend(tail); v
}
pub fn png_seeds(npre: usize, npost: usize, m: usize, tails: usize) -> Vec<(String, Vec<u8>)> {
    let al = png_alphabet(); let al = &al[..m.min(al.len())];
    let mut out = vec![];
    let tl: [(&str, &[u8]); 3] = [("", b""), ("tail", b"trailing"), ("exiftail", b"\0\0\0\x04eXIfII*\0")];
    for pre in seqs(al.len(), npre) { for post in seqs(al.len(), npost) { for idats in [1usize, 3] { for (tn, t) in tl.iter().take(tails) {
        if idats == 3 && pre.len() + post.len() > 1 { continue; }
        if pre.len() + post.len() > npre.max(npost) { continue; }
        let f = |s: &Vec<usize>| s.iter().map(|i| al[*i].0).collect::<Vec<_>>().join(" ");
        let a: Vec<&[u8]> = pre.iter().map(|i| &al[*i].1[..]).collect(); let c: Vec<&[u8]> = post.iter().map(|i| &al[*i].1[..]).collect();
        out.push((format!("png[{}|{}|{}|{}]", f(&pre), idats, f(&post), tn), png_join(&a, idats, &c, t)));
    } } } }
    out
}

// ================================================================================================ WebP
pub fn riff(t: &[u8; 4], d: &[u8]) -> Vec<u8> { let mut v = t.to_vec(); v.extend((d.len() as u32).to_le_bytes()); v.extend(d); if d.len() % 2 == 1 { v.push(0) } v }
pub fn vp8(w: u16, h: u16, extra: usize) -> Vec<u8> { let mut d = vec![0x10, 0x02, 0x00, 0x9d, 0x01, 0x2a]; d.extend(w.to_le_bytes()); d.extend(h.to_le_bytes()); d.extend((0..extra).map(|i| i as u8)); riff(b"VP8 ", &d) }
pub fn vp8l(w: u32, h: u32, alpha: bool, extra: usize) -> Vec<u8> { let bits = (w - 1) | (h - 1) << 14 | (alpha as u32) << 28; let mut d = vec![0x2f]; d.extend(bits.to_le_bytes()); d.extend((0..extra).map(|i| 0x80 | i as u8)); riff(b"VP8L", &d) }
pub fn vp8x(flags: u8, w: u32, h: u32) -> Vec<u8> { let mut d = vec![flags, 0, 0, 0]; d.extend(&(w - 1).to_le_bytes()[..3]); d.extend(&(h - 1).to_le_bytes()[..3]); riff(b"VP8X", &d) }
pub fn webp_join(chunks: &[Vec<u8>]) -> Vec<u8> { let body: Vec<u8> = chunks.concat(); let mut v = b"RIFF".to_vec(); v.extend(((body.len() + 4) as u32).to_le_bytes()); v.extend(b"WEBP"); v.extend(body); v }
pub fn webp_chunks(b: &[u8]) -> R<Vec<([u8; 4], Vec<u8>, std::ops::Range<usize>)>> {
    if b.len() < 12 || &b[..4] != b"RIFF" || &b[8..12] != b"WEBP" { return Err("no RIFF/WEBP header".into()); }
    if le32(b, 4)? + 8 != b.len() { return Err(format!("RIFF size {} but file has {} bytes", le32(b, 4)?, b.len())); }
    let mut p = 12; let mut v = vec![];
    while p < b.len() {
        let t: [u8; 4] = b.get(p..p + 4).ok_or("truncated chunk header")?.try_into().unwrap();
        let l = le32(b, p + 4)?;
        let end = p + 8 + l + l % 2;
        if end > b.len() { return Err(format!("chunk {} at {} exceeds the file", String::from_utf8_lossy(&t), p)); }
        if l % 2 == 1 && b[end - 1] != 0 { return Err(format!("padding of chunk {} is not zero", String::from_utf8_lossy(&t))); }
        v.push((t, b[p + 8..p + 8 + l].to_vec(), p..end));
        p = end;
    }
    Ok(v)
}
pub fn webp_parse(b: &[u8]) -> R<Img> {
    let cs = webp_chunks(b)?;
    let mut img = Img::default();
    let exif = cs.iter().any(|c| &c.0 == b"EXIF");
    let mut dims: Option<(u32, u32, bool)> = None; // from the bitstream
    let (mut has_x, mut alph) = (false, false);
    for (i, (t, d, r)) in cs.iter().enumerate() {
        match t {
            b"EXIF" => { img.at.push(img.items.len()); img.blocks.push(d.strip_prefix(b"Exif\0\0").unwrap_or(d).to_vec()); continue; }
            b"VP8X" => {
                if i != 0 { return Err("VP8X is not the first chunk".into()); }
                if d.len() != 10 { return Err("VP8X has a wrong size".into()); }
                has_x = true;
                if (d[0] & 8 != 0) != exif { img.flaws.push(format!("VP8X EXIF flag is {} but an EXIF chunk is {}", d[0] & 8 != 0, if exif { "present" } else { "absent" })); }
                let mut x = b[r.clone()].to_vec(); x[8] &= !8;
                img.plumb.push(("VP8X".into(), x));
                continue;
            }
            b"VP8 " => { if d.len() >= 10 && d[3..6] == [0x9d, 1, 0x2a] { dims = Some(((d[6] as u32 | (d[7] as u32) << 8) & 0x3fff, (d[8] as u32 | (d[9] as u32) << 8) & 0x3fff, false)); } }
            b"VP8L" => { if d.len() >= 5 { let v = u32::from_le_bytes(d[1..5].try_into().unwrap()); dims = Some(((v & 0x3fff) + 1, (v >> 14 & 0x3fff) + 1, v >> 28 & 1 == 1)); } }
            b"ALPH" => alph = true,
            _ => (),
        }
        img.items.push((String::from_utf8_lossy(t).to_string(), b[r.clone()].to_vec()));
    }
    if exif && !has_x { img.flaws.push("EXIF chunk in a file without VP8X".into()); }
    if has_x { if let Some((w, h, a)) = dims {
        let x = &img.plumb[0].1; let cw = 1 + (x[12] as u32 | (x[13] as u32) << 8 | (x[14] as u32) << 16); let ch = 1 + (x[15] as u32 | (x[16] as u32) << 8 | (x[17] as u32) << 16);
        if (cw, ch) != (w, h) { img.flaws.push(format!("VP8X canvas {}x{} but the image is {}x{}", cw, ch, w, h)); }
        if (x[8] & 0x10 != 0) != (a || alph) { img.flaws.push(format!("VP8X alpha flag {} but the image alpha is {}", x[8] & 0x10 != 0, a || alph)); }
    } }
    Ok(img)
}
pub fn webp_seeds(level: usize) -> Vec<(String, Vec<u8>)> {
    let old = riff(b"EXIF", &old_block(false, 0)); let oldp = riff(b"EXIF", &exif_hdr(&old_block(true, 1))); let xmp = riff(b"XMP ", b"<x:xmpmeta/>!"); let icc = riff(b"ICCP", b"profile-odd"); let unk = riff(b"exif", b"odd");
    let unk2 = riff(b"UNKN", b"EXIF\x08\0\0\0II*\0");
    let mut out: Vec<(String, Vec<u8>)> = vec![];
    let dims: &[(u32, u32)] = if level > 0 { &[(1, 1), (2, 1), (256, 255), (257, 4097), (16383, 1), (1, 16383), (16383, 16383), (8192, 8193)] } else { &[(1, 1), (257, 4097), (16383, 16383)] };
    for (w, h) in dims {
        for ex in [0usize, 1, 7] {
            out.push((format!("webp[VP8 {}x{}+{}]", w, h, ex), webp_join(&[vp8(*w as u16, *h as u16, ex)])));
            for a in [false, true] { out.push((format!("webp[VP8L {}x{} a={} +{}]", w, h, a, ex), webp_join(&[vp8l(*w, *h, a, ex)]))); }
        }
    }
    // scale bits in the upper two bits of the VP8 dimensions
    out.push(("webp[VP8 scaled]".into(), webp_join(&[vp8(0x4000 | 300, 0x8000 | 200, 3)])));
    out.push(("webp[VP8L VP8 version bits]".into(), { let mut c = vp8l(9, 7, false, 2); c[8 + 4] |= 0; webp_join(&[c]) }));
    // extended: bitstream variants x metadata chunks around them
    let images: Vec<(&str, u8, Vec<Vec<u8>>)> = vec![
        ("VP8", 0, vec![vp8(30, 20, 3)]),
        ("ALPH+VP8", 0x10, vec![riff(b"ALPH", b"alp"), vp8(30, 20, 2)]),
        ("VP8La", 0x10, vec![vp8l(30, 20, true, 4)]),
        ("ANIM", 0x02, vec![riff(b"ANIM", &[0, 0, 0, 0, 0, 0]), riff(b"ANMF", &[[0u8; 16].to_vec(), vp8(30, 20, 1)].concat()), riff(b"ANMF", &[[0u8; 16].to_vec(), riff(b"EXIF", b"no"), vp8(30, 20, 2)].concat())]),
    ];
    let tails: Vec<(&str, u8, Vec<u8>)> = vec![("EXIF", 8, old.clone()), ("XMP", 4, xmp.clone()), ("EXIFp", 8, oldp.clone()), ("unk", 0, unk.clone()), ("unk2", 0, unk2.clone()), ("EXIF0", 8, riff(b"EXIF", b""))];
    let pre: Vec<(&str, u8, Vec<u8>)> = vec![("ICCP", 0x20, icc), ("EXIFpre", 8, old.clone()), ("unkpre", 0, unk2.clone())];
    for (inm, ifl, im) in &images {
        for p in seqs(pre.len(), if level > 1 { 2 } else { 1 }) { for t in seqs(tails.len(), if level > 1 { 4 } else { 2 + level }) {
            let mut fl = *ifl; let mut cs: Vec<Vec<u8>> = vec![]; let mut nm = vec![];
            for i in &p { fl |= pre[*i].1; nm.push(pre[*i].0); cs.push(pre[*i].2.clone()); }
            cs.extend(im.iter().cloned()); nm.push(inm);
            for i in &t { fl |= tails[*i].1; nm.push(tails[*i].0); cs.push(tails[*i].2.clone()); }
            let mut v = vec![vp8x(fl, 30, 20)]; v.extend(cs.iter().cloned());
            out.push((format!("webp[X {}]", nm.join(" ")), webp_join(&v)));
            if p.len() + t.len() == 1 {
                // EXIF flag lying in either direction; reserved bits set
                let mut v = vec![vp8x(fl ^ 8, 30, 20)]; v.extend(cs.iter().cloned());
                out.push((format!("webp[Xflip {}]", nm.join(" ")), webp_join(&v)));
                let mut x = vp8x(fl, 30, 20); x[8] |= 0xc1; x[9] = 0xff; x[11] = 1; let mut v = vec![x]; v.extend(cs);
                out.push((format!("webp[Xres {}]", nm.join(" ")), webp_join(&v)));
            }
        } }
    }
    out
}

// ================================================================================================ JPEG XL
pub const JXL_SIG: [u8; 12] = [0, 0, 0, 0xc, b'J', b'X', b'L', b' ', 0xd, 0xa, 0x87, 0xa];
pub fn bx(t: &[u8; 4], d: &[u8]) -> Vec<u8> { let mut v = ((d.len() + 8) as u32).to_be_bytes().to_vec(); v.extend(t); v.extend(d); v }
pub fn bx64(t: &[u8; 4], d: &[u8]) -> Vec<u8> { let mut v = vec![0, 0, 0, 1]; v.extend(t); v.extend(((d.len() + 16) as u64).to_be_bytes()); v.extend(d); v }
pub fn bx0(t: &[u8; 4], d: &[u8]) -> Vec<u8> { let mut v = vec![0, 0, 0, 0]; v.extend(t); v.extend(d); v }
pub struct Bx { pub t: [u8; 4], pub hdr: usize, pub r: std::ops::Range<usize>, pub to_end: bool }
pub fn boxes(b: &[u8], base: usize) -> R<Vec<Bx>> {
    let mut p = 0; let mut v = vec![];
    while p < b.len() {
        let l = be32(b, p)?; let t: [u8; 4] = b.get(p + 4..p + 8).ok_or("truncated box header")?.try_into().unwrap();
        let (l, hdr, to_end) = match l { 0 => (b.len() - p, 8, true), 1 => (usize::try_from(be64(b, p + 8)?).unwrap_or(usize::MAX), 16, false), l => (l, 8, false) };
        if l < hdr || l > b.len() - p { return Err(format!("box {} at {} has size {} of {} available", String::from_utf8_lossy(&t), base + p, l, b.len() - p)); }
        v.push(Bx { t, hdr, r: base + p..base + p + l, to_end });
        p += l;
    }
    Ok(v)
}
fn jxl_exif(d: &[u8]) -> R<Vec<u8>> { let o = be32(d, 0)?; d.get(4 + o..).map(|x| x.strip_prefix(b"Exif\0\0").unwrap_or(x).to_vec()).ok_or_else(|| "Exif box: TIFF offset outside the box".into()) }
pub fn jxl_parse(b: &[u8]) -> R<Img> {
    let mut img = Img::default();
    if b.starts_with(&[0xff, 0x0a]) { img.items.push(("codestream".into(), b.to_vec())); return Ok(img); }
    if !b.starts_with(&JXL_SIG) { return Err("no JXL signature box".into()); }
    let bs = boxes(b, 0)?;
    if bs.len() < 2 || &bs[1].t != b"ftyp" { return Err("second box is not ftyp".into()); }
    for (i, x) in bs.iter().enumerate() {
        let d = &b[x.r.start + x.hdr..x.r.end];
        let carrier = if &x.t == b"Exif" { Some(jxl_exif(d)?) } else if &x.t == b"brob" && d.starts_with(b"Exif") {
            let mut o = vec![]; brotli::BrotliDecompress(&mut &d[4..], &mut o).map_err(|e| format!("bad brotli data: {}", e))?; Some(jxl_exif(&o)?)
        } else { None };
        if let Some(c) = carrier { if i < 2 { return Err("Exif box in front of the file type box".into()); } img.at.push(img.items.len()); img.blocks.push(c); continue; }
        if x.to_end && i + 1 != bs.len() { return Err("box without size is not the last".into()); }
        img.items.push((String::from_utf8_lossy(&x.t).to_string(), b[x.r.clone()].to_vec()));
    }
    Ok(img)
}
pub fn brotli_c(d: &[u8]) -> Vec<u8> { let mut o = vec![]; let p = brotli::enc::BrotliEncoderParams { quality: 5, ..Default::default() }; brotli::BrotliCompress(&mut &d[..], &mut o, &p).unwrap(); o }
pub fn jxl_ftyp() -> Vec<u8> { bx(b"ftyp", b"jxl \0\0\0\0jxl ") }
pub fn jxl_seeds(n: usize, m: usize) -> Vec<(String, Vec<u8>)> {
    let e0 = { let mut d = vec![0u8; 4]; d.extend(old_block(false, 0)); d };
    let e6 = { let mut d = vec![0, 0, 0, 6]; d.extend(exif_hdr(&old_block(true, 1))); d };
    let al: Vec<(&str, Vec<u8>)> = vec![
        ("jxlc", bx(b"jxlc", &[0xff, 0x0a, 1, 2, 3])),
        ("Exif0", bx(b"Exif", &e0)),
        ("xml", bx(b"xml ", b"<x/>")),
        ("Exif6", bx(b"Exif", &e6)),
        ("brobExif", bx(b"brob", &[b"Exif".to_vec(), brotli_c(&e0)].concat())),
        ("Exif2", bx(b"Exif", &[&[0u8, 0, 0, 2, 0x4d, 0x4d][..], &old_block(false, 2)].concat())),
        ("brobExif9", bx(b"brob", &[b"Exif".to_vec(), brotli_c(&[&[0u8, 0, 0, 9, 0, 0, 0][..], &exif_hdr(&old_block(true, 3))].concat())].concat())),
        ("brobxml", bx(b"brob", &[b"xml ".to_vec(), brotli_c(b"<x/>")].concat())),
        ("jxlp", bx(b"jxlp", &[0, 0, 0, 0, 0xff, 0x0a])),
        ("large", bx64(b"jxlc", b"largesize")),
        ("Exif64", bx64(b"Exif", &e0)),
        ("empty", bx(b"free", b"")),
        ("jxll", bx(b"jxll", &[5])),
        ("jumb", bx(b"jumb", b"\0\0\0\x0cExif\0\0\0\0")),
        ("jbrd", bx(b"jbrd", b"Exif")),
        ("brobs", bx(b"brob", b"xm")),
        ("exif", bx(b"exif", &e0)),
        ("Exif300", bx(b"Exif", &[&[0u8, 0, 1, 44][..], &[0x49; 300], &old_block(false, 2)].concat())),
        ("brobtiny", bx(b"brob", &[b"Exif".to_vec(), brotli_c(b"\0\0\0\0II*\0\x08\0\0\0\0\0\0\0\0\0")].concat())),
    ];
    let al = &al[..m.min(al.len())];
    let last: Vec<(&str, Vec<u8>)> = vec![("", vec![]), ("jxlc0", bx0(b"jxlc", b"to the end")), ("Exif00", bx0(b"Exif", &e0))];
    let mut out = vec![];
    for s in seqs(al.len(), n) { for (ln, l) in &last {
        let mut v = JXL_SIG.to_vec(); v.extend(jxl_ftyp());
        for i in &s { v.extend(&al[*i].1) } v.extend(l);
        out.push((format!("jxl[{} {}]", s.iter().map(|i| al[*i].0).collect::<Vec<_>>().join(" "), ln), v));
    } }
    for (n, t) in [("zeros", &[0x12u8, 0, 0, 0][..]), ("only zeros", &[0; 9]), ("newline", b"\x12\r\n"), ("spaces", b"\x12  "), ("ff", &[0x12, 0xff, 0xff, 0xff]), ("box", b"\0\0\0\x0cjxlcABCD"), ("Exif", b"\0\0\0\x14Exif\0\0\0\0II*\0\x08\0\0\0"), ("codestream", &[0xff, 0x0a, 1, 0xff, 0x0a]), ("container", &JXL_SIG)] { let mut v = vec![0xff, 0x0a]; v.extend(t); out.push((format!("jxl[naked {}]", n), v)); }
    for n in [2usize, 3, 12, 13, 100, 70000] { let mut v = vec![0xff, 0x0a]; v.extend((2..n).map(|i| i as u8)); out.push((format!("jxl[naked {}]", n), v)); }
    out
}

// ================================================================================================ TIFF
pub fn tiff_parse(b: &[u8]) -> R<Img> {
    let t = tiffref::parse(b)?;
    let mut img = Img::default();
    for (k, r) in &t.ifds { if k.1 == 0 {
        if let Some(s) = &r.strips { for (i, x) in s.iter().enumerate() { img.items.push((format!("page {} strip {}", k.0, i), x.clone())); } }
    } }
    img.blocks.push(b.to_vec());
    img.at.push(0);
    if t.end != b.len() && (t.end + 3) / 4 * 4 != b.len() { img.flaws.push(format!("file has {} bytes but the last datum ends at {}", b.len(), t.end)); }
    Ok(img)
}

// ------------------------------------------------------------------------------------------ damage that keeps the structure
/// a segment, chunk or box: where it starts, where its payload starts and ends, where it ends, and the boxes around it
#[derive(Clone)]
pub struct Piece { pub at: usize, pub data: usize, pub data_end: usize, pub end: usize, pub around: Vec<usize>, pub name: String }
fn num32(b: &[u8], p: usize) -> usize { u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize }
fn boxes_of(b: &[u8], lo: usize, hi: usize, around: &[usize], out: &mut Vec<Piece>) {
    let mut p = lo;
    while p + 8 <= hi {
        let n = num32(b, p);
        let t = &b[p + 4..p + 8];
        let (h, end) = match n { 0 => (8, hi), 1 if p + 16 <= hi => (16, p + u64::from_be_bytes(b[p + 8..p + 16].try_into().unwrap()) as usize), n => (8, p + n) };
        if end > hi || end < p + h { return; }
        out.push(Piece { at: p, data: p + h, data_end: end, end, around: around.to_vec(), name: String::from_utf8_lossy(t).into() });
        let inner = match t { b"meta" | b"iref" => Some(4), b"iinf" => Some(if b.get(p + h) == Some(&0) { 6 } else { 8 }), b"iprp" | b"ipco" | b"dinf" | b"moov" | b"trak" | b"mdia" | b"minf" | b"stbl" | b"grpl" => Some(0), b"dref" => Some(8), _ => None };
        if let Some(o) = inner { let mut a = around.to_vec(); a.push(p); boxes_of(b, p + h + o, end, &a, out); }
        p = end;
    }
}
pub fn pieces(k: K, b: &[u8]) -> Vec<Piece> {
    let mut v = vec![];
    match k {
        K::Jpg => { let mut p = 2; while p + 4 <= b.len() && b[p] == 0xff { let n = u16::from_be_bytes([b[p + 2], b[p + 3]]) as usize; if p + 2 + n > b.len() { break; } v.push(Piece { at: p, data: p + 4, data_end: p + 2 + n, end: p + 2 + n, around: vec![], name: format!("{:02x}", b[p + 1]) }); if b[p + 1] == 0xda { break; } p += 2 + n; } }
        K::Png => { let mut p = 8; while p + 12 <= b.len() { let n = num32(b, p); if p + 12 + n > b.len() { break; } v.push(Piece { at: p, data: p + 8, data_end: p + 8 + n, end: p + 12 + n, around: vec![], name: String::from_utf8_lossy(&b[p + 4..p + 8]).into() }); p += 12 + n; } }
        K::Webp => { let mut p = 12; while p + 8 <= b.len() { let n = u32::from_le_bytes(b[p + 4..p + 8].try_into().unwrap()) as usize; if p + 8 + n > b.len() { break; } let end = (p + 8 + n + n % 2).min(b.len()); v.push(Piece { at: p, data: p + 8, data_end: p + 8 + n, end, around: vec![0], name: String::from_utf8_lossy(&b[p..p + 4]).into() }); p = end; } }
        K::Jxl | K::Heif => boxes_of(b, 0, b.len(), &[], &mut v),
        K::Tiff => (),
    }
    v
}
/// the image with the piece replaced; its own size (for `data`), checksum and the sizes around it are put right
pub fn replaced(k: K, b: &[u8], p: &Piece, whole: Option<Vec<u8>>, data: &[u8]) -> Vec<u8> {
    let new = whole.unwrap_or_else(|| match k {
        K::Jpg => [&b[p.at..p.at + 2], &((data.len() + 2) as u16).to_be_bytes(), data].concat(),
        K::Png => chunk(b[p.at + 4..p.at + 8].try_into().unwrap(), data),
        K::Webp => riff(b[p.at..p.at + 4].try_into().unwrap(), data),
        _ => { let mut h = b[p.at..p.data].to_vec(); let n = p.data - p.at + data.len(); if h.len() == 16 { h[8..16].copy_from_slice(&(n as u64).to_be_bytes()) } else if h[..4] != [0; 4] { h[..4].copy_from_slice(&(n as u32).to_be_bytes()) } [h, data.to_vec()].concat() }
    });
    let delta = new.len() as i64 - (p.end - p.at) as i64;
    let mut x = [&b[..p.at], &new, &b[p.end..]].concat();
    if k == K::Webp { let n = (x.len() - 8) as u32; x[4..8].copy_from_slice(&n.to_le_bytes()); return x; }
    for a in &p.around { match num32(b, *a) { 0 => (), 1 => { let n = u64::from_be_bytes(b[a + 8..a + 16].try_into().unwrap()) as i64 + delta; x[a + 8..a + 16].copy_from_slice(&(n as u64).to_be_bytes()) } n => x[*a..a + 4].copy_from_slice(&((n as i64 + delta) as u32).to_be_bytes()) } }
    x
}
/// every piece with its payload cut to every length, grown, filled, left out, doubled and exchanged with the next, everything around it being consistent
pub fn restructured(k: K, b: &[u8], deep: bool) -> Vec<(String, Vec<u8>)> {
    let mut v = vec![];
    let ps = pieces(k, b);
    for (i, p) in ps.iter().enumerate() {
        let n = format!("{}#{}", p.name, i);
        let d = &b[p.data..p.data_end];
        let lim = if deep { 300 } else { 48 };
        for c in 0..d.len() { if c <= lim || c + 8 >= d.len() { v.push((format!("{} cut to {}", n, c), replaced(k, b, p, None, &d[..c]))); v.push((format!("{} without the first {}", n, c + 1), replaced(k, b, p, None, &d[c + 1..]))); } }
        for (w, e) in [("a zero", &[0u8][..]), ("two zeroes", &[0, 0]), ("ff", &[0xff]), ("eight ff", &[0xff; 8]), ("text", b"Exif\0\0II*\0\x08\0\0\0\0\0\0\0\0\0")] { if k == K::Jpg && d.len() + e.len() > 65533 { continue; } v.push((format!("{} with {} behind", n, w), replaced(k, b, p, None, &[d, e].concat()))); v.push((format!("{} with {} in front", n, w), replaced(k, b, p, None, &[e, d].concat()))); }
        for (w, f) in [("zeroes", 0u8), ("ff", 0xff)] { v.push((format!("{} of {}", n, w), replaced(k, b, p, None, &vec![f; d.len()]))); }
        v.push((format!("without {}", n), replaced(k, b, p, Some(vec![]), &[])));
        let own = b[p.at..p.end].to_vec();
        v.push((format!("{} twice", n), replaced(k, b, p, Some([own.clone(), own.clone()].concat()), &[])));
        if let Some(q) = ps[i + 1..].iter().find(|q| q.at == p.end && q.around == p.around) { let mut x = b.to_vec(); x.splice(p.at..q.end, [b[q.at..q.end].to_vec(), own.clone()].concat()); v.push((format!("{} behind its successor", n), x)); }
        if k != K::Jpg { // four-letter names
            let t = if k == K::Webp { p.at } else { p.at + 4 };
            let names: &[&[u8; 4]] = match k { K::Png => &[b"eXIf", b"iTXt", b"zTXt", b"tEXt", b"IHDR", b"IEND", b"IDAT"], K::Webp => &[b"EXIF", b"VP8X", b"VP8 ", b"VP8L", b"XMP ", b"ALPH"], K::Jxl => &[b"Exif", b"brob", b"ftyp", b"jxlc", b"JXL "], _ => &[b"meta", b"iloc", b"iinf", b"infe", b"iref", b"mdat", b"idat", b"pitm", b"free", b"moov", b"stco", b"ftyp", b"cdsc"] };
            for nm in names { let mut x = own.clone(); x[t - p.at..t - p.at + 4].copy_from_slice(*nm); if k == K::Png { x = chunk(nm, d); } v.push((format!("{} as {}", n, String::from_utf8_lossy(*nm)), replaced(k, b, p, Some(x), &[]))); }
        } else { for m in [0xe1u8, 0xec, 0xed, 0xda, 0xc0, 0xd9, 0xd8, 0xd0, 1, 0, 0xff, 0xfe] { let mut x = b.to_vec(); x[p.at + 1] = m; v.push((format!("{} as {:02x}", n, m), x)); } }
    }
    v
}
