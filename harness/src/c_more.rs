//! C21: EXIF inside XMP of PNGs. C24: exported payloads. C27: reading what other software stored.
use crate::c_img::*;
use crate::c_meta::class;
use crate::img::*;
use crate::rt::*;
use crate::spec::*;
use crate::tiffref;
use little_exif::filetype::FileExtension;

pub fn defs() -> Vec<Def> {
    vec![
        Def { id: "C21", level: "model_checking", f: c21, rule: "state = PNG with an XMP text chunk; all sequences of XML pieces up to the length bound inside four document frames x tEXt, zTXt, iTXt, compressed iTXt; cleared and written through the real code; texts compared by an independent tokenizer",
            assumptions: &["EXIF content is what carries the prefix exif:", "line breaks left by removed elements are not significant"] },
        Def { id: "C24", level: "model_checking", f: c24, rule: "state = (metadata, file type); all metadata of the alphabet and of every block size in the stated ranges x all file types; payload framed by the independent builders, parsed strictly, compared with what writing embeds, and read back",
            assumptions: &["the PNG payload lacks length and checksum, its zTXt form starts with the chunk type", "a HEIF payload is the content of the Exif item"] },
        Def { id: "C27", level: "model_checking", f: c27, rule: "state = image holding EXIF as stored by other software; every container shape of the seeds x every carrier variant x EXIF blocks of both byte orders; the result of reading, through buffer and path, compared with the block's logical content",
            assumptions: &["with several carriers in one image reading may return the content of any of them"] },
    ]
}

// ------------------------------------------------------------------------------------------ C21
fn pieces() -> Vec<(&'static str, &'static str)> {
    vec![
        ("E", "<exif:ExposureTime>OLDMETA 1/5</exif:ExposureTime>"),
        ("e", "<exif:Flash exif:Fired=\"a\" rdf:parseType='Resource'/>"),
        ("N", "<exif:ISOSpeedRatings><rdf:Seq><rdf:li>OLDMETA</rdf:li><exif:x/><rdf:y a='OLDMETA'/><!--c--><![CDATA[<k>]]><?pi OLDMETA?></rdf:Seq></exif:ISOSpeedRatings>"),
        ("D", "<exif:A><exif:A>1</exif:A>OLDMETA<exif:A/></exif:A>"),
        ("k", "<dc:title>a &amp; b &lt;exif:X/&gt;</dc:title>"),
        ("K", "<tiff:Make tiff:q=\"exif:no > 1\"/>"),
        ("a", "<xmp:A exif:One=\"OLDMETA\" b=\"2\">x</xmp:A>"),
        ("b", "<xmp:B  b = '2'\n exif:One = 'OLDMETA > \"' c=\"3\"  />"),
        ("x", "<exifEX:LensModel exifEX:a=\"1\">lens</exifEX:LensModel>"),
        ("t", "some exif: text"),
        ("n", "\n  "),
        ("c", "<!-- <exif:X>keep</exif:X> -->"),
        ("d", "<![CDATA[<exif:X>keep</exif:X>]]>"),
        ("p", "<?pi <exif:X/> ?>"),
        ("R", "<rdf:li><exif:Deep>OLDMETA</exif:Deep>tail</rdf:li>"),
        ("u", "<dc:ü ä=\"ö\">日本 \u{1F600}</dc:ü>"),
        ("s", " \t"),
        ("r", "<rdf:li\texif:a='1'\r\nexif:b='2'\texif:c=\"OLDMETA\"></rdf:li>"),
        ("q", "<a exif:last=\"\"/>"),
        ("m", "\n\n\n"),
    ]
}
fn bad() -> Vec<(&'static str, &'static str)> {
    vec![("<", "<exif:A>OLDMETA"), (">", "</exif:B>"), ("!", "<exif:A"), ("-", "<!-- <exif:A>OLDMETA</exif:A>"), ("[", "<![CDATA[ <exif:A/>"), ("?", "<?pi <exif:A/>"), ("/", "<a></b><exif:A>OLDMETA</exif:A>"), ("\"", "<a exif:b=\"OLDMETA/>")]
}
const FRAMES: [(&str, &str, &str); 4] = [
    ("full", "<?xpacket begin=\"\u{feff}\" id=\"W5M0MpCehiHzreSzNTczkc9d\"?>\n<x:xmpmeta xmlns:x=\"adobe:ns:meta/\">\n <rdf:RDF xmlns:rdf=\"http://www.w3.org/1999/02/22-rdf-syntax-ns#\">\n  <rdf:Description rdf:about=\"\" xmlns:exif=\"http://ns.adobe.com/exif/1.0/\">", "</rdf:Description>\n </rdf:RDF>\n</x:xmpmeta>\n<?xpacket end=\"w\"?>"),
    ("plain", "<r>", "</r>"),
    ("attr", "<rdf:Description exif:First=\"OLDMETA\" dc:keep='1'>", "</rdf:Description>\n"),
    ("decl", "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n<!DOCTYPE r>\n<r>", "</r>   "),
];
fn xmp_png(t: &Text) -> Vec<u8> { let c = text_build(t, 6); png_join(&[&c], 1, &[&chunk(b"tIME", &[7, 0xea, 1, 1, 1, 1, 1])], b"tail") }
fn kinds() -> Vec<Text> {
    let mk = |typ: &[u8; 4], c: bool, lang: &str, tk: &str| Text { typ: *typ, kw: XMPKW.to_vec(), compressed: c, lang: lang.as_bytes().to_vec(), tkw: tk.as_bytes().to_vec(), text: vec![] };
    vec![mk(b"iTXt", false, "", ""), mk(b"iTXt", true, "de-AT", "Übersetzt"), mk(b"iTXt", false, "en", ""), mk(b"iTXt", true, "", "Ü"), mk(b"zTXt", true, "", ""), mk(b"tEXt", false, "", "")]
}
fn c21_one(name: &str, doc: &str, malformed: bool, t: &Text, m: &M) {
    for op in [Op::Clear, Op::W(0)] {
        let case = format!("{} {} {}", name, String::from_utf8_lossy(&t.typ), if op == Op::Clear { "clear" } else { "write" });
        if !want(&case) { continue; }
        let mut t = t.clone(); t.text = doc.as_bytes().to_vec();
        let pre = xmp_png(&t);
        state(doc.as_bytes());
        let mut post = pre.clone();
        let ms = std::slice::from_ref(m);
        let Some(r) = vec_op(K::Png, &mut post, op, ms) else { continue };
        trace();
        let art: &[(&str, &[u8])] = &[("before", &pre), ("after", &post)];
        if let Err(e) = r { viol(&format!("fails:{}", class(&e)), &e, art); continue; }
        let (a, b) = match (png_chunks(&pre), png_chunks(&post)) { (Ok(a), Ok(b)) => (a.0, b.0), (_, e) => { viol("invalid PNG", &format!("{:?}", e.err()), art); continue } };
        let raw = |c: &([u8; 4], Vec<u8>, std::ops::Range<usize>)| c.1.split(|x| *x == 0).next() == Some(RAW);
        let b: Vec<_> = b.into_iter().filter(|c| !raw(c)).collect();
        if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| x.0 != y.0) { viol("chunks", "the sequence of chunks changed", art); continue }
        for (x, y) in a.iter().zip(&b) {
            if x.1.split(|c| *c == 0).next() != Some(XMPKW) { if x.1 != y.1 { viol("other chunk", "another chunk changed", art) } continue }
            let y2 = match text_parse(&y.0, &y.1) { Ok(v) => v, Err(e) => { viol(&format!("text chunk:{}", class(&e)), &e, art); continue } };
            if (&y2.kw, y2.compressed, &y2.lang, &y2.tkw) != (&t.kw, t.compressed, &t.lang, &t.tkw) { viol("text chunk header", "keyword, compression, language or translated keyword changed", art) }
            let now = String::from_utf8_lossy(&y2.text).to_string();
            if malformed { if y2.text != t.text { viol("malformed changed", &format!("{:?} became {:?}", doc, now), art) } continue }
            if !crate::xml::has_exif(doc.as_bytes()) { if x.1 != y.1 { viol("without EXIF changed", &format!("{:?} became {:?}", doc, now), art) } continue }
            match (crate::xml::without_exif(doc.as_bytes()), crate::xml::without_exif(&y2.text)) {
                (Err(e), _) => { eprintln!("engine error: piece is malformed: {} {}", doc, e); std::process::exit(3) }
                (_, Err(e)) => viol(&format!("not well-formed:{}", class(&e)), &format!("{:?} became {:?}: {}", doc, now, e), art),
                (Ok(w), Ok(g)) => if !crate::xml::same(&w, &g) { viol("content", &format!("{:?} became {:?}", doc, now), art) },
            }
            if crate::xml::has_exif(&y2.text) { viol("EXIF left", &format!("{:?} became {:?}", doc, now), art) }
            // what remains is a subsequence of what was there: nothing is rewritten
            let mut it = t.text.iter(); if !y2.text.iter().all(|c| it.any(|d| d == c)) { viol("rewritten", &format!("{:?} became {:?}", doc, now), art) }
        }
    }
}
fn c21() {
    let m = M { name: "small", lm: small(), m: small().meta(), blk: small().meta().encode().unwrap() };
    let (ps, bs, ks) = (pieces(), bad(), kinds());
    let n = if thorough() { 4 } else { 3 };
    let docs = seqs(ps.len(), n);
    note("documents", docs.len() * FRAMES.len());
    par(&docs, |i, s| {
        for (fi, (fnm, a, b)) in FRAMES.iter().enumerate() {
            if s.len() == n && n > 2 && fi > 0 && (i + fi) % 4 != 0 { continue; }
            let doc = format!("{}{}{}", a, s.iter().map(|i| ps[*i].1).collect::<String>(), b);
            let name = format!("{} {}", fnm, s.iter().map(|i| ps[*i].0).collect::<String>());
            for (ki, t) in ks.iter().enumerate() { if s.len() == n && n > 2 && ki % 4 != i % 4 && ki != 0 { continue; } c21_one(&name, &doc, false, t, &m); }
        }
        sample(|| format!("{}", s.iter().map(|i| ps[*i].1).collect::<String>()));
    });
    // documents that cannot be parsed stay as they are: every malformed piece at every place of every short document, and every truncation
    let short = seqs(ps.len(), if thorough() { 2 } else { 1 });
    par(&short, |_, s| for (fnm, a, b) in &FRAMES { for pos in 0..=s.len() { for (bn, bp) in &bs {
        if *bn == "!" && pos < s.len() { continue; } // the rest of the document would be part of the tag
        let mut body = String::new();
        for (i, c) in s.iter().enumerate() { if i == pos { body.push_str(bp) } body.push_str(ps[*c].1) }
        if pos == s.len() { body.push_str(bp) }
        let doc = format!("{}{}{}", a, body, b);
        // a '<' inside a tag is where lenient parsers differ from strict ones
        match crate::xml::tokens(&doc) { Ok(_) => continue, Err(e) if e.contains("< inside") => continue, Err(_) => () }
        for t in &ks { c21_one(&format!("{} {} bad {} at {}", fnm, s.iter().map(|i| ps[*i].0).collect::<String>(), bn, pos), &doc, true, t, &m); }
    } } });
    for (fnm, a, b) in &FRAMES { for p in 0..ps.len() {
        let doc = format!("{}{}{}{}", a, ps[p].1, ps[(p + 7) % ps.len()].1, b);
        let cuts: Vec<usize> = (0..doc.len()).filter(|i| doc.is_char_boundary(*i)).collect();
        par(&cuts, |i, c| {
            let d = &doc[..*c];
            let ok = crate::xml::tokens(d).is_ok();
            c21_one(&format!("{} {} cut {}", fnm, ps[p].0, c), d, !ok, &ks[i % 4], &m);
        });
    } }
    // XMP that is no UTF-8, an empty text, chunks whose header is damaged: unchanged
    for (n, tx) in [("latin1", &b"<a exif:b=\"\xe4\"/>\xff"[..]), ("utf16", &b"\xff\xfe<\0a\0/\0>\0"[..]), ("empty", b""), ("text", b"no xml at all"), ("nul", b"<a>\0</a>")] { for t in &ks {
        for op in [Op::Clear, Op::W(0)] {
            if !want(&format!("{} {} {:?}", n, String::from_utf8_lossy(&t.typ), op)) { continue; }
            let mut t = t.clone(); t.text = tx.to_vec(); let pre = xmp_png(&t); let mut post = pre.clone(); state(&pre);
            let Some(r) = vec_op(K::Png, &mut post, op, std::slice::from_ref(&m)) else { continue }; trace();
            let art: &[(&str, &[u8])] = &[("before", &pre), ("after", &post)];
            if let Err(e) = r { viol(&format!("fails:{}", class(&e)), &e, art); continue; }
            let (a, b) = (png_chunks(&pre).unwrap().0, png_chunks(&post).unwrap().0);
            let fa = a.iter().find(|c| c.1.starts_with(XMPKW)).unwrap(); let fb = b.iter().find(|c| c.1.starts_with(XMPKW));
            match fb { None => viol("lost", "the chunk is gone", art), Some(x) => if n != "latin1" && x.1 != fa.1 { viol("odd text changed", "the text changed", art) } }
        }
    } }
    for (n, d) in [("zTXt method", (b"zTXt", [XMPKW, b"\0\x07<exif:a/>"].concat())), ("zTXt data", (b"zTXt", [XMPKW, b"\0\0garbage"].concat())), ("zTXt short", (b"zTXt", [XMPKW, b"\0"].concat())), ("iTXt method", (b"iTXt", [XMPKW, b"\0\x01\x05\0\0<exif:a/>"].concat())), ("iTXt cut", (b"iTXt", [XMPKW, b"\0\0\0en"].concat())), ("no NUL", (b"tEXt", XMPKW.to_vec()))] {
        for op in [Op::Clear, Op::W(0)] {
            if !want(&format!("damaged {} {:?}", n, op)) { continue; }
            let c = chunk(d.0, &d.1); let pre = png_join(&[&c], 1, &[], b""); let mut post = pre.clone(); state(&pre);
            let Some(r) = vec_op(K::Png, &mut post, op, std::slice::from_ref(&m)) else { continue }; trace();
            if r.is_ok() && find(&post, &c).is_none() { viol(&format!("damaged chunk:{}", n), "a text chunk that cannot be understood was changed", &[("before", &pre), ("after", &post)]) }
        }
    }
}

// ------------------------------------------------------------------------------------------ C24
fn c24() {
    let mut list: Vec<(String, LMeta)> = metas().into_iter().map(|m| (m.name.to_string(), m.lm)).collect();
    list.extend(crate::c_meta::c19_starts());
    let top = if thorough() { 2600 } else { 600 };
    for n in 0..top { for be in [false, true] { list.push((format!("size {} be={}", n, be), { let mut m = LMeta::new(be); m.put(0, LTag::undef(0xfde8, 0, &(0..n).map(|i| (i * 7) as u8).collect::<Vec<u8>>())).put(0, LTag::u16s(0x8827, 1, &[n as u16])); m })); } }
    for n in 65440..65560usize { list.push((format!("size {}", n), { let mut m = LMeta::new(false); m.put(0, LTag::undef(0xfde8, 0, &vec![0x5a; n])); m })); }
    par(&list, |_, (name, lm)| {
        let m = lm.meta();
        let Some(Ok(blk)) = sut_np("encode", 0, || m.encode()) else { return };
        let w = lm.canon_written();
        let get = |x: FileExtension| sut_np("as_u8_vec", blk.len(), || m.as_u8_vec(x).map_err(|e| e.to_string()));
        let check = |what: &str, k: K, base: &Vec<u8>, img: Vec<u8>, payload: &[u8]| {
            state(&img); trace();
            let art: &[(&str, &[u8])] = &[("payload", payload), ("image", &img)];
            // strict validity and same block as written
            let p = match parse(k, &img) { Ok(p) => p, Err(e) => { viol(&format!("{}:invalid:{}", what, class(&e)), &e, art); return } };
            if !p.flaws.is_empty() { viol(&format!("{}:flaw", what), &format!("{:?}", p.flaws), art) }
            let mut wr = base.clone();
            match sut_np("write_to_vec", 0, || m.write_to_vec(&mut wr, k.ext()).map_err(|e| e.to_string())) { Some(Ok(())) => (), r => { viol(&format!("{}:write fails", what), &format!("the payload exists but writing fails: {:?}", r), art); return } }
            let q = match parse(k, &wr) { Ok(q) => q, Err(e) => { viol(&format!("{}:written invalid", what), &e, &[("written", &wr)]); return } };
            let trim = |b: &Vec<Vec<u8>>| b.iter().map(|x| x.strip_suffix(&[0]).unwrap_or(x).to_vec()).collect::<Vec<_>>();
            if p.blocks.len() != 1 || (p.blocks != q.blocks && !(k == K::Png && trim(&p.blocks) == trim(&q.blocks))) { viol(&format!("{}:block", what), &format!("the payload holds {:?} and writing embeds {:?} bytes of EXIF", p.blocks.iter().map(|b| b.len()).collect::<Vec<_>>(), q.blocks.iter().map(|b| b.len()).collect::<Vec<_>>()), art) }
            for b in &p.blocks { if b != &blk && b.strip_suffix(&[0]) != Some(&blk[..]) { viol(&format!("{}:not the encoded block", what), &format!("the payload holds {} bytes, encode() gives {}", b.len(), blk.len()), art) } }
            if k != K::Heif { if let Some(d) = item_diff(&parse(k, base).map(|b| b.items).unwrap_or_default(), &p.items) { viol(&format!("{}:framing", what), &d, art) } }
            match read_vec(k, &img) { Some(Ok(c)) => if c != w { viol(&format!("{}:read back", what), &diff(&w, &c), art) }, Some(Err(e)) => viol(&format!("{}:unreadable", what), &e, art), None => () }
        };
        if want(&format!("{} JPEG", name)) { match get(FileExtension::JPEG) {
            Some(Ok(v)) => {
                if blk.len() + 8 > 65535 { viol("jpeg:oversize", "a segment longer than its length field can state", &[("payload", &v)]); }
                for (bn, b) in jpg_bodies() { if bn.starts_with("prog") && name.starts_with("size") { continue; } if parse(K::Jpg, &jpg_join(&[], &b, b"")).map(|i| !i.blocks.is_empty()).unwrap_or(true) { continue; } for pre in [vec![], seg(0xe0, b"JFIF\0\x01\x01\0\0\x01\0\x01\0\0")] { let base = jpg_join(&[&pre], &b, b"tail"); check("jpeg", K::Jpg, &base, [&base[..2], &v[..], &base[2..]].concat(), &v); } }
            }
            Some(Err(e)) => if blk.len() + 8 <= 65535 { viol("jpeg:fails", &e, &[]) } else { state(e.as_bytes()); }
            None => (),
        } }
        for z in [true, false] { if want(&format!("{} PNG zTXt={}", name, z)) { match get(FileExtension::PNG { as_zTXt_chunk: z }) {
            Some(Ok(v)) => {
                let base = png_join(&[], 1, &[], b"");
                let d = if z { match v.strip_prefix(b"zTXt") { Some(d) => d.to_vec(), None => { viol("png:type", "the payload does not start with the chunk type", &[("payload", &v)]); return } } } else { [RAW, b"\0", &v[..]].concat() };
                for (what, c) in if z { vec![("png zTXt", chunk(b"zTXt", &d))] } else { vec![("png raw in tEXt", chunk(b"tEXt", &d)), ("png raw in zTXt", chunk(b"zTXt", &[RAW, b"\0\0", &deflate(&v, 6)].concat())), ("png raw in iTXt", chunk(b"iTXt", &[RAW, b"\0\0\0\0\0", &v[..]].concat()))] } {
                    check(what, K::Png, &base, [&base[..33], &c[..], &base[33..]].concat(), &v);
                    check(what, K::Png, &base, [&base[..base.len() - 12], &c[..], &base[base.len() - 12..]].concat(), &v);
                }
            }
            Some(Err(e)) => viol("png:fails", &e, &[]), None => (),
        } } }
        if want(&format!("{} WEBP", name)) { match get(FileExtension::WEBP) {
            Some(Ok(v)) => {
                if v.len() % 2 != 0 { viol("webp:padding", "the chunk has an odd total size", &[("payload", &v)]) }
                for im in [vp8(30, 20, 3), vp8l(30, 20, true, 4)] {
                    let a = if im.starts_with(b"VP8L") { 0x10 } else { 0 };
                    check("webp", K::Webp, &webp_join(&[vp8x(a, 30, 20), im.clone()]), webp_join(&[vp8x(a | 8, 30, 20), im.clone(), v.clone()]), &v);
                }
            }
            Some(Err(e)) => viol("webp:fails", &e, &[]), None => (),
        } }
        if want(&format!("{} HEIF", name)) { match get(FileExtension::HEIF) {
            Some(Ok(v)) => {
                let mut c = crate::heif::base_cfg();
                let im = crate::heif::It { id: 1, typ: *b"hvc1", method: 0, ext: vec![b"<img>".to_vec()], hidden: false, dref: 0 };
                c.items = vec![im.clone()]; c.order = vec![crate::heif::P::Meta, crate::heif::P::Mdat(crate::heif::MK::Norm, vec![crate::heif::Pl::Item(0, 0)])];
                let base = c.build();
                c.items.push(crate::heif::It { id: 2, typ: *b"Exif", method: 0, ext: vec![v.clone()], hidden: true, dref: 0 });
                c.refs.push((*b"cdsc", 2, vec![1]));
                c.order = vec![crate::heif::P::Meta, crate::heif::P::Mdat(crate::heif::MK::Norm, vec![crate::heif::Pl::Item(0, 0), crate::heif::Pl::Item(1, 0)])];
                check("heif", K::Heif, &base, c.build(), &v);
            }
            Some(Err(e)) => viol("heif:fails", &e, &[]), None => (),
        } }
        for x in [FileExtension::JXL, FileExtension::NAKED_JXL, FileExtension::TIFF] { if want(&format!("{} {:?}", name, x)) { state(format!("{:?}", x).as_bytes()); if let Some(Ok(v)) = get(x) {
            // a payload for these would have to be a valid carrier; the formats define only these forms
            let ok = match x { FileExtension::TIFF => v == blk, _ => boxes(&v, 0).map(|b| b.len() == 1 && &b[0].t == b"Exif").unwrap_or(false) };
            if !ok { viol(&format!("{:?}:payload", x), "no valid carrier", &[("payload", &v)]) }
        } } }
        sample(|| format!("{}: block of {} bytes", name, blk.len()));
    });
}

// ------------------------------------------------------------------------------------------ C27
fn c27() {
    for k in crate::img::kinds() {
        let mut sd = seeds(k, level());
        sd.extend(huge_seeds(k));
        par(&sd, |_, s| {
            if !want(&s.name) { return; }
            let Ok(img) = parse(k, &s.b) else { return };
            // what such an image holds is not well defined (e.g. a WebP whose flags deny the EXIF chunk)
            if !img.flaws.is_empty() { return; }
            // a damaged block may be read in part or not at all
            if s.name.starts_with("var[") && img.blocks.iter().any(|b| tiffref::parse(b).is_err()) { return; }
            state(&s.b);
            let art: &[(&str, &[u8])] = &[("image", &s.b)];
            let wants: Vec<Canon> = img.blocks.iter().filter_map(|b| tiffref::parse(b).ok()).map(|t| t.logical().canon()).collect();
            let lens: Vec<usize> = img.blocks.iter().map(|b| b.len()).collect();
            let p = thread_dir().join(format!("r.{}", k.suffix()));
            std::fs::write(&p, &s.b).unwrap();
            for (what, r) in [("vector", read_vec(k, &s.b)), ("file", read_file(&p, s.b.len()))] {
                let Some(r) = r else { continue };
                trace();
                match r {
                    Ok(c) => if !wants.contains(&c) && !(c.is_blank() && (lens.contains(&0) || lens.is_empty())) { viol(&format!("{}:{}:content", k.name(), what), &if wants.is_empty() { format!("EXIF read from an image without any: {}", c.short()) } else { diff(&wants[0], &c) }, art) },
                    Err(e) => if !unsupported(s) && !wants.is_empty() && !lens.contains(&0) { viol(&format!("{}:{}:{}", k.name(), what, class(&e)), &format!("the image holds EXIF but reading fails: {}", e), art) },
                }
            }
        });
    }
}
