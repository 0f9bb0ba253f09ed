//! HEIF/AVIF: builder from a configuration, strict parser resolving every item
use crate::img::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug)]
pub struct It { pub id: u32, pub typ: [u8; 4], pub method: u8, pub ext: Vec<Vec<u8>>, pub hidden: bool, pub dref: u16 }
/// item without an entry in iinf
pub const UNLISTED: &[u8; 4] = b"\0---";
/// what refers to places in the file besides the iloc box of the file
pub const MOOVS: [&str; 8] = ["own", "saio", "trak meta", "moov meta", "meco", "far", "wide", "uns:far mixed"];
/// data reference of an item in this very file
pub const HERE: u16 = 3;
#[derive(Clone, Debug)]
pub enum Pl { Item(usize, usize), Fill(Vec<u8>), Chunk(Vec<u8>) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum MK { Norm, Large, ToEnd }
#[derive(Clone, Debug)]
pub enum P { Meta, Mdat(MK, Vec<Pl>), Other([u8; 4], Vec<u8>), Large([u8; 4], Vec<u8>), Moov(&'static str), Trail(Vec<u8>) }
#[derive(Clone, Debug)]
pub struct Cfg {
    pub brand: [u8; 4], pub iloc_v: u8, pub osz: u8, pub lsz: u8, pub bsz: u8, pub isz: u8, pub base: bool,
    pub iinf_v: u8, pub infe_v: u8, pub iref: Option<u8>, pub pitm: Option<u8>, pub items: Vec<It>, pub refs: Vec<([u8; 4], u32, Vec<u32>)>,
    pub order: Vec<P>, pub co64: bool, pub meta_order: u8, pub large_meta: bool,
    /// further boxes inside of meta
    pub extra: Vec<u8>,
    /// 64-bit box sizes in meta (1: its boxes, 2: also those in iinf and iref)
    pub wide: u8,
    /// values other than 0 in reserved and unrelated fields
    pub odd: bool,
    /// the meta box is the last one and states no size
    pub meta_to_end: bool,
    /// an item of this file whose data lies within the meta box: item, place among the boxes, kind of box around it
    pub inside: Option<(usize, usize, [u8; 4])>,
}
pub fn full(t: &[u8; 4], v: u8, fl: u32, d: &[u8]) -> Vec<u8> { let mut x = ((v as u32) << 24 | fl).to_be_bytes().to_vec(); x.extend(d); bx(t, &x) }
fn num(o: &mut Vec<u8>, n: u64, sz: u8) { o.extend(&n.to_be_bytes()[8 - sz as usize..]) }
pub fn exif_item(blk: &[u8], style: u8) -> Vec<u8> {
    match style {
        0 => { let mut v = vec![0, 0, 0, 6]; v.extend(exif_hdr(blk)); v }
        1 => { let mut v = vec![0, 0, 0, 0]; v.extend(blk); v }
        _ => { let mut v = vec![0, 0, 0, 10, 1, 2, 3, 4]; v.extend(exif_hdr(blk)); v }
    }
}
impl Cfg {
    /// two entity groups; the first takes the number behind the largest item number
    fn groups(&self) -> Vec<u8> {
        let top = self.items.iter().map(|i| i.id).max().unwrap_or(0).saturating_add(1).min(u32::MAX - 9);
        let odd = self.items.len() as u32 % 2;
        [(b"altr", top), (b"ster", top + 1 + odd), (b"altr", top + 2 - odd)].iter().flat_map(|(t, g)| full(t, 0, 0, &[g.to_be_bytes(), 1u32.to_be_bytes(), self.items[0].id.to_be_bytes()].concat())).collect()
    }
    fn idat(&self) -> Vec<u8> { self.items.iter().filter(|i| i.method == 1).flat_map(|i| i.ext.iter().flatten().copied()).collect() }
    fn meta(&self, off: &BTreeMap<(usize, usize), u64>) -> Vec<u8> {
        let hdlr = if self.odd { full(b"hdlr", 0, 0x010203, b"mhlrpictapplABCD\x01\x02\x03\x04name\0") } else { full(b"hdlr", 0, 0, b"\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0") };
        let fl = |x: u32| if self.odd { x } else { 0 };
        let external = self.items.iter().any(|i| i.dref != 0 && i.dref != HERE);
        let own = self.items.iter().any(|i| i.dref == HERE);
        let dinf = bx(b"dinf", &if external { full(b"dref", 0, 0, &[vec![0, 0, 0, 2 + own as u8], full(b"url ", 0, 0, b"a.bin\0"), full(b"url ", 0, 0, b"b.bin\0"), if own { full(b"url ", 0, 1, b"") } else { vec![] }].concat()) } else { full(b"dref", 0, 0, &[vec![0, 0, 0, 1], full(b"url ", 0, 1, b"")].concat()) });
        let dinf2 = if external || own { dinf.clone() } else { vec![] };
        let pitm = match self.pitm { None => vec![], Some(0) => full(b"pitm", 0, fl(0x0d0e0f), &(self.items[0].id as u16).to_be_bytes()), Some(_) => full(b"pitm", 1, 0, &self.items[0].id.to_be_bytes()) };
        let mut d = vec![];
        // information on selected items only
        let listed: Vec<&It> = self.items.iter().filter(|i| &i.typ != UNLISTED).collect();
        num(&mut d, listed.len() as u64, if self.iinf_v == 0 { 2 } else { 4 });
        for i in listed {
            let mut e = vec![];
            if i.typ[0] == 0 {
                // the first two versions know names in place of types
                num(&mut e, i.id as u64, 2); num(&mut e, fl(0x0102) as u64, 2);
                e.extend(if &i.typ[1..3] == b"Ex" { &b"Exif\0application/octet-stream\0"[..] } else { b"Exif2\0image/x\0gzip\0" });
                if i.typ[3] == b'1' { e.extend(b"abcd"); }
                d.extend(full(b"infe", i.typ[3] - b'0', fl(0xfffefd), &e));
                continue;
            }
            num(&mut e, i.id as u64, if self.infe_v == 3 { 4 } else { 2 });
            num(&mut e, fl(0x0102) as u64, 2); e.extend(i.typ); e.extend(if &i.typ == b"Exif" { &b"\0"[..] } else if &i.typ == b"mime" { &b"xmp\0application/rdf+xml\0"[..] } else { &b"Image\0"[..] });
            d.extend(full(b"infe", self.infe_v, i.hidden as u32 | fl(0xfedcb8), &e));
        }
        let iinf = full(b"iinf", self.iinf_v, fl(0x010203), &d);
        let mut d = vec![self.osz << 4 | self.lsz, self.bsz << 4 | if self.iloc_v > 0 { self.isz } else { 0 }];
        num(&mut d, self.items.len() as u64, if self.iloc_v == 2 { 4 } else { 2 });
        let mut ipos = 0u64;
        for (k, i) in self.items.iter().enumerate() {
            num(&mut d, i.id as u64, if self.iloc_v == 2 { 4 } else { 2 });
            if self.iloc_v > 0 { num(&mut d, i.method as u64 | fl(0xabc0) as u64, 2) }
            num(&mut d, if i.dref == HERE && !external { 1 } else { i.dref as u64 }, 2);
            let mut offs: Vec<(u64, u64)> = i.ext.iter().enumerate().map(|(e, x)| match i.method {
                0 if i.dref == 0 || i.dref == HERE => (off.get(&(k, e)).copied().unwrap_or(0), x.len() as u64),
                1 => { let o = ipos; ipos += x.len() as u64; (o, x.len() as u64) }
                // an item extent lists offset and length into item 0's data, an external one into another file
                _ => (u64::from_be_bytes(x[0..8].try_into().unwrap()), u64::from_be_bytes(x[8..16].try_into().unwrap())),
            }).collect();
            let b = if self.base && self.bsz > 0 { offs.iter().map(|o| o.0).min().unwrap_or(0) } else { 0 };
            num(&mut d, b, self.bsz);
            num(&mut d, offs.len() as u64, 2);
            for o in &mut offs { if self.iloc_v > 0 && self.isz > 0 { num(&mut d, 1, self.isz) } num(&mut d, o.0 - b, self.osz); num(&mut d, o.1, self.lsz); }
        }
        let iloc = full(b"iloc", self.iloc_v, fl(0x070809), &d);
        let iref = match self.iref { None => vec![], Some(v) => {
            let w = if v == 0 { 2 } else { 4 };
            let mut d = vec![];
            for (t, f, to) in &self.refs { let mut r = vec![]; num(&mut r, *f as u64, w); num(&mut r, to.len() as u64, 2); for x in to { num(&mut r, *x as u64, w) } d.extend(bx(t, &r)); }
            full(b"iref", v, fl(0x0a0b0c), &d)
        } };
        let ispe = full(b"ispe", 0, 0, &[0, 0, 0, 8, 0, 0, 0, 8]);
        let colr = bx(b"colr", b"proficcprofile");
        let mut ip = vec![0, 0, 0, 1]; num(&mut ip, self.items[0].id as u64, 2); ip.extend([2, 0x81, 2]);
        let iprp = bx(b"iprp", &[bx(b"ipco", &[ispe, colr].concat()), full(b"ipma", 0, 0, &ip)].concat());
        let idat = if self.items.iter().any(|i| i.method == 1) { bx(b"idat", &self.idat()) } else { vec![] };
        let iinf = if self.wide > 1 { let n = 12 + if self.iinf_v == 0 { 2 } else { 4 }; bx(b"iinf", &[iinf[8..n].to_vec(), widen(&iinf[n..])].concat()) } else { iinf };
        let iref = if self.wide > 1 && !iref.is_empty() { bx(b"iref", &[iref[8..12].to_vec(), widen(&iref[12..])].concat()) } else { iref };
        let inner = match self.meta_order {
            0 => [hdlr, dinf, pitm, self.extra.clone(), iinf, iref, iprp, idat, iloc, self.extra.clone()].concat(),
            1 => [hdlr, pitm, iloc, iinf, iref, iprp, idat, dinf2].concat(),
            2 => [hdlr, dinf2, iprp, iref, bx(b"free", b"in meta"), iinf, pitm, idat, iloc, bx(b"uuid", &[7; 24])].concat(),
            _ => [hdlr, pitm, iloc, dinf2, iref, iinf, iprp, idat, bx64(b"grpl", &self.groups())].concat(),
        };
        let inner = match self.inside { None => inner, Some((i, slot, t)) => {
            let at = boxes(&inner, 0).unwrap().get(slot).map(|x| x.r.start).unwrap_or(inner.len());
            [&inner[..at], &bx(&t, &[b"..", &self.items[i].ext[0][..], b"."].concat()), &inner[at..]].concat()
        } };
        let inner = if self.wide > 0 { widen(&inner) } else { inner };
        if self.large_meta { let mut x = vec![0, 0, 0, 0]; x.extend(inner); bx64(b"meta", &x) } else if self.meta_to_end { bx0(b"meta", &[&[0; 4][..], &inner].concat()) } else { full(b"meta", 0, fl(0x101112), &inner) }
    }
    /// a meta box elsewhere than at file level: item 1 in two extents of this file, item 2 in idat, item 3 in another file
    fn inner_meta(&self, ch: &[u64]) -> Vec<u8> {
        let hdlr = full(b"hdlr", 0, 0, b"\0\0\0\0pict\0\0\0\0\0\0\0\0\0\0\0\0\0");
        let dinf = bx(b"dinf", &full(b"dref", 0, 0, &[vec![0, 0, 0, 2], full(b"url ", 0, 0, b"a.bin\0"), full(b"url ", 0, 1, b"")].concat()));
        let mut d = vec![0, 3];
        for i in 1..4u8 { d.extend(full(b"infe", 2, 0, &[0, i, 0, 0, b'i', b't', b'0', i, b'n', 0])); }
        let iinf = full(b"iinf", 0, 0, &d);
        let w = if self.co64 { 8 } else { 4 };
        let base = if self.base { ch.iter().copied().min().unwrap_or(0) } else { 0 };
        let mut d = vec![w << 4 | 4, if self.base { w << 4 } else { 0 }, 0, 4];
        for (id, m, dr, ext) in [(1u64, 0u64, 0u64, vec![(ch[0], 4u64), (ch[1], 4)]), (2, 1, 0, vec![(0, 3)]), (3, 0, 1, vec![(100_000, 9)]), (9, 0, 2, vec![(ch[2], 4)])] {
            num(&mut d, id, 2); num(&mut d, m, 2); num(&mut d, dr, 2);
            let b = if m == 0 && dr != 1 { base } else { 0 };
            if self.base { num(&mut d, b, w) }
            num(&mut d, ext.len() as u64, 2);
            for (o, l) in ext { num(&mut d, o - if self.base { b.min(o) } else { 0 }, w); num(&mut d, l, 4); }
        }
        full(b"meta", 0, 0, &[hdlr, dinf, iinf, full(b"iloc", 1, 0, &d), bx(b"idat", b"abc")].concat())
    }
    fn moov(&self, ch: &[u64], kind: &str) -> Vec<u8> {
        let list = |ch: &[u64], wide: bool| { let mut d = vec![]; num(&mut d, ch.len() as u64, 4); for c in ch { num(&mut d, *c, if wide { 8 } else { 4 }) } d };
        let far: Vec<u64> = vec![0, 100_000, 40];
        let co = |ch: &[u64]| { let d = list(ch, self.co64); if self.co64 { full(b"co64", 0, 0, &d) } else { full(b"stco", 0, 0, &d) } };
        let dinf = |flags: &[u32]| bx(b"dinf", &full(b"dref", 0, 0, &[(flags.len() as u32).to_be_bytes().to_vec(), flags.iter().flat_map(|f| full(b"url ", 0, *f, if *f == 1 { b"" } else { b"b.bin\0" })).collect()].concat()));
        let entry = |r: u8| bx(b"hvc1", &[0, 0, 0, 0, 0, 0, 0, r]);
        let stsd = |rs: &[u8]| full(b"stsd", 0, 0, &[(rs.len() as u32).to_be_bytes().to_vec(), rs.iter().flat_map(|r| entry(*r)).collect()].concat());
        let stsc = |v: &[(u32, u32)]| full(b"stsc", 0, 0, &[(v.len() as u32).to_be_bytes().to_vec(), v.iter().flat_map(|(c, e)| [c.to_be_bytes(), 1u32.to_be_bytes(), e.to_be_bytes()].concat()).collect()].concat());
        let trak = |stbl: Vec<Vec<u8>>, di: Vec<u8>, extra: Vec<u8>| bx(b"trak", &[full(b"tkhd", 0, 0, &[0; 80]), bx(b"mdia", &bx(b"minf", &[di, bx(b"stbl", &stbl.concat())].concat())), extra].concat());
        let mvhd = full(b"mvhd", 0, 0, &[0; 96]);
        let aux = |v: u8, f: u32| { let mut d = if f & 1 == 1 { b"cenc\0\0\0\0".to_vec() } else { vec![] }; d.extend(list(&ch[1..], v == 1)); full(b"saio", v, f, &d) };
        match kind {
            "" => bx(b"moov", &[mvhd, trak(vec![full(b"stsd", 0, 0, &[0; 4]), co(ch)], vec![], vec![])].concat()),
            "own" => bx(b"moov", &[mvhd, trak(vec![stsd(&[1]), stsc(&[(1, 1)]), co(ch)], dinf(&[1]), vec![]), trak(vec![stsd(&[2]), stsc(&[(1, 1)]), co(&ch[1..])], dinf(&[1, 1]), vec![])].concat()),
            "saio" => bx(b"moov", &[mvhd, trak(vec![stsd(&[1]), co(&ch[..1]), full(b"saiz", 0, 0, &[4, 0, 0, 0, 1]), aux(0, 0), aux(1, 0), aux(0, 1), aux(1, 1)], dinf(&[1]), vec![])].concat()),
            "trak meta" => bx(b"moov", &[mvhd, trak(vec![stsd(&[1]), co(ch)], dinf(&[1]), self.inner_meta(ch))].concat()),
            "moov meta" => bx(b"moov", &[self.inner_meta(ch), mvhd, trak(vec![stsd(&[1]), co(ch)], dinf(&[1]), vec![])].concat()),
            "meco" => bx(b"meco", &[self.inner_meta(ch), full(b"mere", 0, 0, b"pictpict\x01")].concat()),
            // samples in another file, one track only or the whole movie
            "far" => bx(b"moov", &[mvhd, trak(vec![stsd(&[1]), stsc(&[(1, 1)]), co(&far)], dinf(&[0]), vec![]), trak(vec![stsd(&[1]), co(ch)], dinf(&[1]), vec![]), trak(vec![stsd(&[2]), stsc(&[(1, 1)]), co(&far)], dinf(&[1, 0]), vec![])].concat()),
            "wide" => bx(b"moov", &[mvhd, bx64(b"trak", &[bx64(b"tkhd", &[0; 84]), bx64(b"mdia", &bx64(b"minf", &[bx64(b"vmhd", &[0; 12]), dinf(&[0, 1]), bx64(b"stbl", &[bx64(b"sgpd", &[0; 8]), stsd(&[2]), bx64(if self.co64 { b"co64" } else { b"stco" }, &[vec![0; 4], list(ch, self.co64)].concat())].concat())].concat()))].concat()), bx64(b"trak", &bx64(b"mdia", &bx64(b"minf", &[bx64(b"dinf", &dinf(&[0])[8..]), bx64(b"stbl", &[bx64(b"stsd", &stsd(&[1])[8..]), co(&far)].concat())].concat())))].concat()),
            // samples of one track in both files
            _ => bx(b"moov", &[mvhd, trak(vec![stsd(&[1, 2]), stsc(&[(1, 2), (2, 1), (3, 2), (4, 1)]), co(&[far[1], ch[0], far[2], ch[1], ch[2]])], dinf(&[1, 0]), vec![])].concat()),
        }
    }
    pub fn build(&self) -> Vec<u8> {
        let mut off: BTreeMap<(usize, usize), u64> = BTreeMap::new();
        let mut chunks: Vec<u64> = vec![0; self.order.iter().map(|p| match p { P::Mdat(_, v) => v.iter().filter(|x| matches!(x, Pl::Chunk(_))).count(), _ => 0 }).sum()];
        let mut out = vec![];
        for _ in 0..2 {
            out = bx(b"ftyp", &[&self.brand[..], b"\0\0\0\0mif1heic", &self.brand].concat());
            let mut o2 = BTreeMap::new(); let mut c2 = vec![];
            for p in &self.order {
                match p {
                    P::Meta => {
                        let m = self.meta(&off);
                        if let Some((i, ..)) = self.inside { let d = &self.items[i].ext[0]; o2.insert((i, 0), (out.len() + m.windows(d.len()).position(|w| w == &d[..]).unwrap()) as u64); }
                        out.extend(m)
                    }
                    P::Moov(k) => out.extend(self.moov(&chunks, k)),
                    P::Other(t, d) => out.extend(bx(t, d)),
                    P::Large(t, d) => out.extend(bx64(t, d)),
                    P::Trail(d) => out.extend(d),
                    P::Mdat(k, pl) => {
                        let h = if *k == MK::Large { 16 } else { 8 };
                        let mut d = vec![]; let st = out.len() + h;
                        for x in pl { match x {
                            Pl::Item(i, e) => { o2.insert((*i, *e), (st + d.len()) as u64); d.extend(&self.items[*i].ext[*e]); }
                            Pl::Fill(f) => d.extend(f),
                            Pl::Chunk(c) => { c2.push((st + d.len()) as u64); d.extend(c); }
                        } }
                        out.extend(match k { MK::Norm => bx(b"mdat", &d), MK::Large => bx64(b"mdat", &d), MK::ToEnd => bx0(b"mdat", &d) });
                    }
                }
            }
            off = o2; chunks = c2;
        }
        out
    }
}
fn widen(d: &[u8]) -> Vec<u8> { boxes(d, 0).unwrap().iter().flat_map(|x| bx64(&x.t, &d[x.r.start + x.hdr..x.r.end])).collect() }
fn rd(b: &[u8], p: &mut usize, sz: usize) -> R<u64> { let x = b.get(*p..*p + sz).ok_or("truncated table")?; *p += sz; Ok(x.iter().fold(0u64, |a, c| a << 8 | *c as u64)) }
fn cstr_ok(_: &[u8]) {}
pub fn parse(b: &[u8]) -> R<Img> {
    let mut img = Img::default();
    // top level; up to 7 bytes that are no box may follow
    let mut end = b.len();
    let bs = loop { match boxes(&b[..end], 0) { Ok(v) => break v, Err(e) => { if b.len() - end >= 7 || end == 0 { return Err(e); } end -= 1; } } };
    if bs.is_empty() || &bs[0].t != b"ftyp" { return Err("first box is not ftyp".into()); }
    let metas: Vec<&Bx> = bs.iter().filter(|x| &x.t == b"meta").collect();
    if metas.len() != 1 { return Err(format!("{} meta boxes", metas.len())); }
    let m = metas[0]; let ms = m.r.start + m.hdr + 4;
    if ms > m.r.end { return Err("meta box without version".into()); }
    let inner = boxes(&b[ms..m.r.end], ms)?;
    if inner.first().map(|x| &x.t) != Some(b"hdlr") { return Err("hdlr is not the first box in meta".into()); }
    let one = |t: &[u8; 4], need: bool| -> R<Option<&Bx>> { let v: Vec<&Bx> = inner.iter().filter(|x| &x.t == t).collect(); if v.len() > 1 || need && v.is_empty() { return Err(format!("{} {} boxes in meta", v.len(), String::from_utf8_lossy(t))); } Ok(v.first().copied()) };
    let (iinf, iloc, iref, idat, pitm) = (one(b"iinf", true)?.unwrap(), one(b"iloc", true)?.unwrap(), one(b"iref", false)?, one(b"idat", false)?, one(b"pitm", false)?);
    // iinf
    let d = &b[iinf.r.start + iinf.hdr..iinf.r.end];
    let v = *d.first().ok_or("empty iinf")?; let mut p = 4;
    if v > 1 { return Err("iinf version".into()); }
    let n = rd(d, &mut p, if v == 0 { 2 } else { 4 })?;
    let base = iinf.r.start + iinf.hdr + p;
    let es = boxes(&b[base..iinf.r.end], base)?;
    if es.len() as u64 != n { return Err(format!("iinf states {} entries but has {}", n, es.len())); }
    let mut seen = std::collections::HashSet::new(); let mut infos: Vec<(u32, [u8; 4], std::ops::Range<usize>)> = vec![];
    for e in &es {
        if &e.t != b"infe" { return Err("iinf holds a box that is not infe".into()); }
        let d = &b[e.r.start + e.hdr..e.r.end]; let v = *d.first().ok_or("empty infe")?; let mut p = 4;
        if v > 3 { return Err("infe version".into()); }
        let id = rd(d, &mut p, if v < 3 { 2 } else { 4 })? as u32; rd(d, &mut p, 2)?;
        let t: [u8; 4] = if v < 2 { if d[p..].starts_with(b"Exif\0") { *b"Exif" } else { *b"\0\0\0\0" } } else { d.get(p..p + 4).ok_or("truncated infe")?.try_into().unwrap() };
        if v > 1 && (d[p + 4..].is_empty() || *d.last().unwrap() != 0) { return Err(format!("name in infe of item {} is not terminated", id)); }
        if !seen.insert(id) { return Err(format!("item {} appears twice in iinf", id)); }
        infos.push((id, t, e.r.clone()));
    }
    cstr_ok(d);
    // iref
    let mut refs: Vec<([u8; 4], u32, Vec<u32>)> = vec![];
    if let Some(x) = iref {
        let s = x.r.start + x.hdr; let v = *b[s..x.r.end].first().ok_or("empty iref")?; let w = if v == 0 { 2 } else { 4 };
        if s + 4 > x.r.end { return Err("truncated iref".into()); }
        if v > 1 { return Err("iref version".into()); }
        for r in boxes(&b[s + 4..x.r.end], s + 4)? {
            let d = &b[r.r.start + r.hdr..r.r.end]; let mut p = 0;
            let f = rd(d, &mut p, w)? as u32; let n = rd(d, &mut p, 2)?;
            let to: Vec<u32> = (0..n).map(|_| rd(d, &mut p, w).map(|x| x as u32)).collect::<R<_>>()?;
            if p != d.len() { return Err(format!("reference box of item {} has {} surplus bytes", f, d.len() - p)); }
            for i in to.iter().chain([&f]) { if !infos.iter().any(|x| x.0 == *i) { return Err(format!("reference to item {} that is not in iinf", i)); } }
            refs.push((r.t, f, to));
        }
    }
    // iloc
    // data references that mean this file
    let mut own: Vec<u16> = vec![0];
    for x in inner.iter().filter(|x| &x.t == b"dinf") { for y in boxes(&b[x.r.start + x.hdr..x.r.end], x.r.start + x.hdr)?.iter().filter(|y| &y.t == b"dref") {
        let s = y.r.start + y.hdr;
        let es = boxes(b.get(s + 8..y.r.end).ok_or("truncated dref")?, s + 8)?;
        if be32(b, s + 4)? != es.len() { return Err("dref states another number of entries than it has".into()); }
        for (i, e) in es.iter().enumerate() { if b[e.r.start + e.hdr + 3] & 1 == 1 { own.push(i as u16 + 1); } }
    } }
    #[derive(Clone)]
    struct Loc { id: u32, method: u8, dref: u16, ext: Vec<(u64, u64, u64)> }
    let d = &b[iloc.r.start + iloc.hdr..iloc.r.end];
    let v = *d.first().ok_or("empty iloc")?; let mut p = 4;
    if v > 2 { return Err("iloc version".into()); }
    let (a, c) = (rd(d, &mut p, 1)?, rd(d, &mut p, 1)?);
    let (osz, lsz, bsz, isz) = ((a >> 4) as usize, (a & 15) as usize, (c >> 4) as usize, if v > 0 { (c & 15) as usize } else { 0 });
    let n = rd(d, &mut p, if v == 2 { 4 } else { 2 })?;
    let mut locs: Vec<Loc> = vec![]; let mut located = std::collections::HashSet::new();
    for _ in 0..n {
        let id = rd(d, &mut p, if v == 2 { 4 } else { 2 })? as u32;
        let method = if v > 0 { (rd(d, &mut p, 2)? & 15) as u8 } else { 0 };
        let dr = rd(d, &mut p, 2)?;
        let base = rd(d, &mut p, bsz)?;
        let ec = rd(d, &mut p, 2)?;
        if !located.insert(id) { return Err(format!("item {} appears twice in iloc", id)); }
        let mut ext = vec![];
        for _ in 0..ec { let ix = rd(d, &mut p, isz)?; let o = rd(d, &mut p, osz)?; let l = rd(d, &mut p, lsz)?; ext.push((ix, base.checked_add(o).ok_or("offset overflow")?, l)); }
        if own.contains(&(dr as u16)) && dr > 0 && infos.iter().any(|x| x.0 == id && &x.1 != b"Exif") { img.plumb.push((format!("reference of {}", id), vec![dr as u8])); }
        locs.push(Loc { id, method, dref: if own.contains(&(dr as u16)) { 0 } else { dr as u16 }, ext });
    }
    if p != d.len() { return Err(format!("iloc has {} surplus bytes", d.len() - p)); }
    // the first one with a number counts
    let mut by_id: std::collections::HashMap<u32, usize> = Default::default();
    for (i, l) in locs.iter().enumerate() { by_id.entry(l.id).or_insert(i); }
    fn resolve(b: &[u8], id: u32, locs: &dyn Fn(u32) -> Option<Loc>, idat: Option<std::ops::Range<usize>>, refs: &[([u8; 4], u32, Vec<u32>)], depth: usize) -> R<Vec<u8>> {
        let Some(l) = locs(id) else { return Ok(vec![]) };
        let mut out = vec![];
        if l.dref != 0 {
            // in another file: what counts is where
            if depth > 0 { return Err("derived from external data".into()); }
            return Ok(l.ext.iter().flat_map(|e| [e.0, e.1, e.2]).chain([l.dref as u64]).flat_map(|x| x.to_be_bytes()).collect());
        }
        let own; let src: &[u8] = match l.method {
            0 => b,
            1 => &b[idat.clone().ok_or("idat method without idat box")?],
            2 => {
                if depth > 4 { return Err("item construction does not terminate".into()); }
                let r = refs.iter().find(|r| &r.0 == b"iloc" && r.1 == id).ok_or("item method without iloc reference")?;
                own = resolve(b, *r.2.first().ok_or("empty reference")?, locs, idat.clone(), refs, depth + 1)?; &own[..]
            }
            _ => return Err("construction method".into()),
        };
        for (_, o, n) in &l.ext {
            let n = if *n == 0 { (src.len() as u64).saturating_sub(*o) } else { *n };
            let e = o.checked_add(n).filter(|e| *e <= src.len() as u64).ok_or_else(|| format!("item {} extent [{},+{}) is outside its source of {} bytes", id, o, n, src.len()))?;
            out.extend(&src[*o as usize..e as usize]);
        }
        Ok(out)
    }
    let ir = idat.map(|x| x.r.start + x.hdr..x.r.end);
    // items
    let mut exif: Vec<u32> = vec![]; let mut holes: Vec<(usize, usize)> = vec![];
    let find = |id: u32| by_id.get(&id).map(|i| locs[*i].clone());
    let known: std::collections::HashSet<u32> = infos.iter().map(|x| x.0).collect();
    for (id, t, r) in &infos {
        let l = find(*id);
        let data = resolve(b, *id, &find, ir.clone(), &refs, 0)?;
        if t == b"Exif" {
            exif.push(*id);
            if l.as_ref().is_some_and(|l| l.dref != 0) { img.items.push((format!("external Exif item {}", id), data)); }
            else if !data.is_empty() {
                let o = be32(&data, 0)?;
                let x = data.get(4 + o..).ok_or("Exif item: TIFF offset outside the item")?;
                img.blocks.push(x.strip_prefix(b"Exif\0\0").unwrap_or(x).to_vec()); img.at.push(0);
            }
            if let Some(l) = &l { if l.method == 0 && l.dref == 0 { for e in &l.ext { if e.2 > 0 { holes.push((e.1 as usize, (e.1 + e.2) as usize)); } } } }
        } else {
            img.items.push((format!("item {} ({})", id, String::from_utf8_lossy(t)), b[r.clone()].to_vec()));
            img.items.push((format!("data of item {} method {} in {} extents", id, l.as_ref().map(|l| l.method).unwrap_or(0), l.as_ref().map(|l| l.ext.len()).unwrap_or(0)), data));
        }
    }
    for l in &locs { if !known.contains(&l.id) { img.items.push((format!("data of item {} that is not in iinf, method {} in {} extents", l.id, l.method, l.ext.len()), resolve(b, l.id, &find, ir.clone(), &refs, 0)?)); } }
    // entity groups and items share their numbers
    for g in inner.iter().filter(|x| &x.t == b"grpl") { for e in boxes(&b[g.r.start + g.hdr..g.r.end], g.r.start + g.hdr)? {
        let id = be32(b, e.r.start + e.hdr + 4)? as u32;
        if infos.iter().any(|x| x.0 == id) || locs.iter().any(|x| x.id == id) { return Err(format!("item {} has the number of an entity group", id)); }
    } }
    // extents must lie inside the payload of a box (not in headers or the tables)
    for l in locs.iter().filter(|l| l.method == 0 && l.dref == 0) { for (_, o, n) in &l.ext { if *n > 0 {
        let ok = bs.iter().any(|x| *o as usize >= x.r.start + x.hdr && (*o + *n) as usize <= x.r.end) || *o as usize >= end;
        if !ok { return Err(format!("extent [{},+{}) of item {} crosses a box boundary", o, n, l.id)); }
    } } }
    for (t, f, to) in &refs {
        let involves = exif.contains(f) || to.iter().any(|x| exif.contains(x));
        if !involves { img.items.push((format!("ref {} from {}", String::from_utf8_lossy(t), f), format!("{:?}", to).into_bytes())); }
        else { img.plumb.push((format!("ref {} from Exif", String::from_utf8_lossy(t)), format!("{:?}", to).into_bytes())); }
    }
    if let Some(p) = pitm { let d = &b[p.r.start + p.hdr..p.r.end]; let mut q = 4; let id = rd(d, &mut q, if *d.first().ok_or("empty pitm")? == 0 { 2 } else { 4 })?; if d[0] > 1 || q != d.len() || !infos.iter().any(|x| x.0 as u64 == id) { return Err(format!("primary item {} of version {} that is not in iinf", id, d[0])); } img.plumb.push(("primary".into(), format!("[{}]", id).into_bytes())); }
    else if let Some(f) = infos.first() { img.plumb.push(("first item".into(), format!("[{}]", f.0).into_bytes())); }
    for x in &inner { if !matches!(&x.t, b"iinf" | b"iloc" | b"iref") { img.items.push((format!("meta/{}", String::from_utf8_lossy(&x.t)), b[x.r.clone()].to_vec())); } }
    holes.sort();
    let without = |r: std::ops::Range<usize>| -> Vec<u8> { let mut o = vec![]; for i in r { if !holes.iter().any(|h| i >= h.0 && i < h.1) { o.push(b[i]) } } o };
    for (i, x) in bs.iter().enumerate() {
        if x.to_end && i + 1 != bs.len() { return Err("box without size is not the last".into()); }
        let name = String::from_utf8_lossy(&x.t).to_string();
        let body = x.r.start + x.hdr..x.r.end;
        match &x.t {
            b"meta" => img.items.push((format!("meta header {} bytes", x.hdr), b[x.r.start + x.hdr..ms].to_vec())),
            b"mdat" => { let c = without(body); if !c.is_empty() { img.items.push((format!("mdat header {} bytes to_end={}", x.hdr, x.to_end), c)); } }
            b"moov" | b"meco" => { let mut d = b[body].to_vec(); let mut inner = vec![]; chunks(b, &mut d, &mut inner, &None, &|o| bs.iter().any(|x| !matches!(&x.t, b"meta" | b"moov") && o >= x.r.start + x.hdr && o + 4 <= x.r.end) && !holes.iter().any(|h| o < h.1 && o + 4 > h.0))?; img.items.push((name, d)); img.items.extend(inner); }
            _ => img.items.push((format!("{} header {} bytes", name, x.hdr), without(body))),
        }
    }
    if end < b.len() { img.items.push(("after the last box".into(), b[end..].to_vec())); }
    Ok(img)
}
/// data references (1-based) in a dinf box that mean this file
fn own_refs(d: &[u8]) -> R<Vec<bool>> {
    let mut v = vec![];
    for y in boxes(d, 0)?.iter().filter(|y| &y.t == b"dref") { let s = y.r.start + y.hdr; for e in boxes(d.get(s + 8..y.r.end).ok_or("truncated dref")?, s + 8)? { v.push(d[e.r.start + e.hdr + 3] & 1 == 1); } }
    Ok(v)
}
/// replaces every offset by the four bytes it points at; `own` tells which chunks (and whether the last known one and those behind it) are in this file
fn chunks(b: &[u8], d: &mut [u8], inner: &mut Vec<(String, Vec<u8>)>, own: &Option<Vec<bool>>, ok: &dyn Fn(usize) -> bool) -> R<()> {
    let v: Vec<([u8; 4], std::ops::Range<usize>)> = boxes(d, 0)?.iter().map(|x| (x.t, x.r.start + x.hdr..x.r.end)).collect();
    let part = |t: &[u8; 4], d: &[u8]| v.iter().find(|x| &x.0 == t).map(|x| d[x.1.clone()].to_vec());
    let own = if let Some(x) = part(b"dinf", d) { Some(own_refs(&x)?) } else { own.clone() };
    // per chunk, by its sample description
    let mine = |d: &[u8], n: usize| -> R<bool> {
        let (Some(own), Some(sd)) = (&own, part(b"stsd", d)) else { return Ok(true) };
        let es = boxes(sd.get(8..).ok_or("short stsd")?, 8)?;
        let mut e = 1;
        if let Some(sc) = part(b"stsc", d) { for i in 0..be32(&sc, 4)? { if be32(&sc, 8 + 12 * i)? <= n + 1 { e = be32(&sc, 16 + 12 * i)?; } } }
        let x = es.get(e.wrapping_sub(1)).ok_or("sample description")?; let r = x.r.start + x.hdr + 6;
        let r = u16::from_be_bytes(sd.get(r..r + 2).ok_or("short sample entry")?.try_into().unwrap()) as usize;
        Ok(*own.get(r.wrapping_sub(1)).ok_or("data reference")?)
    };
    let get = |o: usize| -> R<Vec<u8>> { Ok(b.get(o..o.saturating_add(4)).filter(|_| ok(o)).ok_or("chunk offset outside of media data")?.to_vec()) };
    let mut put = vec![];
    for (t, r) in &v { match t {
        b"stco" => { let mut p = r.start + 8; let mut n = 0; while p + 4 <= r.end { if mine(d, n)? { put.push((p, get(be32(d, p)?)?)); } p += 4; n += 1; } }
        b"co64" => { let mut p = r.start + 8; let mut n = 0; while p + 8 <= r.end { if mine(d, n)? { put.push((p, [get(be64(d, p)? as usize)?, vec![0; 4]].concat())); } p += 8; n += 1; } }
        b"saio" => {
            let (w, mut p) = (if d[r.start] == 0 { 4 } else { 8 }, r.start + if d[r.start + 3] & 1 == 1 { 12 } else { 4 });
            let n = rd(d, &mut p, 4)?; if p + n as usize * w != r.end { return Err("entries of saio".into()); }
            for _ in 0..n { let q = p; put.push((q, [get(rd(d, &mut p, w)? as usize)?, vec![0; w - 4]].concat())); }
        }
        b"meta" => {
            let x = &d[r.clone()]; let es = boxes(x.get(4..).ok_or("short meta")?, 4)?;
            let mut mine = vec![true]; for e in es.iter().filter(|e| &e.t == b"dinf") { mine.extend(own_refs(&x[e.r.start + e.hdr..e.r.end])?); }
            for e in es.iter().filter(|e| &e.t == b"iloc") {
                let (l, at) = (&x[e.r.start + e.hdr..e.r.end], r.start + e.r.start + e.hdr);
                if l.len() < 8 || l[0] != 1 { return Err("inner iloc".into()); }
                let (os, ls, bs) = ((l[4] >> 4) as usize, (l[4] & 15) as usize, (l[5] >> 4) as usize);
                let mut p = 6; let n = rd(l, &mut p, 2)?;
                for _ in 0..n {
                    let id = rd(l, &mut p, 2)?; let m = rd(l, &mut p, 2)?; let dr = rd(l, &mut p, 2)? as usize;
                    let here = m == 0 && *mine.get(dr).ok_or("inner data reference")?;
                    if here { put.push((at + p, vec![0; bs])); }
                    let base = rd(l, &mut p, bs)?; let c = rd(l, &mut p, 2)?; let mut data = vec![];
                    for _ in 0..c { let q = p; let o = base + rd(l, &mut p, os)?; let n = rd(l, &mut p, ls)?; if here { if n != 4 { return Err("inner extent".into()); } put.push((at + q, vec![0; os])); data.extend(get(o as usize)?); } }
                    if here { inner.push((format!("data of inner item {}", id), data)); }
                }
                if p != l.len() { return Err("inner iloc has surplus bytes".into()); }
            }
        }
        _ => (),
    } }
    for (p, x) in put { d[p..p + x.len()].copy_from_slice(&x); }
    for (t, r) in v { if matches!(&t, b"trak" | b"mdia" | b"minf" | b"stbl") { chunks(b, &mut d[r], inner, &own, ok)?; } }
    Ok(())
}
/// Enumerated files. `level` 0 is a small set, 1 the quick set, 2 the thorough set.
pub fn seeds(level: usize) -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    for (n, c) in cfgs(level) { out.push((n, c.build())); }
    out
}
pub fn base_cfg() -> Cfg {
    Cfg { brand: *b"heic", iloc_v: 1, osz: 4, lsz: 4, bsz: 0, isz: 0, base: false, iinf_v: 0, infe_v: 2, iref: Some(0), pitm: Some(0), items: vec![], refs: vec![], order: vec![], co64: false, meta_order: 0, large_meta: false, extra: vec![], wide: 0, odd: false, meta_to_end: false, inside: None }
}
pub fn cfgs(level: usize) -> Vec<(String, Cfg)> {
    let mut out: Vec<(String, Cfg)> = vec![];
    let img = |id: u32, method: u8, n: usize| It { id, typ: *b"hvc1", method, ext: (0..n).map(|e| format!("<img{}.{}>", id, e).into_bytes()).collect(), hidden: false, dref: 0 };
    let mime = |id: u32| It { id, typ: *b"mime", method: 0, ext: vec![b"<x:xmpmeta/>".to_vec()], hidden: false, dref: 0 };
    let far = |id: u32, dref: u16, e: &[(u64, u64)]| It { id, typ: *b"hvc1", method: 0, ext: e.iter().map(|(o, l)| [o.to_be_bytes(), l.to_be_bytes()].concat()).collect(), hidden: false, dref };
    let ex = |id: u32, style: u8| It { id, typ: *b"Exif", method: 0, ext: vec![exif_item(&old_block(style == 1, style as usize), style)], hidden: true, dref: 0 };
    let own = |mut i: It| { i.dref = HERE; i };
    // item sets: (name, items, refs); item 0 is the primary image
    let sets: Vec<(&str, Vec<It>)> = vec![
        ("noexif", vec![img(1, 0, 1)]),
        ("exif", vec![img(1, 0, 1), ex(2, 0)]),
        ("exif+mime", vec![img(1, 0, 2), ex(5, 1), mime(3)]),
        ("idat", vec![img(1, 0, 1), img(2, 1, 2)]),
        ("idat+exif", vec![img(7, 1, 1), ex(2, 2), img(3, 0, 2)]),
        ("idat only", vec![img(1, 1, 1), img(2, 1, 2)]),
        ("grid", vec![img(300, 0, 3), mime(20), It { id: 40, typ: *b"grid", method: 2, ext: vec![[2u64.to_be_bytes(), 3u64.to_be_bytes()].concat()], hidden: false, dref: 0 }]),
        ("gridexif", vec![img(9, 0, 1), ex(8, 0), It { id: 40, typ: *b"grid", method: 2, ext: vec![[1u64.to_be_bytes(), 4u64.to_be_bytes()].concat()], hidden: false, dref: 0 }]),
        ("ext", vec![img(1, 0, 1), ex(2, 0), far(5, 1, &[(100000, 50), (3, 0)]), far(6, 2, &[(0, 0)])]),
        ("extprim", vec![far(1, 1, &[(4000, 7)]), img(2, 0, 1)]),
        ("2exif", vec![img(1, 0, 1), ex(2, 0), img(3, 0, 1), ex(4, 1)]),
        ("3exif", vec![img(1, 0, 1), ex(9, 2), ex(4, 1), ex(7, 0)]),
        ("uns:exif idat", vec![img(1, 0, 1), { let mut e = ex(2, 0); e.method = 1; e }]),
        ("uns:exif 2 extents", vec![img(1, 0, 1), { let mut e = ex(2, 0); let t = e.ext[0].split_off(20); e.ext.push(t); e }]),
        ("uns:exif far", vec![img(1, 0, 1), { let mut e = far(2, 1, &[(8, 8)]); e.typ = *b"Exif"; e }]),
        ("uns:exif item", vec![{ let mut i = img(1, 0, 1); i.ext[0].extend(exif_item(&old_block(false, 0), 0)); i }, It { id: 2, typ: *b"Exif", method: 2, ext: vec![[8u64.to_be_bytes(), (exif_item(&old_block(false, 0), 0).len() as u64).to_be_bytes()].concat()], hidden: true, dref: 0 }]),
        ("own", vec![img(1, 0, 1), own(img(4, 0, 2)), ex(2, 0), far(6, 1, &[(0, 0), (3, 9)])]),
        ("own exif", vec![own(img(1, 0, 1)), own(ex(2, 0)), img(3, 0, 1)]),
        ("own noexif", vec![img(1, 0, 1), own(img(7, 0, 1))]),
        ("unlisted", vec![img(1, 0, 1), It { id: 4, typ: *UNLISTED, method: 0, ext: vec![b"<unlisted>".to_vec()], hidden: false, dref: 0 }, img(3, 0, 1)]),
        ("unlisted exif", vec![img(1, 0, 1), ex(2, 0), It { id: 9, typ: *UNLISTED, method: 0, ext: vec![b"<unl".to_vec(), b"isted>".to_vec()], hidden: false, dref: 0 }]),
        ("named", vec![img(1, 0, 1), It { typ: *b"\0Ex0", ..ex(2, 0) }, It { typ: *b"\0Im1", ..img(3, 0, 1) }]),
        ("named1", vec![It { typ: *b"\0Im0", ..img(4, 0, 1) }, It { typ: *b"\0Ex1", ..ex(2, 1) }]),
        ("noloc", vec![img(1, 0, 1), It { id: 2, typ: *b"iden", method: 0, ext: vec![], hidden: false, dref: 0 }, ex(3, 0)]),
    ];
    // orders of item data inside mdat x top-level layouts
    for (sn, its) in &sets {
        let exi = its.iter().position(|i| (&i.typ == b"Exif" || i.typ.starts_with(b"\0Ex")) && i.method == 0 && (i.dref == 0 || i.dref == HERE) && i.ext.len() == 1).map(|x| x as i32).unwrap_or(-1);
        let pieces: Vec<Pl> = its.iter().enumerate().filter(|(i, it)| it.method == 0 && (it.dref == 0 || it.dref == HERE) && *i as i32 != exi).flat_map(|(i, it)| (0..it.ext.len()).map(move |e| Pl::Item(i, e))).collect();
        let mut datas: Vec<(String, Vec<Pl>)> = vec![];
        if exi >= 0 {
            for pos in 0..=pieces.len() { if level < 2 && pieces.len() > 2 && pos != 0 && pos != 1 && pos != pieces.len() { continue; } let mut p = pieces.clone(); p.insert(pos, Pl::Item(exi as usize, 0)); datas.push((format!("e{}", pos), p)); }
        } else { datas.push(("-".into(), pieces.clone())); }
        { let mut p = vec![Pl::Fill(b"gap!".to_vec())]; p.extend(datas.last().unwrap().1.clone()); p.push(Pl::Fill(b"tail".to_vec())); p.reverse(); datas.push(("rev".into(), p)); }
        let mut layouts: Vec<(String, Box<dyn Fn(Vec<Pl>) -> Vec<P>>)> = vec![
            ("meta mdat".into(), Box::new(|d| vec![P::Meta, P::Mdat(MK::Norm, d)])),
            ("mdat meta".into(), Box::new(|d| vec![P::Mdat(MK::Norm, d), P::Meta])),
            ("meta mdat0".into(), Box::new(|d| vec![P::Meta, P::Mdat(MK::ToEnd, d)])),
            ("meta mdatL free".into(), Box::new(|d| vec![P::Meta, P::Mdat(MK::Large, d), P::Other(*b"free", vec![0; 5])])),
            ("free meta uuid mdat mdat".into(), Box::new(|d| vec![P::Other(*b"free", vec![]), P::Meta, P::Other(*b"uuid", vec![9; 20]), P::Mdat(MK::Norm, vec![Pl::Fill(b"first".to_vec())]), P::Mdat(MK::Norm, d)])),
            ("moov mdat meta".into(), Box::new(|d| { let mut v = vec![Pl::Chunk(b"chn0".to_vec())]; v.extend(d); v.push(Pl::Chunk(b"chn1".to_vec())); vec![P::Moov(""), P::Mdat(MK::Norm, v), P::Meta, P::Mdat(MK::Norm, vec![Pl::Chunk(b"chn2".to_vec())])] })),
            ("meta mdat trail".into(), Box::new(|d| vec![P::Meta, P::Mdat(MK::Norm, d), P::Trail(vec![1, 2, 3])])),
            ("split".into(), Box::new(|d| { let h = d.len() / 2; vec![P::Mdat(MK::Norm, d[..h].to_vec()), P::Meta, P::Mdat(MK::Large, d[h..].to_vec()), P::Large(*b"skip", vec![4; 3])] })),
            ("in free".into(), Box::new(|d| vec![P::Meta, P::Mdat(MK::Norm, d), P::Mdat(MK::ToEnd, vec![Pl::Chunk(b"abcd".to_vec())])])),
        ];
        if level == 0 { layouts.truncate(2); }
        else if matches!(*sn, "noexif" | "exif" | "own exif" | "idat only") || level > 1 {
            for kind in MOOVS {
                let at = |d: Vec<Pl>| { let mut v = vec![Pl::Chunk(b"chn0".to_vec())]; v.extend(d); v.push(Pl::Chunk(b"chn1".to_vec())); P::Mdat(MK::Norm, v) };
                let last = P::Mdat(MK::Norm, vec![Pl::Chunk(b"chn2".to_vec())]); let l2 = last.clone();
                layouts.push((format!("{} mdat meta", kind), Box::new(move |d| vec![P::Moov(kind), at(d), P::Meta, last.clone()])));
                if kind == MOOVS[0] {
                    layouts.push(("mdat meta0".into(), Box::new(|d| vec![P::Mdat(MK::Norm, d), P::Meta])));
                    if pieces.is_empty() { layouts.push(("no mdat".into(), Box::new(|_| vec![P::Other(*b"free", vec![1]), P::Meta, P::Other(*b"free", vec![2])]))); layouts.push(("uns:no mdat0".into(), Box::new(|_| vec![P::Meta, P::Trail(b"\0\0\0\0skipabc".to_vec())]))); }
                }
                layouts.push((format!("meta mdat {}", kind), Box::new(move |d| vec![P::Meta, at(d), P::Moov(kind), l2.clone()])));
            }
        }
        // table variants
        let mut tabs: Vec<(String, Box<dyn Fn(&mut Cfg)>)> = vec![
            ("v1".into(), Box::new(|_| ())),
            ("v0 pitm- iref-".into(), Box::new(|c| { c.iloc_v = 0; c.pitm = None; c.iref = None; c.meta_order = 1; })),
            ("v2 88 base8 idx4 iinf1 infe3 iref1 pitm1".into(), Box::new(|c| { c.iloc_v = 2; c.osz = 8; c.lsz = 8; c.bsz = 8; c.isz = 4; c.base = true; c.iinf_v = 1; c.infe_v = 3; c.iref = Some(1); c.pitm = Some(1); c.meta_order = 2; c.co64 = true; })),
            ("v1 base4".into(), Box::new(|c| { c.bsz = 4; c.base = true; c.meta_order = 3; c.brand = *b"avif"; })),
            ("v1 o8 l4 base8 idx8 iref1".into(), Box::new(|c| { c.osz = 8; c.bsz = 8; c.isz = 8; c.iref = Some(1); c.brand = *b"mif1"; c.co64 = true; })),
            ("v1 Lmeta iref-".into(), Box::new(|c| { c.large_meta = true; c.iref = None; c.meta_order = 3; })),
        ];
        if level > 0 { tabs.push(("odd v1".into(), Box::new(|c| { c.odd = true; }))); tabs.push(("odd v0".into(), Box::new(|c| { c.odd = true; c.iloc_v = 0; c.meta_order = 2; c.infe_v = 3; }))); }
        if level > 0 { for w in 1..3u8 {
            tabs.push((format!("wide{}", w), Box::new(move |c| { c.wide = w; })));
            tabs.push((format!("wide{} Lmeta base4 v2", w), Box::new(move |c| { c.wide = w; c.large_meta = true; c.iloc_v = 2; c.bsz = 4; c.base = true; c.iinf_v = 1; c.infe_v = 3; c.iref = Some(1); c.meta_order = 3; })));
        } }
        if level == 0 { tabs.truncate(3); }
        if level >= 2 {
            // full product of the iloc field sizes and box versions
            for iv in 0..3u8 { for (o, l) in [(4u8, 4u8), (8, 4), (4, 8), (8, 8)] { for (b, bs) in [(0u8, false), (4, false), (4, true), (8, true)] { for ix in if iv == 0 { vec![0u8] } else { vec![0, 4, 8] } { for rv in [None, Some(0u8), Some(1)] { for mo in 0..4u8 {
                tabs.push((format!("p{}.{}{}{}{}.{}.{:?}.{}", iv, o, l, b, bs as u8, ix, rv, mo), Box::new(move |c| { c.iloc_v = iv; c.osz = o; c.lsz = l; c.bsz = b; c.base = bs; c.isz = ix; c.iref = rv; c.meta_order = mo; c.iinf_v = mo % 2; c.infe_v = 2 + (mo / 2); c.pitm = [Some(0), Some(1), None, Some(0)][mo as usize]; })));
            } } } } } }
        }
        for (dn, d) in &datas { for (ln, l) in &layouts { for (ti, (tn, t)) in tabs.iter().enumerate() {
            if level == 2 && ti >= 12 && (ti + dn.len()) % 3 != 0 && ln != "meta mdat" && ln != "mdat meta" { continue; }
            let mut c = base_cfg();
            c.items = its.clone(); c.order = l(d.clone());
            t(&mut c);
            c.meta_to_end = ln == "mdat meta0";
            if c.meta_to_end && c.large_meta { continue; }
            if c.iloc_v == 0 && its.iter().any(|i| i.method != 0) { c.iloc_v = 1; }
            let has = |i: u32| its.iter().any(|x| x.id == i);
            let p = its[0].id;
            if its.iter().any(|i| i.method == 2) && c.iref.is_none() { c.iref = Some(0); }
            if c.iref.is_some() {
                if has(3) { c.refs.push((*b"cdsc", 3, vec![p])); }
                for (k, e) in its.iter().filter(|i| &i.typ == b"Exif").enumerate() { c.refs.push((*b"cdsc", e.id, vec![if k > 0 && has(3) { 3 } else { p }])); if e.method == 2 { c.refs.push((*b"iloc", e.id, vec![p])); } }
                if let Some(g) = its.iter().find(|i| i.method == 2 && &i.typ != b"Exif") { c.refs.push((*b"iloc", g.id, vec![p])); c.refs.push((*b"dimg", g.id, vec![p, p])); }
            }
            out.push((format!("heif[{}|{}|{}|{}]", sn, dn, ln, tn), c));
        } } }
    }
    out
}
/// boxes with names of all kinds, in the file and inside of its meta box
pub const NAMES: [&[u8; 4]; 85] = [b"ipco", b"ipma", b"pdin", b"mvhd", b"tkhd", b"mdhd", b"nmhd", b"elng", b"stsd", b"stdp", b"stts", b"ctts", b"cslg", b"stss", b"stsh", b"sdtp", b"elst", b"url ", b"urn ", b"dref", b"stsz", b"stz2", b"stsc", b"stco", b"co64", b"padb", b"subs", b"saiz", b"saio", b"mehd", b"trex", b"mfhd", b"tfhd", b"trun", b"tfra", b"mfro", b"tfdt", b"leva", b"trep", b"assp", b"sbgp", b"sgpd", b"cprt", b"tsel", b"kind", b"xml ", b"bxml", b"ipro", b"mere", b"schm", b"fiin", b"fpar", b"fecr", b"gitn", b"fire", b"stri", b"stsg", b"stvi", b"sidx", b"ssix", b"prft", b"srpp", b"vmhd", b"smhd", b"srat", b"chnl", b"dmix", b"ludt", b"txtC", b"uri ", b"uriI", b"hmhd", b"sthd", b"free", b"skip", b"udta", b"styp", b"Exif", b"abcd", b"jumb", b"mvex", b"mfra", b"sinf", b"EXIF", b"exif"];
pub fn names() -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    let img = It { id: 1, typ: *b"hvc1", method: 0, ext: vec![b"<img1>".to_vec()], hidden: false, dref: 0 };
    let ex = It { id: 2, typ: *b"Exif", method: 0, ext: vec![exif_item(&old_block(false, 0), 0)], hidden: true, dref: 0 };
    let mut ts: Vec<(String, Vec<[u8; 4]>)> = NAMES.iter().map(|t| (String::from_utf8_lossy(&t[..]).to_string(), vec![**t])).collect();
    ts.push(("not ASCII".into(), vec![[0xa9, b'n', b'a', b'm'], [0xff; 4]]));
    for (n, t) in ts { for (vn, body) in [("zero", vec![0u8; 8]), ("version", vec![1, 2, 3, 4, 0, 0, 0, 0, 9]), ("four", vec![0xff, 0xfe, 0xfd, 0xfc])] { for exif in [false, true] {
        let bs = |wide: bool| -> Vec<u8> { t.iter().flat_map(|t| if wide { bx64(t, &body) } else { bx(t, &body) }).collect() };
        let pl = if exif { vec![Pl::Item(1, 0), Pl::Item(0, 0)] } else { vec![Pl::Item(0, 0)] };
        for place in ["file", "meta"] {
            let mut c = base_cfg();
            c.items = if exif { vec![img.clone(), ex.clone()] } else { vec![img.clone()] };
            let mut o = vec![P::Meta, P::Mdat(MK::Norm, pl.clone())];
            if place == "file" { o.insert(0, P::Trail(bs(false))); o.insert(2, P::Trail(bs(true))); o.push(P::Trail(bs(false))); } else { c.extra = [bs(false), bs(true)].concat(); }
            c.order = o;
            out.push((format!("heif[box {} {} in {} {}]", n, vn, place, exif), c.build()));
        }
    } } }
    out
}
/// item data that lies within the meta box and is located relative to the file: at every place among its boxes
pub fn inside() -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    let item = |id: u32, typ: &[u8; 4], d: Vec<u8>| It { id, typ: *typ, method: 0, ext: vec![d], hidden: false, dref: 0 };
    let ex = |style: u8| exif_item(&old_block(false, 0), style);
    for t in [b"idat", b"free"] { for mo in 0..4u8 { for slot in 1..=9usize { for iref in [None, Some(0)] { for first in [false, true] { for kind in ["uns:none", "exif", "uns:exif inside"] { for iv in 0..2u8 {
        let mut c = base_cfg();
        c.items = vec![item(1, b"hvc1", b"<img1>".to_vec()), item(5, b"hvc1", b"<img5>".to_vec())];
        if kind != "uns:none" { c.items.push(item(2, b"Exif", ex(1))); if iref.is_some() { c.refs.push((*b"cdsc", 2, vec![1])); } }
        let (near, far) = if kind == "uns:exif inside" { (2, 1) } else { (1, 2) };
        c.meta_order = mo; c.iref = iref; c.inside = Some((near, slot, *t)); c.iloc_v = iv;
        let d = if kind == "uns:none" { vec![Pl::Item(0, 0)] } else { vec![Pl::Item(0, 0), Pl::Item(far, 0)] };
        c.order = if first { vec![P::Mdat(MK::Norm, d), P::Meta] } else { vec![P::Meta, P::Mdat(MK::Norm, d)] };
        out.push((format!("heif[in meta {} {} {} {} {:?} {} {}]", kind, String::from_utf8_lossy(t), mo, slot, iref, first, iv), c.build()));
    } } } } } } }
    out
}
/// long tables of offsets
pub fn tables() -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    let img = It { id: 1, typ: *b"hvc1", method: 0, ext: vec![b"<img1>".to_vec()], hidden: false, dref: 0 };
    let ex = It { id: 2, typ: *b"Exif", method: 0, ext: vec![exif_item(&old_block(false, 0), 0)], hidden: true, dref: 0 };
    for kind in ["own", "saio", "wide"] { for exif in [false, true] { for co64 in [false, true] { for n in [257usize, 1025, 70_001] {
        let mut c = base_cfg();
        c.co64 = co64; c.items = if exif { vec![img.clone(), ex.clone()] } else { vec![img.clone()] };
        let mut d: Vec<Pl> = vec![Pl::Item(0, 0)];
        if exif { d.push(Pl::Item(1, 0)); }
        d.extend((0..n).map(|i| Pl::Chunk((i as u32).to_be_bytes().to_vec())));
        c.order = vec![P::Meta, P::Moov(kind), P::Mdat(MK::Norm, d)];
        out.push((format!("heif[{} chunks {} {} {}]", n, kind, exif, co64), c.build()));
    } } } }
    out
}
/// as many items as the 16 bit counters of the tables can count
pub fn counters() -> Vec<(String, Vec<u8>)> {
    let mut out = vec![];
    for n in [65534u32, 65535] { for (t, iinf_v, unlisted) in [("uns:iinf", 0u8, false), ("iinf 1", 1, false), ("iloc only", 0, true)] { for first in [false, true] {
        let mut c = base_cfg();
        c.iloc_v = 2; c.infe_v = 3; c.iinf_v = iinf_v; c.iref = Some(1); c.pitm = Some(1);
        c.items = (0..n).map(|i| It { id: 70_000 + i, typ: if unlisted && i > 0 { *UNLISTED } else { *b"hvc1" }, method: 0, ext: vec![vec![i as u8]], hidden: false, dref: 0 }).collect();
        let d: Vec<Pl> = (0..c.items.len()).map(|i| Pl::Item(i, 0)).collect();
        c.order = if first { vec![P::Mdat(MK::Norm, d), P::Meta] } else { vec![P::Meta, P::Mdat(MK::Norm, d)] };
        let t = if n == 65534 { t.trim_start_matches("uns:") } else { t };
        out.push((format!("heif[{} items {} {}]", n, t, first), c.build()));
    } } }
    out
}
/// long items, many items, many extents, wide item numbers
/// items longer than 24 bits count: EXIF data before, between and behind them, and none at all
pub fn huge(a: &[u8], b: &[u8], block: &[u8]) -> Vec<Vec<u8>> {
    let img = |id: u32, d: &[u8]| It { id, typ: *b"hvc1", method: 0, ext: vec![d.to_vec()], hidden: false, dref: 0 };
    let ex = || It { id: 2, typ: *b"Exif", method: 0, ext: vec![exif_item(&old_block(false, 0), 0)], hidden: true, dref: 0 };
    let mut out = vec![];
    for at in 0..5 { for first in [false, true] {
        let mut c = base_cfg();
        c.items = if at < 4 { vec![img(1, a), img(3, b)] } else { vec![img(1, b"<img1>"), It { ext: vec![exif_item(block, 1)], ..ex() }, img(3, b"<img3>")] };
        if at < 3 { c.items.insert(at, ex()); }
        if at != 3 { c.refs.push((*b"cdsc", 2, vec![1])); }
        let d: Vec<Pl> = (0..c.items.len()).map(|i| Pl::Item(i, 0)).collect();
        c.order = if first { vec![P::Mdat(MK::Norm, d), P::Meta] } else { vec![P::Meta, P::Mdat(MK::Norm, d)] };
        out.push(c.build());
    } }
    out
}
pub fn scale(big: &[u8]) -> Vec<(String, Vec<u8>)> {
    let mut out: Vec<(String, Cfg)> = vec![];
    let img = |id: u32, ext: Vec<Vec<u8>>| It { id, typ: *b"hvc1", method: 0, ext, hidden: false, dref: 0 };
    let ex = |id: u32, b: &[u8]| It { id, typ: *b"Exif", method: 0, ext: vec![exif_item(b, 0)], hidden: true, dref: 0 };
    let fill = |n: usize| -> Vec<u8> { (0..n).map(|i| (i % 251) as u8).collect() };
    let all = |its: &[It]| -> Vec<Pl> { its.iter().enumerate().flat_map(|(i, it)| (0..it.ext.len()).map(move |e| Pl::Item(i, e))).collect() };
    let old = old_block(false, 0);
    let wide = |c: &mut Cfg| { c.iloc_v = 2; c.infe_v = 3; c.iinf_v = 1; c.iref = Some(1); c.pitm = Some(1); };
    let mut add = |n: String, its: Vec<It>, w: bool, first: bool, cdsc: bool| {
        let mut c = base_cfg(); if w { wide(&mut c); }
        let d = all(&its);
        c.order = if first { vec![P::Mdat(MK::Norm, d), P::Meta] } else { vec![P::Meta, P::Mdat(MK::Norm, d)] };
        if cdsc { for e in its.iter().filter(|i| &i.typ == b"Exif") { c.refs.push((*b"cdsc", e.id, vec![its[0].id])); } }
        c.items = its; out.push((n, c));
    };
    for n in [4096usize, 8192, 65535, 65536, 70001] { for first in [false, true] {
        add(format!("heif[long {} {}]", n, first), vec![img(1, vec![fill(n)]), ex(2, &old), img(3, vec![fill(n + 1)])], false, first, true);
        add(format!("heif[long noexif {} {}]", n, first), vec![img(1, vec![fill(n)]), img(3, vec![fill(n + 1)])], false, first, true);
    } }
    for first in [false, true] {
        add(format!("heif[long exif {}]", first), vec![img(1, vec![fill(50)]), ex(2, big), img(3, vec![fill(51)])], false, first, true);
        for w in [false, true] {
            let b = if w { 70_000u32 } else { 1000 };
            let mut its: Vec<It> = (0..300).map(|i| img(b + 300 - i, vec![fill(1 + i as usize % 5)])).collect();
            add(format!("heif[300 items {} {}]", w, first), its.clone(), w, first, true);
            its.insert(100, ex(b - 1, &old));
            add(format!("heif[301 items {} {}]", w, first), its, w, first, true);
            add(format!("heif[300 extents {} {}]", w, first), vec![img(b, (0..300).map(|i| fill(1 + i % 3)).collect()), ex(b + 1, &old), img(b + 2, vec![fill(2)])], w, first, true);
            add(format!("heif[wide {} {}]", w, first), vec![img(if w { 65_536 } else { 65_534 }, vec![fill(9)]), ex(if w { 0xffff_fffe } else { 2 }, &old)], w, first, true);
            add(format!("heif[wide noexif {} {}]", w, first), vec![img(if w { 65_536 } else { 65_000 }, vec![fill(9)]), img(7, vec![fill(2)])], w, first, true);
            add(format!("heif[highest {} {}]", w, first), vec![img(if w { 0xffff_fffe } else { 65_534 }, vec![fill(9)])], w, first, true);
            // one image, several descriptions of it
            add(format!("heif[uncited {} {}]", w, first), vec![img(5, vec![fill(9)]), ex(6, &old)], w, first, false);
        }
    }
    out.into_iter().map(|(n, c)| (n, c.build())).collect()
}
