//! Logical tags and metadata, independent of little_exif's own value conversions.
use crate::dict::DICT;
use little_exif::endian::Endian;
use little_exif::exif_tag::ExifTag;
use little_exif::exif_tag_format::ExifTagFormat;
use little_exif::ifd::{ExifTagGroup, ImageFileDirectory};
use little_exif::metadata::Metadata;
use std::collections::BTreeMap;

pub const FSZ: [u32; 13] = [0, 1, 1, 2, 4, 8, 1, 1, 2, 4, 8, 4, 8];
/// element size for byte swapping
pub const FEL: [usize; 13] = [1, 1, 1, 2, 4, 4, 1, 1, 2, 4, 4, 4, 8];
pub fn group(g: u8) -> ExifTagGroup { [ExifTagGroup::GENERIC, ExifTagGroup::EXIF, ExifTagGroup::INTEROP, ExifTagGroup::GPS][g as usize] }
pub fn gnum(g: ExifTagGroup) -> u8 { match g { ExifTagGroup::GENERIC => 0, ExifTagGroup::EXIF => 1, ExifTagGroup::INTEROP => 2, ExifTagGroup::GPS => 3 } }
pub fn gname(g: u8) -> &'static str { ["GENERIC", "EXIF", "INTEROP", "GPS"][g as usize] }
pub fn fmt(f: u16) -> ExifTagFormat { ExifTagFormat::from_u16(f).expect("format") }
pub fn endian(be: bool) -> Endian { if be { Endian::Big } else { Endian::Little } }

/// A logical tag: value given as little-endian bytes (strings without terminator)
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct LTag { pub num: u16, pub grp: u8, pub fmt: u16, pub le: Vec<u8> }

pub fn swap(f: u16, b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    for c in v.chunks_mut(FEL[f as usize]) { c.reverse(); }
    v
}
impl LTag {
    pub fn new(num: u16, grp: u8, fmt: u16, le: Vec<u8>) -> LTag { LTag { num, grp, fmt, le } }
    pub fn s(num: u16, grp: u8, s: &str) -> LTag { LTag { num, grp, fmt: 2, le: s.as_bytes().to_vec() } }
    pub fn u16s(num: u16, grp: u8, v: &[u16]) -> LTag { LTag { num, grp, fmt: 3, le: v.iter().flat_map(|x| x.to_le_bytes()).collect() } }
    pub fn u32s(num: u16, grp: u8, v: &[u32]) -> LTag { LTag { num, grp, fmt: 4, le: v.iter().flat_map(|x| x.to_le_bytes()).collect() } }
    pub fn rat(num: u16, grp: u8, v: &[(u32, u32)]) -> LTag { LTag { num, grp, fmt: 5, le: v.iter().flat_map(|x| [x.0.to_le_bytes(), x.1.to_le_bytes()].concat()).collect() } }
    pub fn srat(num: u16, grp: u8, v: &[(i32, i32)]) -> LTag { LTag { num, grp, fmt: 10, le: v.iter().flat_map(|x| [x.0.to_le_bytes(), x.1.to_le_bytes()].concat()).collect() } }
    pub fn undef(num: u16, grp: u8, v: &[u8]) -> LTag { LTag { num, grp, fmt: 7, le: v.to_vec() } }
    pub fn known(&self) -> Option<&'static (&'static str, u16, u16, u32, bool, u8)> { DICT.iter().find(|d| d.1 == self.num && d.5 == self.grp) }
    /// bytes as stored in a TIFF value (strings NUL-terminated)
    pub fn stored(&self, be: bool) -> Vec<u8> {
        let mut v = if be { swap(self.fmt, &self.le) } else { self.le.clone() };
        if self.fmt == 2 { v.push(0) }
        v
    }
    pub fn count(&self) -> u32 { self.stored(false).len() as u32 / FSZ[self.fmt as usize] }
    /// the little_exif tag for this logical tag, built directly from enum constructors where they are generic (unknown tags)
    /// or from data for known ones
    pub fn tag(&self) -> ExifTag {
        ExifTag::from_u16_with_data(self.num, &fmt(self.fmt), &self.le, &Endian::Little, &group(self.grp)).expect("tag construction")
    }
    /// the value's expected debug rendering, computed without little_exif conversions (except the public rational structs)
    pub fn dbg_value(&self) -> String { dbg_value(self.fmt, &self.le) }
    pub fn dbg(&self) -> String {
        match self.known() {
            Some(d) => format!("{}({})", d.0, self.dbg_value()),
            None => format!("Unknown{}({}, {}, {})", FNAME[self.fmt as usize], self.dbg_value(), self.num, gname(self.grp)),
        }
    }
}
pub const FNAME: [&str; 13] = ["?", "INT8U", "STRING", "INT16U", "INT32U", "RATIONAL64U", "INT8S", "UNDEF", "INT16S", "INT32S", "RATIONAL64S", "FLOAT", "DOUBLE"];
pub fn dbg_value(f: u16, le: &[u8]) -> String {
    fn ch<const N: usize>(b: &[u8]) -> Vec<[u8; N]> { b.chunks_exact(N).map(|c| c.try_into().unwrap()).collect() }
    match f {
        1 | 7 => format!("{:?}", le),
        2 => {
            let s = match String::from_utf8(le.to_vec()) { Ok(s) => s.trim_end_matches('\0').to_string(), Err(_) => le.iter().filter(|b| **b > 0).map(|b| *b as char).collect() };
            format!("{:?}", s)
        }
        3 => format!("{:?}", ch::<2>(le).iter().map(|b| u16::from_le_bytes(*b)).collect::<Vec<_>>()),
        4 => format!("{:?}", ch::<4>(le).iter().map(|b| u32::from_le_bytes(*b)).collect::<Vec<_>>()),
        5 => format!("[{}]", ch::<8>(le).iter().map(|b| format!("uR64 {{ nominator: {}, denominator: {} }}", u32::from_le_bytes(b[0..4].try_into().unwrap()), u32::from_le_bytes(b[4..8].try_into().unwrap()))).collect::<Vec<_>>().join(", ")),
        6 => format!("{:?}", le.iter().map(|b| *b as i8).collect::<Vec<_>>()),
        8 => format!("{:?}", ch::<2>(le).iter().map(|b| i16::from_le_bytes(*b)).collect::<Vec<_>>()),
        9 => format!("{:?}", ch::<4>(le).iter().map(|b| i32::from_le_bytes(*b)).collect::<Vec<_>>()),
        10 => format!("[{}]", ch::<8>(le).iter().map(|b| format!("iR64 {{ nominator: {}, denominator: {} }}", i32::from_le_bytes(b[0..4].try_into().unwrap()), i32::from_le_bytes(b[4..8].try_into().unwrap()))).collect::<Vec<_>>().join(", ")),
        11 => format!("{:?}", ch::<4>(le).iter().map(|b| f32::from_le_bytes(*b)).collect::<Vec<_>>()),
        12 => format!("{:?}", ch::<8>(le).iter().map(|b| f64::from_le_bytes(*b)).collect::<Vec<_>>()),
        _ => unreachable!(),
    }
}

/// A logical directory
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct LIfd { pub tags: Vec<LTag>, pub strips: Option<Vec<Vec<u8>>>, pub thumb: Option<Vec<u8>> }
/// A logical metadata object: directories keyed by (generic number, group)
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct LMeta { pub be: bool, pub ifds: BTreeMap<(u32, u8), LIfd> }
impl LMeta {
    pub fn new(be: bool) -> LMeta { LMeta { be, ifds: BTreeMap::new() } }
    pub fn ifd(&mut self, nr: u32, g: u8) -> &mut LIfd {
        if g == 1 || g == 3 { self.ifds.entry((nr, 0)).or_default(); }
        if g == 2 { self.ifds.entry((nr, 0)).or_default(); self.ifds.entry((nr, 1)).or_default(); }
        self.ifds.entry((nr, g)).or_default()
    }
    pub fn put(&mut self, nr: u32, t: LTag) -> &mut Self { let g = t.grp; let i = self.ifd(nr, g); i.tags.retain(|x| x.num != t.num); i.tags.push(t); self }
    pub fn with(mut self, nr: u32, t: LTag) -> Self { self.put(nr, t); self }
    pub fn strips(mut self, nr: u32, s: Vec<Vec<u8>>) -> Self { self.ifd(nr, 0).strips = Some(s); self }
    pub fn thumb(mut self, nr: u32, s: Vec<u8>) -> Self { self.ifd(nr, 0).thumb = Some(s); self }
    /// canonical comparison form, see `canon`
    pub fn canon(&self) -> Canon { self.canon2(false) }
    /// as read back after encoding: non-writable tags are gone
    pub fn canon_written(&self) -> Canon { self.canon2(true) }
    fn canon2(&self, written: bool) -> Canon {
        let mut c = Canon { be: self.be, ifds: BTreeMap::new() };
        for (k, d) in &self.ifds {
            let e = c.ifds.entry(*k).or_default();
            for t in &d.tags {
                if written { if let Some(x) = t.known() { if !x.4 { continue; } } }
                e.push((t.num, t.dbg()));
            }
            if let Some(s) = &d.strips {
                e.push((0x111, format!("StripOffsets([], {:?})", s)));
                e.push((0x117, format!("StripByteCounts({:?})", s.iter().map(|x| x.len()).collect::<Vec<_>>())));
            }
            if let Some(s) = &d.thumb {
                e.push((0x201, format!("ThumbnailOffset([], {:?})", s)));
                e.push((0x202, format!("ThumbnailLength([{}])", s.len())));
            }
            e.sort();
        }
        c
    }
    /// builds the little_exif object through the public API (byte order other than little comes from decoding a block)
    pub fn meta(&self) -> Metadata {
        let mut m = if self.be {
            // a minimal big-endian block with an empty IFD0
            let blk = b"MM\0*\0\0\0\x08\0\x01\x01\0\0\x04\0\0\0\x01\0\0\0\x01\0\0\0\0".to_vec();
            let mut m = Metadata::new_from_vec(&blk, little_exif::filetype::FileExtension::TIFF).expect("big-endian seed block");
            m.remove_tag_by_hex_group(0x100, ExifTagGroup::GENERIC);
            m
        } else { Metadata::new() };
        for (k, d) in &self.ifds {
            let i: &mut ImageFileDirectory = m.get_ifd_mut(group(k.1), k.0);
            for t in &d.tags { i.set_tag(t.tag()); }
            if let Some(s) = &d.strips {
                i.set_tag(ExifTag::StripOffsets(vec![], s.clone()));
                i.set_tag(ExifTag::StripByteCounts(s.iter().map(|x| x.len() as u32).collect()));
            }
            if let Some(s) = &d.thumb {
                i.set_tag(ExifTag::ThumbnailOffset(vec![], s.clone()));
                i.set_tag(ExifTag::ThumbnailLength(vec![s.len() as u32]));
            }
        }
        m
    }
}
/// Canonical, order-insensitive-within-directory form of a metadata object
#[derive(Clone, PartialEq, Eq, Debug)]
pub struct Canon { pub be: bool, pub ifds: BTreeMap<(u32, u8), Vec<(u16, String)>> }
impl Canon {
    /// drops directories that hold no tag
    pub fn nonempty(&self) -> Canon { let mut c = self.clone(); c.ifds.retain(|_, v| !v.is_empty()); c }
    pub fn short(&self) -> String { let s = format!("{}{:?}", if self.be { "MM" } else { "II" }, self.ifds); if s.len() > 1500 { let mut n = 1500; while !s.is_char_boundary(n) { n -= 1 } format!("{}...", &s[..n]) } else { s } }
    pub fn is_blank(&self) -> bool { self.ifds.values().all(|v| v.is_empty()) }
}
pub fn canon(m: &Metadata) -> Canon {
    let mut c = Canon { be: m.get_endian() == Endian::Big, ifds: BTreeMap::new() };
    let mut dup = 0u16;
    for i in m.get_ifds() {
        let mut k = (i.get_generic_ifd_nr(), gnum(i.get_ifd_type()));
        while c.ifds.contains_key(&k) { dup += 1; k.0 += 1000 * dup as u32; } // never merge duplicates silently
        let mut v: Vec<(u16, String)> = i.get_tags().iter().map(|t| (t.as_u16(), format!("{:?}", t))).collect();
        v.sort();
        c.ifds.insert(k, v);
    }
    c
}
pub fn diff(a: &Canon, b: &Canon) -> String {
    let mut o = String::new();
    if a.be != b.be { o.push_str(&format!("byte order expected {} got {}; ", if a.be { "MM" } else { "II" }, if b.be { "MM" } else { "II" })); }
    for (k, v) in &a.ifds {
        match b.ifds.get(k) {
            None => o.push_str(&format!("directory {:?} missing; ", k)),
            Some(w) => {
                for t in v { if !w.contains(t) { o.push_str(&format!("{:?} missing {:04x} {}; ", k, t.0, cut(&t.1))); } }
                for t in w { if !v.contains(t) { o.push_str(&format!("{:?} unexpected {:04x} {}; ", k, t.0, cut(&t.1))); } }
                if v.len() != w.len() { o.push_str(&format!("{:?} has {} tags, expected {}; ", k, w.len(), v.len())); }
            }
        }
    }
    for k in b.ifds.keys() { if !a.ifds.contains_key(k) { o.push_str(&format!("unexpected directory {:?}; ", k)); } }
    o
}
fn cut(s: &str) -> String { let mut n = s.len().min(160); while !s.is_char_boundary(n) { n -= 1 } s[..n].to_string() }
