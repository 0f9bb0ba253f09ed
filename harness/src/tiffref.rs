//! Independent strict TIFF/EXIF parser, and a builder producing conforming blocks in any layout.
use crate::spec::*;
use std::collections::BTreeMap;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RTag { pub num: u16, pub fmt: u16, pub count: u32, /** value bytes as stored */ pub raw: Vec<u8>, pub inline: bool }
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct RIfd { pub tags: Vec<RTag>, pub strips: Option<Vec<Vec<u8>>>, pub thumb: Option<Vec<u8>> }
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct RTiff { pub be: bool, pub ifds: BTreeMap<(u32, u8), RIfd>, /** one past the last referenced byte */ pub end: usize, pub regions: Vec<(usize, usize, String)> }

pub fn g16(b: &[u8], o: usize, be: bool) -> Option<u16> { let s: [u8; 2] = b.get(o..o + 2)?.try_into().ok()?; Some(if be { u16::from_be_bytes(s) } else { u16::from_le_bytes(s) }) }
pub fn g32(b: &[u8], o: usize, be: bool) -> Option<u32> { let s: [u8; 4] = b.get(o..o + 4)?.try_into().ok()?; Some(if be { u32::from_be_bytes(s) } else { u32::from_le_bytes(s) }) }
pub fn p16(v: &mut Vec<u8>, x: u16, be: bool) { v.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() }) }
pub fn p32(v: &mut Vec<u8>, x: u32, be: bool) { v.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() }) }

pub struct Opt { pub strict: bool }

/// Strict parse: every rule of C02 is checked; an Err names the rule broken
pub fn parse(b: &[u8]) -> Result<RTiff, String> {
    if b.len() < 8 { return Err(format!("block has only {} bytes", b.len())); }
    let be = match &b[0..2] { b"II" => false, b"MM" => true, x => return Err(format!("bad byte order mark {:?}", x)) };
    if g16(b, 2, be) != Some(42) { return Err("bad magic number".into()); }
    let mut t = RTiff { be, ifds: BTreeMap::new(), end: 8, regions: vec![(0, 8, "header".into())] };
    let mut off = g32(b, 4, be).unwrap() as usize;
    let mut nr = 0u32;
    while off != 0 {
        if nr as usize > b.len() / 6 { return Err("directory chain does not terminate".into()); }
        off = ifd(b, &mut t, off, nr, 0)?;
        nr += 1;
    }
    let mut r = t.regions.clone();
    r.retain(|x| x.0 < x.1);
    r.sort();
    for w in r.windows(2) { if w[0].1 > w[1].0 { return Err(format!("regions overlap: {} [{},{}) and {} [{},{})", w[0].2, w[0].0, w[0].1, w[1].2, w[1].0, w[1].1)); } }
    t.end = t.regions.iter().map(|x| x.1).max().unwrap();
    Ok(t)
}
fn ifd(b: &[u8], t: &mut RTiff, off: usize, nr: u32, g: u8) -> Result<usize, String> {
    let be = t.be;
    let name = format!("{}{}", gname(g), nr);
    if t.ifds.contains_key(&(nr, g)) { return Err(format!("directory {} appears twice", name)); }
    if off % 2 != 0 { return Err(format!("directory {} at odd offset {}", name, off)); }
    let n = g16(b, off, be).ok_or_else(|| format!("directory {} at {} outside the block of {} bytes", name, off, b.len()))? as usize;
    let end = off + 2 + 12 * n + 4;
    if end > b.len() { return Err(format!("directory {} [{},{}) outside the block of {} bytes", name, off, end, b.len())); }
    t.regions.push((off, end, format!("directory {}", name)));
    t.ifds.insert((nr, g), RIfd::default());
    let mut r = RIfd::default();
    let mut last: i32 = -1;
    let (mut so, mut sc, mut to, mut tl): (Option<Vec<u32>>, Option<Vec<u32>>, Option<u32>, Option<u32>) = (None, None, None, None);
    let mut subs: Vec<(u8, usize)> = vec![];
    for i in 0..n {
        let e = off + 2 + 12 * i;
        let num = g16(b, e, be).unwrap();
        let f = g16(b, e + 2, be).unwrap();
        let cnt = g32(b, e + 4, be).unwrap();
        if (num as i32) <= last { return Err(format!("{}: entry {:04x} after {:04x} is not in strictly ascending order", name, num, last)); }
        last = num as i32;
        if !(1..=12).contains(&f) { return Err(format!("{}: entry {:04x} has invalid format {}", name, num, f)); }
        let bytes = cnt as usize * FSZ[f as usize] as usize;
        let (raw, inline) = if bytes <= 4 { (b[e + 8..e + 8 + bytes].to_vec(), true) } else {
            let o = g32(b, e + 8, be).unwrap() as usize;
            if o % 2 != 0 { return Err(format!("{}: value of {:04x} at odd offset {}", name, num, o)); }
            if o + bytes > b.len() { return Err(format!("{}: value of {:04x} [{},{}) outside the block of {} bytes", name, num, o, o + bytes, b.len())); }
            t.regions.push((o, o + bytes, format!("value {}/{:04x}", name, num)));
            (b[o..o + bytes].to_vec(), false)
        };
        let ints = || -> Vec<u32> { match f { 1 => raw.iter().map(|x| *x as u32).collect(), 3 => raw.chunks(2).map(|c| g16(c, 0, be).unwrap() as u32).collect(), 4 => raw.chunks(4).map(|c| g32(c, 0, be).unwrap()).collect(), _ => vec![] } };
        let sub = match (g, num) { (0, 0x8769) => Some(1u8), (0, 0x8825) => Some(3), (1, 0xa005) => Some(2), _ => None };
        if let Some(s) = sub {
            if f != 4 || cnt != 1 { return Err(format!("{}: sub-directory pointer {:04x} has format {} count {}", name, num, f, cnt)); }
            subs.push((s, ints()[0] as usize));
            continue;
        }
        match (g, num) {
            (0, 0x111) => so = Some(ints()), (0, 0x117) => sc = Some(ints()),
            (0, 0x201) => to = ints().first().copied(), (0, 0x202) => tl = ints().first().copied(),
            _ => r.tags.push(RTag { num, fmt: f, count: cnt, raw, inline }),
        }
    }
    match (so, sc) {
        (Some(o), Some(c)) => {
            if o.len() != c.len() { return Err(format!("{}: {} strip offsets but {} strip byte counts", name, o.len(), c.len())); }
            let mut s = vec![];
            for (i, (o, c)) in o.iter().zip(&c).enumerate() {
                let (o, c) = (*o as usize, *c as usize);
                if o + c > b.len() { return Err(format!("{}: strip {} [{},{}) outside the block", name, i, o, o + c)); }
                if c > 0 { t.regions.push((o, o + c, format!("strip {}/{}", name, i))); }
                s.push(b[o..o + c].to_vec());
            }
            r.strips = Some(s);
        }
        (None, None) => (),
        _ => return Err(format!("{}: strip offsets without byte counts or vice versa", name)),
    }
    match (to, tl) {
        (Some(o), Some(c)) => {
            let (o, c) = (o as usize, c as usize);
            if o + c > b.len() { return Err(format!("{}: thumbnail [{},{}) outside the block", name, o, o + c)); }
            if c > 0 { t.regions.push((o, o + c, format!("thumbnail {}", name))); }
            r.thumb = Some(b[o..o + c].to_vec());
        }
        (None, None) => (),
        _ => return Err(format!("{}: thumbnail offset without length or vice versa", name)),
    }
    t.ifds.insert((nr, g), r);
    for (s, o) in subs {
        let nx = ifd(b, t, o, nr, s)?;
        if nx != 0 { return Err(format!("sub-directory {}{} has a non-zero next link {}", gname(s), nr, nx)); }
    }
    Ok(g32(b, end - 4, be).unwrap() as usize)
}

impl RTiff {
    /// the logical metadata held by the block
    pub fn logical(&self) -> LMeta {
        let mut m = LMeta::new(self.be);
        for (k, r) in &self.ifds {
            let d = m.ifds.entry(*k).or_default();
            for t in &r.tags {
                let mut le = if self.be { swap(t.fmt, &t.raw) } else { t.raw.clone() };
                if t.fmt == 2 && le.last() == Some(&0) { le.pop(); }
                d.tags.push(LTag { num: t.num, grp: k.1, fmt: t.fmt, le });
            }
            d.strips = r.strips.clone();
            d.thumb = r.thumb.clone();
        }
        m
    }
}
/// compares a strictly parsed block against expected logical metadata (order inside directories irrelevant, non-writable tags dropped)
pub fn same_logical(want: &LMeta, got: &LMeta) -> Result<(), String> {
    if want.be != got.be { return Err("byte order differs".into()); }
    for (k, d) in &want.ifds {
        let Some(e) = got.ifds.get(k) else { return Err(format!("directory {}{} missing", gname(k.1), k.0)) };
        let mut a: Vec<&LTag> = d.tags.iter().filter(|t| t.known().map(|x| x.4).unwrap_or(true)).collect();
        let mut b: Vec<&LTag> = e.tags.iter().collect();
        a.sort_by_key(|t| t.num); b.sort_by_key(|t| t.num);
        if a != b {
            for t in &a { if !b.contains(t) { return Err(format!("{}{}: tag {:04x} fmt {} value {} is not in the block as such (block has {:?})", gname(k.1), k.0, t.num, t.fmt, crate::rt::hexs(&t.le), b.iter().find(|x| x.num == t.num))); } }
            return Err(format!("{}{}: extra tags in block: {:?}", gname(k.1), k.0, b.iter().filter(|t| !a.contains(t)).collect::<Vec<_>>()));
        }
        if d.strips != e.strips { return Err(format!("{}{}: strips differ", gname(k.1), k.0)); }
        if d.thumb != e.thumb { return Err(format!("{}{}: thumbnail differs", gname(k.1), k.0)); }
    }
    for k in got.ifds.keys() { if !want.ifds.contains_key(k) { return Err(format!("unexpected directory {}{}", gname(k.1), k.0)); } }
    Ok(())
}

// ------------------------------------------------------------------------------------------ builder
/// Layout choices of a foreign (conforming) writer
#[derive(Clone, Debug, Default)]
pub struct Layout {
    /// permutation index applied to the region list
    pub perm: usize,
    /// bytes of gap inserted before each region (even)
    pub gap: usize,
    /// identical out-of-line values are shared
    pub share: bool,
    /// prefix with "Exif\0\0"
    pub exif_prefix: bool,
    /// filler byte for gaps
    pub fill: u8,
    /// align regions to 2 (true) or leave odd offsets (false; readers must accept)
    pub align: bool,
    /// trailing bytes after the last region
    pub tail: usize,
    /// store strip offsets/byte counts as SHORT when they fit
    pub short_strips: bool,
    pub short_offs: bool,
    /// set next-IFD link of sub-IFDs to this junk value (seen in the wild)
    pub sub_link: u32,
}
/// An entry as it is to be stored
#[derive(Clone, Debug)]
pub struct Entry { pub num: u16, pub fmt: u16, pub count: u32, pub val: Val }
#[derive(Clone, Debug)]
pub enum Val { Bytes(Vec<u8>), Sub(u8), Strips(Vec<Vec<u8>>), Thumb(Vec<u8>) }

/// The number of distinct region orders `build` offers for this metadata (n!), capped
pub fn regions_of(m: &LMeta) -> usize {
    let mut n = 0;
    for d in m.ifds.values() { n += 1; for t in &d.tags { if t.stored(m.be).len() > 4 { n += 1 } } if let Some(s) = &d.strips { n += s.len() + if s.len() > 1 { 2 } else { 0 } } if d.thumb.is_some() { n += 1 } }
    n
}
fn nth_perm(n: usize, mut k: usize) -> Vec<usize> {
    if k == 0 { return (0..n).collect(); }
    let mut pool: Vec<usize> = (0..n).collect();
    let mut out = vec![];
    for i in (1..=n).rev() { let f: usize = (1..i).fold(1usize, |a, x| a.saturating_mul(x)); out.push(pool.remove((k / f) % i)); k %= f.max(1); }
    out
}
/// Builds a block holding exactly `m` (entries sorted), data placed per `lay`. `subst` may rewrite an entry's stored format/bytes.
pub fn build(m: &LMeta, lay: &Layout, subst: &dyn Fn((u32, u8), &LTag) -> Option<(u16, Vec<u8>)>) -> Vec<u8> {
    let be = m.be;
    #[derive(Clone, PartialEq, Eq, Hash, Debug)]
    enum R { Ifd(u32, u8), Val(u32, u8, u16), Strip(u32, usize), StripOffs(u32), StripCnts(u32), Thumb(u32) }
    // directories and their entries
    let mut dirs: BTreeMap<(u32, u8), Vec<Entry>> = BTreeMap::new();
    for (k, d) in &m.ifds {
        let mut v = vec![];
        for t in &d.tags {
            let (f, by) = subst(*k, t).unwrap_or((t.fmt, t.stored(be)));
            v.push(Entry { num: t.num, fmt: f, count: by.len() as u32 / FSZ[f as usize], val: Val::Bytes(by) });
        }
        if let Some(s) = &d.strips { v.push(Entry { num: 0x111, fmt: 4, count: s.len() as u32, val: Val::Strips(s.clone()) }); v.push(Entry { num: 0x117, fmt: 4, count: s.len() as u32, val: Val::Strips(s.clone()) }); }
        if let Some(s) = &d.thumb { v.push(Entry { num: 0x201, fmt: 4, count: 1, val: Val::Thumb(s.clone()) }); v.push(Entry { num: 0x202, fmt: 4, count: 1, val: Val::Thumb(s.clone()) }); }
        for (sg, num, parent) in [(1u8, 0x8769u16, 0u8), (3, 0x8825, 0), (2, 0xa005, 1)] {
            if k.1 == parent && m.ifds.contains_key(&(k.0, sg)) { v.push(Entry { num, fmt: 4, count: 1, val: Val::Sub(sg) }); }
        }
        v.sort_by_key(|e| e.num);
        dirs.insert(*k, v);
    }
    let short = |s: &Vec<Vec<u8>>| lay.short_strips && s.iter().all(|x| x.len() < 65536);
    // regions and sizes
    let mut regs: Vec<(R, usize)> = vec![];
    for (k, v) in &dirs {
        regs.push((R::Ifd(k.0, k.1), 2 + 12 * v.len() + 4));
        for e in v {
            match &e.val {
                Val::Bytes(b) if b.len() > 4 => regs.push((R::Val(k.0, k.1, e.num), b.len())),
                Val::Strips(s) if e.num == 0x111 => { let w = if lay.short_offs { 2 } else { 4 }; if s.len() * w > 4 { regs.push((R::StripOffs(k.0), w * s.len())) } for i in 0..s.len() { regs.push((R::Strip(k.0, i), s[i].len())) } }
                Val::Strips(s) => { let w = if short(s) { 2 } else { 4 }; if s.len() * w > 4 { regs.push((R::StripCnts(k.0), w * s.len())) } }
                Val::Thumb(s) if e.num == 0x201 => regs.push((R::Thumb(k.0), s.len())),
                _ => (),
            }
        }
    }
    let order = nth_perm(regs.len(), lay.perm);
    let mut pos: std::collections::HashMap<R, usize> = Default::default();
    let mut shared: std::collections::HashMap<Vec<u8>, usize> = Default::default();
    let mut at = 8usize;
    let mut placed: Vec<(usize, R)> = vec![];
    for i in order {
        let (r, sz) = regs[i].clone();
        if let R::Val(n, g, num) = &r {
            if lay.share {
                if let Some(Entry { val: Val::Bytes(b), .. }) = dirs[&(*n, *g)].iter().find(|e| e.num == *num) {
                    if let Some(p) = shared.get(b) { pos.insert(r, *p); continue; }
                }
            }
        }
        at += lay.gap;
        if lay.align && at % 2 == 1 { at += 1 }
        if lay.share { if let R::Val(n, g, num) = &r { if let Some(Entry { val: Val::Bytes(b), .. }) = dirs[&(*n, *g)].iter().find(|e| e.num == *num) { shared.insert(b.clone(), at); } } }
        pos.insert(r.clone(), at);
        placed.push((at, r));
        at += sz;
    }
    let mut out = vec![lay.fill; at + lay.tail];
    let mut h = vec![];
    h.extend(if be { b"MM" } else { b"II" });
    p16(&mut h, 42, be);
    let first = dirs.keys().find(|k| k.1 == 0).map(|k| pos[&R::Ifd(k.0, 0)]).unwrap_or(0);
    p32(&mut h, first as u32, be);
    out[..8].copy_from_slice(&h);
    let gens: Vec<u32> = dirs.keys().filter(|k| k.1 == 0).map(|k| k.0).collect();
    for (p, r) in placed {
        let mut b: Vec<u8> = vec![];
        match &r {
            R::Ifd(n, g) => {
                let v = &dirs[&(*n, *g)];
                p16(&mut b, v.len() as u16, be);
                for e in v {
                    p16(&mut b, e.num, be);
                    let mut f = e.fmt;
                    if let (Val::Strips(s), 0x117) = (&e.val, e.num) { if short(s) { f = 3 } }
                    if e.num == 0x111 && matches!(e.val, Val::Strips(_)) && lay.short_offs { f = 3 }
                    p16(&mut b, f, be);
                    p32(&mut b, e.count, be);
                    let mut x: Vec<u8> = vec![];
                    match &e.val {
                        Val::Bytes(by) => if by.len() > 4 { p32(&mut x, pos[&R::Val(*n, *g, e.num)] as u32, be) } else { x.extend(by) },
                        Val::Sub(sg) => p32(&mut x, pos[&R::Ifd(*n, *sg)] as u32, be),
                        Val::Strips(s) if e.num == 0x111 => { let w = if lay.short_offs { 2 } else { 4 }; if s.len() * w > 4 { p32(&mut x, pos[&R::StripOffs(*n)] as u32, be) } else { for i in 0..s.len() { let o = pos[&R::Strip(*n, i)]; if w == 2 { assert!(o < 65536); p16(&mut x, o as u16, be) } else { p32(&mut x, o as u32, be) } } } }
                        Val::Strips(s) => { let w = if short(s) { 2 } else { 4 }; if s.len() * w > 4 { p32(&mut x, pos[&R::StripCnts(*n)] as u32, be) } else { for y in s { if w == 2 { p16(&mut x, y.len() as u16, be) } else { p32(&mut x, y.len() as u32, be) } } } }
                        Val::Thumb(s) => if e.num == 0x201 { p32(&mut x, pos[&R::Thumb(*n)] as u32, be) } else { p32(&mut x, s.len() as u32, be) },
                    }
                    x.resize(4, 0);
                    b.extend(x);
                }
                let next = if *g == 0 { gens.iter().position(|z| z == n).and_then(|i| gens.get(i + 1)).map(|z| pos[&R::Ifd(*z, 0)] as u32).unwrap_or(0) } else { lay.sub_link };
                p32(&mut b, next, be);
            }
            R::Val(n, g, num) => if let Some(Entry { val: Val::Bytes(by), .. }) = dirs[&(*n, *g)].iter().find(|e| e.num == *num) { b = by.clone() },
            R::Strip(n, i) => b = m.ifds[&(*n, 0)].strips.as_ref().unwrap()[*i].clone(),
            R::StripOffs(n) => for i in 0..m.ifds[&(*n, 0)].strips.as_ref().unwrap().len() { let o = pos[&R::Strip(*n, i)]; if lay.short_offs { assert!(o < 65536); p16(&mut b, o as u16, be) } else { p32(&mut b, o as u32, be) } },
            R::StripCnts(n) => { let s = m.ifds[&(*n, 0)].strips.as_ref().unwrap(); for y in s { if short(s) { p16(&mut b, y.len() as u16, be) } else { p32(&mut b, y.len() as u32, be) } } }
            R::Thumb(n) => b = m.ifds[&(*n, 0)].thumb.clone().unwrap(),
        }
        out[p..p + b.len()].copy_from_slice(&b);
    }
    if lay.exif_prefix { let mut o = b"Exif\0\0".to_vec(); o.extend(out); o } else { out }
}
pub fn plain(m: &LMeta) -> Vec<u8> { build(m, &Layout { align: true, ..Default::default() }, &|_, _| None) }
