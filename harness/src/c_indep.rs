//! C28: a call's outcome depends on its arguments alone: not on earlier calls, other threads, the environment or logging
use crate::c_img::*;
use crate::c_meta::tiff_base;
use crate::img::*;
use crate::rt::*;
use crate::sched::{self, Sh};
use crate::spec::*;
use little_exif::exif_tag::ExifTag;
use little_exif::filetype::{get_file_type, FileExtension};
use little_exif::ifd::ExifTagGroup;
use little_exif::metadata::Metadata;
use little_exif::rational::uR64;
use std::path::{Path, PathBuf};
use std::sync::atomic::Ordering::Relaxed;

pub fn defs() -> Vec<Def> {
    vec![Def { id: "C28", level: "model_checking", f: c28, rule: "state = (call, what it gave); calls = every operation x seed images of every kind (valid and damaged), through buffer and path, and operations on metadata objects; each call's outcome in a process of its own (three environments) is the reference; then all ordered pairs of calls in long-lived threads, without and with a logger at the most verbose level, and for all pairs of the schedule alphabet all interleavings of two threads that preempt once at any allocation or file system call, and up to three times at file system calls",
        assumptions: &["preemption at allocations and file system calls only", "the two calls of a schedule work on different files, or both read the same one"] }]
}
// ------------------------------------------------------------------------------------------ log
struct Sink;
struct Null(u64);
impl std::fmt::Write for Null { fn write_str(&mut self, s: &str) -> std::fmt::Result { self.0 += s.len() as u64; Ok(()) } }
impl log::Log for Sink {
    fn enabled(&self, _: &log::Metadata) -> bool { true }
    fn log(&self, r: &log::Record) { let mut n = Null(0); let _ = std::fmt::Write::write_fmt(&mut n, *r.args()); LOGGED.fetch_add(n.0.min(1), Relaxed); }
    fn flush(&self) {}
}
static SINK: Sink = Sink;
static LOGGED: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// installs a logger that formats every message and forgets it
pub fn logging(on: bool) { let _ = log::set_logger(&SINK); log::set_max_level(if on { log::LevelFilter::Trace } else { log::LevelFilter::Off }) }

// ------------------------------------------------------------------------------------------ calls
#[derive(Clone, Copy, PartialEq, Debug)]
enum Do { Read, Type, Edit, Op(Op), Encode(usize), Payload(usize, FileExtension), Api(usize) }
struct Call { name: String, k: K, path: bool, img: usize, op: Do, file: String }
struct World { imgs: Vec<(String, K, Vec<u8>)>, ms: Vec<M>, tms: Vec<M>, calls: Vec<Call> }
impl World {
    fn ms(&self, k: K) -> &[M] { if k == K::Tiff { &self.tms } else { &self.ms } }
}
fn twin(n: u8) -> LMeta { LMeta::new(true).with(0, LTag::s(0x10e, 0, &format!("NEWMETA-twin {}", n))).with(0, LTag::u16s(0x112, 0, &[n as u16])).with(0, LTag::undef(0x9286, 1, &[b'u', b's', b'e', b'r', n])) }
fn world() -> World {
    let mut imgs = vec![];
    for k in kinds() {
        for (n, b) in bases(k) { imgs.push((n, k, b)); }
        let b = bases(k)[0].1.clone();
        imgs.push((format!("{} damaged", k.name()), k, b[..b.len() * 2 / 3].to_vec()));
        // same length as the first one, other metadata
        let mut b = b; if let Some(at) = find(&b, b"OLDMETA") { b[at + 2] = b'x'; imgs.push((format!("{} other", k.name()), k, b)); }
    }
    // every format, known tags in formats other than theirs, strips and a thumbnail
    for be in [false, true] {
        let mut m = LMeta::new(be);
        for f in 1..=12u16 { m.put(0, LTag::new(0xfd00 + f, (f % 2) as u8, f, (0..FSZ[f as usize] as u8 * 2).map(|i| i * 3 + f as u8 + if f == 2 { 65 } else { 0 }).collect())); }
        m.put(0, LTag::u32s(0x112, 0, &[3])).put(0, LTag::u16s(0xa002, 1, &[0x1234])).put(0, LTag::rat(0x9201, 1, &[(7, 0x12)])).put(0, LTag::s(5, 3, "1")).put(0, LTag::undef(0x1b, 3, b"ASCII\0\0\0GPS"));
        m.ifd(0, 0).strips = Some(vec![vec![1; 5], vec![2; 300], vec![3]]);
        let m = m.thumb(1, b"\xff\xd8\xff\xd9OLDMETA".to_vec());
        imgs.push((format!("jpg formats be={}", be), K::Jpg, jpg_join(&[&seg(0xe1, &exif_hdr(&crate::tiffref::plain(&m)))], &jpg_bodies()[1].1, b"")));
    }
    let ms = vec![mk("small", small()), mk("rich", rich()), mk("twin 1", twin(1)), mk("twin 2", twin(2)), mk("large", LMeta::new(false).with(0, LTag::undef(0xfde8, 0, &vec![0x5a; 70000])))];
    let tms = vec![mk("small", tiff_base(&small())), mk("rich", tiff_base(&rich())), mk("twin 1", tiff_base(&twin(1))), mk("twin 2", tiff_base(&twin(2))), mk("bare", small())];
    let mut calls = vec![];
    for (i, (n, k, _)) in imgs.iter().enumerate() {
        let mut ops = vec![Do::Read, Do::Type, Do::Edit, Do::Op(Op::Clear)];
        ops.extend((0..ms.len()).map(|i| Do::Op(Op::W(i))));
        if *k == K::Jpg { ops.extend([Do::Op(Op::A12), Do::Op(Op::A13)]) }
        for path in [false, true] { for op in &ops {
            // half of the writes through either interface
            if let Do::Op(Op::W(j)) = op { if *j > 0 && (i + j + path as usize) % 2 == 0 { continue; } }
            calls.push(Call { name: format!("{} {:?} {}", n, op, if path { "path" } else { "buffer" }), k: *k, path, img: i, op: *op, file: format!("img.{}", k.suffix()) });
        } }
        // several kinds of image under one name, whose ending is right for one of them
        if i == 0 || imgs[i - 1].1 != *k { for f in ["img.jpg", "img"] { for op in [Do::Read, Do::Type, Do::Op(Op::Clear), Do::Op(Op::W(1))] { if f != format!("img.{}", k.suffix()) { calls.push(Call { name: format!("{} {:?} as {}", n, op, f), k: *k, path: true, img: i, op, file: f.into() }); } } } }
    }
    for i in 0..ms.len() {
        calls.push(Call { name: format!("encode {}", ms[i].name), k: K::Jpg, path: false, img: 0, op: Do::Encode(i), file: String::new() });
        for x in [FileExtension::JPEG, FileExtension::PNG { as_zTXt_chunk: true }, FileExtension::PNG { as_zTXt_chunk: false }, FileExtension::WEBP, FileExtension::HEIF, FileExtension::TIFF] { calls.push(Call { name: format!("payload {} {:?}", ms[i].name, x), k: K::Jpg, path: false, img: 0, op: Do::Payload(i, x), file: String::new() }); }
    }
    for i in 0..8 { calls.push(Call { name: format!("api {}", i), k: K::Jpg, path: false, img: 0, op: Do::Api(i), file: String::new() }); }
    World { imgs, ms, tms, calls }
}
#[derive(Clone, PartialEq, Debug)]
struct Out { ok: bool, what: String, h: u128 }
fn o<T: std::fmt::Debug>(r: Result<T, std::io::Error>, bytes: &[u8]) -> Out {
    let t = match &r { Ok(v) => format!("{:?}", v), Err(e) => format!("{:?}", e.kind()) };
    Out { ok: r.is_ok(), h: h128(&[t.as_bytes(), bytes].concat()), what: format!("{} [{} bytes {:08x}]", t.chars().take(300).collect::<String>(), bytes.len(), h128(bytes) as u32) }
}
fn api(i: usize) -> (Result<Canon, std::io::Error>, Vec<u8>) {
    let mut m = Metadata::new();
    match i {
        0 => (),
        1 => { m.set_tag(ExifTag::ImageDescription("a".into())); m.set_tag(ExifTag::ISO(vec![100])); }
        2 => { m.set_tag(ExifTag::ImageDescription("b".into())); m.set_tag(ExifTag::ISO(vec![200])); m.remove_tag(ExifTag::ISO(vec![])); }
        3 => { m.set_tag(ExifTag::ExposureTime(vec![uR64::from(0.01f64)])); m.set_tag(ExifTag::GPSLatitude(vec![uR64::from(1.5f64), uR64::from(2u32), uR64::from(0.333f64)])); }
        4 => { m.set_tag(ExifTag::UnknownINT16U(vec![1, 2, 3], 0xfde8, ExifTagGroup::EXIF)); m.set_tag(ExifTag::UnknownINT16U(vec![4], 0xfde8, ExifTagGroup::GENERIC)); }
        5 => { m.get_ifd_mut(ExifTagGroup::GENERIC, 2); m.get_ifd_mut(ExifTagGroup::GPS, 1).set_tag(ExifTag::GPSLatitudeRef("N".into())); }
        6 => { m.set_tag(ExifTag::Orientation(vec![6])); m.reduce_to_a_minimum(); }
        _ => { for f in [0.1f64, 0.333333, 1e-9, 12345.678] { m.set_tag(ExifTag::UnknownRATIONAL64U(vec![uR64::from(f)], ((f * 7.0) as u16 & 0xff) + 0xfd00, ExifTagGroup::GENERIC)); } }
    }
    match m.encode() { Ok(b) => (Ok(canon(&m)), b), Err(e) => (Err(e), vec![]) }
}
/// one call; `buf` keeps its place in memory
fn call(w: &World, c: &Call, p: &Path, buf: &mut Vec<u8>) -> Out {
    let (_, _, b) = &w.imgs[c.img];
    if c.path { std::fs::write(p, b).unwrap(); } else { buf.clear(); buf.extend_from_slice(b); }
    let out = armed(w, c, p, buf);
    if c.path { let now = std::fs::read(p).unwrap_or_default(); let _ = std::fs::remove_file(p); Out { h: out.h ^ h128(&now).rotate_left(9), what: format!("{}, then {} bytes {:08x}", out.what, now.len(), h128(&now) as u32), ..out } } else { out }
}
/// the part of a call that is the library's
fn armed(w: &World, c: &Call, p: &Path, buf: &mut Vec<u8>) -> Out {
    let x = c.k.ext();
    let ms = w.ms(c.k);
    match c.op {
        Do::Read => { let r = if c.path { Metadata::new_from_path(p) } else { Metadata::new_from_vec(buf, x) }; o(r.map(|m| canon(&m)), if c.path { &[] } else { buf }) }
        Do::Type => if c.path { o(get_file_type(p), &[]) } else { let mut cu = std::io::Cursor::new(&buf[..]); o(Ok(FileExtension::auto_detect(&mut cu)), &[]) },
        Do::Edit => {
            let r = if c.path { Metadata::new_from_path(p) } else { Metadata::new_from_vec(buf, x) };
            let r = r.and_then(|mut m| { m.set_tag(ExifTag::Software("edit".into())); m.remove_tag(ExifTag::ISO(vec![])); if c.path { m.write_to_file(p) } else { m.write_to_vec(buf, x) } });
            o(r, if c.path { &[] } else { buf })
        }
        Do::Op(op) => {
            let r = match (op, c.path) {
                (Op::W(i), true) => ms[i].m.write_to_file(p), (Op::W(i), false) => ms[i].m.write_to_vec(buf, x),
                (Op::Clear, true) => Metadata::file_clear_metadata(p), (Op::Clear, false) => Metadata::clear_metadata(buf, x),
                (Op::A12, true) => Metadata::file_clear_app12_segment(p), (Op::A12, false) => Metadata::clear_app12_segment(buf, x),
                (Op::A13, true) => Metadata::file_clear_app13_segment(p), (Op::A13, false) => Metadata::clear_app13_segment(buf, x),
            };
            o(r, if c.path { &[] } else { buf })
        }
        Do::Encode(i) => { let r = ms[i].m.encode(); let b = r.as_ref().map(|b| b.clone()).unwrap_or_default(); o(r.map(|_| canon(&ms[i].m)), &b) }
        Do::Payload(i, x) => { let r = ms[i].m.as_u8_vec(x); let b = r.as_ref().map(|b| b.clone()).unwrap_or_default(); o(r.map(|_| ()), &b) }
        Do::Api(i) => { let (r, b) = api(i); o(r, &b) }
    }
}
fn name_of(c: &Call) -> &str { &c.file }

// ------------------------------------------------------------------------------------------ reference
/// entry of a process that does nothing but one call: arguments index, path of the image
pub fn alone(arg: &str) {
    let (i, p) = arg.split_once(':').unwrap();
    let w = world();
    let c = &w.calls[i.parse::<usize>().unwrap()];
    let r = std::panic::catch_unwind(|| call(&w, c, Path::new(p), &mut Vec::new()));
    match r { Ok(r) => println!("{} {:032x} {}", r.ok, r.h, r.what.replace('\n', " ")), Err(_) => println!("panic") }
}
fn reference(w: &World, i: usize, env: usize) -> Option<Out> {
    let c = &w.calls[i];
    let dir = thread_dir().join(format!("e{}", env)); std::fs::create_dir_all(&dir).unwrap();
    let mut cmd = std::process::Command::new(std::env::current_exe().unwrap());
    let p: PathBuf = if env == 1 { PathBuf::from(name_of(c)) } else { dir.join(name_of(c)) };
    match env {
        0 => (),
        // nothing but a relative path
        1 => { cmd.env_clear().current_dir(&dir); }
        _ => { for (k, v) in [("LANG", "tr_TR.UTF-8"), ("LC_ALL", "de_DE.UTF-8"), ("TZ", "Asia/Kathmandu"), ("HOME", "/nonexistent"), ("TMPDIR", "/nonexistent"), ("RUST_LOG", "trace"), ("RUST_BACKTRACE", "full"), ("SOURCE_DATE_EPOCH", "1"), ("DEBUG", "1"), ("USER", "x"), ("EXIF", "1"), ("LITTLE_EXIF", "1")] { cmd.env(k, v); } cmd.current_dir("/"); }
    }
    let out = cmd.env("LEMC_ALONE", format!("{}:{}", i, p.display())).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).output().expect("spawn");
    let t = String::from_utf8_lossy(&out.stdout).to_string();
    let mut f = t.trim_end().splitn(3, ' ');
    let ok = f.next()? == "true";
    Some(Out { ok, h: u128::from_str_radix(f.next()?, 16).ok()?, what: f.next().unwrap_or("").to_string() })
}
fn key(c: &Call) -> String { format!("{}:{}", c.k.name(), match c.op { Do::Op(Op::W(_)) => "write".into(), Do::Encode(_) => "encode".into(), Do::Payload(..) => "payload".into(), Do::Api(_) => "api".into(), x => format!("{:?}", x) }) }

/// makes the checksums of the chunks right again
fn recrc(b: &mut [u8]) {
    let mut p = 8;
    while p + 12 <= b.len() { let n = u32::from_be_bytes(b[p..p + 4].try_into().unwrap()) as usize; if p + 12 + n > b.len() { break; } let c = crc32(&b[p + 4..p + 8 + n]).to_be_bytes(); b[p + 8 + n..p + 12 + n].copy_from_slice(&c); p += 12 + n; }
}
fn c28() {
    let w = world();
    note("calls", w.calls.len());
    let idx: Vec<usize> = (0..w.calls.len()).collect();
    // reference: alone in a process, in three environments
    let refs: Vec<std::sync::OnceLock<Option<Out>>> = w.calls.iter().map(|_| Default::default()).collect();
    par(&idx, |_, &i| {
        let c = &w.calls[i];
        for env in 0..3 {
            set_case(&format!("alone {} env {}", c.name, env));
            let r = reference(&w, i, env);
            run().transitions.fetch_add(1, Relaxed); trace();
            match &r { None => { viol(&format!("alone:{}", key(c)), "the process did not give an answer", &[]); } Some(v) => { state_h(v.h ^ h128(c.name.as_bytes())); outcome(if v.ok { "calls that succeed" } else { "calls that fail" }); } }
            if env == 0 { let _ = refs[i].set(r); }
            else if refs[i].get().unwrap() != &r { viol(&format!("environment:{}", key(c)), &format!("{:?} in one environment, {:?} in another one", refs[i].get().unwrap(), r), &[("image", &w.imgs[c.img].2)]); }
        }
        run().matched.fetch_add(1, Relaxed);
    });
    let rf = |i: usize| refs[i].get().and_then(|r| r.clone());
    // all ordered pairs in threads that live on
    for log in [false, true] {
        logging(log);
        let before = LOGGED.load(Relaxed);
        par(&idx, |_, &a| {
            thread_local! { static BUF: std::cell::RefCell<Vec<u8>> = std::cell::RefCell::new(Vec::with_capacity(1 << 18)); }
            let dir = thread_dir();
            BUF.with(|buf| { let mut buf = buf.borrow_mut();
                for &b in &idx {
                    if !want(&format!("{} then {}{}", w.calls[a].name, w.calls[b].name, if log { " with a logger" } else { "" })) { continue; }
                    for i in [a, b] {
                        let c = &w.calls[i];
                        let Some(r) = sut_np("call", 200_000, || call(&w, c, &dir.join(name_of(c)), &mut buf)) else { continue };
                        let Some(e) = rf(i) else { continue };
                        if (r.ok, r.h) != (e.ok, e.h) { viol(&format!("history:{}:log={}", key(c), log), &format!("{} gives {} instead of {} as in a process of its own", c.name, r.what, e.what), &[("image", &w.imgs[c.img].2)]); }
                    }
                    trace();
                }
            });
        });
        if log { note("messages logged", LOGGED.load(Relaxed) - before); }
    }
    logging(false);
    // every image damaged in one place, then an intact one of the same kind
    let mut dmg: Vec<(usize, String, Vec<u8>)> = vec![];
    for (i, (n, _, b)) in w.imgs.iter().enumerate() {
        if n.ends_with("damaged") { continue; }
        for p in 0..b.len() {
            for (what, y) in [("flipped", b[p] ^ 0xff), ("changed", b[p].wrapping_add(1)), ("zeroed", 0)] { if what == "flipped" || thorough() || p % 3 == 0 { let mut x = b.clone(); x[p] = y; if b.starts_with(&PNG_SIG) { let mut z = x.clone(); recrc(&mut z); if z != x { dmg.push((i, format!("{} at {} with a right checksum", what, p), z)); } } dmg.push((i, format!("{} at {}", what, p), x)); } }
            dmg.push((i, format!("cut at {}", p), b[..p].to_vec()));
        }
    }
    note("damaged images in histories", dmg.len());
    let after: Vec<(K, Vec<usize>)> = kinds().into_iter().map(|k| (k, idx.iter().copied().filter(|i| { let c = &w.calls[*i]; c.k == k && !c.path && !w.imgs[c.img].0.ends_with("damaged") && !w.imgs[c.img].0.ends_with("other") && matches!(c.op, Do::Read | Do::Op(Op::Clear) | Do::Op(Op::W(1))) }).collect())).collect();
    par(&dmg, |n, (i, what, x)| {
        let (name, k, b) = &w.imgs[*i];
        let foll = &after.iter().find(|a| a.0 == *k).unwrap().1;
        let dir = thread_dir(); let mut buf = Vec::with_capacity(1 << 16);
        for (oi, op) in ["read", "write", "clear"].iter().enumerate() {
            // the call on the same image, and another one
            let same = foll.iter().copied().filter(|j| w.calls[*j].img == *i);
            for j in same.chain([foll[(n + oi) % foll.len()]]) {
                let c = &w.calls[j];
                if !want(&format!("{} {} {} then {}", op, name, what, c.name)) { continue; }
                let ms = w.ms(*k);
                let mut y = x.clone();
                let r = sut(op, x.len() + 1000, || match oi { 0 => Metadata::new_from_vec(&y, k.ext()).map(|_| ()), 1 => ms[1].m.write_to_vec(&mut y, k.ext()), _ => Metadata::clear_metadata(&mut y, k.ext()) });
                let Sut::Ret(r) = r else { continue }; // C13's
                outcome(if r.is_ok() { "damaged images accepted" } else { "damaged images refused" });
                let (Some(r), Some(e)) = (sut_np("call", 200_000, || call(&w, c, &dir.join(name_of(c)), &mut buf)), rf(j)) else { continue };
                if (r.ok, r.h) != (e.ok, e.h) { viol(&format!("after damage:{}", key(c)), &format!("{} gives {} instead of {} as in a process of its own", c.name, r.what, e.what), &[("damaged", x), ("image", b)]); }
                state(x); trace();
            }
        }
    });
    // longer histories over a part of the calls
    if thorough() {
        let part: Vec<usize> = idx.iter().copied().filter(|i| { let c = &w.calls[*i]; w.imgs.iter().position(|x| x.1 == c.k) == Some(c.img) && matches!(c.op, Do::Read | Do::Edit | Do::Op(Op::Clear) | Do::Op(Op::W(1)) | Do::Op(Op::W(2)) | Do::Api(3)) }).collect();
        note("calls in histories of three", part.len());
        par(&part, |_, &a| { let dir = thread_dir(); let mut buf = Vec::with_capacity(1 << 18); for &b in &part { for &d in &part {
            if !want(&format!("{} then {} then {}", w.calls[a].name, w.calls[b].name, w.calls[d].name)) { continue; }
            for i in [a, b, d] {
                let c = &w.calls[i];
                let (Some(r), Some(e)) = (sut_np("call", 200_000, || call(&w, c, &dir.join(name_of(c)), &mut buf)), rf(i)) else { continue };
                if (r.ok, r.h) != (e.ok, e.h) { viol(&format!("history:{}", key(c)), &format!("{} gives {} instead of {} as in a process of its own", c.name, r.what, e.what), &[("image", &w.imgs[c.img].2)]); }
            }
            trace();
        } } });
    }
    schedules(&w, &rf);
}
// ------------------------------------------------------------------------------------------ schedules
fn schedules(w: &World, rf: &(dyn Fn(usize) -> Option<Out> + Sync)) {
    // alphabet: of every kind a valid image and an operation of each sort through either interface
    let mut al: Vec<usize> = vec![];
    for k in kinds() {
        let img = w.imgs.iter().position(|i| i.1 == k).unwrap();
        for (i, c) in w.calls.iter().enumerate() { if c.img == img && c.k == k && c.file.ends_with(k.suffix()) && match c.op { Do::Read | Do::Op(Op::Clear) => true, Do::Edit => thorough(), Do::Op(Op::W(j)) => j == 1 && !c.path || c.path && (j == 1 || j == 2) || thorough() && j < 4, _ => false } { al.push(i) } }
    }
    al.extend(w.calls.iter().enumerate().filter(|(_, c)| w.imgs[c.img].0.contains("formats") && matches!(c.op, Do::Read | Do::Edit) && !c.path).map(|x| x.0));
    al.extend(w.calls.iter().enumerate().filter(|(_, c)| matches!(c.op, Do::Payload(1, _) | Do::Api(4))).map(|x| x.0));
    note("calls of the schedule alphabet", al.len());
    // number of scheduling points of each alone
    let npts = |i: usize, sys: bool| -> u64 {
        let c = &w.calls[i]; let p = thread_dir().join(name_of(c)); let b = &w.imgs[c.img].2;
        let mut buf = b.clone(); if c.path { std::fs::write(&p, b).unwrap(); }
        let sh = Sh::new(0, vec![u32::MAX], sys);
        sched::run(&sh, 0, || { let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| armed(w, c, &p, &mut buf))); });
        sh.points(0)
    };
    set_case("counting scheduling points");
    let pts: Vec<(u64, u64)> = al.iter().map(|i| (sut("points", 0, || npts(*i, false)).ok().unwrap_or(0), sut("points", 0, || npts(*i, true)).ok().unwrap_or(0))).collect();
    note("scheduling points per call (min..max)", format!("{}..{}, file system calls {}..{}", pts.iter().map(|x| x.0).min().unwrap(), pts.iter().map(|x| x.0).max().unwrap(), pts.iter().filter(|x| x.1 > 0).map(|x| x.1).min().unwrap_or(0), pts.iter().map(|x| x.1).max().unwrap()));
    let mut jobs: Vec<(usize, usize, usize)> = vec![];
    for a in 0..al.len() { for b in a..al.len() {
        let (ca, cb) = (&w.calls[al[a]], &w.calls[al[b]]);
        for mode in 0..3 {
            // 0: same directory, similar names; 1: same name in two directories; 2: the same file, only read
            if mode > 0 && !(ca.path && cb.path) { continue; }
            if mode == 2 && !(ca.img == cb.img && ca.op == Do::Read && cb.op == Do::Read) { continue; }
            jobs.push((a, b, mode));
        }
    } }
    let freed = std::sync::atomic::AtomicU64::new(0);
    let nsch = std::sync::atomic::AtomicU64::new(0);
    let sw = std::sync::atomic::AtomicU64::new(0);
    par(&jobs, |_, (a, b, mode)| {
        let (ia, ib) = (al[*a], al[*b]);
        let cs = [&w.calls[ia], &w.calls[ib]];
        let dir = thread_dir().join("sched"); std::fs::create_dir_all(dir.join("x")).unwrap(); std::fs::create_dir_all(dir.join("y")).unwrap();
        let ps: [PathBuf; 2] = match mode {
            0 => [dir.join(name_of(cs[0])), if name_of(cs[0]) == name_of(cs[1]) { dir.join(format!("img2.{}", cs[1].k.suffix())) } else { dir.join(name_of(cs[1])) }],
            1 => [dir.join("x").join(name_of(cs[0])), dir.join("y").join(name_of(cs[1]))],
            _ => [dir.join(name_of(cs[0])), dir.join(name_of(cs[1]))],
        };
        let base = format!("{} || {} mode {}", cs[0].name, cs[1].name, mode);
        if let Some(o) = &run().only { if !o.starts_with(&base) { return; } }
        let (Some(ra), Some(rb)) = (rf(ia), rf(ib)) else { return };
        let rs = [ra, rb];
        let stuck = std::cell::Cell::new(0u32);
        let one = |first: usize, segs: Vec<u32>, sys: bool| {
            // calls that wait for one another at many places are serialised by the library; a few such schedules are enough
            if stuck.get() >= 3 { run().capped.store(true, Relaxed); return; }
            let case = format!("{} first {} then {:?}{}", base, first, segs, if sys { " at file system calls" } else { "" });
            if !want(&case) { return; }
            let bufs: Vec<Vec<u8>> = cs.iter().zip(&ps).map(|(c, p)| { let b = &w.imgs[c.img].2; if c.path { std::fs::write(p, b).unwrap(); vec![] } else { b.clone() } }).collect();
            let [mut b0, mut b1]: [Vec<u8>; 2] = bufs.try_into().unwrap();
            let sh = Sh::new(first, segs, sys);
            let (r0, r1) = std::thread::scope(|s| {
                let (sh, c1, p1) = (&sh, cs[1], &ps[1]);
                let h = s.spawn(move || { set_case(""); sched::run(sh, 1, || raw(|| armed(w, c1, p1, &mut b1))) });
                let r0 = sut("schedule", 400_000, || sched::run(sh, 0, || raw(|| armed(w, cs[0], &ps[0], &mut b0))));
                (match r0 { Sut::Ret(r) => r, Sut::Panic(m) => Err(m) }, h.join().unwrap_or_else(|_| Err("harness".into())))
            });
            trace(); nsch.fetch_add(1, Relaxed); sw.fetch_add(sh.switched.load(Relaxed) as u64, Relaxed);
            if sh.freed() { freed.fetch_add(1, Relaxed); stuck.set(stuck.get() + 1); }
            for (j, r) in [r0, r1].into_iter().enumerate() {
                let c = cs[j];
                match r {
                    Err(m) => viol(&format!("schedule:{}:panic:{}", key(c), panic_site(&m)), &m, &[("image", &w.imgs[c.img].2)]),
                    Ok(out) => {
                        let out = if c.path { let now = std::fs::read(&ps[j]).unwrap_or_default(); Out { h: out.h ^ h128(&now).rotate_left(9), what: format!("{}, then {} bytes {:08x}", out.what, now.len(), h128(&now) as u32), ..out } } else { out };
                        if (out.ok, out.h) != (rs[j].ok, rs[j].h) { viol(&format!("schedule:{}", key(c)), &format!("interleaved with another call {} gives {} instead of {}", c.name, out.what, rs[j].what), &[("image", &w.imgs[c.img].2)]) }
                    }
                }
            }
            state_h(h128(case.as_bytes()));
            let _ = (std::fs::remove_file(&ps[0]), std::fs::remove_file(&ps[1]));
        };
        // one preemption at every point
        let lim = if thorough() { 3000 } else { 1000 };
        for first in 0..2 {
            let n = if first == 0 { pts[*a].0 } else { pts[*b].0 };
            if n > lim { run().capped.store(true, Relaxed); }
            for s in 0..n.min(lim) { one(first, vec![s as u32], false); }
        }
        // two preemptions at all pairs of points
        if thorough() { for first in 0..2 {
            let (n0, n1) = if first == 0 { (pts[*a].0, pts[*b].0) } else { (pts[*b].0, pts[*a].0) };
            if n0 * n1 <= 12_000 { for s in 0..n0 { for t in 0..n1 { one(first, vec![s as u32, t as u32], false); } } }
        } }
        // up to three preemptions at file system calls
        let (na, nb) = (pts[*a].1 as u32, pts[*b].1 as u32);
        if na > 0 && nb > 0 {
            let top = 40;
            if na > top || nb > top { run().capped.store(true, Relaxed); }
            for first in 0..2 {
                let (n0, n1) = if first == 0 { (na.min(top), nb.min(top)) } else { (nb.min(top), na.min(top)) };
                for s in 0..n0 { for t in 0..n1 {
                    one(first, vec![s, t], true);
                    for u in 0..n0.saturating_sub(s + 1) { one(first, vec![s, t, u], true); }
                } }
            }
        }
        sample(|| format!("{}: {} and {} points", base, pts[*a].0, pts[*b].0));
    });
    note("schedules", nsch.load(Relaxed));
    note("preemptions", sw.load(Relaxed));
    note("schedules not kept because a thread waited for the other one", freed.load(Relaxed));
}
