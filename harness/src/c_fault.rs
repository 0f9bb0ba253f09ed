//! C22: every system call of every file operation fails once, twice, or transfers less than asked for
use crate::c_img::*;
use crate::c_meta::class;
use crate::fault::{self, Plan, F, NONE};
use crate::img::*;
use crate::rt::*;
use crate::spec::*;
use crate::tiffref;
use libc::{EACCES, EINTR, EIO, EMFILE, ENOSPC};
use little_exif::filetype::{get_file_type, FileExtension};
use std::path::Path;

pub fn defs() -> Vec<Def> {
    vec![Def { id: "C22", level: "fault_enumeration", f: c22, rule: "for every seed image and file operation the system calls of a fault-free run are recorded; then one run for every call and every fault of that kind of call (error once, several times, from then on; short transfer; nothing transferred), runs in which all transfers are short, and every pair of faults (the second at every call of the run with the first); outcome, file content and directory compared with the fault-free run",
        assumptions: &["faults are injected at the C library's file functions that std uses (open, read, write, lseek, ftruncate, fsync, rename, statx and their vectored and positioned forms)", "a fault on close is not reported by std and not injected"] }]
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fop { Read, Type, Do(Op) }
#[derive(Clone, PartialEq, Debug)]
enum Out { Done, Meta(Canon), Type(FileExtension) }
fn run_op(p: &Path, n: usize, op: Fop, ms: &[M]) -> Option<Result<Out, String>> {
    match op {
        Fop::Read => read_file(p, n).map(|r| r.map(Out::Meta)),
        Fop::Type => sut_np("get_file_type", n, || get_file_type(p).map_err(|e| e.to_string())).map(|r| r.map(Out::Type)),
        Fop::Do(o) => file_op(p, n, o, ms).map(|r| r.map(|_| Out::Done)),
    }
}
fn faults(kind: u8) -> Vec<F> {
    match kind {
        b'o' | b'c' => vec![F::Err(EIO), F::Err(EACCES), F::Err(EMFILE), F::Err(EINTR)],
        b'r' => vec![F::Err(EIO), F::Err(EINTR), F::Errs(EINTR, 3), F::Len(0), F::Len(2), F::Always(EIO)],
        b'w' => vec![F::Err(EIO), F::Err(ENOSPC), F::Err(EINTR), F::Errs(EINTR, 3), F::Len(0), F::Len(2), F::Zero, F::LenThen(ENOSPC), F::Always(EIO)],
        b's' => vec![F::Err(EIO)],
        b't' => vec![F::Err(EIO), F::Err(ENOSPC), F::Err(EINTR)],
        b'x' => vec![F::Err(EIO), F::Err(EACCES)],
        _ => vec![F::Err(EIO)],
    }
}
fn short(f: F) -> bool { matches!(f, F::Len(_)) }
struct S { name: String, k: K, file: String, b: Vec<u8> }
fn images() -> Vec<S> {
    let mut v: Vec<S> = vec![];
    for k in kinds() {
        let mut list: Vec<(String, Vec<u8>)> = bases(k);
        let al = jpg_alphabet();
        // larger than any buffer
        match k {
            K::Jpg => { list.push(("jpg large".into(), jpg_join(&[&al[16].1, &al[1].1, &al[17].1], &jpg_bodies()[5].1, &[0x41; 20000]))); list.push(("jpg app".into(), jpg_join(&[&al[3].1, &al[1].1, &al[4].1], &jpg_bodies()[6].1, b""))); }
            K::Png => { let pl: Vec<(&str, Vec<u8>)> = png_alphabet(); let g = |n: &str| pl.iter().find(|x| x.0 == n).unwrap().1.clone(); let big = chunk(b"prVt", &[0x33; 20001]); list.push(("png large".into(), png_join(&[&big, &g("zRaw"), &g("iXmpE")], 3, &[&big, &g("eXIf")], b"tail"))); }
            K::Webp => list.push(("webp large".into(), webp_join(&[vp8x(8 | 4, 30, 20), vp8(30, 20, 20001), riff(b"EXIF", &old_block(false, 9000)), riff(b"XMP ", &[0x20; 9001])]))),
            K::Jxl => { let mut d = vec![0u8; 4]; d.extend(old_block(false, 9000)); list.push(("jxl large".into(), [JXL_SIG.to_vec(), jxl_ftyp(), bx64(b"jxlc", &[7; 20000]), bx(b"Exif", &d), bx(b"xml ", &[0x20; 9000])].concat())); }
            K::Heif => for (n, mut c) in crate::heif::cfgs(0) { if n == "heif[exif|e1|meta mdat|v1]" || n == "heif[exif|e0|mdat meta|v1]" { c.items[0].ext[0] = vec![0x77; 20000]; list.push((format!("{} large", n), c.build())); } },
            K::Tiff => { let mut lm = crate::c_meta::tiff_base(&rich()); lm.ifd(0, 0).strips = Some(vec![vec![1; 9000], vec![2; 20000]]); list.push(("tiff large".into(), tiffref::plain(&lm))); }
        }
        // larger than a megabyte
        let huge: Vec<u8> = (0..1_300_001u32).map(|i| (i ^ i >> 8 ^ i >> 16) as u8 & 0x7f).collect();
        match k {
            K::Jpg => list.push(("jpg huge".into(), jpg_join(&[&al[1].1], &[jpg_bodies()[0].1.clone(), huge].concat(), b""))),
            K::Png => list.push(("png huge".into(), png_join(&[&chunk(b"eXIf", &old_block(true, 1)), &chunk(b"prVt", &huge)], 1, &[], b""))),
            K::Webp => list.push(("webp huge".into(), webp_join(&[vp8x(8, 30, 20), vp8(30, 20, 21), riff(b"EXIF", &old_block(false, 1)), riff(b"unkn", &huge)]))),
            K::Jxl => list.push(("jxl huge".into(), [JXL_SIG.to_vec(), jxl_ftyp(), bx(b"jxlc", &huge), bx(b"Exif", &[vec![0u8; 4], old_block(false, 1)].concat())].concat())),
            K::Heif => for (n, mut c) in crate::heif::cfgs(0) { if n == "heif[exif|e1|meta mdat|v1]" { c.items[0].ext[0] = huge.clone(); list.push((format!("{} huge", n), c.build())); } },
            K::Tiff => { let mut lm = crate::c_meta::tiff_base(&rich()); lm.ifd(0, 0).strips = Some(vec![huge]); list.push(("tiff huge".into(), tiffref::plain(&lm))); }
        }
        for (n, b) in list { v.push(S { name: n, k, file: format!("img.{}", k.suffix()), b }); }
    }
    // names that do not tell the type, and tell a wrong one
    let old: Vec<(K, Vec<u8>)> = v.iter().filter(|s| ["jpg exif", "webp extended", "png zRaw", "jxl naked", "tiff two"].contains(&&s.name[..])).map(|s| (s.k, s.b.clone())).collect();
    for (k, b) in old { for f in ["img", "img.png", "img.jpg", "img.xyz", "img.heic", "img.jpeg"] { v.push(S { name: format!("{} as {}", k.name(), f), k, file: f.into(), b: b.clone() }); } }
    // operations that fail without any fault
    for k in kinds() { let b = bases(k)[0].1.clone(); v.push(S { name: format!("{} damaged", k.name()), k, file: format!("img.{}", k.suffix()), b: b[..b.len() * 2 / 3].to_vec() }); v.push(S { name: format!("{} empty", k.name()), k, file: format!("img.{}", k.suffix()), b: vec![] }); }
    v
}
fn c22() {
    let ms = metas();
    let imgs = images();
    let mut jobs: Vec<(usize, Fop)> = vec![];
    for (i, s) in imgs.iter().enumerate() {
        jobs.extend([(i, Fop::Read), (i, Fop::Type)]);
        let mut ops = vec![Op::W(0), Op::W(1), Op::Clear];
        if s.b.len() > 15000 || thorough() { ops.extend([Op::W(4)]); }
        if s.k == K::Jpg { ops.extend([Op::A12, Op::A13, Op::W(5)]); }
        jobs.extend(ops.into_iter().map(|o| (i, Fop::Do(o))));
    }
    par(&jobs, |_, (i, op)| {
        let s = &imgs[*i];
        let own; let ms2: &[M] = if s.k == K::Tiff { own = vec![mk("small", crate::c_meta::tiff_base(&small())), mk("rich", crate::c_meta::tiff_base(&rich()))]; &own[..] } else { &ms[..] };
        if matches!(op, Fop::Do(Op::W(i)) if *i >= ms2.len()) { return; }
        let d = thread_dir().join("fault"); std::fs::create_dir_all(&d).unwrap();
        for e in std::fs::read_dir(&d).unwrap() { let _ = std::fs::remove_file(e.unwrap().path()); }
        let p = d.join(&s.file);
        let opn = match op { Fop::Read => "read".into(), Fop::Type => "type".into(), Fop::Do(o) => match o { Op::W(i) => format!("write {}", ms2[*i].name), x => format!("{:?}", x) } };
        let base = format!("{} > {}", s.name, opn);
        if let Some(o) = &run().only { if !o.starts_with(&base) { return; } }
        let once = |plan: Plan| -> Option<(Result<Out, String>, Vec<u8>, fault::Report, bool)> {
            std::fs::write(&p, &s.b).unwrap();
            let (r, rep) = fault::with(plan, || run_op(&p, s.b.len(), *op, ms2));
            let post = std::fs::read(&p).unwrap_or_default();
            let mut alone = true;
            for e in std::fs::read_dir(&d).unwrap() { let e = e.unwrap(); if e.file_name() != s.file.as_str() { alone = false; let _ = std::fs::remove_file(e.path()); } }
            Some((r?, post, rep, alone))
        };
        set_case(&base);
        let Some((r0, post0, rep0, alone)) = once(NONE) else { return };
        eval(); state_h(h128(&rep0.log) ^ h128(base.as_bytes()));
        let art: &[(&str, &[u8])] = &[("image", &s.b)];
        if !alone { viol("files", "another file is left in the directory", art) }
        if r0.is_err() && post0 != s.b { viol("failed operation changed the file", &format!("{:?}", r0), art) }
        let log = rep0.log;
        let okey = match op { Fop::Read => "read", Fop::Type => "type", Fop::Do(Op::W(_)) => "write", Fop::Do(Op::Clear) => "clear", _ => "segment" };
        let judge = |plan: Plan, case: String, fs: &[F]| {
            if !want(&case) { return; }
            let Some((r, post, rep, alone)) = once(plan) else { return };
            if rep.hits == 0 { return; } // the first fault changed the course of calls
            eval(); state_h(h128(case.as_bytes())); 
            let kinds: String = plan.at[..plan.np].iter().filter_map(|(i, ..)| rep.log.get(*i)).map(|c| *c as char).collect();
            let key = |w: &str| format!("{}:{}:{}:{}:{}", s.k.name(), okey, kinds, fs.iter().map(|f| format!("{:?}", f)).collect::<Vec<_>>().join("+"), w);
            let art: &[(&str, &[u8])] = &[("before", &s.b), ("after", &post)];
            outcome(&format!("{} {}", okey, if r.is_ok() { "succeeds in spite of the fault" } else { "reports the fault" }));
            if !alone { viol(&key("files"), "another file is left in the directory", art) }
            if fs.iter().all(|f| short(*f)) {
                if r.is_ok() != r0.is_ok() || r.is_ok() && r != r0 { viol(&key("outcome"), &format!("with short transfers: {}, without: {}", show(&r), show(&r0)), art) }
                else if post != post0 { viol(&key("content"), "short transfers change what is written", art) }
                return;
            }
            match &r {
                Ok(_) => {
                    if r != r0 && !(r0.is_err() && matches!(op, Fop::Read)) { viol(&key("success"), &format!("success is reported in spite of the fault, but the result is {} instead of {}", show(&r), show(&r0)), art) }
                    else if post != post0 { viol(&key("success content"), &format!("success is reported but the file has {} bytes that differ from the {} bytes of a fault-free run", post.len(), post0.len()), art) }
                }
                Err(_) => {
                    // nothing may have happened before the first byte is written
                    let reading = kinds.starts_with(['r', 'o', 'x']);
                    if (rep.wrote == 0 || reading && rep.wrote_at_hit == 0 && plan.np == 1) && post != s.b { viol(&key("changed"), &format!("the operation fails before it writes anything ({:?}), but the file changed from {} to {} bytes", r.as_ref().err(), s.b.len(), post.len()), art) }
                    else if reading && plan.np == 1 && post != s.b { viol(&key("read fault after writing"), &format!("a failing read leaves a changed file ({:?})", r.as_ref().err()), art) }
                }
            }
            let _ = class;
        };
        // all transfers short
        for m in [1usize, 2, 3, 7, 100, 4096, 8191, 8192, 65535, 65536, 1 << 20] {
            if s.b.len() > 500_000 && m < 4096 || m > s.b.len() && m > 4096 { continue; }
            if m < 7 && log.len() * 64 + s.b.len() > 30000 && !thorough() { continue; }
            for (rm, wm) in [(m, usize::MAX), (usize::MAX, m), (m, m)] { judge(Plan { rmax: rm, wmax: wm, ..NONE }, format!("{} with at most {:x}/{:x} bytes per call", base, rm, wm), &[F::Len(0)]); }
        }
        // one fault
        let lim = if thorough() { 4000 } else { 400 };
        let places: Vec<usize> = if log.len() <= lim { (0..log.len()).collect() } else { run().capped.store(true, std::sync::atomic::Ordering::SeqCst); (0..lim / 2).chain(log.len() - lim / 2..log.len()).collect() };
        for n in &places { for f in faults(log[*n]) {
            judge(Plan { at: [(*n, log[*n], f), (0, 0, F::Zero)], np: 1, ..NONE }, format!("{} {:?} at call {} ({})", base, f, n, log[*n] as char), &[f]);
        } }
        // two faults; the second one may hit a call that exists only because of the first
        let pl = if thorough() { 60 } else { 40 };
        if log.len() <= pl && (s.b.len() < 500_000 || thorough()) {
            for n in 0..log.len() { for f in faults(log[n]) {
                let p1 = Plan { at: [(n, log[n], f), (0, 0, F::Zero)], np: 1, ..NONE };
                let Some((_, _, rep1, _)) = once(p1) else { continue };
                for m in n + 1..rep1.log.len() { for g in faults(rep1.log[m]) {
                    judge(Plan { at: [(n, log[n], f), (m, rep1.log[m], g)], np: 2, ..NONE }, format!("{} {:?} at call {} ({}) and {:?} at {} ({})", base, f, n, log[n] as char, g, m, rep1.log[m] as char), &[f, g]);
                } }
            } }
        }
        sample(|| format!("{}: calls {}", base, String::from_utf8_lossy(&log[..log.len().min(60)])));
    });
}
fn show(r: &Result<Out, String>) -> String { match r { Ok(Out::Meta(c)) => c.short(), x => format!("{:?}", x) } }
