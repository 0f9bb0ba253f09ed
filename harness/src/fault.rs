//! Stand-ins for the file functions of the C library that count calls and inject faults in the thread that arms them.
//! They are linked in place of libc's; without an armed plan each is the plain system call.
use libc::{c_char, c_int, c_long, c_uint, c_void, iovec, off64_t, size_t, ssize_t};
use std::cell::{Cell, UnsafeCell};

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum F { Err(c_int), Errs(c_int, u8), Always(c_int), Len(u8), LenThen(c_int), Zero }
pub const MAXLOG: usize = 1 << 16;
#[derive(Clone, Copy)]
pub struct Plan { pub at: [(usize, u8, F); 2], pub np: usize, pub rmax: usize, pub wmax: usize }
pub const NONE: Plan = Plan { at: [(0, 0, F::Zero); 2], np: 0, rmax: usize::MAX, wmax: usize::MAX };
struct St { armed: Cell<bool>, n: Cell<usize>, plan: Cell<Plan>, hits: Cell<u32>, wrote: Cell<usize>, wrote_at_hit: Cell<usize>, always: Cell<(u8, c_int)>, again: Cell<(u8, c_int, u8)>, log: UnsafeCell<[u8; MAXLOG]> }
thread_local! { static ST: St = const { St { armed: Cell::new(false), n: Cell::new(0), plan: Cell::new(NONE), hits: Cell::new(0), wrote: Cell::new(0), wrote_at_hit: Cell::new(0), always: Cell::new((0, 0)), again: Cell::new((0, 0, 0)), log: UnsafeCell::new([0; MAXLOG]) } }; }
pub struct Report { pub log: Vec<u8>, pub hits: u32, pub wrote_at_hit: usize, pub wrote: usize }
/// runs `f` with the plan armed in this thread
pub fn with<T>(p: Plan, f: impl FnOnce() -> T) -> (T, Report) {
    ST.with(|s| { s.n.set(0); s.hits.set(0); s.wrote.set(0); s.wrote_at_hit.set(0); s.always.set((0, 0)); s.again.set((0, 0, 0)); s.plan.set(p); s.armed.set(true); });
    let r = f();
    ST.with(|s| {
        s.armed.set(false);
        let n = s.n.get().min(MAXLOG);
        (r, Report { log: unsafe { (&*s.log.get())[..n].to_vec() }, hits: s.hits.get(), wrote_at_hit: s.wrote_at_hit.get(), wrote: s.wrote.get() })
    })
}
enum A { Pass, Fail(c_int), Max(usize), Zero }
/// decides about one call of the given kind over `len` bytes
fn gate(kind: u8, len: usize) -> A {
    crate::sched::point(true);
    ST.with(|s| {
        if !s.armed.get() { return A::Pass; }
        let n = s.n.get(); s.n.set(n + 1);
        if n < MAXLOG { unsafe { (*s.log.get())[n] = kind } }
        let hit = |s: &St| { if s.hits.get() == 0 { s.wrote_at_hit.set(s.wrote.get()) } s.hits.set(s.hits.get() + 1) };
        if s.always.get().0 == kind { hit(s); return A::Fail(s.always.get().1); }
        let (k, e, left) = s.again.get();
        if left > 0 && k == kind { s.again.set((k, e, left - 1)); hit(s); return A::Fail(e); }
        let p = s.plan.get();
        for (i, k, f) in &p.at[..p.np] { if *i == n && *k == kind {
            hit(s);
            match *f {
                F::Err(e) => return A::Fail(e),
                F::Errs(e, k) => { s.again.set((kind, e, k - 1)); return A::Fail(e) }
                F::Always(e) => { s.always.set((kind, e)); return A::Fail(e) }
                F::Len(d) => return A::Max(if d == 0 { 1 } else { (len / d as usize).max(1) }),
                F::LenThen(e) => { s.always.set((kind, e)); return A::Max((len / 2).max(1)) }
                F::Zero => return A::Zero,
            }
        } }
        let m = match kind { b'r' => p.rmax, b'w' => p.wmax, _ => usize::MAX };
        if len > m { hit(s); return A::Max(m); }
        A::Pass
    })
}
fn wrote(n: ssize_t) { if n > 0 { ST.with(|s| if s.armed.get() { s.wrote.set(s.wrote.get() + n as usize) }) } }
fn err(e: c_int) -> c_int { unsafe { *libc::__errno_location() = e } -1 }

unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int {
    match gate(if flags & (libc::O_WRONLY | libc::O_RDWR) != 0 { b'c' } else { b'o' }, 0) { A::Fail(e) => err(e), _ => libc::syscall(libc::SYS_openat, dir as c_long, p, flags as c_long, mode as c_long) as c_int }
}
#[no_mangle] pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_open(libc::AT_FDCWD, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_open(libc::AT_FDCWD, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_open(d, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn openat64(d: c_int, p: *const c_char, flags: c_int, mode: c_uint) -> c_int { do_open(d, p, flags, mode) }
#[no_mangle] pub unsafe extern "C" fn read(fd: c_int, b: *mut c_void, n: size_t) -> ssize_t {
    let n = match if fd > 2 { gate(b'r', n) } else { A::Pass } { A::Fail(e) => return err(e) as ssize_t, A::Max(m) => n.min(m), A::Zero => 0, A::Pass => n };
    libc::syscall(libc::SYS_read, fd as c_long, b, n) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn pread64(fd: c_int, b: *mut c_void, n: size_t, o: off64_t) -> ssize_t {
    let n = match gate(b'r', n) { A::Fail(e) => return err(e) as ssize_t, A::Max(m) => n.min(m), A::Zero => 0, A::Pass => n };
    libc::syscall(libc::SYS_pread64, fd as c_long, b, n, o) as ssize_t
}
#[no_mangle] pub unsafe extern "C" fn readv(fd: c_int, v: *const iovec, c: c_int) -> ssize_t {
    let tot: usize = (0..c as usize).map(|i| (*v.add(i)).iov_len).sum();
    match gate(b'r', tot) {
        A::Fail(e) => err(e) as ssize_t,
        A::Pass => libc::syscall(libc::SYS_readv, fd as c_long, v, c as c_long) as ssize_t,
        A::Zero => 0,
        A::Max(m) => { for i in 0..c as usize { if (*v.add(i)).iov_len > 0 { return libc::syscall(libc::SYS_read, fd as c_long, (*v.add(i)).iov_base, (*v.add(i)).iov_len.min(m)) as ssize_t; } } 0 }
    }
}
#[no_mangle] pub unsafe extern "C" fn write(fd: c_int, b: *const c_void, n: size_t) -> ssize_t {
    let n = match if fd > 2 { gate(b'w', n) } else { A::Pass } { A::Fail(e) => return err(e) as ssize_t, A::Max(m) => n.min(m), A::Zero => return 0, A::Pass => n };
    let r = libc::syscall(libc::SYS_write, fd as c_long, b, n) as ssize_t; if fd > 2 { wrote(r) } r
}
#[no_mangle] pub unsafe extern "C" fn pwrite64(fd: c_int, b: *const c_void, n: size_t, o: off64_t) -> ssize_t {
    let n = match gate(b'w', n) { A::Fail(e) => return err(e) as ssize_t, A::Max(m) => n.min(m), A::Zero => return 0, A::Pass => n };
    let r = libc::syscall(libc::SYS_pwrite64, fd as c_long, b, n, o) as ssize_t; wrote(r); r
}
#[no_mangle] pub unsafe extern "C" fn writev(fd: c_int, v: *const iovec, c: c_int) -> ssize_t {
    if fd <= 2 { return libc::syscall(libc::SYS_writev, fd as c_long, v, c as c_long) as ssize_t; }
    let tot: usize = (0..c as usize).map(|i| (*v.add(i)).iov_len).sum();
    let r = match gate(b'w', tot) {
        A::Fail(e) => return err(e) as ssize_t,
        A::Pass => libc::syscall(libc::SYS_writev, fd as c_long, v, c as c_long) as ssize_t,
        A::Zero => 0,
        A::Max(m) => { let mut r = 0; for i in 0..c as usize { if (*v.add(i)).iov_len > 0 { r = libc::syscall(libc::SYS_write, fd as c_long, (*v.add(i)).iov_base, (*v.add(i)).iov_len.min(m)) as ssize_t; break; } } r }
    };
    wrote(r); r
}
#[no_mangle] pub unsafe extern "C" fn lseek64(fd: c_int, o: off64_t, w: c_int) -> off64_t { match gate(b's', 0) { A::Fail(e) => err(e) as off64_t, _ => libc::syscall(libc::SYS_lseek, fd as c_long, o, w as c_long) as off64_t } }
#[no_mangle] pub unsafe extern "C" fn lseek(fd: c_int, o: off64_t, w: c_int) -> off64_t { lseek64(fd, o, w) }
#[no_mangle] pub unsafe extern "C" fn ftruncate64(fd: c_int, o: off64_t) -> c_int { match gate(b't', 0) { A::Fail(e) => err(e), _ => libc::syscall(libc::SYS_ftruncate, fd as c_long, o) as c_int } }
#[no_mangle] pub unsafe extern "C" fn ftruncate(fd: c_int, o: off64_t) -> c_int { ftruncate64(fd, o) }
#[no_mangle] pub unsafe extern "C" fn fsync(fd: c_int) -> c_int { match gate(b'f', 0) { A::Fail(e) => err(e), _ => libc::syscall(libc::SYS_fsync, fd as c_long) as c_int } }
#[no_mangle] pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int { match gate(b'f', 0) { A::Fail(e) => err(e), _ => libc::syscall(libc::SYS_fdatasync, fd as c_long) as c_int } }
#[no_mangle] pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int { match gate(b'm', 0) { A::Fail(e) => err(e), _ => libc::syscall(libc::SYS_renameat, libc::AT_FDCWD as c_long, a, libc::AT_FDCWD as c_long, b) as c_int } }
#[no_mangle] pub unsafe extern "C" fn statx(d: c_int, p: *const c_char, fl: c_int, mask: c_uint, buf: *mut c_void) -> c_int { match gate(b'x', 0) { A::Fail(e) => err(e), _ => libc::syscall(libc::SYS_statx, d as c_long, p, fl as c_long, mask as c_long, buf) as c_int } }
/// copying inside the kernel is refused, which makes std fall back to read and write
#[no_mangle] pub unsafe extern "C" fn copy_file_range(a: c_int, oa: *mut off64_t, b: c_int, ob: *mut off64_t, n: size_t, fl: c_uint) -> ssize_t { if ST.with(|s| s.armed.get()) { return err(libc::ENOSYS) as ssize_t; } libc::syscall(libc::SYS_copy_file_range, a as c_long, oa, b as c_long, ob, n, fl as c_long) as ssize_t }
#[no_mangle] pub unsafe extern "C" fn sendfile64(a: c_int, b: c_int, o: *mut off64_t, n: size_t) -> ssize_t { if ST.with(|s| s.armed.get()) { return err(libc::EINVAL) as ssize_t; } libc::syscall(libc::SYS_sendfile, a as c_long, b as c_long, o, n) as ssize_t }
