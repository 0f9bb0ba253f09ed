//! Two calls of the library under a controlled scheduler: exactly one of the two threads runs at a time, and it hands over
//! only at scheduling points (every allocation and every file system call of the library) that the schedule names.
use libc::c_long;
use std::cell::Cell;
use std::sync::atomic::{AtomicU32, AtomicU64, Ordering::*};

const FREE: u32 = 2;
pub struct Sh { turn: AtomicU32, n: [AtomicU64; 2], done: [AtomicU32; 2], seg: AtomicU32, segs: Vec<u32>, sys_only: bool, pub switched: AtomicU32 }
#[derive(Clone, Copy)]
struct Me { sh: *const Sh, id: usize, left: u32 }
thread_local! { static ME: Cell<Option<Me>> = const { Cell::new(None) }; }
impl Sh {
    /// `first` runs segs[0] points, the other one segs[1] points, and so on; after the last segment both run to their end
    pub fn new(first: usize, segs: Vec<u32>, sys_only: bool) -> Sh { Sh { turn: AtomicU32::new(first as u32), n: Default::default(), done: Default::default(), seg: AtomicU32::new(0), segs, sys_only, switched: AtomicU32::new(0) } }
    pub fn points(&self, id: usize) -> u64 { self.n[id].load(SeqCst) }
    /// the schedule could not be kept because one thread waits for the other one
    pub fn freed(&self) -> bool { self.turn.load(SeqCst) == FREE }
    fn futex(&self, op: i32, v: u32, ms: i64) {
        let ts = libc::timespec { tv_sec: 0, tv_nsec: ms * 1_000_000 };
        unsafe { libc::syscall(libc::SYS_futex, &self.turn as *const AtomicU32, op as c_long, v as c_long, &ts as *const _ as c_long, 0 as c_long, 0 as c_long); }
    }
    fn pass(&self, to: u32) { self.turn.store(to, SeqCst); self.futex(libc::FUTEX_WAKE | libc::FUTEX_PRIVATE_FLAG, i32::MAX as u32, 0) }
    /// waits for the turn; gives up keeping the schedule if the other thread makes no progress (it may wait for a lock held here)
    fn wait(&self, id: usize) {
        let (mut last, mut idle) = (u64::MAX, 0);
        let mut spins = 0;
        loop {
            let t = self.turn.load(SeqCst);
            if t == id as u32 || t == FREE { break; }
            spins += 1;
            if spins < 200 { std::hint::spin_loop(); continue; }
            self.futex(libc::FUTEX_WAIT | libc::FUTEX_PRIVATE_FLAG, t, 25);
            let p = self.n[1 - id].load(SeqCst);
            if p == last { idle += 1 } else { idle = 0; last = p }
            if idle > 8 { self.pass(FREE) }
        }
    }
    fn take(&self, id: usize) -> u32 {
        if self.done[1 - id].load(SeqCst) == 1 { return u32::MAX; }
        let i = self.seg.fetch_add(1, SeqCst) as usize;
        self.segs.get(i).copied().unwrap_or(u32::MAX)
    }
}
/// runs `f` as thread `id` of the schedule
pub fn run<T>(sh: &Sh, id: usize, f: impl FnOnce() -> T) -> T {
    sh.wait(id);
    let left = sh.take(id);
    ME.with(|m| m.set(Some(Me { sh, id, left })));
    let r = f();
    ME.with(|m| m.set(None));
    sh.done[id].store(1, SeqCst);
    if !sh.freed() { sh.pass(1 - id as u32) }
    r
}
/// a scheduling point
#[inline]
pub fn point(sys: bool) {
    ME.with(|c| {
        let Some(mut m) = c.get() else { return };
        let sh = unsafe { &*m.sh };
        if sh.sys_only && !sys { return; }
        sh.n[m.id].fetch_add(1, SeqCst);
        if m.left == u32::MAX || sh.freed() { return; }
        if m.left > 0 { m.left -= 1; c.set(Some(m)); return; }
        if sh.done[1 - m.id].load(SeqCst) == 1 { return; }
        sh.switched.fetch_add(1, SeqCst);
        sh.pass(1 - m.id as u32);
        sh.wait(m.id);
        m.left = sh.take(m.id);
        c.set(Some(m));
    })
}
