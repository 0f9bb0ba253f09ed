//! Runtime: supervisor/worker split, per-call guards (panic, hang, memory), counters, violations, evidence.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicU32, AtomicU64, AtomicUsize, Ordering::*};
use std::sync::Mutex;
use std::time::{Duration, Instant, SystemTime, UNIX_EPOCH};

pub const VERIF_DIR: &str = { match option_env!("LEMC_VERIF_DIR") { Some(d) => d, None => "/verif" } };

// ------------------------------------------------------------------------------------------ memory budget
thread_local! {
    static IN_SUT: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
/// above this, an allocation inside the code under test fails (=> abort, reported by the supervisor)
const HARD_LIMIT: i64 = 3 << 30;
pub struct Alloc;
#[inline]
fn acc(n: i64) -> bool {
    IN_SUT.with(|s| {
        if !s.get() { return true; }
        LIVE.with(|l| {
            let v = l.get() + n;
            if v > HARD_LIMIT { return false; }
            l.set(v);
            PEAK.with(|p| if v > p.get() { p.set(v) });
            true
        })
    })
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { crate::sched::point(false); if !acc(l.size() as i64) { return std::ptr::null_mut(); } System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { crate::sched::point(false); if !acc(l.size() as i64) { return std::ptr::null_mut(); } System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { acc(-(l.size() as i64)); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        crate::sched::point(false);
        if !acc(n as i64 - l.size() as i64) { return std::ptr::null_mut(); }
        System.realloc(p, l, n)
    }
}

// ------------------------------------------------------------------------------------------ shared status
const SLOTS: usize = 64;
const SLOT_SZ: usize = 2048;
#[repr(C)]
struct Slot { state: AtomicU32, len: AtomicU32, start: AtomicU64, text: [u8; SLOT_SZ - 16] }
static SHM: AtomicUsize = AtomicUsize::new(0);
static NEXT_SLOT: AtomicUsize = AtomicUsize::new(0);
thread_local! { static MYSLOT: Cell<usize> = const { Cell::new(usize::MAX) }; }
fn slot(i: usize) -> Option<&'static mut Slot> {
    let b = SHM.load(Relaxed);
    if b == 0 { None } else { unsafe { Some(&mut *((b + i * SLOT_SZ) as *mut Slot)) } }
}
fn now_ms() -> u64 { SystemTime::now().duration_since(UNIX_EPOCH).unwrap().as_millis() as u64 }
fn map_shm(path: &str, create: bool) {
    use std::os::fd::AsRawFd;
    let f = std::fs::OpenOptions::new().read(true).write(true).create(create).open(path).expect("shm");
    if create { f.set_len((SLOTS * SLOT_SZ) as u64).unwrap(); }
    let p = unsafe { libc::mmap(std::ptr::null_mut(), SLOTS * SLOT_SZ, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED, f.as_raw_fd(), 0) };
    assert!(p != libc::MAP_FAILED);
    SHM.store(p as usize, SeqCst);
}

// ------------------------------------------------------------------------------------------ global run state
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier { Quick, Thorough }
pub struct Run {
    pub prop: String,
    pub tier: Tier,
    pub only: Option<String>,
    pub t0: Instant,
    states: Vec<Mutex<HashSet<u128>>>,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub evals: AtomicU64,
    viol: Mutex<BTreeMap<String, (String, String)>>, // key -> (first case, what)
    nviol: AtomicU64,
    samples: Mutex<Vec<String>>,
    nsample: AtomicU64,
    outcomes: Mutex<BTreeMap<String, u64>>,
    notes: Mutex<BTreeMap<String, String>>,
    known: Vec<(String, String)>, // (key, description)
    known_hit: Mutex<BTreeMap<String, u64>>,
    pub matched: AtomicU64,
    pub capped: AtomicBool,
}
static RUN: AtomicUsize = AtomicUsize::new(0);
pub fn run() -> &'static Run { unsafe { &*(RUN.load(Relaxed) as *const Run) } }
pub fn thorough() -> bool { run().tier == Tier::Thorough }
pub fn threads() -> usize { std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(16) }

thread_local! { static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) }; }

/// Result of one guarded call of the code under test
pub enum Sut<T> { Ret(T), Panic(String) }
impl<T> Sut<T> {
    pub fn ok(self) -> Option<T> { match self { Sut::Ret(t) => Some(t), _ => None } }
}
thread_local! { pub static CASE: RefCell<String> = const { RefCell::new(String::new()) }; }
pub fn set_case(c: &str) { CASE.with(|s| { let mut s = s.borrow_mut(); s.clear(); s.push_str(c); }) }
pub fn cur_case() -> String { CASE.with(|s| s.borrow().clone()) }

/// Runs one call of the real code; counts a transition; guards against panic, (via supervisor) hang and abort,
/// and a memory budget proportional to `input_len`.
pub fn sut<T>(what: &str, input_len: usize, f: impl FnOnce() -> T) -> Sut<T> {
    let r = run();
    r.transitions.fetch_add(1, Relaxed);
    let my = MYSLOT.with(|m| { if m.get() == usize::MAX { m.set(NEXT_SLOT.fetch_add(1, SeqCst) % SLOTS) } m.get() });
    if let Some(s) = slot(my) {
        CASE.with(|c| {
            let c = c.borrow();
            let t = &mut s.text;
            let mut n = 0;
            for b in c.bytes().chain(" :: ".bytes()).chain(what.bytes()) { if n < t.len() { t[n] = b; n += 1; } }
            s.len.store(n as u32, Relaxed);
        });
        s.start.store(now_ms(), Relaxed);
        s.state.store(1, SeqCst);
    }
    LIVE.with(|l| l.set(0));
    PEAK.with(|l| l.set(0));
    IN_SUT.with(|s| s.set(true));
    let res = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|s| s.set(false));
    if let Some(s) = slot(my) { s.state.store(0, SeqCst); }
    let peak = PEAK.with(|p| p.get());
    let budget = (128i64 << 20) + 4096 * input_len as i64;
    if peak > budget {
        viol(&format!("memory:{}", what), &format!("{} allocated {} bytes at peak for an input of {} bytes (budget {})", what, peak, input_len, budget), &[]);
    }
    match res {
        Ok(t) => Sut::Ret(t),
        Err(_) => Sut::Panic(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
/// a call in a thread of its own, without the other guards
pub fn raw<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    let was = IN_SUT.with(|s| s.replace(true));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SUT.with(|s| s.set(was));
    r.map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
/// As `sut`, a panic is itself reported as a violation (key = panic site) and None returned.
pub fn sut_np<T>(what: &str, input_len: usize, f: impl FnOnce() -> T) -> Option<T> {
    match sut(what, input_len, f) {
        Sut::Ret(t) => Some(t),
        Sut::Panic(m) => { viol(&format!("panic:{}:{}", what, panic_site(&m)), &format!("{} panicked: {}", what, m), &[]); None }
    }
}
pub fn panic_site(m: &str) -> String { m.split('|').next().unwrap_or("").to_string() }

// ------------------------------------------------------------------------------------------ recording
pub fn h128(b: &[u8]) -> u128 {
    // two independent 64-bit FNV-like lanes with final avalanche
    let (mut a, mut c) = (0xcbf29ce484222325u64, 0x9E3779B97F4A7C15u64);
    for ch in b.chunks(8) {
        let mut w = [0u8; 8]; w[..ch.len()].copy_from_slice(ch);
        let v = u64::from_le_bytes(w);
        a = (a ^ v).wrapping_mul(0x100000001b3).rotate_left(23) ^ (a >> 29);
        c = (c.wrapping_add(v)).wrapping_mul(0xff51afd7ed558ccd).rotate_left(31) ^ (c >> 33);
    }
    a ^= b.len() as u64; c ^= (b.len() as u64) << 32;
    for x in [&mut a, &mut c] { *x ^= *x >> 33; *x = x.wrapping_mul(0xc4ceb9fe1a85ec53); *x ^= *x >> 29; }
    ((a as u128) << 64) | c as u128
}
/// registers a state; true if new
pub fn state(b: &[u8]) -> bool { let h = h128(b); state_h(h) }
pub fn state_h(h: u128) -> bool { run().states[(h as usize) & 63].lock().unwrap().insert(h) }
pub fn trace() { run().traces.fetch_add(1, Relaxed); }
pub fn eval() { run().evals.fetch_add(1, Relaxed); }
pub fn outcome(k: &str) { *run().outcomes.lock().unwrap().entry(k.to_string()).or_insert(0) += 1; }
pub fn note(k: &str, v: impl ToString) { run().notes.lock().unwrap().insert(k.to_string(), v.to_string()); }
pub fn sample(f: impl FnOnce() -> String) {
    let r = run();
    let n = r.nsample.fetch_add(1, Relaxed);
    if n < 6 || (n.is_power_of_two() && n < (1 << 40)) { let mut s = r.samples.lock().unwrap(); if s.len() < 40 { s.push(f()); } }
}
/// should this case be explored? (replay filter)
pub fn want(case: &str) -> bool {
    set_case(case);
    match &run().only {
        None => true,
        Some(o) => { let w = o == case; if w { run().matched.fetch_add(1, Relaxed); } w }
    }
}
pub fn hexs(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(4096) { s.push_str(&format!("{:02x}", x)); }
    if b.len() > 4096 { s.push_str(&format!("...({} bytes)", b.len())); }
    s
}
thread_local! { static VIOLS: Cell<u64> = const { Cell::new(0) }; }
/// violations recorded by this thread so far
pub fn viols_here() -> u64 { VIOLS.with(|n| n.get()) }
/// Records a violation. `key` classifies it (call site / input class): one replay per key, and known findings are matched on it.
pub fn viol(key: &str, what: &str, art: &[(&str, &[u8])]) {
    let was = IN_SUT.with(|s| s.replace(false));
    let r = run();
    let case = cur_case();
    if let Some((k, _)) = r.known.iter().find(|(k, _)| k == key || *k == format!("{}@{}", key, case)) {
        *r.known_hit.lock().unwrap().entry(k.clone()).or_insert(0) += 1;
        IN_SUT.with(|s| s.set(was));
        return;
    }
    r.nviol.fetch_add(1, Relaxed);
    let mut v = r.viol.lock().unwrap();
    VIOLS.with(|n| n.set(n.get() + 1));
    if !v.contains_key(key) && v.len() < 400 {
        let mut txt = format!("{}", what);
        for (n, b) in art { txt.push_str(&format!("\n  {} ({} bytes): {}", n, b.len(), hexs(b))); }
        // kept for the supervisor, which reports them if this process does not come to its end
        if v.len() < 25 { if let Some(d) = &*SCRATCH.lock().unwrap() { let _ = std::fs::write(format!("{}/../viol.{}", d, v.len()), format!("{}\u{1f}{}\u{1f}{}", key, case, txt)); } }
        v.insert(key.to_string(), (case, txt));
    }
    drop(v);
    IN_SUT.with(|s| s.set(was));
}

// ------------------------------------------------------------------------------------------ parallel loop
pub fn par<T: Sync, F: Fn(usize, &T) + Sync>(items: &[T], f: F) {
    let next = AtomicUsize::new(0);
    let n = if run().only.is_some() { 1 } else { threads() };
    std::thread::scope(|s| {
        let hs: Vec<_> = (0..n).map(|_| {
            let (next, f) = (&next, &f);
            std::thread::Builder::new().stack_size(2 << 20).spawn_scoped(s, move || loop {
                let i = next.fetch_add(1, Relaxed);
                if i >= items.len() || enough() { break; }
                f(i, &items[i]);
            }).unwrap()
        }).collect();
        let mut bad = false;
        for h in hs { if h.join().is_err() { bad = true; } }
        if bad { panic!("{}", AGAIN) }
    });
}
static ENGINE_PANIC: Mutex<(String, String)> = Mutex::new((String::new(), String::new()));

const AGAIN: &str = "a thread of the harness panicked";
/// nothing is gained by going on, or the time is up
pub fn enough() -> bool {
    let r = run();
    let n = r.nviol.load(Relaxed);
    let t = r.t0.elapsed().as_secs();
    if n > 50_000 || n > 0 && t > 120 { r.capped.store(true, Relaxed); return true; }
    if t > if r.tier == Tier::Quick { 720 } else { 3600 } { if !r.capped.swap(true, Relaxed) { note("stopped", "the time limit was reached"); } return true; }
    false
}
// ------------------------------------------------------------------------------------------ scratch directory
static SCRATCH: Mutex<Option<String>> = Mutex::new(None);
pub fn scratch() -> String { SCRATCH.lock().unwrap().clone().expect("scratch") }

// ------------------------------------------------------------------------------------------ json
pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), '\t' => o.push_str("\\t"), '\r' => o.push_str("\\r"),
            c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)), c => o.push(c) }
    }
    o.push('"'); o
}

fn known_findings(prop: &str) -> Vec<(String, String)> {
    let mut v = vec![];
    if let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.txt", VERIF_DIR)) {
        for l in t.lines() {
            // KNOWN-FINDING: property=C01 key=<key> <description>
            if let Some(rest) = l.strip_prefix("KNOWN-FINDING: property=") {
                let mut it = rest.splitn(2, ' ');
                if it.next() == Some(prop) {
                    if let Some(k) = it.next().and_then(|x| x.strip_prefix("key=")) {
                        let mut kk = k.splitn(2, ' ');
                        v.push((kk.next().unwrap().to_string(), kk.next().unwrap_or("").to_string()));
                    }
                }
            }
        }
    }
    v
}

pub struct Def { pub id: &'static str, pub level: &'static str, pub rule: &'static str, pub assumptions: &'static [&'static str], pub f: fn() }

fn evidence(def: &Def, tier: &str, wall: f64, nviol: u64, cov: &[(String, String)], samples: &[String]) {
    let mut o = String::from("{\n");
    o.push_str(&format!(" \"property\": {},\n \"tier\": {},\n \"seed\": {},\n \"level\": {},\n", jstr(def.id), jstr(tier),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<i64>().ok()).unwrap_or(1), jstr(def.level)));
    o.push_str(" \"coverage\": {\n");
    for (k, v) in cov { o.push_str(&format!("  {}: {},\n", jstr(k), v)); }
    o.push_str(&format!("  \"samples\": [{}]\n }},\n", samples.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   ")));
    o.push_str(&format!(" \"assumptions\": [{}],\n", def.assumptions.iter().map(|s| jstr(s)).collect::<Vec<_>>().join(",\n   ")));
    o.push_str(&format!(" \"wall_s\": {:.3},\n \"violations\": {}\n}}\n", wall, nviol));
    let dir = format!("{}/evidence", VERIF_DIR);
    let _ = std::fs::create_dir_all(&dir);
    std::fs::write(format!("{}/{}.json", dir, def.id), o).expect("evidence");
}

fn write_replay(prop: &str, n: usize, key: &str, case: &str, what: &str) -> String {
    let dir = format!("{}/replays/{}", VERIF_DIR, prop);
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}-{:016x}.txt", dir, n, h128(key.as_bytes()) as u64);
    let _ = std::fs::write(&p, format!("property: {}\nkey: {}\ncase: {}\nreplay: LEMC_ONLY={} bash /verif/check.sh {}\n\n{}\n", prop, key, case, shell_quote(case), prop, what));
    p
}
fn shell_quote(s: &str) -> String { format!("'{}'", s.replace('\'', "'\\''")) }

pub fn worker(def: &Def, tier: Tier, only: Option<String>) -> i32 {
    if let Ok(p) = std::env::var("LEMC_SHM") { map_shm(&p, false); }
    *SCRATCH.lock().unwrap() = std::env::var("LEMC_SCRATCH").ok();
    std::panic::set_hook(Box::new(|i| {
        let was = IN_SUT.with(|s| s.replace(false));
        let msg = if let Some(s) = i.payload().downcast_ref::<&str>() { s.to_string() } else if let Some(s) = i.payload().downcast_ref::<String>() { s.clone() } else { "?".into() };
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let full = format!("{}|{}", loc, msg);
        if !was && msg != AGAIN { { let mut e = ENGINE_PANIC.lock().unwrap(); if e.0.is_empty() { *e = (full.clone(), cur_case()); } } eprintln!("engine panic: {} (case {})", full, cur_case()); }
        LAST_PANIC.with(|p| *p.borrow_mut() = full);
        IN_SUT.with(|s| s.set(was));
    }));
    let r = Box::leak(Box::new(Run {
        prop: def.id.to_string(), tier, only, t0: Instant::now(),
        states: (0..64).map(|_| Mutex::new(HashSet::new())).collect(),
        transitions: AtomicU64::new(0), traces: AtomicU64::new(0), evals: AtomicU64::new(0),
        viol: Mutex::new(BTreeMap::new()), nviol: AtomicU64::new(0), samples: Mutex::new(vec![]), nsample: AtomicU64::new(0),
        outcomes: Mutex::new(BTreeMap::new()), notes: Mutex::new(BTreeMap::new()),
        known: known_findings(def.id), known_hit: Mutex::new(BTreeMap::new()), matched: AtomicU64::new(0), capped: AtomicBool::new(false),
    }));
    RUN.store(r as *const Run as usize, SeqCst);
    if catch_unwind(def.f).is_err() {
        // a panic outside a guarded call: either the library panics in a call that cannot fail, or it gives the harness something no correct library gives
        let (what, case) = ENGINE_PANIC.lock().unwrap().clone();
        if what.contains("os error") || what.contains("Os {") || what.is_empty() { eprintln!("engine error: {}", what); return 3; }
        let lib = what.contains("/repo/src/");
        set_case(&case);
        viol(&format!("{}:{}", if lib { "panic" } else { "unexpected" }, panic_site(&what)), &if lib { format!("the library panics: {}", what) } else { format!("the library's answer is not one the harness can go on with: {}", what) }, &[]);
    }
    if r.only.is_some() && r.matched.load(Relaxed) == 0 { eprintln!("no case matches the replay filter"); return 2; }
    let wall = r.t0.elapsed().as_secs_f64();
    let nstates: usize = r.states.iter().map(|s| s.lock().unwrap().len()).sum();
    let (tr, tc, ev) = (r.transitions.load(Relaxed), r.traces.load(Relaxed), r.evals.load(Relaxed));
    let viols = r.viol.lock().unwrap();
    let nv = r.nviol.load(Relaxed);
    let mut cov: Vec<(String, String)> = vec![];
    match def.level {
        "model_checking" => {
            cov.push(("states".into(), nstates.to_string())); cov.push(("transitions".into(), tr.to_string()));
            cov.push(("traces_validated_against_impl".into(), tc.to_string()));
        }
        _ => { cov.push(("evaluations".into(), ev.to_string())); cov.push(("distinct_nontrivial".into(), nstates.to_string())); cov.push(("real_calls".into(), tr.to_string())); }
    }
    cov.push(("rule".into(), jstr(def.rule)));
    cov.push(("exhaustive".into(), (!r.capped.load(Relaxed) && r.only.is_none()).to_string()));
    let oc = r.outcomes.lock().unwrap();
    if !oc.is_empty() { cov.push(("distinct_outcomes".into(), format!("{{{}}}", oc.iter().map(|(k, v)| format!("{}: {}", jstr(k), v)).collect::<Vec<_>>().join(", ")))); }
    for (k, v) in r.notes.lock().unwrap().iter() { cov.push((k.clone(), jstr(v))); }
    let mut samples = r.samples.lock().unwrap().clone();
    if samples.is_empty() { samples.push("(no case explored)".into()); }
    if r.only.is_none() { evidence(def, if tier == Tier::Quick { "quick" } else { "thorough" }, wall, nv, &cov, &samples); }
    println!("{}: states={} transitions={} traces={} evaluations={} violations={} wall={:.1}s", def.id, nstates, tr, tc, ev, nv, wall);
    for (k, d) in &r.known { // every listed finding is announced
        let n = r.known_hit.lock().unwrap().get(k).copied().unwrap_or(0);
        println!("KNOWN-FINDING: property={} key={} {} (hits this run: {})", def.id, k, d, n);
    }
    if nstates == 0 && nv == 0 && r.only.is_none() { eprintln!("engine error: nothing explored"); return 3; }
    if nv > 0 {
        for (i, (k, (case, what))) in viols.iter().enumerate().take(25) {
            let p = write_replay(def.id, i, k, case, what);
            println!("VIOLATION property={} replay={}", def.id, p);
            println!("   [{}] case {} : {}", k, case, what.lines().next().unwrap_or("").chars().take(600).collect::<String>());
        }
        std::io::stdout().flush().ok();
        return 1;
    }
    0
}

pub fn supervise(def: &Def, tier: Tier, only: Option<String>) -> i32 {
    let base = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false) && std::fs::write(format!("/dev/shm/lemc.probe.{}", std::process::id()), b"x").is_ok() {
        let _ = std::fs::remove_file(format!("/dev/shm/lemc.probe.{}", std::process::id()));
        "/dev/shm".to_string()
    } else { std::env::temp_dir().to_string_lossy().to_string() };
    let dir = format!("{}/lemc.{}.{}", base, def.id, std::process::id());
    std::fs::create_dir_all(&dir).expect("scratch dir");
    let shm = format!("{}/status", dir);
    map_shm(&shm, true);
    let sc = format!("{}/work", dir);
    std::fs::create_dir_all(&sc).unwrap();
    let exe = std::env::current_exe().unwrap();
    let mut cmd = std::process::Command::new(exe);
    cmd.arg(def.id).arg(if tier == Tier::Quick { "quick" } else { "thorough" }).env("LEMC_WORKER", "1").env("LEMC_SHM", &shm).env("LEMC_SCRATCH", &sc);
    if let Some(o) = &only { cmd.env("LEMC_ONLY", o); }
    let t0 = Instant::now();
    let mut ch = cmd.spawn().expect("spawn");
    let hang_ms: u64 = 40_000;
    let mut hung: Option<String> = None;
    let status = loop {
        if let Some(st) = ch.try_wait().unwrap() { break st; }
        std::thread::sleep(Duration::from_millis(20));
        let now = now_ms();
        for i in 0..SLOTS {
            let s = slot(i).unwrap();
            if s.state.load(SeqCst) == 1 {
                let st = s.start.load(SeqCst);
                if now > st + hang_ms && s.state.load(SeqCst) == 1 && s.start.load(SeqCst) == st {
                    hung = Some(String::from_utf8_lossy(&s.text[..s.len.load(SeqCst) as usize]).to_string());
                }
            }
        }
        if hung.is_some() { let _ = ch.kill(); break ch.wait().unwrap(); }
    };
    use std::os::unix::process::ExitStatusExt;
    let mut code = status.code().unwrap_or(101);
    let in_sut: Vec<String> = (0..SLOTS).filter_map(|i| { let s = slot(i).unwrap(); if s.state.load(SeqCst) == 1 { Some(String::from_utf8_lossy(&s.text[..s.len.load(SeqCst) as usize]).to_string()) } else { None } }).collect();
    let fatal = if let Some(h) = hung { Some((format!("hang"), h, format!("call did not return within {} s", hang_ms / 1000))) }
        else if let Some(sig) = status.signal() {
            if !in_sut.is_empty() && sig != libc::SIGKILL && sig != libc::SIGTERM && sig != libc::SIGINT { Some((format!("signal{}", sig), in_sut[0].clone(), format!("process died with signal {} (abort, stack overflow or allocation beyond the {} byte limit) inside a library call; calls in flight: {:?}", sig, HARD_LIMIT, in_sut))) } else { None }
        } else { None };
    if let Some((k, case, what)) = fatal {
        let known = known_findings(def.id);
        let case_only = case.split(" :: ").next().unwrap_or("").to_string();
        let p = write_replay(def.id, 0, &k, &case_only, &format!("{}\n{}", what, case));
        evidence(def, if tier == Tier::Quick { "quick" } else { "thorough" }, t0.elapsed().as_secs_f64(), 1,
            &[("states".into(), "0".into()), ("transitions".into(), "0".into()), ("traces_validated_against_impl".into(), "0".into()), ("evaluations".into(), "0".into()), ("distinct_nontrivial".into(), "0".into()), ("rule".into(), jstr("run ended early by a fatal violation"))], &[case.clone()]);
        let _ = known;
        println!("VIOLATION property={} replay={}", def.id, p);
        println!("   [{}] {} : {}", k, case, what);
        code = 1;
    } else if status.code().is_none() || !matches!(status.code(), Some(0..=3)) {
        // the run did not come to its end; what it had found by then counts
        let mut n = 0;
        for i in 0..25 { if let Ok(t) = std::fs::read_to_string(format!("{}/viol.{}", dir, i)) {
            let f: Vec<&str> = t.splitn(3, '\u{1f}').collect();
            if f.len() == 3 { n += 1; let p = write_replay(def.id, i, f[0], f[1], f[2]); println!("VIOLATION property={} replay={}", def.id, p); println!("   [{}] case {} : {}", f[0], f[1], f[2].lines().next().unwrap_or("").chars().take(600).collect::<String>()); }
        } }
        if n > 0 { code = 1; evidence(def, if tier == Tier::Quick { "quick" } else { "thorough" }, t0.elapsed().as_secs_f64(), n, &[("states".into(), "0".into()), ("transitions".into(), "0".into()), ("traces_validated_against_impl".into(), "0".into()), ("evaluations".into(), "0".into()), ("distinct_nontrivial".into(), "0".into()), ("rule".into(), jstr("run ended early"))], &["(run ended early)".into()]); }
        else { eprintln!("engine error: worker died: {:?}", status); code = 4; }
    } else if status.signal().is_some() { eprintln!("engine error: worker died: {:?}", status); code = 4; }
    // remove the scratch directory this run created
    let _ = std::fs::remove_dir_all(&dir);
    code
}
