//! Monitors common to all runs: panics of the code under test, allocation sizes, per-case CPU time,
//! and the bookkeeping of what was observed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

thread_local! {
    static IN_LIB: Cell<u32> = const { Cell::new(0) };
    static LARGEST: Cell<usize> = const { Cell::new(0) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static MIX: Cell<u64> = const { Cell::new(0) };
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// No single request and no per-thread total above this can be meant by any test here.
const HARD_REQUEST: usize = 3 << 30;
const HARD_LIVE: isize = 2 << 30;

pub struct CountingAlloc;

#[inline]
fn admit(size: usize) -> bool {
    let mut ok = true;
    let _ = IN_LIB.try_with(|l| {
        if l.get() > 0 {
            LARGEST.with(|x| if size > x.get() { x.set(size) });
            let live = LIVE.with(|x| { let v = x.get() + size as isize; x.set(v); v });
            if size > HARD_REQUEST || live > HARD_LIVE { ok = false; }
        }
    });
    ok
}
#[inline]
fn release(size: usize) {
    let _ = IN_LIB.try_with(|l| if l.get() > 0 { LIVE.with(|x| x.set(x.get() - size as isize)) });
}

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { if admit(l.size()) { System.alloc(l) } else { std::ptr::null_mut() } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { if admit(l.size()) { System.alloc_zeroed(l) } else { std::ptr::null_mut() } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { release(l.size()); System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !admit(n) { return std::ptr::null_mut(); }
        release(l.size());
        System.realloc(p, l, n)
    }
}

#[global_allocator]
static ALLOC: CountingAlloc = CountingAlloc;

pub fn install_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let inside = IN_LIB.try_with(|l| l.get() > 0).unwrap_or(false);
        if inside {
            let msg = if let Some(s) = info.payload().downcast_ref::<&str>() { s.to_string() }
                else if let Some(s) = info.payload().downcast_ref::<String>() { s.clone() } else { "panic".into() };
            let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
            let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = format!("panic at {}: {}", loc, msg));
        } else {
            old(info);
        }
    }));
}

/// Runs code under test: a panic in it becomes Err(message).
pub fn lib<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    IN_LIB.with(|l| l.set(l.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_LIB.with(|l| l.set(l.get() - 1));
    r.map_err(|_| PANIC_MSG.with(|m| std::mem::take(&mut *m.borrow_mut())))
}

/// Scrambles a number.
pub fn mix(x: u64) -> u64 { let x = (x ^ 0x51ed_270b).wrapping_mul(0x9E37_79B9_7F4A_7C15); x ^ x >> 29 }

/// A number that depends on the case only.
pub fn case_mix() -> u64 { MIX.with(|x| x.get()) }
pub fn set_case(idx: u64) { MIX.with(|x| x.set((idx.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 29) & 0xffff_ffff)) }

pub fn alloc_reset() { LARGEST.with(|x| x.set(0)); LIVE.with(|x| x.set(0)); }
pub fn alloc_largest() -> usize { LARGEST.with(|x| x.get()) }

/// Bytes allocated by the code under test in this thread and not freed in it.
pub fn alloc_live() -> isize { LIVE.with(|x| x.get()) }

pub fn thread_cpu_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts); }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}
pub fn clock_ns(id: libc::clockid_t) -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(id, &mut ts); }
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

/// Slots shared with the parent process: case index + 1 of each worker.
pub struct Slot { pub case: *mut u64, pub start_cpu: AtomicU64, pub start_wall: AtomicU64, pub clock: AtomicU64 }
unsafe impl Sync for Slot {}
unsafe impl Send for Slot {}
impl Slot {
    pub fn set(&self, v: u64) { unsafe { (*(self.case as *const AtomicU64)).store(v, Ordering::SeqCst) } }
    pub fn get(&self) -> u64 { unsafe { (*(self.case as *const AtomicU64)).load(Ordering::SeqCst) } }
}

pub struct Ctx {
    pub thorough: bool,
    pub worker: usize,
    pub counters: BTreeMap<String, u64>,
    pub sigs: HashSet<u64>,
    pub samples: Vec<String>,
    pub input: Vec<u8>,
    pub notes: Vec<String>,
    pub verbose: bool,
    /// ids of the recorded findings of this property
    pub listed: Vec<String>,
    pub known: BTreeMap<String, String>,
}
impl Ctx {
    pub fn new(worker: usize, thorough: bool) -> Self {
        Ctx { thorough, worker, counters: BTreeMap::new(), sigs: HashSet::new(), samples: vec![], input: vec![], notes: vec![], verbose: false, listed: vec![], known: BTreeMap::new() }
    }
    pub fn begin(&mut self) { self.input.clear(); self.notes.clear(); alloc_reset(); }
    /// A violation that is a recorded finding if it is listed as such.
    pub fn known(&mut self, id: &str, what: &str) -> CaseResult {
        if self.listed.iter().any(|x| x == id) { self.known.insert(id.to_string(), what.to_string()); return Ok(()); }
        Err(what.to_string())
    }
    pub fn count(&mut self, k: &str, n: u64) {
        if let Some(v) = self.counters.get_mut(k) { *v += n; } else { self.counters.insert(k.to_string(), n); }
    }
    pub fn max(&mut self, k: &str, n: u64) {
        let k = format!("max_{}", k);
        let e = self.counters.entry(k).or_insert(0);
        if n > *e { *e = n; }
    }
    /// Marks the case as non-trivial, with a signature for distinctness.
    pub fn sig(&mut self, h: u64) { self.sigs.insert(h); }
    pub fn sig_bytes(&mut self, b: &[u8]) { self.sigs.insert(crate::rng::hash_bytes(b)); }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.samples.len() < 2 { let mut s = f(); if s.len() > 700 { let mut n = 700; while !s.is_char_boundary(n) { n -= 1; } s.truncate(n); s.push('…'); } self.samples.push(s); }
    }
    pub fn note(&mut self, s: String) { if self.notes.len() < 200 { self.notes.push(s); } }
    pub fn set_input(&mut self, b: &[u8]) { self.input.clear(); self.input.extend_from_slice(&b[..b.len().min(1 << 20)]); }
}

pub type CaseResult = Result<(), String>;

#[macro_export]
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } };
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b { s.push_str(&format!("{:02x}", x)); }
    s
}
pub fn hex_short(b: &[u8]) -> String { if b.len() > 120 { format!("{}…({} bytes)", hex(&b[..120]), b.len()) } else { hex(b) } }
