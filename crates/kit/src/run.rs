//! Running one execution of the code under test inside a fence: panics are
//! caught, runaway loops end at a step horizon (hash operations), a byte
//! budget or a CPU-time limit.
use std::alloc::{GlobalAlloc, Layout, System};
use std::any::Any;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Mutex;
use vstd::ctl;

pub struct Alloc;
thread_local!(static LIVE: Cell<(i64, i64)> = const { Cell::new((0, 0)) });
thread_local!(static WORKER: Cell<usize> = const { Cell::new(usize::MAX) });
const MAXW: usize = 64;
static PARKED: [AtomicBool; MAXW] = [const { AtomicBool::new(false) }; MAXW];
static CURRENT: [Mutex<Option<String>>; MAXW] = [const { Mutex::new(None) }; MAXW];

pub fn set_worker(w: usize) {
    WORKER.with(|x| x.set(w));
}
pub fn parked(w: usize) -> bool {
    PARKED[w].load(Ordering::SeqCst)
}
/// The narrowed case (JSON) this worker is executing, when it said so.
pub fn current(w: usize) -> Option<String> {
    CURRENT[w].try_lock().ok().and_then(|c| c.clone())
}
pub fn set_current(s: Option<String>) {
    let w = WORKER.with(|x| x.get());
    if w < MAXW {
        *CURRENT[w].lock().unwrap() = s;
    }
}

/// As `set_current`, for cases that are cheap to write out only when needed:
/// small ones are written at once.
pub fn set_current_lazy<T: serde::Serialize>(c: &T) {
    let w = WORKER.with(|x| x.get());
    if w < MAXW {
        *CURRENT[w].lock().unwrap() = serde_json::to_string(c).ok();
    }
}

fn charge(n: i64) {
    let _ = LIVE.try_with(|l| {
        let (live, max) = l.get();
        let live = live + n;
        l.set((live, max));
        if max != 0 && live > max {
            l.set((live, 0));
            let w = WORKER.with(|x| x.get());
            if w < MAXW {
                PARKED[w].store(true, Ordering::SeqCst);
                // never returns: the monitor reports this worker's case
                loop {
                    std::thread::park();
                }
            }
        }
    });
}

unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        charge(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        charge(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        charge(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}

/// Hash-collection operations one execution may make.
pub const STEP_LIMIT: u64 = 6_000_000;
const BYTE_LIMIT: i64 = 1 << 30;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Fail {
    Panic(String),
    Horizon,
}
impl std::fmt::Display for Fail {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        match self {
            Fail::Panic(m) => write!(f, "panic: {}", m),
            Fail::Horizon => write!(f, "does not terminate (step horizon reached)"),
        }
    }
}

pub fn panic_text(e: &(dyn Any + Send)) -> String {
    e.downcast_ref::<String>()
        .cloned()
        .or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string()))
        .unwrap_or_else(|| "?".into())
}

pub fn clear() {
    LIVE.with(|l| l.set((0, 0)));
    ctl::set_horizon(0);
    let _ = ctl::end();
}

pub fn guarded<T>(limit: u64, f: impl FnOnce() -> T) -> Result<T, Fail> {
    ctl::set_horizon(limit);
    LIVE.with(|l| l.set((0, BYTE_LIMIT)));
    let r = catch_unwind(AssertUnwindSafe(f));
    LIVE.with(|l| l.set((0, 0)));
    ctl::set_horizon(0);
    r.map_err(|e| {
        let m = panic_text(&*e);
        if m == ctl::HORIZON { Fail::Horizon } else { Fail::Panic(m) }
    })
}

/// FNV-1a with a final mix: a fixed, seedless hash for state fingerprints.
pub struct Fnv(u64);
impl Default for Fnv {
    fn default() -> Self {
        Fnv(0xcbf2_9ce4_8422_2325)
    }
}
impl std::hash::Hasher for Fnv {
    fn write(&mut self, b: &[u8]) {
        for &x in b {
            self.0 = (self.0 ^ x as u64).wrapping_mul(0x100_0000_01b3);
        }
    }
    fn finish(&self) -> u64 {
        let mut h = self.0;
        h ^= h >> 32;
        h = h.wrapping_mul(0xd6e8_feb8_6659_fd93);
        h ^ (h >> 29)
    }
}
