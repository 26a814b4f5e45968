//! Counting allocator: live bytes and a resettable high-water mark.
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering::Relaxed};

pub struct Counting;

static LIVE: AtomicI64 = AtomicI64::new(0);
static PEAK: AtomicI64 = AtomicI64::new(0);
static BIGGEST: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

/// Live heap no workload comes near; beyond it the process would only be
/// killed for memory, so stop here with a distinguishable status.
const RUNAWAY: i64 = 4 << 30;

fn runaway() -> ! {
    let m = b"RUNAWAY: heap beyond 4 GiB\n";
    unsafe {
        libc::write(2, m.as_ptr() as *const libc::c_void, m.len());
        libc::_exit(86)
    }
}

#[inline]
fn add(n: usize) {
    let l = LIVE.fetch_add(n as i64, Relaxed) + n as i64;
    if l > RUNAWAY { runaway(); }
    PEAK.fetch_max(l, Relaxed);
    BIGGEST.fetch_max(n as u64, Relaxed);
    COUNT.fetch_add(1, Relaxed);
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if l.size() as i64 > RUNAWAY { runaway(); }
        let p = System.alloc(l);
        if !p.is_null() { add(l.size()); }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if l.size() as i64 > RUNAWAY { runaway(); }
        let p = System.alloc_zeroed(l);
        if !p.is_null() { add(l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size() as i64, Relaxed);
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new as i64 > RUNAWAY { runaway(); }
        let q = System.realloc(p, l, new);
        if !q.is_null() {
            // A moving reallocation holds both blocks for a moment, which the
            // monitored bound must not depend on; only the result is counted.
            LIVE.fetch_sub(l.size() as i64, Relaxed);
            add(new);
        }
        q
    }
}

pub fn live() -> i64 { LIVE.load(Relaxed) }

/// Start of a measured region.
pub struct Mark { base: i64 }

pub fn mark() -> Mark {
    let base = LIVE.load(Relaxed);
    PEAK.store(base, Relaxed);
    BIGGEST.store(0, Relaxed);
    Mark { base }
}

impl Mark {
    /// Highest live heap over the start of the region.
    pub fn peak(&self) -> i64 { PEAK.load(Relaxed) - self.base }
    /// Live heap now over the start of the region.
    pub fn held(&self) -> i64 { LIVE.load(Relaxed) - self.base }
    /// Largest single allocation request in the region.
    pub fn biggest(&self) -> u64 { BIGGEST.load(Relaxed) }
}
