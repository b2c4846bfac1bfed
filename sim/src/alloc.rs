//! The simulated heap: freed memory is poisoned and quarantined, so
//! that any use after free shows up as changed data, deterministically.

use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::*};

pub struct Poison;

const SLOTS: usize = 1 << 15;
const BYTES: usize = 48 << 20;

static LOCK: AtomicBool = AtomicBool::new(false);
static ON: AtomicBool = AtomicBool::new(false);
pub static LIVE: AtomicUsize = AtomicUsize::new(0);
pub static FREED: AtomicU64 = AtomicU64::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
static TAKEN: AtomicU64 = AtomicU64::new(0);
static COUNT: AtomicU64 = AtomicU64::new(0);

fn took(n: usize) {
    let live = LIVE.fetch_add(n, Relaxed).wrapping_add(n);
    // one thread runs at a time
    if live > PEAK.load(Relaxed) {
        PEAK.store(live, Relaxed);
    }
    TAKEN.store(TAKEN.load(Relaxed) + n as u64, Relaxed);
    COUNT.store(COUNT.load(Relaxed) + 1, Relaxed);
}

/// Start measuring the heap's use
pub fn mark() -> (u64, u64, u64) {
    let live = LIVE.load(Relaxed);
    PEAK.store(live, Relaxed);
    (TAKEN.load(Relaxed), COUNT.load(Relaxed), live as u64)
}

/// Bytes taken, how often, and the most held at once since then
pub fn since(m: (u64, u64, u64)) -> (u64, u64, u64) {
    (TAKEN.load(Relaxed) - m.0, COUNT.load(Relaxed) - m.1, (PEAK.load(Relaxed) as u64).saturating_sub(m.2))
}

struct Q {
    buf: [(usize, usize, usize); SLOTS],
    head: usize,
    len: usize,
    bytes: usize,
}
static mut Q: Q = Q { buf: [(0, 0, 0); SLOTS], head: 0, len: 0, bytes: 0 };

/// Turn poisoning + quarantine on or off
pub fn enable(on: bool) {
    ON.store(on, SeqCst);
}

unsafe fn quarantine(p: *mut u8, l: Layout) {
    std::ptr::write_bytes(p, 0xDD, l.size());
    FREED.fetch_add(1, Relaxed);
    while LOCK.swap(true, Acquire) {
        std::hint::spin_loop();
    }
    let q = &mut *std::ptr::addr_of_mut!(Q);
    while q.len > 0 && (q.len == SLOTS || q.bytes + l.size() > BYTES) {
        let (a, s, al) = q.buf[q.head];
        q.head = (q.head + 1) % SLOTS;
        q.len -= 1;
        q.bytes -= s;
        System.dealloc(a as *mut u8, Layout::from_size_align_unchecked(s, al));
    }
    let i = (q.head + q.len) % SLOTS;
    q.buf[i] = (p as usize, l.size(), l.align());
    q.len += 1;
    q.bytes += l.size();
    LOCK.store(false, Release);
}

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        took(l.size());
        let p = System.alloc(l);
        if !p.is_null() && ON.load(Relaxed) {
            std::ptr::write_bytes(p, 0xAA, l.size());
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(l.size(), Relaxed);
        if ON.load(Relaxed) && l.size() <= BYTES / 4 {
            quarantine(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if ON.load(Relaxed) {
            let nl = Layout::from_size_align_unchecked(new, l.align());
            let n = self.alloc(nl);
            if !n.is_null() {
                std::ptr::copy_nonoverlapping(p, n, l.size().min(new));
                self.dealloc(p, l);
            }
            n
        } else {
            took(new);
            LIVE.fetch_sub(l.size(), Relaxed);
            System.realloc(p, l, new)
        }
    }
}
