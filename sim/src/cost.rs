//! The cost of an execution, counted exactly: basic block edges executed
//! (by the compiler's coverage instrumentation, which tools/sancov.sh turns
//! on for yary and the simulator), bytes moved by memcpy and memmove, and
//! what was taken from the heap. No clock is involved.

use crate::alloc;
use std::sync::atomic::{AtomicU64, Ordering::*};

static EDGES: AtomicU64 = AtomicU64::new(0);
static MOVED: AtomicU64 = AtomicU64::new(0);
static GUARDS: AtomicU64 = AtomicU64::new(0);

fn bump(c: &AtomicU64, n: u64) {
    // one thread runs at a time
    c.store(c.load(Relaxed).wrapping_add(n), Relaxed);
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard(_: *mut u32) {
    bump(&EDGES, 1);
}

#[no_mangle]
extern "C" fn __sanitizer_cov_trace_pc_guard_init(a: *mut u32, b: *mut u32) {
    bump(&GUARDS, (b as usize - a as usize) as u64 / 4);
}

#[cfg(yary_cost)]
mod moves {
    use std::arch::asm;

    #[no_mangle]
    unsafe extern "C" fn memcpy(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
        super::bump(&super::MOVED, n as u64);
        asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
        to
    }

    #[no_mangle]
    unsafe extern "C" fn memmove(to: *mut u8, from: *const u8, n: usize) -> *mut u8 {
        super::bump(&super::MOVED, n as u64);
        if (to as usize).wrapping_sub(from as usize) >= n {
            asm!("rep movsb", inout("rcx") n => _, inout("rdi") to => _, inout("rsi") from => _, options(nostack, preserves_flags));
        } else {
            // backwards
            asm!("std", "rep movsb", "cld", inout("rcx") n => _, inout("rdi") to.add(n).sub(1) => _, inout("rsi") from.add(n).sub(1) => _, options(nostack));
        }
        to
    }
}

#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    /// Edges executed
    pub edges: u64,
    /// Bytes moved
    pub moved: u64,
    /// Bytes taken from the heap, and how often
    pub taken: u64,
    pub allocs: u64,
    /// Most bytes held at once
    pub peak: u64,
}

/// Are edges counted in this build?
pub fn counting() -> bool {
    GUARDS.load(Relaxed) > 0
}

pub fn measure<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let (e, m) = (EDGES.load(Relaxed), MOVED.load(Relaxed));
    let h = alloc::mark();
    let r = f();
    let h = alloc::since(h);
    (r, Cost { edges: EDGES.load(Relaxed).wrapping_sub(e), moved: MOVED.load(Relaxed).wrapping_sub(m), taken: h.0, allocs: h.1, peak: h.2 })
}
