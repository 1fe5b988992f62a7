//! Allocator seam: counts (per thread) what is allocated while a public nt-hive call is in progress.
use crate::seam::ctx;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct CountingAlloc;

unsafe impl GlobalAlloc for CountingAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note_alloc(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        note_alloc(new);
        note_free(l.size());
        System.realloc(p, l, new)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note_free(l.size());
        System.dealloc(p, l)
    }
}

#[inline]
fn note_alloc(size: usize) {
    ctx(|c| {
        if c.armed.get() {
            c.allocs.set(c.allocs.get() + 1);
            c.churn.set(c.churn.get().saturating_add(size as u64));
            let live = c.live.get() + size as i64;
            c.live.set(live);
            if live > c.peak.get() {
                c.peak.set(live);
            }
            if size as u64 > c.max_single.get() {
                c.max_single.set(size as u64);
            }
            // A request the simulated machine cannot satisfy: end the process the way an
            // allocation failure would, with a recognisable status, instead of really
            // exhausting the sandbox.
            if size > 1 << 30 {
                crate::seam::fatal(crate::seam::EXIT_ALLOC);
            }
        }
    });
}

#[inline]
fn note_free(size: usize) {
    ctx(|c| {
        if c.armed.get() {
            c.live.set(c.live.get() - size as i64);
        }
    });
}

#[global_allocator]
static GLOBAL: CountingAlloc = CountingAlloc;
