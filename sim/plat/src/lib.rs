//! Runs cases on this machine, in this build, and says what was seen.
#![cfg_attr(not(feature = "host"), no_std)]
extern crate alloc;
use alloc::format;
use simcore::ops::Input;
use simcore::rng::mix;
use simdrv::batch::{run, Case};

/// Cases from number `start` on; `say` gets the lines.
pub fn cases(b: &[u8], start: usize, verbose: bool, say: &mut dyn FnMut(&str)) {
    let mut i = Input(b);
    let n = i.num().expect("number of cases");
    for k in 0..n {
        let c = Case::decode(&mut i).expect("case");
        if k < start {
            continue;
        }
        let mut acc = 1u64;
        let mut crash = false;
        run(&c, verbose, &mut |s| {
            acc = mix(acc ^ s.hash);
            crash |= s.crash;
            if verbose {
                say(&format!("{:x}\t{}\t{}", s.hash, s.what.replace(['\n', '\t'], " "), s.text.replace(['\n', '\t'], " ")));
            }
        });
        say(&format!("B {acc:x}{}", if crash { " !" } else { "" }));
    }
    say("E");
}

#[cfg(all(target_arch = "wasm32", not(feature = "host")))]
mod wasm {
    use alloc::vec;
    use core::alloc::{GlobalAlloc, Layout};

    #[link(wasm_import_module = "env")]
    extern "C" {
        fn say(p: *const u8, n: usize);
    }

    /// Memory is taken and, all at once between cases, given back.
    struct Bump;
    static mut TOP: usize = 0;
    static mut KEEP: usize = 0;
    unsafe impl GlobalAlloc for Bump {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            if TOP == 0 {
                TOP = core::arch::wasm32::memory_size(0) * 65536;
            }
            let at = (TOP + l.align() - 1) & !(l.align() - 1);
            let Some(end) = at.checked_add(l.size()) else { return core::ptr::null_mut() };
            let have = core::arch::wasm32::memory_size(0) * 65536;
            if end > have && core::arch::wasm32::memory_grow(0, (end - have).div_ceil(65536)) == usize::MAX {
                return core::ptr::null_mut();
            }
            TOP = end;
            at as *mut u8
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            if p as usize + l.size() == TOP {
                TOP = p as usize;
            }
        }
        unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
            if p as usize + l.size() == TOP {
                TOP = p as usize;
                let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
                if q != p && !q.is_null() {
                    core::ptr::copy(p, q, l.size().min(new));
                }
                return q;
            }
            let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            }
            q
        }
    }
    #[global_allocator]
    static GLOBAL: Bump = Bump;

    #[panic_handler]
    fn panic(i: &core::panic::PanicInfo) -> ! {
        let m = format!("!{i}");
        unsafe { say(m.as_ptr(), m.len()) };
        core::arch::wasm32::unreachable()
    }

    use alloc::format;
    use alloc::vec::Vec;

    #[no_mangle]
    pub extern "C" fn space(n: usize) -> *mut u8 {
        let mut v: Vec<u8> = vec![0u8; n];
        let p = v.as_mut_ptr();
        core::mem::forget(v);
        unsafe { KEEP = TOP };
        p
    }
    /// # Safety
    /// The cases are in memory got from `space`.
    #[no_mangle]
    pub unsafe extern "C" fn go(p: *const u8, n: usize, start: usize, verbose: usize) {
        let b = core::slice::from_raw_parts(p, n);
        super::cases(b, start, verbose != 0, &mut |l| {
            say(l.as_ptr(), l.len());
            if l.starts_with('B') {
                // Nothing of this case is used any more.
                TOP = KEEP;
            }
        });
    }
}
