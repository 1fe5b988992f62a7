//! The program that runs on the simulated processors: no operating system, no standard library.
#![no_std]
#![no_main]
extern crate alloc;
use core::alloc::{GlobalAlloc, Layout};
use core::ptr::{read_volatile, write_volatile};

/// What the machine leaves at the address it starts this program with.
#[repr(C)]
pub struct Start {
    cases: usize,
    len: usize,
    first: usize,
    verbose: usize,
    heap: usize,
    end: usize,
}

/// Storing an address and then a length here says those bytes.
const SAY: usize = 0x7000_0000;

fn say(s: &str) {
    unsafe {
        write_volatile(SAY as *mut usize, s.as_ptr() as usize);
        write_volatile((SAY + 8) as *mut usize, s.len());
    }
}

/// Memory is taken and, all at once between cases, given back.
struct Bump;
static mut TOP: usize = 0;
static mut END: usize = 0;
unsafe impl GlobalAlloc for Bump {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let at = (TOP + l.align() - 1) & !(l.align() - 1);
        match at.checked_add(l.size()) {
            Some(end) if end <= END => {
                TOP = end;
                at as *mut u8
            }
            _ => core::ptr::null_mut(),
        }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if p as usize + l.size() == TOP {
            TOP = p as usize;
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if p as usize + l.size() == TOP {
            TOP = p as usize;
            let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
            if q.is_null() {
                TOP = p as usize + l.size();
            }
            return q;
        }
        let q = self.alloc(Layout::from_size_align_unchecked(new, l.align()));
        if !q.is_null() {
            core::ptr::copy_nonoverlapping(p, q, l.size().min(new));
        }
        q
    }
}
#[global_allocator]
static GLOBAL: Bump = Bump;

#[panic_handler]
fn panic(i: &core::panic::PanicInfo) -> ! {
    let m = alloc::format!("!{i}");
    say(&m);
    say("*");
    loop {}
}

/// # Safety
/// Called by the machine with the address of a `Start`.
#[no_mangle]
pub unsafe extern "C" fn __start(s: *const Start) {
    let s = read_volatile(s as *const [usize; 6]);
    TOP = s[4];
    END = s[5];
    let b = core::slice::from_raw_parts(s[0] as *const u8, s[1]);
    platlib::cases(b, s[2], s[3] != 0, &mut |l| {
        say(l);
        if l.starts_with('B') {
            // Nothing of this case is used any more.
            TOP = s[4];
        }
    });
    say("*");
}
