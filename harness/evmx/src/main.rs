use std::alloc::{GlobalAlloc, Layout, System};

/// Reallocation always moves and freed memory is poisoned, so that stale pointers show.
struct Moving;
unsafe impl GlobalAlloc for Moving {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        unsafe {
            if l.size() <= 1 << 16 {
                std::ptr::write_bytes(p, 0xA5, l.size());
            }
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        unsafe {
            let q = System.alloc(Layout::from_size_align_unchecked(n, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
                self.dealloc(p, l);
            }
            q
        }
    }
}
#[global_allocator]
static A: Moving = Moving;

fn main() {
    std::process::exit(evmx::runner::main());
}
