//! Counts the bytes each worker thread has allocated and not freed.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! { static LIVE: Cell<isize> = const { Cell::new(0) }; }
pub struct Count;
fn bump(x: isize) { let _ = LIVE.try_with(|l| l.set(l.get() + x)); }
unsafe impl GlobalAlloc for Count {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { bump(l.size() as isize); unsafe { System.alloc(l) } }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { bump(l.size() as isize); unsafe { System.alloc_zeroed(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { bump(-(l.size() as isize)); unsafe { System.dealloc(p, l) } }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { bump(n as isize - l.size() as isize); unsafe { System.realloc(p, l, n) } }
}
#[global_allocator]
static ALLOC: Count = Count;
/// Bytes allocated and not yet freed by the current thread.
pub fn live() -> isize { LIVE.with(|l| l.get()) }
