//! Allocation monitor: bytes in use per thread, and their peak.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static PEAK: Cell<i64> = const { Cell::new(0) };
}
#[inline]
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if n > 0 {
            let _ = PEAK.try_with(|p| {
                if v > p.get() {
                    p.set(v)
                }
            });
        }
    });
}

/// Under AddressSanitizer the usable size is the requested one: memory must be given back
/// with the size it was asked for with.
#[cfg(asan)]
unsafe fn layout(p: *mut u8, l: Layout) {
    extern "C" {
        fn malloc_usable_size(p: *mut u8) -> usize;
        fn abort() -> !;
        fn write(fd: i32, p: *const u8, n: usize) -> isize;
    }
    if malloc_usable_size(p) != l.size() {
        let m = b"\nERROR: AddressSanitizer: memory given back with another size than it was asked for with\n";
        write(2, m.as_ptr(), m.len());
        abort();
    }
}
#[cfg(not(asan))]
unsafe fn layout(_: *mut u8, _: Layout) {}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        layout(p, l);
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        layout(p, l);
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            // old and new may coexist for a moment
            add(n as i64);
            add(-(l.size() as i64));
        }
        q
    }
}

/// Bytes allocated and not freed by this thread.
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// Run f: its result, the bytes still in use because of it, and the most it used meanwhile.
pub fn measure<X>(f: impl FnOnce() -> X) -> (X, i64, i64) {
    let a = live();
    PEAK.with(|p| p.set(a));
    let x = f();
    (x, live() - a, PEAK.with(|p| p.get()) - a)
}
