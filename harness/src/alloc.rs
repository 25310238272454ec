//! Global allocator which counts the heap of each thread and fills fresh memory with a chosen pattern.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicU8, Ordering};
pub struct Counting;
thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
    static FILL: Cell<u8> = const { Cell::new(0) };
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}
/// Pattern of fresh memory when the thread did not choose any (0: leave as is).
pub static DEFAULT_FILL: AtomicU8 = AtomicU8::new(0);
fn add(n: isize) {
    let _ = CUR.try_with(|c| {
        let v = c.get() + n;
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
    });
}
fn fill(p: *mut u8, from: usize, to: usize) {
    // Tools which watch for uninitialised memory must see it as such.
    if p.is_null() || cfg!(miri) || cfg!(tmf_nofill) {
        return;
    }
    let mut pat = FILL.try_with(|f| f.get()).unwrap_or(0);
    if pat == 0 {
        pat = DEFAULT_FILL.load(Ordering::Relaxed);
    }
    // Filling commits the memory, so what is big is left to the OS.
    if pat != 0 && to - from <= (8 << 20) {
        unsafe { std::ptr::write_bytes(p.add(from), pat, to - from) }
    }
}
fn note(n: usize) {
    let _ = BIGGEST.try_with(|b| {
        if n > b.get() {
            b.set(n)
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        add(l.size() as isize);
        note(l.size());
        fill(p, 0, l.size());
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as isize);
        note(l.size());
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as isize));
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let r = System.realloc(p, l, n);
        add(n as isize - l.size() as isize);
        note(n);
        if n > l.size() {
            fill(r, l.size(), n);
        }
        r
    }
}
/// Runs `f`, returns its result, how much the heap of this thread grew at most, and the biggest single request.
pub fn measured<T>(f: impl FnOnce() -> T) -> (T, usize, usize) {
    let start = CUR.with(|c| c.get());
    PEAK.with(|p| p.set(start));
    BIGGEST.with(|b| b.set(0));
    let r = f();
    let peak = PEAK.with(|p| p.get());
    (r, (peak - start).max(0) as usize, BIGGEST.with(|b| b.get()))
}
/// Runs `f` with fresh memory of this thread filled with `pat`.
pub fn filled<T>(pat: u8, f: impl FnOnce() -> T) -> T {
    let old = FILL.with(|c| c.replace(pat));
    let r = f();
    FILL.with(|c| c.set(old));
    r
}
