//! A counting allocator, and a sink that needs no memory.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::fmt;

thread_local! {
    static ALLOCS: Cell<u64> = const { Cell::new(0) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
}
/// Bytes this thread has taken and not returned (others may return them).
pub fn live() -> i64 {
    LIVE.with(|a| a.get())
}
/// Bytes this thread has ever taken.
pub fn bytes() -> u64 {
    BYTES.with(|a| a.get())
}
/// Allocations of this thread so far (0 unless `Counting` is installed).
pub fn allocs() -> u64 {
    ALLOCS.with(|a| a.get())
}
/// What the corpora's own types allocate while they are formatted does not count.
pub fn uncounted<T>(f: impl FnOnce() -> T) -> T {
    let a = allocs();
    let r = f();
    ALLOCS.with(|x| x.set(a));
    r
}
pub struct Counting;
fn one(n: usize) {
    let _ = ALLOCS.try_with(|a| a.set(a.get() + 1));
    let _ = LIVE.try_with(|a| a.set(a.get() + n as i64));
    let _ = BYTES.try_with(|a| a.set(a.get() + n as u64));
}
fn back(n: usize) {
    let _ = LIVE.try_with(|a| a.set(a.get() - n as i64));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        one(l.size());
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        one(l.size());
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        one(n);
        back(l.size());
        unsafe { System.realloc(p, l, n) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        back(l.size());
        unsafe { System.dealloc(p, l) }
    }
}

/// Holds a text of limited length without allocating; knows how long a longer one was.
pub struct Fixed {
    buf: [u8; 1 << 14],
    len: usize,
    pub total: usize,
}
impl Default for Fixed {
    fn default() -> Self {
        Fixed { buf: [0; 1 << 14], len: 0, total: 0 }
    }
}
impl fmt::Write for Fixed {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.total += s.len();
        let n = s.len().min(self.buf.len() - self.len);
        self.buf[self.len..self.len + n].copy_from_slice(&s.as_bytes()[..n]);
        self.len += n;
        Ok(())
    }
}
impl Fixed {
    pub fn same(&self, s: &str) -> bool {
        self.total == s.len() && s.as_bytes().starts_with(&self.buf[..self.len])
    }
}
