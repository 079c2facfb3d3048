//! Counts live heap bytes and blocks per thread, without those of the simulator:
//! a run is single threaded, so the counts are exact and repeatable. Every block
//! carries a header that says whom it belongs to.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
fn wide(l: Layout, n: usize) -> (Layout, usize) {
    let a = l.align().max(16);
    (unsafe { Layout::from_size_align_unchecked(n + a, a) }, a)
}
fn count(bytes: i64, blocks: i64) {
    let _ = LIVE.try_with(|c| c.set(c.get() + bytes));
    let _ = BLOCKS.try_with(|c| c.set(c.get() + blocks));
}
unsafe fn mark(p: *mut u8, off: usize) -> *mut u8 {
    if p.is_null() {
        return p;
    }
    p.add(off)
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let (w, off) = wide(l, l.size());
        let p = mark(System.alloc(w), off);
        if !p.is_null() {
            let own = simcore::owning();
            *p.sub(1) = own as u8;
            if !own {
                count(l.size() as i64, 1);
            }
        }
        simcore::coop::point();
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if *p.sub(1) == 0 {
            count(-(l.size() as i64), -1);
        }
        let (w, off) = wide(l, l.size());
        System.dealloc(p.sub(off), w);
        simcore::coop::point();
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let own = *p.sub(1);
        let (w, off) = wide(l, l.size());
        let q = mark(System.realloc(p.sub(off), w, n + off), off);
        if !q.is_null() && own == 0 {
            count(n as i64 - l.size() as i64, 0);
        }
        q
    }
}
pub fn live() -> i64 {
    LIVE.with(|c| c.get())
}
pub fn blocks() -> i64 {
    BLOCKS.with(|c| c.get())
}
