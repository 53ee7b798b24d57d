//! Remembers the biggest allocation a thread made.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

thread_local! {
    static BIGGEST: Cell<usize> = const { Cell::new(0) };
}

struct Counting;

#[global_allocator]
static ALLOC: Counting = Counting;

fn note(n: usize) {
    let _ = BIGGEST.try_with(|b| {
        if n > b.get() {
            b.set(n)
        }
    });
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size());
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        note(n);
        System.realloc(p, l, n)
    }
}

pub fn reset() {
    BIGGEST.with(|b| b.set(0))
}

pub fn biggest() -> usize {
    BIGGEST.with(|b| b.get())
}
