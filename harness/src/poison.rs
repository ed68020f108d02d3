//! Fills fresh heap memory, freed memory and the unused stack with a chosen byte, so that a
//! result which depends on leftover memory contents changes with that byte.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Poison;

thread_local! {
    /// -1: off.
    static BYTE: Cell<i16> = const { Cell::new(-1) };
}

fn byte() -> Option<u8> {
    match BYTE.try_with(|b| b.get()) {
        Ok(b) if b >= 0 => Some(b as u8),
        _ => None,
    }
}

unsafe impl GlobalAlloc for Poison {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            if let Some(b) = byte() {
                std::ptr::write_bytes(p, b, l.size());
            }
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if let Some(b) = byte() {
            std::ptr::write_bytes(p, b, l.size());
        }
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() && n > l.size() {
            if let Some(b) = byte() {
                std::ptr::write_bytes(q.add(l.size()), b, n - l.size());
            }
        }
        q
    }
}

#[inline(never)]
fn fill_stack(b: u8) {
    let mut a = std::mem::MaybeUninit::<[u8; 12 * 1024]>::uninit();
    unsafe {
        std::ptr::write_bytes(a.as_mut_ptr() as *mut u8, b, 12 * 1024);
    }
    std::hint::black_box(&a);
}

/// Runs `f` with heap and stack poisoned by `b`.
pub fn with<T>(b: u8, f: impl FnOnce() -> T) -> T {
    struct Reset(i16);
    impl Drop for Reset {
        fn drop(&mut self) {
            BYTE.with(|x| x.set(self.0));
        }
    }
    let _r = Reset(BYTE.with(|x| x.replace(b as i16)));
    fill_stack(b);
    f()
}
