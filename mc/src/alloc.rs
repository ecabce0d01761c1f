//! Counting allocator: an execution of the code under test that allocates without bound is
//! a verdict ("does not terminate"), not a crash of the engine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
thread_local! { static LIVE: Cell<i64> = const { Cell::new(0) }; }
pub struct Counting;
pub const LIMIT: i64 = 1 << 30;
fn add(n: i64) {
    let _ = LIVE.try_with(|l| {
        let v = l.get() + n;
        l.set(v);
        if v > LIMIT {
            // park: the watchdog reports this execution and ends the process
            if let Some(s) = crate::core::slots() {
                let me = unsafe { libc::pthread_self() } as u64;
                for s in s {
                    if s.tid.load(std::sync::atomic::Ordering::SeqCst) == me {
                        s.stuck.store(2, std::sync::atomic::Ordering::SeqCst);
                        loop {
                            unsafe { libc::sleep(1) };
                        }
                    }
                }
            }
        }
    });
}
pub fn reset() {
    let _ = LIVE.try_with(|l| l.set(0));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64));
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64);
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64);
        System.realloc(p, l, n)
    }
}
