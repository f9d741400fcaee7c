//! A counting allocator: makes "this call never stops growing its output" a
//! deterministic, replayable observation instead of an out-of-memory kill.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

pub struct Guard;

/// Net bytes one case may hold while the code under test runs.
pub const CASE_BUDGET: i64 = 512 << 20;
/// Net bytes the whole process may hold (error exit, not a violation).
pub const PROCESS_BUDGET: i64 = 20 << 30;

static LIVE: AtomicI64 = AtomicI64::new(0);
/// In serial mode every thread is charged to the one running case; the value
/// is the case's number (0 = none running).
static SERIAL_CASE: AtomicU64 = AtomicU64::new(0);
static SERIAL_NEXT: AtomicU64 = AtomicU64::new(1);

pub fn serial_begin() {
    SERIAL_CASE.store(SERIAL_NEXT.fetch_add(1, Ordering::Relaxed), Ordering::Relaxed);
}
pub fn serial_end() {
    SERIAL_CASE.store(0, Ordering::Relaxed);
}

thread_local! {
    static ARMED: Cell<bool> = const { Cell::new(false) };
    static NET: Cell<i64> = const { Cell::new(0) };
    static MY_CASE: Cell<u64> = const { Cell::new(0) };
    static PENDING: Cell<i64> = const { Cell::new(0) };
}

pub fn arm() {
    NET.with(|n| n.set(0));
    ARMED.with(|a| a.set(true));
}
pub fn disarm() {
    ARMED.with(|a| a.set(false));
}

fn account(delta: i64) {
    let _ = PENDING.try_with(|p| {
        let v = p.get() + delta;
        if v.abs() > (1 << 20) {
            p.set(0);
            let live = LIVE.fetch_add(v, Ordering::Relaxed) + v;
            if live > PROCESS_BUDGET {
                let _ = ARMED.try_with(|a| a.set(false));
                crate::driver::die_process_memory();
            }
        } else {
            p.set(v);
        }
    });
    let _ = ARMED.try_with(|a| {
        let serial = SERIAL_CASE.load(Ordering::Relaxed);
        if serial != 0 && !a.get() {
            let _ = MY_CASE.try_with(|m| {
                if m.get() != serial {
                    m.set(serial);
                    let _ = NET.try_with(|n| n.set(0));
                }
            });
        }
        if a.get() || serial != 0 {
            let _ = NET.try_with(|n| {
                let v = n.get() + delta;
                n.set(v);
                if v > CASE_BUDGET {
                    a.set(false);
                    serial_end();
                    crate::driver::die_case_memory(CASE_BUDGET);
                }
            });
        }
    });
}

unsafe impl GlobalAlloc for Guard {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        account(-(l.size() as i64));
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        account(l.size() as i64);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        account(n as i64 - l.size() as i64);
        unsafe { System.realloc(p, l, n) }
    }
}

#[global_allocator]
static GUARD: Guard = Guard;
