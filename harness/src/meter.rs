//! Counting allocator and panic capture.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

pub struct Counting;
thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
    static INSIDE: Cell<u64> = const { Cell::new(0) };
    static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
}
#[inline]
fn bump() {
    let _ = N.try_with(|n| n.set(n.get() + 1));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        bump();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        bump();
        System.dealloc(p, l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        bump();
        System.alloc_zeroed(l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        bump();
        System.realloc(p, l, n)
    }
}

/// Runs one API call, attributing every heap call made meanwhile to it.
#[inline(always)]
pub fn m<R>(f: impl FnOnce() -> R) -> R {
    let a = N.with(|n| n.get());
    let r = f();
    let b = N.with(|n| n.get());
    if a != b {
        INSIDE.with(|i| i.set(i.get() + (b - a)));
    }
    r
}
pub fn take_inside() -> u64 {
    INSIDE.with(|i| i.replace(0))
}
/// Heap calls on this thread so far (for the meter's own self-test).
pub fn total() -> u64 {
    N.with(|n| n.get())
}

/// Marker payload of panics raised by generated caller code.
pub struct Injected;
/// Marker payload of the guard on endless sources.
pub struct RunawayMark;

static LOUD: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn quiet_panics() {
    LOUD.store(std::env::var_os("HARNESS_LOUD").is_some(), std::sync::atomic::Ordering::Relaxed);
    std::panic::set_hook(Box::new(|i| {
        let msg = i
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| i.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "injected".into());
        let at = i.location().map(|l| format!(" at {}:{}", l.file(), l.line())).unwrap_or_default();
        if LOUD.load(std::sync::atomic::Ordering::Relaxed) {
            eprintln!("panic: {msg}{at}\n{}", std::backtrace::Backtrace::force_capture());
        }
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg}{at}"));
    }));
}
pub fn last_panic() -> String {
    LAST_PANIC.with(|p| p.borrow().clone())
}
