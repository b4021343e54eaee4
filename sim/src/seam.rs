//! The seam between the library and code supplied by its callers (filters,
//! node iterators, custom graphs): every call through it is a point where the
//! simulator can inject a panic or switch threads.

use crate::engine::InjectedPanic;
use std::cell::{Cell, RefCell};
use std::rc::Rc;

thread_local! {
    /// Calls left before a panic is injected; negative when off.
    static FUSE: Cell<i64> = const { Cell::new(-1) };
    static CALLS: Cell<u64> = const { Cell::new(0) };
    /// Called at every seam of this thread when it is scheduled.
    static YIELD: RefCell<Option<Rc<dyn Fn(&'static str)>>> = const { RefCell::new(None) };
}

/// A call into simulated caller code.
pub fn tick(site: &'static str) {
    CALLS.with(|c| c.set(c.get() + 1));
    if std::thread::panicking() {
        return;
    }
    let y = YIELD.with(|y| y.borrow().clone());
    if let Some(y) = y {
        y(site);
    }
    let left = FUSE.with(|f| f.get());
    if left >= 0 {
        FUSE.with(|f| f.set(left - 1));
        if left == 0 {
            std::panic::panic_any(InjectedPanic);
        }
    }
}
/// Makes the call number `k` from now (0 is the next one) panic.
pub fn arm(k: u64) {
    FUSE.with(|f| f.set(k as i64));
}
/// Returns whether the panic is still pending.
pub fn disarm() -> bool {
    FUSE.with(|f| f.replace(-1)) >= 0
}
pub fn calls() -> u64 {
    CALLS.with(|c| c.get())
}
pub fn set_yield(f: Option<Rc<dyn Fn(&'static str)>>) {
    YIELD.with(|y| *y.borrow_mut() = f);
}
