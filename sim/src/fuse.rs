//! User code on a fuse: everything the library calls back into (predicates, clones, accessors, callbacks) ticks;
//! the simulator decides at which call it is interrupted by a panic.
use crate::world::{Ctx, Viol};
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! {
    static CALLS: Cell<u64> = Cell::new(0);
    static ARMED: Cell<u64> = Cell::new(0);
    static FIRED: Cell<bool> = Cell::new(false);
}

/// One invocation of user code
pub fn tick() {
    crate::seam::point();
    let n = CALLS.with(|c| {
        c.set(c.get() + 1);
        c.get()
    });
    if ARMED.with(|a| a.get()) == n {
        ARMED.with(|a| a.set(0));
        FIRED.with(|f| f.set(true));
        panic!("{}", crate::INJECTED);
    }
}
/// How often f invokes user code
pub fn count<T>(f: impl FnOnce() -> T) -> (T, u64) {
    ARMED.with(|a| a.set(0));
    CALLS.with(|c| c.set(0));
    let r = f();
    (r, CALLS.with(|c| c.get()))
}
/// Interrupts f in the given invocation of user code. None: interrupted; Some: it came to its end before
pub fn blow<T>(c: &Ctx, at: u64, what: &str, f: impl FnOnce() -> T) -> Result<Option<T>, Viol> {
    CALLS.with(|x| x.set(0));
    FIRED.with(|x| x.set(false));
    ARMED.with(|a| a.set(at));
    let r = catch_unwind(AssertUnwindSafe(f));
    ARMED.with(|a| a.set(0));
    let fired = FIRED.with(|x| x.get());
    c.step();
    c.event(at);
    match r {
        Ok(v) => {
            if fired {
                bail!("swallowed", "{}: user code was interrupted by a panic, yet the operation returned", what);
            }
            Ok(Some(v))
        }
        Err(p) => {
            if !fired || !crate::runner::payload_text(&*p).contains(crate::INJECTED) {
                bail!("foreign-panic", "{}: panic: {}", what, crate::runner::last_panic());
            }
            c.fault("panic in user code", 1);
            Ok(None)
        }
    }
}
