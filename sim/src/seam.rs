//! The scheduling seam: every call the library makes into its environment (stream, sink, container, user code)
//! passes through `point`, where the simulator may let something else run first.
use std::cell::RefCell;
use std::rc::Rc;

thread_local! {
    static HOOK: RefCell<Option<Rc<dyn Fn()>>> = const { RefCell::new(None) };
}

#[inline]
pub fn point() {
    let h = HOOK.with(|h| h.borrow().clone());
    if let Some(h) = h {
        h()
    }
}
/// Installs what is to happen at every point of this thread
pub fn install(h: Option<Rc<dyn Fn()>>) {
    HOOK.with(|x| *x.borrow_mut() = h);
}
