//! Control over the outcome of random draws, for model checking. Without a controller installed on
//! the current thread everything is as in the original crate.
#![allow(missing_docs, missing_debug_implementations)]
use std::boxed::Box;
use std::cell::{Cell, RefCell};

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Draw {
    /// An offset below the given number; answered with a whole number.
    Int(u64),
    /// A place within a range of floats; answered with the bits of an f64 in [0, 1).
    Range,
    /// A float in [0, 1); answered with the bits of an f64.
    Unit,
    /// True with the given probability; answered with 0 or 1.
    Bool(f64),
}

std::thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static CTRL: RefCell<Option<Box<dyn FnMut(Draw) -> u64>>> = const { RefCell::new(None) };
}

/// Installs a controller for the current thread.
pub fn install(f: Box<dyn FnMut(Draw) -> u64>) {
    CTRL.with(|c| *c.borrow_mut() = Some(f));
    ACTIVE.with(|a| a.set(true));
}

pub fn uninstall() {
    ACTIVE.with(|a| a.set(false));
    CTRL.with(|c| *c.borrow_mut() = None);
}

#[inline]
pub fn active() -> bool {
    ACTIVE.with(|a| a.get())
}

pub fn draw(d: Draw) -> u64 {
    CTRL.with(|c| (c.borrow_mut().as_mut().expect("a controller"))(d))
}

/// Lets draws pass until the next controller; may be called by the controller itself.
pub fn pause() {
    ACTIVE.with(|a| a.set(false));
}
