//! Puts the outcome of random draws of the code under test into the hands of the explorer. Works
//! through the modified copy of the rand crate in shims/.
use crate::Ch;
use rand::shim::{self, Draw};
use std::cell::Cell;

#[derive(Clone, Copy)]
pub struct Menu {
    /// Draws of whole numbers get every outcome if there are at most this many, otherwise the
    /// first two, the middle one and the last one.
    pub ints: u64,
    /// Places within a range of floats.
    pub ranges: &'static [f64],
    /// Floats in [0, 1).
    pub units: &'static [f64],
    /// So many draws get every answer before deviations from the first answer are counted.
    pub free: usize,
    /// More draws than this are taken for an endless loop.
    pub cap: usize,
}

pub const LAST: f64 = 0.999_999_94;

impl Menu {
    pub const SMALL: Menu = Menu { ints: 40, ranges: &[0.0, 0.5, LAST], units: &[0.0, 0.5], free: 0, cap: 20_000 };
    /// Units and ranges by a grid of equally likely places.
    pub const GRID: Menu = Menu { ints: 40, ranges: &TENTHS, units: &TENTHS, free: 0, cap: 20_000 };
}

pub const TENTHS: [f64; 10] = [0.05, 0.15, 0.25, 0.35, 0.45, 0.55, 0.65, 0.75, 0.85, 0.95];

thread_local! {
    static WEIGHT: Cell<f64> = const { Cell::new(1.0) };
}

struct Guard;
impl Drop for Guard {
    fn drop(&mut self) {
        shim::uninstall();
    }
}

/// Runs `f` with its draws answered by `ch`. Also gives the probability of the answers, which is
/// exact if every draw was enumerated in full.
pub fn weighted<T>(ch: &mut Ch, menu: Menu, f: impl FnOnce() -> T) -> (T, f64) {
    let ch: *mut Ch = ch;
    let mut draws = 0;
    WEIGHT.with(|w| w.set(1.0));
    let _guard = Guard;
    shim::install(Box::new(move |d| {
        // The explorer waits in this function meanwhile; the pointer is not used elsewhere.
        let ch = unsafe { &mut *ch };
        draws += 1;
        if draws > menu.cap {
            panic!("more than {} random draws", menu.cap);
        }
        let mut pick = |n: usize| if draws <= menu.free { ch.pick(n) } else { ch.pick_dev(n) };
        let (answer, p) = match d {
            Draw::Int(n) if n <= menu.ints => (pick(n as usize) as u64, 1.0 / n as f64),
            Draw::Int(n) => ([0, 1, n / 2, n - 1][pick(4)], f64::NAN),
            Draw::Range => (menu.ranges[pick(menu.ranges.len())].to_bits(), 1.0 / menu.ranges.len() as f64),
            Draw::Unit => (menu.units[pick(menu.units.len())].to_bits(), 1.0 / menu.units.len() as f64),
            Draw::Bool(p) => {
                let yes = pick(2) as u64;
                (yes, if yes == 1 { p } else { 1.0 - p })
            }
        };
        WEIGHT.with(|w| w.set(w.get() * p));
        answer
    }));
    let r = f();
    drop(_guard);
    (r, WEIGHT.with(|w| w.get()))
}

pub fn controlled<T>(ch: &mut Ch, menu: Menu, f: impl FnOnce() -> T) -> T {
    weighted(ch, menu, f).0
}

/// Answers the first draw, which has to be one of a whole number, by `answer(n)`; the others pass.
pub fn first_draw<T>(answer: impl Fn(u64) -> u64 + 'static, f: impl FnOnce() -> T) -> T {
    let _guard = Guard;
    shim::install(Box::new(move |d| match d {
        Draw::Int(n) => {
            shim::pause();
            answer(n)
        }
        d => panic!("harness: unexpected draw {d:?}"),
    }));
    f()
}
