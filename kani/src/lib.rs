//! Kani harnesses; `kreplay` runs the same code natively on the values of a counterexample.
#[cfg(not(kani))]
pub mod src {
    use std::cell::RefCell;
    thread_local! { pub static VALS: RefCell<std::collections::VecDeque<Vec<u8>>> = RefCell::new(Default::default()); }
    pub struct AssumptionFalse;
    pub trait Any {
        fn from(b: &[u8]) -> Self;
    }
    impl Any for f64 {
        fn from(b: &[u8]) -> f64 {
            f64::from_le_bytes(b.try_into().unwrap())
        }
    }
    impl Any for u8 {
        fn from(b: &[u8]) -> u8 {
            b[0]
        }
    }
    impl Any for bool {
        fn from(b: &[u8]) -> bool {
            b[0] != 0
        }
    }
    pub fn any<T: Any>() -> T {
        let v = VALS.with(|v| v.borrow_mut().pop_front()).expect("out of values");
        T::from(&v)
    }
    pub fn assume(b: bool) {
        if !b {
            std::panic::panic_any(AssumptionFalse)
        }
    }
}
#[cfg(kani)]
pub mod src {
    pub use kani::{any, assume};
}
use src::*;

#[cfg(not(kani))]
macro_rules! cover {
    ($($t:tt)*) => {};
}
#[cfg(kani)]
macro_rules! cover {
    ($($t:tt)*) => { kani::cover!($($t)*) };
}

macro_rules! harnesses {
    ($($(#[$a:meta])* fn $n:ident() $b:block)*) => {
        $(#[cfg_attr(kani, kani::proof)] $(#[cfg_attr(kani, $a)])* pub fn $n() $b)*
        pub const HARNESSES: &[(&str, fn())] = &[$((stringify!($n), $n as fn())),*];
    };
}

use linesweeper as ls;
use ls::num::CheapOrderedFloat as C;
harnesses! {
    fn ord_float() {
        let a: f64 = any(); let b: f64 = any();
        assume(!a.is_nan() && !b.is_nan());
        let (x, y) = (C::from(a), C::from(b));
        assert!((a < b) == (x < y), "lt agrees");
        assert!((a == b) == (x.cmp(&y) == std::cmp::Ordering::Equal), "eq agrees");
        assert!(x.cmp(&y) == y.cmp(&x).reverse(), "antisymmetric");
        cover!(a < b);
    }
    fn monic() {
        let b: f64 = any(); let c: f64 = any();
        assume(b.is_finite() && c.is_finite());
        let (r0, r1) = ls::curve::monic_quadratic_roots(b, c);
        assert!(!r0.is_nan() && !r1.is_nan(), "not nan");
        assert!(r0 <= r1, "ordered");
        cover!(r0 < r1);
    }
}
