// inside the module of a system, where the fields of its dimension type are visible
use super::*;
#[cfg(not(feature = "rational"))]
pub const fn e(n: i64, _d: i64) -> Exponent { n }
#[cfg(feature = "rational")]
pub const fn e(n: i64, d: i64) -> Exponent { Exponent::new(n, d) }
/// exponents of length, time and mass over a common denominator
pub const fn dim(l: i64, t: i64, m: i64, d: i64) -> Dimension { Dimension { length: e(l, d), time: e(t, d), mass: e(m, d) } }
pub fn mk<S: Copy, const D: Dimension>(s: S) -> Quantity<S, D> {
    assert!(core::mem::size_of::<S>() == core::mem::size_of::<Quantity<S, D>>());
    unsafe { core::mem::transmute_copy(&s) }
}
pub fn raw<S: Copy, const D: Dimension>(q: &Quantity<S, D>) -> S { unsafe { core::ptr::read(q as *const _ as *const S) } }
