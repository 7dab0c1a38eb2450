//! C21: wrapping and unwrapping is lossless; sums go left to right from zero.
use crate::sx::*;
use crate::sys::dimensions::*;
use crate::sys::*;
#[cfg(feature = "glamf")]
use glam::{DVec2, DVec3, Vec2, Vec3};
macro_rules! ck { ($id:expr, $t:ty, $got:expr, $want:expr) => { check(<$t as St>::same($got, $want), $id) }; }
macro_rules! wrap {
    ($S:ident: $a:ident $b:ident) => {
        #[no_mangle] pub extern "C" fn $a() {
            let x = <$S>::inp("a");
            let m = <$S>::mir("a");
            let n: Dimensionless<$S> = mk(x);
            ck!("value", $S, n.value(), m);
            ck!("value_ref", $S, *n.value_ref(), m);
            ck!("deref", $S, *n, m);
            ck!("deref method", $S, *core::ops::Deref::deref(&n), m);
            ck!("from", $S, raw(&Dimensionless::<$S>::from(x)), m);
            let q: Length<$S> = mk(x);
            ck!("value_unchecked", $S, q.value_unchecked(), m);
            ck!("value_unchecked_ref", $S, *q.value_unchecked_ref(), m);
            ck!("new_unchecked", $S, raw(&Length::<$S>::new_unchecked(x)), m);
            check(core::ptr::eq(q.value_unchecked_ref() as *const _ as *const u8, &q as *const _ as *const u8), "value_unchecked_ref points into the quantity");
            ck!("default", $S, raw(&Length::<$S>::default()), <$S>::default());
            ck!("clone", $S, raw(&q.clone()), m);
            reach("end");
        }
        #[no_mangle] pub extern "C" fn $b() {
            // sums of 0..=4 items, then of a filtered iterator
            let v: [$S; 4] = [<$S>::inp("a"), <$S>::inp("b"), <$S>::inp("c"), <$S>::inp("a")];
            for n in 0..=4usize {
                let mut w = <$S>::default();
                for i in 0..n { w += v[i]; }
                let qs: [Length<$S>; 4] = [mk(v[0]), mk(v[1]), mk(v[2]), mk(v[3])];
                let s: Length<$S> = qs[..n].iter().copied().sum();
                ck!("sum", $S, raw(&s), w);
            }
            // longer ones, of slices and of iterators that do not know their length
            for n in [5usize, 7, 8, 9, 12, 16, 17, 33, 65, 130] {
                let mut w = <$S>::default();
                for i in 0..n { w += v[(i * i + i / 4) % 4]; }
                let q = |i: usize| -> Length<$S> { mk(v[(i * i + i / 4) % 4]) };
                ck!("long sum", $S, raw(&(0..n).map(q).sum::<Length<$S>>()), w);
                let mut i = 0;
                let s: Length<$S> = core::iter::from_fn(|| { i += 1; if i <= n { Some(q(i - 1)) } else { None } }).sum();
                ck!("long sum, unknown length", $S, raw(&s), w);
            }
            reach("end");
        }
    };
}
wrap!(f64: c21_wrap_f64 c21_sum_f64);
wrap!(f32: c21_wrap_f32 c21_sum_f32);
wrap!(Tag: c21_wrap_tag c21_sum_tag);
#[cfg(feature = "glamf")]
mod v {
    use super::*;
    wrap!(DVec3: c21_wrap_dv3 c21_sum_dv3);
    wrap!(DVec2: c21_wrap_dv2 c21_sum_dv2);
    wrap!(Vec3: c21_wrap_v3 c21_sum_v3);
    wrap!(Vec2: c21_wrap_v2 c21_sum_v2);
}
