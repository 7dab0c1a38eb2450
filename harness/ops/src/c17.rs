//! C17: mathematical functions act as on the stored number.
use crate::sx::*;
use crate::sys::dimensions::*;
use crate::sys::*;
#[cfg(feature = "libm")]
#[allow(unused_imports)]
use num_traits::float::Float;
#[cfg(all(not(feature = "std"), not(feature = "libm")))]
#[allow(unused_imports)]
use num_traits::float::FloatCore;
macro_rules! ck { ($id:expr, $t:ty, $got:expr, $want:expr) => { check(<$t as St>::same($got, $want), $id) }; }

macro_rules! basic {
    ($S:ident: $abs:ident $sq:ident $mm:ident $cl:ident $pred:ident $zero:ident $powi:ident) => {
        #[no_mangle] pub extern "C" fn $abs() {
            let q: Length<$S> = mk(<$S>::inp("a"));
            ck!("abs", $S, raw(&q.abs()), <$S>::mir("a").abs());
            reach("end");
        }
        #[no_mangle] pub extern "C" fn $sq() {
            let q: Velocity<$S> = mk(<$S>::inp("a"));
            let m = <$S>::mir("a");
            ck!("squared", $S, raw(&q.squared()), m.powi(2));
            ck!("cubed", $S, raw(&q.cubed()), m.powi(3));
            let n: Dimensionless<$S> = mk(<$S>::inp("b"));
            let m = <$S>::mir("b");
            ck!("squared", $S, raw(&n.squared()), m.powi(2));
            ck!("cubed", $S, raw(&n.cubed()), m.powi(3));
            reach("end");
        }
        #[no_mangle] pub extern "C" fn $powi() {
            let q: Length<$S> = mk(<$S>::inp("a"));
            let m = <$S>::mir("a");
            ck!("powi<0>", $S, raw(&q.powi::<0>()), m.powi(0));
            ck!("powi<1>", $S, raw(&q.powi::<1>()), m.powi(1));
            ck!("powi<2>", $S, raw(&q.powi::<2>()), m.powi(2));
            ck!("powi<5>", $S, raw(&q.powi::<5>()), m.powi(5));
            ck!("powi<13>", $S, raw(&q.powi::<13>()), m.powi(13));
            ck!("powi<-1>", $S, raw(&q.powi::<{ -1 }>()), m.powi(-1));
            ck!("powi<-6>", $S, raw(&q.powi::<{ -6 }>()), m.powi(-6));
            reach("end");
        }
        #[no_mangle] pub extern "C" fn $mm() {
            let (a, b): (Length<$S>, Length<$S>) = (mk(<$S>::inp("a")), mk(<$S>::inp("b")));
            let (x, y) = (<$S>::mir("a"), <$S>::mir("b"));
            ck!("min", $S, raw(&a.min(b)), x.min(y));
            ck!("max", $S, raw(&a.max(b)), x.max(y));
            let (a, b): (Dimensionless<$S>, $S) = (mk(<$S>::inp("c")), <$S>::inp("d"));
            let (x, y) = (<$S>::mir("c"), <$S>::mir("d"));
            ck!("min with number", $S, raw(&a.min(b)), x.min(y));
            ck!("max with number", $S, raw(&a.max(b)), x.max(y));
            reach("end");
        }
        #[no_mangle] pub extern "C" fn $cl() {
            let (a, b, c): (Length<$S>, Length<$S>, Length<$S>) = (mk(<$S>::inp("a")), mk(<$S>::inp("b")), mk(<$S>::inp("c")));
            let (x, y, z) = (<$S>::mir("a"), <$S>::mir("b"), <$S>::mir("c"));
            // clamp of the stored numbers panics exactly when !(min <= max)
            if branch(y <= z) {
                let got = a.clamp(b, c);
                ck!("clamp", $S, raw(&got), x.clamp(y, z));
                reach("end");
            } else {
                expect_panic(true);
                let got = a.clamp(b, c);
                out("unreachable", raw(&got).to_bits() as u64);
            }
        }
        #[no_mangle] pub extern "C" fn $pred() {
            let q: Length<$S> = mk(<$S>::inp("a"));
            let x = <$S>::mir("a");
            check(q.is_positive() == (x > 0.0), "is_positive");
            check(q.is_negative() == (x < 0.0), "is_negative");
            check(q.is_positive_or_zero() == (x >= 0.0), "is_positive_or_zero");
            check(q.is_negative_or_zero() == (x <= 0.0), "is_negative_or_zero");
            check(q.is_nan() == (x != x), "is_nan");
            if x != x { reach("nan"); }
            reach("end");
        }
        #[no_mangle] pub extern "C" fn $zero() {
            check(raw(&Length::<$S>::zero()).to_bits() == 0, "zero is +0");
            check(raw(&Dimensionless::<$S>::zero()).to_bits() == 0, "zero is +0");
            reach("end");
        }
    };
}
basic!(f64: c17_abs_f64 c17_sq_f64 c17_minmax_f64 c17_clamp_f64 c17_pred_f64 c17_zero_f64 c17_powi_f64);
basic!(f32: c17_abs_f32 c17_sq_f32 c17_minmax_f32 c17_clamp_f32 c17_pred_f32 c17_zero_f32 c17_powi_f32);

#[cfg(any(feature = "std", feature = "libm"))]
mod full {
    use super::*;
    macro_rules! rf { ($S:ident, $f:ident, $x:expr) => { <$S>::$f($x) }; }
    macro_rules! unary {
        ($S:ident: $($name:ident $f:ident),*) => { $(
            #[no_mangle] pub extern "C" fn $name() {
                let q: Dimensionless<$S> = mk(<$S>::inp("a"));
                ck!(stringify!($f), $S, raw(&q.$f()), rf!($S, $f, <$S>::mir("a")));
                reach("end");
            }
        )* };
    }
    unary!(f64: c17_log2_f64 log2, c17_ln_f64 ln, c17_log10_f64 log10, c17_exp_f64 exp, c17_exp2_f64 exp2, c17_ceil_f64 ceil,
        c17_floor_f64 floor, c17_sin_f64 sin, c17_cos_f64 cos, c17_tan_f64 tan, c17_asin_f64 asin, c17_acos_f64 acos, c17_atan_f64 atan,
        c17_sinh_f64 sinh, c17_cosh_f64 cosh, c17_tanh_f64 tanh, c17_asinh_f64 asinh, c17_acosh_f64 acosh, c17_atanh_f64 atanh,
        c17_expm1_f64 exp_m1, c17_ln1p_f64 ln_1p);
    unary!(f32: c17_log2_f32 log2, c17_ln_f32 ln, c17_log10_f32 log10, c17_exp_f32 exp, c17_exp2_f32 exp2, c17_ceil_f32 ceil,
        c17_floor_f32 floor, c17_sin_f32 sin, c17_cos_f32 cos, c17_tan_f32 tan, c17_asin_f32 asin, c17_acos_f32 acos, c17_atan_f32 atan,
        c17_sinh_f32 sinh, c17_cosh_f32 cosh, c17_tanh_f32 tanh, c17_asinh_f32 asinh, c17_acosh_f32 acosh, c17_atanh_f32 atanh,
        c17_expm1_f32 exp_m1, c17_ln1p_f32 ln_1p);
    macro_rules! roots {
        ($S:ident: $a:ident $b:ident) => {
            #[no_mangle] pub extern "C" fn $a() {
                let q: Area<$S> = mk(<$S>::inp("a"));
                let m = <$S>::mir("a");
                ck!("sqrt", $S, raw(&q.sqrt()), rf!($S, sqrt, m));
                let n: Dimensionless<$S> = mk(<$S>::inp("b"));
                ck!("sqrt", $S, raw(&n.sqrt()), rf!($S, sqrt, <$S>::mir("b")));
                reach("end");
            }
            #[no_mangle] pub extern "C" fn $b() {
                let q: Volume<$S> = mk(<$S>::inp("a"));
                ck!("cbrt", $S, raw(&q.cbrt()), rf!($S, cbrt, <$S>::mir("a")));
                reach("end");
            }
        };
    }
    roots!(f64: c17_sqrt_f64 c17_cbrt_f64);
    roots!(f32: c17_sqrt_f32 c17_cbrt_f32);
}
