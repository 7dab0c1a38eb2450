//! C04 / C05: units scale by exactly their factor.  The factors on the right are written down here
//! independently of the crate; `fxx` converts them to the storage precision (one rounding).
use crate::sx::*;
use crate::sys::units::*;
use crate::sys::constants::*;
use crate::sys::dimensions::*;
use crate::sys::*;
use core::ops::*;
use diman_lib::magnitude::Magnitude;

impl Mul<Magnitude> for Tag { type Output = Tag; fn mul(self, m: Magnitude) -> Tag { Tag(self.0.wrapping_mul(5) ^ m.into_f64().to_bits().rotate_left(21)) } }
impl Div<Magnitude> for Tag { type Output = Tag; fn div(self, m: Magnitude) -> Tag { Tag(self.0.wrapping_mul(13) ^ m.into_f64().to_bits().rotate_left(31)) } }

pub trait Num: St + Copy {
    fn fac(f: f64) -> Self;
}
impl Num for f64 { fn fac(f: f64) -> f64 { f } }
impl Num for f32 { fn fac(f: f64) -> f32 { f as f32 } }

pub const TENTH: f64 = 0.1;
pub const ODD: f64 = 1.7976931348623157e308;
pub const THIRD: f64 = 1.0 / 3.0;
pub const KILO: f64 = 1000.0;
pub const TINY: f64 = 3.3e-308;
pub const SUB: f64 = 4.9406564584124654e-324;
pub const F32ISH: f64 = 16777217.0;
pub const MID: f64 = 1.25e-39;
pub const HOUR: f64 = 3600.0;
pub const TODD: f64 = 0.7;
pub const TBIG: f64 = 3.0e200;
pub const PERCENT: f64 = 0.01;
pub const SOLAR: f64 = 1.989e30;
pub const LIGHT: f64 = 299792458.0;

macro_rules! ck { ($id:expr, $t:ty, $got:expr, $want:expr) => { check(<$t as St>::same($got, $want), $id) }; }

/// everything one unit expression can do with a number or a quantity
macro_rules! unit_ops {
    ($name:ident, $S:ty, $u:expr, $f:expr) => {
        #[no_mangle] pub extern "C" fn $name() {
            let x = <$S>::inp("a");
            let f = <$S>::fac($f);
            let m = <$S>::mir("a");
            ck!("number * unit", $S, raw(&(x * $u)), m * f);
            ck!("unit * number", $S, raw(&($u * x)), f * m);
            ck!("unit.new(number)", $S, raw(&($u).new(x)), m * f);
            ck!("number / unit", $S, raw(&(x / $u)), m / f);
            ck!("unit / number", $S, raw(&($u / x)), f / m);
            let q: Mass<$S> = mk(x);
            ck!("quantity * unit", $S, raw(&(q * $u)), m * f);
            ck!("unit * quantity", $S, raw(&($u * q)), m * f);
            ck!("quantity / unit", $S, raw(&(q / $u)), m / f);
            ck!("unit / quantity", $S, raw(&($u / q)), f / m);
            reach("end");
        }
    };
}
macro_rules! unit_ops_tag {
    ($name:ident, $u:expr, $f:expr) => {
        #[no_mangle] pub extern "C" fn $name() {
            let x = Tag::inp("a");
            let mg = Magnitude::from_f64($f);
            let m = Tag::mir("a");
            ck!("unit.new(value)", Tag, raw(&($u).new(x)), m * mg);
            let q: Mass<Tag> = mk(x);
            ck!("quantity * unit", Tag, raw(&(q * $u)), m * mg);
            ck!("unit * quantity", Tag, raw(&($u * q)), m * mg);
            ck!("quantity / unit", Tag, raw(&(q / $u)), m / mg);
            reach("end");
        }
    };
}
macro_rules! value_in {
    ($name:ident, $S:ty, $D:ident, $u:expr, $f:expr) => {
        #[no_mangle] pub extern "C" fn $name() {
            let x = <$S>::inp("a");
            let f = <$S>::fac($f);
            let m = <$S>::mir("a");
            let q: $D<$S> = mk(x);
            ck!("value_in", $S, q.value_in($u), m / f);
            let back: $S = ($u).new(x).value_in($u);
            ck!("new then value_in", $S, back, m * f / f);
            if $f == 1.0 { ck!("factor one is exact", $S, back, m); }
            reach("end");
        }
    };
}
macro_rules! both {
    ($a:ident $b:ident, $u:expr, $f:expr) => { unit_ops!($a, f64, $u, $f); unit_ops!($b, f32, $u, $f); };
}
macro_rules! bothv {
    ($a:ident $b:ident, $D:ident, $u:expr, $f:expr) => { value_in!($a, f64, $D, $u, $f); value_in!($b, f32, $D, $u, $f); };
}
both!(c04_meter_f64 c04_meter_f32, meter, 1.0);
both!(c04_tenth_f64 c04_tenth_f32, u_tenth, TENTH);
both!(c04_odd_f64 c04_odd_f32, u_odd, ODD);
both!(c04_third_f64 c04_third_f32, u_third, THIRD);
both!(c04_kilo_f64 c04_kilo_f32, u_kilo, KILO);
both!(c04_tiny_f64 c04_tiny_f32, u_tiny, TINY);
both!(c04_sub_f64 c04_sub_f32, u_sub, SUB);
both!(c04_f32_f64 c04_f32_f32, u_f32, F32ISH);
both!(c04_mid_f64 c04_mid_f32, u_mid, MID);
both!(c04_todd_f64 c04_todd_f32, t_odd, TODD);
both!(c04_percent_f64 c04_percent_f32, d_percent, PERCENT);
both!(c04_const_f64 c04_const_f32, K_LIGHT, LIGHT);
// composite units
both!(c04_prod_f64 c04_prod_f32, (u_tenth * u_third), TENTH * THIRD);
both!(c04_quot_f64 c04_quot_f32, (u_kilo / t_hour), KILO / HOUR);
both!(c04_quot2_f64 c04_quot2_f32, (t_odd / u_tenth), TODD / TENTH);
both!(c04_prod2_f64 c04_prod2_f32, (u_tiny * t_big), TINY * TBIG);
both!(c04_prod3_f64 c04_prod3_f32, (u_tiny * u_tenth), TINY * TENTH);
both!(c04_ratio_f64 c04_ratio_f32, (u_kilo / u_tenth), KILO / TENTH);
both!(c04_dless_f64 c04_dless_f32, (d_percent * d_percent), PERCENT * PERCENT);
both!(c04_cprod_f64 c04_cprod_f32, (K_LIGHT * m_solar), LIGHT * SOLAR);
unit_ops_tag!(c04_tag_simple, u_tenth, TENTH);
unit_ops_tag!(c04_tag_prod, (u_tenth * t_odd), TENTH * TODD);
unit_ops_tag!(c04_tag_quot, (u_tenth / t_odd), TENTH / TODD);

bothv!(c05_meter_f64 c05_meter_f32, Length, meter, 1.0);
bothv!(c05_tenth_f64 c05_tenth_f32, Length, u_tenth, TENTH);
bothv!(c05_odd_f64 c05_odd_f32, Length, u_odd, ODD);
bothv!(c05_third_f64 c05_third_f32, Length, u_third, THIRD);
bothv!(c05_kilo_f64 c05_kilo_f32, Length, u_kilo, KILO);
bothv!(c05_tiny_f64 c05_tiny_f32, Length, u_tiny, TINY);
bothv!(c05_sub_f64 c05_sub_f32, Length, u_sub, SUB);
bothv!(c05_mid_f64 c05_mid_f32, Length, u_mid, MID);
bothv!(c05_percent_f64 c05_percent_f32, Dimensionless, d_percent, PERCENT);
bothv!(c05_one_f64 c05_one_f32, Dimensionless, d_one, 1.0);
bothv!(c05_const_f64 c05_const_f32, Velocity, K_LIGHT, LIGHT);
bothv!(c05_quot_f64 c05_quot_f32, Velocity, (u_kilo / t_hour), KILO / HOUR);
bothv!(c05_prod_f64 c05_prod_f32, Area, (u_tenth * u_third), TENTH * THIRD);
bothv!(c05_unit_f64 c05_unit_f32, Velocity, (meter / second), 1.0);
