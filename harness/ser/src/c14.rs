//! C14: Debug shows the stored value and the right unit.
use crate::sx::*;
use crate::util::*;
use crate::{sa, sb, sc};
use std::fmt::Debug;

fn expect_a(l: i64, t: i64, m: i64, d: i64) -> String {
    match (l, t, m) {
        _ if l % d == 0 && t % d == 0 && m % d == 0 => match (l / d, t / d, m / d) {
            (1, -2, 1) => " N".into(),
            (1, -1, 0) => " z".into(),
            _ => suffix([("m", l), ("s", t), ("kg", m)], d),
        },
        _ => suffix([("m", l), ("s", t), ("kg", m)], d),
    }
}
fn expect_b(l: i64, t: i64, m: i64, d: i64) -> String { suffix([("s", t), ("kg", m), ("m", l)], d) }
fn expect_c(l: i64, t: i64, m: i64, d: i64) -> String {
    if (l, t, m) == (0, 0, 0) { return " rad".into(); }
    if (l, m) == (0, 0) && t == -d { return " Hz".into(); }
    suffix([("kg", m), ("m", l), ("s", t)], d)
}
macro_rules! sys { ($f:ident $s:ident $S:ty, $exp:ident) => {
    #[inline(never)]
    fn $f<const D: $s::Dimension>(x: $S, l: i64, t: i64, m: i64, d: i64) {
        let q: $s::Quantity<$S, D> = $s::probe::mk(x);
        let mut want = format!("{}", x);
        want.push_str(&$exp(l, t, m, d));
        let got = format!("{:?}", q);
        check(got == want, "debug");
        reach("end");
    }
} }
sys!(a64 sa f64, expect_a);
sys!(a32 sa f32, expect_a);
sys!(b64 sb f64, expect_b);
sys!(b32 sb f32, expect_b);
sys!(c64 sc f64, expect_c);
sys!(av2 sa glam::Vec2, expect_a);
sys!(av3 sa glam::DVec3, expect_a);
sys!(bv3 sb glam::Vec3, expect_b);
sys!(cv2 sc glam::DVec2, expect_c);

/// the stored value's own display is asked with the formatter's options, and its failure is passed on
#[inline(never)]
fn shown<const D: sa::Dimension>(l: i64, t: i64, m: i64, d: i64) {
    use std::fmt::Write;
    let x = input("shown", 8) as u8;
    let q: sa::Quantity<Shown, D> = sa::probe::mk(Shown(x));
    let s = expect_a(l, t, m, d);
    if branch(x & 1 == 0) {
        check(format!("{:?}", q) == format!("{}{}", Shown(0), s), "debug of any storage");
        check(format!("{:.3?}", q) == format!("{:.3}{}", Shown(0), s), "debug with precision");
        check(format!("{:+.2?}", q) == format!("{:+.2}{}", Shown(0), s), "debug with sign");
        check(format!("{:7?}", q) == format!("{:7}{}", Shown(0), s), "debug with width");
        reach("end");
    } else {
        let mut o = String::new();
        check(write!(o, "{:?}", q).is_err(), "failure of the stored value's display");
        reach("failed");
    }
}
// one dimension of the grid per path: the choice is the solver's
macro_rules! grid {
    ($name:ident $f:ident $s:ident $x:expr; $d:expr; $($l:expr),* ; $t:tt ; $m:tt) => {
        #[no_mangle] pub extern "C" fn $name() {
            let x = $x;
            let n = input("dimension", 8) as u8;
            let mut k = 0u8;
            $( grid!(@t $f $s x n k $d $l $t $m); )*
            assume(n < k);
        }
    };
    (@t $f:ident $s:ident $x:ident $n:ident $k:ident $d:tt $l:tt [$($t:expr),*] $m:tt) => { $( grid!(@m $f $s $x $n $k $d $l $t ; $m); )* };
    (@m $f:ident $s:ident $x:ident $n:ident $k:ident $d:tt $l:tt $t:expr ; [$($m:expr),*]) => {
        $( if $n == $k { $f::<{ $s::probe::dim($l, $t, $m, $d) }>($x, $l, $t, $m, $d); return; } $k += 1; )*
    };
}
fn v2() -> glam::Vec2 { glam::Vec2::new(f32::inp("x"), f32::inp("y")) }
fn v3() -> glam::DVec3 { glam::DVec3::new(f64::inp("x"), f64::inp("y"), f64::inp("z")) }
fn w3() -> glam::Vec3 { glam::Vec3::new(f32::inp("x"), f32::inp("y"), f32::inp("z")) }
fn w2() -> glam::DVec2 { glam::DVec2::new(f64::inp("x"), f64::inp("y")) }
grid!(c14_a_f64 a64 sa f64::inp("x"); 1; -2, -1, 0, 1, 2; [-2, -1, 0, 1, 2]; [-1, 0, 1, 3]);
grid!(c14_b_f64 b64 sb f64::inp("x"); 1; -2, -1, 0, 1, 2; [-2, -1, 0, 1, 2]; [-1, 0, 1, 3]);
grid!(c14_c_f64 c64 sc f64::inp("x"); 1; -3, -1, 0, 1, 2; [-2, -1, 0, 1, 2]; [-1, 0, 1]);
grid!(c14_a_f32 a32 sa f32::inp("x"); 1; -1, 0, 1, 12; [-2, -1, 0, 1]; [-1, 0, 1]);
grid!(c14_b_f32 b32 sb f32::inp("x"); 1; -1, 0, 1, 2; [-2, -1, 0, 1]; [-130, 0, 1]);
grid!(c14_a_vec2 av2 sa v2(); 1; -1, 0, 1; [-2, 0]; [0, 1]);
grid!(c14_a_dvec3 av3 sa v3(); 1; -1, 0, 1; [-2, 0]; [0, 1]);
grid!(c14_b_vec3 bv3 sb w3(); 1; -1, 0, 1; [-1, 0]; [0, 1]);
grid!(c14_c_dvec2 cv2 sc w2(); 1; -1, 0, 1; [-1, 0]; [0, 1]);
#[cfg(feature = "rational")]
mod rational {
    use super::*;
    grid!(c14_a_f64_halves a64 sa f64::inp("x"); 2; -3, -2, 0, 1, 2, 3; [-4, -1, 0, 2]; [0, 1, 2]);
    grid!(c14_a_f64_thirds a64 sa f64::inp("x"); 3; -3, -1, 0, 2, 3, 4; [-6, -2, 0, 3]; [0, 1, 3]);
    grid!(c14_b_f32_fifths b32 sb f32::inp("x"); 10; -10, -1, 0, 5, 10; [-4, 0, 11]; [0, 2]);
}
#[no_mangle] pub extern "C" fn c14_shown() {
    match input("dimension", 8) {
        0 => shown::<{ sa::probe::dim(0, 0, 0, 1) }>(0, 0, 0, 1),
        1 => shown::<{ sa::probe::dim(1, -2, 1, 1) }>(1, -2, 1, 1),
        2 => shown::<{ sa::probe::dim(2, 0, -1, 1) }>(2, 0, -1, 1),
        _ => {}
    }
}
