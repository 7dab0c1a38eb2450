//! C16: deserializing what serializing wrote gives the quantity back.
use crate::sx::*;
use crate::util::*;
use crate::{sa, sb, sc};
crate::st_vec!(glam::Vec2, f32, x "x", y "y");
crate::st_vec!(glam::DVec2, f64, x "x", y "y");
crate::st_vec!(glam::Vec3, f32, x "x", y "y", z "z");
crate::st_vec!(glam::DVec3, f64, x "x", y "y", z "z");
macro_rules! sys { ($f:ident $s:ident $S:ty) => {
    #[inline(never)]
    fn $f<const D: $s::Dimension>(x: $S) {
        let q: $s::Quantity<$S, D> = $s::probe::mk(x);
        let text = format!("{}", Ser(&q));
        match de::<$s::Quantity<$S, D>>(&text) {
            Ok(p) => check(<$S as St>::same($s::probe::raw(&p), x), "round trip"),
            Err(_) => check(false, "what was written can be read"),
        }
        reach("end");
    }
} }
sys!(a64 sa f64);
sys!(a32 sa f32);
sys!(b64 sb f64);
sys!(c64 sc f64);
sys!(av2 sa glam::Vec2);
sys!(aw2 sa glam::DVec2);
sys!(av3 sa glam::Vec3);
sys!(aw3 sa glam::DVec3);
sys!(bv2 sb glam::Vec2);
macro_rules! grid {
    ($name:ident $f:ident $s:ident $S:ty; $d:expr; $($l:expr),* ; $t:tt ; $m:tt) => {
        #[no_mangle] pub extern "C" fn $name() {
            let x = <$S as St>::inp("a");
            let n = input("dimension", 8) as u8;
            let mut k = 0u8;
            $( grid!(@t $f $s x n k $d $l $t $m); )*
            assume(n < k);
        }
    };
    (@t $f:ident $s:ident $x:ident $n:ident $k:ident $d:tt $l:tt [$($t:expr),*] $m:tt) => { $( grid!(@m $f $s $x $n $k $d $l $t ; $m); )* };
    (@m $f:ident $s:ident $x:ident $n:ident $k:ident $d:tt $l:tt $t:expr ; [$($m:expr),*]) => {
        $( if $n == $k { $f::<{ $s::probe::dim($l, $t, $m, $d) }>($x); return; } $k += 1; )*
    };
}
grid!(c16_a_f64 a64 sa f64; 1; -2, -1, 0, 1, 2; [-2, -1, 0, 1, 12]; [-1, 0, 1, 3]);
grid!(c16_b_f64 b64 sb f64; 1; -2, -1, 0, 1, 2; [-2, -1, 0, 1, 2]; [-1, 0, 1]);
grid!(c16_c_f64 c64 sc f64; 1; -3, 0, 1; [-2, -1, 0, 1]; [-1, 0, 1]);
grid!(c16_a_f32 a32 sa f32; 1; -1, 0, 1, 130; [-2, -1, 0]; [-1, 0, 1]);
grid!(c16_a_vec2 av2 sa glam::Vec2; 1; -1, 0, 1; [-2, 0]; [0, 1]);
grid!(c16_a_dvec2 aw2 sa glam::DVec2; 1; -1, 0, 1; [-2, 0]; [0, 1]);
grid!(c16_a_vec3 av3 sa glam::Vec3; 1; -1, 0, 1; [-2, 0]; [0, 1]);
grid!(c16_a_dvec3 aw3 sa glam::DVec3; 1; -1, 0, 1; [-2, 0]; [0, 1]);
grid!(c16_b_vec2 bv2 sb glam::Vec2; 1; -2, 0, 1; [-2, 0]; [0, 1]);
#[cfg(feature = "rational")]
mod rational {
    use super::*;
    grid!(c16_a_f64_halves a64 sa f64; 2; -3, -2, 0, 1, 2; [-4, -1, 0, 2]; [0, 1, 2]);
    grid!(c16_a_f64_thirds a64 sa f64; 3; -3, -1, 0, 2, 4; [-6, -2, 0, 3]; [0, 1, 3]);
    grid!(c16_a_f32_tenths a32 sa f32; 10; -10, -1, 0, 5, 10; [-4, 0, 11]; [0, 2]);
}
/// numbers whose text is long or far from one, written out in full
#[no_mangle] pub extern "C" fn c16_hard() {
    const T: [f64; 16] = [0.1 + 0.2, 1.0 / 3.0, 5e-324, f64::MAX, f64::MIN_POSITIVE, 123456789.12345679, 1e21, 1.2345678901234567e-7, -1e16, 9007199254740993.0, -0.0, 2.5e-310,
        -1.7976931348623155e308, 1.0000000000000002, 4.35, 3.141592653589793e-200];
    const U: [f32; 16] = [0.1 + 0.2, 1.0 / 3.0, 1e-45, f32::MAX, f32::MIN_POSITIVE, 123456.79, 1e21, 1.2345678e-7, -1e16, 16777217.0, -0.0, 2.5e-40, -3.4028233e38, 1.0000001, 4.35, 3.1415927e-20];
    let i = pick(input("number", 4)) as usize;
    let j = pick(input("other", 1)) as usize * 7;
    let (x, y) = (T[i], U[i]);
    let (v, w) = (T[(i + j) % 16], U[(i + j) % 16]);
    a64::<{ sa::probe::dim(0, 0, 0, 1) }>(x);
    a64::<{ sa::probe::dim(2, -1, 1, 1) }>(x);
    b64::<{ sb::probe::dim(1, -2, 1, 1) }>(x);
    c64::<{ sc::probe::dim(1, 0, -1, 1) }>(x);
    a32::<{ sa::probe::dim(0, 0, 0, 1) }>(y);
    a32::<{ sa::probe::dim(1, -1, 0, 1) }>(y);
    av2::<{ sa::probe::dim(1, 0, 0, 1) }>(glam::Vec2::new(y, w));
    aw2::<{ sa::probe::dim(0, 0, 0, 1) }>(glam::DVec2::new(v, x));
    av3::<{ sa::probe::dim(0, 0, 0, 1) }>(glam::Vec3::new(w, 1.0, y));
    aw3::<{ sa::probe::dim(-1, 2, 0, 1) }>(glam::DVec3::new(x, 2.0, v));
}
