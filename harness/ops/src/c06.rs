//! C06: factors survive their compile-time representation.
//! The fraction bits stay symbolic; the exponent (and the number of leading zeros of a subnormal) is split
//! into cases by the executor, so that all finite doubles are covered.
use crate::sx::*;
use diman_lib::magnitude::Magnitude;

fn double(name: &str, cls: u64) -> f64 {
    // cls: sign bit 12, exponent field bits 0..11
    let frac = input(name, 52);
    f64::from_bits(((cls >> 11) & 1) << 63 | (cls & 0x7ff) << 52 | frac)
}
/// subnormal with the highest set bit at position p
fn subnormal(name: &str, sign: u64, p: u64) -> f64 {
    let low = input(name, 52) & ((1u64 << p) - 1);
    f64::from_bits((sign & 1) << 63 | 1 << p | low)
}
fn same(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() }
fn round_trip(x: f64) {
    let m = Magnitude::from_f64(x);
    check(same(m.into_f64(), x), "round trip");
    check(same32(m.into_f32(), x as f32), "as f32");
    check(m.is_one() == (x == 1.0), "is_one");
    check(same(Magnitude::from_f64(m.into_f64()).into_f64(), x), "twice");
}
macro_rules! range {
    ($($name:ident $base:literal)*) => { $(
        #[no_mangle] pub extern "C" fn $name() {
            let sign = pick(input("sign", 1));
            let e = $base * 256 + pick(input("exp", 8));
            if e == 2047 { reach("end"); return; }
            if e == 0 {
                // zero and subnormals
                let p = pick(input("lead", 6));
                if p == 52 {
                    round_trip(f64::from_bits(sign << 63));
                } else if p < 52 {
                    round_trip(subnormal("frac", sign, p));
                }
            } else {
                round_trip(double("frac", sign << 11 | e));
            }
            reach("end");
        }
    )* };
}
range!(c06_trip_0 0 c06_trip_1 1 c06_trip_2 2 c06_trip_3 3 c06_trip_4 4 c06_trip_5 5 c06_trip_6 6 c06_trip_7 7);

const EXPS: [u64; 64] = [1, 2, 3, 37, 52, 53, 54, 55, 90, 103, 169, 235, 301, 367, 433, 499, 500, 510, 511, 512, 565, 631, 697, 763, 829, 895, 961, 970, 971, 1000, 1021, 1022, 1023, 1024, 1025, 1027, 1074, 1075, 1076, 1077, 1093, 1159, 1225, 1291, 1357, 1423, 1489, 1500, 1533, 1534, 1535, 1555, 1621, 1687, 1753, 1819, 1885, 1900, 1951, 2017, 2043, 2044, 2045, 2046];
fn any(name_f: &str, name_e: &str, name_s: &str) -> f64 {
    let e = pick(input(name_e, 6)) as usize;
    let s = pick(input(name_s, 1));
    double(name_f, s << 11 | EXPS[e])
}
fn eqm(a: Magnitude, b: Magnitude) -> bool { a.mantissa == b.mantissa && a.exponent == b.exponent && a.sign == b.sign && a == b }
#[no_mangle] pub extern "C" fn c06_mul() {
    let (x, y) = (any("f", "fe", "fs"), any("g", "ge", "gs"));
    let (a, b) = (Magnitude::from_f64(x), Magnitude::from_f64(y));
    check(eqm(a * b, Magnitude::from_f64(x * y)), "product");
    check(eqm(a * y, Magnitude::from_f64(x * y)), "product with number");
    check(same64(x * b, x * y), "number times factor");
    reach("end");
}
#[no_mangle] pub extern "C" fn c06_div() {
    let (x, y) = (any("f", "fe", "fs"), any("g", "ge", "gs"));
    let (a, b) = (Magnitude::from_f64(x), Magnitude::from_f64(y));
    check(eqm(a / b, Magnitude::from_f64(x / y)), "quotient");
    check(eqm(a / y, Magnitude::from_f64(x / y)), "quotient with number");
    check(same64(x / b, x / y), "number over factor");
    reach("end");
}
fn any_sub(p: &str, f: &str) -> f64 { let p = pick(input(p, 6)); if p > 51 { 0.0 } else { subnormal(f, 0, p) } }
#[no_mangle] pub extern "C" fn c06_mul_sub() {
    let (x, y) = (any("f", "fe", "fs"), any_sub("gp", "g"));
    let (a, b) = (Magnitude::from_f64(x), Magnitude::from_f64(y));
    check(eqm(a * b, Magnitude::from_f64(x * y)), "product");
    check(eqm(a / b, Magnitude::from_f64(x / y)), "quotient");
    check(eqm(b / a, Magnitude::from_f64(y / x)), "quotient");
    reach("end");
}
/// equality of factors is equality of the doubles
#[no_mangle] pub extern "C" fn c06_eq() {
    let (x, y) = (f64::from_bits(input("a", 64)), f64::from_bits(input("b", 64)));
    assume(x.is_finite() && y.is_finite());
    check((Magnitude::from_f64(x) == Magnitude::from_f64(y)) == (x.to_bits() == y.to_bits()), "equal factors");
    reach("end");
}
