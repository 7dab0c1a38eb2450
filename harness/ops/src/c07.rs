//! C07: rational exponents.  Only in configurations that have the type.
use crate::sx::*;
use diman_lib::dimension_exponent::DimensionExponent;
use diman_lib::ratio::Ratio;

fn signed(n: &str, w: u64) -> i64 { let v = input(n, w as u32) as i64; (v << (64 - w)) >> (64 - w) }
/// numerators are symbolic
fn small(n: &str) -> i64 { signed(n, crate::c07_bits()) }
/// the numerator of the second operand is split into cases
fn case(n: &str) -> i64 { let v = pick(input(n, 5)) as i64 - 16; assume(v >= -crate::c07_num() && v <= crate::c07_num()); v }
/// denominators are split into cases
fn den(n: &str) -> i64 { let v = pick(input(n, 5)) as i64 + 1; assume(v <= crate::c07_den()); v }
/// the invariant representation: positive denominator, lowest terms
fn is(r: Ratio, n: i64, d: i64) {
    let e = pick(r.denom() as u64) as i64;
    check(e > 0, "denominator is positive");
    check(r.num() * d == n * e, "exact value");
    // the denominators here are products of two numbers of at most 32
    for p in [2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31] {
        if e % p == 0 {
            check(r.num() % p != 0, "lowest terms");
        }
    }
}

#[no_mangle] pub extern "C" fn c07_new() {
    let (n, d) = (small("n"), pick(input("d", 6)) as i64 - 32);
    if d == 0 {
        expect_panic(true);
        let r = Ratio::new(n, d);
        out("r", r.num() as u64);
        return;
    }
    is(Ratio::new(n, d), n, d);
    reach("end");
}
#[no_mangle] pub extern "C" fn c07_equal() {
    let (n, d, m, e) = (small("n"), den("d"), small("m"), den("e"));
    check((Ratio::new(n, d) == Ratio::new(m, e)) == (n * e == m * d), "equal numbers are equal exponents");
    reach("end");
}
fn two() -> (Ratio, Ratio, i64, i64, i64, i64) {
    let (n, d, m, e) = (small("n"), den("d"), case("m"), den("e"));
    (Ratio::new(n, d), Ratio::new(m, e), n, d, m, e)
}
macro_rules! binary {
    ($($name:ident |$a:ident, $b:ident, $n:ident, $d:ident, $m:ident, $e:ident| $x:expr, $p:expr, $q:expr;)*) => { $(
        #[no_mangle] pub extern "C" fn $name() {
            let ($a, $b, $n, $d, $m, $e) = two();
            is($x, $p, $q);
            reach("end");
        }
    )* };
}
binary! {
    c07_add |a, b, n, d, m, e| a.add(b), n * e + m * d, d * e;
    c07_sub |a, b, n, d, m, e| a.sub(b), n * e - m * d, d * e;
    c07_mul |a, b, n, d, m, e| Ratio::mul(a, b), n * m, d * e;
    c07_trait_mul |a, b, n, d, m, e| <Ratio as core::ops::Mul>::mul(a, b), n * m, d * e;
    c07_add_assign |a, b, n, d, m, e| { let mut x = a; x += b; x }, n * e + m * d, d * e;
}
/// denominators that share factors without dividing each other, and larger ones
fn common(k: u64) -> (Ratio, Ratio, i64, i64, i64, i64) {
    let p = pick(input("pair", 3)) as usize;
    assume(p < 3);
    let (d, e) = [[(6, 3), (6, 4), (2, 6)], [(6, 10), (9, 6), (6, 6)]][k as usize][p];
    let m = [1, -1][pick(input("m", 1)) as usize];
    let n = signed("n", crate::c07_bits() - 2);
    (Ratio::new(n, d), Ratio::new(m, e), n, d, m, e)
}
macro_rules! shared {
    ($($name:ident $k:literal |$a:ident, $b:ident, $n:ident, $d:ident, $m:ident, $e:ident| $x:expr, $p:expr, $q:expr;)*) => { $(
        #[no_mangle] pub extern "C" fn $name() {
            let ($a, $b, $n, $d, $m, $e) = common($k);
            is($x, $p, $q);
            reach("end");
        }
    )* };
}
shared! {
    c07_add_common_0 0 |a, b, n, d, m, e| a.add(b), n * e + m * d, d * e;
    c07_add_common_1 1 |a, b, n, d, m, e| a.add(b), n * e + m * d, d * e;
    c07_sub_common_0 0 |a, b, n, d, m, e| a.sub(b), n * e - m * d, d * e;
    c07_sub_common_1 1 |a, b, n, d, m, e| a.sub(b), n * e - m * d, d * e;
    c07_mul_common_0 0 |a, b, n, d, m, e| Ratio::mul(a, b), n * m, d * e;
}
#[no_mangle] pub extern "C" fn c07_div_common() {
    let (a, b, n, d, m, e) = common(0);
    assume(m != 0);
    is(a.div(b), n * e, d * m);
    reach("end");
}
#[no_mangle] pub extern "C" fn c07_div() {
    let (a, b, n, d, m, e) = two();
    if branch(m == 0) {
        expect_panic(true);
        out("r", a.div(b).num() as u64);
        return;
    }
    is(a.div(b), n * e, d * m);
    reach("end");
}
#[no_mangle] pub extern "C" fn c07_neg() {
    let (n, d) = (small("n"), den("d"));
    let r = Ratio::new(n, d);
    is(r.neg(), -n, d);
    is(core::ops::Neg::neg(r), -n, d);
    reach("end");
}
fn ipow(x: i64, n: u64) -> i64 { let mut r = 1; for _ in 0..n { r *= x; } r }
#[no_mangle] pub extern "C" fn c07_powi() {
    let (n, d) = (signed("n", 4), pick(input("d", 2)) as i64 + 1);
    let k = pick(input("k", 3)) as i64 - 4;
    let r = Ratio::new(n, d);
    if branch(k < 0 && n == 0) {
        expect_panic(true);
        out("r", r.powi(k as i32).num() as u64);
        return;
    }
    let q = r.powi(k as i32);
    let (p, e) = if k >= 0 { (ipow(n, k as u64), ipow(d, k as u64)) } else { (ipow(d, (-k) as u64), ipow(n, (-k) as u64)) };
    check(q.num() * e == p * q.denom(), "exact value");
    check(q.denom() > 0, "denominator is positive");
    reach("end");
}
/// exponents over all 32 bits: exact or rejected
#[no_mangle] pub extern "C" fn c07_powi_big() {
    const KS: [i64; 24] = [0, 1, 2, 31, 32, 33, 39, 40, 61, 62, 63, 64, 65, 127, 128, 255, 256, 257, 65535, 65536, 65537, 1 << 24, (1 << 31) - 2, (1 << 31) - 1];
    let bases = [(0i64, 1i64), (1, 1), (-1, 1), (2, 1), (-2, 1), (3, 1), (1, 2), (-1, 2), (-1, 3), (2, 3)];
    let i = pick(input("base", 4)) as usize;
    let j = pick(input("k", 5)) as usize;
    let neg = pick(input("sign", 1)) == 1;
    assume(i < bases.len() && j < KS.len());
    let (n, d) = bases[i];
    let k = if neg { if KS[j] == (1 << 31) - 1 { i32::MIN as i64 } else { -KS[j] } } else { KS[j] };
    let m = k.unsigned_abs();
    let pow = |x: i64| -> Option<i128> {
        if x == 0 && m > 0 { return Some(0); }
        if x == 1 || x == -1 || m == 0 { return Some(if x < 0 && m % 2 == 1 { -1 } else { 1 }); }
        if m > 63 { return None; }
        let mut r = 1i128;
        for _ in 0..m { r *= x as i128; if r.abs() > 1 << 63 { return None; } }
        Some(r)
    };
    let r = Ratio::new(n, d);
    let w = if k >= 0 { (pow(n), pow(d)) } else { (pow(d), pow(n)) };
    match w {
        (Some(p), Some(e)) if e != 0 => {
            let (p, e) = if e < 0 { (-p, -e) } else { (p, e) };
            if p.abs() > i64::MAX as i128 || e > i64::MAX as i128 { allow_panic(); }
            let q = r.powi(k as i32);
            check(q.num() as i128 == p && q.denom() as i128 == e, "exact value");
            reach("end");
        }
        _ => {
            expect_panic(true);
            out("r", r.powi(k as i32).num() as u64);
        }
    }
}
/// integers over the whole range: exact or rejected
#[no_mangle] pub extern "C" fn c07_int() {
    let (x, y) = (input("x", 64) as i64, input("y", 64) as i64);
    assume(x != i64::MIN && y != i64::MIN);
    let (a, b) = (Ratio::int(x), Ratio::int(y));
    check(a.num() == x && a.denom() == 1, "int");
    check(a == Ratio::new(x, 1), "int is new(x, 1)");
    check((a == b) == (x == y), "equality of integers");
    let n = a.neg();
    check(n.num() == -x && n.denom() == 1, "negation");
    reach("end");
}
macro_rules! whole {
    ($($name:ident $f:ident $ck:ident;)*) => { $(
        #[no_mangle] pub extern "C" fn $name() {
            let (x, y) = (input("x", 64) as i64, input("y", 64) as i64);
            assume(x != i64::MIN && y != i64::MIN);
            let (a, b) = (Ratio::int(x), Ratio::int(y));
            let w = x.$ck(y);
            if branch(w.is_none()) {
                expect_panic(true);
                let r = a.$f(b);
                out("r", r.num() as u64);
            } else {
                let w = w.unwrap();
                if w == i64::MIN { allow_panic(); }
                let r = a.$f(b);
                check(r.num() == w && r.denom() == 1, "exact value");
                reach("end");
            }
        }
    )* };
}
whole! { c07_int_add add checked_add; c07_int_sub sub checked_sub; }
#[no_mangle] pub extern "C" fn c07_int_mul() {
    // one factor of 32 bits, so that the solver decides the overflow of the product
    let (x, y) = (input("x", 64) as i64, input("y", 8) as i8 as i64);
    assume(x != i64::MIN);
    let (a, b) = (Ratio::int(x), Ratio::int(y));
    let w = x.checked_mul(y);
    if branch(w.is_none()) {
        expect_panic(true);
        out("r", Ratio::mul(a, b).num() as u64);
    } else {
        let w = w.unwrap();
        if w == i64::MIN { allow_panic(); }
        let r = Ratio::mul(a, b);
        check(r.num() == w && r.denom() == 1, "exact value");
        reach("end");
    }
}
/// the smallest integer, which has no opposite
#[no_mangle] pub extern "C" fn c07_min() {
    let k = pick(input("k", 4));
    let y = input("y", 8) as i8 as i64;
    let m = Ratio::int(i64::MIN);
    check(m.num() == i64::MIN && m.denom() == 1, "int");
    let out_ = |r: Ratio| { expect_panic(true); out("r", r.num() as u64 ^ r.denom() as u64); };
    // what has no value must not get one
    match k {
        0 => { expect_panic(true); out_(m.neg()); }
        1 => { expect_panic(true); out_(core::ops::Neg::neg(m)); }
        2 => { expect_panic(true); out_(Ratio::mul(m, Ratio::int(-1))); }
        3 => { expect_panic(true); out_(m.div(Ratio::int(-1))); }
        4 => { expect_panic(true); out_(Ratio::int(0).sub(m)); }
        5 => { expect_panic(true); out_(Ratio::int(1).div(m)); }
        6 => { expect_panic(true); out_(Ratio::new(i64::MIN, -1)); }
        7 => { expect_panic(true); out_(m.powi(2)); }
        8 => { expect_panic(true); out_(m.add(Ratio::int(-1))); }
        9 => { assume(y >= 0); let r = m.add(Ratio::int(y)); check(r.num() == i64::MIN + y && r.denom() == 1, "sum"); reach("end"); }
        10 => { allow_panic(); let r = m.sub(m); check(r.num() == 0 && r.denom() == 1, "difference"); let r = m.div(m); check(r.num() == 1 && r.denom() == 1, "quotient"); }
        11 => { let r = Ratio::new(i64::MIN, 2); check(r.num() == i64::MIN / 2 && r.denom() == 1, "lowest terms"); let r = Ratio::new(i64::MIN, 3); check(r.num() == i64::MIN && r.denom() == 3, "lowest terms"); }
        12 => { check((m == Ratio::int(y)) == false, "equality"); check(m == Ratio::int(i64::MIN), "equality"); }
        13 => { let r = m.powi(1); check(r.num() == i64::MIN && r.denom() == 1, "power"); let r = m.powi(0); check(r.num() == 1 && r.denom() == 1, "power"); }
        _ => {}
    }
}
/// large coprime denominators: the sum does not fit and must not become something else
#[no_mangle] pub extern "C" fn c07_large() {
    let (x, y) = (pick(input("x", 2)) as i64 + 1, pick(input("y", 2)) as i64 + 1);
    let (p, q) = (4_294_967_291i64, 4_294_967_279i64);
    let (a, b) = (Ratio::new(x, p), Ratio::new(y, q));
    check(a.num() == x && a.denom() == p, "large denominator");
    let s = Ratio::new(x, p).add(Ratio::new(y, p));
    check(s.num() == x + y && s.denom() == p, "same large denominator");
    reach("end");
    expect_panic(true);
    out("r", a.add(b).num() as u64);
}
#[no_mangle] pub extern "C" fn c07_trait() {
    let x = input("x", 32) as i32;
    let r = Ratio::from_int(x);
    check(r.num() == x as i64 && r.denom() == 1, "from_int");
    let o = <Ratio as DimensionExponent>::one();
    let z = <Ratio as DimensionExponent>::zero();
    check(o.num() == 1 && o.denom() == 1, "one");
    check(z.num() == 0 && z.denom() == 1, "zero");
    check(Ratio::new(0, signed("d", 6) | 1) == z, "every zero is the same exponent");
    reach("end");
}
