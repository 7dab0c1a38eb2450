//! C15: exactly the well-formed quantities of the right dimension deserialize, to the right value.
use crate::sa::probe;
use crate::sa::{Dimension, Quantity};
use crate::sx::*;
use crate::util::*;
use serde::de::{value::Error, Deserialize, IntoDeserializer};

/// Units of the system: exponents of length, time, mass, and the binary logarithm of the factor.
const UNITS: [(&str, [i64; 3], i64); 9] = [
    ("m", [1, 0, 0], 0), ("s", [0, 1, 0], 0), ("kg", [0, 0, 1], 0), ("B", [1, 0, 0], 12), ("h", [0, 1, 0], -6),
    ("z", [1, -1, 0], 0), ("N", [1, -2, 1], 0), ("Ω", [-1, 2, 0], 6), ("pc", [0, 0, 0], -3),
];
#[derive(Clone, Copy)]
struct Frac(i64, i64);
fn add(a: Frac, b: Frac) -> Frac { norm(a.0 * b.1 + b.0 * a.1, a.1 * b.1) }
fn times(a: Frac, n: i64) -> Frac { norm(a.0 * n, a.1) }
fn norm(n: i64, d: i64) -> Frac { let (a, b) = lowest(n, d); Frac(a, b) }
fn digits(b: &[u8]) -> Option<i64> {
    if b.is_empty() { return None; }
    let mut v = 0i64;
    for &c in b {
        if !branch((c >= b'0') & (c <= b'9')) { return None; }
        v = v * 10 + (c - b'0') as i64;
        if branch(v > 1 << 33) { v = 1 << 33; }
    }
    Some(v)
}
fn signed(b: &[u8]) -> Option<i64> {
    let (neg, r) = match b.first() {
        Some(&c) if branch(c == b'-') => (true, &b[1..]),
        Some(&c) if branch(c == b'+') => (false, &b[1..]),
        _ => (false, b),
    };
    let v = digits(r)?;
    if branch(v > i32::MAX as i64 + neg as i64) { return None; }
    Some(pick((if neg { -v } else { v }) as u64) as i64)
}
/// n, or n/d with rational exponents
fn exponent(b: &[u8]) -> Option<Frac> {
    #[cfg(feature = "rational")]
    for i in 0..b.len() {
        if branch(b[i] == b'/') {
            let n = signed(&b[..i])?;
            let mut t = &b[i + 1..];
            if !t.is_empty() && branch(t[0] == b'+') { t = &t[1..]; }
            let d = pick(digits(t)? as u64) as i64;
            if d == 0 || d > u32::MAX as i64 { return None; }
            return Some(norm(n, d));
        }
    }
    Some(Frac(signed(b)?, 1))
}
fn space(c: u8) -> bool { branch((c == b' ') | ((c >= 9) & (c <= 13))) }
fn is(b: &[u8], s: &str) -> bool {
    if b.len() != s.len() { return false; }
    let mut ok = true;
    for (x, y) in b.iter().zip(s.bytes()) { ok &= *x == y; }
    branch(ok)
}
/// The units of a well-formed text: their dimension and the logarithm of their factor.
pub fn units(b: &[u8]) -> Option<([Frac; 3], Frac, bool)> {
    let mut dim = [Frac(0, 1); 3];
    let mut log = Frac(0, 1);
    let mut exact = true;
    let mut i = 0;
    while i < b.len() {
        if space(b[i]) { i += 1; continue; }
        let from = i;
        while i < b.len() && !space(b[i]) { i += 1; }
        let t = &b[from..i];
        let mut hat = None;
        for (k, &c) in t.iter().enumerate() {
            if branch(c == b'^') {
                if hat.is_some() { return None; }
                hat = Some(k);
            }
        }
        let (sym, e) = match hat { None => (t, Frac(1, 1)), Some(k) => (&t[..k], exponent(&t[k + 1..])?) };
        let u = UNITS.iter().find(|u| is(sym, u.0))?;
        for k in 0..3 { dim[k] = add(dim[k], times(e, u.1[k])); }
        let l = times(e, u.2);
        exact &= l.1 == 1 && l.0.abs() < 500;
        log = add(log, l);
    }
    Some((dim, log, exact))
}
fn pow2(n: i64) -> f64 { f64::from_bits(((1023 + n) as u64) << 52) }

pub trait Num: St { fn scaled(self, f: f64) -> Self; fn text(self) -> String; }
impl Num for f64 { fn scaled(self, f: f64) -> f64 { self * f } fn text(self) -> String { number(self) } }
impl Num for f32 { fn scaled(self, f: f64) -> f32 { self * f as f32 } fn text(self) -> String { format!("{}", self) } }
impl Num for glam::Vec2 { fn scaled(self, f: f64) -> Self { glam::Vec2::new(self.x * f as f32, self.y * f as f32) } fn text(self) -> String { format!("({} {})", self.x, self.y) } }
impl Num for glam::DVec3 { fn scaled(self, f: f64) -> Self { glam::DVec3::new(self.x * f, self.y * f, self.z * f) } fn text(self) -> String { format!("({} {}   {})", self.x, self.y, self.z) } }

/// number, then text made of `b`: accepted exactly if `b` is units of the dimension l, t, m (over d)
#[inline(never)]
fn judge<S: Num, const D: Dimension>(x: S, before: &str, b: &[u8], want: [i64; 4], value: bool)
where Quantity<S, D>: for<'a> Deserialize<'a> {
    let mut s = String::from(before);
    s.push_str(&x.text());
    s.push_str(unsafe { core::str::from_utf8_unchecked(b) });
    let got = de::<Quantity<S, D>>(&s);
    match units(b) {
        Some((dim, log, exact)) => {
            let mut same = true;
            for k in 0..3 { let w = norm(want[k], want[3]); same &= dim[k].0 == w.0 && dim[k].1 == w.1; }
            if same {
                match got {
                    Ok(q) => {
                        if value && exact { check(S::same(probe::raw(&q), x.scaled(pow2(log.0))), "value"); }
                        reach("accepted");
                    }
                    Err(_) => check(false, "a well-formed quantity is accepted"),
                }
            } else {
                check(got.is_err(), "another dimension is rejected");
                reach("dimension");
            }
        }
        None => {
            check(got.is_err(), "malformed units are rejected");
            reach("malformed");
        }
    }
    reach("end");
}
fn one_of(b: u8, set: &str) { let mut ok = false; for c in set.bytes() { ok |= b == c; } assume(ok); }
/// n symbolic bytes over an alphabet
fn bytes<const N: usize>(set: &str) -> [u8; N] {
    let mut o = [0u8; N];
    let names = ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "d0", "d1", "d2", "d3"];
    for i in 0..N { o[i] = input(names[i], 8) as u8; one_of(o[i], set); }
    // digits end up in powers: each on a path of its own
    for i in 0..N { if branch((o[i] >= b'0') & (o[i] <= b'9')) { o[i] = pick(o[i] as u64) as u8; } }
    o
}
fn symbolic_digits<const N: usize>() -> [u8; N] {
    let mut o = [0u8; N];
    let names = ["c0", "c1", "c2", "c3", "c4", "c5", "c6", "c7", "c8", "c9", "d0", "d1", "d2", "d3"];
    for i in 0..N { o[i] = input(names[i], 8) as u8; assume((o[i] >= b'0') & (o[i] <= b'9')); }
    o
}
const NONE: [i64; 4] = [0, 0, 0, 1];
macro_rules! raw {
    ($($name:ident $S:ident $n:literal $set:literal ($l:expr, $t:expr, $m:expr);)*) => { $(
        #[no_mangle] pub extern "C" fn $name() {
            let b = bytes::<$n>($set);
            // what follows the number does not continue it
            assume(!((b[0] >= b'0') & (b[0] <= b'9')) & (b[0] != b'.') & (b[0] != b'e'));
            let x = <$S as St>::inp("a");
            if b[0] == b' ' || b[0] == b'\t' { judge::<$S, { probe::dim($l, $t, $m, 1) }>(x, "", &b, [$l, $t, $m, 1], true); }
            else {
                // glued to the number: no number any more
                let mut s = x.text();
                s.push_str(unsafe { core::str::from_utf8_unchecked(&b) });
                check(de::<Quantity<$S, { probe::dim($l, $t, $m, 1) }>>(&s).is_err(), "text glued to the number is rejected");
                reach("glued");
                reach("end");
            }
        }
    )* };
}
raw! {
    c15_raw_2 f64 2 " \tmskgBhzN^-+/120.e" (1, 0, 0);
    c15_raw_3 f64 3 " \tmskgBhzN^-+/120.e" (0, 1, 0);
    c15_raw_4 f64 4 " \tmsB^-/12" (1, 0, 0);
    c15_raw_5 f64 5 " ms^-1" (2, 0, 0);
    c15_raw_5b f64 5 " ph^-+c/2" (0, -2, 0);
    c15_raw_4f f32 4 " \tzN^-2" (1, -1, 0);
}
#[no_mangle] pub extern "C" fn c15_raw_6() {
    let b = bytes::<6>(" m^-12");
    assume(b[0] == b' ');
    judge::<f64, { probe::dim(-2, 0, 0, 1) }>(f64::inp("a"), "", &b, [-2, 0, 0, 1], true);
}
#[no_mangle] pub extern "C" fn c15_t_raw_7() {
    let b = bytes::<7>(" ms^-2");
    assume(b[0] == b' ');
    judge::<f64, { probe::dim(1, -2, 0, 1) }>(f64::inp("a"), "", &b, [1, -2, 0, 1], true);
}
#[no_mangle] pub extern "C" fn c15_t_raw_5() {
    let b = bytes::<5>(" \tmskgBhzN^-+/120.e");
    assume(b[0] == b' ');
    judge::<f64, { probe::dim(1, 0, 0, 1) }>(f64::inp("a"), "", &b, [1, 0, 0, 1], true);
}
/// one unit with an exponent of sign and up to three digits
macro_rules! power {
    ($($name:ident $S:ident $sym:literal ($l:expr, $t:expr, $m:expr);)*) => { $(
        #[no_mangle] pub extern "C" fn $name() {
            let x = <$S as St>::inp("a");
            let n = pick(input("digits", 2)) as usize;
            let sign = pick(input("sign", 2)) as usize;
            assume(n <= param("digits", 2) as usize);
            let d = [input("c0", 8) as u8, input("c1", 8) as u8, input("c2", 8) as u8];
            let mut d: [u8; 3] = d;
            for i in 0..3 { assume((d[i] >= b'0') & (d[i] <= b'9')); if i < n { d[i] = pick(d[i] as u64) as u8; } }
            let mut b = Vec::from(concat!(" ", $sym, "^").as_bytes());
            if sign < 2 { b.push(b"-+"[sign]); }
            b.extend_from_slice(&d[..n]);
            if sign == 3 { b.push(b' '); }
            judge::<$S, { probe::dim($l, $t, $m, 1) }>(x, "", &b, [$l, $t, $m, 1], true);
        }
    )* };
}
power! {
    c15_power_m f64 "m" (3, 0, 0);
    c15_power_B f64 "B" (-2, 0, 0);
    c15_power_B38 f64 "B" (38, 0, 0);
    c15_power_N f32 "N" (-12, 24, -12);
    c15_power_Om f64 "Ω" (-11, 22, 0);
    c15_power_pc f32 "pc" (0, 0, 0);
}
/// exponents at the limits of their type and beyond them
macro_rules! long {
    ($($name:ident $before:literal $n:literal $after:literal $e:expr;)*) => { $(
        #[no_mangle] pub extern "C" fn $name() {
            let d = bytes::<$n>("0123456789");
            let mut b = Vec::from(concat!(" m^", $before).as_bytes());
            b.extend_from_slice(&d);
            b.extend_from_slice($after.as_bytes());
            judge::<f64, { probe::dim($e, 0, 0, 1) }>(1.0, "", &b, [$e, 0, 0, 1], true);
        }
    )* };
}
long! {
    c15_long_limit "21474836" 2 "" 2147483647;
    c15_long_negative_limit "-21474836" 2 "" -2147483648;
    c15_long_beyond "21474836" 3 "" 47;
    c15_long_leading "21474" 2 "647" 2147483647;
    c15_long_top "" 2 "47483647" 3;
    c15_long_zeros "00000000000" 2 "" 17;
    c15_long_negative_zeros "-00000000000" 2 "" -17;
    c15_long_wrap "42949672" 3 "" 1;
    c15_long_wrap_negative "-42949672" 2 "" 4;
    c15_long_wide "184467440737095516" 2 "" 2;
    c15_long_wider "1844674407370955161" 2 "" 1;
    c15_long_plus "+21474836" 2 "" -3;
}
#[cfg(feature = "rational")]
long! {
    c15_long_denominator "2147483646/2147483" 3 "" 1;
    c15_long_denominator_u32 "4/42949672" 2 "" 0;
    c15_long_denominator_wrap "8/42949672" 2 "" 2;
    c15_long_numerator "21474836" 2 "/1" 2147483647;
    c15_long_halves "21474836" 2 "/2" 1073741823;
}

/// two and three units with symbols, exponents and separators chosen freely
fn term(names: (&str, &str), b: &mut Vec<u8>) {
    let syms = ["m", "s", "kg", "B", "h", "z", "N", "Ω", "pc", "x", "k", "mm"];
    let exps = ["", "^2", "^3", "^-1", "^-2", "^+1", "^0", "^", "^-", "^1.0", "^2^1"];
    let i = pick(input(names.0, 4)) as usize;
    let j = pick(input(names.1, 4)) as usize;
    assume(i < syms.len() && j < exps.len());
    b.extend_from_slice(syms[i].as_bytes());
    b.extend_from_slice(exps[j].as_bytes());
}
macro_rules! two {
    ($($name:ident $S:ty, $before:literal $sep:literal $between:literal $after:literal ($l:expr, $t:expr, $m:expr);)*) => { $(
        #[no_mangle] pub extern "C" fn $name() {
            let x = <$S as St>::inp("a");
            let mut b = Vec::from($sep.as_bytes());
            term(("sym1", "exp1"), &mut b);
            b.extend_from_slice($between.as_bytes());
            term(("sym2", "exp2"), &mut b);
            b.extend_from_slice($after.as_bytes());
            judge::<$S, { probe::dim($l, $t, $m, 1) }>(x, $before, &b, [$l, $t, $m, 1], true);
        }
    )* };
}
two! {
    c15_two_velocity f64, "" " " " " "" (1, -1, 0);
    c15_two_none f64, " " "  " "\t" " " (0, 0, 0);
    c15_two_force f32, "\t" " " "  " "\n" (2, -2, 1);
    c15_two_vec2 glam::Vec2, "" " " " " "" (1, -1, 0);
    c15_two_dvec3 glam::DVec3, "  " " " "\t" "  " (0, 0, 0);
}
#[no_mangle] pub extern "C" fn c15_three() {
    let x = f64::inp("a");
    let mut b = Vec::from(" ".as_bytes());
    let syms = ["m", "s", "B", "z", "kg"];
    let exps = ["", "^2", "^-1", "^-3"];
    for (n, m) in [("sym1", "exp1"), ("sym2", "exp2"), ("sym3", "exp3")] {
        let i = pick(input(n, 3)) as usize;
        let j = pick(input(m, 2)) as usize;
        assume(i < syms.len());
        b.extend_from_slice(syms[i].as_bytes());
        b.extend_from_slice(exps[j].as_bytes());
        b.push(b' ');
    }
    judge::<f64, { probe::dim(0, -1, 1, 1) }>(x, "", &b, [0, -1, 1, 1], true);
}
#[cfg(feature = "rational")]
mod rational {
    use super::*;
    /// n/d exponents
    #[no_mangle] pub extern "C" fn c15_ratio_B() {
        let x = f64::inp("a");
        let b = bytes::<3>("0123456789/-+");
        let mut t = Vec::from(" B^".as_bytes());
        t.extend_from_slice(&b);
        judge::<f64, { probe::dim(3, 0, 0, 2) }>(x, "", &t, [3, 0, 0, 2], true);
    }
    #[no_mangle] pub extern "C" fn c15_ratio_B4() {
        let x = f64::inp("a");
        let b = bytes::<4>("0123/-+");
        let mut t = Vec::from(" B^".as_bytes());
        t.extend_from_slice(&b);
        judge::<f64, { probe::dim(-3, 0, 0, 2) }>(x, "", &t, [-3, 0, 0, 2], true);
    }
    #[no_mangle] pub extern "C" fn c15_t_ratio_B4() {
        let x = f64::inp("a");
        let b = bytes::<4>("0123456789/-+");
        let mut t = Vec::from(" B^".as_bytes());
        t.extend_from_slice(&b);
        judge::<f64, { probe::dim(-5, 0, 0, 3) }>(x, "", &t, [-5, 0, 0, 3], true);
    }
    #[no_mangle] pub extern "C" fn c15_ratio_two() {
        let x = f64::inp("a");
        let exps = ["", "^1/2", "^-1/2", "^3/2", "^-1/3", "^2/6", "^2/4", "^1/0", "^1/-2", "^/2", "^1/", "^0/7", "^4/2"];
        let syms = ["m", "B", "h", "Ω"];
        let mut b = Vec::new();
        for (n, m) in [("sym1", "exp1"), ("sym2", "exp2")] {
            let i = pick(input(n, 2)) as usize;
            let j = pick(input(m, 4)) as usize;
            assume(j < exps.len());
            b.push(b' ');
            b.extend_from_slice(syms[i].as_bytes());
            b.extend_from_slice(exps[j].as_bytes());
        }
        judge::<f64, { probe::dim(1, 0, 0, 2) }>(x, "", &b, [1, 0, 0, 2], true);
    }
}

macro_rules! vecs {
    ($($name:ident $a:literal $bn:literal $c:literal;)*) => { $(
        #[no_mangle] pub extern "C" fn $name() {
            let (x, y) = (f32::inp("x"), f32::inp("y"));
            let all = bytes::<{ $a + $bn + $c }>("() m,");
            let (p, r) = all.split_at($a);
            let (q, r) = r.split_at($bn);
            let mut s = String::new();
            let st = |b: &[u8]| String::from(unsafe { core::str::from_utf8_unchecked(b) });
            s.push_str(&st(p));
            s.push_str(&x.text());
            s.push_str(&st(q));
            s.push_str(&y.text());
            s.push_str(&st(r));
            let got = de::<Quantity<glam::Vec2, { probe::dim(1, 0, 0, 1) }>>(&s);
            // '(' after optional space, nothing but space between, ')' after optional space, then units
            let mut ok = true;
            let mut i = 0;
            while i < p.len() && space(p[i]) { i += 1; }
            ok = ok && i < p.len() && branch(p[i] == b'(');
            i += 1;
            while ok && i < p.len() { ok = space(p[i]); i += 1; }
            ok = ok && !q.is_empty();
            for &c in q { ok = ok && space(c); }
            let mut i = 0;
            while ok && i < r.len() && space(r[i]) { i += 1; }
            ok = ok && i < r.len() && branch(r[i] == b')');
            let u = if ok { units(&r[i + 1..]) } else { None };
            let ok = match u { Some((d, _, _)) => (d[0].0, d[0].1) == (1, 1) && d[1].0 == 0 && d[2].0 == 0, None => false };
            match got {
                Ok(v) => {
                    check(ok, "a malformed vector is rejected");
                    check(<glam::Vec2 as St>::same(probe::raw(&v), glam::Vec2::new(x, y)), "vector");
                    reach("accepted");
                }
                Err(_) => { check(!ok, "a well-formed vector is accepted"); reach("rejected"); }
            }
            reach("end");
        }
    )* };
}
vecs! { c15_t_vec_334 3 3 4; c15_t_vec_425 4 2 5; c15_vec_323 3 2 3; c15_vec_125 1 2 5; c15_vec_333 3 3 3; c15_vec_113 1 1 3; c15_vec_213 2 1 3; c15_vec_124 1 2 4; c15_vec_223 2 2 3; c15_vec_014 0 1 4; c15_vec_110 1 1 0; }
/// the number of components
#[no_mangle] pub extern "C" fn c15_vec_count() {
    let n = pick(input("n", 3)) as usize;
    let mut s = String::from("(");
    for i in 0..n { if i > 0 { s.push(' '); } s.push_str(["1", "2", "-3", "4", "5", "6", "7", "8"][i]); }
    s.push_str(") m");
    let a = de::<Quantity<glam::Vec2, { probe::dim(1, 0, 0, 1) }>>(&s);
    let b = de::<Quantity<glam::DVec3, { probe::dim(1, 0, 0, 1) }>>(&s);
    let c = de::<Quantity<f64, { probe::dim(1, 0, 0, 1) }>>(&s);
    check(a.is_ok() == (n == 2), "two components");
    check(b.is_ok() == (n == 3), "three components");
    check(c.is_err(), "a vector is no number");
    if let Ok(q) = a { let v: glam::Vec2 = probe::raw(&q); check(v.x == 1.0 && v.y == 2.0, "components"); }
    if let Ok(q) = b { let v: glam::DVec3 = probe::raw(&q); check(v.x == 1.0 && v.y == 2.0 && v.z == -3.0, "components"); }
    check(de::<Quantity<glam::Vec2, { probe::dim(1, 0, 0, 1) }>>("1 m").is_err(), "a number is no vector");
    reach("end");
}
/// what is no number at all
#[no_mangle] pub extern "C" fn c15_no_number() {
    let t = ["", " ", "m", "m 1", "x", "- 1", "1..2", "--1", "1,5", "()", "m^2", "1e", "0x10", "^", "1_000", "Ω", "1Ω", "\u{2003}"];
    let i = pick(input("text", 5)) as usize;
    assume(i < t.len());
    check(de::<Quantity<f64, { probe::dim(0, 0, 0, 1) }>>(t[i]).is_err(), "no number");
    check(de::<Quantity<f32, { probe::dim(1, 0, 0, 1) }>>(t[i]).is_err(), "no number");
    check(de::<Quantity<f64, { probe::dim(2, 0, 0, 1) }>>(t[i]).is_err(), "no number");
    check(de::<Quantity<glam::Vec2, { probe::dim(0, 0, 0, 1) }>>(t[i]).is_err(), "no vector");
    check(de::<Quantity<glam::DVec3, { probe::dim(1, 0, 0, 1) }>>(t[i]).is_err(), "no vector");
    reach("end");
}
/// other whitespace, and numbers as the standard library reads them
#[no_mangle] pub extern "C" fn c15_spaces() {
    let sep = [" ", "\t", "\n", "\r\n", "   ", "\u{2003}", "\u{a0}", "\u{3000}", "\u{b}"];
    let i = pick(input("sep1", 4)) as usize;
    let j = pick(input("sep2", 4)) as usize;
    assume(i < sep.len() && j < sep.len());
    let x = f64::inp("a");
    let mut s = String::from(sep[j]);
    s.push_str(&x.text());
    s.push_str(sep[i]);
    s.push_str("B");
    s.push_str(sep[j]);
    s.push_str("z^-2");
    s.push_str(sep[i]);
    let q = de::<Quantity<f64, { probe::dim(-1, 2, 0, 1) }>>(&s);
    match q { Ok(q) => check(f64::same(probe::raw(&q), x * 4096.0), "value"), Err(_) => check(false, "whitespace separates") }
    let y = f32::inp("b");
    let mut s = String::from("(");
    s.push_str(sep[i]);
    s.push_str(&y.text());
    s.push_str(sep[j]);
    s.push_str("2");
    s.push_str(sep[i]);
    s.push_str(")");
    s.push_str(sep[j]);
    s.push_str("B");
    match de::<Quantity<glam::Vec2, { probe::dim(1, 0, 0, 1) }>>(&s) {
        Ok(q) => { let v: glam::Vec2 = probe::raw(&q); check(v.y == 8192.0 && f32::same(v.x, y * 4096.0), "value") }
        Err(_) => check(false, "whitespace separates"),
    }
    reach("end");
}
/// exponents at the ends of 32 and 64 bits: Some(logarithm of the factor), or not a quantity of that dimension
#[no_mangle] pub extern "C" fn c15_big() {
    const LARGE: i64 = 5000;
    let t: [(&str, Option<i64>); 18] = [
        (" m^3000000000 m^-2999999999", Some(0)), (" m^-3000000000 m^3000000001", Some(0)), (" m^2147483648 m^-2147483647", Some(0)),
        (" m^-2147483649 m^2147483650", Some(0)), (" m^9223372036854775807 m^-9223372036854775806", Some(0)),
        (" m^-9223372036854775808 m^9223372036854775807 m^2", Some(0)), (" m pc^3000000000", Some(-LARGE)), (" m pc^-3000000000", Some(LARGE)),
        (" m pc^400", Some(-LARGE)), (" m pc^-342", Some(LARGE)), (" m pc^0000000000000000000000", Some(0)), (" m^00000000000000000000001", Some(0)),
        (" m^4294967297", None), (" m^18446744073709551617", None), (" m^9223372036854775808", None), (" m^-9223372036854775809", None),
        (" m^340282366920938463463374607431768211457", None), (" m^4294967296 m", None),
    ];
    let i = pick(input("text", 5)) as usize;
    assume(i < t.len());
    let (u, log) = t[i];
    let x = f64::inp("a");
    let mut s = x.text();
    s.push_str(u);
    let a = de::<Quantity<f64, { probe::dim(1, 0, 0, 1) }>>(&s);
    let y = f32::inp("b");
    let mut s = String::from("(");
    s.push_str(&y.text());
    s.push_str(" 2)");
    s.push_str(u);
    let b = de::<Quantity<glam::Vec2, { probe::dim(1, 0, 0, 1) }>>(&s);
    check(a.is_ok() == log.is_some() && b.is_ok() == log.is_some(), "accepted with the right dimension only");
    if let (Ok(a), Ok(b), Some(l)) = (a, b, log) {
        let f = if l == LARGE { f64::INFINITY } else if l == -LARGE { 0.0 } else { 1.0 };
        check(f64::same(probe::raw(&a), x * f), "value");
        let v: glam::Vec2 = probe::raw(&b);
        check(f32::same(v.x, y * f as f32) && f32::same(v.y, 2.0 * f as f32), "components");
    }
    reach("end");
}
/// many units
#[no_mangle] pub extern "C" fn c15_many() {
    let n = pick(input("n", 5)) as i64;
    let x = f64::inp("a");
    let mut s = x.text();
    for _ in 0..n { s.push_str(" m pc z^-1"); }
    s.push_str(" m^");
    s.push_str(&(1 - n).to_string());
    s.push_str(" z^");
    s.push_str(&n.to_string());
    match de::<Quantity<f64, { probe::dim(1, 0, 0, 1) }>>(&s) {
        Ok(q) => check(f64::same(probe::raw(&q), x.scaled(pow2(-3 * n))), "value"),
        Err(_) => check(false, "any number of units"),
    }
    s.push_str(" m^0 s");
    check(de::<Quantity<f64, { probe::dim(1, 0, 0, 1) }>>(&s).is_err(), "the last one counts");
    check(de::<Quantity<f64, { probe::dim(1, 1, 0, 1) }>>(&s).is_ok(), "the last one counts");
    reach("end");
}
/// bare numbers of other types
#[no_mangle] pub extern "C" fn c15_bare() {
    use serde::de::value::*;
    let i = input("i", 64) as i64;
    let u = input("u", 64);
    let f = f64::inp("f");
    let g = f32::inp("g");
    let de1: I64Deserializer<Error> = i.into_deserializer();
    match Quantity::<f64, { probe::dim(0, 0, 0, 1) }>::deserialize(de1) { Ok(q) => check(f64::same(probe::raw(&q), i as f64), "i64"), Err(_) => check(false, "i64") }
    match Quantity::<f32, { probe::dim(0, 0, 0, 1) }>::deserialize(de1) { Ok(q) => check(f32::same(probe::raw(&q), i as f32), "i64"), Err(_) => check(false, "i64") }
    check(Quantity::<f64, { probe::dim(1, 0, 0, 1) }>::deserialize(de1).is_err(), "i64 with dimension");
    check(Quantity::<f32, { probe::dim(0, -1, 0, 1) }>::deserialize(de1).is_err(), "i64 with dimension");
    let de2: U64Deserializer<Error> = u.into_deserializer();
    match Quantity::<f64, { probe::dim(0, 0, 0, 1) }>::deserialize(de2) { Ok(q) => check(f64::same(probe::raw(&q), u as f64), "u64"), Err(_) => check(false, "u64") }
    match Quantity::<f32, { probe::dim(0, 0, 0, 1) }>::deserialize(de2) { Ok(q) => check(f32::same(probe::raw(&q), u as f32), "u64"), Err(_) => check(false, "u64") }
    check(Quantity::<f64, { probe::dim(0, 0, 1, 1) }>::deserialize(de2).is_err(), "u64 with dimension");
    check(Quantity::<f32, { probe::dim(1, -1, 0, 1) }>::deserialize(de2).is_err(), "u64 with dimension");
    let de3: F64Deserializer<Error> = f.into_deserializer();
    match Quantity::<f64, { probe::dim(0, 0, 0, 1) }>::deserialize(de3) { Ok(q) => check(f64::same(probe::raw(&q), f), "f64"), Err(_) => check(false, "f64") }
    match Quantity::<f32, { probe::dim(0, 0, 0, 1) }>::deserialize(de3) { Ok(q) => check(f32::same(probe::raw(&q), f as f32), "f64"), Err(_) => check(false, "f64") }
    check(Quantity::<f64, { probe::dim(0, 1, 0, 1) }>::deserialize(de3).is_err(), "f64 with dimension");
    check(Quantity::<f32, { probe::dim(2, 0, 0, 1) }>::deserialize(de3).is_err(), "f64 with dimension");
    let de4: F32Deserializer<Error> = g.into_deserializer();
    match Quantity::<f64, { probe::dim(0, 0, 0, 1) }>::deserialize(de4) { Ok(q) => check(f64::same(probe::raw(&q), g as f64), "f32"), Err(_) => check(false, "f32") }
    check(Quantity::<f64, { probe::dim(0, 1, 0, 1) }>::deserialize(de4).is_err(), "f32 with dimension");
    let de5: BoolDeserializer<Error> = true.into_deserializer();
    check(Quantity::<f64, { probe::dim(0, 0, 0, 1) }>::deserialize(de5).is_err(), "bool");
    let de6: UnitDeserializer<Error> = ().into_deserializer();
    check(Quantity::<f64, { probe::dim(0, 0, 0, 1) }>::deserialize(de6).is_err(), "unit");
    check(Quantity::<glam::Vec2, { probe::dim(0, 0, 0, 1) }>::deserialize(de1).is_err(), "a number is no vector");
    reach("end");
}
/// decimal texts that take the whole text to read: a number is the nearest one to its text
#[no_mangle] pub extern "C" fn c15_hard() {
    let t: [(&str, u32, u64); 30] = [
        ("2.51089012622833252", 0x4020b26d, 0x4004164d90000000),
        ("0.8708935081958771", 0x3f5ef2e1, 0x3febde5c10000000),
        ("10.86828374862670898", 0x412de47d, 0x4025bc8fb0000000),
        ("1838.2782592773437", 0x44e5c8e7, 0x409cb91cf0000000),
        ("0.013206615578383207", 0x3c58608f, 0x3f8b0c11f0000000),
        ("16294453.499999999999998", 0x4b78a235, 0x416f1446b0000000),
        ("1977307327.9999999999998", 0x4eebb6a1, 0x41dd76d430000000),
        ("-2.51089012622833252", 0xc020b26d, 0xc004164d90000000),
        ("1e400", 0x7f800000, 0x7ff0000000000000),
        ("-1e400", 0xff800000, 0xfff0000000000000),
        ("1e-400", 0x00000000, 0x0000000000000000),
        ("-1e-400", 0x80000000, 0x8000000000000000),
        ("1e39", 0x7f800000, 0x48078287f49c4a1d),
        ("3.4028235677973366e38", 0x7f7fffff, 0x47effffff0000000),
        ("3.4028235677973365e38", 0x7f7fffff, 0x47effffff0000000),
        ("1e-45", 0x00000001, 0x3696d601ad376ab9),
        ("7.006492321624085e-46", 0x00000000, 0x3690000000000000),
        ("7.1e-46", 0x00000001, 0x369036aa2680f22c),
        ("4.9e-324", 0x00000000, 0x0000000000000001),
        ("2.4703282292062327e-324", 0x00000000, 0x0000000000000000),
        ("2.4703282292062328e-324", 0x00000000, 0x0000000000000001),
        ("+5", 0x40a00000, 0x4014000000000000),
        (".5", 0x3f000000, 0x3fe0000000000000),
        ("5.", 0x40a00000, 0x4014000000000000),
        ("1E5", 0x47c35000, 0x40f86a0000000000),
        ("2.2250738585072011e-308", 0x00000000, 0x000fffffffffffff),
        ("9007199254740993", 0x5a000000, 0x4340000000000000),
        ("16777217.0000000000000001", 0x4b800001, 0x4170000010000000),
        ("inf", 0x7f800000, 0x7ff0000000000000),
        ("-infinity", 0xff800000, 0xfff0000000000000),
    ];
    let i = pick(input("text", 5)) as usize;
    assume(i < t.len());
    let (n, bits, bits64) = t[i];
    let unit = pick(input("unit", 1)) == 1;
    let u = if unit { " m" } else { "" };
    let mut s = String::from(n);
    s.push_str(u);
    let mut v = String::from("(1 ");
    v.push_str(n);
    v.push_str(")");
    v.push_str(u);
    let mut w = String::from("(1 ");
    w.push_str(n);
    w.push_str(" 2)");
    w.push_str(u);
    let (a, b, c, d) = if unit {
        (de::<Quantity<f32, { probe::dim(1, 0, 0, 1) }>>(&s).map(|q| probe::raw(&q)).ok(), de::<Quantity<f64, { probe::dim(1, 0, 0, 1) }>>(&s).map(|q| probe::raw(&q)).ok(),
         de::<Quantity<glam::Vec2, { probe::dim(1, 0, 0, 1) }>>(&v).map(|q| probe::raw(&q)).ok(), de::<Quantity<glam::DVec3, { probe::dim(1, 0, 0, 1) }>>(&w).map(|q| probe::raw(&q)).ok())
    } else {
        (de::<Quantity<f32, { probe::dim(0, 0, 0, 1) }>>(&s).map(|q| probe::raw(&q)).ok(), de::<Quantity<f64, { probe::dim(0, 0, 0, 1) }>>(&s).map(|q| probe::raw(&q)).ok(),
         de::<Quantity<glam::Vec2, { probe::dim(0, 0, 0, 1) }>>(&v).map(|q| probe::raw(&q)).ok(), de::<Quantity<glam::DVec3, { probe::dim(0, 0, 0, 1) }>>(&w).map(|q| probe::raw(&q)).ok())
    };
    match a { Some(x) => check(f32::same(x, f32::from_bits(bits)), "f32"), None => check(false, "f32 accepted") }
    match b { Some(x) => check(f64::same(x, f64::from_bits(bits64)), "f64"), None => check(false, "f64 accepted") }
    match c { Some(x) => check(x.x == 1.0 && f32::same(x.y, f32::from_bits(bits)), "f32 component"), None => check(false, "f32 vector accepted") }
    match d { Some(x) => check(x.x == 1.0 && f64::same(x.y, f64::from_bits(bits64)) && x.z == 2.0, "f64 component"), None => check(false, "f64 vector accepted") }
    reach("end");
}
