#![allow(incomplete_features, dead_code, unused_imports, unused_variables, non_upper_case_globals, static_mut_refs)]
#![feature(generic_const_exprs, adt_const_params)]
#[path = "sx.rs"]
pub mod sx;
use core::marker::PhantomData;
use diman::si::{constants as k, dimensions as d, units as u, Dimension, Magnitude, Quantity, Unit};
use sx::*;

const W: usize = core::mem::size_of::<Dimension>() / 8;
const fn words(d: Dimension) -> [i64; W] { unsafe { core::mem::transmute::<Dimension, [i64; W]>(d) } }
const fn udim<const D: Dimension, const F: Magnitude>(_: Unit<D, F>) -> [i64; W] { words(D) }
fn pd<T>(_: T) {}
const fn qdim<S, const D: Dimension>(_: fn(Quantity<S, D>)) -> [i64; W] { words(D) }
fn fac<const D: Dimension, const F: Magnitude>(_: Unit<D, F>) -> f64 { F.into_f64() }

fn index(n: usize) -> usize {
    let i = input("row", 16) as usize;
    assume(i < n);
    i
}
/// A dimension is a combination of those of the base units: word by word, the offset from the dimensionless one.
fn dim_ok(got: &[i64; W], want: &[i64; 7]) -> bool {
    let mut ok = true;
    for w in 0..W {
        let mut x = NONE[w];
        for b in 0..7 { x = x.wrapping_add(want[b].wrapping_mul(BASES[b][w].wrapping_sub(NONE[w]))); }
        ok &= x == got[w];
    }
    ok
}
fn units<const N: usize>(got: &[[i64; W]; N], want: &[[i64; 7]; N], f: &[f64; N], lo: &[u64; N], hi: &[u64; N]) {
    let i = index(N);
    check(dim_ok(&got[i], &want[i]), "dimension");
    let b = f[i].to_bits();
    check(lo[i] <= b && b <= hi[i], "factor");
    reach("end");
}
fn dims<const N: usize>(got: &[[i64; W]; N], want: &[[i64; 7]; N]) {
    let i = index(N);
    check(dim_ok(&got[i], &want[i]), "dimension");
    reach("end");
}
fn symbol<const D: Dimension, const F: Magnitude>(unit: Unit<D, F>, sym: &str, lo: u64, hi: u64) {
    use serde::de::{value::{Error, StrDeserializer}, Deserialize, IntoDeserializer};
    let x = f64::from_bits(input("x", 64));
    let mut s = if symbolic() { ftoken("12345.678", x); String::from("12345.678") } else { format!("{:?}", x) };
    s.push(' ');
    s.push_str(sym);
    let de: StrDeserializer<Error> = s.as_str().into_deserializer();
    if let Ok(q) = Quantity::<f64, D>::deserialize(de) {
        // a symbol of the table stands for the unit of the table
        check(same64(q.value_unchecked(), x * F.into_f64()), "symbol: factor");
        reach("known");
    } else {
        // the crate does not have this symbol, or it has and means something else
        symbol_absent(sym);
        reach("unknown symbol");
    }
}
/// no unit has this symbol: deserializing says so
fn symbol_absent(sym: &str) {
    use serde::de::{value::{Error, StrDeserializer}, Deserialize, IntoDeserializer};
    let mut s = String::from("1 ");
    s.push_str(sym);
    let de: StrDeserializer<Error> = s.as_str().into_deserializer();
    let e = match Quantity::<f64, { Dimension::none() }>::deserialize(de) { Err(e) => format!("{e}"), Ok(_) => String::from("dimensionless") };
    check(e.contains("unknown unit"), "symbol: dimension");
}
include!("tables.rs");
