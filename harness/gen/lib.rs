#![allow(incomplete_features, dead_code, unused_imports, unused_variables, unused_macros, non_upper_case_globals, static_mut_refs, uncommon_codepoints, mixed_script_confusables, confusable_idents)]
#![feature(generic_const_exprs, adt_const_params)]
//! Generated unit systems, expanded by the real macro: every row of a table is one generated name, the row is symbolic.
#[path = "sx.rs"]
pub mod sx;
use sx::*;

pub struct Show;
impl core::fmt::Display for Show { fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { f.write_str("X") } }

/// the exponents of a dimension as fractions, read off its memory: the word that a base unit changes is the numerator
macro_rules! helpers {
    ($nb:literal) => {
        pub const W: usize = core::mem::size_of::<Dimension>() / 8;
        const PER: usize = W / $nb;
        pub const fn words(d: Dimension) -> [i64; W] { unsafe { core::mem::transmute::<Dimension, [i64; W]>(d) } }
        pub const fn udim<const D: Dimension, const F: Magnitude>(_: Unit<D, F>) -> [i64; W] { words(D) }
        pub const fn qdim<S, const D: Dimension>(_: fn(Quantity<S, D>)) -> [i64; W] { words(D) }
        pub fn pd<T>(_: T) {}
        pub fn fac<const D: Dimension, const F: Magnitude>(_: Unit<D, F>) -> f64 { F.into_f64() }
        fn dim_ok(got: &[i64; W], num: &[i64; $nb], den: &[i64; $nb]) -> bool {
            const NONE: [i64; W] = words(Dimension::none());
            let mut ok = true;
            let mut b = 0;
            while b < $nb {
                // the word of this base dimension
                let mut p = W;
                let mut w = 0;
                while w < W { if BASES[b][w] != NONE[w] { p = w; } w += 1; }
                check(p < W, "base dimensions are distinct");
                ok &= got[p] == num[b];
                ok &= if PER == 2 { got[p ^ 1] == den[b] } else { den[b] == 1 };
                b += 1;
            }
            ok
        }
        pub fn units<const N: usize>(got: &[[i64; W]; N], num: &[[i64; $nb]; N], den: &[[i64; $nb]; N], f: &[f64; N], lo: &[u64; N], hi: &[u64; N]) {
            let i = input("row", 16) as usize;
            assume(i < N);
            check(dim_ok(&got[i], &num[i], &den[i]), "dimension");
            let b = f[i].to_bits();
            check(lo[i] <= b && b <= hi[i], "factor");
            reach("end");
        }
        pub fn dims<const N: usize>(got: &[[i64; W]; N], num: &[[i64; $nb]; N], den: &[[i64; $nb]; N]) {
            let i = input("row", 16) as usize;
            assume(i < N);
            check(dim_ok(&got[i], &num[i], &den[i]), "dimension");
            reach("end");
        }
        fn debug<const D: Dimension>(_: fn(Quantity<Show, D>), want: &[&str]) {
            let got = format!("{:?}", Quantity::<Show, D>::new_unchecked(Show));
            let mut ok = false;
            for w in want { ok |= got.as_str() == *w; }
            check(ok, "debug");
            reach("end");
        }
        fn symbol<const D: Dimension, const F: Magnitude>(unit: Unit<D, F>, sym: &str, lo: u64, hi: u64) {
            use serde::de::{value::{Error, StrDeserializer}, Deserialize, IntoDeserializer};
            let x = f64::from_bits(input("x", 64));
            let mut s = if symbolic() { ftoken("12345.678", x); String::from("12345.678") } else { format!("{:?}", x) };
            s.push(' ');
            s.push_str(sym);
            let de: StrDeserializer<Error> = s.as_str().into_deserializer();
            let q = Quantity::<f64, D>::deserialize(de);
            check(q.is_ok(), "symbol accepted");
            let b = F.into_f64().to_bits();
            check(lo <= b && b <= hi, "symbol: factor of the unit");
            if let Ok(q) = q { check(same64(q.value_unchecked(), x * F.into_f64()), "symbol: value"); }
            reach("end");
        }
        fn roundtrip<const D: Dimension>(_: fn(Quantity<f64, D>)) {
            use serde::de::{value::{Error, StrDeserializer}, Deserialize, IntoDeserializer};
            let x = f64::from_bits(input("x", 64));
            let text = format!("{}", crate::Ser(&Quantity::<f64, D>::new_unchecked(x)));
            let de: StrDeserializer<Error> = text.as_str().into_deserializer();
            let q = Quantity::<f64, D>::deserialize(de);
            check(q.is_ok(), "what was written is read");
            if let Ok(q) = q { check(same64(q.value_unchecked(), x), "the value comes back"); }
            reach("end");
        }
    };
}
/// Serialize into a string through serde's own Serializer for formatters.
pub struct Ser<'a, T>(pub &'a T);
impl<'a, T: serde::Serialize> core::fmt::Display for Ser<'a, T> {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { self.0.serialize(f) }
}
pub fn row(n: usize) -> usize {
    let i = input("row", 16) as usize;
    assume(i < n);
    i
}
include!("systems.rs");
