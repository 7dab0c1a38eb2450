//! C19: random quantities are the storage type's samples.
use crate::sx::*;
use crate::{sa, sa::probe};
use rand::distributions::uniform::{SampleUniform, Uniform};
use rand::distributions::Distribution;
use rand::{Error, Rng, RngCore};

const N: usize = 3;
static NAMES: [&str; N] = ["draw0", "draw1", "draw2"];
/// What a generator gives out: the words are the solver's choice, the same for every copy of it.
#[derive(Clone)]
struct Gen { w: [u64; N], at: usize, kinds: u64, reference: bool }
impl Gen {
    fn new() -> Gen {
        let mut w = [0; N];
        for i in 0..N { w[i] = input(NAMES[i], 64); }
        Gen { w, at: 0, kinds: 0, reference: true }
    }
    fn next(&mut self, kind: u64) -> u64 {
        if self.at == N {
            // the numbers need more draws than the bound allows: outside it; the quantities may not need more
            if !self.reference { check(false, "no more draws than the number takes"); }
            stop();
        }
        self.kinds = self.kinds * 4 + kind;
        self.at += 1;
        self.w[self.at - 1]
    }
}
impl RngCore for Gen {
    fn next_u32(&mut self) -> u32 { self.next(1) as u32 }
    fn next_u64(&mut self) -> u64 { self.next(2) }
    fn fill_bytes(&mut self, dest: &mut [u8]) { for b in dest { *b = self.next(3) as u8; } }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> { self.fill_bytes(dest); Ok(()) }
}
trait Float: St + PartialOrd { fn at(i: usize, n: &str) -> Self; }
/// bounds from a table, so that the arithmetic behind them is concrete
static VALUES: [f64; 13] = [0.0, 1.0, -1.0, 2.5, 1.0000000000000002, -3.0e30, 1.0e-40, 5.0e-324, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1.7e308, -1.7e308];
impl Float for f64 { fn at(i: usize, _: &str) -> f64 { VALUES[i] } }
static VALUES32: [f32; 13] = [0.0, 1.0, -1.0, 2.5, 1.0000001, -3.0e30, 1.0e-40, 1.0e-45, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, 3.0e38, -3.0e38];
impl Float for f32 { fn at(i: usize, _: &str) -> f32 { VALUES32[i] } }
fn table<S: Float>() -> (S, S) {
    let i = pick(input("low", 4)) as usize;
    let j = pick(input("high", 4)) as usize;
    assume(i < 13 && j < 13);
    (S::at(i, ""), S::at(j, ""))
}
fn any<S: Float>() -> (S, S) { (S::inp("a"), S::inp("b")) }

#[derive(Clone, Copy)]
enum How { Uniform, Inclusive, Range, RangeInclusive, From, FromInclusive, Iter }
use How::*;
/// the sample, or the samples of an iterator combined with the order kept
#[inline(always)]
fn draw<X: SampleUniform + PartialOrd + Copy>(how: How, a: X, b: X, g: &mut Gen) -> [X; 2] {
    match how {
        Uniform => { let u = rand::distributions::Uniform::new(a, b); [u.sample(g), u.sample(g)] }
        Inclusive => { let u = rand::distributions::Uniform::new_inclusive(a, b); [u.sample(g), u.sample(g)] }
        Range => { let x = g.gen_range(a..b); [x, x] }
        RangeInclusive => { let x = g.gen_range(a..=b); [x, x] }
        From => { let u: rand::distributions::Uniform<X> = (a..b).into(); let x = u.sample(g); [x, x] }
        FromInclusive => { let u: rand::distributions::Uniform<X> = (a..=b).into(); let x = u.sample(g); [x, x] }
        Iter => { let u = rand::distributions::Uniform::new(&a, &b); let mut i = g.sample_iter(u); [i.next().unwrap(), i.next().unwrap()] }
    }
}
macro_rules! entries {
    ($($name:ident $rev:ident $S:ident $how:ident $b:ident ($l:expr, $t:expr, $m:expr);)*) => { $(
        // the number first: whenever it can be sampled so can the quantity, to the same result
        #[no_mangle] pub extern "C" fn $name() {
            let (a, b) = $b::<$S>();
            let mut g = Gen::new();
            let mut h = g.clone();
            h.reference = false;
            allow_panic();
            bound_loops(param("rounds", 4));
            let x = draw::<$S>($how, a, b, &mut g);
            bound_loops(0);
            forbid_panic();
            let q = draw($how, probe::mk::<_, { probe::dim($l, $t, $m, 1) }>(a), probe::mk(b), &mut h);
            check(<$S as St>::same(probe::raw(&q[0]), x[0]) & <$S as St>::same(probe::raw(&q[1]), x[1]), "sample");
            check(g.at == h.at && g.kinds == h.kinds, "draws");
            reach("end");
        }
        // the quantity first: whenever it can be sampled so can the number
        #[no_mangle] pub extern "C" fn $rev() {
            let (a, b) = $b::<$S>();
            let mut g = Gen::new();
            let mut h = g.clone();
            allow_panic();
            bound_loops(param("rounds", 4));
            let q = draw($how, probe::mk::<_, { probe::dim($l, $t, $m, 1) }>(a), probe::mk(b), &mut h);
            bound_loops(0);
            forbid_panic();
            g.reference = false;
            let x = draw::<$S>($how, a, b, &mut g);
            check(<$S as St>::same(probe::raw(&q[0]), x[0]) & <$S as St>::same(probe::raw(&q[1]), x[1]), "sample");
            check(g.at == h.at && g.kinds == h.kinds, "draws");
            reach("end");
        }
    )* };
}
entries! {
    c19_uniform_f64 c19_rev_uniform_f64 f64 Uniform any (1, 0, 0);
    c19_uniform_f32 c19_rev_uniform_f32 f32 Uniform any (1, -1, 0);
    c19_inclusive_f64 c19_rev_inclusive_f64 f64 Inclusive any (0, 0, 0);
    c19_inclusive_f32 c19_rev_inclusive_f32 f32 Inclusive any (1, 0, 0);
    c19_range_f64 c19_rev_range_f64 f64 Range any (1, 0, 0);
    c19_range_f32 c19_rev_range_f32 f32 Range any (0, 0, 0);
    c19_rangeincl_f64 c19_rev_rangeincl_f64 f64 RangeInclusive any (1, 0, 0);
    c19_rangeincl_f32 c19_rev_rangeincl_f32 f32 RangeInclusive any (-2, 0, 1);
    c19_from_f64 c19_rev_from_f64 f64 From any (1, 0, 0);
    c19_frominclusive_f32 c19_rev_frominclusive_f32 f32 FromInclusive any (1, 0, 0);
    c19_iter_f64 c19_rev_iter_f64 f64 Iter any (1, 0, 0);
    c19_table_uniform_f64 c19_rev_table_uniform_f64 f64 Uniform table (1, 0, 0);
    c19_table_uniform_f32 c19_rev_table_uniform_f32 f32 Uniform table (1, 0, 0);
    c19_table_inclusive_f64 c19_rev_table_inclusive_f64 f64 Inclusive table (1, 0, 0);
    c19_table_inclusive_f32 c19_rev_table_inclusive_f32 f32 Inclusive table (0, 0, 0);
    c19_table_range_f64 c19_rev_table_range_f64 f64 Range table (1, 0, 0);
    c19_table_range_f32 c19_rev_table_range_f32 f32 Range table (1, 0, 0);
    c19_table_rangeincl_f64 c19_rev_table_rangeincl_f64 f64 RangeInclusive table (1, 0, 0);
    c19_table_rangeincl_f32 c19_rev_table_rangeincl_f32 f32 RangeInclusive table (1, 0, 0);
}
