//! What the macro-layer harnesses share: running the macro's own passes on a text, putting symbolic numbers and
//! exponents in the place of placeholders, and reading the results.
use crate::sx::*;
use crate::types::expression::{BinaryOperator, Expr, Factor as EF};
use crate::types::{Constant, Definition, Defs, Dimension, Factor, One, Unit, Unresolved, UnresolvedTemplates};
use core::sync::atomic::Ordering::Relaxed;
use diman_lib::magnitude::Magnitude;
pub type Exp = crate::types::Exponent;

pub fn errors() -> usize { proc_macro2::fakepm::ERRORS.load(Relaxed) }
pub fn parse(t: &str) -> Option<UnresolvedTemplates> { syn::parse_str::<UnresolvedTemplates>(t).ok() }

/// exponent placeholders 3000+i and number placeholders 2000+i
#[derive(Default)]
pub struct Inj { pub exps: [Option<i64>; 8], pub nums: [Option<f64>; 8] }
#[cfg(not(feature = "rational-dimensions"))]
pub fn ex(i: i64) -> Exp { i }
#[cfg(feature = "rational-dimensions")]
pub fn ex(i: i64) -> Exp { Exp::int(i) }
impl Inj {
    fn exp(&self, e: &Exp) -> Exp {
        for i in 0..8 {
            if let Some(v) = self.exps[i] { if *e == ex(3000 + i as i64) { return ex(v); } if *e == ex(-3000 - i as i64) { return ex(-v); } }
        }
        *e
    }
    fn num(&self, m: &Magnitude) -> Magnitude {
        let f = m.into_f64();
        for i in 0..8 { if let Some(v) = self.nums[i] { if f == 2000.0 + i as f64 { return Magnitude::from_f64(v); } } }
        *m
    }
    fn expr<T: Clone>(&self, e: &Expr<Factor<T>, Exp>, f: &dyn Fn(&T) -> T) -> Expr<Factor<T>, Exp> {
        match e {
            Expr::Value(v) => Expr::Value(self.fac(v, f)),
            Expr::Binary(b) => Expr::Binary(BinaryOperator { lhs: Box::new(self.expr(&b.lhs, f)), rhs: self.fac(&b.rhs, f), operator: b.operator.clone() }),
        }
    }
    fn fac<T: Clone>(&self, e: &EF<Factor<T>, Exp>, f: &dyn Fn(&T) -> T) -> EF<Factor<T>, Exp> {
        match e {
            EF::Value(v) => EF::Value(Self::val(v, f)),
            EF::Power(v, x) => EF::Power(Self::val(v, f), self.exp(x)),
            EF::ParenExpr(x) => EF::ParenExpr(Box::new(self.expr(x, f))),
        }
    }
    fn val<T: Clone>(v: &Factor<T>, f: &dyn Fn(&T) -> T) -> Factor<T> {
        match v { Factor::Concrete(c) => Factor::Concrete(f(c)), Factor::Other(i) => Factor::Other(i.clone()) }
    }
    pub fn apply(&self, u: &mut UnresolvedTemplates) {
        for d in u.dimensions.iter_mut() {
            if let Definition::Expression(e) = &d.rhs { d.rhs = Definition::Expression(self.expr(e, &|x: &One| x.clone())); }
        }
        for d in u.units.iter_mut() {
            if let Definition::Expression(e) = &d.definition { d.definition = Definition::Expression(self.expr(e, &|m| self.num(m))); }
        }
        for d in u.constants.iter_mut() { d.rhs = self.expr(&d.rhs, &|m| self.num(m)); }
    }
}
/// Append the second system's statements to the first's.
pub fn merge(a: &mut UnresolvedTemplates, b: UnresolvedTemplates) {
    a.dimension_types.extend(b.dimension_types);
    a.quantity_types.extend(b.quantity_types);
    a.dimensions.extend(b.dimensions);
    a.units.extend(b.units);
    a.constants.extend(b.constants);
}
pub fn resolve(u: UnresolvedTemplates) -> Defs { u.expand_templates().resolve() }

/// A dimension over the base dimensions A, B, C and a factor.
#[derive(Clone, Copy)]
pub struct V { pub d: [i64; 3], pub f: f64 }
impl V {
    pub fn new(a: i64, b: i64, c: i64, f: f64) -> V { V { d: [a, b, c], f } }
    pub fn mul(self, o: V) -> V { V { d: [self.d[0] + o.d[0], self.d[1] + o.d[1], self.d[2] + o.d[2]], f: self.f * o.f } }
    pub fn div(self, o: V) -> V { V { d: [self.d[0] - o.d[0], self.d[1] - o.d[1], self.d[2] - o.d[2]], f: self.f / o.f } }
    pub fn pow(self, e: i64) -> V { V { d: [self.d[0] * e, self.d[1] * e, self.d[2] * e], f: powf(self.f, e) } }
}
#[cfg(not(feature = "rational-dimensions"))]
pub fn powf(x: f64, e: i64) -> f64 { x.powi(e as i32) }
#[cfg(feature = "rational-dimensions")]
pub fn powf(x: f64, e: i64) -> f64 { x.powf(e as f64 / 1.0) }

pub fn is(i: &proc_macro2::Ident, s: &str) -> bool { i.to_string() == s }
/// exponents of A, B, C (fields a, b, c); false if there is an unknown or repeated field
pub fn dims_are(b: &crate::dimension_math::BaseDimensions, want: [i64; 3]) -> bool {
    let mut seen = [0u32; 3];
    let mut ok = true;
    for (n, x) in b.fields() {
        let n = n.to_string();
        let i = match n.as_str() { "a" => 0, "b" => 1, "c" => 2, _ => return false };
        seen[i] += 1;
        ok &= *x == ex(want[i]);
    }
    for i in 0..3 {
        if seen[i] > 1 { return false; }
        if seen[i] == 0 { ok &= want[i] == 0; }
    }
    ok
}
pub fn unit<'a>(d: &'a Defs, n: &str) -> Option<&'a Unit> {
    let mut r = None;
    for u in d.units.iter() { if is(&u.name, n) { if r.is_some() { return None; } r = Some(u); } }
    r
}
pub fn constant<'a>(d: &'a Defs, n: &str) -> Option<&'a Constant> {
    let mut r = None;
    for u in d.constants.iter() { if is(&u.name, n) { if r.is_some() { return None; } r = Some(u); } }
    r
}
pub fn dimension<'a>(d: &'a Defs, n: &str) -> Option<&'a Dimension> {
    let mut r = None;
    for u in d.dimensions.iter() { if is(&u.name, n) { if r.is_some() { return None; } r = Some(u); } }
    r
}
/// a symbolic exponent; one of a few values where exponents are rational
pub fn exponent(n: &str) -> i64 {
    let bits = if cfg!(feature = "rational-dimensions") { param("rat_bits", 3) as u32 } else { param("exp_bits", 12) as u32 };
    let v = input(n, bits);
    let v = (v ^ (1 << (bits - 1))) as i64 - (1i64 << (bits - 1));
    if cfg!(feature = "rational-dimensions") && param("rat_pick", 0) == 1 { pick(v as u64) as i64 } else { v }
}
/// a symbolic positive finite factor
pub fn number(n: &str) -> f64 {
    if param("table", 0) == 1 {
        return [1.0, 0.5, 3.0, 1e-3, 7.25e10, 0.1, 1e18, 299792458.0][pick(input(n, 3)) as usize];
    }
    let f = f64::from_bits(input(n, 64));
    assume(f.is_finite());
    f
}

/// Symbolic names of min to max letters, each of a to z (and A to Z if upper).
pub fn letters(n: &str, min: u64, max: u64, upper: bool) -> String {
    let l = if min == max { min } else { let l = pick(input(&format!("{}.len", n), 3)); assume(l >= min && l <= max); l };
    let mut v: Vec<u8> = Vec::new();
    for i in 0..l {
        let b = input(&format!("{}.{}", n, i), 8) as u8;
        assume((b >= b'a' && b <= b'z') | (upper & (b >= b'A' && b <= b'Z')));
        v.push(b);
    }
    unsafe { String::from_utf8_unchecked(v) }
}
/// Put names in the place of placeholder identifiers.
#[derive(Default)]
pub struct Ren(pub Vec<(&'static str, String)>);
impl Ren {
    pub fn add(&mut self, from: &'static str, to: &str) { self.0.push((from, to.to_string())); }
    fn id(&self, i: &mut proc_macro2::Ident) {
        for (f, t) in &self.0 { if *i == **f { *i = proc_macro2::Ident::new(t, i.span()); return; } }
    }
    fn fac<T>(&self, e: &mut EF<Factor<T>, Exp>) {
        match e {
            EF::Value(Factor::Other(i)) | EF::Power(Factor::Other(i), _) => self.id(i),
            EF::ParenExpr(x) => self.expr(x),
            _ => {}
        }
    }
    fn expr<T>(&self, e: &mut Expr<Factor<T>, Exp>) {
        match e { Expr::Value(v) => self.fac(v), Expr::Binary(b) => { self.expr(&mut b.lhs); self.fac(&mut b.rhs) } }
    }
    pub fn apply(&self, u: &mut UnresolvedTemplates) {
        for d in u.dimensions.iter_mut() { self.id(&mut d.name); if let Definition::Expression(e) = &mut d.rhs { self.expr(e); } }
        for d in u.units.iter_mut() {
            self.id(&mut d.name);
            if let Some(s) = d.symbol.as_mut() { self.id(&mut s.0); }
            for a in d.aliases.iter_mut() { self.id(&mut a.name); }
            if let Some(a) = d.dimension_annotation.as_mut() { self.id(a); }
            match &mut d.definition { Definition::Base(b) => self.id(b), Definition::Expression(e) => self.expr(e) }
        }
        for d in u.constants.iter_mut() { self.id(&mut d.name); if let Some(a) = d.dimension_annotation.as_mut() { self.id(a); } self.expr(&mut d.rhs); }
    }
}
