//! C08: definition expressions against a reference evaluator.
use super::vfh_h::*;
use crate::sx::*;

pub const BASE: &str = "quantity_type Q; dimension_type D; dimension A; dimension B; dimension C; dimension G = A^2 / B;
    #[base(A)] #[symbol(a)] unit ua; #[base(B)] #[symbol(b)] unit ub; #[base(C)] #[symbol(c)] unit uc;
    unit v = 2000.0 * ua / ub; constant w = 2001.0 * uc * uc; unit n = 2002.0;";

pub struct G { pub text: String, pub inj: Inj, ne: usize, nn: usize, k: u64, dims: bool }
impl G {
    pub fn new(dims: bool) -> G {
        let mut inj = Inj::default();
        if !dims { for i in 0..3 { inj.nums[i] = Some(number(["nv", "nw", "nn"][i])); } }
        G { text: String::new(), inj, ne: 0, nn: 3, k: 0, dims }
    }
    fn num(&self, i: usize) -> f64 { self.inj.nums[i].unwrap() }
    /// one of the named or literal values; which one rotates with the position
    fn atom(&mut self) -> V {
        let k = self.k % 5;
        self.k += 1;
        if self.dims {
            return match k {
                0 => { self.text.push_str("A"); V::new(1, 0, 0, 1.0) }
                1 => { self.text.push_str("G"); V::new(2, -1, 0, 1.0) }
                2 => { self.text.push_str("B"); V::new(0, 1, 0, 1.0) }
                3 => { self.text.push_str("C"); V::new(0, 0, 1, 1.0) }
                _ => { self.text.push_str("1"); V::new(0, 0, 0, 1.0) }
            };
        }
        match k {
            0 => { self.text.push_str("v"); V::new(1, -1, 0, self.num(0)) }
            1 => { let i = self.nn; self.nn += 1; let x = number(["l3", "l4", "l5", "l6", "l7"][i - 3]); self.inj.nums[i] = Some(x); self.text.push_str(["2003", "2004.0", "2005", "2006.0", "2007"][i - 3]); V::new(0, 0, 0, x) }
            2 => { self.text.push_str("w"); V::new(0, 0, 2, self.num(1)) }
            3 => { self.text.push_str("ua"); V::new(1, 0, 0, 1.0) }
            _ => { self.text.push_str("n"); V::new(0, 0, 0, self.num(2)) }
        }
    }
    fn power(&mut self, v: V) -> V {
        let i = self.ne; self.ne += 1;
        let e = exponent(["e0", "e1", "e2", "e3", "e4", "e5"][i]);
        self.inj.exps[i] = Some(e);
        if pick(input("neg", 1)) == 1 { self.text.push_str(["^-3000", "^-3001", "^ -3002", "^-3003", "^-3004", "^-3005"][i]); v.pow(-e) }
        else { self.text.push_str(["^3000", "^ 3001", "^3002", "^3003", "^3004", "^3005"][i]); v.pow(e) }
    }
    fn op(&mut self, l: V, f: impl FnOnce(&mut G) -> V, ops: u64) -> V {
        let o = pick(input("op", 2));
        assume(o < ops);
        self.text.push_str([" * ", " / ", " "][o as usize]);
        let mark = self.text.len();
        let r = f(self);
        if o == 2 { assume(self.text.as_bytes()[mark].is_ascii_alphabetic()); }
        if o == 1 { l.div(r) } else { l.mul(r) }
    }
    /// atom | atom^e | ( atom op atom ) | ( atom^e op atom )
    fn factor(&mut self, forms: u64) -> V {
        let f = pick(input("form", 2));
        assume(f < forms);
        match f {
            0 => self.atom(),
            1 => { let v = self.atom(); self.power(v) }
            f => {
                self.text.push('(');
                let v = self.atom();
                let v = if f == 3 { self.power(v) } else { v };
                let v = self.op(v, |g| g.atom(), 2);
                self.text.push(')');
                v
            }
        }
    }
    pub fn expr(&mut self, n: u64, forms: u64, ops: u64) -> V {
        let mut v = self.factor(forms);
        for _ in 1..n { v = self.op(v, |g| g.factor(forms), ops); }
        v
    }
}
/// What a user system with the statement gives; kinds: 0 unit, 1 constant, 2 dimension.
fn decide(n: u64, forms: u64, ops: u64, kind: u64, off: u64) {
    let mut base = parse(BASE).unwrap();
    let mut g = G::new(kind == 2);
    g.k = off;
    let want = g.expr(n, forms, ops);
    let text = format!("{} = {}", ["unit t", "constant t", "dimension T"][kind as usize], g.text);
    let t = parse(&text);
    check(t.is_some(), "expression accepted");
    let Some(t) = t else { return };
    merge(&mut base, t);
    g.inj.apply(&mut base);
    let d = resolve(base);
    check(errors() == 0, "definition accepted");
    match kind {
        0 => { let u = unit(&d, "t"); check(u.is_some(), "defined"); let Some(u) = u else { return };
            check(dims_are(&u.dimensions, want.d), "dimension"); check(same64(u.magnitude.into_f64(), want.f), "factor"); }
        1 => { let u = constant(&d, "t"); check(u.is_some(), "defined"); let Some(u) = u else { return };
            check(dims_are(&u.dimensions, want.d), "dimension"); check(same64(u.magnitude.into_f64(), want.f), "factor"); }
        _ => { let u = dimension(&d, "T"); check(u.is_some(), "defined"); let Some(u) = u else { return };
            check(dims_are(&u.dimensions, want.d), "dimension"); }
    }
    reach("end");
}
macro_rules! shapes {
    ($($name:ident $n:literal $forms:literal $ops:literal $kind:literal $off:literal;)*) => { $(
        #[no_mangle] pub extern "C" fn $name() { decide($n, $forms, $ops, $kind, $off) }
    )* };
}
shapes! {
    c08_two_unit_0 2 4 3 0 0; c08_two_unit_1 2 4 3 0 1; c08_two_unit_2 2 4 3 0 2; c08_two_unit_3 2 4 3 0 3; c08_two_unit_4 2 4 3 0 4;
    c08_two_const_0 2 4 3 1 0; c08_two_const_3 2 4 3 1 3;
    c08_two_dim_0 2 4 3 2 0; c08_two_dim_1 2 4 3 2 1; c08_two_dim_4 2 4 3 2 4;
    c08_flat_unit 4 1 3 0 2; c08_flat_dim 4 1 3 2 0; c08_flat_const 4 1 3 1 4;
    c08_three_unit 3 2 2 0 0; c08_three_dim 3 2 2 2 0;
}

/// Everything of both worlds in one factor list, all forms, three factors.
macro_rules! three { ($($name:ident $kind:literal $off:literal;)*) => { $( #[no_mangle] pub extern "C" fn $name() { decide(3, 4, 2, $kind, $off) } )* }; }
three! { c08_deep_unit_0 0 0; c08_deep_unit_1 0 1; c08_deep_unit_2 0 2; c08_deep_unit_3 0 3; c08_deep_unit_4 0 4; c08_deep_dim_0 2 0; c08_deep_dim_3 2 3; c08_deep_const_2 1 2; }
#[no_mangle] pub extern "C" fn c08_six_unit() { decide(6, 1, 3, 0, 1) }
#[no_mangle] pub extern "C" fn c08_six_dim() { decide(6, 1, 3, 2, 1) }

fn digit(n: &str) -> u8 { let d = input(n, 4); assume(d < 10); b'0' + d as u8 }
fn with(text: &str) -> Option<Defs> {
    let mut base = parse(BASE).unwrap();
    let t = parse(text)?;
    merge(&mut base, t);
    let mut inj = Inj::default();
    inj.nums[0] = Some(1.0); inj.nums[1] = Some(1.0); inj.nums[2] = Some(1.0);
    inj.apply(&mut base);
    let d = resolve(base);
    if errors() > 0 { None } else { Some(d) }
}
use crate::types::Defs;
/// Integer literals of one to three symbolic digits, with an underscore or not, contribute their value.
#[no_mangle] pub extern "C" fn c08_int_literal() {
    let n = pick(input("n", 2)) + 1;
    assume(n <= param("digits", 2));
    let us = pick(input("us", 1)) == 1;
    let mut s: Vec<u8> = b"unit t = ".to_vec();
    let mut v = 0u64;
    for i in 0..n {
        let d = digit(["d0", "d1", "d2"][i as usize]);
        s.push(d);
        v = v * 10 + (d - b'0') as u64;
        if us && i == 0 { s.push(b'_'); }
    }
    s.extend_from_slice(b" * ua");
    let d = with(unsafe { core::str::from_utf8_unchecked(&s) });
    check(d.is_some(), "accepted");
    let Some(d) = d else { return };
    let u = unit(&d, "t");
    check(u.is_some(), "defined");
    let Some(u) = u else { return };
    check(same64(u.magnitude.into_f64(), v as f64), "value of the literal");
    check(dims_are(&u.dimensions, [1, 0, 0]), "dimension");
    reach("end");
}
/// Symbolic digits and sign of a written exponent.
#[no_mangle] pub extern "C" fn c08_written_exponent() {
    let neg = pick(input("neg", 1)) == 1;
    let two = pick(input("two", 1)) == 1;
    let dimn = pick(input("dim", 1)) == 1;
    let d0 = digit("d0");
    let d1 = digit("d1");
    let mut s: Vec<u8> = if dimn { b"dimension T = A ^ ".to_vec() } else { b"constant t = ua^".to_vec() };
    if neg { s.push(b'-'); }
    let mut v = (d0 - b'0') as i64;
    s.push(d0);
    if two { s.push(d1); v = v * 10 + (d1 - b'0') as i64; }
    if neg { v = -v; }
    s.extend_from_slice(if dimn { b" / B" } else { b" / ub" });
    let d = with(unsafe { core::str::from_utf8_unchecked(&s) });
    check(d.is_some(), "accepted");
    let Some(d) = d else { return };
    let b = if dimn { dimension(&d, "T").map(|x| x.dimensions.clone()) } else { constant(&d, "t").map(|x| x.dimensions.clone()) };
    check(b.is_some(), "defined");
    let Some(b) = b else { return };
    #[cfg(not(feature = "rational-dimensions"))]
    check(dims_are(&b, [v, -1, 0]), "dimension");
    #[cfg(feature = "rational-dimensions")]
    { let v = pick(v as u64) as i64; check(dims_are(&b, [v, -1, 0]), "dimension"); }
    reach("end");
}
/// Decimal literals contribute the double their text denotes (the text-to-double step is the standard library's).
#[no_mangle] pub extern "C" fn c08_float_literal() {
    let x = number("x");
    assume(x > 0.0);
    // numbers that are placeholders
    assume(!(x >= 2000.0 && x < 2008.0));
    let neg = pick(input("neg", 1)) == 1;
    let place = pick(input("place", 2));
    let text: String = if symbolic() { ftoken("1.2345", x); ftoken("-1.2345", -x); "1.2345".into() } else { format!("{:e}", x) };
    let (pre, post, w) = match place { 0 => ("unit t = ", " * ua", false), 1 => ("unit t = ua / ", "", true), 2 => ("constant t = ", " ua", false), _ => ("constant t = ua / (", " * 1)", true) };
    let t = format!("{}{}{}{}", pre, if neg { "-" } else { "" }, text, post);
    let d = with(&t);
    check(d.is_some(), "accepted");
    let Some(d) = d else { return };
    let f = if place < 2 { unit(&d, "t").map(|u| u.magnitude) } else { constant(&d, "t").map(|u| u.magnitude) };
    check(f.is_some(), "defined");
    let Some(f) = f else { return };
    let x = if neg { -x } else { x };
    let want = if place == 3 { 1.0 / (x * 1.0) } else if w { 1.0 / x } else { x * 1.0 };
    check(same64(f.into_f64(), want), "value of the literal");
    reach("end");
}
/// Forms outside the grammar: refused, or what ordinary algebra says.
#[no_mangle] pub extern "C" fn c08_unusual() {
    let forms: [(&str, Option<V>); 14] = [
        ("(ua * ub)^2", Some(V::new(2, 2, 0, 1.0))),
        ("2.0 (ua)", Some(V::new(1, 0, 0, 2.0))),
        ("(ua) ub", Some(V::new(1, 1, 0, 1.0))),
        ("((ua * 4.0) / (ub / uc))", Some(V::new(1, -1, 1, 4.0))),
        ("ua^2^3", Some(V::new(8, 0, 0, 1.0))),
        ("ua ^ (2)", Some(V::new(2, 0, 0, 1.0))),
        ("ua * ", None),
        ("* ua", None),
        ("ua + ub", None),
        ("ua - ub", None),
        ("ua^ub", None),
        ("", None),
        ("ua / / ub", None),
        ("2.0^3 * ua^2", Some(V::new(2, 0, 0, 8.0))),
    ];
    let i = pick(input("form", 4)) as usize;
    assume(i < 14);
    let d = with(&format!("unit t = {}", forms[i].0));
    if let Some(d) = d {
        check(forms[i].1.is_some(), "refused");
        let Some(want) = forms[i].1 else { return };
        let u = unit(&d, "t");
        check(u.is_some(), "defined");
        let Some(u) = u else { return };
        check(dims_are(&u.dimensions, want.d), "dimension");
        check(same64(u.magnitude.into_f64(), want.f), "factor");
    }
    reach("end");
}
/// Rational exponents are written as (n/d).
#[cfg(feature = "rational-dimensions")]
#[no_mangle] pub extern "C" fn c08_rational_exponent() {
    let n = pick(input("num", 4)) as i64 - 8;
    let m = pick(input("den", 3)) as i64 + 1;
    let x = number("x");
    let kind = pick(input("kind", 1));
    let text = if kind == 0 { format!("unit t = 2003.0 / ub * w ^ ({}/{}) / 2004.0", n, m) } else { format!("dimension T = C / A^({}/{}) * C", n, m) };
    let mut base = parse(BASE).unwrap();
    let t = parse(&text);
    check(t.is_some(), "accepted");
    let Some(t) = t else { return };
    merge(&mut base, t);
    let mut inj = Inj::default();
    let (l3, l4) = (number("l3"), number("l4"));
    inj.nums = [Some(1.0), Some(x), Some(1.0), Some(l3), Some(l4), None, None, None];
    inj.apply(&mut base);
    let d = resolve(base);
    check(errors() == 0, "definition accepted");
    let r = Exp::new(n, m);
    check(r.num() * m == n * r.denom() && r.denom() > 0, "exponent value");
    if kind == 0 {
        let u = unit(&d, "t");
        check(u.is_some(), "defined");
        let Some(u) = u else { return };
        check(same64(u.magnitude.into_f64(), (l3 / 1.0) * x.powf(r.num() as f64 / r.denom() as f64) / l4), "factor");
        for (f, e) in u.dimensions.fields() { check(if is(f, "b") { *e == ex(-1) } else { is(f, "c") && *e == Exp::new(2 * n, m) }, "dimension"); }
    } else {
        let u = dimension(&d, "T");
        check(u.is_some(), "defined");
        let Some(u) = u else { return };
        for (f, e) in u.dimensions.fields() { check(if is(f, "c") { *e == ex(2) } else { is(f, "a") && *e == Exp::new(-n, m) }, "dimension"); }
    }
    reach("end");
}

/// Exponents of definitions at the ends of their range: exact, or the system is refused; refused only if a step does not fit.
fn edge(text: &str, exps: [Option<i64>; 8], want: i128, fits: bool) {
    let mut base = parse(BASE).unwrap();
    let t = parse(text);
    check(t.is_some(), "expression accepted");
    let Some(t) = t else { return };
    merge(&mut base, t);
    Inj { exps, nums: [None; 8] }.apply(&mut base);
    if !fits { allow_panic(); }
    let d = resolve(base);
    if fits { forbid_panic(); check(errors() == 0, "definition accepted"); }
    match dimension(&d, "T") {
        Some(u) if errors() == 0 => {
            check(want >= i64::MIN as i128 && want <= i64::MAX as i128, "an exponent that does not fit is refused");
            check(dims_are(&u.dimensions, [want as i64, 0, 0]), "dimension");
        }
        _ => check(!fits, "defined"),
    }
    reach("end");
}
#[no_mangle] pub extern "C" fn c08_edge_sum() {
    let (a, b) = (input("e0", 64) as i64, input("e1", 64) as i64);
    let mut exps = [None; 8];
    exps[0] = Some(a);
    exps[1] = Some(b);
    let s = a.checked_add(b);
    edge("dimension T = A^3000 * A^3001;", exps, a as i128 + b as i128, branch(s.is_some()));
}
#[no_mangle] pub extern "C" fn c08_edge_quotient() {
    let (a, b) = (input("e0", 64) as i64, input("e1", 64) as i64);
    let mut exps = [None; 8];
    exps[0] = Some(a);
    exps[1] = Some(b);
    let fits = a.checked_sub(b).is_some() & (b != i64::MIN);
    edge("dimension T = A^3000 / A^3001;", exps, a as i128 - b as i128, branch(fits));
}
#[no_mangle] pub extern "C" fn c08_edge_power() {
    let ps = [2, 3, -1, -2, 5, 7, 1 << 32, i64::MAX, i64::MIN, 0, 1, -1000];
    let i = pick(input("power", 4)) as usize;
    assume(i < ps.len());
    let (a, p) = (input("e0", 64) as i64, ps[i]);
    let mut exps = [None; 8];
    exps[0] = Some(a);
    exps[1] = Some(p);
    // rational exponents: the smallest has no counterpart
    let fits = a.checked_mul(p).is_some() & (a != i64::MIN);
    edge("dimension S = A^3000; dimension T = S^3001;", exps, a as i128 * p as i128, branch(fits));
}
