//! C11: prefixes and aliases.
use super::vfh_h::*;
use crate::sx::*;
/// name, short, factor: the sixteen metric prefixes from atto to exa
const P: [(&str, &str, f64); 16] = [("exa", "E", 1e18), ("peta", "P", 1e15), ("tera", "T", 1e12), ("giga", "G", 1e9), ("mega", "M", 1e6), ("kilo", "k", 1e3), ("hecto", "h", 1e2), ("deca", "da", 1e1),
    ("deci", "d", 1e-1), ("centi", "c", 1e-2), ("milli", "m", 1e-3), ("micro", "μ", 1e-6), ("nano", "n", 1e-9), ("pico", "p", 1e-12), ("femto", "f", 1e-15), ("atto", "a", 1e-18)];
const HEAD: &str = "quantity_type Q; dimension_type D; dimension A; dimension B; dimension C; #[base(B)] #[symbol(b)] unit ub; #[base(C)] #[symbol(c)] unit uc;";

/// the units of the templated unit "t" against the documented list
fn compare(text: &str, used: u32, aliases: &[&str], symbol: bool, base: bool, f: f64) {
    let mut u = parse(HEAD).unwrap();
    let t = parse(text);
    check(t.is_some(), "parses");
    let Some(t) = t else { return };
    merge(&mut u, t);
    let mut inj = Inj::default();
    inj.nums[0] = Some(f);
    inj.apply(&mut u);
    let d = resolve(u);
    check(errors() == 0, "accepted");
    let want = if base { V::new(1, 0, 0, 1.0) } else { V::new(0, 1, -2, f * 1.0 / powf(1.0, 2)) };
    let np = used.count_ones() as usize + 1;
    let extra = if base { 2 } else { 3 };
    check(d.units.len() == np * (aliases.len() + 1) + extra, "number of units");
    for p in 0..=16 {
        if p < 16 && used >> p & 1 == 0 { continue; }
        for a in 0..=aliases.len() {
            let stem = if a == aliases.len() { "t" } else { aliases[a] };
            let name = if p == 16 { stem.to_string() } else { format!("{}{}", P[p].0, stem) };
            let u = unit(&d, &name);
            check(u.is_some(), "documented unit exists once");
            let Some(u) = u else { return };
            check(dims_are(&u.dimensions, want.d), "dimension");
            check(same64(u.magnitude.into_f64(), if p == 16 { want.f } else { P[p].2 * want.f }), "factor");
            let sym = u.symbol.as_ref().map(|s| s.0.to_string());
            let ws = if a < aliases.len() || !symbol { None } else if p == 16 { Some("y".to_string()) } else { Some(format!("{}y", P[p].1)) };
            check(sym == ws, "symbol");
        }
    }
    reach("end");
}
fn definition(base: bool) -> &'static str { if base { "unit t;" } else { "unit t = 2000.0 * ub / uc^2; #[base(A)] #[symbol(q)] unit ua;" } }
fn attrs(base: bool) -> &'static str { if base { "#[base(A)] #[symbol(y)]" } else { "#[symbol(y)]" } }
/// metric_prefixes with up to two skipped, up to two aliases
fn metric(base: bool) {
    let f = number("f");
    let (i, j) = (pick(input("i", 5)) as usize, pick(input("j", 5)) as usize);
    assume(i <= 16 && j <= 16 && (j == 16 || i < j));
    let al = pick(input("aliases", 2)) as usize;
    assume(al < 3);
    let aliases: &[&str] = &["tt", "o"][..al];
    let skip = match (i, j) {
        (16, _) => String::new(),
        (i, 16) => format!("(skip: {})", P[i].0),
        (i, j) => format!("(skip: {}, {})", P[j].0, P[i].0),
    };
    let mut used = 0xffffu32;
    if i < 16 { used &= !(1 << i); if j < 16 { used &= !(1 << j); } }
    let at = match al { 0 => "", 1 => "#[alias(tt)]", _ => "#[alias(tt, o)]" };
    compare(&format!("{} {} #[metric_prefixes{}] {}", attrs(base), at, skip, definition(base)), used, aliases, true, base, f);
}
#[no_mangle] pub extern "C" fn c11_metric_unit() { metric(false) }
#[no_mangle] pub extern "C" fn c11_metric_base() { metric(true) }
/// any set of up to three explicit prefixes in any order, in one or two attributes
fn explicit(base: bool, third: bool, part: usize) {
    let f = number("f");
    let (i, j) = (pick(input("i", 4)) as usize, pick(input("j", 4)) as usize);
    let k = if third { pick(input("k", 4)) as usize } else { i };
    assume((part == 9 || i / 2 == part) && i != j && (!third || k != i && k != j));
    let al = pick(input("aliases", 1)) as usize;
    let split = pick(input("split", 1)) == 1;
    let sym = base || pick(input("sym", 1)) == 1;
    let mut p = if split { format!("#[prefix({})] #[prefix({}", P[i].0, P[j].0) } else { format!("#[prefix({}, {}", P[i].0, P[j].0) };
    if third { p.push_str(", "); p.push_str(P[k].0); }
    p.push_str(")]");
    let at = if al == 1 { if split { "#[alias(tt)] #[alias(oo)]" } else { "#[alias(tt, oo)]" } } else { "" };
    let aliases: &[&str] = if al == 1 { &["tt", "oo"] } else { &[] };
    compare(&format!("{} {} {} {}", at, p, if sym { attrs(base) } else { "" }, definition(base)), 1 << i | 1 << j | 1 << k, aliases, sym, base, f);
}
#[no_mangle] pub extern "C" fn c11_explicit_unit() { explicit(false, false, 9) }
#[no_mangle] pub extern "C" fn c11_explicit_base() { explicit(true, false, 9) }
#[no_mangle] pub extern "C" fn c11_explicit_three_0() { explicit(false, true, 0) }
#[no_mangle] pub extern "C" fn c11_explicit_three_1() { explicit(false, true, 1) }
#[no_mangle] pub extern "C" fn c11_explicit_three_2() { explicit(false, true, 2) }
#[no_mangle] pub extern "C" fn c11_explicit_three_3() { explicit(false, true, 3) }
#[no_mangle] pub extern "C" fn c11_explicit_three_4() { explicit(false, true, 4) }
#[no_mangle] pub extern "C" fn c11_explicit_three_5() { explicit(false, true, 5) }
#[no_mangle] pub extern "C" fn c11_explicit_three_6() { explicit(false, true, 6) }
#[no_mangle] pub extern "C" fn c11_explicit_three_7() { explicit(false, true, 7) }
/// both kinds together: metric except what the explicit attribute adds back
#[no_mangle] pub extern "C" fn c11_both() {
    let f = number("f");
    let i = pick(input("i", 4)) as usize;
    let first = pick(input("first", 1)) == 1;
    let m = format!("#[metric_prefixes(skip: {})]", P[i].0);
    let p = format!("#[prefix({})]", P[i].0);
    let t = if first { format!("{} {}", m, p) } else { format!("{} {}", p, m) };
    compare(&format!("#[alias(tt)] {} {} {}", t, attrs(false), definition(false)), 0xffff, &["tt"], true, false, f);
}
/// aliases only, prefixes of units whose definition refers to other prefixed units
#[no_mangle] pub extern "C" fn c11_aliases() {
    let f = number("f");
    let n = pick(input("n", 2)) as usize;
    let base = pick(input("base", 1)) == 1;
    let at = ["", "#[alias(tt)]", "#[alias(tt, oo)]", "#[alias(tt, oo)] #[alias(z)]"][n];
    compare(&format!("{} {} {}", attrs(base), at, definition(base)), 0, &["tt", "oo", "z"][..n], true, base, f);
}
/// A unit and an alias of any name, two prefixes.
fn any(base: bool) {
    let f = number("f");
    let n = letters("n", 1, 2, false);
    let a = letters("a", 2, 2, false);
    let y = letters("y", 1, 1, true);
    let (i, j) = [(5, 13), (7, 8), (4, 10), (0, 15)][pick(input("pair", 2)) as usize];
    let text = format!("#[prefix({}, {})] #[alias(aq)] {}", P[i].0, P[j].0, if base { "#[base(A)] #[symbol(yq)] unit nq;" } else { "#[symbol(yq)] unit nq = 2000.0 * ub / uc^2;" });
    let mut u = parse(HEAD).unwrap();
    let t = parse(&text);
    check(t.is_some(), "parses");
    let Some(t) = t else { return };
    merge(&mut u, t);
    let mut r = Ren::default();
    r.add("nq", &n); r.add("aq", &a); r.add("yq", &y);
    // names and symbols that collide are C12's
    for l in ["ub", "uc", "A", "B", "C"] { assume(n != l && a != l); }
    assume(n != a);
    for s in ["b", "c"] { assume(y != s); }
    r.apply(&mut u);
    let mut inj = Inj::default();
    inj.nums[0] = Some(f);
    inj.apply(&mut u);
    let d = resolve(u);
    check(errors() == 0, "accepted");
    check(d.units.len() == 8, "number of units");
    let want = if base { V::new(1, 0, 0, 1.0) } else { V::new(0, 1, -2, f * 1.0 / powf(1.0, 2)) };
    for p in [i, j, 16] { for al in [false, true] {
        let stem = if al { &a } else { &n };
        let name = if p == 16 { stem.to_string() } else { format!("{}{}", P[p].0, stem) };
        let x = unit(&d, &name);
        check(x.is_some(), "documented unit exists once");
        let Some(x) = x else { return };
        check(dims_are(&x.dimensions, want.d), "dimension");
        check(same64(x.magnitude.into_f64(), if p == 16 { want.f } else { P[p].2 * want.f }), "factor");
        match &x.symbol {
            None => check(al, "symbol"),
            Some(s) => check(!al && s.0.to_string() == if p == 16 { y.clone() } else { format!("{}{}", P[p].1, y) }, "symbol"),
        }
    } }
    reach("end");
}
#[no_mangle] pub extern "C" fn c11_any_unit() { any(false) }
#[no_mangle] pub extern "C" fn c11_any_base() { any(true) }
