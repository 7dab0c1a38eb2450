//! C10: annotations are enforced exactly.
use super::vfh_h::*;
use crate::sx::*;
const HEAD: &str = "quantity_type Q; dimension_type D; dimension A; dimension B; dimension C;
    #[base(A)] #[symbol(a)] unit ua; #[base(B)] #[symbol(b)] unit ub; #[base(C)] #[symbol(c)] unit uc; constant k = 3.0 * ua / ub;";

/// annotation A^e0 * B^e1, expression ua^e2 * ub^e3 / uc^e4 (and variants with absent base dimensions)
fn exact(kind: u64) {
    let mut u = parse(HEAD).unwrap();
    let shape = pick(input("shape", 2));
    let form = pick(input("form", 2));
    let mut inj = Inj::default();
    let mut e = [0i64; 6];
    let mut take = |i: usize| { if inj.exps[i].is_none() { inj.exps[i] = Some(exponent(["e0", "e1", "e2", "e3", "e4", "e5"][i])); } inj.exps[i].unwrap() };
    let (dt, dd) = match shape {
        0 => ("A^3000 * B^3001", [take(0), take(1), 0]),
        1 => ("B^3001", [0, take(1), 0]),
        2 => ("A^3000 / A^3000 * C^3001", [0, 0, take(1) + 0 * take(0)]),
        _ => ("1", [0, 0, 0]),
    };
    let (et, ed) = match form {
        0 => ("ua^3002 * ub^3003 / uc^3004", [take(2), take(3), -take(4)]),
        1 => ("2.0 * ub^3002", [0, take(2), 0]),
        2 => ("ua^3002 / ua^3003 * k", [take(2) - take(3) + 1, -1, 0]),
        _ => ("7.5", [0, 0, 0]),
    };
    let first = pick(input("first", 1)) == 1;
    let dtext = format!("dimension T = {};", dt);
    let stmt = match kind { 0 => format!("unit t: T = {};", et), 1 => format!("constant t: T = {};", et), _ => format!("#[prefix(kilo)] #[alias(tt)] unit t: T = {};", et) };
    let text = if first { format!("{}{}", dtext, stmt) } else { format!("{}{}", stmt, dtext) };
    let t = parse(&text);
    check(t.is_some(), "parses");
    let Some(t) = t else { return };
    merge(&mut u, t);
    inj.apply(&mut u);
    let d = resolve(u);
    let bad = errors() > 0;
    let same = dd[0] == ed[0] && dd[1] == ed[1] && dd[2] == ed[2];
    check(bad != same, "accepted exactly when the dimensions agree");
    reach(if bad { "rejected" } else { "end" });
}
#[no_mangle] pub extern "C" fn c10_unit() { exact(0) }
#[no_mangle] pub extern "C" fn c10_constant() { exact(1) }
#[no_mangle] pub extern "C" fn c10_prefixed() { exact(2) }

/// Many base dimensions: which ones the annotation and the expression have, and one symbolic exponent each.
#[no_mangle] pub extern "C" fn c10_many() {
    const N: [&str; 9] = ["Aa", "Bb", "Cc", "Dd", "Ee", "Ff", "Gg", "Hh", "Ii"];
    let mut text = String::from("quantity_type Q; dimension_type D;");
    for n in N { text.push_str(&format!("dimension {n}; #[base({n})] #[symbol({n}s)] unit u{n};")); }
    let count = [1usize, 3, 5, 8, 9][pick(input("count", 3).min(4)) as usize];
    let (i, j) = (pick(input("i", 4)) as usize, pick(input("j", 4)) as usize);
    assume(i < count && j < count);
    let mut inj = Inj::default();
    inj.exps[0] = Some(exponent("e0"));
    inj.exps[1] = Some(exponent("e1"));
    let (e0, e1) = (inj.exps[0].unwrap(), inj.exps[1].unwrap());
    let list = |u: &str, k: usize, x: &str| { let mut t = String::from("1"); for (m, n) in N[..count].iter().enumerate() { t.push_str(&format!(" * {u}{n}{}", if m == k { x } else { "" })); } t };
    let ann = list("", i, "^3000");
    let expr = list("u", j, "^3001");
    let kind = pick(input("kind", 1));
    text.push_str(&format!("{} t: T = {expr}; dimension T = {ann};", if kind == 0 { "unit" } else { "constant" }));
    let u = parse(&text);
    check(u.is_some(), "parses");
    let Some(mut u) = u else { return };
    inj.apply(&mut u);
    let _ = resolve(u);
    let same = if i == j { e0 == e1 } else { e0 == 1 && e1 == 1 };
    check((errors() == 0) == same, "accepted exactly when the dimensions agree");
    reach(if errors() == 0 { "end" } else { "rejected" });
}
/// What an annotation may name, on units, base units and constants.
#[no_mangle] pub extern "C" fn c10_names() {
    const ANN: [(&str, Option<[i64; 3]>); 10] = [("A", Some([1, 0, 0])), ("B", Some([0, 1, 0])), ("S", Some([2, -1, 0])), ("Zero", Some([0, 0, 0])), ("Late", Some([1, 0, 0])),
        ("ua", None), ("k", None), ("Nothing", None), ("kiloub", None), ("t", None)];
    let a = pick(input("ann", 4)) as usize;
    assume(a < 10);
    let kind = pick(input("kind", 2));
    let e = pick(input("expr", 3)) as usize;
    let (et, ed) = [("3.0 * ua", [1, 0, 0]), ("ub", [0, 1, 0]), ("ua^2 / ub", [2, -1, 0]), ("1.5", [0, 0, 0]), ("ua * ub / ub", [1, 0, 0]), ("ub / ub", [0, 0, 0]), ("k * ub", [1, 0, 0]), ("k / k * ub", [0, 1, 0])][e];
    let mut text = String::from("quantity_type Q; dimension_type D; dimension A; dimension B; dimension S = A^2 / B; dimension Zero = B / B;
        #[base(A)] #[symbol(a)] unit ua; constant k = 3.0 * ua / ub; dimension C;");
    let mut dims = ed;
    // the annotated statement: unit, constant, base unit, prefixed unit
    match kind {
        0 => text.push_str(&format!("unit t: {} = {};", ANN[a].0, et)),
        1 => text.push_str(&format!("constant t: {} = {};", ANN[a].0, et)),
        2 => { assume(e == 0); dims = [0, 0, 1]; text.push_str(&format!("#[base(C)] #[symbol(c)] unit t: {};", ANN[a].0)); }
        _ => text.push_str(&format!("#[symbol(q)] #[prefix(kilo)] #[alias(tt)] unit t: {} = {};", ANN[a].0, et)),
    }
    text.push_str("#[prefix(kilo)] #[base(B)] #[symbol(b)] unit ub: B; dimension Late = S * B / A;");
    let u = parse(&text);
    check(u.is_some(), "parses");
    let Some(u) = u else { return };
    let _ = resolve(u);
    let ok = ANN[a].1 == Some(dims);
    check((errors() == 0) == ok, if ok { "right annotation accepted" } else { "wrong annotation rejected" });
    reach(if ok { "end" } else { "rejected" });
}
/// An annotation of any name: right if it names a dimension equal to the expression's, wrong otherwise.
#[no_mangle] pub extern "C" fn c10_any() {
    let kind = pick(input("kind", 2));
    let e = pick(input("expr", 2)) as usize;
    let (et, ed) = [("3.0 * ua", [1, 0]), ("ua^2 / ub", [2, -1]), ("1.5", [0, 0]), ("ub / ub * ub", [0, 1])][e];
    let n = letters("n", 1, 2, true);
    let text = format!("quantity_type Q; dimension_type D; dimension A; dimension B; dimension S = A^2 / B; dimension Ze = B / B; dimension L = S * B / A;
        #[base(A)] #[symbol(a)] unit ua; #[base(B)] #[symbol(b)] unit ub; constant k = 3.0 * ua / ub; {}",
        match kind { 0 => format!("unit t: nq = {};", et), 1 => format!("constant t: nq = {};", et), 2 => format!("#[prefix(kilo)] unit t: nq = {};", et), _ => format!("#[alias(tt)] unit t: nq = {};", et) });
    let u = parse(&text);
    check(u.is_some(), "parses");
    let Some(mut u) = u else { return };
    let mut r = Ren::default();
    r.add("nq", &n);
    r.apply(&mut u);
    let _ = resolve(u);
    let rejected = errors() > 0;
    let mut ok = false;
    for (m, d) in [("A", [1, 0]), ("B", [0, 1]), ("S", [2, -1]), ("Ze", [0, 0]), ("L", [1, 0])] { if n == m { ok = d == ed; break; } }
    check(rejected != ok, if ok { "right annotation accepted" } else { "wrong annotation rejected" });
    reach(if ok { "end" } else { "rejected" });
}
