//! C12: contradictory unit systems are rejected, the others accepted.
use super::vfh_h::*;
use crate::sx::*;

#[derive(Clone, Copy, PartialEq)]
enum K { Dim, Unit, Const }
/// a list of names with their kinds, symbols, and the rules
struct Ref { names: Vec<(String, K)>, symbols: Vec<String>, refs: Vec<(K, String)>, bad: bool, basedims: Vec<String>, bases: Vec<String> }
impl Ref {
    fn name(&mut self, n: &str, k: K) { if self.names.iter().any(|(m, _)| m == n) { self.bad = true; } self.names.push((n.to_string(), k)); }
    fn symbol(&mut self, n: &str) { if self.symbols.iter().any(|m| m == n) { self.bad = true; } self.symbols.push(n.to_string()); }
    fn uses(&mut self, k: K, n: &str) { self.refs.push((k, n.to_string())); }
    fn base(&mut self, n: &str) { if self.bases.iter().any(|m| m == n) { self.bad = true; } self.bases.push(n.to_string()); }
    /// kinds may not be mixed; a name nobody defines is an error as well
    fn verdict(&self) -> bool {
        let mut bad = self.bad;
        for b in &self.bases { bad |= !self.basedims.iter().any(|d| d == b); }
        for (k, n) in &self.refs {
            let mut found = false;
            for (m, mk) in &self.names {
                if m == n { found = true; if (*k == K::Dim) != (*mk == K::Dim) { bad = true; } }
            }
            bad |= !found;
        }
        bad
    }
}
const HEAD: &str = "quantity_type Q; dimension_type D; dimension A; dimension B; dimension Z; dimension G = A^2 / B;
    #[base(A)] #[symbol(a)] unit ua; #[base(B)] #[symbol(b)] #[prefix(kilo)] unit ub; unit h = 2.0 * ua; constant c = 3.0 * ub;";
fn head() -> Ref {
    let mut r = Ref { names: vec![], symbols: vec![], refs: vec![], bad: false, basedims: vec!["A".into(), "B".into(), "Z".into()], bases: vec!["A".into(), "B".into()] };
    for n in ["A", "B", "Z", "G"] { r.name(n, K::Dim); }
    for n in ["ua", "ub", "kiloub", "h"] { r.name(n, K::Unit); }
    r.name("c", K::Const);
    for n in ["a", "b", "kb"] { r.symbol(n); }
    r
}
/// One statement from a menu; n: its name, o: another name it may refer to.
fn slot(m: u64, n: &str, o: &str, z: &str, text: &mut String, r: &mut Ref) { slot_named(m, n, o, z, text, r, n, o, z) }
/// the same with other names in the text than those meant
fn slot_named(m: u64, n: &str, o: &str, z: &str, text: &mut String, r: &mut Ref, rn: &str, ro: &str, rz: &str) {
    let mut say = |s: String| { text.push_str(&s); text.push(';'); };
    match m {
        0 => {}
        1 => { say(format!("dimension {} = A * B", n)); r.name(rn, K::Dim) }
        2 => { say(format!("unit {} = 2.0 * ua", n)); r.name(rn, K::Unit) }
        3 => { say(format!("constant {} = 2.0 / ub", n)); r.name(rn, K::Const) }
        4 => { say(format!("#[base(A)] #[symbol({})] unit {}", z, n)); r.name(rn, K::Unit); r.symbol(rz); r.base("A") }
        5 => { say(format!("#[base(Z)] #[symbol({})] unit {}", z, n)); r.name(rn, K::Unit); r.symbol(rz); r.base("Z") }
        6 => { say(format!("#[base(G)] #[symbol({})] unit {}", z, n)); r.name(rn, K::Unit); r.symbol(rz); r.base("G") }
        7 => { say(format!("#[base(Z)] unit {}", n)); r.name(rn, K::Unit); r.base("Z"); r.bad = true }
        8 => { say(format!("dimension {} = 2 * A", n)); r.name(rn, K::Dim); r.bad = true }
        9 => { say(format!("dimension {} = {}", n, o)); r.name(rn, K::Dim); r.uses(K::Dim, ro) }
        10 => { say(format!("unit {} = 3.0 * {}", n, o)); r.name(rn, K::Unit); r.uses(K::Unit, ro) }
        11 => { say(format!("constant {} = {} / ua", n, o)); r.name(rn, K::Const); r.uses(K::Const, ro) }
        12 => { say(format!("#[symbol(a)] unit {} = ua^2", n)); r.name(rn, K::Unit); r.symbol("a") }
        13 => { say(format!("#[symbol({})] unit {} = ub", z, n)); r.name(rn, K::Unit); r.symbol(rz) }
        14 => { say(format!("#[alias({})] unit {} = c / ua", o, n)); r.name(rn, K::Unit); r.name(ro, K::Unit) }
        15 => { say(format!("#[symbol(b)] #[prefix(kilo, mega)] unit {} = 3.0 * h", n)); r.name(rn, K::Unit); r.name(&format!("kilo{}", rn), K::Unit); r.name(&format!("mega{}", rn), K::Unit); r.symbol("b"); r.symbol("kb"); r.symbol("Mb") }
        16 => { say(format!("dimension {}", n)); r.name(rn, K::Dim); r.basedims.push(rn.to_string()) }
        17 => { say(format!("dimension {} = 1.0 * A / 1", n)); r.name(rn, K::Dim) }
        18 => { say(format!("#[base({})] #[symbol({})] unit w{}", o, z, n)); r.name(&format!("w{}", rn), K::Unit); r.symbol(rz); r.base(ro) }
        19 => { say("unit kiloub = 5.0 * h".to_string()); r.name("kiloub", K::Unit) }
        20 => { say(format!("dimension {} = 1.5 / B", n)); r.name(rn, K::Dim); r.bad = true }
        21 => { say(format!("unit {} = h * c * {}", n, o)); r.name(rn, K::Unit); r.uses(K::Unit, ro) }
        _ => { say(format!("dimension {} = G / {}^2", n, o)); r.name(rn, K::Dim); r.uses(K::Dim, ro) }
    }
}
const MENU: u64 = 23;
fn judge(text: &str, bad: bool) {
    let u = parse(text);
    let rejected = match u { None => true, Some(u) => { let _ = resolve(u); errors() > 0 } };
    if bad { check(rejected, "contradictory system rejected"); reach("rejected"); }
    else { check(!rejected, "consistent system accepted"); reach("end"); }
}
/// a single further statement with any name and any reference
fn one(quarter: u64) {
    let names = ["x", "ua", "A", "c", "kiloub", "G"];
    let others = ["x", "ua", "A", "c", "G", "Z", "nowhere", "kiloub"];
    let m = pick(input("m", 5));
    assume(m < MENU && m % 4 == quarter);
    let n = names[{ let i = if m == 0 || m == 19 { 0 } else { pick(input("n", 3)) as usize }; assume(i < 6); i }];
    let o = others[if matches!(m, 9 | 10 | 11 | 14 | 18 | 21 | 22) { pick(input("o", 3)) as usize } else { 0 }];
    let z = ["s", "b", "kb", "a"][if matches!(m, 4..=6 | 13 | 18) { pick(input("z", 2)) as usize } else { 0 }];
    let mut t = String::new();
    let mut r = head();
    slot(m, n, o, z, &mut t, &mut r);
    let front = pick(input("front", 1)) == 1;
    // a definition in terms of itself is circular
    if matches!(m, 9 | 10 | 11 | 21 | 22) && n == o { r.bad = true; }
    let text = if front { format!("{}{}", t, HEAD) } else { format!("{}{}", HEAD, t) };
    judge(&text, r.verdict());
}
#[no_mangle] pub extern "C" fn c12_one_0() { one(0) }
#[no_mangle] pub extern "C" fn c12_one_1() { one(1) }
#[no_mangle] pub extern "C" fn c12_one_2() { one(2) }
#[no_mangle] pub extern "C" fn c12_one_3() { one(3) }
/// two further statements that may collide with or refer to each other
fn two(lo: u64, hi: u64) {
    let a = pick(input("m0", 5));
    assume(a >= lo && a < hi);
    let b = pick(input("m1", 5));
    assume(b < MENU);
    let n1 = ["x", "y"][pick(input("n1", 1)) as usize];
    let z1 = ["s", "t"][pick(input("z1", 1)) as usize];
    let mut t = String::from(HEAD);
    let mut r = head();
    slot(a, "x", "y", "s", &mut t, &mut r);
    slot(b, n1, "x", z1, &mut t, &mut r);
    // circular definitions are errors as well
    let refs = |m: u64| matches!(m, 9 | 10 | 11 | 21 | 22);
    let bad_cycle = refs(b) && n1 == "x" || refs(a) && refs(b) && n1 == "y";
    judge(&t, r.verdict() || bad_cycle);
}
#[no_mangle] pub extern "C" fn c12_two_a() { two(0, 6) }
#[no_mangle] pub extern "C" fn c12_two_b() { two(6, 12) }
#[no_mangle] pub extern "C" fn c12_two_c() { two(12, 18) }
#[no_mangle] pub extern "C" fn c12_two_d() { two(18, 23) }
/// quantity and dimension type: exactly one of each
#[no_mangle] pub extern "C" fn c12_types() {
    let q = pick(input("q", 2));
    let d = pick(input("d", 2));
    let same = pick(input("same", 1)) == 1;
    let at = pick(input("at", 1)) == 1;
    let mut t = String::new();
    for i in 0..q { t.push_str(if same || i == 0 { "quantity_type Q;" } else { "quantity_type R;" }); }
    let mut e = String::new();
    for i in 0..d { e.push_str(if same || i == 0 { "dimension_type D;" } else { "dimension_type E;" }); }
    let rest = &HEAD["quantity_type Q; dimension_type D;".len()..];
    let text = if at { format!("{}{}{}", t, rest, e) } else { format!("{}{}{}", e, t, rest) };
    judge(&text, q != 1 || d != 1);
}
/// symbols produced by prefixes collide with written ones
#[no_mangle] pub extern "C" fn c12_symbols() {
    const SY: [&str; 8] = ["a", "ka", "b", "ma", "da", "ada", "m", "cd"];
    let s = SY[pick(input("s", 3)) as usize];
    let p = pick(input("p", 2)) as usize;
    let (pt, short): (&str, &[&str]) = [("", &[][..]), ("#[prefix(kilo)]", &["k"][..]), ("#[prefix(deca, deci)]", &["da", "d"][..]), ("#[prefix(milli)]", &["m"][..])][p];
    let s2 = SY[pick(input("s2", 3)) as usize];
    let base = pick(input("base", 1)) == 1;
    let al = pick(input("alias", 1)) == 1;
    let mut syms: Vec<String> = vec!["b0".into(), s2.to_string(), s.to_string()];
    for x in short { syms.push(format!("{}{}", x, s)); }
    let mut bad = false;
    for i in 0..syms.len() { for j in 0..i { bad |= syms[i] == syms[j]; } }
    let text = format!("quantity_type Q; dimension_type D; dimension A; dimension B; #[base(B)] #[symbol(b0)] unit ub;
        {}{}{} unit x{}; #[symbol({})] unit y = 2.0 * ub;{}", if base { "#[base(A)]" } else { "" }, format!("#[symbol({})]", s), format!("{}{}", pt, if al { "#[alias(xx)]" } else { "" }), if base { "" } else { " = 3.0 * ub" }, s2, "");
    judge(&text, bad);
}
/// attributes that contradict each other
#[no_mangle] pub extern "C" fn c12_attributes() {
    const T: [(&str, bool); 14] = [
        ("#[base(Z)] #[symbol(z)] unit x", false),
        ("#[base(Z)] #[base(Z)] #[symbol(z)] unit x", true),
        ("#[base(Z)] #[base(A)] #[symbol(z)] unit x", true),
        ("#[base(Z)] #[symbol(z)] unit x = 2.0 * ua", true),
        ("unit x", true),
        ("#[symbol(z)] unit x", true),
        ("#[symbol(z)] #[symbol(y)] unit x = ua", true),
        ("#[base(ua)] #[symbol(z)] unit x", true),
        ("#[base(Nothing)] #[symbol(z)] unit x", true),
        ("#[base] #[symbol(z)] unit x", true),
        ("#[prefix(kilo, kilo)] #[symbol(z)] unit x = ua", true),
        ("#[alias(x)] unit x = ua", true),
        ("#[prefix(kilogram)] unit x = ua", true),
        ("#[alias(x1)] #[alias(x2)] #[prefix(kilo)] #[prefix(milli)] unit x = ua", false),
    ];
    let i = pick(input("i", 4)) as usize;
    assume(i < 14);
    let al = pick(input("alias", 1)) == 1;
    let text = format!("{}{}{}", HEAD, if al { "#[alias(xal)]" } else { "" }, T[i].0);
    judge(&text, T[i].1);
}

/// A factor anywhere in a nested expression: kinds are checked and names looked up at every place.
fn nested(kind: usize) {
    const SHAPES: [&str; 8] = ["h0 * h1 / (h2 * (h3 / h4))", "((h0 / h1) * h2) / h3^2 * h4", "h0 jj * (h1 * (h2 / h3)) / h4", "(h0 * (h1 * (h2 * (h3 / h4^3))))", "h0 / (h1 / (h2 jj * h3) jj / h4)",
        "(h0) / ((h1 / h2) jj / (h3 * h4))", "h0^0 * h1^-1 * (h2^2) / (h3) / h4", "(h0 jj) * (h1 jj / h2 jj) * (h3) / (h4)"];
    // dimensions: what a dimension, unit or constant may contain
    const FILL: [(&str, [bool; 3]); 11] = [("A", [true, false, false]), ("G", [true, false, false]), ("ua", [false, true, true]), ("kiloub", [false, true, true]), ("c", [false, true, true]), ("1", [true, true, true]), ("1.0", [true, true, true]),
        ("2", [false, true, true]), ("0.5", [false, true, true]), ("nowhere", [false, false, false]), ("xx", [false, false, false])];
    let shape = SHAPES[pick(input("shape", 3)) as usize];
    let hole = pick(input("hole", 3)) as usize;
    assume(hole < 5);
    let f = pick(input("fill", 4)) as usize;
    assume(f < FILL.len());
    let mut e = shape.replace("jj", if kind == 0 { "B" } else { "ub" });
    for i in 0..5 { e = e.replace(&format!("h{i}"), if i == hole { FILL[f].0 } else if kind == 0 { ["A", "B", "1", "G", "Z"][i] } else { ["ua", "3.5", "c", "h", "kiloub"][i] }); }
    let st = format!("{} xx = {e};", ["dimension", "unit", "constant"][kind]);
    let front = pick(input("front", 1)) == 1;
    let text = if front { format!("{st}{HEAD}#[base(Z)] #[symbol(z)] unit uz;") } else { format!("{HEAD}#[base(Z)] #[symbol(z)] unit uz;{st}") };
    judge(&text, !FILL[f].1[kind]);
}
#[no_mangle] pub extern "C" fn c12_nested_dim() { nested(0) }
#[no_mangle] pub extern "C" fn c12_nested_unit() { nested(1) }
#[no_mangle] pub extern "C" fn c12_nested_constant() { nested(2) }
/// One further statement whose name, reference and symbol are any letters.
fn any(lo: u64, hi: u64) {
    let m = pick(input("m", 5));
    assume(m >= lo && m < hi && m != 0 && m != 19);
    let n = letters("n", 1, 2, true);
    let o = if matches!(m, 9 | 10 | 11 | 14 | 18 | 21 | 22) { letters("o", 1, 2, true) } else { "oq".into() };
    let z = if matches!(m, 4..=6 | 13 | 18) { letters("z", 1, 2, true) } else { "s".into() };
    let mut r = head();
    let mut t = String::from(HEAD);
    let front = pick(input("front", 1)) == 1;
    let mut st = String::new();
    slot_named(m, "nq", "oq", "zq", &mut st, &mut r, &n, &o, &z);
    if front { t = format!("{}{}", st, t); } else { t.push_str(&st); }
    let u = parse(&t);
    check(u.is_some() || r.bad, "parses");
    let Some(mut u) = u else { return };
    let mut ren = Ren::default();
    ren.add("nq", &n); ren.add("oq", &o); ren.add("zq", &z); ren.add("wnq", &format!("w{}", n));
    ren.apply(&mut u);
    let _ = resolve(u);
    let rejected = errors() > 0;
    let mut bad = r.verdict();
    if matches!(m, 9 | 10 | 11 | 21 | 22) { bad |= n == o; }
    check(rejected == bad, if bad { "contradictory system rejected" } else { "consistent system accepted" });
    reach(if bad { "rejected" } else { "end" });
}
#[no_mangle] pub extern "C" fn c12_any_a() { any(1, 9) }
#[no_mangle] pub extern "C" fn c12_any_b() { any(9, 11) }
#[no_mangle] pub extern "C" fn c12_any_c() { any(11, 18) }
#[no_mangle] pub extern "C" fn c12_any_d() { any(18, 23) }

/// Two units whose symbols are any letters, with prefixes: every symbol they produce is one of its own.
fn any_symbols(p: usize, q: usize) {
    const PRE: [(&str, &[&str]); 5] = [("", &[]), ("#[prefix(kilo)]", &["k"]), ("#[prefix(deca, deci)]", &["da", "d"]), ("#[prefix(milli, mega, atto)]", &["m", "M", "a"]), ("#[metric_prefixes]", &["E", "P", "T", "G", "M", "k", "h", "da", "d", "c", "m", "\u{3bc}", "n", "p", "f", "a"])];
    let z = letters("z", 1, 3, true);
    let w = letters("w", 1, 3, true);
    let base = pick(input("base", 1)) == 1;
    let text = format!("quantity_type Q; dimension_type D; dimension A; dimension B; #[base(B)] #[symbol(b0)] unit ub;
        {} #[symbol(zq)] {} unit x{}; {} #[symbol(wq)] unit y = 2.0 * x;", if base { "#[base(A)]" } else { "" }, PRE[p].0, if base { "" } else { " = 3.0 * ub" }, PRE[q].0);
    let mut syms: Vec<String> = vec![z.clone(), w.clone()];
    for x in PRE[p].1 { syms.push(format!("{}{}", x, z)); }
    for x in PRE[q].1 { syms.push(format!("{}{}", x, w)); }
    let mut bad = false;
    for i in 0..syms.len() { for j in 0..i { bad |= syms[i] == syms[j]; } }
    let u = parse(&text);
    check(u.is_some(), "parses");
    let Some(mut u) = u else { return };
    let mut ren = Ren::default();
    ren.add("zq", &z);
    ren.add("wq", &w);
    ren.apply(&mut u);
    let _ = resolve(u);
    let rejected = errors() > 0;
    check(rejected | !bad, "contradictory system rejected");
    check(!rejected | bad, "consistent system accepted");
    if rejected { reach("rejected"); } else { reach("end"); }
}
#[no_mangle] pub extern "C" fn c12_anysym_00() { any_symbols(0, 0) }
#[no_mangle] pub extern "C" fn c12_anysym_01() { any_symbols(0, 1) }
#[no_mangle] pub extern "C" fn c12_anysym_02() { any_symbols(0, 2) }
#[no_mangle] pub extern "C" fn c12_anysym_03() { any_symbols(0, 3) }
#[no_mangle] pub extern "C" fn c12_anysym_04() { any_symbols(0, 4) }
#[no_mangle] pub extern "C" fn c12_anysym_10() { any_symbols(1, 0) }
#[no_mangle] pub extern "C" fn c12_anysym_11() { any_symbols(1, 1) }
#[no_mangle] pub extern "C" fn c12_anysym_12() { any_symbols(1, 2) }
#[no_mangle] pub extern "C" fn c12_anysym_13() { any_symbols(1, 3) }
#[no_mangle] pub extern "C" fn c12_anysym_14() { any_symbols(1, 4) }
#[no_mangle] pub extern "C" fn c12_anysym_20() { any_symbols(2, 0) }
#[no_mangle] pub extern "C" fn c12_anysym_21() { any_symbols(2, 1) }
#[no_mangle] pub extern "C" fn c12_anysym_22() { any_symbols(2, 2) }
#[no_mangle] pub extern "C" fn c12_anysym_23() { any_symbols(2, 3) }
#[no_mangle] pub extern "C" fn c12_anysym_24() { any_symbols(2, 4) }
#[no_mangle] pub extern "C" fn c12_anysym_30() { any_symbols(3, 0) }
#[no_mangle] pub extern "C" fn c12_anysym_31() { any_symbols(3, 1) }
#[no_mangle] pub extern "C" fn c12_anysym_32() { any_symbols(3, 2) }
#[no_mangle] pub extern "C" fn c12_anysym_33() { any_symbols(3, 3) }
#[no_mangle] pub extern "C" fn c12_anysym_34() { any_symbols(3, 4) }
#[no_mangle] pub extern "C" fn c12_anysym_40() { any_symbols(4, 0) }
#[no_mangle] pub extern "C" fn c12_anysym_41() { any_symbols(4, 1) }
#[no_mangle] pub extern "C" fn c12_anysym_42() { any_symbols(4, 2) }
#[no_mangle] pub extern "C" fn c12_anysym_43() { any_symbols(4, 3) }
#[no_mangle] pub extern "C" fn c12_anysym_44() { any_symbols(4, 4) }

/// Two further statements whose names, references and symbols are each any letter.
fn any_two(a: u64) {
    let b = pick(input("b", 5));
    assume(b < MENU && a != 0 && a != 19 && b != 0 && b != 19);
    let used = |m: u64| (matches!(m, 9 | 10 | 11 | 14 | 18 | 21 | 22), matches!(m, 4..=6 | 13 | 18));
    let get = |on: bool, n: &str, e: &str| if on { letters(n, 1, 1, true) } else { String::from(e) };
    let (n, o, z) = (letters("n", 1, 1, true), get(used(a).0, "o", "qo"), get(used(a).1, "z", "qz"));
    let (m, p, w) = (letters("m", 1, 1, true), get(used(b).0, "p", "qp"), get(used(b).1, "w", "qw"));
    let mut r = head();
    let mut t = String::from(HEAD);
    slot_named(a, "nq", "oq", "zq", &mut t, &mut r, &n, &o, &z);
    slot_named(b, "mq", "pq", "yq", &mut t, &mut r, &m, &p, &w);
    let u = parse(&t);
    check(u.is_some() | r.bad, "parses");
    let Some(mut u) = u else { return };
    let mut ren = Ren::default();
    ren.add("nq", &n); ren.add("oq", &o); ren.add("zq", &z); ren.add("wnq", &format!("w{}", n));
    ren.add("mq", &m); ren.add("pq", &p); ren.add("yq", &w); ren.add("wmq", &format!("w{}", m));
    ren.apply(&mut u);
    let _ = resolve(u);
    let rejected = errors() > 0;
    let mut bad = r.verdict();
    let refs = |m: u64| matches!(m, 9 | 10 | 11 | 21 | 22);
    if refs(a) { bad |= n == o; }
    if refs(b) { bad |= m == p; }
    if refs(a) && refs(b) { bad |= (o == m) & (p == n); }
    check(rejected | !bad, "contradictory system rejected");
    check(!rejected | bad, "consistent system accepted");
    if rejected { reach("rejected"); } else { reach("end"); }
}
#[no_mangle] pub extern "C" fn c12_t_two_1() { any_two(1) }
#[no_mangle] pub extern "C" fn c12_t_two_2() { any_two(2) }
#[no_mangle] pub extern "C" fn c12_t_two_3() { any_two(3) }
#[no_mangle] pub extern "C" fn c12_t_two_5() { any_two(5) }
#[no_mangle] pub extern "C" fn c12_t_two_9() { any_two(9) }
#[no_mangle] pub extern "C" fn c12_t_two_10() { any_two(10) }
#[no_mangle] pub extern "C" fn c12_t_two_11() { any_two(11) }
#[no_mangle] pub extern "C" fn c12_t_two_13() { any_two(13) }
#[no_mangle] pub extern "C" fn c12_t_two_14() { any_two(14) }
#[no_mangle] pub extern "C" fn c12_t_two_15() { any_two(15) }
#[no_mangle] pub extern "C" fn c12_t_two_16() { any_two(16) }
#[no_mangle] pub extern "C" fn c12_t_two_17() { any_two(17) }
#[no_mangle] pub extern "C" fn c12_t_two_18() { any_two(18) }
#[no_mangle] pub extern "C" fn c12_t_two_21() { any_two(21) }
#[no_mangle] pub extern "C" fn c12_t_two_22() { any_two(22) }
