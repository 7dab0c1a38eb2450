//! C09: order of definitions, undefined names and cycles.
use super::vfh_h::*;
use crate::sx::*;

const HEAD: &str = "quantity_type Q; dimension_type D; dimension A; dimension B; dimension C;
    #[base(A)] #[symbol(a)] unit ua; #[base(B)] #[symbol(b)] unit ub; #[base(C)] #[symbol(c)] unit uc;";

/// N definitions, each with two references: to any of the definitions, to base names, or to nothing that exists.
/// kinds: bit i set means definition i is a constant; dims: all are dimensions.
fn graph(n: usize, refs: usize, kinds: u64, dims: bool, lo: &[&str], first: usize) {
    const NAMES: [&str; 5] = ["p", "q", "r", "s", "z"];
    const DNAMES: [&str; 5] = ["P", "R", "S", "W", "Z"];
    let names = if dims { DNAMES } else { NAMES };
    let base = if dims { ["A", "C"] } else { ["ua", "uc"] };
    let mut text = String::from(HEAD);
    let mut tgt = [[0usize; 2]; 4];
    let nsym = n + lo.len();
    for i in 0..n {
        text.push_str(if dims { "dimension " } else if kinds >> i & 1 == 1 { "constant " } else { "unit " });
        text.push_str(names[i]);
        text.push_str([" = 2000.0 * ", " = 2001.0 * ", " = 2002.0 * ", " = 2003.0 * "][i]);
        if dims { let l = text.len(); text.truncate(l - 9); }
        for j in 0..refs {
            let t = pick(input(["t0", "u0", "t1", "u1", "t2", "u2", "t3", "u3"][i * 2 + j], 3)) as usize;
            assume(t < nsym && (i + j > 0 || first == 9 || t == first));
            tgt[i][j] = t;
            if j > 0 { text.push_str(" / "); }
            text.push_str(if t < n { names[t] } else { lo[t - n] });
        }
        text.push(';');
    }
    let mut inj = Inj::default();
    let f = if dims { [1.0; 4] } else { [number("f0"), number("f1"), number("f2"), number("f3")] };
    for i in 0..4 { inj.nums[i] = Some(f[i]); }
    // reference: definitions all of whose references are resolvable
    let leaf = |s: &str| -> Option<V> { if s == base[0] { Some(V::new(1, 0, 0, 1.0)) } else if s == base[1] { Some(V::new(0, 0, 1, 1.0)) } else { None } };
    let mut val: [Option<V>; 4] = [None; 4];
    for _ in 0..n {
        for i in 0..n {
            if val[i].is_some() { continue; }
            let mut v = V::new(0, 0, 0, f[i]);
            let mut ok = true;
            for j in 0..refs {
                let t = tgt[i][j];
                let r = if t < n { val[t] } else { leaf(lo[t - n]) };
                match r { None => ok = false, Some(r) => v = if j == 0 { if dims { r } else { v.mul(r) } } else { v.div(r) } }
            }
            if ok { val[i] = Some(v); }
        }
    }
    let mut all = true;
    for i in 0..n { all &= val[i].is_some(); }
    let u = parse(&text);
    check(u.is_some(), "parses");
    let Some(mut u) = u else { return };
    inj.apply(&mut u);
    let d = resolve(u);
    check((errors() > 0) == !all, if all { "resolvable system accepted" } else { "undefined or circular definition reported" });
    for i in 0..n {
        let Some(want) = val[i] else { continue };
        let (b, m) = if dims { (dimension(&d, names[i]).map(|x| &x.dimensions), None) }
            else if kinds >> i & 1 == 1 { let k = constant(&d, names[i]); (k.map(|x| &x.dimensions), k.map(|x| x.magnitude)) }
            else { let k = unit(&d, names[i]); (k.map(|x| &x.dimensions), k.map(|x| x.magnitude)) };
        check(b.is_some(), "resolvable definition is there");
        let Some(b) = b else { return };
        check(dims_are(b, want.d), "dimension");
        if let Some(m) = m { check(same64(m.into_f64(), want.f), "factor"); }
    }
    reach(if all { "end" } else { "rejected" });
}
#[no_mangle] pub extern "C" fn c09_graph_units() { graph(4, 1, 0, false, &["ua", "nowhere"], 9) }
#[no_mangle] pub extern "C" fn c09_graph_mixed() { graph(4, 1, 0b0110, false, &["ua", "nowhere"], 9) }
#[no_mangle] pub extern "C" fn c09_graph_dims() { graph(4, 1, 0, true, &["A", "Nowhere"], 9) }
#[no_mangle] pub extern "C" fn c09_pairs_mixed_0() { graph(3, 2, 0b010, false, &["uc", "nowhere"], 0) }
#[no_mangle] pub extern "C" fn c09_pairs_mixed_1() { graph(3, 2, 0b010, false, &["uc", "nowhere"], 1) }
#[no_mangle] pub extern "C" fn c09_pairs_mixed_2() { graph(3, 2, 0b010, false, &["uc", "nowhere"], 2) }
#[no_mangle] pub extern "C" fn c09_pairs_mixed_3() { graph(3, 2, 0b010, false, &["uc", "nowhere"], 3) }
#[no_mangle] pub extern "C" fn c09_pairs_mixed_4() { graph(3, 2, 0b010, false, &["uc", "nowhere"], 4) }
#[no_mangle] pub extern "C" fn c09_pairs_dims_0() { graph(3, 2, 0, true, &["C", "Nowhere"], 0) }
#[no_mangle] pub extern "C" fn c09_pairs_dims_1() { graph(3, 2, 0, true, &["C", "Nowhere"], 1) }
#[no_mangle] pub extern "C" fn c09_pairs_dims_2() { graph(3, 2, 0, true, &["C", "Nowhere"], 2) }
#[no_mangle] pub extern "C" fn c09_pairs_dims_3() { graph(3, 2, 0, true, &["C", "Nowhere"], 3) }
#[no_mangle] pub extern "C" fn c09_pairs_dims_4() { graph(3, 2, 0, true, &["C", "Nowhere"], 4) }

const STMTS: [&str; 8] = [
    "dimension V = A / G; ", "dimension G = B^2 * C; ", "#[symbol(y)] #[alias(yy)] #[prefix(kilo, nano)] unit y: V = 2000.0 * z; ",
    "unit z = w / x; ", "constant w: A = 2001.0 * ua; ", "#[prefix(mega)] unit x = 2002.0 * uc * ub^2; ",
    "dimension H = V * G; ", "constant q: H = w; ",
];
/// Every order of the statements gives the same system.
fn permuted(n: usize, skip: usize) {
    let mut inj = Inj::default();
    let (f0, f1, f2) = (number("f0"), number("f1"), number("f2"));
    inj.nums[0] = Some(f0); inj.nums[1] = Some(f1); inj.nums[2] = Some(f2);
    let mut text = String::from("quantity_type Q; dimension_type D; ");
    let baseat = pick(input("base", 1));
    if baseat == 0 { text.push_str(&HEAD["quantity_type Q; dimension_type D; ".len()..]); }
    let mut left: Vec<usize> = (0..n + skip).filter(|i| *i >= skip).collect();
    // the statements left out come first, in an order that needs forward references too
    for i in 0..skip { text.push_str(STMTS[i]); }
    let mut k = 0;
    while !left.is_empty() {
        let i = pick(input(["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7"][k], 3)) as usize;
        assume(i < left.len());
        text.push_str(STMTS[left.remove(i)]);
        k += 1;
    }
    for i in n + skip..8 { text.push_str(STMTS[i]); }
    if baseat == 1 { text.push_str(&HEAD["quantity_type Q; dimension_type D; ".len()..]); }
    let u = parse(&text);
    check(u.is_some(), "parses");
    let Some(mut u) = u else { return };
    inj.apply(&mut u);
    let d = resolve(u);
    check(errors() == 0, "accepted");
    let w = V::new(1, 0, 0, f1 * 1.0);
    // b^2 contributes its factor 1 to the power 2
    let x = V::new(0, 2, 1, f2 * 1.0 * powf(1.0, 2));
    let z = w.div(x);
    let y = V::new(z.d[0], z.d[1], z.d[2], f0 * z.f);
    let mut ok = dimension(&d, "V").map_or(false, |v| dims_are(&v.dimensions, [1, -2, -1]));
    ok &= dimension(&d, "G").map_or(false, |v| dims_are(&v.dimensions, [0, 2, 1]));
    ok &= dimension(&d, "H").map_or(false, |v| dims_are(&v.dimensions, [1, 0, 0]));
    check(ok, "dimensions");
    for (n, v, p) in [("y", y, 1.0), ("z", z, 1.0), ("x", x, 1.0), ("kiloy", y, 1e3), ("nanoyy", y, 1e-9), ("kiloyy", y, 1e3), ("nanoy", y, 1e-9), ("yy", y, 1.0), ("megax", x, 1e6)] {
        let u = unit(&d, n);
        check(u.is_some(), "unit is there");
        let Some(u) = u else { return };
        check(dims_are(&u.dimensions, v.d), "dimension of unit");
        check(same64(u.magnitude.into_f64(), p * v.f), "factor of unit");
    }
    for n in ["w", "q"] {
        let u = constant(&d, n);
        check(u.is_some(), "constant is there");
        let Some(u) = u else { return };
        check(dims_are(&u.dimensions, w.d), "dimension of constant");
        check(same64(u.magnitude.into_f64(), w.f), "factor of constant");
    }
    check(d.base_dimensions.len() == 3, "base dimensions");
    reach("end");
}
#[no_mangle] pub extern "C" fn c09_permute_first() { permuted(5, 0) }
#[no_mangle] pub extern "C" fn c09_permute_middle() { permuted(5, 2) }
#[no_mangle] pub extern "C" fn c09_permute_last() { permuted(5, 3) }
#[no_mangle] pub extern "C" fn c09_permute_seven() { permuted(7, 0) }
/// Prefixed and aliased units whose unit is undefined or circular are reported, not defined with a made-up value.
#[no_mangle] pub extern "C" fn c09_generated() {
    let bad = pick(input("bad", 2)) as usize;
    let dep = pick(input("dep", 1)) as usize;
    let f = number("f0");
    let mut u = parse(HEAD).unwrap();
    let text = format!("#[prefix(kilo)] #[alias(yy)] unit y = {}; unit ok = 2000.0 * uc; {}",
        ["nowhere", "x * ua", "2000.0 * ub", "y"][bad], ["unit x = kiloyy / ua", "constant x = ok"][dep]);
    let t = parse(&text);
    check(t.is_some(), "parses");
    let Some(t) = t else { return };
    merge(&mut u, t);
    let mut inj = Inj::default();
    inj.nums[0] = Some(f);
    inj.apply(&mut u);
    let d = resolve(u);
    let fails = bad == 0 || bad == 3 || bad == 1 && dep == 0;
    check((errors() > 0) == fails, if fails { "reported" } else { "accepted" });
    let o = unit(&d, "ok");
    check(o.is_some(), "resolvable definition is there");
    let Some(o) = o else { return };
    check(same64(o.magnitude.into_f64(), f * 1.0) && dims_are(&o.dimensions, [0, 0, 1]), "resolvable definition keeps its value");
    reach("end");
}

/// Three definitions whose references are any names at all.
fn any_reference(kind: u64) {
    let dims = kind == 2;
    let mut text = String::from(HEAD);
    text.push_str(["unit p = 2000.0 * r0; constant s = 2001.0 / r1; unit q = 2002.0 * r2;", "constant p = 2000.0 * r0; unit s = 2001.0 / r1; constant q = 2002.0 * r2;", "dimension P = r0; dimension S = 1 / r1; dimension R = r2;"][kind as usize]);
    let own = if dims { ["P", "S", "R"] } else { ["p", "s", "q"] };
    let leaf = if dims { ["A", "B", "C"] } else { ["ua", "ub", "uc"] };
    let mut ren = Ren::default();
    let r = [letters("r0", 1, 2, dims), letters("r1", 1, 2, dims), letters("r2", 1, 2, dims)];
    for i in 0..3 { ren.add(["r0", "r1", "r2"][i], &r[i]); }
    // in a system of units, references to dimensions cannot be spelled with small letters
    let mut inj = Inj::default();
    let f = if dims { [1.0; 3] } else { [number("f0"), number("f1"), number("f2")] };
    for i in 0..3 { inj.nums[i] = Some(f[i]); }
    let u = parse(&text);
    check(u.is_some(), "parses");
    let Some(mut u) = u else { return };
    ren.apply(&mut u);
    inj.apply(&mut u);
    let d = resolve(u);
    let mut tgt = [9usize; 3];
    for i in 0..3 {
        for j in 0..3 {
            if r[i] == own[j] { tgt[i] = j; break; }
            if r[i] == leaf[j] { tgt[i] = 3 + j; break; }
            if dims && j == 0 && r[i] == "G" { tgt[i] = 9; break; }
        }
    }
    let mut val: [Option<V>; 3] = [None; 3];
    for _ in 0..3 { for i in 0..3 {
        let x = match tgt[i] { 9 => continue, t if t < 3 => val[t], t => { let mut v = V::new(0, 0, 0, 1.0); v.d[t - 3] = 1; Some(v) } };
        let Some(x) = x else { continue };
        val[i] = Some(if i == 1 { V::new(0, 0, 0, f[1]).div(x) } else if dims { x } else { V::new(0, 0, 0, f[i]).mul(x) });
    } }
    let all = val[0].is_some() && val[1].is_some() && val[2].is_some();
    check((errors() > 0) == !all, if all { "resolvable system accepted" } else { "undefined or circular definition reported" });
    for i in 0..3 {
        let Some(want) = val[i] else { continue };
        let (b, m) = if dims { (dimension(&d, own[i]).map(|x| &x.dimensions), None) }
            else if (kind == 0) == (i == 1) { let k = constant(&d, own[i]); (k.map(|x| &x.dimensions), k.map(|x| x.magnitude)) }
            else { let k = unit(&d, own[i]); (k.map(|x| &x.dimensions), k.map(|x| x.magnitude)) };
        check(b.is_some(), "resolvable definition is there");
        let Some(b) = b else { return };
        check(dims_are(b, want.d), "dimension");
        if let Some(m) = m { check(same64(m.into_f64(), want.f), "factor"); }
    }
    reach(if all { "end" } else { "rejected" });
}
#[no_mangle] pub extern "C" fn c09_any_units() { any_reference(0) }
#[no_mangle] pub extern "C" fn c09_any_constants() { any_reference(1) }
#[no_mangle] pub extern "C" fn c09_any_dims() { any_reference(2) }
/// A chain of definitions, whatever their names are and therefore however they sort.
fn any_names(dims: bool) {
    let text = format!("{}{}", HEAD, if dims { "dimension n0 = n1 * B; dimension n1 = n2 / n3; dimension n2 = A; dimension n3 = n2^2 * C;" }
        else { "unit n0 = 2000.0 * n1 * ub; constant n1 = n2 / n3; unit n2 = 2001.0 * ua; unit n3 = 2002.0 * n2 * n2 * uc;" });
    let mut ren = Ren::default();
    let n = [letters("n0", 1, 2, dims), letters("n1", 2, 2, dims), letters("n2", 1, 2, dims), letters("n3", 2, 2, dims)];
    for i in 0..4 {
        for l in ["ua", "ub", "uc", "A", "B", "C", "D", "Q"] { assume(n[i] != l); }
        for j in 0..i { assume(n[i] != n[j]); }
        ren.add(["n0", "n1", "n2", "n3"][i], &n[i]);
    }
    let mut inj = Inj::default();
    let f = if dims { [1.0; 3] } else { [number("f0"), number("f1"), number("f2")] };
    for i in 0..3 { inj.nums[i] = Some(f[i]); }
    let u = parse(&text);
    check(u.is_some(), "parses");
    let Some(mut u) = u else { return };
    ren.apply(&mut u);
    inj.apply(&mut u);
    let d = resolve(u);
    check(errors() == 0, "resolvable system accepted");
    let v2 = V::new(1, 0, 0, f[1]);
    let v3 = if dims { V::new(2, 0, 1, 1.0) } else { V::new(0, 0, 0, f[2]).mul(v2).mul(v2).mul(V::new(0, 0, 1, 1.0)) };
    let v1 = v2.div(v3);
    let v0 = if dims { v1.mul(V::new(0, 1, 0, 1.0)) } else { V::new(0, 0, 0, f[0]).mul(v1).mul(V::new(0, 1, 0, 1.0)) };
    let v2 = if dims { v2 } else { V::new(0, 0, 0, f[1]).mul(V::new(1, 0, 0, 1.0)) };
    for (i, want) in [v0, v1, v2, v3].into_iter().enumerate() {
        let (b, m) = if dims { (dimension(&d, &n[i]).map(|x| &x.dimensions), None) }
            else if i == 1 { let k = constant(&d, &n[i]); (k.map(|x| &x.dimensions), k.map(|x| x.magnitude)) }
            else { let k = unit(&d, &n[i]); (k.map(|x| &x.dimensions), k.map(|x| x.magnitude)) };
        check(b.is_some(), "definition is there");
        let Some(b) = b else { return };
        check(dims_are(b, want.d), "dimension");
        if let Some(m) = m { check(same64(m.into_f64(), want.f), "factor"); }
    }
    reach("end");
}
#[no_mangle] pub extern "C" fn c09_any_names() { any_names(false) }
#[no_mangle] pub extern "C" fn c09_any_dim_names() { any_names(true) }
