//! Hash-consed bit-vector expression DAG with simplification, exact concrete evaluation and SMT-LIB output.
//! Floating point values are bit-vectors; floating point operations are function nodes that the solver sees
//! either as uninterpreted functions (sound abstraction) or as exact IEEE-754 operations.
use crate::ir::{mask, sext};
use std::collections::HashMap;

pub type E = u32;
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Const, Var, Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr,
    Eq, Ult, Ule, Slt, Sle, Ite, ZExt, SExt, Extract, Concat,
    // floating point, operands are bit-vectors of width 32/64 (see width of first operand)
    FAdd, FMul, FDiv, FRem, FSqrt, FFma, FTrunc, FExt, FToS, FToU, SToF, UToF,
    // round: imm selects mode: 0 floor 1 ceil 2 trunc 3 round-away 4 round-even
    FRound,
    // tie of min/max (order of zeros): left to the platform
    FTie,
    // uninterpreted library function, imm = name id
    Uf,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub k: K,
    pub w: u32,
    pub a: [E; 3],
    pub imm: u128,
}
#[derive(Clone, Default, Debug)]
pub struct Model {
    pub v: HashMap<E, u128>,
}

#[derive(Default)]
pub struct Dag {
    pub n: Vec<Node>,
    map: HashMap<Node, E>,
    pub ub: Vec<u16>,
    pub sb: Vec<u16>,
    pub fp: Vec<bool>,
    /// structural key in which a mirror variable counts as its original (operand order of commutative FP operations)
    pub key: Vec<u64>,
    pub vars: Vec<(String, E)>,
    pub ufs: Vec<String>,
    pub narrow_vars: HashMap<E, u32>,
    depth: u32,
    pending_name: String,
}
const NO: E = u32::MAX;

fn bits(v: u128) -> u32 {
    128 - v.leading_zeros()
}
fn sbits(v: u128, w: u32) -> u32 {
    let s = sext(v, w);
    if s >= 0 { bits(s as u128) + 1 } else { bits(!(s as u128)) + 1 }
}

impl Dag {
    pub fn node(&self, e: E) -> &Node {
        &self.n[e as usize]
    }
    pub fn w(&self, e: E) -> u32 {
        self.n[e as usize].w
    }
    pub fn cv(&self, e: E) -> Option<u128> {
        let n = &self.n[e as usize];
        if n.k == K::Const { Some(n.imm) } else { None }
    }
    fn mk(&mut self, k: K, w: u32, a: [E; 3], imm: u128) -> E {
        let n = Node { k, w, a, imm };
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.n.len() as E;
        let (ub, sb) = self.range(&n);
        let isfp = matches!(k, K::FAdd | K::FMul | K::FDiv | K::FRem | K::FSqrt | K::FFma | K::FTrunc | K::FExt | K::FToS | K::FToU | K::SToF | K::UToF | K::FRound | K::FTie | K::Uf);
        let fp = isfp || a.iter().any(|&x| x != NO && self.fp[x as usize]);
        self.n.push(n.clone());
        self.ub.push(ub as u16);
        self.sb.push(sb as u16);
        self.fp.push(fp);
        let mut h: u64 = 0xcbf29ce484222325 ^ (k as u64).wrapping_mul(0x9e3779b97f4a7c15) ^ (w as u64);
        if k == K::Var {
            for b in self.pending_name.trim_start_matches('~').bytes() {
                h = (h ^ b as u64).wrapping_mul(0x100000001b3);
            }
        } else {
            for x in [imm as u64, (imm >> 64) as u64] {
                h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(29);
            }
            for &x in a.iter().filter(|&&x| x != NO) {
                h = (h ^ self.key[x as usize]).wrapping_mul(0x9E3779B97F4A7C15).rotate_left(31);
            }
        }
        self.key.push(h);
        self.map.insert(n, e);
        e
    }
    fn range(&self, n: &Node) -> (u32, u32) {
        let w = n.w;
        let u = |i: usize| self.ub[n.a[i] as usize] as u32;
        let s = |i: usize| self.sb[n.a[i] as usize] as u32;
        let (ub, sb) = match n.k {
            K::Const => (bits(n.imm), sbits(n.imm, w)),
            K::ZExt => (u(0), u(0) + 1),
            K::SExt => {
                let cw = self.w(n.a[0]);
                if u(0) < cw { (u(0), u(0) + 1) } else { (w, s(0)) }
            }
            K::And => (u(0).min(u(1)), w),
            K::Or | K::Xor => (u(0).max(u(1)), s(0).max(s(1))),
            K::Add => (u(0).max(u(1)) + 1, s(0).max(s(1)) + 1),
            K::Sub => (w, s(0).max(s(1)) + 1),
            K::Mul => (u(0) + u(1), s(0) + s(1)),
            K::UDiv => (u(0), w),
            K::URem => (u(0).min(u(1).max(1)), w),
            K::SDiv => (w, s(0) + 1),
            K::SRem => (w, s(0)),
            K::LShr => (match self.cv(n.a[1]) { Some(c) => u(0).saturating_sub(c.min(200) as u32), None => u(0) }, w),
            K::AShr => (w, s(0)),
            K::Ite => (u(1).max(u(2)), s(1).max(s(2))),
            K::Concat => {
                let lw = self.w(n.a[1]);
                (if u(0) == 0 { u(1) } else { u(0) + lw }, s(0) + lw)
            }
            _ => (w, w),
        };
        let ub = ub.min(w);
        let mut sb = sb.min(w);
        if ub < w {
            sb = sb.min(ub + 1);
        }
        (ub, sb)
    }
    pub fn c(&mut self, v: u128, w: u32) -> E {
        self.mk(K::Const, w, [NO; 3], v & mask(w))
    }
    pub fn var(&mut self, name: &str, w: u32) -> E {
        self.pending_name = name.to_string();
        let e = self.mk(K::Var, w, [NO; 3], self.vars.len() as u128);
        self.vars.push((name.to_string(), e));
        e
    }
    pub fn t(&mut self) -> E {
        self.c(1, 1)
    }
    pub fn f(&mut self) -> E {
        self.c(0, 1)
    }

    // ---- structural helpers
    pub fn zext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        debug_assert!(aw < w);
        if let Some(v) = self.cv(a) {
            return self.c(v, w);
        }
        let n = self.node(a).clone();
        if n.k == K::ZExt {
            return self.zext(n.a[0], w);
        }
        if n.k == K::Concat {
            if let Some(v) = self.cv(n.a[0]) {
                let lw = self.w(n.a[1]);
                let c = self.c(v, w - lw);
                return self.concat(c, n.a[1]);
            }
        }
        self.mk(K::ZExt, w, [a, NO, NO], 0)
    }
    pub fn sext(&mut self, a: E, w: u32) -> E {
        let aw = self.w(a);
        if aw == w {
            return a;
        }
        if let Some(v) = self.cv(a) {
            return self.c(sext(v, aw) as u128, w);
        }
        let n = self.node(a).clone();
        if n.k == K::SExt {
            return self.sext(n.a[0], w);
        }
        if (self.ub[a as usize] as u32) < aw {
            return self.zext(a, w);
        }
        self.mk(K::SExt, w, [a, NO, NO], 0)
    }
    pub fn extract(&mut self, a: E, lo: u32, w: u32) -> E {
        let aw = self.w(a);
        if lo == 0 && w == aw {
            return a;
        }
        debug_assert!(lo + w <= aw);
        if let Some(v) = self.cv(a) {
            return self.c(v >> lo, w);
        }
        if lo >= self.ub[a as usize] as u32 {
            return self.c(0, w);
        }
        let n = self.node(a).clone();
        match n.k {
            K::Extract => return self.extract(n.a[0], lo + n.imm as u32, w),
            K::ZExt => {
                let cw = self.w(n.a[0]);
                if lo + w <= cw {
                    return self.extract(n.a[0], lo, w);
                }
                let x = self.extract(n.a[0], lo, cw - lo);
                return self.zext(x, w);
            }
            K::SExt => {
                let cw = self.w(n.a[0]);
                if lo + w <= cw {
                    return self.extract(n.a[0], lo, w);
                }
                if lo < cw {
                    let x = self.extract(n.a[0], lo, cw - lo);
                    return self.sext(x, w);
                }
                let x = self.extract(n.a[0], cw - 1, 1);
                return self.sext(x, w);
            }
            K::Concat => {
                let lw = self.w(n.a[1]);
                if lo + w <= lw {
                    return self.extract(n.a[1], lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a[0], lo - lw, w);
                }
                let h = self.extract(n.a[0], 0, lo + w - lw);
                let l = self.extract(n.a[1], lo, lw - lo);
                return self.concat(h, l);
            }
            K::And | K::Or | K::Xor => {
                if self.cv(n.a[1]).is_some() || lo == 0 {
                    let x = self.extract(n.a[0], lo, w);
                    let y = self.extract(n.a[1], lo, w);
                    return match n.k {
                        K::And => self.and(x, y),
                        K::Or => self.or(x, y),
                        _ => self.xor(x, y),
                    };
                }
            }
            K::Ite => {
                let (tc, fc) = (self.cv(n.a[1]).is_some(), self.cv(n.a[2]).is_some());
                if tc || fc || self.is_ext(n.a[1]) || self.is_ext(n.a[2]) {
                    let x = self.extract(n.a[1], lo, w);
                    let y = self.extract(n.a[2], lo, w);
                    return self.ite(n.a[0], x, y);
                }
            }
            K::Add | K::Sub | K::Mul if lo == 0 && w > 1 => {
                let x = self.extract(n.a[0], 0, w);
                let y = self.extract(n.a[1], 0, w);
                return match n.k {
                    K::Add => self.add(x, y),
                    K::Sub => self.sub(x, y),
                    _ => self.mul(x, y),
                };
            }
            _ => {}
        }
        self.mk(K::Extract, w, [a, NO, NO], lo as u128)
    }
    fn is_ext(&self, e: E) -> bool {
        matches!(self.n[e as usize].k, K::ZExt | K::SExt | K::Concat)
    }
    pub fn concat(&mut self, h: E, l: E) -> E {
        let (hw, lw) = (self.w(h), self.w(l));
        let w = hw + lw;
        assert!(w <= 128, "concat too wide");
        if let Some(hv) = self.cv(h) {
            if let Some(lv) = self.cv(l) {
                return self.c((hv << lw) | lv, w);
            }
            if hv == 0 {
                return self.zext(l, w);
            }
        }
        let (hn, ln) = (self.node(h).clone(), self.node(l).clone());
        if hn.k == K::ZExt {
            let x = self.concat(hn.a[0], l);
            return self.zext(x, w);
        }
        if hn.k == K::Extract && ln.k == K::Extract && hn.a[0] == ln.a[0] && hn.imm == ln.imm + lw as u128 {
            return self.extract(hn.a[0], ln.imm as u32, w);
        }
        if let Some(hv) = self.cv(h) {
            // constants gather at the top
            if ln.k == K::ZExt {
                let xw = self.w(ln.a[0]);
                let c = self.c(hv << (lw - xw), w - xw);
                return self.concat(c, ln.a[0]);
            }
            if ln.k == K::Concat {
                if let Some(v) = self.cv(ln.a[0]) {
                    let lw1 = self.w(ln.a[0]);
                    let c = self.c(hv << lw1 | v, hw + lw1);
                    return self.concat(c, ln.a[1]);
                }
            }
        }
        // concat(h, concat(l1,l2)) with mergeable h,l1
        if ln.k == K::Concat {
            let l1 = self.node(ln.a[0]).clone();
            if hn.k == K::Extract && l1.k == K::Extract && hn.a[0] == l1.a[0] && hn.imm == l1.imm + l1.w as u128 {
                let x = self.extract(hn.a[0], l1.imm as u32, hw + l1.w);
                return self.concat(x, ln.a[1]);
            }
        }
        if hn.k == K::Concat {
            // right-associate
            let x = self.concat(hn.a[1], l);
            return self.concat(hn.a[0], x);
        }
        self.mk(K::Concat, w, [h, l, NO], 0)
    }
    pub fn not(&mut self, a: E) -> E {
        let w = self.w(a);
        if w == 1 {
            let n = self.node(a).clone();
            // canonical flips
            match n.k {
                K::Ult => return self.mkcmp(K::Ule, n.a[1], n.a[0]),
                K::Ule => return self.mkcmp(K::Ult, n.a[1], n.a[0]),
                K::Slt => return self.mkcmp(K::Sle, n.a[1], n.a[0]),
                K::Sle => return self.mkcmp(K::Slt, n.a[1], n.a[0]),
                _ => {}
            }
        }
        let m = self.c(mask(w), w);
        self.xor(a, m)
    }
    fn mkcmp(&mut self, k: K, a: E, b: E) -> E {
        match k {
            K::Ult => self.ult(a, b),
            K::Ule => self.ule(a, b),
            K::Slt => self.slt(a, b),
            _ => self.sle(a, b),
        }
    }
    pub fn and(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x & y, w);
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(m) = self.cv(b) {
            if m == 0 {
                return b;
            }
            if m == mask(w) {
                return a;
            }
            // contiguous mask
            let lo = m.trailing_zeros();
            let hi = bits(m);
            if m == mask(hi) & !mask(lo) || lo == 0 && m == mask(hi) {
                let x = self.extract(a, lo, hi - lo);
                let x = if lo > 0 {
                    let z = self.c(0, lo);
                    self.concat(x, z)
                } else {
                    x
                };
                return self.zext(x, w);
            }
            let n = self.node(a).clone();
            if n.k == K::And {
                if let Some(m2) = self.cv(n.a[1]) {
                    let k = self.c(m & m2, w);
                    return self.and(n.a[0], k);
                }
            }
            if bits(m) < w {
                let h = bits(m);
                let x = self.extract(a, 0, h);
                let y = self.c(m, h);
                let r = self.and(x, y);
                return self.zext(r, w);
            }
        }
        if w == 1 {
            let (na, nb) = (self.not_of(a), self.not_of(b));
            if na == Some(b) || nb == Some(a) {
                return self.f();
            }
        }
        let u = (self.ub[a as usize].min(self.ub[b as usize])) as u32;
        if u < w && u > 0 {
            let x = self.extract(a, 0, u);
            let y = self.extract(b, 0, u);
            let r = self.and(x, y);
            return self.zext(r, w);
        }
        self.mk(K::And, w, [a, b, NO], 0)
    }
    fn not_of(&self, a: E) -> Option<E> {
        let n = self.node(a);
        if n.k == K::Xor && n.w == 1 && self.cv(n.a[1]) == Some(1) { Some(n.a[0]) } else { None }
    }
    pub fn or(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return a;
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x | y, w);
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(m) = self.cv(b) {
            if m == 0 {
                return a;
            }
            if m == mask(w) {
                return b;
            }
        }
        if w == 1 {
            let (na, nb) = (self.not_of(a), self.not_of(b));
            if na == Some(b) || nb == Some(a) {
                return self.t();
            }
        } else {
            // disjoint composition: low part of one, high part (concat .. 0) of other
            for (x, y) in [(a, b), (b, a)] {
                let ux = self.ub[x as usize] as u32;
                if ux > 0 && ux < w {
                    let tz = self.tz(y);
                    if tz >= ux {
                        let l0 = self.extract(x, 0, tz.min(w - 1));
                        let tz = tz.min(w - 1);
                        let h = self.extract(y, tz, w - tz);
                        return self.concat(h, l0);
                    }
                }
            }
        }
        if let Some(m) = self.cv(b) {
            let n = self.node(a).clone();
            if n.k == K::Concat {
                let lw = self.w(n.a[1]);
                let (ch, cl) = (self.c(m >> lw, w - lw), self.c(m, lw));
                let h = self.or(n.a[0], ch);
                let l = self.or(n.a[1], cl);
                return self.concat(h, l);
            }
            if n.k == K::ZExt && w > 1 {
                let lw = self.w(n.a[0]);
                let (ch, cl) = (self.c(m >> lw, w - lw), self.c(m, lw));
                let l = self.or(n.a[0], cl);
                return self.concat(ch, l);
            }
        }
        self.mk(K::Or, w, [a, b, NO], 0)
    }
    /// known trailing zero bits
    fn tz(&self, e: E) -> u32 {
        let n = self.node(e);
        match n.k {
            K::Const => if n.imm == 0 { n.w } else { n.imm.trailing_zeros() },
            K::Concat => {
                let l = self.tz(n.a[1]);
                let lw = self.w(n.a[1]);
                if l == lw { lw + self.tz(n.a[0]) } else { l }
            }
            K::ZExt | K::SExt => {
                let l = self.tz(n.a[0]);
                if l == self.w(n.a[0]) { n.w } else { l }
            }
            K::Ite => self.tz(n.a[1]).min(self.tz(n.a[2])),
            _ => 0,
        }
    }
    pub fn xor(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.c(0, w);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(x ^ y, w);
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(m) = self.cv(b) {
            if m == 0 {
                return a;
            }
            let n = self.node(a).clone();
            if n.k == K::Xor {
                if let Some(m2) = self.cv(n.a[1]) {
                    let k = self.c(m ^ m2, w);
                    return self.xor(n.a[0], k);
                }
            }
            if w == 1 && m == 1 && matches!(n.k, K::Ult | K::Ule | K::Slt | K::Sle) {
                return self.not(a);
            }
        }
        if let Some(m) = self.cv(b) {
            let n = self.node(a).clone();
            if n.k == K::Concat {
                let lw = self.w(n.a[1]);
                let (ch, cl) = (self.c(m >> lw, w - lw), self.c(m, lw));
                let h = self.xor(n.a[0], ch);
                let l = self.xor(n.a[1], cl);
                return self.concat(h, l);
            }
            if n.k == K::ZExt && w > 1 {
                let lw = self.w(n.a[0]);
                let (ch, cl) = (self.c(m >> lw, w - lw), self.c(m, lw));
                let l = self.xor(n.a[0], cl);
                return self.concat(ch, l);
            }
        }
        self.mk(K::Xor, w, [a, b, NO], 0)
    }
    fn cbin(k: K, x: u128, y: u128, w: u32) -> u128 {
        let m = mask(w);
        let r = match k {
            K::Add => x.wrapping_add(y),
            K::Sub => x.wrapping_sub(y),
            K::Mul => x.wrapping_mul(y),
            K::UDiv => if y == 0 { m } else { x / y },
            K::URem => if y == 0 { x } else { x % y },
            K::SDiv => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 { if a < 0 { 1 } else { m } } else { a.wrapping_div(b) as u128 }
            }
            K::SRem => {
                let (a, b) = (sext(x, w), sext(y, w));
                if b == 0 { x } else { a.wrapping_rem(b) as u128 }
            }
            K::And => x & y,
            K::Or => x | y,
            K::Xor => x ^ y,
            K::Shl => if y >= w as u128 { 0 } else { x << y },
            K::LShr => if y >= w as u128 { 0 } else { x >> y },
            K::AShr => {
                let s = (y.min(w as u128 - 1)) as u32;
                (sext(x, w) >> s) as u128
            }
            _ => unreachable!(),
        };
        r & m
    }
    fn narrow(&mut self, k: K, a: E, b: E, need_u: Option<u32>, need_s: Option<u32>) -> Option<E> {
        let w = self.w(a);
        if let Some(u) = need_u {
            if u < w && u > 0 {
                let x = self.extract(a, 0, u);
                let y = self.extract(b, 0, u);
                let r = self.arith(k, x, y);
                return Some(self.zext(r, w));
            }
        }
        if let Some(s) = need_s {
            if s < w {
                let x = self.extract(a, 0, s);
                let y = self.extract(b, 0, s);
                let r = self.arith(k, x, y);
                return Some(self.sext(r, w));
            }
        }
        None
    }
    pub fn arith(&mut self, k: K, a: E, b: E) -> E {
        match k {
            K::Add => self.add(a, b),
            K::Sub => self.sub(a, b),
            K::Mul => self.mul(a, b),
            K::And => self.and(a, b),
            K::Or => self.or(a, b),
            K::Xor => self.xor(a, b),
            K::Shl | K::LShr | K::AShr => self.shift(k, a, b),
            _ => self.divrem(k, a, b),
        }
    }
    pub fn add(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(Self::cbin(K::Add, x, y, w), w);
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return a;
            }
            let n = self.node(a).clone();
            if n.k == K::Add {
                if let Some(z) = self.cv(n.a[1]) {
                    let k = self.c(y.wrapping_add(z), w);
                    return self.add(n.a[0], k);
                }
            }
        }
        let u = self.ub[a as usize].max(self.ub[b as usize]) as u32 + 1;
        let s = self.sb[a as usize].max(self.sb[b as usize]) as u32 + 1;
        if let Some(r) = self.narrow(K::Add, a, b, Some(u), Some(s)) {
            return r;
        }
        self.mk(K::Add, w, [a, b, NO], 0)
    }
    pub fn sub(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.xor(a, b);
        }
        if a == b {
            return self.c(0, w);
        }
        if let Some(y) = self.cv(b) {
            let k = self.c(y.wrapping_neg(), w);
            return self.add(a, k);
        }
        // (x + c) - x
        let na = self.node(a).clone();
        if na.k == K::Add && na.a[0] == b {
            return na.a[1];
        }
        let s = self.sb[a as usize].max(self.sb[b as usize]) as u32 + 1;
        if let Some(r) = self.narrow(K::Sub, a, b, None, Some(s)) {
            return r;
        }
        self.mk(K::Sub, w, [a, b, NO], 0)
    }
    pub fn mul(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if w == 1 {
            return self.and(a, b);
        }
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(Self::cbin(K::Mul, x, y, w), w);
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return b;
            }
            if y == 1 {
                return a;
            }
            if y.is_power_of_two() {
                let k = self.c(y.trailing_zeros() as u128, w);
                return self.shift(K::Shl, a, k);
            }
        }
        let u = self.ub[a as usize] as u32 + self.ub[b as usize] as u32;
        let s = self.sb[a as usize] as u32 + self.sb[b as usize] as u32;
        if let Some(r) = self.narrow(K::Mul, a, b, Some(u), Some(s)) {
            return r;
        }
        self.mk(K::Mul, w, [a, b, NO], 0)
    }
    pub fn divrem(&mut self, k: K, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c(Self::cbin(k, x, y, w), w);
        }
        if let Some(y) = self.cv(b) {
            if y == 1 {
                return match k {
                    K::UDiv | K::SDiv => a,
                    _ => self.c(0, w),
                };
            }
            if y.is_power_of_two() && k == K::UDiv {
                let s = self.c(y.trailing_zeros() as u128, w);
                return self.shift(K::LShr, a, s);
            }
            if y.is_power_of_two() && k == K::URem {
                let s = self.c(y - 1, w);
                return self.and(a, s);
            }
        }
        match k {
            K::UDiv | K::URem => {
                // division by zero is UB in the source and never reached; width must keep b's value
                let u = self.ub[a as usize].max(self.ub[b as usize]) as u32;
                if self.cv(b).map_or(false, |v| v != 0) || true {
                    if u < w && u > 0 {
                        let x = self.extract(a, 0, u);
                        let y = self.extract(b, 0, u);
                        let r = self.divrem(k, x, y);
                        return self.zext(r, w);
                    }
                }
            }
            _ => {
                let s = self.sb[a as usize].max(self.sb[b as usize]) as u32 + 1;
                if s < w {
                    let x = self.extract(a, 0, s);
                    let y = self.extract(b, 0, s);
                    // both nonnegative: unsigned
                    let (ua, ubb) = (self.ub[a as usize] as u32, self.ub[b as usize] as u32);
                    if ua < w && ubb < w {
                        let k2 = if k == K::SDiv { K::UDiv } else { K::URem };
                        return self.divrem(k2, a, b);
                    }
                    let r = self.divrem(k, x, y);
                    return self.sext(r, w);
                }
            }
        }
        self.mk(k, w, [a, b, NO], 0)
    }
    pub fn shift(&mut self, k: K, a: E, b: E) -> E {
        let w = self.w(a);
        if let Some(s) = self.cv(b) {
            if let Some(x) = self.cv(a) {
                return self.c(Self::cbin(k, x, s, w), w);
            }
            if s == 0 {
                return a;
            }
            if s >= w as u128 {
                if k == K::AShr {
                    let x = self.extract(a, w - 1, 1);
                    return self.sext(x, w);
                }
                return self.c(0, w);
            }
            let s = s as u32;
            return match k {
                K::Shl => {
                    let x = self.extract(a, 0, w - s);
                    let z = self.c(0, s);
                    self.concat(x, z)
                }
                K::LShr => {
                    let x = self.extract(a, s, w - s);
                    self.zext(x, w)
                }
                _ => {
                    let x = self.extract(a, s, w - s);
                    self.sext(x, w)
                }
            };
        }
        if self.cv(a) == Some(0) {
            return a;
        }
        self.mk(k, w, [a, b, NO], 0)
    }
    pub fn eq(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((x == y) as u128, 1);
        }
        let (a, b) = if self.cv(a).is_some() || (self.cv(b).is_none() && a > b) { (b, a) } else { (a, b) };
        if w == 1 {
            if let Some(y) = self.cv(b) {
                return if y == 1 { a } else { self.not(a) };
            }
            let x = self.xor(a, b);
            return self.not(x);
        }
        // narrow
        let s = self.sb[a as usize].max(self.sb[b as usize]) as u32;
        let u = self.ub[a as usize].max(self.ub[b as usize]) as u32;
        let m = s.min(u).max(1);
        if m < w {
            let x = self.extract(a, 0, m);
            let y = self.extract(b, 0, m);
            return self.eq(x, y);
        }
        let na = self.node(a).clone();
        if let Some(y) = self.cv(b) {
            match na.k {
                K::Ite => {
                    let (p, q) = (self.cv(na.a[1]), self.cv(na.a[2]));
                    if p.is_some() || q.is_some() {
                        let x = self.eq(na.a[1], b);
                        let z = self.eq(na.a[2], b);
                        return self.ite(na.a[0], x, z);
                    }
                }
                K::Add => {
                    if let Some(z) = self.cv(na.a[1]) {
                        let k = self.c(y.wrapping_sub(z), w);
                        return self.eq(na.a[0], k);
                    }
                }
                K::Xor => {
                    if let Some(z) = self.cv(na.a[1]) {
                        let k = self.c(y ^ z, w);
                        return self.eq(na.a[0], k);
                    }
                }
                K::Concat => {
                    let lw = self.w(na.a[1]);
                    let kl = self.c(y, lw);
                    let kh = self.c(y >> lw, w - lw);
                    let x = self.eq(na.a[0], kh);
                    let z = self.eq(na.a[1], kl);
                    return self.and(x, z);
                }
                K::ZExt => {
                    let cw = self.w(na.a[0]);
                    if y > mask(cw) {
                        return self.f();
                    }
                    let k = self.c(y, cw);
                    return self.eq(na.a[0], k);
                }
                _ => {}
            }
        } else {
            let nb = self.node(b).clone();
            if na.k == K::Concat && nb.k == K::Concat && self.w(na.a[1]) == self.w(nb.a[1]) {
                let x = self.eq(na.a[0], nb.a[0]);
                let z = self.eq(na.a[1], nb.a[1]);
                return self.and(x, z);
            }
            if na.k == K::Xor && nb.k == K::Xor && na.a[1] == nb.a[1] && self.cv(na.a[1]).is_some() {
                return self.eq(na.a[0], nb.a[0]);
            }
        }
        self.mk(K::Eq, 1, [a, b, NO], 0)
    }
    pub fn ult(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((x < y) as u128, 1);
        }
        let (ua, ubb) = (self.ub[a as usize] as u32, self.ub[b as usize] as u32);
        if let Some(y) = self.cv(b) {
            if y == 0 {
                return self.f();
            }
            if y == 1 {
                let z = self.c(0, w);
                return self.eq(a, z);
            }
            if ua < 128 && (1u128 << ua) <= y {
                return self.t();
            }
        }
        if let Some(x) = self.cv(a) {
            if ubb < 128 && x >= (1u128 << ubb) - 1 {
                return self.f();
            }
            if x == 0 {
                let z = self.c(0, w);
                let e = self.eq(b, z);
                return self.not(e);
            }
        }
        let u = ua.max(ubb).max(1);
        if u < w {
            let x = self.extract(a, 0, u);
            let y = self.extract(b, 0, u);
            return self.ult(x, y);
        }
        let na = self.node(a).clone();
        if na.k == K::Ite && self.cv(na.a[1]).is_some() && self.cv(na.a[2]).is_some() && self.cv(b).is_some() {
            let x = self.ult(na.a[1], b);
            let y = self.ult(na.a[2], b);
            return self.ite(na.a[0], x, y);
        }
        if w == 1 {
            let n = self.not(a);
            return self.and(n, b);
        }
        self.mk(K::Ult, 1, [a, b, NO], 0)
    }
    pub fn ule(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.t();
        }
        let w = self.w(a);
        if let Some(y) = self.cv(b) {
            if y == mask(w) {
                return self.t();
            }
            let k = self.c(y + 1, w);
            return self.ult(a, k);
        }
        if let Some(x) = self.cv(a) {
            if x == 0 {
                return self.t();
            }
            let k = self.c(x - 1, w);
            return self.ult(k, b);
        }
        let u = (self.ub[a as usize].max(self.ub[b as usize]) as u32).max(1);
        if u < w {
            let x = self.extract(a, 0, u);
            let y = self.extract(b, 0, u);
            return self.ule(x, y);
        }
        if w == 1 {
            let n = self.not(a);
            return self.or(n, b);
        }
        self.mk(K::Ule, 1, [a, b, NO], 0)
    }
    fn neg_known(&self, e: E) -> bool {
        let n = self.node(e);
        match n.k {
            K::Const => n.imm >> (n.w - 1) & 1 == 1,
            K::Concat => self.neg_known(n.a[0]),
            K::SExt => self.neg_known(n.a[0]),
            _ => false,
        }
    }
    pub fn slt(&mut self, a: E, b: E) -> E {
        if a == b {
            return self.f();
        }
        let w = self.w(a);
        if let (Some(x), Some(y)) = (self.cv(a), self.cv(b)) {
            return self.c((sext(x, w) < sext(y, w)) as u128, 1);
        }
        let (ua, ubb) = (self.ub[a as usize] as u32, self.ub[b as usize] as u32);
        if ua < w && ubb < w {
            return self.ult(a, b);
        }
        let (sa, sb) = (self.sb[a as usize] as u32, self.sb[b as usize] as u32);
        if let Some(y) = self.cv(b) {
            let y = sext(y, w);
            if sa < 127 {
                let (mn, mx) = (-(1i128 << (sa - 1)), (1i128 << (sa - 1)) - 1);
                let mn = if ua < w { 0 } else { mn };
                let mx = if self.neg_known(a) { -1 } else { mx };
                if mx < y {
                    return self.t();
                }
                if mn >= y {
                    return self.f();
                }
            }
        }
        if let Some(x) = self.cv(a) {
            let x = sext(x, w);
            if sb < 127 {
                let (mn, mx) = (-(1i128 << (sb - 1)), (1i128 << (sb - 1)) - 1);
                let mn = if ubb < w { 0 } else { mn };
                let mx = if self.neg_known(b) { -1 } else { mx };
                if x < mn {
                    return self.t();
                }
                if x >= mx {
                    return self.f();
                }
            }
        }
        let s = sa.max(sb);
        if s < w {
            let x = self.extract(a, 0, s);
            let y = self.extract(b, 0, s);
            return self.slt(x, y);
        }
        let na = self.node(a).clone();
        if na.k == K::Ite && self.cv(na.a[1]).is_some() && self.cv(na.a[2]).is_some() && self.cv(b).is_some() {
            let x = self.slt(na.a[1], b);
            let y = self.slt(na.a[2], b);
            return self.ite(na.a[0], x, y);
        }
        if self.cv(b) == Some(0) {
            return self.extract(a, w - 1, 1);
        }
        self.mk(K::Slt, 1, [a, b, NO], 0)
    }
    pub fn sle(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if a == b {
            return self.t();
        }
        if let Some(y) = self.cv(b) {
            let y = sext(y, w);
            if y as u128 & mask(w) == mask(w) >> 1 {
                return self.t();
            }
            let k = self.c((y + 1) as u128, w);
            return self.slt(a, k);
        }
        if let Some(x) = self.cv(a) {
            let x = sext(x, w);
            if (x as u128) & mask(w) == (mask(w) >> 1) + 1 {
                return self.t();
            }
            let k = self.c((x - 1) as u128, w);
            return self.slt(k, b);
        }
        let (ua, ubb) = (self.ub[a as usize] as u32, self.ub[b as usize] as u32);
        if ua < w && ubb < w {
            return self.ule(a, b);
        }
        let s = self.sb[a as usize].max(self.sb[b as usize]) as u32;
        if s < w {
            let x = self.extract(a, 0, s);
            let y = self.extract(b, 0, s);
            return self.sle(x, y);
        }
        self.mk(K::Sle, 1, [a, b, NO], 0)
    }
    pub fn ite(&mut self, c: E, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        if let Some(v) = self.cv(c) {
            return if v == 1 { a } else { b };
        }
        let w = self.w(a);
        if let Some(nc) = self.not_of(c) {
            return self.ite(nc, b, a);
        }
        if w == 1 {
            match (self.cv(a), self.cv(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and(n, b);
                }
                (None, Some(0)) => return self.and(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or(n, a);
                }
                _ => {}
            }
        }
        let (na, nb) = (self.node(a).clone(), self.node(b).clone());
        if na.k == K::Ite && na.a[0] == c {
            return self.ite(c, na.a[1], b);
        }
        if nb.k == K::Ite && nb.a[0] == c {
            return self.ite(c, a, nb.a[2]);
        }
        if nb.k == K::Ite && nb.a[1] == a {
            let o = self.or(c, nb.a[0]);
            return self.ite(o, a, nb.a[2]);
        }
        // narrow by range
        let u = (self.ub[a as usize].max(self.ub[b as usize]) as u32).max(1);
        if u < w {
            let x = self.extract(a, 0, u);
            let y = self.extract(b, 0, u);
            let r = self.ite(c, x, y);
            return self.zext(r, w);
        }
        self.mk(K::Ite, w, [c, a, b], 0)
    }
    pub fn or_all(&mut self, v: &[E]) -> E {
        let mut r = self.f();
        for &x in v {
            r = self.or(r, x)
        }
        r
    }

    // ---- floating point
    fn signc(&mut self, w: u32) -> E {
        self.c(1u128 << (w - 1), w)
    }
    pub fn fneg(&mut self, a: E) -> E {
        let w = self.w(a);
        let s = self.signc(w);
        self.xor(a, s)
    }
    pub fn fabs(&mut self, a: E) -> E {
        let w = self.w(a);
        let s = self.c(mask(w - 1), w);
        self.and(a, s)
    }
    fn strip_neg(&mut self, a: E) -> (bool, E) {
        let n = self.node(a).clone();
        let w = n.w;
        let sc = 1u128 << (w - 1);
        if n.k == K::Xor && self.cv(n.a[1]) == Some(sc) {
            return (true, n.a[0]);
        }
        if n.k == K::Const && n.imm & sc != 0 && !is_nan(n.imm, w) {
            let p = self.c(n.imm ^ sc, w);
            return (true, p);
        }
        (false, a)
    }
    fn one(w: u32) -> u128 {
        if w == 32 { 1.0f32.to_bits() as u128 } else { 1.0f64.to_bits() as u128 }
    }
    pub fn fbin(&mut self, k: crate::ir::BinK, a: E, b: E) -> E {
        use crate::ir::BinK::*;
        let w = self.w(a);
        match k {
            FAdd => self.fadd(a, b),
            FSub => {
                let nb = self.fneg(b);
                self.fadd(a, nb)
            }
            FMul | FDiv => {
                let mut kk = if k == FMul { K::FMul } else { K::FDiv };
                let (sa, a1) = self.strip_neg(a);
                let (sb, mut b1) = self.strip_neg(b);
                // dividing by a power of two is multiplying by its (exact) reciprocal
                if let (K::FDiv, Some(v)) = (kk, self.cv(b1)) {
                    let (mb, bias) = if w == 32 { (23, 127u128) } else { (52, 1023u128) };
                    let e = v >> mb;
                    if v & mask(mb) == 0 && e >= 1 && e <= 2 * bias - 1 {
                        kk = K::FMul;
                        b1 = self.c((2 * bias - e) << mb, w);
                    }
                }
                let (mut x, mut y) = (a1, b1);
                if kk == K::FMul && (self.key[x as usize], x) > (self.key[y as usize], y) {
                    std::mem::swap(&mut x, &mut y);
                }
                let r = if let (Some(p), Some(q)) = (self.cv(x), self.cv(y)) {
                    let v = feval2(kk, p, q, w);
                    self.c(v, w)
                } else if self.cv(y) == Some(Self::one(w)) {
                    x
                } else if kk == K::FMul && self.cv(x) == Some(Self::one(w)) {
                    y
                } else if let Some(r) = if kk == K::FMul && w == 64 { self.fmul_pow2(x, y) } else { None } {
                    r
                } else {
                    self.mk(kk, w, [x, y, NO], 0)
                };
                if sa != sb { self.fneg(r) } else { r }
            }
            FRem => {
                if let (Some(p), Some(q)) = (self.cv(a), self.cv(b)) {
                    let v = feval2(K::FRem, p, q, w);
                    return self.c(v, w);
                }
                self.mk(K::FRem, w, [a, b, NO], 0)
            }
            _ => unreachable!(),
        }
    }
    /// position of the highest set bit, if it is the same for all values
    fn lead(&self, e: E) -> Option<u32> {
        let n = &self.n[e as usize];
        match n.k {
            K::Const => if n.imm == 0 { None } else { Some(127 - n.imm.leading_zeros()) },
            K::ZExt => self.lead(n.a[0]),
            K::Concat => {
                if self.cv(n.a[0]) == Some(0) {
                    self.lead(n.a[1])
                } else {
                    Some(self.lead(n.a[0])? + self.w(n.a[1]))
                }
            }
            _ => None,
        }
    }
    /// (sign bit, exponent e, 52 fraction bits f): the double is +-1.f * 2^(e-1023); e may be below 1 (subnormal)
    fn fdecomp(&mut self, x: E) -> Option<(E, i64, E)> {
        let s = self.extract(x, 63, 1);
        let e = self.extract(x, 52, 11);
        let f = self.extract(x, 0, 52);
        match self.cv(e)? {
            0 => {
                let p = self.lead(f)?;
                let f = if p == 0 {
                    self.c(0, 52)
                } else {
                    let h = self.extract(f, 0, p);
                    let z = self.c(0, 52 - p);
                    self.concat(h, z)
                };
                Some((s, p as i64 - 51, f))
            }
            2047 => None,
            e => Some((s, e as i64, f)),
        }
    }
    /// exact product when one factor is a power of two and the other's exponent is known
    fn fmul_pow2(&mut self, x: E, y: E) -> Option<E> {
        let (c, v) = if self.cv(x).is_some() { (x, y) } else { (y, x) };
        self.cv(c)?;
        let (sc, ec, fc) = self.fdecomp(c)?;
        if self.cv(fc) != Some(0) {
            return None;
        }
        let (sv, ev, fv) = self.fdecomp(v)?;
        let s = self.xor(sc, sv);
        let er = ec + ev - 1023;
        let body = if er >= 2047 {
            self.c(0x7ff << 52, 63)
        } else if er >= 1 {
            let e = self.c(er as u128, 11);
            self.concat(e, fv)
        } else {
            let one = self.c(1, 1);
            let sig = self.concat(one, fv);
            let sh = (1 - er) as u32;
            if sh > 53 {
                self.c(0, 63)
            } else {
                let low = self.extract(sig, 0, sh);
                let hi = if sh == 53 { self.c(0, 63) } else { let h = self.extract(sig, sh, 53 - sh); self.zext(h, 63) };
                if self.cv(low) == Some(0) {
                    hi
                } else {
                    let guard = self.extract(sig, sh - 1, 1);
                    let sticky = if sh == 1 {
                        self.c(0, 1)
                    } else {
                        let r = self.extract(sig, 0, sh - 1);
                        let z = self.c(0, sh - 1);
                        let e = self.eq(r, z);
                        self.not(e)
                    };
                    let lsb = self.extract(hi, 0, 1);
                    let up = self.or(sticky, lsb);
                    let up = self.and(guard, up);
                    let up = self.zext(up, 63);
                    self.add(hi, up)
                }
            }
        };
        Some(self.concat(s, body))
    }
    fn fadd(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        if let (Some(p), Some(q)) = (self.cv(a), self.cv(b)) {
            let v = feval2(K::FAdd, p, q, w);
            return self.c(v, w);
        }
        // x + (-0.0) = x
        let nz = 1u128 << (w - 1);
        if self.cv(b) == Some(nz) {
            return a;
        }
        if self.cv(a) == Some(nz) {
            return b;
        }
        let (a, b) = if (self.key[a as usize], a) > (self.key[b as usize], b) { (b, a) } else { (a, b) };
        self.mk(K::FAdd, w, [a, b, NO], 0)
    }
    pub fn fun(&mut self, k: K, w: u32, args: &[E], imm: u128) -> E {
        let aw = self.w(args[0]);
        // an integer below 2^53 whose highest bit is known converts to a known exponent
        if w == 64 && (k == K::UToF || k == K::SToF && (self.ub[args[0] as usize] as u32) < aw) && self.cv(args[0]).is_none() {
            if let Some(p) = self.lead(args[0]) {
                if p <= 52 && p > 0 {
                    let h = self.extract(args[0], 0, p);
                    let f = if p == 52 {
                        h
                    } else {
                        let z = self.c(0, 52 - p);
                        self.concat(h, z)
                    };
                    let e = self.c(1023 + p as u128, 12);
                    return self.concat(e, f);
                }
            }
        }
        let mut a = [NO; 3];
        a[..args.len()].copy_from_slice(args);
        if args.iter().all(|&x| self.cv(x).is_some()) {
            let n = Node { k, w, a, imm };
            let vals: Vec<u128> = args.iter().map(|&x| self.cv(x).unwrap()).collect();
            let ws: Vec<u32> = args.iter().map(|&x| self.w(x)).collect();
            let v = self.feval(&n, &vals, &ws);
            return self.c(v, w);
        }
        self.mk(k, w, a, imm)
    }
    pub fn uf_id(&mut self, name: &str) -> u128 {
        if let Some(i) = self.ufs.iter().position(|x| x == name) {
            return i as u128;
        }
        self.ufs.push(name.to_string());
        self.ufs.len() as u128 - 1
    }
    pub fn fisnan(&mut self, a: E) -> E {
        let w = self.w(a);
        let m = self.fabs(a);
        let inf = self.c(if w == 32 { 0x7f80_0000 } else { 0x7ff0_0000_0000_0000 }, w);
        self.ult(inf, m)
    }
    pub fn flt(&mut self, a: E, b: E) -> E {
        // assumes neither NaN
        let w = self.w(a);
        let sa = self.extract(a, w - 1, 1);
        let sb = self.extract(b, w - 1, 1);
        let z = self.bothzero(a, b);
        let l1 = self.ult(a, b);
        let l2 = self.ult(b, a);
        let nz = self.not(z);
        let nsa = self.not(sa);
        let nsb = self.not(sb);
        let p1 = self.and(nsa, nsb);
        let p1 = self.and(p1, l1);
        let p2 = self.and(sa, sb);
        let p2 = self.and(p2, l2);
        let p3 = self.and(sa, nsb);
        let p3 = self.and(p3, nz);
        self.or_all(&[p1, p2, p3])
    }
    fn bothzero(&mut self, a: E, b: E) -> E {
        let w = self.w(a);
        let z = self.c(0, w);
        let x = self.fabs(a);
        let y = self.fabs(b);
        let p = self.eq(x, z);
        let q = self.eq(y, z);
        self.and(p, q)
    }
    pub fn feq(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        let z = self.bothzero(a, b);
        self.or(e, z)
    }
    pub fn fcmp(&mut self, p: &str, a: E, b: E) -> E {
        match p {
            "true" => return self.t(),
            "false" => return self.f(),
            _ => {}
        }
        let na = self.fisnan(a);
        let nb = self.fisnan(b);
        let uno = self.or(na, nb);
        if p == "uno" {
            return uno;
        }
        let ord = self.not(uno);
        if p == "ord" {
            return ord;
        }
        let core = match &p[1..] {
            "eq" => self.feq(a, b),
            "ne" => {
                let e = self.feq(a, b);
                self.not(e)
            }
            "lt" => self.flt(a, b),
            "gt" => self.flt(b, a),
            "le" => {
                let l = self.flt(b, a);
                self.not(l)
            }
            "ge" => {
                let l = self.flt(a, b);
                self.not(l)
            }
            _ => panic!("fcmp {p}"),
        };
        if p.starts_with('o') { self.and(ord, core) } else { self.or(uno, core) }
    }
    pub fn fminmax(&mut self, max: bool, a: E, b: E) -> E {
        if a == b {
            return a;
        }
        let w = self.w(a);
        let na = self.fisnan(a);
        let nb = self.fisnan(b);
        let ab = self.flt(a, b);
        let ba = self.flt(b, a);
        let (x, y) = if max { (ba, ab) } else { (ab, ba) };
        let (p, q) = if a < b { (a, b) } else { (b, a) };
        let tie = self.fun(K::FTie, w, &[p, q], max as u128);
        let e = self.eq(a, b);
        let t = self.ite(e, a, tie);
        let t = self.ite(y, b, t);
        let t = self.ite(x, a, t);
        let t = self.ite(nb, a, t);
        self.ite(na, b, t)
    }
    /// bit equality up to NaN payload
    pub fn fsame(&mut self, a: E, b: E) -> E {
        let e = self.eq(a, b);
        let na = self.fisnan(a);
        let nb = self.fisnan(b);
        let n = self.and(na, nb);
        self.or(e, n)
    }

    // ---- evaluation
    fn feval(&self, n: &Node, v: &[u128], ws: &[u32]) -> u128 {
        let w0 = ws[0];
        let f64v = |i: usize| -> f64 { if ws[i] == 32 { f32::from_bits(v[i] as u32) as f64 } else { f64::from_bits(v[i] as u64) } };
        match n.k {
            K::FAdd | K::FMul | K::FDiv | K::FRem => feval2(n.k, v[0], v[1], w0),
            K::FTie => {
                // zeros of different sign
                if n.imm == 1 { v[0] & v[1] } else { v[0] | v[1] }
            }
            K::FSqrt => if w0 == 32 { c32(f32::from_bits(v[0] as u32).sqrt()) } else { c64(f64v(0).sqrt()) },
            K::FFma => if w0 == 32 {
                c32(f32::from_bits(v[0] as u32).mul_add(f32::from_bits(v[1] as u32), f32::from_bits(v[2] as u32)))
            } else {
                c64(f64v(0).mul_add(f64v(1), f64v(2)))
            },
            K::FTrunc => c32(f64v(0) as f32),
            K::FExt => c64(f64v(0)),
            K::FToS => {
                let f = f64v(0);
                let i = f as i128;
                let (mn, mx) = (-(1i128 << (n.w - 1)), (1i128 << (n.w - 1)) - 1);
                i.clamp(mn, mx) as u128 & mask(n.w)
            }
            K::FToU => {
                let f = f64v(0);
                (f as u128).min(mask(n.w))
            }
            K::SToF => {
                let i = sext(v[0], w0);
                if n.w == 32 { c32(i as f32) } else { c64(i as f64) }
            }
            K::UToF => if n.w == 32 { c32(v[0] as f32) } else { c64(v[0] as f64) },
            K::FRound => {
                if w0 == 32 {
                    let x = f32::from_bits(v[0] as u32);
                    c32(match n.imm { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round(), _ => x.round_ties_even() })
                } else {
                    let x = f64v(0);
                    c64(match n.imm { 0 => x.floor(), 1 => x.ceil(), 2 => x.trunc(), 3 => x.round(), _ => x.round_ties_even() })
                }
            }
            K::Uf => {
                let name = self.ufs[n.imm as usize].as_str();
                uf_eval(name, v, ws, n.w)
            }
            _ => unreachable!(),
        }
    }
    pub fn eval(&self, e: E, m: &Model, memo: &mut HashMap<E, u128>) -> u128 {
        let mut st = vec![e];
        while let Some(&x) = st.last() {
            if memo.contains_key(&x) {
                st.pop();
                continue;
            }
            let n = &self.n[x as usize];
            match n.k {
                K::Const => {
                    memo.insert(x, n.imm);
                    st.pop();
                    continue;
                }
                K::Var => {
                    memo.insert(x, *m.v.get(&x).unwrap_or(&0) & mask(n.w));
                    st.pop();
                    continue;
                }
                _ => {}
            }
            if n.k == K::Ite {
                let Some(&c) = memo.get(&n.a[0]) else {
                    st.push(n.a[0]);
                    continue;
                };
                let t = if c == 1 { n.a[1] } else { n.a[2] };
                let Some(&v) = memo.get(&t) else {
                    st.push(t);
                    continue;
                };
                memo.insert(x, v);
                st.pop();
                continue;
            }
            let mut ready = true;
            for &a in &n.a {
                if a != NO && !memo.contains_key(&a) {
                    st.push(a);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let vals: Vec<u128> = n.a.iter().filter(|&&a| a != NO).map(|a| memo[a]).collect();
            let ws: Vec<u32> = n.a.iter().filter(|&&a| a != NO).map(|&a| self.w(a)).collect();
            let w = n.w;
            let r = match n.k {
                K::Eq => (vals[0] == vals[1]) as u128,
                K::Ult => (vals[0] < vals[1]) as u128,
                K::Ule => (vals[0] <= vals[1]) as u128,
                K::Slt => (sext(vals[0], ws[0]) < sext(vals[1], ws[1])) as u128,
                K::Sle => (sext(vals[0], ws[0]) <= sext(vals[1], ws[1])) as u128,
                K::ZExt => vals[0],
                K::SExt => sext(vals[0], ws[0]) as u128 & mask(w),
                K::Extract => (vals[0] >> n.imm) & mask(w),
                K::Concat => (vals[0] << ws[1]) | vals[1],
                K::Add | K::Sub | K::Mul | K::UDiv | K::SDiv | K::URem | K::SRem | K::And | K::Or | K::Xor | K::Shl | K::LShr | K::AShr => Self::cbin(n.k, vals[0], vals[1], w),
                _ => self.feval(n, &vals, &ws),
            };
            memo.insert(x, r);
            st.pop();
        }
        memo[&e]
    }
    pub fn collect_vars(&self, roots: &[E]) -> Vec<E> {
        let mut seen = std::collections::HashSet::new();
        let mut out = vec![];
        let mut st: Vec<E> = roots.to_vec();
        while let Some(x) = st.pop() {
            if !seen.insert(x) {
                continue;
            }
            let n = &self.n[x as usize];
            if n.k == K::Var {
                out.push(x);
            }
            for &a in &n.a {
                if a != NO {
                    st.push(a)
                }
            }
        }
        out.sort();
        out
    }

    // ---- SMT
    pub fn sort(w: u32) -> String {
        if w == 1 { "Bool".into() } else { format!("(_ BitVec {w})") }
    }
    fn lit(v: u128, w: u32) -> String {
        if w == 1 {
            return if v == 1 { "true".into() } else { "false".into() };
        }
        format!("(_ bv{v} {w})")
    }
    pub fn smt_ref(&self, e: E, exact: bool) -> String {
        let n = &self.n[e as usize];
        match n.k {
            K::Const => Self::lit(n.imm, n.w),
            K::Var => format!("v{e}"),
            _ => {
                let _ = exact;
                format!("n{e}")
            }
        }
    }
    /// Emit definitions for everything reachable from `roots` not yet in `done`.
    pub fn smt_defs(&self, roots: &[E], done: &mut std::collections::HashSet<E>, declared: &mut std::collections::HashSet<String>, exact: bool, out: &mut String) {
        use std::fmt::Write;
        let mut st: Vec<(E, bool)> = roots.iter().map(|&r| (r, false)).collect();
        while let Some((x, exp)) = st.pop() {
            if done.contains(&x) {
                continue;
            }
            let n = &self.n[x as usize];
            if n.k == K::Const {
                done.insert(x);
                continue;
            }
            if n.k == K::Var {
                writeln!(out, "(declare-fun v{x} () {})", Self::sort(n.w)).unwrap();
                done.insert(x);
                continue;
            }
            if !exp {
                st.push((x, true));
                for &a in &n.a {
                    if a != NO && !done.contains(&a) {
                        st.push((a, false));
                    }
                }
                continue;
            }
            let r: Vec<String> = n.a.iter().filter(|&&a| a != NO).map(|&a| self.smt_ref(a, exact)).collect();
            let ws: Vec<u32> = n.a.iter().filter(|&&a| a != NO).map(|&a| self.w(a)).collect();
            let w = n.w;
            let b = |op: &str| format!("({op} {} {})", r[0], r[1]);
            let body = match n.k {
                K::Add => b("bvadd"),
                K::Sub => b("bvsub"),
                K::Mul => b("bvmul"),
                K::UDiv => b("bvudiv"),
                K::SDiv => b("bvsdiv"),
                K::URem => b("bvurem"),
                K::SRem => b("bvsrem"),
                K::And => if w == 1 { b("and") } else { b("bvand") },
                K::Or => if w == 1 { b("or") } else { b("bvor") },
                K::Xor => if w == 1 { b("xor") } else { b("bvxor") },
                K::Shl => b("bvshl"),
                K::LShr => b("bvlshr"),
                K::AShr => b("bvashr"),
                K::Eq => b("="),
                K::Ult => b("bvult"),
                K::Ule => b("bvule"),
                K::Slt => b("bvslt"),
                K::Sle => b("bvsle"),
                K::Ite => format!("(ite {} {} {})", r[0], r[1], r[2]),
                K::ZExt => if ws[0] == 1 { format!("(ite {} {} {})", r[0], Self::lit(1, w), Self::lit(0, w)) } else { format!("((_ zero_extend {}) {})", w - ws[0], r[0]) },
                K::SExt => if ws[0] == 1 { format!("(ite {} {} {})", r[0], Self::lit(mask(w), w), Self::lit(0, w)) } else { format!("((_ sign_extend {}) {})", w - ws[0], r[0]) },
                K::Extract => {
                    let lo = n.imm as u32;
                    let x = format!("((_ extract {} {lo}) {})", lo + w - 1, r[0]);
                    if w == 1 { format!("(= {x} #b1)") } else { x }
                }
                K::Concat => {
                    let p = |i: usize| if ws[i] == 1 { format!("(ite {} #b1 #b0)", r[i]) } else { r[i].clone() };
                    format!("(concat {} {})", p(0), p(1))
                }
                _ => {
                    let fname;
                    let exactable = exact && !matches!(n.k, K::Uf | K::FTie | K::FRem);
                    if exactable {
                        let fs = |w: u32| if w == 32 { "8 24" } else { "11 53" };
                        let t = |i: usize| format!("((_ to_fp {}) {})", fs(ws[i]), r[i]);
                        let back = |x: String| format!("(fp.to_ieee_bv {x})");
                        match n.k {
                            K::FAdd => back(format!("(fp.add RNE {} {})", t(0), t(1))),
                            K::FMul => back(format!("(fp.mul RNE {} {})", t(0), t(1))),
                            K::FDiv => back(format!("(fp.div RNE {} {})", t(0), t(1))),
                            K::FSqrt => back(format!("(fp.sqrt RNE {})", t(0))),
                            K::FFma => back(format!("(fp.fma RNE {} {} {})", t(0), t(1), t(2))),
                            K::FTrunc | K::FExt => back(format!("((_ to_fp {}) RNE {})", fs(w), t(0))),
                            K::FToS => format!("((_ fp.to_sbv {w}) RTZ {})", t(0)),
                            K::FToU => format!("((_ fp.to_ubv {w}) RTZ {})", t(0)),
                            K::SToF => back(format!("((_ to_fp {}) RNE {})", fs(w), r[0])),
                            K::UToF => back(format!("((_ to_fp_unsigned {}) RNE {})", fs(w), r[0])),
                            K::FRound => {
                                let m = ["RTN", "RTP", "RTZ", "RNA", "RNE"][n.imm as usize];
                                back(format!("(fp.roundToIntegral {m} {})", t(0)))
                            }
                            _ => unreachable!(),
                        }
                    } else {
                        let base = if n.k == K::Uf { format!("uf_{}", self.ufs[n.imm as usize]) } else { format!("{:?}_{}", n.k, n.imm) };
                        fname = format!("{}_{}_{}", base, ws.iter().map(|x| x.to_string()).collect::<Vec<_>>().join("_"), w);
                        if declared.insert(fname.clone()) {
                            writeln!(out, "(declare-fun {fname} ({}) {})", ws.iter().map(|&x| Self::sort(x)).collect::<Vec<_>>().join(" "), Self::sort(w)).unwrap();
                        }
                        format!("({fname} {})", r.join(" "))
                    }
                }
            };
            writeln!(out, "(define-fun n{x} () {} {body})", Self::sort(w)).unwrap();
            done.insert(x);
        }
        let _ = self.depth;
    }
}

pub fn is_nan(v: u128, w: u32) -> bool {
    if w == 32 { f32::from_bits(v as u32).is_nan() } else { f64::from_bits(v as u64).is_nan() }
}
fn c64(f: f64) -> u128 {
    if f.is_nan() { 0x7ff8_0000_0000_0000 } else { f.to_bits() as u128 }
}
fn c32(f: f32) -> u128 {
    if f.is_nan() { 0x7fc0_0000 } else { f.to_bits() as u128 }
}
fn feval2(k: K, a: u128, b: u128, w: u32) -> u128 {
    if w == 32 {
        let (x, y) = (f32::from_bits(a as u32), f32::from_bits(b as u32));
        c32(match k { K::FAdd => x + y, K::FMul => x * y, K::FDiv => x / y, _ => x % y })
    } else {
        let (x, y) = (f64::from_bits(a as u64), f64::from_bits(b as u64));
        c64(match k { K::FAdd => x + y, K::FMul => x * y, K::FDiv => x / y, _ => x % y })
    }
}
fn uf_eval(name: &str, v: &[u128], ws: &[u32], w: u32) -> u128 {
    macro_rules! f1 { ($m:ident) => { if ws[0] == 32 { c32(f32::from_bits(v[0] as u32).$m()) } else { c64(f64::from_bits(v[0] as u64).$m()) } } }
    macro_rules! f2 { ($m:ident) => { if ws[0] == 32 { c32(f32::from_bits(v[0] as u32).$m(f32::from_bits(v[1] as u32))) } else { c64(f64::from_bits(v[0] as u64).$m(f64::from_bits(v[1] as u64))) } } }
    match name {
        "sin" => f1!(sin), "cos" => f1!(cos), "tan" => f1!(tan), "asin" => f1!(asin), "acos" => f1!(acos), "atan" => f1!(atan),
        "sinh" => f1!(sinh), "cosh" => f1!(cosh), "tanh" => f1!(tanh), "asinh" => f1!(asinh), "acosh" => f1!(acosh), "atanh" => f1!(atanh),
        "exp" => f1!(exp), "exp2" => f1!(exp2), "expm1" => f1!(exp_m1), "log" => f1!(ln), "log2" => f1!(log2), "log10" => f1!(log10), "log1p" => f1!(ln_1p), "cbrt" => f1!(cbrt),
        "pow" => f2!(powf), "atan2" => f2!(atan2), "hypot" => f2!(hypot), "fmod" => feval2(K::FRem, v[0], v[1], w),
        "powi" => {
            let n = v[1] as u32 as i32;
            if ws[0] == 32 { c32(std::hint::black_box(f32::from_bits(v[0] as u32)).powi(std::hint::black_box(n))) } else { c64(std::hint::black_box(f64::from_bits(v[0] as u64)).powi(std::hint::black_box(n))) }
        }
        _ => {
            // no reference semantics: a deterministic scramble
            let mut h = 0x9e3779b97f4a7c15u128;
            for x in v {
                h = (h ^ x).wrapping_mul(0x2545F4914F6CDD1D);
                h ^= h >> 29;
            }
            h & mask(w)
        }
    }
}
