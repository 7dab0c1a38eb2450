//! The symbolic executor.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::rc::Rc;
use std::time::Instant;

pub struct ModelC {
    pub m: Model,
    pub memo: RefCell<HashMap<E, u128>>,
}
#[derive(Clone)]
pub struct Frame {
    pub func: u32,
    pub body: Rc<Body>,
    pub regs: Vec<Val>,
    pub block: u32,
    pub ip: u32,
    pub sp: u64,
    pub dst: Option<u32>,
    pub normal: Option<u32>,
}
#[derive(Clone)]
pub struct State {
    pub mem: Mem,
    pub frames: Vec<Frame>,
    pub pc: Vec<E>,
    pub known: Rc<HashMap<E, u128>>,
    pub model: Option<Rc<ModelC>>,
    pub heap: u64,
    pub sp: u64,
    pub inputs: Rc<Vec<(String, E)>>,
    pub counts: Rc<HashMap<String, u32>>,
    pub expect: Option<Val>,
    pub allow_panic: bool,
    pub steps: u64,
    pub outs: Rc<Vec<(String, Val)>>,
    pub ftok: Rc<Vec<(String, Val)>>,
    pub depth: u32,
    /// rounds of each symbolic branch so far, and the number after which the path is left out
    pub rounds: Option<(Rc<HashMap<(u32, u32, u32), u32>>, u32)>,
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum FK {
    Unknown,
    Defined,
    Panic,
    Alloc,
    AllocZeroed,
    Realloc,
    Dealloc,
    Malloc,
    Calloc,
    CRealloc,
    PosixMemalign,
    Memcmp,
    Bcmp,
    Strlen,
    RandomKeys,
    RetZero,
    RetOne,
    Nop,
    Sx,
    Intr,
    Libm,
    FDisplay,
    IDisplay,
    FParse,
}
pub enum End {
    Done,
    Panic(String),
    Infeasible,
    Error(String),
    Refork, // state pushed elsewhere
}
pub struct Violation {
    pub id: String,
    pub inputs: Vec<(String, u128, u32)>,
    pub kind: String,
    pub trace: Vec<String>,
}
pub struct Opts {
    pub max_paths: u64,
    pub max_steps: u64,
    pub time: f64,
    pub exact_timeout_ms: u64,
    pub uf_timeout_ms: u64,
    pub solver: String,
    pub seed: u64,
    pub concrete: Option<HashMap<String, u128>>,
    /// bounds the driver chooses for the harness
    pub params: HashMap<String, u64>,
    pub max_viol_per_id: usize,
    pub verbose: bool,
    pub int_token: bool,
    /// texts of symbolic floats: NaN, infinities, negative and positive numbers on separate paths
    pub float_classes: bool,
    pub enum_limit: usize,
    /// split on the value of symbolic divisors of at most so many bits
    pub div_enum: u32,
}
pub struct Engine {
    pub m: Module,
    pub d: Dag,
    pub uf: Solver,
    pub exact: Solver,
    pub o: Opts,
    kinds: Vec<FK>,
    work: Vec<State>,
    inputs: HashMap<(String, u32), E>,
    pub paths: u64,
    pub done_paths: u64,
    pub panic_paths: u64,
    pub infeasible: u64,
    pub steps: u64,
    pub checks: BTreeMap<String, (u64, u64, u64)>, // trivially true, discharged by solver, violated
    pub reach: BTreeMap<String, (u64, Option<Vec<(String, u128, u32)>>)>,
    pub viol: Vec<Violation>,
    pub incon: Vec<String>,
    pub errors: Vec<String>,
    pub panics: BTreeMap<String, u64>,
    pub exact_used: u64,
    pub sampled_viol: u64,
    pub cuts: BTreeMap<String, u64>,
    pub outs: Vec<(String, u128)>,
    pub assumes: u64,
    pub t0: Instant,
    pub truncated: Option<String>,
    rng: u64,
    violated_ids: HashMap<String, usize>,
    mirrors: Vec<(E, E)>,
}
type X<T> = Result<T, End>;
fn err<T>(s: impl Into<String>) -> X<T> {
    Err(End::Error(s.into()))
}

impl Engine {
    pub fn new(m: Module, o: Opts) -> Engine {
        let n = m.funcs.len();
        Engine {
            uf: Solver::new(&o.solver, false, o.uf_timeout_ms),
            exact: Solver::new(&o.solver, true, o.exact_timeout_ms),
            rng: o.seed.wrapping_mul(0x9e3779b97f4a7c15) ^ 0x1234567,
            m,
            d: Dag::default(),
            o,
            kinds: vec![FK::Unknown; n],
            work: vec![],
            inputs: HashMap::new(),
            paths: 0,
            done_paths: 0,
            panic_paths: 0,
            infeasible: 0,
            steps: 0,
            checks: BTreeMap::new(),
            reach: BTreeMap::new(),
            viol: vec![],
            incon: vec![],
            errors: vec![],
            panics: BTreeMap::new(),
            exact_used: 0,
            sampled_viol: 0,
            cuts: BTreeMap::new(),
            outs: vec![],
            assumes: 0,
            t0: Instant::now(),
            truncated: None,
            violated_ids: HashMap::new(),
            mirrors: vec![],
        }
    }
    fn rnd(&mut self) -> u64 {
        self.rng ^= self.rng << 13;
        self.rng ^= self.rng >> 7;
        self.rng ^= self.rng << 17;
        self.rng.wrapping_mul(0x2545F4914F6CDD1D)
    }
    pub fn to_e(&mut self, v: &Val, w: u32) -> E {
        match v {
            Val::C(c) => self.d.c(*c, w),
            Val::S(e) => *e,
            Val::A(_) => panic!("aggregate as expression"),
        }
    }
    pub fn norm(&self, e: E) -> Val {
        match self.d.cv(e) {
            Some(v) => Val::C(v),
            None => Val::S(e),
        }
    }
    fn init_mem(&mut self) -> Mem {
        let mut mem = Mem::new();
        let inits = std::mem::take(&mut self.m.inits);
        for (a, t, v) in &inits {
            self.store_c(&mut mem, *a, *t, v);
        }
        self.m.inits = inits;
        mem
    }
    fn store_c(&self, mem: &mut Mem, a: u64, t: TyId, v: &Val) {
        match (&self.m.types.k[t as usize], v) {
            (TyK::Array(_, e) | TyK::Vector(_, e), Val::A(vs)) => {
                let s = self.m.types.size[*e as usize];
                for (i, x) in vs.iter().enumerate() {
                    self.store_c(mem, a + i as u64 * s, *e, x);
                }
            }
            (TyK::Struct(ts, _), Val::A(vs)) => {
                for (i, x) in vs.iter().enumerate() {
                    self.store_c(mem, a + self.m.types.offs[t as usize][i], ts[i], x);
                }
            }
            (_, Val::C(c)) => {
                let n = ((self.m.width(t) + 7) / 8) as usize;
                mem.write_c(a, *c, n.min(16));
            }
            _ => {}
        }
    }

    pub fn run(&mut self, entry: &str) {
        let Some(&f) = self.m.fmap.get(entry) else {
            self.errors.push(format!("no entry {entry}"));
            return;
        };
        let body = match self.m.body(f) {
            Ok(b) => b,
            Err(e) => {
                self.errors.push(e);
                return;
            }
        };
        let mem = self.init_mem();
        let st = State {
            mem,
            frames: vec![Frame { func: f, regs: vec![Val::C(0); body.nregs as usize], body, block: 0, ip: 0, sp: 0x1800_0000, dst: None, normal: None }],
            pc: vec![],
            known: Rc::new(HashMap::new()),
            model: Some(Rc::new(ModelC { m: Model::default(), memo: RefCell::new(HashMap::new()) })),
            heap: 0x3000_0000,
            sp: 0x1800_0000,
            inputs: Rc::new(vec![]),
            counts: Rc::new(HashMap::new()),
            expect: None,
            allow_panic: false,
            steps: 0,
            outs: Rc::new(vec![]),
            ftok: Rc::new(vec![]),
            depth: 0,
            rounds: None,
        };
        self.work.push(st);
        while let Some(mut s) = self.work.pop() {
            if self.paths >= self.o.max_paths {
                self.truncated = Some(format!("path limit {}", self.o.max_paths));
                break;
            }
            if self.t0.elapsed().as_secs_f64() > self.o.time {
                self.truncated = Some(format!("time limit {} s", self.o.time));
                break;
            }
            let r = self.run_path(&mut s);
            match r {
                End::Refork => {}
                End::Infeasible => self.infeasible += 1,
                End::Done => {
                    self.paths += 1;
                    self.done_paths += 1;
                    if let Some(x) = s.expect.clone() {
                        let x = self.to_e(&x, 1);
                        let nx = self.d.not(x);
                        let _ = self.check(&mut s, nx, "missing-rejection");
                    }
                    if self.outs.is_empty() {
                        let o: Vec<(String, Val)> = s.outs.to_vec();
                        for (n, v) in o {
                            if let Val::C(c) = v {
                                self.outs.push((n, c));
                            }
                        }
                    }
                }
                End::Panic(msg) => {
                    self.paths += 1;
                    self.panic_paths += 1;
                    *self.panics.entry(msg.clone()).or_insert(0) += 1;
                    if !s.allow_panic {
                        let x = match s.expect.clone() {
                            Some(x) => self.to_e(&x, 1),
                            None => self.d.f(),
                        };
                        let id = if s.expect.is_some() { "unexpected-rejection" } else { "unexpected-panic" };
                        if self.o.verbose {
                            eprintln!("panic: {msg}: {:?}", self.trace(&s));
                        }
                        let _ = self.check(&mut s, x, id);
                    }
                    if self.o.concrete.is_some() {
                        self.outs = s.outs.iter().filter_map(|(n, v)| if let Val::C(c) = v { Some((n.clone(), *c)) } else { None }).collect();
                    }
                }
                End::Error(e) => {
                    self.paths += 1;
                    let t = self.trace(&s);
                    let msg = format!("{e} [{}]", t.join(" < "));
                    if self.o.verbose {
                        eprintln!("error: {msg}");
                    }
                    if self.errors.len() < 20 {
                        self.errors.push(msg);
                    } else {
                        self.truncated = Some("too many errors".into());
                        break;
                    }
                }
            }
        }
        if !self.work.is_empty() && self.truncated.is_none() {
            self.truncated = Some("stopped".into());
        }
    }
    fn trace(&self, s: &State) -> Vec<String> {
        s.frames.iter().rev().take(8).map(|f| self.m.funcs[f.func as usize].pretty.clone()).collect()
    }

    // ------------------------------------------------------------ solver interface
    fn state_vars(&self, s: &State) -> Vec<E> {
        s.inputs.iter().map(|(_, e)| *e).collect()
    }
    fn eval_m(&self, m: &ModelC, e: E) -> u128 {
        self.d.eval(e, &m.m, &mut m.memo.borrow_mut())
    }
    /// feasible(pc /\ c); returns verified model if there is one
    fn feasible(&mut self, s: &State, c: E) -> (bool, Option<Rc<ModelC>>) {
        let vars = self.state_vars(s);
        let (a, m) = self.uf.check(&self.d, &s.pc, c, &vars);
        match a {
            Ans::Unsat => (false, None),
            Ans::Unknown => (true, None),
            Ans::Sat => {
                let mc = ModelC { m: m.unwrap_or_default(), memo: RefCell::new(HashMap::new()) };
                let fp = self.d.fp[c as usize] || s.pc.iter().any(|&p| self.d.fp[p as usize]);
                if fp {
                    let ok = self.eval_m(&mc, c) == 1 && s.pc.iter().all(|&p| self.eval_m(&mc, p) == 1);
                    if !ok {
                        return (true, None);
                    }
                }
                (true, Some(Rc::new(mc)))
            }
        }
    }
    fn add_pc(&mut self, s: &mut State, c: E) {
        if self.d.cv(c) != Some(1) && s.pc.last() != Some(&c) {
            s.pc.push(c);
        }
    }
    /// decide a boolean; may fork (the other side is queued, restarting at the current instruction)
    fn branch(&mut self, s: &mut State, c: E) -> X<bool> {
        if let Some(v) = self.d.cv(c) {
            return Ok(v == 1);
        }
        if let Some(v) = s.known.get(&c) {
            return Ok(*v == 1);
        }
        let nc = self.d.not(c);
        let known_side = s.model.as_ref().map(|m| self.eval_m(m, c) == 1);
        let (mut tf, mut tm) = (true, None);
        let (mut ff, mut fm) = (true, None);
        match known_side {
            Some(true) => {
                tm = s.model.clone();
                let (a, b) = self.feasible(s, nc);
                ff = a;
                fm = b;
            }
            Some(false) => {
                fm = s.model.clone();
                let (a, b) = self.feasible(s, c);
                tf = a;
                tm = b;
            }
            None => {
                let (a, b) = self.feasible(s, c);
                tf = a;
                tm = b;
                if tf {
                    let (a, b) = self.feasible(s, nc);
                    ff = a;
                    fm = b;
                }
            }
        }
        if tf && ff {
            let mut o = s.clone();
            Rc::make_mut(&mut o.known).insert(c, 0);
            self.add_pc(&mut o, nc);
            o.model = fm;
            o.depth += 1;
            self.work.push(o);
            Rc::make_mut(&mut s.known).insert(c, 1);
            self.add_pc(s, c);
            s.model = tm;
            s.depth += 1;
            return Ok(true);
        }
        if !tf && !ff {
            return Err(End::Infeasible);
        }
        Rc::make_mut(&mut s.known).insert(c, tf as u128);
        s.model = if tf { tm } else { fm };
        // implied condition: no need to add to pc
        Ok(tf)
    }
    /// enumerate feasible values of e
    fn enumerate(&mut self, s: &State, e: E, limit: usize) -> X<Vec<(u128, Option<Rc<ModelC>>)>> {
        let w = self.d.w(e);
        let mut out = vec![];
        // an input the path condition does not mention takes all its values
        let free = self.d.node(e).k == K::Var || (self.d.node(e).k == K::ZExt && self.d.node(self.d.node(e).a[0]).k == K::Var);
        if free {
            let v = if self.d.node(e).k == K::Var { e } else { self.d.node(e).a[0] };
            let vw = self.d.w(v);
            if vw <= 12 && (1usize << vw) <= limit && !self.mirrors.iter().any(|m| m.0 == v || m.1 == v) && !self.d.collect_vars(&s.pc).contains(&v) {
                for x in 0..1u128 << vw {
                    let m = s.model.as_ref().map(|m| {
                        let mut m2 = ModelC { m: m.m.clone(), memo: RefCell::new(HashMap::new()) };
                        m2.m.v.insert(v, x);
                        Rc::new(m2)
                    });
                    out.push((x, m));
                }
                return Ok(out);
            }
        }
        let mut excl = self.d.t();
        if let Some(m) = &s.model {
            let v = self.eval_m(m, e);
            out.push((v, s.model.clone()));
            let k = self.d.c(v, w);
            let q = self.d.eq(e, k);
            excl = self.d.not(q);
        }
        let x = e;
        loop {
            if out.len() > limit {
                return err(format!("more than {limit} values for a symbolic address/size"));
            }
            let vars = {
                let mut v = self.state_vars(s);
                v.sort();
                v.dedup();
                v
            };
            // value of e under the solver's model is obtained by evaluating e (exact) or by forcing via fresh eq
            let (a, m) = self.uf.check(&self.d, &s.pc, excl, &vars);
            match a {
                Ans::Unsat => break,
                Ans::Unknown => return err("solver unknown while enumerating"),
                Ans::Sat => {
                    let mc = ModelC { m: m.unwrap_or_default(), memo: RefCell::new(HashMap::new()) };
                    if self.d.fp[e as usize] {
                        return err("symbolic address/size depends on floating point");
                    }
                    let v = self.eval_m(&mc, x);
                    let ok = s.pc.iter().all(|&p| !self.d.fp[p as usize] || self.eval_m(&mc, p) == 1);
                    out.push((v, if ok { Some(Rc::new(mc)) } else { None }));
                    let k = self.d.c(v, w);
                    let q = self.d.eq(e, k);
                    let nq = self.d.not(q);
                    excl = self.d.and(excl, nq);
                }
            }
        }
        Ok(out)
    }
    /// make a value concrete by forking over its feasible values
    fn concretize(&mut self, s: &mut State, v: &Val, what: &str) -> X<u128> {
        match v {
            Val::C(c) => Ok(*c),
            Val::A(_) => err("concretize aggregate"),
            Val::S(e) => {
                if let Some(k) = s.known.get(e) {
                    return Ok(*k);
                }
                let w = self.d.w(*e);
                let lim = self.o.enum_limit;
                let vals = self.enumerate(s, *e, lim)?;
                *self.cuts.entry(format!("forked on {what}")).or_insert(0) += 1;
                if vals.is_empty() {
                    return Err(End::Infeasible);
                }
                let mut first = None;
                for (v, m) in vals {
                    let k = self.d.c(v, w);
                    let q = self.d.eq(*e, k);
                    if first.is_none() {
                        first = Some((v, m, q));
                        continue;
                    }
                    let mut o = s.clone();
                    Rc::make_mut(&mut o.known).insert(*e, v);
                    self.add_pc(&mut o, q);
                    o.model = m;
                    self.work.push(o);
                }
                let (v, m, q) = first.unwrap();
                Rc::make_mut(&mut s.known).insert(*e, v);
                self.add_pc(s, q);
                s.model = m;
                Ok(v)
            }
        }
    }
    fn inputs_of(&self, s: &State, m: &ModelC) -> Vec<(String, u128, u32)> {
        s.inputs.iter().map(|(n, e)| (n.clone(), self.eval_m(m, *e), self.d.w(*e))).collect()
    }
    fn sample_model(&mut self, vars: &[E], round: u64) -> ModelC {
        let mut m = Model::default();
        for &v in vars {
            let w = self.d.w(v);
            let r = self.rnd();
            let x: u128 = if w == 64 {
                match (r >> 40) % 8 {
                    0 => ((r % 40) as f64 - 20.0).to_bits() as u128,
                    1 => ((r % 4000) as f64 / 100.0 + 0.01).to_bits() as u128,
                    2 => [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, f64::MIN_POSITIVE, 5e-324, 0.5, 2.0][(r % 12) as usize].to_bits() as u128,
                    3 => f64::from_bits((self.rnd() & 0x800f_ffff_ffff_ffff) | ((1023 - 20 + self.rnd() % 40) << 52)).to_bits() as u128,
                    4 | 5 => f64::from_bits((self.rnd() & 0x800f_ffff_ffff_ffff) | ((self.rnd() % 2047) << 52)).to_bits() as u128,
                    6 => (r % 64) as u128,
                    _ => self.rnd() as u128,
                }
            } else if w == 32 {
                match (r >> 40) % 8 {
                    0 => ((r % 40) as f32 - 20.0).to_bits() as u128,
                    1 => ((r % 4000) as f32 / 100.0 + 0.01).to_bits() as u128,
                    2 => [0.0, -0.0, 1.0, -1.0, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, f32::MAX, f32::MIN_POSITIVE, 1e-45, 0.5, 2.0][(r % 12) as usize].to_bits() as u128,
                    3 | 4 | 5 => (self.rnd() as u32) as u128,
                    6 => (r % 64) as u128,
                    _ => (self.rnd() as u32 & 0x807f_ffff | ((127 - 10 + (self.rnd() % 20) as u32) << 23)) as u128,
                }
            } else {
                self.rnd() as u128 & mask(w.min(128))
            };
            m.v.insert(v, x & mask(w));
        }
        let _ = round;
        ModelC { m, memo: RefCell::new(HashMap::new()) }
    }
    fn nice(v: u128, w: u32) -> i32 {
        // smaller is nicer
        if w == 64 {
            let f = f64::from_bits(v as u64);
            if f.is_finite() && f != 0.0 && f.abs() < 1e6 && f.abs() > 1e-3 {
                return if f.fract() == 0.0 { 0 } else { 1 };
            }
        }
        3
    }
    /// returns Ok(true) if the check holds, Ok(false) if violated (path continues with c assumed if feasible)
    fn check(&mut self, s: &mut State, c: E, id: &str) -> X<bool> {
        let ent = self.checks.entry(id.to_string()).or_insert((0, 0, 0));
        if self.d.cv(c) == Some(1) {
            ent.0 += 1;
            return Ok(true);
        }
        if *self.violated_ids.get(id).unwrap_or(&0) >= self.o.max_viol_per_id {
            self.assume(s, c)?;
            return Ok(false);
        }
        let nc = self.d.not(c);
        let vars = self.state_vars(s);
        let mut found: Option<Rc<ModelC>> = None;
        let mut how = "model";
        if let Some(m) = &s.model {
            if self.eval_m(m, c) == 0 {
                found = Some(m.clone());
            }
        }
        if found.is_none() {
            let (f, m) = self.feasible(s, nc);
            if !f {
                self.checks.get_mut(id).unwrap().1 += 1;
                return Ok(true);
            }
            found = m;
            if let Some(m) = &found {
                if self.eval_m(m, c) != 0 {
                    found = None;
                }
            }
        }
        let fp = self.d.fp[c as usize] || s.pc.iter().any(|&p| self.d.fp[p as usize]);
        let isfloatish = fp || vars.iter().any(|&v| self.d.w(v) >= 32);
        if found.is_none() || isfloatish {
            // look for a (nicer) concrete counterexample; only a search for witnesses, never a proof
            let relv = self.d.collect_vars(&{
                let mut r = s.pc.clone();
                r.push(c);
                r
            });
            let n = if found.is_none() { 30000 } else { 300 };
            let base = found.clone().or(s.model.clone());
            let mut best: Option<(i32, Rc<ModelC>)> = found.as_ref().map(|m| (relv.iter().map(|&v| Self::nice(m.m.v.get(&v).copied().unwrap_or(0), self.d.w(v))).sum(), m.clone()));
            let was_none = found.is_none();
            for r in 0..n {
                let mut m = self.sample_model(&relv, r);
                if let Some(b) = &base {
                    // keep non-float-ish inputs from the base model most of the time
                    for (&v, &x) in &b.m.v {
                        if self.d.w(v) < 32 || !relv.contains(&v) || (r & 1 == 1 && self.rnd() & 1 == 1) {
                            m.m.v.insert(v, x);
                        }
                    }
                }
                for &(a, b) in &self.mirrors {
                    let v = m.m.v.get(&a).copied().unwrap_or(0);
                    m.m.v.insert(b, v);
                }
                if self.eval_m(&m, c) == 0 && s.pc.iter().all(|&p| self.eval_m(&m, p) == 1) {
                    let sc: i32 = relv.iter().map(|&v| Self::nice(m.m.v.get(&v).copied().unwrap_or(0), self.d.w(v))).sum();
                    if best.as_ref().map_or(true, |b| sc < b.0) {
                        best = Some((sc, Rc::new(m)));
                        if sc <= relv.len() as i32 {
                            break;
                        }
                    }
                    if was_none && r > 3000 {
                        break;
                    }
                }
                if r % 64 == 0 && self.t0.elapsed().as_secs_f64() > self.o.time {
                    break;
                }
            }
            if let Some((_, m)) = best {
                if found.is_none() {
                    how = "search after the abstraction was satisfiable";
                    self.sampled_viol += 1;
                }
                found = Some(m);
            }
        }
        if found.is_none() && fp {
            self.exact_used += 1;
            let (a, m) = self.exact.check(&self.d, &s.pc, nc, &vars);
            match a {
                Ans::Unsat => {
                    self.checks.get_mut(id).unwrap().1 += 1;
                    return Ok(true);
                }
                Ans::Sat => {
                    let mc = ModelC { m: m.unwrap_or_default(), memo: RefCell::new(HashMap::new()) };
                    if self.eval_m(&mc, c) == 0 && s.pc.iter().all(|&p| self.eval_m(&mc, p) == 1) {
                        how = "exact FP";
                        found = Some(Rc::new(mc));
                    }
                }
                Ans::Unknown => {}
            }
        }
        match found {
            Some(m) => {
                let ent = self.checks.get_mut(id).unwrap();
                ent.2 += 1;
                *self.violated_ids.entry(id.to_string()).or_insert(0) += 1;
                let inputs = self.inputs_of(s, &m);
                if self.o.verbose {
                    eprintln!("violation {id}: {inputs:?}");
                }
                let trace = self.trace(s);
                self.viol.push(Violation { id: id.into(), inputs, kind: how.into(), trace });
                self.assume(s, c)?;
                Ok(false)
            }
            None => {
                let msg = format!("{id}: neither proved nor refuted");
                if self.o.verbose {
                    eprintln!("{msg}");
                }
                if self.incon.len() < 50 {
                    self.incon.push(msg);
                }
                self.assume(s, c)?;
                Ok(false)
            }
        }
    }
    fn assume(&mut self, s: &mut State, c: E) -> X<()> {
        if self.d.cv(c) == Some(1) {
            return Ok(());
        }
        if self.d.cv(c) == Some(0) {
            return Err(End::Infeasible);
        }
        let holds = s.model.as_ref().map_or(false, |m| self.eval_m(m, c) == 1);
        if !holds {
            let (f, m) = self.feasible(s, c);
            if !f {
                return Err(End::Infeasible);
            }
            s.model = m;
        }
        self.add_pc(s, c);
        Rc::make_mut(&mut s.known).insert(c, 1);
        Ok(())
    }

    // ------------------------------------------------------------ memory
    fn load_scalar(&mut self, s: &State, addr: u64, w: u32) -> Val {
        let n = ((w + 7) / 8) as usize;
        if n <= 16 {
            if let Some(v) = s.mem.read_c(addr, n) {
                return Val::C(v & mask(w));
            }
        }
        // assemble from bytes
        let bytes: Vec<B> = (0..n as u64).map(|i| s.mem.byte(addr + i)).collect();
        let mut parts: Vec<E> = vec![]; // low to high
        let mut i = 0;
        while i < n {
            match bytes[i] {
                B::C(_) => {
                    let mut v = 0u128;
                    let mut k = 0;
                    while i + k < n {
                        if let B::C(b) = bytes[i + k] {
                            v |= (b as u128) << (8 * k);
                            k += 1;
                        } else {
                            break;
                        }
                    }
                    parts.push(self.d.c(v, 8 * k as u32));
                    i += k;
                }
                B::S(e, b0) => {
                    let mut k = 1;
                    while i + k < n {
                        match bytes[i + k] {
                            B::S(e2, b) if e2 == e && b as usize == b0 as usize + k => k += 1,
                            _ => break,
                        }
                    }
                    parts.push(self.d.extract(e, 8 * b0 as u32, 8 * k as u32));
                    i += k;
                }
            }
        }
        let mut r = parts[parts.len() - 1];
        for &p in parts[..parts.len() - 1].iter().rev() {
            r = self.d.concat(r, p);
        }
        let r = if self.d.w(r) > w { self.d.extract(r, 0, w) } else { r };
        self.norm(r)
    }
    fn load(&mut self, s: &State, addr: u64, t: TyId) -> X<Val> {
        if addr < 0x1000 || addr >= 1 << 32 {
            return err(format!("load from bad address {addr:#x}"));
        }
        match self.m.types.k[t as usize].clone() {
            TyK::Array(n, e) | TyK::Vector(n, e) => {
                let sz = self.m.types.size[e as usize];
                if let TyK::Int(w) = self.m.types.k[e as usize] {
                    if w < 8 {
                        return err("bit vector load");
                    }
                }
                let mut v = Vec::with_capacity(n as usize);
                for i in 0..n {
                    v.push(self.load(s, addr + i * sz, e)?);
                }
                Ok(Val::agg(v))
            }
            TyK::Struct(ts, _) => {
                let offs = self.m.types.offs[t as usize].clone();
                let mut v = vec![];
                for (i, x) in ts.iter().enumerate() {
                    v.push(self.load(s, addr + offs[i], *x)?);
                }
                Ok(Val::agg(v))
            }
            _ => {
                let w = self.m.width(t);
                if w > 128 {
                    return err("wide load");
                }
                Ok(self.load_scalar(s, addr, w))
            }
        }
    }
    fn store_scalar(&mut self, s: &mut State, addr: u64, v: &Val, w: u32) -> X<()> {
        let n = ((w + 7) / 8) as usize;
        match v {
            Val::C(c) => s.mem.write_c(addr, *c, n),
            Val::S(e) => {
                let e = if w % 8 != 0 { self.d.zext(*e, n as u32 * 8) } else { *e };
                for i in 0..n {
                    // canonical: byte-sized pieces of constants inside concats become concrete
                    s.mem.set_byte(addr + i as u64, B::S(e, i as u8));
                }
            }
            _ => return err("store agg"),
        }
        Ok(())
    }
    fn store(&mut self, s: &mut State, addr: u64, t: TyId, v: &Val) -> X<()> {
        if addr < 0x1000 || addr >= 1 << 32 {
            return err(format!("store to bad address {addr:#x}"));
        }
        match self.m.types.k[t as usize].clone() {
            TyK::Array(_, e) | TyK::Vector(_, e) => {
                let sz = self.m.types.size[e as usize];
                let Val::A(vs) = v else { return err("store agg") };
                for (i, x) in vs.iter().enumerate() {
                    self.store(s, addr + i as u64 * sz, e, x)?;
                }
                Ok(())
            }
            TyK::Struct(ts, _) => {
                let offs = self.m.types.offs[t as usize].clone();
                let Val::A(vs) = v else { return err("store agg") };
                for (i, x) in vs.iter().enumerate() {
                    self.store(s, addr + offs[i], ts[i], x)?;
                }
                Ok(())
            }
            _ => {
                let w = self.m.width(t);
                self.store_scalar(s, addr, v, w)
            }
        }
    }
    fn ite_val(&mut self, c: E, a: &Val, b: &Val, t: TyId) -> X<Val> {
        match (a, b) {
            (Val::A(x), Val::A(y)) => {
                let ts: Vec<TyId> = match &self.m.types.k[t as usize] {
                    TyK::Struct(ts, _) => ts.clone(),
                    TyK::Array(n, e) | TyK::Vector(n, e) => vec![*e; *n as usize],
                    _ => return err("ite agg"),
                };
                let mut v = vec![];
                for i in 0..x.len() {
                    v.push(self.ite_val(c, &x[i], &y[i], ts[i])?);
                }
                Ok(Val::agg(v))
            }
            _ => {
                let w = self.m.width(t);
                let x = self.to_e(a, w);
                let y = self.to_e(b, w);
                let r = self.d.ite(c, x, y);
                Ok(self.norm(r))
            }
        }
    }
    fn load_sym(&mut self, s: &mut State, p: &Val, t: TyId) -> X<Val> {
        match p {
            Val::C(a) => self.load(s, *a as u64, t),
            Val::S(e) => {
                if let Some(k) = s.known.get(e) {
                    let k = *k as u64;
                    return self.load(s, k, t);
                }
                let lim = self.o.enum_limit;
                let vals = self.enumerate(s, *e, lim)?;
                if vals.is_empty() {
                    return Err(End::Infeasible);
                }
                *self.cuts.entry("table reads with symbolic index".into()).or_insert(0) += 1;
                let mut vals: Vec<u64> = vals.into_iter().map(|x| x.0 as u64).collect();
                vals.sort();
                let mut r = self.load(s, vals[0], t)?;
                for &a in &vals[1..] {
                    let v = self.load(s, a, t)?;
                    let k = self.d.c(a as u128, 64);
                    let q = self.d.eq(*e, k);
                    r = self.ite_val(q, &v, &r, t)?;
                }
                Ok(r)
            }
            _ => err("load ptr"),
        }
    }

    // ------------------------------------------------------------ execution
    #[inline]
    fn get(&self, f: &Frame, o: Op) -> Val {
        match o {
            Op::R(r) => f.regs[r as usize].clone(),
            Op::K(k) => f.body.consts[k as usize].clone(),
        }
    }
    fn jump(&mut self, s: &mut State, to: u32) {
        let f = s.frames.last_mut().unwrap();
        let from = f.block;
        f.block = to;
        f.ip = 0;
        let body = f.body.clone();
        let b = &body.blocks[to as usize];
        if !b.phis.is_empty() {
            let mut vals: Vec<(u32, Val)> = Vec::with_capacity(b.phis.len());
            for (d, inc) in &b.phis {
                let o = inc.iter().find(|(bb, _)| *bb == from).map(|x| x.1).expect("phi");
                let v = match o {
                    Op::R(r) => f.regs[r as usize].clone(),
                    Op::K(k) => body.consts[k as usize].clone(),
                };
                vals.push((*d, v));
            }
            for (d, v) in vals {
                f.regs[d as usize] = v;
            }
        }
    }
    fn run_path(&mut self, s: &mut State) -> End {
        loop {
            match self.step(s) {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }
    fn lift1(&mut self, t: TyId, a: &Val, f: &mut dyn FnMut(&mut Engine, &Val, TyId) -> X<Val>) -> X<Val> {
        if let TyK::Vector(_, e) = self.m.types.k[t as usize] {
            let Val::A(v) = a else { return err("vec") };
            let mut o = vec![];
            for x in v.iter() {
                o.push(f(self, x, e)?);
            }
            return Ok(Val::agg(o));
        }
        f(self, a, t)
    }
    fn lift2(&mut self, t: TyId, a: &Val, b: &Val, f: &mut dyn FnMut(&mut Engine, &Val, &Val, TyId) -> X<Val>) -> X<Val> {
        if let TyK::Vector(_, e) = self.m.types.k[t as usize] {
            let (Val::A(v), Val::A(u)) = (a, b) else { return err("vec") };
            let mut o = vec![];
            for i in 0..v.len() {
                o.push(f(self, &v[i], &u[i], e)?);
            }
            return Ok(Val::agg(o));
        }
        f(self, a, b, t)
    }
    fn bin(&mut self, k: BinK, t: TyId, a: &Val, b: &Val) -> X<Val> {
        self.lift2(t, a, b, &mut |en, a, b, t| {
            let w = en.m.width(t);
            if let (Val::C(x), Val::C(y)) = (a, b) {
                let (x, y) = (*x, *y);
                let m = mask(w);
                let r = match k {
                    BinK::Add => x.wrapping_add(y) & m,
                    BinK::Sub => x.wrapping_sub(y) & m,
                    BinK::Mul => x.wrapping_mul(y) & m,
                    BinK::And => x & y,
                    BinK::Or => x | y,
                    BinK::Xor => x ^ y,
                    BinK::Shl => if y >= w as u128 { 0 } else { (x << y) & m },
                    BinK::LShr => if y >= w as u128 { 0 } else { x >> y },
                    BinK::AShr => ((sext(x, w) >> y.min(w as u128 - 1)) as u128) & m,
                    BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem if y == 0 => return err("division by zero"),
                    BinK::UDiv => x / y,
                    BinK::URem => x % y,
                    BinK::SDiv => (sext(x, w).wrapping_div(sext(y, w)) as u128) & m,
                    BinK::SRem => (sext(x, w).wrapping_rem(sext(y, w)) as u128) & m,
                    _ => {
                        let ea = en.d.c(x, w);
                        let eb = en.d.c(y, w);
                        let r = en.d.fbin(k, ea, eb);
                        en.d.cv(r).unwrap()
                    }
                };
                return Ok(Val::C(r));
            }
            let x = en.to_e(a, w);
            let y = en.to_e(b, w);
            let kk = match k {
                BinK::Add => K::Add,
                BinK::Sub => K::Sub,
                BinK::Mul => K::Mul,
                BinK::And => K::And,
                BinK::Or => K::Or,
                BinK::Xor => K::Xor,
                BinK::Shl => K::Shl,
                BinK::LShr => K::LShr,
                BinK::AShr => K::AShr,
                BinK::UDiv => K::UDiv,
                BinK::URem => K::URem,
                BinK::SDiv => K::SDiv,
                BinK::SRem => K::SRem,
                _ => {
                    let r = en.d.fbin(k, x, y);
                    return Ok(en.norm(r));
                }
            };
            let r = en.d.arith(kk, x, y);
            Ok(en.norm(r))
        })
    }
    fn icmp(&mut self, p: Pred, a: &Val, b: &Val, w: u32) -> Val {
        if let (Val::C(x), Val::C(y)) = (a, b) {
            let (sx, sy) = (sext(*x, w), sext(*y, w));
            let r = match p {
                Pred::Eq => x == y,
                Pred::Ne => x != y,
                Pred::Ult => x < y,
                Pred::Ule => x <= y,
                Pred::Ugt => x > y,
                Pred::Uge => x >= y,
                Pred::Slt => sx < sy,
                Pred::Sle => sx <= sy,
                Pred::Sgt => sx > sy,
                Pred::Sge => sx >= sy,
            };
            return Val::C(r as u128);
        }
        let x = self.to_e(a, w);
        let y = self.to_e(b, w);
        let d = &mut self.d;
        let r = match p {
            Pred::Eq => d.eq(x, y),
            Pred::Ne => {
                let e = d.eq(x, y);
                d.not(e)
            }
            Pred::Ult => d.ult(x, y),
            Pred::Ule => d.ule(x, y),
            Pred::Ugt => d.ult(y, x),
            Pred::Uge => d.ule(y, x),
            Pred::Slt => d.slt(x, y),
            Pred::Sle => d.sle(x, y),
            Pred::Sgt => d.slt(y, x),
            Pred::Sge => d.sle(y, x),
        };
        self.norm(r)
    }
    fn flat_bits(&mut self, t: TyId, v: &Val) -> X<Val> {
        // vector -> integer bits
        if let TyK::Vector(n, e) = self.m.types.k[t as usize] {
            let w = self.m.width(e);
            let Val::A(vs) = v else { return err("bitcast") };
            if vs.iter().all(|x| matches!(x, Val::C(_))) && w * n as u32 <= 128 {
                let mut r = 0u128;
                for (i, x) in vs.iter().enumerate() {
                    if let Val::C(c) = x {
                        r |= c << (i as u32 * w);
                    }
                }
                return Ok(Val::C(r));
            }
            let mut r = self.to_e(&vs[vs.len() - 1].clone(), w);
            for x in vs[..vs.len() - 1].iter().rev() {
                let x = self.to_e(x, w);
                r = self.d.concat(r, x);
            }
            return Ok(self.norm(r));
        }
        Ok(v.clone())
    }
    fn unflat(&mut self, t: TyId, v: &Val, total: u32) -> X<Val> {
        if let TyK::Vector(n, e) = self.m.types.k[t as usize] {
            let w = self.m.width(e);
            let x = self.to_e(v, total);
            let mut o = vec![];
            for i in 0..n as u32 {
                let p = self.d.extract(x, i * w, w);
                o.push(self.norm(p));
            }
            return Ok(Val::agg(o));
        }
        Ok(v.clone())
    }
    fn cast(&mut self, k: CastK, t: TyId, t2: TyId, a: &Val) -> X<Val> {
        if k == CastK::Bitcast {
            let vb = |en: &Engine, t: TyId| -> u32 {
                match en.m.types.k[t as usize] {
                    TyK::Vector(n, e) => n as u32 * en.m.width(e),
                    _ => en.m.width(t),
                }
            };
            let tot = vb(self, t);
            let f = self.flat_bits(t, a)?;
            return self.unflat(t2, &f, tot);
        }
        if let (TyK::Vector(_, e1), TyK::Vector(_, e2)) = (self.m.types.k[t as usize].clone(), self.m.types.k[t2 as usize].clone()) {
            let Val::A(v) = a else { return err("cast vec") };
            let mut o = vec![];
            for x in v.iter() {
                o.push(self.cast(k, e1, e2, x)?);
            }
            return Ok(Val::agg(o));
        }
        let (w, w2) = (self.m.width(t), self.m.width(t2));
        if let Val::C(c) = a {
            match k {
                CastK::Trunc => return Ok(Val::C(c & mask(w2))),
                CastK::ZExt => return Ok(Val::C(*c)),
                CastK::SExt => return Ok(Val::C(sext(*c, w) as u128 & mask(w2))),
                _ => {}
            }
        }
        let x = self.to_e(a, w);
        let d = &mut self.d;
        let r = match k {
            CastK::Trunc => d.extract(x, 0, w2),
            CastK::ZExt => d.zext(x, w2),
            CastK::SExt => d.sext(x, w2),
            CastK::FPTrunc => d.fun(K::FTrunc, w2, &[x], 0),
            CastK::FPExt => d.fun(K::FExt, w2, &[x], 0),
            CastK::FPToSI => d.fun(K::FToS, w2, &[x], 0),
            CastK::FPToUI => d.fun(K::FToU, w2, &[x], 0),
            CastK::SIToFP => d.fun(K::SToF, w2, &[x], 0),
            CastK::UIToFP => d.fun(K::UToF, w2, &[x], 0),
            _ => unreachable!(),
        };
        Ok(self.norm(r))
    }

    fn step(&mut self, s: &mut State) -> X<()> {
        self.steps += 1;
        s.steps += 1;
        if s.steps > self.o.max_steps {
            return err("step limit");
        }
        if self.steps & 0xfffff == 0 && self.t0.elapsed().as_secs_f64() > self.o.time {
            self.truncated = Some(format!("time limit {} s", self.o.time));
            self.o.max_paths = 0;
            return err("time limit");
        }
        let f = s.frames.last_mut().unwrap();
        let body = f.body.clone();
        let inst = &body.blocks[f.block as usize].insts[f.ip as usize];
        macro_rules! g {
            ($o:expr) => {
                match $o {
                    Op::R(r) => s.frames.last().unwrap().regs[r as usize].clone(),
                    Op::K(k) => body.consts[k as usize].clone(),
                }
            };
        }
        macro_rules! set {
            ($d:expr, $v:expr) => {{
                let v = $v;
                let f = s.frames.last_mut().unwrap();
                f.regs[$d as usize] = v;
                f.ip += 1;
            }};
        }
        match inst {
            Inst::Bin(k, d, t, a, b) => {
                let (x, y) = (g!(*a), g!(*b));
                // symbolic divisors: zero is excluded by the language's own checks (UB otherwise)
                let mut y = y;
                if self.o.div_enum > 0 && matches!(k, BinK::UDiv | BinK::URem | BinK::SDiv | BinK::SRem) {
                    if let Val::S(e) = &y {
                        if (self.d.ub[*e as usize].min(self.d.sb[*e as usize]) as u32) <= self.o.div_enum {
                            y = Val::C(self.concretize(s, &y, "divisor")?);
                        }
                    }
                }
                let v = self.bin(*k, *t, &x, &y)?;
                set!(*d, v);
            }
            Inst::FNeg(d, t, a) => {
                let x = g!(*a);
                let v = self.lift1(*t, &x, &mut |en, x, t| {
                    let w = en.m.width(t);
                    let e = en.to_e(x, w);
                    let r = en.d.fneg(e);
                    Ok(en.norm(r))
                })?;
                set!(*d, v);
            }
            Inst::ICmp(p, d, t, a, b) => {
                let (x, y) = (g!(*a), g!(*b));
                let p = *p;
                let v = self.lift2(*t, &x, &y, &mut |en, x, y, t| {
                    let w = en.m.width(t);
                    Ok(en.icmp(p, x, y, w))
                })?;
                set!(*d, v);
            }
            Inst::FCmp(p, d, t, a, b) => {
                let (x, y) = (g!(*a), g!(*b));
                let v = self.lift2(*t, &x, &y, &mut |en, x, y, t| {
                    let w = en.m.width(t);
                    let (x, y) = (en.to_e(x, w), en.to_e(y, w));
                    let r = en.d.fcmp(p, x, y);
                    Ok(en.norm(r))
                })?;
                set!(*d, v);
            }
            Inst::Cast(k, d, t, t2, a) => {
                let x = g!(*a);
                let v = self.cast(*k, *t, *t2, &x)?;
                set!(*d, v);
            }
            Inst::Select(d, ct, t, c, a, b) => {
                let (c, x, y) = (g!(*c), g!(*a), g!(*b));
                let v = match &c {
                    Val::C(c) => if *c & 1 == 1 { x } else { y },
                    Val::S(e) => {
                        if let Some(k) = s.known.get(e) {
                            if *k == 1 { x } else { y }
                        } else {
                            self.ite_val(*e, &x, &y, *t)?
                        }
                    }
                    Val::A(cs) => {
                        let TyK::Vector(_, et) = self.m.types.k[*t as usize] else { return err("vselect") };
                        let (Val::A(xs), Val::A(ys)) = (&x, &y) else { return err("vselect") };
                        let mut o = vec![];
                        for i in 0..cs.len() {
                            let v = match &cs[i] {
                                Val::C(c) => if *c & 1 == 1 { xs[i].clone() } else { ys[i].clone() },
                                Val::S(e) => self.ite_val(*e, &xs[i], &ys[i], et)?,
                                _ => return err("vselect"),
                            };
                            o.push(v);
                        }
                        Val::agg(o)
                    }
                };
                let _ = ct;
                set!(*d, v);
            }
            Inst::Load(d, t, p) => {
                let p = g!(*p);
                let v = self.load_sym(s, &p, *t)?;
                set!(*d, v);
            }
            Inst::Store(t, v, p) => {
                let (v, p) = (g!(*v), g!(*p));
                let a = self.concretize(s, &p, "store address")?;
                self.store(s, a as u64, *t, &v)?;
                s.frames.last_mut().unwrap().ip += 1;
            }
            Inst::Alloca(d, t, n, al) => {
                let mut cnt = 1u64;
                if let Some(n) = n {
                    let n = g!(*n);
                    cnt = self.concretize(s, &n, "alloca size")? as u64;
                }
                let sz = self.m.types.size[*t as usize] * cnt;
                let al = (*al).max(1);
                let a = (s.sp + al - 1) / al * al;
                s.sp = a + sz;
                if s.sp >= 0x3000_0000 {
                    return err("stack overflow");
                }
                set!(*d, Val::C(a as u128));
            }
            Inst::Gep(d, base, off, dynv) => {
                let b = g!(*base);
                let mut acc = match b {
                    Val::C(c) => Val::C((c as u64).wrapping_add(*off as u64) as u128),
                    Val::S(e) => {
                        let k = self.d.c(*off as u64 as u128, 64);
                        let r = self.d.add(e, k);
                        self.norm(r)
                    }
                    _ => return err("gep base"),
                };
                for (o, sc, w) in dynv {
                    let i = g!(*o);
                    acc = match (&acc, &i) {
                        (Val::C(a), Val::C(i)) => Val::C((*a as u64).wrapping_add((sext(*i, *w) as i64).wrapping_mul(*sc) as u64) as u128),
                        _ => {
                            let a = self.to_e(&acc, 64);
                            let i = self.to_e(&i, *w);
                            let i = self.d.sext(i, 64);
                            let k = self.d.c(*sc as u64 as u128, 64);
                            let p = self.d.mul(i, k);
                            let r = self.d.add(a, p);
                            self.norm(r)
                        }
                    };
                }
                set!(*d, acc);
            }
            Inst::ExtractValue(d, a, idx) => {
                let mut v = g!(*a);
                for i in idx {
                    let Val::A(x) = &v else { return err("extractvalue") };
                    v = x[*i as usize].clone();
                }
                set!(*d, v);
            }
            Inst::InsertValue(d, a, b, idx) => {
                let v = g!(*a);
                let x = g!(*b);
                fn ins(v: &Val, x: Val, idx: &[u32]) -> Val {
                    if idx.is_empty() {
                        return x;
                    }
                    let Val::A(vs) = v else { return Val::C(0) };
                    let mut o = (**vs).clone();
                    o[idx[0] as usize] = ins(&vs[idx[0] as usize], x, &idx[1..]);
                    Val::agg(o)
                }
                let v = ins(&v, x, idx);
                set!(*d, v);
            }
            Inst::ExtractElement(d, a, i) => {
                let (v, i) = (g!(*a), g!(*i));
                let i = self.concretize(s, &i, "vector index")? as usize;
                let Val::A(x) = &v else { return err("extractelement") };
                let v = x.get(i).cloned().unwrap_or(Val::C(0));
                set!(*d, v);
            }
            Inst::InsertElement(d, a, b, i) => {
                let (v, x, i) = (g!(*a), g!(*b), g!(*i));
                let i = self.concretize(s, &i, "vector index")? as usize;
                let Val::A(o) = &v else { return err("insertelement") };
                let mut o = (**o).clone();
                if i < o.len() {
                    o[i] = x;
                }
                set!(*d, Val::agg(o));
            }
            Inst::Shuffle(d, a, b, mask, n) => {
                let (x, y) = (g!(*a), g!(*b));
                let (Val::A(x), Val::A(y)) = (&x, &y) else { return err("shuffle") };
                let o = mask
                    .iter()
                    .map(|m| match m {
                        Some(m) if *m < *n => x[*m as usize].clone(),
                        Some(m) => y.get((*m - *n) as usize).cloned().unwrap_or(Val::C(0)),
                        None => Val::C(0),
                    })
                    .collect();
                set!(*d, Val::agg(o));
            }
            Inst::Copy(d, a) => {
                let v = g!(*a);
                set!(*d, v);
            }
            Inst::Br(b) => self.jump(s, *b),
            Inst::CondBr(c, a, b) => {
                let c = g!(*c);
                if let Some((m, n)) = &mut s.rounds {
                    let n = *n * if matches!(c, Val::C(_)) { 1000 } else { 1 };
                    let f = s.frames.last().unwrap();
                    let r = Rc::make_mut(m).entry((s.frames.len() as u32, f.func, f.block as u32)).or_insert(0);
                    *r += 1;
                    if *r > n {
                        *self.cuts.entry(format!("paths with more than {n} rounds of a loop in the reference left out")).or_insert(0) += 1;
                        return Err(End::Infeasible);
                    }
                }
                let t = match c {
                    Val::C(c) => c & 1 == 1,
                    Val::S(e) => self.branch(s, e)?,
                    _ => return err("br"),
                };
                self.jump(s, if t { *a } else { *b });
            }
            Inst::Switch(o, t, def, cases) => {
                let v = g!(*o);
                let to = match v {
                    Val::C(c) => cases.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(*def),
                    Val::S(e) => {
                        if let Some(&k) = s.known.get(&e) {
                            cases.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(*def)
                        } else {
                            let w = self.m.width(*t);
                            // group cases by target
                            let mut groups: Vec<(u32, E)> = vec![];
                            for (k, b) in cases {
                                let kc = self.d.c(*k, w);
                                let q = self.d.eq(e, kc);
                                match groups.iter_mut().find(|g| g.0 == *b) {
                                    Some(g) => g.1 = self.d.or(g.1, q),
                                    None => groups.push((*b, q)),
                                }
                            }
                            let mut to = *def;
                            for (b, q) in groups {
                                if b == *def {
                                    continue;
                                }
                                if self.branch(s, q)? {
                                    to = b;
                                    break;
                                }
                            }
                            to
                        }
                    }
                    _ => return err("switch"),
                };
                self.jump(s, to);
            }
            Inst::Ret(v) => {
                let v = match v {
                    Some((_, o)) => g!(*o),
                    None => Val::C(0),
                };
                let f = s.frames.pop().unwrap();
                s.sp = f.sp;
                if s.frames.is_empty() {
                    // keep one frame for diagnostics
                    s.frames.push(f);
                    return Err(End::Done);
                }
                self.ret(s, f.dst, f.normal, v);
            }
            Inst::Unreachable => return err("reached unreachable"),
            Inst::AtomicRmw(d, op, t, p, v) => {
                let (p, v) = (g!(*p), g!(*v));
                let a = self.concretize(s, &p, "atomic address")? as u64;
                let old = self.load(s, a, *t)?;
                let k = match &**op {
                    "add" => Some(BinK::Add),
                    "sub" => Some(BinK::Sub),
                    "and" => Some(BinK::And),
                    "or" => Some(BinK::Or),
                    "xor" => Some(BinK::Xor),
                    "xchg" => None,
                    o => return err(format!("atomicrmw {o}")),
                };
                let new = match k {
                    Some(k) => self.bin(k, *t, &old, &v)?,
                    None => v,
                };
                self.store(s, a, *t, &new)?;
                set!(*d, old);
            }
            Inst::CmpXchg(d, t, p, e, n) => {
                let (p, e, n) = (g!(*p), g!(*e), g!(*n));
                let a = self.concretize(s, &p, "atomic address")? as u64;
                let old = self.load(s, a, *t)?;
                let w = self.m.width(*t);
                let eq = self.icmp(Pred::Eq, &old, &e, w);
                let eqb = match eq {
                    Val::C(c) => c == 1,
                    Val::S(x) => self.branch(s, x)?,
                    _ => return err("cmpxchg"),
                };
                if eqb {
                    self.store(s, a, *t, &n)?;
                }
                set!(*d, Val::agg(vec![old, Val::C(eqb as u128)]));
            }
            Inst::Nop => s.frames.last_mut().unwrap().ip += 1,
            Inst::Unsupported(e) => return err(format!("unsupported: {e}")),
            Inst::Call { dst, ret, callee, args, normal } => {
                let fid = match callee {
                    Callee::F(f) => *f,
                    Callee::Asm => {
                        // inline asm without outputs (optimisation barriers)
                        if dst.is_some() {
                            return err("inline asm with result");
                        }
                        self.finish_call(s, None, *normal, Val::C(0));
                        return Ok(());
                    }
                    Callee::Ptr(o) => {
                        let p = g!(*o);
                        let a = self.concretize(s, &p, "function pointer")? as u64;
                        match self.m.faddr.get(&a) {
                            Some(f) => *f,
                            None => return err(format!("call to non-function {a:#x}")),
                        }
                    }
                };
                let av: Vec<Val> = args.iter().map(|(_, o)| g!(*o)).collect();
                return self.call(s, fid, *dst, *ret, av, args, *normal);
            }
        }
        Ok(())
    }
    fn finish_call(&mut self, s: &mut State, dst: Option<u32>, normal: Option<u32>, v: Val) {
        let f = s.frames.last_mut().unwrap();
        if let Some(d) = dst {
            f.regs[d as usize] = v;
        }
        f.ip += 1;
        if let Some(n) = normal {
            self.jump(s, n);
        }
    }
    fn ret(&mut self, s: &mut State, dst: Option<u32>, normal: Option<u32>, v: Val) {
        self.finish_call(s, dst, normal, v)
    }
    fn kind(&mut self, f: u32) -> FK {
        let k = self.kinds[f as usize];
        if k != FK::Unknown {
            return k;
        }
        let fun = &self.m.funcs[f as usize];
        let n = fun.name.as_str();
        let p = fun.pretty.as_str();
        let k = if n.starts_with("llvm.") {
            FK::Intr
        } else if n.starts_with("sx_") {
            FK::Sx
        } else if p.starts_with("core::fmt::float::") && p.contains("Display for f") {
            FK::FDisplay
        } else if self.o.int_token && p.starts_with("core::fmt::num::imp::") && p.contains("Display for ") && p.ends_with("::fmt") {
            FK::IDisplay
        } else if p.starts_with("core::num::dec2flt::") && p.contains("FromStr for f") && p.ends_with("from_str") {
            FK::FParse
        } else {
            match n {
                "__rust_alloc" | "__rdl_alloc" | "__rg_alloc" => FK::Alloc,
                "__rust_alloc_zeroed" | "__rdl_alloc_zeroed" => FK::AllocZeroed,
                "__rust_realloc" | "__rdl_realloc" => FK::Realloc,
                "__rust_dealloc" | "__rdl_dealloc" | "free" => FK::Dealloc,
                "malloc" => FK::Malloc,
                "calloc" => FK::Calloc,
                "realloc" => FK::CRealloc,
                "posix_memalign" => FK::PosixMemalign,
                "memcmp" => FK::Memcmp,
                "bcmp" => FK::Bcmp,
                "strlen" => FK::Strlen,
                "abort" | "rust_begin_unwind" | "__rust_start_panic" | "rust_panic" | "__rust_alloc_error_handler" | "exit" | "_exit" => FK::Panic,
                "pthread_setspecific" | "pthread_key_create" | "pthread_key_delete" | "__cxa_thread_atexit_impl" | "__cxa_atexit" => FK::RetZero,
                _ if p.contains("hashmap_random_keys") => FK::RandomKeys,
                _ if p.starts_with("core::panicking::")
                    || p.starts_with("core::option::unwrap_failed")
                    || p.starts_with("core::option::expect_failed")
                    || p.starts_with("core::result::unwrap_failed")
                    || p.starts_with("core::slice::index::slice_")
                    || p.contains("core::str::slice_error_fail")
                    || p.starts_with("core::cell::panic_already")
                    || p.contains("copy_from_slice::len_mismatch_fail")
                    || p.starts_with("alloc::raw_vec::handle_error")
                    || p.starts_with("alloc::raw_vec::capacity_overflow")
                    || p.starts_with("alloc::alloc::handle_alloc_error")
                    || p.starts_with("std::process::abort")
                    || p.starts_with("std::process::exit")
                    || p.contains("std::panicking::begin_panic")
                    || p.contains("std::panicking::rust_panic")
                    || p.contains("assert_failed") && p.starts_with("alloc::vec::") =>
                {
                    FK::Panic
                }
                _ if p.contains("panic_count::is_zero_slow_path") => FK::RetOne,
                _ if p.contains("std::thread::local::panic_access_error") => FK::Panic,
                _ if p.contains("thread_local::destructors") && p.contains("register") => FK::Nop,
                _ if p.contains("thread_local::guard") && p.ends_with("enable") => FK::Nop,
                _ if libm_name(n).is_some() || libm_crate(p).and_then(libm_name).is_some() => FK::Libm,
                _ => FK::Defined,
            }
        };
        self.kinds[f as usize] = k;
        k
    }
    fn alloc(&mut self, s: &mut State, size: u64, align: u64) -> X<u64> {
        let al = align.max(16);
        let a = (s.heap + al - 1) / al * al;
        s.heap = a + size.max(1) + 16;
        if s.heap >= 0xf000_0000 {
            return err("heap exhausted");
        }
        Ok(a)
    }
    fn read_str(&mut self, s: &State, p: &Val, n: &Val) -> X<String> {
        let (Val::C(p), Val::C(n)) = (p, n) else { return err("symbolic string pointer") };
        let mut v = vec![];
        for i in 0..*n as u64 {
            match s.mem.byte(*p as u64 + i) {
                B::C(b) => v.push(b),
                B::S(..) => return err("symbolic name"),
            }
        }
        Ok(String::from_utf8_lossy(&v).into_owned())
    }
    fn panic_msg(&mut self, s: &State, f: u32, av: &[Val]) -> String {
        let name = self.m.funcs[f as usize].pretty.clone();
        let mut m = String::new();
        if name.ends_with("panicking::panic") || name.ends_with("expect_failed") || name.ends_with("unwrap_failed") {
            if av.len() >= 2 {
                if let Ok(t) = self.read_str(s, &av[0], &av[1]) {
                    m = t;
                }
            }
        } else if name.ends_with("panic_fmt") {
            if let Some(Val::C(a)) = av.first() {
                let rd = |e: &mut Engine, a: u64| e.load_scalar(s, a, 64);
                if let Val::C(pp) = rd(self, *a as u64) {
                    let (p, n) = (rd(self, pp as u64), rd(self, pp as u64 + 8));
                    if let Val::C(nn) = n {
                        if nn < 400 && pp > 0x1000 {
                            if let Ok(t) = self.read_str(s, &p, &n) {
                                m = t;
                            }
                        }
                    }
                }
            }
        }
        let caller = self.m.funcs[s.frames.last().unwrap().func as usize].pretty.clone();
        format!("{}: {} (in {})", name, m.chars().take(120).collect::<String>(), caller)
    }
    fn call(&mut self, s: &mut State, fid: u32, dst: Option<u32>, ret: TyId, av: Vec<Val>, at: &[(TyId, Op)], normal: Option<u32>) -> X<()> {
        let k = self.kind(fid);
        macro_rules! cz {
            ($i:expr, $w:expr) => {
                self.concretize(s, &av[$i], $w)? as u64
            };
        }
        let rv = match k {
            FK::Defined => {
                let body = match self.m.body(fid) {
                    Ok(b) => b,
                    Err(e) => return err(e),
                };
                if s.frames.len() > 2000 {
                    return err("call depth");
                }
                let mut regs = vec![Val::C(0); body.nregs as usize];
                for (i, v) in av.into_iter().enumerate() {
                    if i < body.nargs as usize {
                        regs[i] = v;
                    }
                }
                let sp = s.sp;
                s.frames.push(Frame { func: fid, body, regs, block: 0, ip: 0, sp, dst, normal });
                return Ok(());
            }
            FK::Panic => {
                let m = self.panic_msg(s, fid, &av);
                return Err(End::Panic(m));
            }
            FK::Alloc => {
                let (n, al) = (cz!(0, "allocation size"), cz!(1, "alignment"));
                Val::C(self.alloc(s, n, al)? as u128)
            }
            FK::AllocZeroed => {
                let (n, al) = (cz!(0, "allocation size"), cz!(1, "alignment"));
                Val::C(self.alloc(s, n, al)? as u128)
            }
            FK::Malloc => {
                let n = cz!(0, "allocation size");
                Val::C(self.alloc(s, n, 16)? as u128)
            }
            FK::Calloc => {
                let n = cz!(0, "allocation size") * cz!(1, "allocation size");
                Val::C(self.alloc(s, n, 16)? as u128)
            }
            FK::PosixMemalign => {
                let (p, al, n) = (cz!(0, "ptr"), cz!(1, "align"), cz!(2, "allocation size"));
                let a = self.alloc(s, n, al)?;
                s.mem.write_c(p, a as u128, 8);
                Val::C(0)
            }
            FK::Realloc => {
                let (p, old, al, new) = (cz!(0, "ptr"), cz!(1, "size"), cz!(2, "align"), cz!(3, "size"));
                let a = self.alloc(s, new, al)?;
                s.mem.copy(a, p, old.min(new));
                Val::C(a as u128)
            }
            FK::CRealloc => return err("realloc"),
            FK::Dealloc | FK::Nop => Val::C(0),
            FK::RetZero => Val::C(0),
            FK::RetOne => Val::C(1),
            FK::RandomKeys => {
                let z = 0x0123456789abcdefu64 ^ self.o.seed.wrapping_mul(0x9e3779b97f4a7c15);
                Val::agg(vec![Val::C(z as u128), Val::C(!z as u128)])
            }
            FK::Memcmp | FK::Bcmp => {
                let (a, b, n) = (cz!(0, "memcmp"), cz!(1, "memcmp"), cz!(2, "memcmp length"));
                let mut r = self.d.c(0, 32);
                for i in (0..n).rev() {
                    let x = self.load_scalar(s, a + i, 8);
                    let y = self.load_scalar(s, b + i, 8);
                    if let (Val::C(x), Val::C(y)) = (&x, &y) {
                        if x != y {
                            r = self.d.c(if x < y { 0xffff_ffff } else { 1 }, 32);
                        }
                        continue;
                    }
                    let (x, y) = (self.to_e(&x, 8), self.to_e(&y, 8));
                    let q = self.d.eq(x, y);
                    let diff = if k == FK::Bcmp {
                        self.d.c(1, 32)
                    } else {
                        let l = self.d.ult(x, y);
                        let m1 = self.d.c(0xffff_ffff, 32);
                        let p1 = self.d.c(1, 32);
                        self.d.ite(l, m1, p1)
                    };
                    r = self.d.ite(q, r, diff);
                }
                self.norm(r)
            }
            FK::Strlen => {
                let a = cz!(0, "strlen");
                let mut n = 0u64;
                loop {
                    match s.mem.byte(a + n) {
                        B::C(0) => break,
                        B::C(_) => n += 1,
                        _ => return err("symbolic strlen"),
                    }
                }
                Val::C(n as u128)
            }
            FK::Libm => {
                let f = &self.m.funcs[fid as usize];
                let (name, w) = libm_name(&f.name).or_else(|| libm_crate(&f.pretty).and_then(libm_name)).unwrap();
                let es: Vec<E> = av.iter().map(|v| self.to_e(v, w)).collect();
                let r = self.libm(name, &es, w);
                self.norm(r)
            }
            FK::IDisplay => return self.i_display(s, fid, dst, normal, &av),
            FK::FDisplay => return self.f_display(s, fid, dst, normal, &av),
            FK::FParse => match self.f_parse(s, fid, &av, ret)? {
                Some(v) => v,
                None => {
                    // ordinary parsing of this text
                    let body = self.m.body(fid).map_err(End::Error)?;
                    let mut regs = vec![Val::C(0); body.nregs as usize];
                    for (i, v) in av.into_iter().enumerate() {
                        regs[i] = v;
                    }
                    let sp = s.sp;
                    s.frames.push(Frame { func: fid, body, regs, block: 0, ip: 0, sp, dst, normal });
                    return Ok(());
                }
            },
            FK::Sx => self.sx(s, fid, &av)?,
            FK::Intr => self.intrinsic(s, fid, ret, &av, at)?,
            FK::Unknown => unreachable!(),
        };
        self.finish_call(s, dst, normal, rv);
        Ok(())
    }
    fn libm(&mut self, name: &str, es: &[E], w: u32) -> E {
        match name {
            "fabs" => return self.d.fabs(es[0]),
            "sqrt" => return self.d.fun(K::FSqrt, w, &es[..1], 0),
            "floor" => return self.d.fun(K::FRound, w, &es[..1], 0),
            "ceil" => return self.d.fun(K::FRound, w, &es[..1], 1),
            "trunc" => return self.d.fun(K::FRound, w, &es[..1], 2),
            "round" => return self.d.fun(K::FRound, w, &es[..1], 3),
            "rint" | "nearbyint" | "roundeven" => return self.d.fun(K::FRound, w, &es[..1], 4),
            "fma" => return self.d.fun(K::FFma, w, es, 0),
            "fmin" => return self.d.fminmax(false, es[0], es[1]),
            "fmax" => return self.d.fminmax(true, es[0], es[1]),
            "fmod" => return self.d.fbin(BinK::FRem, es[0], es[1]),
            "copysign" => {
                let a = self.d.fabs(es[0]);
                let s = self.d.extract(es[1], w - 1, 1);
                let x = self.d.extract(a, 0, w - 1);
                return self.d.concat(s, x);
            }
            _ => {}
        }
        let id = self.d.uf_id(name);
        self.d.fun(K::Uf, w, es, id)
    }
    fn powi(&mut self, x: E, n: E, w: u32) -> E {
        if self.d.cv(x) == Some(if w == 32 { 1.0f32.to_bits() as u128 } else { 1.0f64.to_bits() as u128 }) {
            return x;
        }
        if let Some(n) = self.d.cv(n) {
            let n = sext(n, 32) as i64;
            if n.abs() <= 64 {
                let one = self.d.c(if w == 32 { 1.0f32.to_bits() as u128 } else { 1.0f64.to_bits() as u128 }, w);
                let mut b = n.abs();
                let mut r = one;
                let mut a = x;
                loop {
                    if b & 1 == 1 {
                        r = self.d.fbin(BinK::FMul, r, a);
                    }
                    b /= 2;
                    if b == 0 {
                        break;
                    }
                    a = self.d.fbin(BinK::FMul, a, a);
                }
                return if n < 0 { self.d.fbin(BinK::FDiv, one, r) } else { r };
            }
        }
        if w == 64 && self.d.cv(x) == Some(2.0f64.to_bits() as u128) && self.d.cv(n).is_none() {
            // exact: 2^n by repeated squaring; negative n is 1/2^|n|
            let z = self.d.c(0, 32);
            let neg = self.d.slt(n, z);
            let nn = self.d.sub(z, n);
            let abs = self.d.ite(neg, nn, n);
            let big = self.d.c(1024, 32);
            let over = self.d.ule(big, abs); // |n| >= 1024 -> inf (also i32::MIN)
            let a16 = self.d.extract(abs, 0, 11);
            let bias = self.d.c(1023, 11);
            // 2^abs: exponent field 1023+abs (abs<=1023 -> <= 2046)
            let e = self.d.add(a16, bias);
            let z52 = self.d.c(0, 52);
            let ef = self.d.concat(e, z52);
            let p = self.d.zext(ef, 64);
            let inf = self.d.c(0x7ff0_0000_0000_0000, 64);
            let pos = self.d.ite(over, inf, p);
            // 1/2^abs: exponent field 1023-abs >= 0; abs=1023 -> subnormal 2^-1023
            let e2 = self.d.sub(bias, a16);
            let ef2 = self.d.concat(e2, z52);
            let q = self.d.zext(ef2, 64);
            let k1023 = self.d.c(1023, 11);
            let is1023 = self.d.eq(a16, k1023);
            let sub = self.d.c(1u128 << 51, 64);
            let q = self.d.ite(is1023, sub, q);
            let zero = self.d.c(0, 64);
            let qn = self.d.ite(over, zero, q);
            return self.d.ite(neg, qn, pos);
        }
        let id = self.d.uf_id("powi");
        self.d.fun(K::Uf, w, &[x, n], id)
    }
    fn intrinsic(&mut self, s: &mut State, fid: u32, ret: TyId, av: &[Val], at: &[(TyId, Op)]) -> X<Val> {
        let name = self.m.funcs[fid as usize].name.clone();
        let n = name.strip_prefix("llvm.").unwrap();
        macro_rules! cz {
            ($i:expr, $w:expr) => {
                self.concretize(s, &av[$i], $w)? as u64
            };
        }
        if n.starts_with("lifetime") || n.starts_with("dbg") || n.starts_with("experimental.noalias") || n.starts_with("assume") || n.starts_with("x86.sse2.pause") || n.starts_with("prefetch") || n.starts_with("invariant") || n.starts_with("donothing") || n.starts_with("sideeffect") {
            return Ok(Val::C(0));
        }
        if n.starts_with("memcpy") || n.starts_with("memmove") {
            let (d, sr, l) = (cz!(0, "memcpy dst"), cz!(1, "memcpy src"), cz!(2, "memcpy length"));
            if l > 0 && (d < 0x1000 || sr < 0x1000) {
                return err("memcpy bad pointer");
            }
            s.mem.copy(d, sr, l);
            return Ok(Val::C(0));
        }
        if n.starts_with("memset") {
            let (d, l) = (cz!(0, "memset dst"), cz!(2, "memset length"));
            for i in 0..l {
                match &av[1] {
                    Val::C(c) => s.mem.set_byte(d + i, B::C(*c as u8)),
                    Val::S(e) => s.mem.set_byte(d + i, B::S(*e, 0)),
                    _ => {}
                }
            }
            return Ok(Val::C(0));
        }
        if n.starts_with("trap") || n.starts_with("ubsantrap") {
            return Err(End::Panic(format!("trap in {}", self.m.funcs[s.frames.last().unwrap().func as usize].pretty)));
        }
        if n.starts_with("expect") {
            return Ok(av[0].clone());
        }
        if n.starts_with("is.constant") {
            return Ok(Val::C(0));
        }
        if n.starts_with("threadlocal.address") || n.starts_with("launder") || n.starts_with("strip.invariant") {
            return Ok(av[0].clone());
        }
        if n.starts_with("ptrmask") {
            return self.bin(BinK::And, at[1].0, &av[0], &av[1]);
        }
        if n.starts_with("load.relative") {
            let p = &av[0];
            let (Val::C(p), o) = (p.clone(), cz!(1, "load.relative")) else { return err("load.relative") };
            let a = (p as u64).wrapping_add(o);
            let v = self.load_scalar(s, a, 32);
            let Val::C(v) = v else { return err("load.relative") };
            return Ok(Val::C((p as u64).wrapping_add(sext(v, 32) as i64 as u64) as u128));
        }
        let base: String = n.split('.').next().unwrap().to_string();
        let n2 = n.to_string();
        // ---- overflow arithmetic
        if n.contains(".with.overflow") {
            let w = self.m.width(at[0].0);
            let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
            let signed = base.starts_with('s');
            let op = &base[1..];
            let d = &mut self.d;
            let k = match op {
                "add" => K::Add,
                "sub" => K::Sub,
                _ => K::Mul,
            };
            let r = d.arith(k, x, y);
            let ov = if k == K::Mul {
                let w2 = w * 2;
                if w2 > 128 {
                    return err("wide mul overflow");
                }
                let (xe, ye) = if signed { (d.sext(x, w2), d.sext(y, w2)) } else { (d.zext(x, w2), d.zext(y, w2)) };
                let p = d.mul(xe, ye);
                let re = if signed { d.sext(r, w2) } else { d.zext(r, w2) };
                let e = d.eq(p, re);
                d.not(e)
            } else {
                let w2 = w + 1;
                let (xe, ye) = if signed { (d.sext(x, w2), d.sext(y, w2)) } else { (d.zext(x, w2), d.zext(y, w2)) };
                let p = d.arith(k, xe, ye);
                let re = if signed { d.sext(r, w2) } else { d.zext(r, w2) };
                let e = d.eq(p, re);
                d.not(e)
            };
            let (a, b) = (self.norm(r), self.norm(ov));
            return Ok(Val::agg(vec![a, b]));
        }
        match base.as_str() {
            "umax" | "umin" | "smax" | "smin" => {
                return self.lift2(ret, &av[0].clone(), &av[1].clone(), &mut |en, a, b, t| {
                    let w = en.m.width(t);
                    let (x, y) = (en.to_e(a, w), en.to_e(b, w));
                    let c = if base.starts_with('u') { en.d.ult(x, y) } else { en.d.slt(x, y) };
                    let r = if base.ends_with("max") { en.d.ite(c, y, x) } else { en.d.ite(c, x, y) };
                    Ok(en.norm(r))
                });
            }
            "abs" => {
                return self.lift1(ret, &av[0].clone(), &mut |en, a, t| {
                    let w = en.m.width(t);
                    let x = en.to_e(a, w);
                    let z = en.d.c(0, w);
                    let c = en.d.slt(x, z);
                    let nx = en.d.sub(z, x);
                    let r = en.d.ite(c, nx, x);
                    Ok(en.norm(r))
                });
            }
            "uadd" | "usub" | "sadd" | "ssub" if n2.contains(".sat") => {
                return self.lift2(ret, &av[0].clone(), &av[1].clone(), &mut |en, a, b, t| {
                    let w = en.m.width(t);
                    let (x, y) = (en.to_e(a, w), en.to_e(b, w));
                    let d = &mut en.d;
                    let r = match base.as_str() {
                        "uadd" => {
                            let r = d.add(x, y);
                            let o = d.ult(r, x);
                            let m = d.c(mask(w), w);
                            d.ite(o, m, r)
                        }
                        "usub" => {
                            let r = d.sub(x, y);
                            let o = d.ult(x, y);
                            let z = d.c(0, w);
                            d.ite(o, z, r)
                        }
                        _ => {
                            let (xe, ye) = (d.sext(x, w + 1), d.sext(y, w + 1));
                            let r = d.arith(if base == "sadd" { K::Add } else { K::Sub }, xe, ye);
                            let mx = d.c(mask(w) >> 1, w + 1);
                            let mn = d.c(sext(1u128 << (w - 1), w) as u128, w + 1);
                            let hi = d.slt(mx, r);
                            let lo = d.slt(r, mn);
                            let r = d.ite(hi, mx, r);
                            let r = d.ite(lo, mn, r);
                            d.extract(r, 0, w)
                        }
                    };
                    Ok(en.norm(r))
                });
            }
            "ctpop" | "ctlz" | "cttz" | "bswap" | "bitreverse" => {
                return self.lift1(ret, &av[0].clone(), &mut |en, a, t| {
                    let w = en.m.width(t);
                    if let Val::C(c) = a {
                        let c = *c;
                        let r = match base.as_str() {
                            "ctpop" => c.count_ones() as u128,
                            "ctlz" => (c.leading_zeros() - (128 - w)) as u128,
                            "cttz" => if c == 0 { w as u128 } else { c.trailing_zeros() as u128 },
                            "bswap" => c.swap_bytes() >> (128 - w),
                            _ => c.reverse_bits() >> (128 - w),
                        };
                        return Ok(Val::C(r));
                    }
                    let x = en.to_e(a, w);
                    let d = &mut en.d;
                    let r = match base.as_str() {
                        "ctpop" => {
                            let mut r = d.c(0, w);
                            for i in 0..w {
                                let b = d.extract(x, i, 1);
                                let b = d.zext(b, w);
                                r = d.add(r, b);
                            }
                            r
                        }
                        "cttz" => {
                            let mut r = d.c(w as u128, w);
                            for i in (0..w).rev() {
                                let b = d.extract(x, i, 1);
                                let k = d.c(i as u128, w);
                                r = d.ite(b, k, r);
                            }
                            r
                        }
                        "ctlz" => {
                            let mut r = d.c(w as u128, w);
                            for i in 0..w {
                                let b = d.extract(x, i, 1);
                                let k = d.c((w - 1 - i) as u128, w);
                                r = d.ite(b, k, r);
                            }
                            r
                        }
                        "bswap" => {
                            let mut r = d.extract(x, 0, 8);
                            for i in 1..w / 8 {
                                let b = d.extract(x, 8 * i, 8);
                                r = d.concat(r, b);
                            }
                            r
                        }
                        _ => {
                            let mut r = d.extract(x, 0, 1);
                            for i in 1..w {
                                let b = d.extract(x, i, 1);
                                r = d.concat(r, b);
                            }
                            r
                        }
                    };
                    Ok(en.norm(r))
                });
            }
            "fshl" | "fshr" => {
                let w = self.m.width(ret);
                let (a, b, c) = (self.to_e(&av[0], w), self.to_e(&av[1], w), self.to_e(&av[2], w));
                let Some(c) = self.d.cv(c) else { return err("symbolic funnel shift") };
                let sh = (c % w as u128) as u32;
                let sh = if base == "fshl" { sh } else { (w - sh) % w };
                if sh == 0 {
                    return Ok(if base == "fshl" || true && (c % w as u128) != 0 { self.norm(a) } else { self.norm(b) });
                }
                let hi = self.d.extract(a, 0, w - sh);
                let lo = self.d.extract(b, w - sh, sh);
                let r = self.d.concat(hi, lo);
                return Ok(self.norm(r));
            }
            "vector" => {
                // vector.reduce.add.v2i64 etc
                let op = n2.split('.').nth(2).unwrap_or("").to_string();
                let TyK::Vector(_, e) = self.m.types.k[at[0].0 as usize] else { return err("reduce") };
                let Val::A(vs) = av[0].clone() else { return err("reduce") };
                let k = match op.as_str() {
                    "add" => BinK::Add,
                    "or" => BinK::Or,
                    "and" => BinK::And,
                    "xor" => BinK::Xor,
                    "mul" => BinK::Mul,
                    _ => {
                        let mut r = vs[0].clone();
                        for x in &vs[1..] {
                            let w = self.m.width(e);
                            let (p, q) = (self.to_e(&r, w), self.to_e(x, w));
                            let c = if op.starts_with('u') { self.d.ult(p, q) } else { self.d.slt(p, q) };
                            let z = if op.ends_with("max") { self.d.ite(c, q, p) } else { self.d.ite(c, p, q) };
                            r = self.norm(z);
                        }
                        return Ok(r);
                    }
                };
                let mut r = vs[0].clone();
                for x in &vs[1..] {
                    r = self.bin(k, e, &r, x)?;
                }
                return Ok(r);
            }
            "x86" if n2.contains("pmovmskb.128") => {
                let Val::A(vs) = av[0].clone() else { return err("pmovmskb") };
                let mut r = self.d.c(0, 32);
                for (i, x) in vs.iter().enumerate() {
                    let x = self.to_e(x, 8);
                    let b = self.d.extract(x, 7, 1);
                    let b = self.d.zext(b, 32);
                    let k = self.d.c(i as u128, 32);
                    let b = self.d.shift(K::Shl, b, k);
                    r = self.d.or(r, b);
                }
                return Ok(self.norm(r));
            }
            "powi" => {
                let (w, w2) = (self.m.width(at[0].0), self.m.width(at[1].0));
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w2));
                let r = self.powi(x, y, w);
                return Ok(self.norm(r));
            }
            "fptosi" | "fptoui" => {
                let (w, w2) = (self.m.width(at[0].0), self.m.width(ret));
                let x = self.to_e(&av[0], w);
                let nan = self.d.fisnan(x);
                let r = self.d.fun(if base == "fptosi" { K::FToS } else { K::FToU }, w2, &[x], 1);
                let z = self.d.c(0, w2);
                let r = self.d.ite(nan, z, r);
                return Ok(self.norm(r));
            }
            "is" if n2.starts_with("is.fpclass") => {
                let w = self.m.width(at[0].0);
                let x = self.to_e(&av[0], w);
                let Val::C(m) = av[1] else { return err("fpclass") };
                let r = self.fpclass(x, w, m as u32);
                return Ok(self.norm(r));
            }
            "minnum" | "maxnum" | "minimum" | "maximum" => {
                return self.lift2(ret, &av[0].clone(), &av[1].clone(), &mut |en, a, b, t| {
                    let w = en.m.width(t);
                    let (x, y) = (en.to_e(a, w), en.to_e(b, w));
                    let r = en.d.fminmax(base.starts_with("max"), x, y);
                    Ok(en.norm(r))
                });
            }
            "fma" | "fmuladd" => {
                let w = self.m.width(ret);
                let es: Vec<E> = av.iter().map(|v| self.to_e(v, w)).collect();
                let r = self.d.fun(K::FFma, w, &es, 0);
                return Ok(self.norm(r));
            }
            _ => {}
        }
        let lname: Option<&'static str> = match base.as_str() {
            "fabs" => Some("fabs"),
            "sqrt" => Some("sqrt"),
            "floor" => Some("floor"),
            "ceil" => Some("ceil"),
            "trunc" => Some("trunc"),
            "round" => Some("round"),
            "rint" | "nearbyint" | "roundeven" => Some("rint"),
            "copysign" => Some("copysign"),
            "sin" => Some("sin"),
            "cos" => Some("cos"),
            "tan" => Some("tan"),
            "exp" => Some("exp"),
            "exp2" => Some("exp2"),
            "log" => Some("log"),
            "log2" => Some("log2"),
            "log10" => Some("log10"),
            "pow" => Some("pow"),
            _ => None,
        };
        if let Some(ln) = lname {
            if av.len() == 1 {
                return self.lift1(ret, &av[0].clone(), &mut |en, a, t| {
                    let w = en.m.width(t);
                    let x = en.to_e(a, w);
                    let r = en.libm(ln, &[x], w);
                    Ok(en.norm(r))
                });
            }
            return self.lift2(ret, &av[0].clone(), &av[1].clone(), &mut |en, a, b, t| {
                let w = en.m.width(t);
                let (x, y) = (en.to_e(a, w), en.to_e(b, w));
                let r = en.libm(ln, &[x, y], w);
                Ok(en.norm(r))
            });
        }
        err(format!("intrinsic {name}"))
    }
    fn fpclass(&mut self, x: E, w: u32, m: u32) -> E {
        let d = &mut self.d;
        let (eb, mb) = if w == 32 { (8, 23) } else { (11, 52) };
        let sgn = d.extract(x, w - 1, 1);
        let nsgn = d.not(sgn);
        let ex = d.extract(x, mb, eb);
        let mt = d.extract(x, 0, mb);
        let z = d.c(0, mb);
        let ez = d.c(0, eb);
        let eo = d.c(mask(eb), eb);
        let mz = d.eq(mt, z);
        let e0 = d.eq(ex, ez);
        let e1 = d.eq(ex, eo);
        let nmz = d.not(mz);
        let ne0 = d.not(e0);
        let ne1 = d.not(e1);
        let q = d.extract(x, mb - 1, 1);
        let nan = d.and(e1, nmz);
        let nq = d.not(q);
        let snan = d.and(nan, nq);
        let qnan = d.and(nan, q);
        let inf = d.and(e1, mz);
        let zero = d.and(e0, mz);
        let sub = d.and(e0, nmz);
        let norm = d.and(ne0, ne1);
        let mut r = d.f();
        let cls = [(0, snan, None), (1, qnan, None), (2, inf, Some(sgn)), (3, norm, Some(sgn)), (4, sub, Some(sgn)), (5, zero, Some(sgn)), (6, zero, Some(nsgn)), (7, sub, Some(nsgn)), (8, norm, Some(nsgn)), (9, inf, Some(nsgn))];
        for (b, c, s) in cls {
            if m >> b & 1 == 1 {
                let c = match s {
                    Some(s) => d.and(c, s),
                    None => c,
                };
                r = d.or(r, c);
            }
        }
        r
    }

    // ------------------------------------------------------------ harness interface
    fn sx(&mut self, s: &mut State, fid: u32, av: &[Val]) -> X<Val> {
        let name = self.m.funcs[fid as usize].name.clone();
        match name.as_str() {
            "sx_input" => {
                // (name ptr, len, bits) -> u64
                let nm = self.read_str(s, &av[0], &av[1])?;
                let Val::C(bits) = av[2] else { return err("sx_input bits") };
                let bits = bits as u32;
                let c = Rc::make_mut(&mut s.counts).entry(nm.clone()).or_insert(0);
                *c += 1;
                let full = if *c == 1 { nm } else { format!("{nm}#{c}") };
                if let Some(conc) = &self.o.concrete {
                    let v = conc.get(&full).copied().unwrap_or(0) & mask(bits);
                    return Ok(Val::C(v));
                }
                let key = (full.clone(), bits);
                let e = match self.inputs.get(&key) {
                    Some(e) => *e,
                    None => {
                        let e = self.d.var(&full, bits);
                        self.inputs.insert(key, e);
                        e
                    }
                };
                Rc::make_mut(&mut s.inputs).push((full, e));
                let r = self.d.zext(e, 64);
                Ok(self.norm(r))
            }
            "sx_param" => {
                let nm = self.read_str(s, &av[0], &av[1])?;
                Ok(match self.o.params.get(&nm) {
                    Some(v) => Val::C(*v as u128),
                    None => av[2].clone(),
                })
            }
            "sx_mirror" => {
                // a second variable constrained to be equal to the most recent input of that name
                let nm = self.read_str(s, &av[0], &av[1])?;
                let Val::C(bits) = av[2] else { return err("sx_mirror bits") };
                let bits = bits as u32;
                let c = s.counts.get(&nm).copied().unwrap_or(0);
                if c == 0 {
                    return err(format!("sx_mirror of unknown input {nm}"));
                }
                let full = if c == 1 { nm } else { format!("{nm}#{c}") };
                if let Some(conc) = &self.o.concrete {
                    let v = conc.get(&full).copied().unwrap_or(0) & mask(bits);
                    return Ok(Val::C(v));
                }
                let orig = self.inputs[&(full.clone(), bits)];
                let mname = format!("~{full}");
                let key = (mname.clone(), bits);
                let fresh = !s.inputs.iter().any(|(n, _)| *n == mname);
                let e = match self.inputs.get(&key) {
                    Some(e) => *e,
                    None => {
                        let e = self.d.var(&mname, bits);
                        self.inputs.insert(key, e);
                        self.mirrors.push((orig, e));
                        e
                    }
                };
                if fresh {
                    if let Some(m) = s.model.clone() {
                        let v = self.eval_m(&m, orig);
                        let mut mm = m.m.clone();
                        mm.v.insert(e, v);
                        s.model = Some(Rc::new(ModelC { m: mm, memo: RefCell::new(HashMap::new()) }));
                    }
                    Rc::make_mut(&mut s.inputs).push((mname, e));
                    let q = self.d.eq(orig, e);
                    self.add_pc(s, q);
                }
                let r = self.d.zext(e, 64);
                Ok(self.norm(r))
            }
            "sx_assume" => {
                self.assumes += 1;
                let e = self.to_e(&av[0], 1);
                self.assume(s, e)?;
                Ok(Val::C(0))
            }
            "sx_check" => {
                let id = self.read_str(s, &av[1], &av[2])?;
                let e = self.to_e(&av[0], 1);
                self.check(s, e, &id)?;
                Ok(Val::C(0))
            }
            "sx_fsame64" | "sx_fsame32" => {
                let w = if name.ends_with("64") { 64 } else { 32 };
                let (x, y) = (self.to_e(&av[0], w), self.to_e(&av[1], w));
                let r = self.d.fsame(x, y);
                Ok(self.norm(r))
            }
            "sx_reach" => {
                let id = self.read_str(s, &av[0], &av[1])?;
                let have = self.reach.get(&id).map_or(false, |r| r.1.is_some());
                let mut sample = None;
                if !have {
                    if let Some(m) = s.model.clone() {
                        sample = Some(self.inputs_of(s, &m));
                    } else {
                        // prove reachability with a verified model if possible
                        let t = self.d.t();
                        let (f, m) = self.feasible(s, t);
                        if !f {
                            return Err(End::Infeasible);
                        }
                        if let Some(m) = m {
                            sample = Some(self.inputs_of(s, &m));
                            s.model = Some(m);
                        } else {
                            let vars = self.state_vars(s);
                            for r in 0..3000 {
                                let m = self.sample_model(&vars, r);
                                if s.pc.iter().all(|&p| self.eval_m(&m, p) == 1) {
                                    sample = Some(self.inputs_of(s, &m));
                                    s.model = Some(Rc::new(m));
                                    break;
                                }
                            }
                        }
                    }
                }
                let r = self.reach.entry(id).or_insert((0, None));
                r.0 += 1;
                if r.1.is_none() {
                    r.1 = sample;
                }
                Ok(Val::C(0))
            }
            "sx_expect_panic" => {
                s.expect = Some(av[0].clone());
                Ok(Val::C(0))
            }
            "sx_forbid_panic" => {
                s.allow_panic = false;
                Ok(Val::C(0))
            }
            "sx_bound_loops" => {
                // leave out paths that take a symbolic branch more than n times (0: no limit)
                let n = self.concretize(s, &av[0], "loop bound")? as u32;
                s.rounds = if n == 0 { None } else { Some((Rc::new(HashMap::new()), n)) };
                Ok(Val::C(0))
            }
            "sx_allow_panic" => {
                s.allow_panic = true;
                Ok(Val::C(0))
            }
            "sx_stop" => Err(End::Done),
            "sx_branch" => {
                // force a fork on a condition (returns concrete bool)
                let e = self.to_e(&av[0], 1);
                let b = self.branch(s, e)?;
                Ok(Val::C(b as u128))
            }
            "sx_pick" => {
                let v = self.concretize(s, &av[0], "harness choice")?;
                Ok(Val::C(v))
            }
            "sx_out" => {
                let id = self.read_str(s, &av[0], &av[1])?;
                Rc::make_mut(&mut s.outs).push((id, av[2].clone()));
                Ok(Val::C(0))
            }
            "sx_ftoken" => {
                // bind a text to a symbolic f64: parsing that text yields the value
                let t = self.read_str(s, &av[0], &av[1])?;
                Rc::make_mut(&mut s.ftok).push((t, av[2].clone()));
                Ok(Val::C(0))
            }
            "sx_symbolic" => Ok(Val::C(self.o.concrete.is_none() as u128)),
            "sx_print" => {
                let t = self.read_str(s, &av[0], &av[1])?;
                eprintln!("[print] {t}");
                Ok(Val::C(0))
            }
            _ => err(format!("unknown harness call {name}")),
        }
    }
    /// Only with --int-token: the text of a symbolic integer is replaced by one fixed text (used where integers
    /// only occur in messages that nothing reads).
    fn i_display(&mut self, s: &mut State, fid: u32, dst: Option<u32>, normal: Option<u32>, av: &[Val]) -> X<()> {
        let p = self.m.funcs[fid as usize].pretty.clone();
        let t = p.split("Display for ").nth(1).unwrap_or("");
        let w = match t.get(1..).and_then(|x| x.split('>').next()) {
            Some("8") => 8,
            Some("16") => 16,
            Some("32") => 32,
            Some("64") | Some("size") => 64,
            _ => return err(format!("integer display {p}")),
        };
        let Val::C(a) = av[0] else { return err("display of symbolic pointer") };
        let v = self.load_scalar(s, a as u64, w);
        if matches!(v, Val::S(_)) {
            *self.cuts.entry("text of a symbolic integer left out of a message".into()).or_insert(0) += 1;
            self.finish_call(s, dst, normal, Val::C(0));
            return Ok(());
        }
        let body = self.m.body(fid).map_err(End::Error)?;
        let mut regs = vec![Val::C(0); body.nregs as usize];
        for (i, v) in av.iter().enumerate() {
            regs[i] = v.clone();
        }
        let sp = s.sp;
        s.frames.push(Frame { func: fid, body, regs, block: 0, ip: 0, sp, dst, normal });
        Ok(())
    }
    fn f_display(&mut self, s: &mut State, fid: u32, dst: Option<u32>, normal: Option<u32>, av: &[Val]) -> X<()> {
        let is32 = self.m.funcs[fid as usize].pretty.contains("for f32");
        let w = if is32 { 32 } else { 64 };
        let Val::C(p) = av[0] else { return err("display of symbolic pointer") };
        let v = self.load_scalar(s, p as u64, w);
        match v {
            Val::C(_) => {
                let body = self.m.body(fid).map_err(End::Error)?;
                let mut regs = vec![Val::C(0); body.nregs as usize];
                for (i, v) in av.iter().enumerate() {
                    regs[i] = v.clone();
                }
                let sp = s.sp;
                s.frames.push(Frame { func: fid, body, regs, block: 0, ip: 0, sp, dst, normal });
                Ok(())
            }
            Val::S(e) => {
                // the decimal text of a symbolic float is an opaque token (assumption: std's Display and
                // FromStr of floats are inverse to each other and contain no whitespace, letters or brackets)
                let mut text = format!("{}", 7_000_000_000u64 + e as u64 * 2 + is32 as u64);
                let mut token = true;
                if self.o.float_classes {
                    let mb = if is32 { 23 } else { 52 };
                    let x = self.d.extract(e, mb, w - 1 - mb);
                    let ones = self.d.c(mask(w - 1 - mb), w - 1 - mb);
                    let special = self.d.eq(x, ones);
                    let special = self.branch(s, special)?;
                    let m = self.d.extract(e, 0, mb);
                    let zero = self.d.c(0, mb);
                    let inf = self.d.eq(m, zero);
                    if special && !self.branch(s, inf)? {
                        text = "NaN".into();
                        token = false;
                    } else {
                        let sg = self.d.extract(e, w - 1, 1);
                        let neg = self.branch(s, sg)?;
                        text = format!("{}{}", if neg { "-" } else { "" }, if special { "inf".into() } else { format!("{text}.5") });
                        token = !special;
                    }
                }
                if token && !s.ftok.iter().any(|(t, _)| *t == text) {
                    Rc::make_mut(&mut s.ftok).push((text.clone(), Val::S(e)));
                }
                *self.cuts.entry("float text abstracted to an opaque token".into()).or_insert(0) += 1;
                // call Formatter::write_str / pad_formatted: use <Formatter as Write>::write_str
                let buf = self.alloc(s, text.len() as u64, 1)?;
                for (i, b) in text.bytes().enumerate() {
                    s.mem.write_c(buf + i as u64, b as u128, 1);
                }
                let ws = self
                    .m
                    .funcs
                    .iter()
                    .position(|f| f.pretty == "<core::fmt::Formatter as core::fmt::Write>::write_str" || f.pretty == "core::fmt::Formatter::write_str")
                    .map(|x| x as u32);
                let Some(wf) = ws.or_else(|| self.m.fmap.iter().find(|(k, _)| demangle(k).contains("core::fmt::Formatter") && demangle(k).ends_with("write_str")).map(|x| *x.1)) else {
                    return err("no Formatter::write_str in the module");
                };
                let body = self.m.body(wf).map_err(End::Error)?;
                let mut regs = vec![Val::C(0); body.nregs as usize];
                regs[0] = av[1].clone();
                regs[1] = Val::C(buf as u128);
                regs[2] = Val::C(text.len() as u128);
                let sp = s.sp;
                s.frames.push(Frame { func: wf, body, regs, block: 0, ip: 0, sp, dst, normal });
                Ok(())
            }
            _ => err("display"),
        }
    }
    fn f_parse(&mut self, s: &mut State, fid: u32, av: &[Val], ret: TyId) -> X<Option<Val>> {
        let is32 = self.m.funcs[fid as usize].pretty.contains("for f32");
        let w = if is32 { 32 } else { 64 };
        // signature: (sret?, ptr, len) or (ptr, len) -> {..}
        let off = if av.len() == 3 { 1 } else { 0 };
        // which part of the text is the number may depend on symbolic neighbours: one path for each
        let len = self.concretize(s, &av[off + 1], "length of a number's text")?;
        let ptr = self.concretize(s, &av[off], "start of a number's text")?;
        let Ok(t) = self.read_str(s, &Val::C(ptr), &Val::C(len)) else { return Ok(None) };
        let Some((_, v)) = s.ftok.iter().find(|(x, _)| *x == t).cloned() else { return Ok(None) };
        let e = self.to_e(&v, w);
        if self.d.w(e) != w {
            return err("float token of the wrong width");
        }
        // Result<f64, ParseFloatError>: {tag: i8, [payload]}: recover the layout by type
        let v = self.norm(e);
        match self.m.types.k[ret as usize].clone() {
            TyK::Void => {
                // sret: tag byte at 0 (0 = Ok), value at align offset
                let Val::C(p) = av[0] else { return err("sret") };
                s.mem.write_c(p as u64, 0, 1);
                self.store_scalar(s, p as u64 + (w / 8) as u64, &v, w)?;
                Ok(Some(Val::C(0)))
            }
            TyK::Struct(ts, _) if ts.len() == 2 => {
                if self.m.width(ts[1]) == w {
                    return Ok(Some(Val::agg(vec![Val::C(0), v])));
                }
                err("parse layout")
            }
            TyK::Int(64) if is32 => {
                // packed {i8 tag, f32 at offset 4}
                let sh = self.d.c(0, 32);
                let r = self.d.concat(e, sh);
                Ok(Some(self.norm(r)))
            }
            k => err(format!("parse layout {k:?}")),
        }
    }
    pub fn funcs_used(&self) -> Vec<String> {
        let mut v: HashSet<String> = HashSet::new();
        for f in &self.m.funcs {
            if f.used {
                v.insert(f.pretty.clone());
            }
        }
        let mut v: Vec<String> = v.into_iter().collect();
        v.sort();
        v
    }
    pub fn is_input(&self) -> usize {
        self.inputs.len()
    }
}

/// `libm::math::sin::sin` of the libm crate
fn libm_crate(p: &str) -> Option<&str> {
    let mut it = p.strip_prefix("libm::math::")?.split("::");
    let (a, b) = (it.next()?, it.next()?);
    if b.strip_suffix("f").unwrap_or(b) == a.strip_suffix("f").unwrap_or(a) && it.next().is_none() { Some(b) } else { None }
}
fn libm_name(n: &str) -> Option<(&'static str, u32)> {
    const L: &[&str] = &[
        "sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "exp", "exp2", "expm1", "log", "log2", "log10", "log1p", "cbrt", "pow", "atan2", "hypot", "fmod", "fabs", "sqrt", "floor", "ceil", "trunc", "round", "rint", "nearbyint", "roundeven", "fma", "fmin", "fmax",
        "copysign",
    ];
    for l in L {
        if n == *l {
            return Some((l, 64));
        }
        if n.len() == l.len() + 1 && n.starts_with(l) && n.ends_with('f') {
            return Some((l, 32));
        }
    }
    None
}
