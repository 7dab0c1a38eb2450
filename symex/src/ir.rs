//! Parser for the textual LLVM IR that rustc emits (opaque pointers, LLVM 17-21).
use std::collections::HashMap;
use std::rc::Rc;

pub type TyId = u32;
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum TyK {
    Void,
    Int(u32),
    F32,
    F64,
    OtherFp(u32),
    Ptr,
    Array(u64, TyId),
    Struct(Vec<TyId>, bool),
    Vector(u64, TyId),
    Meta,
    Func,
}

#[derive(Default)]
pub struct Types {
    pub k: Vec<TyK>,
    map: HashMap<TyK, TyId>,
    pub size: Vec<u64>,
    pub align: Vec<u64>,
    pub offs: Vec<Vec<u64>>,
    pub named: HashMap<String, TyId>,
}
impl Types {
    pub fn get(&mut self, k: TyK) -> TyId {
        if let Some(&i) = self.map.get(&k) {
            return i;
        }
        let (size, align, offs) = self.layout(&k);
        let id = self.k.len() as TyId;
        self.k.push(k.clone());
        self.map.insert(k, id);
        self.size.push(size);
        self.align.push(align);
        self.offs.push(offs);
        id
    }
    fn layout(&self, k: &TyK) -> (u64, u64, Vec<u64>) {
        match k {
            TyK::Void | TyK::Meta | TyK::Func => (0, 1, vec![]),
            TyK::Int(w) => {
                let b = ((*w + 7) / 8) as u64;
                let s = if b <= 8 { b.next_power_of_two() } else { (b + 15) / 16 * 16 };
                (s, s.min(16), vec![])
            }
            TyK::F32 => (4, 4, vec![]),
            TyK::F64 | TyK::Ptr => (8, 8, vec![]),
            TyK::OtherFp(b) => (*b as u64, (*b as u64).min(16), vec![]),
            TyK::Array(n, t) => (n * self.size[*t as usize], self.align[*t as usize], vec![]),
            TyK::Vector(n, t) => {
                let bits = match self.k[*t as usize] {
                    TyK::Int(w) => w as u64,
                    _ => self.size[*t as usize] * 8,
                };
                let s = ((n * bits + 7) / 8).next_power_of_two();
                (s, s, vec![])
            }
            TyK::Struct(ts, packed) => {
                let mut o = 0u64;
                let mut al = 1u64;
                let mut offs = vec![];
                for t in ts {
                    let a = if *packed { 1 } else { self.align[*t as usize] };
                    al = al.max(a);
                    o = (o + a - 1) / a * a;
                    offs.push(o);
                    o += self.size[*t as usize];
                }
                (((o + al - 1) / al) * al, al, offs)
            }
        }
    }
}

#[derive(Clone, Debug)]
pub enum Val {
    C(u128),
    S(u32),
    A(Rc<Vec<Val>>),
}
impl Val {
    pub fn agg(v: Vec<Val>) -> Val {
        Val::A(Rc::new(v))
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Op {
    R(u32),
    K(u32),
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum BinK {
    Add, Sub, Mul, UDiv, SDiv, URem, SRem, And, Or, Xor, Shl, LShr, AShr, FAdd, FSub, FMul, FDiv, FRem,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum CastK {
    Trunc, ZExt, SExt, Bitcast, FPTrunc, FPExt, FPToSI, FPToUI, SIToFP, UIToFP,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pred {
    Eq, Ne, Ult, Ule, Ugt, Uge, Slt, Sle, Sgt, Sge,
}
#[derive(Clone, Debug)]
pub enum Callee {
    F(u32),
    Ptr(Op),
    Asm,
}
#[derive(Clone, Debug)]
pub enum Inst {
    Bin(BinK, u32, TyId, Op, Op),
    FNeg(u32, TyId, Op),
    ICmp(Pred, u32, TyId, Op, Op),
    FCmp(Rc<str>, u32, TyId, Op, Op),
    Cast(CastK, u32, TyId, TyId, Op),
    Select(u32, TyId, TyId, Op, Op, Op),
    Load(u32, TyId, Op),
    Store(TyId, Op, Op),
    Alloca(u32, TyId, Option<Op>, u64),
    Gep(u32, Op, i64, Vec<(Op, i64, u32)>),
    ExtractValue(u32, Op, Vec<u32>),
    InsertValue(u32, Op, Op, Vec<u32>),
    ExtractElement(u32, Op, Op),
    InsertElement(u32, Op, Op, Op),
    Shuffle(u32, Op, Op, Vec<Option<u32>>, u32),
    Call { dst: Option<u32>, ret: TyId, callee: Callee, args: Vec<(TyId, Op)>, normal: Option<u32> },
    Br(u32),
    CondBr(Op, u32, u32),
    Switch(Op, TyId, u32, Vec<(u128, u32)>),
    Ret(Option<(TyId, Op)>),
    Unreachable,
    AtomicRmw(u32, Rc<str>, TyId, Op, Op),
    CmpXchg(u32, TyId, Op, Op, Op),
    Copy(u32, Op),
    Nop,
    Unsupported(Rc<str>),
}
pub struct Block {
    pub phis: Vec<(u32, Vec<(u32, Op)>)>,
    pub insts: Vec<Inst>,
}
pub struct Body {
    pub nregs: u32,
    pub nargs: u32,
    pub blocks: Vec<Block>,
    pub consts: Vec<Val>,
}
pub struct Func {
    pub name: String,
    pub pretty: String,
    pub addr: u64,
    pub lines: Option<(usize, usize)>,
    pub body: Option<Rc<Body>>,
    pub used: bool,
}
pub struct Module {
    pub text: Rc<Vec<String>>,
    pub types: Types,
    pub funcs: Vec<Func>,
    pub fmap: HashMap<String, u32>,
    pub faddr: HashMap<u64, u32>,
    pub gaddr: HashMap<String, u64>,
    pub inits: Vec<(u64, TyId, Val)>,
    pub global_end: u64,
}

pub struct Cur<'a> {
    s: &'a [u8],
    i: usize,
}
type R<T> = Result<T, String>;
fn isid(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}
impl<'a> Cur<'a> {
    pub fn new(s: &'a str) -> Self {
        Cur { s: s.as_bytes(), i: 0 }
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && (self.s[self.i] == b' ' || self.s[self.i] == b'\t') {
            self.i += 1
        }
    }
    fn peek(&mut self) -> u8 {
        self.ws();
        *self.s.get(self.i).unwrap_or(&0)
    }
    fn eat(&mut self, c: u8) -> bool {
        if self.peek() == c {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> R<()> {
        if self.eat(c) {
            Ok(())
        } else {
            Err(format!("expected {:?} at {:?}", c as char, self.rest()))
        }
    }
    fn rest(&self) -> String {
        String::from_utf8_lossy(&self.s[self.i.min(self.s.len())..]).chars().take(80).collect()
    }
    fn peek_word(&mut self) -> &'a str {
        self.ws();
        let mut j = self.i;
        while j < self.s.len() && (self.s[j].is_ascii_alphanumeric() || self.s[j] == b'_' || self.s[j] == b'.') {
            j += 1
        }
        std::str::from_utf8(&self.s[self.i..j]).unwrap()
    }
    fn word(&mut self) -> &'a str {
        let w = self.peek_word();
        self.i += w.len();
        w
    }
    fn eat_word(&mut self, w: &str) -> bool {
        if self.peek_word() == w {
            self.i += w.len();
            true
        } else {
            false
        }
    }
    fn balanced(&mut self) {
        // at '('
        let mut d = 0;
        while self.i < self.s.len() {
            match self.s[self.i] {
                b'(' => d += 1,
                b')' => {
                    d -= 1;
                    if d == 0 {
                        self.i += 1;
                        return;
                    }
                }
                b'"' => {
                    self.i += 1;
                    while self.i < self.s.len() && self.s[self.i] != b'"' {
                        self.i += 1
                    }
                }
                _ => {}
            }
            self.i += 1
        }
    }
    /// name after % or @
    fn name(&mut self) -> R<String> {
        if self.i < self.s.len() && self.s[self.i] == b'"' {
            let st = self.i + 1;
            let mut j = st;
            while j < self.s.len() && self.s[j] != b'"' {
                j += 1
            }
            self.i = j + 1;
            return Ok(String::from_utf8_lossy(&self.s[st..j]).into_owned());
        }
        let st = self.i;
        while self.i < self.s.len() && isid(self.s[self.i]) {
            self.i += 1
        }
        if st == self.i {
            return Err(format!("name expected at {}", self.rest()));
        }
        Ok(String::from_utf8_lossy(&self.s[st..self.i]).into_owned())
    }
    fn num(&mut self) -> R<i128> {
        self.ws();
        let st = self.i;
        if self.i < self.s.len() && self.s[self.i] == b'-' {
            self.i += 1
        }
        while self.i < self.s.len() && self.s[self.i].is_ascii_digit() {
            self.i += 1
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap().parse().map_err(|_| format!("num at {}", self.rest()))
    }
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

fn is_type_start(c: u8, w: &str) -> bool {
    if c == b'[' || c == b'<' || c == b'{' || c == b'%' {
        return true;
    }
    match w {
        "float" | "double" | "ptr" | "void" | "half" | "bfloat" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" => true,
        _ => w.len() > 1 && w.as_bytes()[0] == b'i' && w[1..].bytes().all(|b| b.is_ascii_digit()),
    }
}

impl Module {
    pub fn ty(&mut self, c: &mut Cur) -> R<TyId> {
        let mut t = match c.peek() {
            b'[' => {
                c.i += 1;
                let n = c.num()? as u64;
                c.eat_word("x");
                let e = self.ty(c)?;
                c.expect(b']')?;
                self.types.get(TyK::Array(n, e))
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    c.i += 1;
                    let ts = self.ty_list(c, b'}')?;
                    c.expect(b'>')?;
                    self.types.get(TyK::Struct(ts, true))
                } else {
                    let n = c.num()? as u64;
                    c.eat_word("x");
                    let e = self.ty(c)?;
                    c.expect(b'>')?;
                    self.types.get(TyK::Vector(n, e))
                }
            }
            b'{' => {
                c.i += 1;
                let ts = self.ty_list(c, b'}')?;
                self.types.get(TyK::Struct(ts, false))
            }
            b'%' => {
                c.i += 1;
                let n = c.name()?;
                *self.types.named.get(&n).ok_or(format!("unknown type %{n}"))?
            }
            _ => {
                let w = c.word();
                let k = match w {
                    "void" => TyK::Void,
                    "float" => TyK::F32,
                    "double" => TyK::F64,
                    "half" | "bfloat" => TyK::OtherFp(2),
                    "fp128" | "x86_fp80" => TyK::OtherFp(16),
                    "ptr" => TyK::Ptr,
                    "metadata" | "label" | "token" => TyK::Meta,
                    _ if w.starts_with('i') => TyK::Int(w[1..].parse().map_err(|_| format!("type {w}"))?),
                    _ => return Err(format!("type? {w} {}", c.rest())),
                };
                if matches!(k, TyK::Ptr) && c.peek_word() == "addrspace" {
                    c.word();
                    c.balanced();
                }
                self.types.get(k)
            }
        };
        while c.peek() == b'(' {
            c.balanced();
            t = self.types.get(TyK::Func);
        }
        Ok(t)
    }
    fn ty_list(&mut self, c: &mut Cur, end: u8) -> R<Vec<TyId>> {
        let mut v = vec![];
        if c.eat(end) {
            return Ok(v);
        }
        loop {
            v.push(self.ty(c)?);
            if c.eat(end) {
                return Ok(v);
            }
            c.expect(b',')?;
        }
    }
    pub fn zero(&self, t: TyId) -> Val {
        match &self.types.k[t as usize] {
            TyK::Array(n, e) | TyK::Vector(n, e) => {
                let z = self.zero(*e);
                Val::agg(vec![z; *n as usize])
            }
            TyK::Struct(ts, _) => Val::agg(ts.iter().map(|t| self.zero(*t)).collect()),
            _ => Val::C(0),
        }
    }
    pub fn width(&self, t: TyId) -> u32 {
        match &self.types.k[t as usize] {
            TyK::Int(w) => *w,
            TyK::F32 => 32,
            TyK::F64 | TyK::Ptr => 64,
            TyK::OtherFp(b) => b * 8,
            k => panic!("width of {k:?}"),
        }
    }
    pub fn konst(&mut self, c: &mut Cur, t: TyId) -> R<Val> {
        let ch = c.peek();
        match ch {
            b'@' => {
                c.i += 1;
                let n = c.name()?;
                return self.gaddr.get(&n).map(|a| Val::C(*a as u128)).ok_or(format!("unknown global @{n}"));
            }
            b'-' | b'0'..=b'9' => {
                let st = c.i;
                while c.i < c.s.len() && (isid(c.s[c.i]) || c.s[c.i] == b'+') {
                    c.i += 1
                }
                let s = std::str::from_utf8(&c.s[st..c.i]).unwrap();
                return match &self.types.k[t as usize] {
                    TyK::F64 | TyK::F32 => {
                        let f = if let Some(h) = s.strip_prefix("0x") {
                            f64::from_bits(u64::from_str_radix(h, 16).map_err(|e| format!("{s} {e}"))?)
                        } else {
                            s.parse::<f64>().map_err(|e| format!("{s} {e}"))?
                        };
                        if matches!(self.types.k[t as usize], TyK::F32) {
                            Ok(Val::C((f as f32).to_bits() as u128))
                        } else {
                            Ok(Val::C(f.to_bits() as u128))
                        }
                    }
                    TyK::OtherFp(_) => Ok(Val::C(0)),
                    TyK::Int(w) => {
                        let w = *w;
                        // may exceed i128 for wide ints: only keep low 128 bits
                        let v: i128 = match s.parse::<i128>() {
                            Ok(v) => v,
                            Err(_) => s.parse::<u128>().map_err(|e| format!("{s} {e}"))? as i128,
                        };
                        Ok(Val::C((v as u128) & mask(w)))
                    }
                    _ => Err(format!("number for type {:?}", self.types.k[t as usize])),
                };
            }
            b'[' => {
                c.i += 1;
                return self.konst_list(c, b']');
            }
            b'{' => {
                c.i += 1;
                return self.konst_list(c, b'}');
            }
            b'<' => {
                c.i += 1;
                if c.peek() == b'{' {
                    c.i += 1;
                    let v = self.konst_list(c, b'}')?;
                    c.expect(b'>')?;
                    return Ok(v);
                }
                return self.konst_list(c, b'>');
            }
            b'c' if c.s.get(c.i + 1) == Some(&b'"') => {
                c.i += 2;
                let mut v = vec![];
                while c.s[c.i] != b'"' {
                    if c.s[c.i] == b'\\' && c.s[c.i + 1] == b'\\' {
                        v.push(Val::C(b'\\' as u128));
                        c.i += 2;
                    } else if c.s[c.i] == b'\\' {
                        let h = std::str::from_utf8(&c.s[c.i + 1..c.i + 3]).unwrap();
                        v.push(Val::C(u8::from_str_radix(h, 16).unwrap() as u128));
                        c.i += 3;
                    } else {
                        v.push(Val::C(c.s[c.i] as u128));
                        c.i += 1;
                    }
                }
                c.i += 1;
                return Ok(Val::agg(v));
            }
            _ => {}
        }
        let w = c.word();
        match w {
            "true" => Ok(Val::C(1)),
            "false" | "null" | "none" => Ok(Val::C(0)),
            "undef" | "poison" | "zeroinitializer" => Ok(self.zero(t)),
            "splat" => {
                c.expect(b'(')?;
                let et = self.ty(c)?;
                let v = self.konst(c, et)?;
                c.expect(b')')?;
                match self.types.k[t as usize] {
                    TyK::Vector(n, _) => Ok(Val::agg(vec![v; n as usize])),
                    _ => Err("splat".into()),
                }
            }
            "getelementptr" => {
                while c.peek() != b'(' {
                    c.word();
                    // inrange(-16, 32)
                    if c.s.get(c.i) == Some(&b'(') && c.rest().starts_with("(-") {
                        c.balanced();
                    }
                }
                c.expect(b'(')?;
                let bt = self.ty(c)?;
                c.expect(b',')?;
                let pt = self.ty(c)?;
                let base = self.konst(c, pt)?;
                let mut idx = vec![];
                while c.eat(b',') {
                    c.eat_word("inrange");
                    let it = self.ty(c)?;
                    let v = self.konst(c, it)?;
                    idx.push((it, v));
                }
                c.expect(b')')?;
                let (Val::C(b), mut cur) = (base, bt) else { return Err("gep base".into()) };
                let mut off: i128 = 0;
                for (n, (it, v)) in idx.into_iter().enumerate() {
                    let Val::C(v) = v else { return Err("gep idx".into()) };
                    let w = self.width(it);
                    let sv = sext(v, w);
                    if n == 0 {
                        off += sv * self.types.size[bt as usize] as i128;
                    } else {
                        match self.types.k[cur as usize].clone() {
                            TyK::Array(_, e) | TyK::Vector(_, e) => {
                                off += sv * self.types.size[e as usize] as i128;
                                cur = e;
                            }
                            TyK::Struct(ts, _) => {
                                off += self.types.offs[cur as usize][sv as usize] as i128;
                                cur = ts[sv as usize];
                            }
                            _ => return Err("gep const".into()),
                        }
                    }
                }
                Ok(Val::C(((b as i128 + off) as u128) & mask(64)))
            }
            "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "addrspacecast" => {
                c.expect(b'(')?;
                let t1 = self.ty(c)?;
                let v = self.konst(c, t1)?;
                if !c.eat_word("to") {
                    return Err("to".into());
                }
                let t2 = self.ty(c)?;
                c.expect(b')')?;
                let Val::C(v) = v else { return Err("const cast".into()) };
                Ok(Val::C(v & mask(self.width(t2))))
            }
            "add" | "sub" | "mul" | "xor" | "and" | "or" | "shl" | "lshr" => {
                while c.peek() != b'(' {
                    c.word();
                }
                c.expect(b'(')?;
                let t1 = self.ty(c)?;
                let a = self.konst(c, t1)?;
                c.expect(b',')?;
                let t2 = self.ty(c)?;
                let b = self.konst(c, t2)?;
                c.expect(b')')?;
                let (Val::C(a), Val::C(b)) = (a, b) else { return Err("const bin".into()) };
                let r = match w {
                    "add" => a.wrapping_add(b),
                    "sub" => a.wrapping_sub(b),
                    "mul" => a.wrapping_mul(b),
                    "xor" => a ^ b,
                    "and" => a & b,
                    "or" => a | b,
                    "shl" => a << b,
                    _ => a >> b,
                };
                Ok(Val::C(r & mask(self.width(t1))))
            }
            _ => Err(format!("const? {w} {}", c.rest())),
        }
    }
    fn konst_list(&mut self, c: &mut Cur, end: u8) -> R<Val> {
        let mut v = vec![];
        if c.eat(end) {
            return Ok(Val::agg(v));
        }
        loop {
            let t = self.ty(c)?;
            v.push(self.konst(c, t)?);
            if c.eat(end) {
                return Ok(Val::agg(v));
            }
            c.expect(b',')?;
        }
    }

    pub fn load(path: &str) -> R<Module> {
        let text = std::fs::read_to_string(path).map_err(|e| format!("{path}: {e}"))?;
        let lines: Vec<String> = text.lines().map(|s| s.to_string()).collect();
        let lines = Rc::new(lines);
        let mut m = Module {
            text: lines.clone(),
            types: Types::default(),
            funcs: vec![],
            fmap: HashMap::new(),
            faddr: HashMap::new(),
            gaddr: HashMap::new(),
            inits: vec![],
            global_end: 0,
        };
        // named types (retry until resolved)
        let mut pend: Vec<usize> = (0..lines.len()).filter(|&i| lines[i].starts_with('%') && lines[i].contains(" = type ")).collect();
        for _ in 0..20 {
            let mut next = vec![];
            for i in pend {
                let l = &lines[i];
                let mut c = Cur::new(l);
                c.expect(b'%')?;
                let n = c.name()?;
                c.eat(b'=');
                c.eat_word("type");
                if c.peek_word() == "opaque" {
                    let t = m.types.get(TyK::Func);
                    m.types.named.insert(n, t);
                    continue;
                }
                match m.ty(&mut c) {
                    Ok(t) => {
                        m.types.named.insert(n, t);
                    }
                    Err(_) => next.push(i),
                }
            }
            pend = next;
            if pend.is_empty() {
                break;
            }
        }
        let mut i = 0;
        let mut globals = vec![];
        let mut aliases = vec![];
        let mut gnext = 0x10000u64;
        while i < lines.len() {
            let l = &lines[i];
            if l.starts_with("define ") || l.starts_with("declare ") {
                let at = l.find('@').ok_or("no @ in define")?;
                let mut c = Cur::new(l);
                c.i = at + 1;
                let name = c.name()?;
                let id = m.funcs.len() as u32;
                let addr = 0x0800_0000 + 16 * id as u64;
                let mut range = None;
                if l.starts_with("define ") {
                    let st = i;
                    while lines[i] != "}" {
                        i += 1
                    }
                    range = Some((st, i));
                }
                m.fmap.insert(name.clone(), id);
                m.faddr.insert(addr, id);
                m.gaddr.insert(name.clone(), addr);
                let pretty = demangle(&name);
                m.funcs.push(Func { name, pretty, addr, lines: range, body: None, used: false });
            } else if l.starts_with('@') {
                let mut c = Cur::new(l);
                c.i = 1;
                let name = c.name()?;
                c.expect(b'=')?;
                let mut kind = "";
                let mut ext = false;
                while !c.rest().is_empty() {
                    if is_type_start(c.peek(), "") {
                        break;
                    }
                    let w = c.word();
                    match w {
                        "global" | "constant" | "alias" | "ifunc" => {
                            kind = w;
                            break;
                        }
                        "external" | "extern_weak" => ext = true,
                        _ => {
                            if c.peek() == b'(' {
                                c.balanced()
                            }
                            if w.is_empty() {
                                return Err(format!("global: {l}"));
                            }
                        }
                    }
                }
                if kind == "alias" {
                    let _ = m.ty(&mut c)?;
                    c.expect(b',')?;
                    aliases.push((name, i, c.i));
                } else if kind == "global" || kind == "constant" {
                    let t = m.ty(&mut c)?;
                    let al = l.rfind(", align ").and_then(|p| l[p + 8..].split(|c: char| !c.is_ascii_digit()).next().unwrap().parse::<u64>().ok()).unwrap_or(16);
                    gnext = (gnext + al - 1) / al * al;
                    m.gaddr.insert(name.clone(), gnext);
                    globals.push((gnext, t, i, c.i, ext));
                    gnext += m.types.size[t as usize].max(1);
                }
            }
            i += 1;
        }
        m.global_end = gnext;
        if gnext >= 0x0800_0000 {
            return Err("globals too large".into());
        }
        let pt = m.types.get(TyK::Ptr);
        for _ in 0..4 {
            for (name, li, ci) in &aliases {
                let mut c = Cur::new(&lines[*li]);
                c.i = *ci;
                let t = m.ty(&mut c)?;
                let _ = t;
                if let Ok(Val::C(a)) = m.konst(&mut c, pt) {
                    m.gaddr.insert(name.clone(), a as u64);
                    if let Some(f) = m.faddr.get(&(a as u64)) {
                        m.fmap.insert(name.clone(), *f);
                    }
                }
            }
        }
        for (addr, t, li, ci, ext) in globals {
            if ext {
                // handles an MPI library exports: some pairwise distinct constants
                if lines[li].starts_with("@RSMPI_") && m.types.size[t as usize] == 8 {
                    m.inits.push((addr, t, Val::C(0x7e00_0000_0000 + (li as u128) * 64)));
                }
                continue;
            }
            let l = &lines[li];
            let mut c = Cur::new(l);
            c.i = ci;
            c.ws();
            if c.rest().starts_with("zeroinitializer") || c.rest().starts_with("undef") || c.rest().starts_with("poison") {
                continue;
            }
            if c.rest().starts_with("null") {
                continue;
            }
            match m.konst(&mut c, t) {
                Ok(v) => m.inits.push((addr, t, v)),
                Err(e) => {
                    if l.contains("llvm.") {
                        continue;
                    }
                    return Err(format!("{e} in {}", l.chars().take(200).collect::<String>()));
                }
            }
        }
        Ok(m)
    }

    pub fn body(&mut self, f: u32) -> R<Rc<Body>> {
        if let Some(b) = &self.funcs[f as usize].body {
            return Ok(b.clone());
        }
        let (st, en) = self.funcs[f as usize].lines.ok_or_else(|| format!("no body: {}", self.funcs[f as usize].name))?;
        let b = Rc::new(self.parse_body(st, en).map_err(|e| format!("{}: {e}", self.funcs[f as usize].name))?);
        self.funcs[f as usize].body = Some(b.clone());
        self.funcs[f as usize].used = true;
        Ok(b)
    }

    fn parse_body(&mut self, st: usize, en: usize) -> R<Body> {
        let text = self.text.clone();
        let head = &text[st];
        let mut fb = FB { regs: HashMap::new(), nregs: 0, consts: vec![], labels: HashMap::new() };
        // params
        let at = head.find('@').unwrap();
        let mut c = Cur::new(head);
        c.i = at + 1;
        c.name()?;
        c.expect(b'(')?;
        let mut unnamed = 0;
        if !c.eat(b')') {
            loop {
                if c.rest().trim_start().starts_with("...") {
                    c.ws();
                    c.i += 3;
                    c.expect(b')')?;
                    break;
                }
                self.ty(&mut c)?;
                skip_attrs(&mut c, true);
                if c.eat(b'%') {
                    let n = c.name()?;
                    if n.bytes().all(|b| b.is_ascii_digit()) {
                        unnamed += 1
                    }
                    fb.reg(&n);
                } else {
                    let n = format!("{unnamed}");
                    unnamed += 1;
                    fb.reg(&n);
                }
                if c.eat(b')') {
                    break;
                }
                c.expect(b',')?;
            }
        }
        let nargs = fb.nregs;
        // logical lines
        let mut blocks: Vec<Vec<String>> = vec![];
        let mut i = st + 1;
        let mut first = true;
        while i < en {
            let l = &text[i];
            if l.is_empty() || l.trim_start().starts_with(';') {
                i += 1;
                continue;
            }
            if !l.starts_with(' ') {
                let mut c = Cur::new(l);
                let n = c.name()?;
                let id = blocks.len() as u32;
                fb.labels.insert(n, id);
                blocks.push(vec![]);
                first = false;
                i += 1;
                continue;
            }
            if first {
                fb.labels.insert(format!("{unnamed}"), 0);
                blocks.push(vec![]);
                first = false;
            }
            let tr = l.trim_start();
            if tr.starts_with("#dbg") {
                i += 1;
                continue;
            }
            if tr.starts_with("switch ") {
                let mut s = tr.to_string();
                if !tr.contains(']') {
                    i += 1;
                    while !text[i].trim_start().starts_with(']') {
                        s.push(' ');
                        s.push_str(text[i].trim());
                        i += 1;
                    }
                    s.push_str(" ]");
                }
                blocks.last_mut().unwrap().push(s);
            } else if tr.starts_with("to label ") {
                let b = blocks.last_mut().unwrap();
                let p = b.last_mut().unwrap();
                p.push(' ');
                p.push_str(tr);
            } else if tr.starts_with("cleanup") || tr.starts_with("catch ") || tr.starts_with("filter ") {
            } else {
                blocks.last_mut().unwrap().push(tr.to_string());
            }
            i += 1;
        }
        let mut out = vec![];
        for b in &blocks {
            let mut blk = Block { phis: vec![], insts: vec![] };
            for l in b {
                match self.inst(l, &mut fb) {
                    Ok(Parsed::Phi(d, v)) => blk.phis.push((d, v)),
                    Ok(Parsed::I(i)) => blk.insts.push(i),
                    Ok(Parsed::None) => {}
                    Err(e) => {
                        blk.insts.push(Inst::Unsupported(format!("{e}: {l}").into()));
                    }
                }
            }
            out.push(blk);
        }
        Ok(Body { nregs: fb.nregs, nargs, blocks: out, consts: fb.consts })
    }

    fn op(&mut self, c: &mut Cur, t: TyId, fb: &mut FB) -> R<Op> {
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name()?;
            return Ok(Op::R(fb.reg(&n)));
        }
        if c.peek_word() == "asm" {
            return Err("inline asm".into());
        }
        let v = self.konst(c, t)?;
        fb.consts.push(v);
        Ok(Op::K(fb.consts.len() as u32 - 1))
    }
    fn top(&mut self, c: &mut Cur, fb: &mut FB) -> R<(TyId, Op)> {
        let t = self.ty(c)?;
        let o = self.op(c, t, fb)?;
        Ok((t, o))
    }
    fn label(&mut self, c: &mut Cur, fb: &mut FB) -> R<u32> {
        if !c.eat_word("label") {
            return Err("label".into());
        }
        c.expect(b'%')?;
        let n = c.name()?;
        fb.labels.get(&n).copied().ok_or(format!("label {n}"))
    }

    fn inst(&mut self, l: &str, fb: &mut FB) -> R<Parsed> {
        let mut c = Cur::new(l);
        let c = &mut c;
        let mut dst = None;
        if c.peek() == b'%' {
            c.i += 1;
            let n = c.name()?;
            dst = Some(fb.reg(&n));
            c.expect(b'=')?;
        }
        let w = c.word();
        let d = dst.unwrap_or(0);
        let bin = match w {
            "add" => Some(BinK::Add),
            "sub" => Some(BinK::Sub),
            "mul" => Some(BinK::Mul),
            "udiv" => Some(BinK::UDiv),
            "sdiv" => Some(BinK::SDiv),
            "urem" => Some(BinK::URem),
            "srem" => Some(BinK::SRem),
            "and" => Some(BinK::And),
            "or" => Some(BinK::Or),
            "xor" => Some(BinK::Xor),
            "shl" => Some(BinK::Shl),
            "lshr" => Some(BinK::LShr),
            "ashr" => Some(BinK::AShr),
            "fadd" => Some(BinK::FAdd),
            "fsub" => Some(BinK::FSub),
            "fmul" => Some(BinK::FMul),
            "fdiv" => Some(BinK::FDiv),
            "frem" => Some(BinK::FRem),
            _ => None,
        };
        if let Some(b) = bin {
            skip_flags(c);
            let (t, a) = self.top(c, fb)?;
            c.expect(b',')?;
            let o = self.op(c, t, fb)?;
            return Ok(Parsed::I(Inst::Bin(b, d, t, a, o)));
        }
        let cast = match w {
            "trunc" => Some(CastK::Trunc),
            "zext" => Some(CastK::ZExt),
            "sext" => Some(CastK::SExt),
            "bitcast" | "ptrtoint" | "inttoptr" | "addrspacecast" => Some(CastK::Bitcast),
            "fptrunc" => Some(CastK::FPTrunc),
            "fpext" => Some(CastK::FPExt),
            "fptosi" => Some(CastK::FPToSI),
            "fptoui" => Some(CastK::FPToUI),
            "sitofp" => Some(CastK::SIToFP),
            "uitofp" => Some(CastK::UIToFP),
            _ => None,
        };
        if let Some(mut k) = cast {
            skip_flags(c);
            let (t, a) = self.top(c, fb)?;
            if !c.eat_word("to") {
                return Err("to".into());
            }
            let t2 = self.ty(c)?;
            if w == "ptrtoint" || w == "inttoptr" {
                let (x, y) = (self.width(t), self.width(t2));
                k = if x > y { CastK::Trunc } else if x < y { CastK::ZExt } else { CastK::Bitcast };
            }
            return Ok(Parsed::I(Inst::Cast(k, d, t, t2, a)));
        }
        let i = match w {
            "fneg" => {
                skip_flags(c);
                let (t, a) = self.top(c, fb)?;
                Inst::FNeg(d, t, a)
            }
            "icmp" => {
                c.eat_word("samesign");
                let p = match c.word() {
                    "eq" => Pred::Eq,
                    "ne" => Pred::Ne,
                    "ult" => Pred::Ult,
                    "ule" => Pred::Ule,
                    "ugt" => Pred::Ugt,
                    "uge" => Pred::Uge,
                    "slt" => Pred::Slt,
                    "sle" => Pred::Sle,
                    "sgt" => Pred::Sgt,
                    "sge" => Pred::Sge,
                    x => return Err(format!("icmp {x}")),
                };
                let (t, a) = self.top(c, fb)?;
                c.expect(b',')?;
                let o = self.op(c, t, fb)?;
                Inst::ICmp(p, d, t, a, o)
            }
            "fcmp" => {
                let mut p = c.word();
                while matches!(p, "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast") {
                    p = c.word();
                }
                let (t, a) = self.top(c, fb)?;
                c.expect(b',')?;
                let o = self.op(c, t, fb)?;
                Inst::FCmp(p.into(), d, t, a, o)
            }
            "select" => {
                skip_flags(c);
                let (ct, cc) = self.top(c, fb)?;
                c.expect(b',')?;
                let (t, a) = self.top(c, fb)?;
                c.expect(b',')?;
                let (_, b) = self.top(c, fb)?;
                Inst::Select(d, ct, t, cc, a, b)
            }
            "load" => {
                c.eat_word("atomic");
                c.eat_word("volatile");
                let t = self.ty(c)?;
                c.expect(b',')?;
                let (_, p) = self.top(c, fb)?;
                Inst::Load(d, t, p)
            }
            "store" => {
                c.eat_word("atomic");
                c.eat_word("volatile");
                let (t, v) = self.top(c, fb)?;
                c.expect(b',')?;
                let (_, p) = self.top(c, fb)?;
                Inst::Store(t, v, p)
            }
            "alloca" => {
                c.eat_word("inalloca");
                let t = self.ty(c)?;
                let mut n = None;
                let mut al = self.types.align[t as usize];
                while c.eat(b',') {
                    if c.eat_word("align") {
                        al = c.num()? as u64;
                    } else if c.peek() == b'!' {
                        break;
                    } else if c.peek_word() == "addrspace" {
                        c.word();
                        c.balanced();
                    } else {
                        let (_, o) = self.top(c, fb)?;
                        n = Some(o);
                    }
                }
                Inst::Alloca(d, t, n, al)
            }
            "getelementptr" => {
                skip_flags(c);
                let bt = self.ty(c)?;
                c.expect(b',')?;
                let (pt, base) = self.top(c, fb)?;
                if !matches!(self.types.k[pt as usize], TyK::Ptr) {
                    return Err("vector gep".into());
                }
                let mut off = 0i64;
                let mut dynv = vec![];
                let mut cur = bt;
                let mut n = 0;
                while c.eat(b',') {
                    if c.peek() == b'!' {
                        break;
                    }
                    let (it, o) = self.top(c, fb)?;
                    let w = self.width(it);
                    let cv = match o {
                        Op::K(k) => match &fb.consts[k as usize] {
                            Val::C(v) => Some(sext(*v, w) as i64),
                            _ => None,
                        },
                        _ => None,
                    };
                    let scale;
                    if n == 0 {
                        scale = self.types.size[bt as usize] as i64;
                    } else {
                        match self.types.k[cur as usize].clone() {
                            TyK::Array(_, e) | TyK::Vector(_, e) => {
                                scale = self.types.size[e as usize] as i64;
                                cur = e;
                            }
                            TyK::Struct(ts, _) => {
                                let k = cv.ok_or("gep struct")? as usize;
                                off += self.types.offs[cur as usize][k] as i64;
                                cur = ts[k];
                                n += 1;
                                continue;
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    n += 1;
                    match cv {
                        Some(k) => off = off.wrapping_add(k.wrapping_mul(scale)),
                        None => dynv.push((o, scale, w)),
                    }
                }
                Inst::Gep(d, base, off, dynv)
            }
            "extractvalue" => {
                let (_, a) = self.top(c, fb)?;
                Inst::ExtractValue(d, a, idxs(c)?)
            }
            "insertvalue" => {
                let (_, a) = self.top(c, fb)?;
                c.expect(b',')?;
                let (_, b) = self.top(c, fb)?;
                Inst::InsertValue(d, a, b, idxs(c)?)
            }
            "extractelement" => {
                let (_, a) = self.top(c, fb)?;
                c.expect(b',')?;
                let (_, b) = self.top(c, fb)?;
                Inst::ExtractElement(d, a, b)
            }
            "insertelement" => {
                let (_, a) = self.top(c, fb)?;
                c.expect(b',')?;
                let (_, b) = self.top(c, fb)?;
                c.expect(b',')?;
                let (_, i) = self.top(c, fb)?;
                Inst::InsertElement(d, a, b, i)
            }
            "shufflevector" => {
                let (t, a) = self.top(c, fb)?;
                c.expect(b',')?;
                let (_, b) = self.top(c, fb)?;
                c.expect(b',')?;
                let mt = self.ty(c)?;
                let n = match self.types.k[t as usize] {
                    TyK::Vector(n, _) => n as u32,
                    _ => return Err("shuffle".into()),
                };
                // elements may be poison/undef individually: parse as consts (poison -> 0)
                let Val::A(v) = self.konst(c, mt)? else { return Err("mask".into()) };
                let v = v.iter().map(|x| match x { Val::C(k) => Some(*k as u32), _ => None }).collect();
                Inst::Shuffle(d, a, b, v, n)
            }
            "freeze" => {
                let (_, a) = self.top(c, fb)?;
                Inst::Copy(d, a)
            }
            "phi" => {
                skip_flags(c);
                let t = self.ty(c)?;
                let mut v = vec![];
                loop {
                    c.expect(b'[')?;
                    let o = self.op(c, t, fb)?;
                    c.expect(b',')?;
                    c.expect(b'%')?;
                    let n = c.name()?;
                    let b = *fb.labels.get(&n).ok_or(format!("phi label {n}"))?;
                    c.expect(b']')?;
                    v.push((b, o));
                    if !c.eat(b',') || c.peek() == b'!' {
                        break;
                    }
                }
                return Ok(Parsed::Phi(d, v));
            }
            "br" => {
                if c.peek_word() == "label" {
                    Inst::Br(self.label(c, fb)?)
                } else {
                    let (_, o) = self.top(c, fb)?;
                    c.expect(b',')?;
                    let a = self.label(c, fb)?;
                    c.expect(b',')?;
                    let b = self.label(c, fb)?;
                    Inst::CondBr(o, a, b)
                }
            }
            "switch" => {
                let (t, o) = self.top(c, fb)?;
                c.expect(b',')?;
                let def = self.label(c, fb)?;
                c.expect(b'[')?;
                let mut v = vec![];
                while !c.eat(b']') {
                    let tt = self.ty(c)?;
                    let Val::C(k) = self.konst(c, tt)? else { return Err("switch".into()) };
                    c.expect(b',')?;
                    v.push((k, self.label(c, fb)?));
                }
                Inst::Switch(o, t, def, v)
            }
            "ret" => {
                if c.peek_word() == "void" {
                    Inst::Ret(None)
                } else {
                    let (t, o) = self.top(c, fb)?;
                    Inst::Ret(Some((t, o)))
                }
            }
            "unreachable" => Inst::Unreachable,
            "fence" => return Ok(Parsed::None),
            "landingpad" | "resume" => Inst::Unsupported(w.into()),
            "atomicrmw" => {
                c.eat_word("volatile");
                let op: Rc<str> = c.word().into();
                let (_, p) = self.top(c, fb)?;
                c.expect(b',')?;
                let (t, v) = self.top(c, fb)?;
                Inst::AtomicRmw(d, op, t, p, v)
            }
            "cmpxchg" => {
                c.eat_word("weak");
                c.eat_word("volatile");
                let (_, p) = self.top(c, fb)?;
                c.expect(b',')?;
                let (t, e) = self.top(c, fb)?;
                c.expect(b',')?;
                let (_, n) = self.top(c, fb)?;
                Inst::CmpXchg(d, t, p, e, n)
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                let mut inv = w == "invoke";
                if w != "call" && w != "invoke" {
                    let w2 = c.word();
                    inv = w2 == "invoke";
                }
                skip_attrs(c, false);
                let mut ret = self.ty(c)?;
                if matches!(self.types.k[ret as usize], TyK::Func) {
                    // function type: need its return type; reparse head
                    let s = l;
                    let mut c2 = Cur::new(s);
                    c2.i = s.find("call ").or(s.find("invoke ")).unwrap();
                    c2.word();
                    skip_attrs(&mut c2, false);
                    ret = self.ty_nofn(&mut c2)?;
                }
                let callee = if c.peek() == b'%' {
                    c.i += 1;
                    let n = c.name()?;
                    Callee::Ptr(Op::R(fb.reg(&n)))
                } else if c.peek() == b'@' {
                    c.i += 1;
                    let n = c.name()?;
                    Callee::F(*self.fmap.get(&n).ok_or(format!("callee {n}"))?)
                } else if c.peek_word() == "asm" {
                    Callee::Asm
                } else {
                    let pt = self.types.get(TyK::Ptr);
                    Callee::Ptr(self.op(c, pt, fb)?)
                };
                if matches!(callee, Callee::Asm) {
                    return Ok(Parsed::I(Inst::Call { dst, ret, callee, args: vec![], normal: None }));
                }
                c.expect(b'(')?;
                let mut args = vec![];
                if !c.eat(b')') {
                    loop {
                        let t = self.ty(c)?;
                        if matches!(self.types.k[t as usize], TyK::Meta) {
                            // skip to , or )
                            let mut d = 0;
                            while c.i < c.s.len() {
                                match c.s[c.i] {
                                    b'(' => d += 1,
                                    b')' if d > 0 => d -= 1,
                                    b')' | b',' if d == 0 => break,
                                    _ => {}
                                }
                                c.i += 1;
                            }
                        } else {
                            skip_attrs(c, true);
                            let o = self.op(c, t, fb)?;
                            args.push((t, o));
                        }
                        if c.eat(b')') {
                            break;
                        }
                        c.expect(b',')?;
                    }
                }
                let mut normal = None;
                if inv {
                    let r = l.find(" to label %").ok_or("invoke")?;
                    c.i = r + 4;
                    normal = Some(self.label(c, fb)?);
                }
                Inst::Call { dst, ret, callee, args, normal }
            }
            _ => return Err(format!("inst {w}")),
        };
        Ok(Parsed::I(i))
    }
    fn ty_nofn(&mut self, c: &mut Cur) -> R<TyId> {
        let k = match c.peek_word() {
            "void" => TyK::Void,
            "ptr" => TyK::Ptr,
            "float" => TyK::F32,
            "double" => TyK::F64,
            w if w.starts_with('i') => TyK::Int(w[1..].parse().map_err(|_| "ty")?),
            _ => return Err("fn type".into()),
        };
        Ok(self.types.get(k))
    }
}

enum Parsed {
    Phi(u32, Vec<(u32, Op)>),
    I(Inst),
    None,
}
fn idxs(c: &mut Cur) -> R<Vec<u32>> {
    let mut v = vec![];
    while c.eat(b',') {
        if c.peek() == b'!' {
            break;
        }
        v.push(c.num()? as u32);
    }
    Ok(v)
}
struct FB {
    regs: HashMap<String, u32>,
    nregs: u32,
    consts: Vec<Val>,
    labels: HashMap<String, u32>,
}
impl FB {
    fn reg(&mut self, n: &str) -> u32 {
        if let Some(r) = self.regs.get(n) {
            return *r;
        }
        let r = self.nregs;
        self.nregs += 1;
        self.regs.insert(n.to_string(), r);
        r
    }
}
fn skip_flags(c: &mut Cur) {
    loop {
        let w = c.peek_word();
        match w {
            "nuw" | "nsw" | "exact" | "disjoint" | "nneg" | "inbounds" | "nusw" | "nnan" | "ninf" | "nsz" | "arcp" | "contract" | "afn" | "reassoc" | "fast" | "samesign" => {
                c.word();
            }
            "inrange" => {
                c.word();
                c.balanced();
            }
            _ => return,
        }
    }
}
/// skip parameter / return attributes and calling conventions.
/// value_pos: attributes precede a value (stop at anything that can start a value).
fn skip_attrs(c: &mut Cur, value_pos: bool) {
    loop {
        let ch = c.peek();
        if !(ch.is_ascii_alphabetic() || ch == b'#' || ch == b'"') {
            return;
        }
        if ch == b'"' {
            // string attribute
            c.i += 1;
            while c.i < c.s.len() && c.s[c.i] != b'"' {
                c.i += 1
            }
            c.i += 1;
            continue;
        }
        if ch == b'#' {
            return;
        }
        let w = c.peek_word();
        if value_pos {
            if matches!(w, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "none" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "trunc" | "zext" | "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" | "lshr" | "c" | "asm") {
                return;
            }
        } else if is_type_start(ch, w) {
            return;
        }
        c.word();
        if c.s.get(c.i) == Some(&b'(') {
            c.balanced();
        } else if w == "align" || w == "cc" {
            let _ = c.num();
        }
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}

pub fn demangle(n: &str) -> String {
    if let Some(r) = n.strip_prefix("_ZN") {
        let b = r.as_bytes();
        let mut i = 0;
        let mut out: Vec<String> = vec![];
        while i < b.len() && b[i].is_ascii_digit() {
            let mut l = 0usize;
            while i < b.len() && b[i].is_ascii_digit() {
                l = l * 10 + (b[i] - b'0') as usize;
                i += 1
            }
            if i + l > b.len() {
                break;
            }
            out.push(r[i..i + l].to_string());
            i += l;
        }
        if out.last().map_or(false, |s| s.len() == 17 && s.starts_with('h')) {
            out.pop();
        }
        let mut s = out.join("::");
        for (a, b) in [("$LT$", "<"), ("$GT$", ">"), ("$RF$", "&"), ("$u20$", " "), ("$C$", ","), ("$LP$", "("), ("$RP$", ")"), ("$BP$", "*"), ("$u5b$", "["), ("$u5d$", "]"), ("$u7b$", "{"), ("$u7d$", "}"), ("$u27$", "'"), ("..", "::")] {
            s = s.replace(a, b);
        }
        return s;
    }
    n.to_string()
}
