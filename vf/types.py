"""The type layer: what the generated impls accept, as formulas over symbolic dimension vectors.

The unit system is expanded by the real macro (rustc -Zunpretty=expanded); /verif/typex reads impl headers, where clauses
and method signatures from the expansion.  Every constant expression that occurs in a type is compiled as ordinary code
into a harness and its meaning (a linear map of the dimensions, or a rejection) is proved by the symbolic executor, so no
meaning is taken from names.  Whether rustc accepts an operation is then a formula over the dimension vectors of the
operands; each query asks z3 for dimensions on which it differs from what the property says."""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess
from fractions import Fraction as F
from . import core, smt
from .smt import And, Or, Not, Eq

TYPEX = os.path.join(core.BUILD, "typex/release/typex")
FIELDS = None
GLAM = ["glam::Vec2", "glam::DVec2", "glam::Vec3", "glam::DVec3"]
CONFIGS = {
    "std": (["std", "glamf"], GLAM),
    "rational": (["std", "glamf", "rational"], GLAM),
    "nostd": ([], []),
}
CARGO = """[package]
name = "%(name)s"
version = "0.1.0"
edition = "2021"
[lib]
crate-type = ["%(kind)s"]
[features]
glamf = ["diman/glam-vec2", "diman/glam-dvec2", "diman/glam-vec3", "diman/glam-dvec3", "dep:glam"]
rational = ["diman/rational-dimensions"]
std = ["diman/std"]
[dependencies]
diman = { path = "/repo", default-features = false, features = ["f32", "f64"] }
diman_lib = { path = "/repo/crates/diman_lib" }
glam = { version = "0.24.2", optional = true }
num-traits = { version = "0.2.17", default-features = false }
[workspace]
[profile.release]
debug = 0
lto = "fat"
codegen-units = 1
panic = "abort"
opt-level = 1
overflow-checks = false
"""
HEAD = """#![cfg_attr(not(feature = "std"), no_std)]
#![allow(incomplete_features, dead_code, unused_imports, unused_variables, non_upper_case_globals, unused_mut, unused_must_use, unused_parens, unused_braces, clippy::all)]
#![feature(generic_const_exprs, adt_const_params)]
"""
SYSTEM = """pub mod sys {
    use diman::unit_system;
    unit_system!(
        quantity_type Quantity;
        dimension_type Dimension;
        dimension Length;
        dimension Time;
        dimension Mass;
        dimension Velocity = Length / Time;
        dimension Dimensionless = 1;
        #[base(Length)] #[symbol(m)] unit meter: Length;
        #[base(Time)] #[symbol(s)] unit second: Time;
        #[base(Mass)] #[symbol(kg)] unit kilogram: Mass;
        unit hour: Time = 3600.0 * second;
        constant K_LIGHT: Velocity = 299792458.0 * meter / second;
    );
"""
OPS2 = {"Add": "core::ops::Add", "Sub": "core::ops::Sub", "Mul": "core::ops::Mul", "Div": "core::ops::Div",
        "AddAssign": "core::ops::AddAssign", "SubAssign": "core::ops::SubAssign", "MulAssign": "core::ops::MulAssign",
        "DivAssign": "core::ops::DivAssign", "PartialEq": "core::cmp::PartialEq", "PartialOrd": "core::cmp::PartialOrd"}
TRAIT_PATHS = dict(OPS2, Neg="core::ops::Neg", Sum="core::iter::Sum", Deref="core::ops::Deref", From="core::convert::From",
                   Into="core::convert::Into", Default="core::default::Default", Debug="core::fmt::Debug", Display="core::fmt::Display",
                   Copy="core::marker::Copy", Clone="core::clone::Clone", Eq="core::cmp::Eq", Rem="core::ops::Rem",
                   AsRef="core::convert::AsRef", Borrow="core::borrow::Borrow", DerefMut="core::ops::DerefMut", AsMut="core::convert::AsMut",
                   Product="core::iter::Product")
LO, HI = "(- 9223372036854775808)", "9223372036854775807"


def build_typex():
    e = core.env(os.path.join(core.BUILD, "typex"), None)
    r = core.sh(["cargo", "build", "--offline", "--release", "--quiet"], cwd=os.path.join(core.VERIF, "typex"), env=e)
    if r.returncode:
        raise core.CheckError("building typex failed:\n" + r.stderr[-3000:])


def last(n):
    return n.split("::")[-1]


class Unsupported(Exception):
    pass


class Layer:
    def __init__(self, ctx, config, integral=False):
        """integral: exponents are integers, whatever the configuration can represent"""
        self.c, self.config, self.integral = ctx, config, integral
        self.features, self.vecs = CONFIGS[config]
        self.rational = config == "rational"
        self.storages = ["f64", "f32"] + self.vecs
        self.dir = os.path.join(core.BUILD, "tyx-" + config)
        self.expand()
        self.summaries()
        self.load_facts()
        self.smt = smt.Smt("Real" if self.rational else "Int")
        self.probes = []
        self.focus, self.partial = [], set()
        self.queries = 0

    # ------------------------------------------------------------------ the expansion
    def crate(self, sub, kind, body):
        d = os.path.join(self.dir, sub)
        os.makedirs(os.path.join(d, "src"), exist_ok=True)
        for p, t in (("Cargo.toml", CARGO % {"name": sub, "kind": kind}), ("src/lib.rs", body)):
            p = os.path.join(d, p)
            if not os.path.exists(p) or open(p).read() != t:
                open(p, "w").write(t)
        lock = os.path.join(d, "Cargo.lock")
        if not os.path.exists(lock):
            shutil.copy(os.path.join(core.VERIF, "harness/ops/Cargo.lock"), lock)
        return d

    def cargo(self, d, args, timeout=600):
        t = os.path.join(core.BUILD, "t-tyx-" + self.config)
        os.makedirs(t, exist_ok=True)
        h = core.drop_stale(t)
        r = core.sh(["cargo"] + args + (["--features", ",".join(self.features)] if self.features and "--features" not in args else []), cwd=d, env=core.env(t), timeout=timeout)
        open(os.path.join(t, "vf-stamp"), "w").write(h)
        return r

    def expand(self):
        d = self.crate("tyxe", "lib", HEAD + SYSTEM + "}\n")
        # feature flags must come before --
        cmd = ["rustc", "--offline", "--lib"] + (["--features", ",".join(self.features)] if self.features else [])
        if not self.features:
            cmd += ["--features", ""]
        r = self.cargo(d, cmd + ["--", "-Zunpretty=expanded"])
        if r.returncode:
            raise core.CheckError(f"expanding the unit system ({self.config}) failed:\n" + core.first_errors(r.stderr))
        p = os.path.join(self.dir, "expanded.rs")
        open(p, "w").write(r.stdout)
        r = core.sh([TYPEX, p])
        if r.returncode:
            raise core.CheckError("reading the expansion failed: " + r.stderr[-500:])
        self.items = [x for x in json.loads(r.stdout) if x.get("module", "").startswith("sys::")]
        self.structs = {x["name"]: x for x in self.items if x["item"] == "struct"}
        self.aliases = {x["name"]: x for x in self.items if x["item"] == "type"}
        self.consts = {x["name"]: x for x in self.items if x["item"] == "const"}
        self.traits = {x["name"]: x for x in self.items if x["item"] == "trait"}
        self.impls = [x for x in self.items if x["item"] == "impl"]
        if "Dimension" not in self.structs or "Quantity" not in self.structs:
            raise core.CheckError("the expansion has no dimension or quantity type")
        self.fields = [f["name"] for f in self.structs["Dimension"]["fields"]]
        if sorted(self.fields) != ["length", "mass", "time"]:
            raise core.CheckError(f"unexpected fields of the dimension type: {self.fields}")

    # ------------------------------------------------------------------ constant expressions
    def const_exprs(self):
        """(text, params) of every constant expression of dimension kind in a type, with the kind of its parameters"""
        found = {}

        def walk(x, params):
            if isinstance(x, dict):
                if x.get("k") == "cexpr":
                    t = x["text"]
                    ids = set(re.findall(r"\b[A-Za-z_]\w*\b", t))
                    ps = tuple((n, k) for n, k in params if n in ids)
                    if not re.match(r"Magnitude\b", t):
                        found[(t, ps)] = None
                for k, v in x.items():
                    walk(v, params)
            elif isinstance(x, list):
                for v in x:
                    walk(v, params)

        for it in self.items:
            base = [(p["name"], last(p["ty"]["name"])) for p in it.get("params", []) if p["k"] == "const"]
            rest = {k: v for k, v in it.items() if k != "methods"}
            if it["item"] == "const":
                continue
            walk(rest, base)
            for m in it.get("methods", []):
                walk(m, base + [(p["name"], last(p["ty"]["name"])) for p in m["params"] if p["k"] == "const"])
        for n, it in self.consts.items():
            if last(it["ty"].get("name", "")) == "Dimension" and it["module"] == "sys::":
                found[(n, ())] = None
        return sorted(found)

    def summaries(self):
        ex = self.const_exprs()
        self.exprs = {}
        lines = []
        for t, ps in ex:
            lines.append("\t".join([t] + [f"{n}=(d{i}())" if k == "Dimension" else f"{n}=(i{i})" for i, (n, k) in enumerate(ps)]))
        r = subprocess.run([TYPEX, "subst"], input="\n".join(lines) + "\n", stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
        if r.returncode:
            raise core.CheckError("typex subst: " + r.stderr[-500:])
        bodies = r.stdout.split("\n")
        src = [HEAD, f'#[path = "{core.VERIF}/harness/sx.rs"]\n#[macro_use]\npub mod sx;\n']
        src.append('''#[cfg(not(feature = "std"))]
mod nostd_rt {
    extern "C" { fn abort() -> !; }
    #[panic_handler]
    fn panic(_: &core::panic::PanicInfo) -> ! { unsafe { abort() } }
    #[no_mangle] pub extern "C" fn rust_eh_personality() {}
}
''')
        src.append(SYSTEM)
        src.append("pub mod gen {\nuse super::*;\nuse crate::sx::*;\n" + GEN_COMMON + (GEN_RATIONAL if self.rational else GEN_INT))
        names = []
        for i, ((t, ps), b) in enumerate(zip(ex, bodies)):
            if any(k not in ("Dimension", "i32") for _, k in ps):
                continue
            args = ", ".join([f"d{j}: impl Fn() -> Dimension" if k == "Dimension" else f"i{j}: i32" for j, (_, k) in enumerate(ps)])
            src.append(f"// {t}\n#[inline(always)] fn e{i}({args}) -> Dimension {{ {b} }}")
            nd = sum(k == "Dimension" for _, k in ps)
            ni = len(ps) - nd
            if ni > 1 or nd > 2:
                raise core.CheckError(f"constant expression with unexpected parameters: {t}")
            dn = iter(range(nd))
            call = ", ".join([f"|| mk(&x[{next(dn)}])" if k == "Dimension" else "i" for _, k in ps])
            src.append(f"entries!({{ k{i}_fit k{i}_prove k{i}_frac }} {nd} {ni} i |x: &[[X; 3]; {max(nd, 1)}], i: i32| e{i}({call}));")
            self.exprs[(t, ps)] = {"i": i, "nd": nd, "ni": ni, "order": [k for _, k in ps]}
        src.append("}\n}\n")
        d = self.crate("tyxg", "cdylib", "\n".join(src))
        b = core.build_harness("tyxg", self.features, "tyx-" + self.config, src_dir=d)
        self.built = b
        self.fit(b)
        self.prove(b)

    def fit(self, b):
        """guess the linear map from native runs; it is proved afterwards"""
        c = self.c
        nf = len(self.fields)

        def run(s, xs, i):
            inp = {}
            for a in range(s["nd"]):
                for g in range(nf):
                    inp[f"x{a}{g}"] = hex(xs[a][g] & (1 << 64) - 1)
            inp["i"] = hex(i & 0xffffffff)
            code, out, p = c.native(b, f"k{s['i']}_fit", inp, "fit")
            os.remove(p)
            vals = {}
            for l in out.splitlines():
                if l.startswith("OUT "):
                    _, n, v = l.split(" ")
                    v = int(v, 16)
                    vals[n] = v - (1 << 64) if v >> 63 else v
            if len(vals) < 2 * nf:
                return None
            return [F(vals[f"n{f}"], vals[f"d{f}"]) for f in range(nf)]

        self.fit_run = run

        def one(s):
            z = [[0] * nf for _ in range(2)]
            c0 = run(s, z, 1)
            if c0 is None:
                return None
            m = []
            for a in range(s["nd"]):
                for g in range(nf):
                    x = [r[:] for r in z]
                    x[a][g] = 6
                    y = run(s, x, 1)
                    if y is None:
                        return None
                    m.append([(y[f] - c0[f]) / 6 for f in range(nf)])
            return c0, m

        keys = list(self.exprs)
        with cf.ThreadPoolExecutor(8) as ex:
            for k, r in zip(keys, ex.map(one, [self.exprs[k] for k in keys])):
                s = self.exprs[k]
                if r is None:
                    s["bad"] = "no value at the origin"
                    continue
                c0, m = r
                den = 1
                for row in m:
                    for v in row:
                        den = den * v.denominator // __import__("math").gcd(den, v.denominator)
                if den > 12 or any(v.denominator != 1 for v in c0) or any(abs(v) > 100 for row in m for v in row) or any(abs(v) > 100 for v in c0):
                    s["bad"] = "not a small linear map"
                    continue
                s["c"] = [int(v) for v in c0]
                s["den"] = den
                s["m"] = [[int(m[a * nf + g][f] * den) for a in range(s["nd"]) for g in range(nf)] for f in range(nf)]

    def prove(self, b):
        c = self.c
        jobs = []
        for k, s in self.exprs.items():
            if "bad" in s:
                continue
            par = {"den": s["den"]}
            for f in range(3):
                par[f"c{f}"] = s["c"][f] & (1 << 64) - 1
                for j, v in enumerate(s["m"][f]):
                    par[f"m{f}{j}"] = v & (1 << 64) - 1
            if s["ni"]:
                jobs.append((k, s, f"k{s['i']}_prove", dict(par, xbits=64, ibits=4)))
                jobs.append((k, s, f"k{s['i']}_prove", dict(par, xbits=3, ibits=32)))
            elif s["den"] > 1:
                jobs.append((k, s, f"k{s['i']}_prove", dict(par, xbits=16)))
            else:
                jobs.append((k, s, f"k{s['i']}_prove", par))
            if self.integral:
                jobs = [(k_, s_, e_, dict(p_, integral=1)) for k_, s_, e_, p_ in jobs]
            elif self.rational and s["nd"]:
                jobs.append((k, s, f"k{s['i']}_frac", par))

        def one(j):
            k, s, e, par = j
            sub = core.Ctx.__new__(core.Ctx)
            sub.__dict__.update(c.__dict__)
            sub.params = dict(c.params, **par)
            return sub.symex(b, e, {"div-enum": 8})

        with cf.ThreadPoolExecutor(8) as ex:
            for (k, s, e, par), r in zip(jobs, ex.map(one, jobs)):
                bad = bool(r.get("violations")) or "paths" not in r
                if not bad:
                    c.absorb(b, e, r, need_reach=())
                    if not any(x in r["reach"] for x in ("end", "rejected")):
                        c.error(f"{b.name}/{e}: vacuous")
                else:
                    for x in r.get("errors", []):
                        c.error(f"{b.name}/{e}: {x}")
                    if r.get("violations"):
                        v = r["violations"][0]
                        s["bad"] = f"not the linear map its values suggest: {v['id']} {v['inputs']}"
                        s["witness"] = (e, par, {n: x.split(":")[0] for n, x in v["inputs"].items()}, {n: int(x.split(":")[1]) for n, x in v["inputs"].items()})
                        if "_frac" in e:
                            del s["witness"]
        c.extra["constant_expressions_proved"] = c.extra.get("constant_expressions_proved", 0) + sum("bad" not in s for s in self.exprs.values())

    def at_witness(self, text, s, ps, env, conds):
        """An expression that is no linear map: look only at the input that refutes it, where its value is known."""
        if "witness" not in s:
            raise Unsupported(f"{text}: {s['bad']}")
        inp = {n: int(x, 16) for n, x in s["witness"][2].items()}
        if "at" not in s:
            w = {n: v for n, v in inp.items()}
            sign = lambda v, bits: v - (1 << bits) if v >> (bits - 1) & 1 else v
            bits = s["witness"][3]
            s["xs"] = [[sign(w.get(f"x{a}{g}", 0), bits.get(f"x{a}{g}", 64)) for g in range(3)] for a in range(s["nd"])]
            s["ii"] = sign(w.get("i", 1), bits.get("i", 32))
            s["at"] = self.fit_run(s, s["xs"], s["ii"])
        self.partial.add(f"{text}: {s['bad']}")
        nd = 0
        for n, k in ps:
            if k == "Dimension":
                for x, v in zip(env[n], s["xs"][nd]):
                    self.focus.append(Eq(x, num(v)))
                nd += 1
            else:
                self.focus.append(Eq(str(env[n]), num(s["ii"])))
        conds += self.focus
        if s["at"] is None:
            conds.append(False)
            return ("0",) * 3
        return tuple(num(v) for v in s["at"])

    def eval_expr(self, text, env, conds):
        """value of a constant expression as a dimension vector; definedness goes to conds"""
        for (t, ps), s in self.exprs.items():
            if t == text and all(n in env for n, _ in ps):
                if "bad" in s:
                    return self.at_witness(text, s, ps, env, conds)
                xs, mul = [], None
                for n, k in ps:
                    if k == "Dimension":
                        xs += list(env[n])
                    else:
                        mul = env[n]
                out = []
                for f in range(3):
                    terms = []
                    for co, x in zip(s["m"][f], xs):
                        if co == 0:
                            continue
                        if mul is not None:
                            if x == "0":
                                continue
                            x = f"(* {mul} {x})"
                        terms.append(x if co == 1 else f"(- {x})" if co == -1 else f"(* {num(co)} {x})")
                    terms = [t_ for t_ in terms if t_ != "0"]
                    if s["c"][f]:
                        terms.append(num(s["c"][f] * s["den"]))
                    e = "0" if not terms else terms[0] if len(terms) == 1 else "(+ " + " ".join(terms) + ")"
                    if s["den"] != 1 and e != "0":
                        if self.rational:
                            e = f"(/ {e} {s['den']})"
                        else:
                            conds.append(f"(= 0 (mod {e} {s['den']}))")
                            e = f"(div {e} {s['den']})"
                    if e != "0" and not self.rational and e not in xs:
                        conds.append(f"(<= {LO} {e} {HI})")
                    out.append(e)
                return tuple(out)
        raise Unsupported(f"constant expression {text}")

    # ------------------------------------------------------------------ facts about storage types, from rustc
    def check_lines(self, head, lines, tag="probe", system=True, build=False):
        """compile independent functions in one crate; the set of indices rustc rejects"""
        src = HEAD + (SYSTEM + "pub mod probe {\nuse super::*;\nuse super::units::*;\n" if system else "pub mod sys { pub mod probe {\nuse diman::internal::magnitude::Magnitude;\n") + head
        n0 = src.count("\n") + 1
        body = "\n".join(lines)
        assert all("\n" not in l for l in lines)
        d = self.crate("tyxp", "lib", src + body + "\n}\n}\n")
        shutil.copy(os.path.join(d, "src/lib.rs"), os.path.join(self.dir, tag + ".rs"))
        r = self.cargo(d, ["build" if build else "check", "--offline", "--lib", "--message-format", "json"])
        bad, msgs = set(), {}
        other = []
        for l in r.stdout.splitlines():
            try:
                m = json.loads(l)
            except ValueError:
                continue
            if m.get("reason") != "compiler-message" or m["message"]["level"] != "error":
                continue
            sp = [s for s in m["message"]["spans"] if s["is_primary"]]
            hit = False

            def spans(s):
                while s:
                    yield s
                    s = (s.get("expansion") or {}).get("span")
            for s in sp or []:
                for q in spans(s):
                    i = q["line_start"] - n0
                    if q["file_name"].endswith("lib.rs") and 0 <= i < len(lines):
                        bad.add(i)
                        msgs.setdefault(i, m["message"]["message"])
                        hit = True
            if not hit:
                # post-mono and const-eval errors point elsewhere; children or notes may name the line
                for ch in m["message"].get("children", []):
                    for s in ch["spans"]:
                        i = s["line_start"] - n0
                        if s["file_name"].endswith("lib.rs") and 0 <= i < len(lines):
                            bad.add(i)
                            msgs.setdefault(i, m["message"]["message"])
                            hit = True
            if not hit and not m["message"]["message"].startswith(("aborting", "could not compile")):
                other.append(m["message"]["rendered"][:600])
        if r.returncode and not bad and not other:
            raise core.CheckError("cargo check failed without a message:\n" + r.stderr[-1500:])
        self.msgs = msgs
        return bad, other

    def check_each(self, lines, tag):
        """lines marked with //build are also taken through code generation, where constants in signatures are evaluated"""
        bad, msgs = set(), {}
        plain = [i for i, l in enumerate(lines) if not l.endswith("//build")]
        b, other = self.check_lines(PROBE_HEAD, [lines[i] for i in plain], tag) if plain else (set(), [])
        for i in b:
            bad.add(plain[i])
            msgs[plain[i]] = self.msgs.get(i, "")
        rest = [i for i, l in enumerate(lines) if l.endswith("//build")]
        for i in rest:
            # these errors name no line
            b, o = self.check_lines(PROBE_HEAD, [lines[i]], tag, build=True)
            if b or o:
                bad.add(i)
                msgs[i] = (o or [self.msgs.get(0, "")])[0]
        self.msgs = msgs
        return bad, other

    def load_facts(self):
        base = [("S", s) for s in self.storages]
        refs = lambda t: [t, ("ref", False, t), ("ref", True, t)]
        forms = [r for t in base for r in refs(t)]
        mag = ("S", "Magnitude")
        want = []
        for op in ("Add", "Sub", "Mul", "Div"):
            for a in forms:
                for b in forms + [mag]:
                    want.append((op, (b,), a))
        for op in ("AddAssign", "SubAssign", "MulAssign", "DivAssign"):
            for a in base:
                for b in forms:
                    want.append((op, (b,), a))
        for op in ("PartialEq", "PartialOrd"):
            for a in base:
                for b in base:
                    want.append((op, (b,), a))
        for t in ("Neg", "Default", "Copy", "Clone", "Debug", "Display", "Eq"):
            for a in base:
                want.append((t, (), a))
        self.facts = {}
        lines, idx = [], []
        head = "fn chk<T: ?Sized>() where T: Sized {}\n"
        for w in want:
            t, args, a = w
            tr = TRAIT_PATHS[t]
            av = ", ".join(self.rs(x) for x in args)
            outs = [None]
            if t in ("Add", "Sub", "Mul", "Div", "Neg"):
                outs = [None] + base
            for o in outs:
                ga = ", ".join(x for x in (av, f"Output = {self.rs(o)}" if o else "") if x)
                lines.append(f"fn f{len(lines)}() {{ fn c<T: 'static + {tr}{'<' + ga + '>' if ga else ''}>() {{}} c::<{self.rs(a)}>() }}")
                idx.append((w, o))
        key = hashlib.sha256(("\n".join(lines) + core.repo_hash()).encode()).hexdigest()
        cache = os.path.join(self.dir, "facts.json")
        bad = None
        if os.path.exists(cache):
            j = json.load(open(cache))
            if j["key"] == key:
                bad = set(j["bad"])
        if bad is None:
            bad, other = self.check_lines(head, lines, "facts", False)
            if other:
                raise core.CheckError("storage facts: " + other[0])
            json.dump({"key": key, "bad": sorted(bad)}, open(cache, "w"))
        for i, (w, o) in enumerate(idx):
            if i in bad:
                self.facts.setdefault(w, None)
            elif o is None:
                self.facts[w] = ()
            else:
                self.facts[w] = (o,)

    def rs(self, t, dims=None):
        """Rust source of a ground type"""
        k = t[0]
        if k == "S":
            return "::" + t[1] if t[1].startswith("glam") else t[1]
        if k == "ref":
            return f"&'static {'mut ' if t[1] else ''}{self.rs(t[2], dims)}"
        if k == "tuple":
            return "(" + ", ".join(self.rs(x, dims) for x in t[1]) + ")"
        if k == "P":
            return t[1] + "<" + ", ".join(self.rs_dim(a[1], dims) if a[0] == "dim" else a[1] if a[0] == "const" else self.rs(a, dims) for a in t[2]) + ">"
        raise Unsupported(str(t))

    def rs_dim(self, d, dims):
        return "{ " + self.rs_dimv([ev(x, dims) for x in d]) + " }"

    def rs_dimv(self, vs):
        parts = []
        for f, v in zip(self.fields, vs):
            v = F(v)
            parts.append(f"{f}: Exponent::new({v.numerator}, {v.denominator})" if self.rational else f"{f}: {v.numerator}")
        return "Dimension { " + ", ".join(parts) + " }"

    # ------------------------------------------------------------------ matching
    def eq_ty(self, a, b, conds):
        if a[0] != b[0]:
            return False
        if a[0] == "ref":
            return a[1] == b[1] and self.eq_ty(a[2], b[2], conds)
        if a[0] == "tuple":
            return len(a[1]) == len(b[1]) and all(self.eq_ty(x, y, conds) for x, y in zip(a[1], b[1]))
        if a[0] == "P":
            if a[1] != b[1] or len(a[2]) != len(b[2]):
                return False
            for x, y in zip(a[2], b[2]):
                if x[0] == "dim" and y[0] == "dim":
                    conds += [Eq(p, q) for p, q in zip(x[1], y[1])]
                elif x[0] == "const" or y[0] == "const":
                    if x != y:
                        conds.append(f"(= {x[1]} {y[1]})" if False else x == y)
                elif not self.eq_ty(x, y, conds):
                    return False
            return True
        return a == b

    def struct_name(self, name):
        n = last(name)
        return n if n in self.structs else None

    def match(self, p, g, env, conds, later):
        k = p["k"]
        if k == "path":
            n = p["name"]
            if n in env["?types"] and not p["args"]:
                if n in env:
                    return self.eq_ty(env[n], g, conds)
                env[n] = g
                return True
            if n == "Self":
                if "Self" in env:
                    return self.eq_ty(env["Self"], g, conds)
                later.append((p, g))
                return True
            st = self.struct_name(n)
            if st and (p["args"] or not self.structs[st]["params"]):
                if g[0] != "P" or g[1] != st or len(p["args"]) != len(g[2]):
                    return False
                return all(self.match_arg(x, y, env, conds, later) for x, y in zip(p["args"], g[2]))
            al = self.aliases.get(last(n))
            if al is not None and n != last(n) or (al is not None and n in self.aliases and not p["args"] == []):
                return self.match(self.expand_alias(al, p), g, env, conds, later)
            if "::" in n and n.split("::")[0] in env["?types"]:
                later.append((p, g))
                return True
            nm = n.replace("std::", "core::")
            short = nm if nm.startswith("glam::") else last(nm)
            if p["args"]:
                if g[0] != "P" or g[1] != short or len(p["args"]) != len(g[2]):
                    return False
                return all(self.match_arg(x, y, env, conds, later) for x, y in zip(p["args"], g[2]))
            return g == ("S", short)
        if k == "ref":
            return g[0] == "ref" and g[1] == p["mut"] and self.match(p["ty"], g[2], env, conds, later)
        if k == "tuple":
            return g[0] == "tuple" and len(g[1]) == len(p["args"]) and all(self.match(x, y, env, conds, later) for x, y in zip(p["args"], g[1]))
        if k == "assoc":
            later.append((p, g))
            return True
        raise Unsupported("type " + json.dumps(p)[:200])

    def expand_alias(self, al, p):
        m = {q["name"]: a for q, a in zip([q for q in al["params"]], p["args"])}

        def sub(x):
            if isinstance(x, dict):
                if x.get("k") == "path" and x["name"] in m and not x["args"]:
                    return m[x["name"]]
                return {a: sub(b) for a, b in x.items()}
            if isinstance(x, list):
                return [sub(y) for y in x]
            return x
        return sub(al["ty"])

    def match_arg(self, p, g, env, conds, later):
        if g[0] in ("dim", "const"):
            name = p.get("name") if p["k"] in ("cname", "path") else None
            if name in env["?consts"]:
                if name in env:
                    o = env[name]
                    if g[0] == "dim":
                        conds += [Eq(a, b) for a, b in zip(o, g[1])]
                    else:
                        conds.append(o == g[1])
                else:
                    env[name] = g[1]
                return True
            if g[0] == "dim":
                text = p.get("text") or name
                need = [n for (t, ps) in self.exprs if t == text for n, _ in ps]
                if any(n not in env for n in need):
                    later.append((p, g))
                    return True
                v = self.eval_expr(text, env, conds)
                conds += [Eq(a, b) for a, b in zip(v, g[1])]
                return True
            raise Unsupported("constant argument " + json.dumps(p)[:100])
        return self.match(p, g, env, conds, later)

    def eval_arg(self, p, env, conds):
        if p["k"] == "cexpr":
            if re.match(r"Magnitude\b", p["text"]):
                return ("const", p["text"])
            return ("dim", self.eval_expr(p["text"], env, conds))
        n = p.get("name")
        if n in env["?consts"]:
            v = env[n]
            return ("dim", v) if isinstance(v, tuple) else ("const", v)
        if p["k"] == "cname":
            return ("dim", self.eval_expr(n, env, conds))
        if p["k"] == "path" and not p["args"] and n not in env["?types"] and (n, ()) in self.exprs:
            return ("dim", self.eval_expr(n, env, conds))
        return self.eval_ty(p, env, conds)

    def eval_ty(self, p, env, conds):
        k = p["k"]
        if k == "path":
            n = p["name"]
            if n in env["?types"] and not p["args"]:
                if n not in env:
                    raise Unsupported("unbound " + n)
                return env[n]
            if n == "Self":
                return env["Self"]
            if n.startswith("Self::") and last(n) in env.get("?assoc", {}):
                return self.eval_ty(env["?assoc"][last(n)], env, conds)
            st = self.struct_name(n)
            if st:
                return ("P", st, tuple(self.eval_arg(a, env, conds) for a in p["args"]))
            al = self.aliases.get(last(n))
            if al is not None and p["args"]:
                return self.eval_ty(self.expand_alias(al, p), env, conds)
            if "::" in n and n.split("::")[0] in env["?types"]:
                head, member = n.split("::", 1)
                # T::Output without a trait: the only bound with such a member
                for tr in ("Add", "Sub", "Mul", "Div", "Neg"):
                    for w in env.get("?where", []):
                        if w.get("ty", {}).get("name") == head:
                            for b in w["bounds"]:
                                if last(b["name"]) == tr:
                                    return self.eval_ty({"k": "assoc", "self": {"k": "path", "name": head, "args": [], "assoc": []}, "trait": b, "member": member}, env, conds)
                raise Unsupported(n)
            nm = n.replace("std::", "core::")
            short = nm if nm.startswith("glam::") else last(nm)
            if p["args"]:
                return ("P", short, tuple(self.eval_arg(a, env, conds) for a in p["args"]))
            return ("S", short)
        if k == "ref":
            return ("ref", p["mut"], self.eval_ty(p["ty"], env, conds))
        if k == "tuple":
            return ("tuple", tuple(self.eval_ty(x, env, conds) for x in p["args"]))
        if k == "assoc":
            me = self.eval_ty(p["self"], env, conds)
            args = tuple(self.eval_ty(a, env, conds) for a in p["trait"]["args"])
            r = self.holds(last(p["trait"]["name"]), args, me, env)
            outs = [(c_, o) for c_, o in r if o is not None]
            if len(outs) != 1:
                raise Unsupported("ambiguous associated type " + json.dumps(p)[:200])
            conds.append(outs[0][0])
            return outs[0][1](p["member"]) if callable(outs[0][1]) else outs[0][1]
        raise Unsupported("type " + json.dumps(p)[:200])

    # ------------------------------------------------------------------ traits
    def is_ours(self, t):
        return t[0] == "P" and t[1] in self.structs or t[0] == "ref" and self.is_ours(t[2])

    def holds(self, trait, args, me, env=None):
        """list of (condition, output type or None)"""
        out = []
        default = trait in OPS2 and not args
        if default:
            args = (me,)
        if trait in ("Sized", "Send", "Sync", "Unpin"):
            return [(True, None)]
        if not self.is_ours(me) and not any(self.is_ours(a) for a in args):
            if (trait, args, me) in self.facts:
                f = self.facts[(trait, args, me)]
                return [] if f is None else [(True, f[0] if f else None)]
            if trait == "From" and len(args) == 1:
                return [(True, None)] if args[0] == me else [(c_, None) for c_, _, _ in self.search(trait, args, me)]
            if trait == "Into":
                return self.holds("From", (me,), args[0])
            if me[0] == "ref" and trait in ("PartialEq", "PartialOrd") and args[0][0] == "ref":
                return self.ref_cmp(trait, args, me)
            if trait in TRAIT_PATHS:
                return [(True, None)] if self.ask(trait, args, me) else []
            if trait not in self.traits:
                raise Unsupported(f"bound {trait} on {me}")
        if trait == "From" and len(args) == 1:
            conds = []
            if self.eq_ty(args[0], me, conds):
                out.append((And(*conds), None))
        if trait == "Into" and len(args) == 1:
            out += self.holds("From", (me,), args[0])
        if me[0] == "ref" and trait in ("PartialEq", "PartialOrd") and args[0][0] == "ref":
            out += self.ref_cmp(trait, args, me)
        if trait in ("Copy", "Clone") and me[0] == "ref" and not me[1]:
            return [(True, None)]
        for cond, imp, e in self.search(trait, args, me):
            def member(name, imp=imp, e=e):
                cs = []
                return self.eval_ty(imp["assoc"][name], e, cs)
            out.append((cond, member if imp["assoc"] else None))
        return out

    def ref_cmp(self, trait, args, me):
        if trait == "PartialOrd" and args[0][1] != me[1]:
            return []
        return [(c_, None) for c_, _ in self.holds(trait, (args[0][2],), me[2])]

    def ask(self, trait, args, me):
        k = (trait, args, me)
        av = ", ".join(self.rs(x) for x in args)
        bad, other = self.check_lines("", [f"fn f() {{ fn c<T: 'static + {TRAIT_PATHS[trait]}{'<' + av + '>' if av else ''}>() {{}} c::<{self.rs(me)}>() }}"], "ask")
        self.facts[k] = None if bad or other else ()
        return not bad and not other

    def new_env(self, item, extra=None):
        ps = list(item["params"]) + (list(extra["params"]) if extra else [])
        return {"?types": {p["name"] for p in ps if p["k"] == "type"}, "?consts": {p["name"] for p in ps if p["k"] == "const"},
                "?where": list(item["where"]) + (list(extra["where"]) if extra else []), "?assoc": item.get("assoc", {})}

    def search(self, trait, args, me):
        out = []
        for imp in self.impls:
            tr = imp["trait"]
            if tr is None or last(tr["name"]) != trait or tr["neg"]:
                continue
            env = self.new_env(imp)
            conds, later = [], []
            if not self.match(imp["self"], me, env, conds, later):
                continue
            env["Self"] = me
            targs = tr["args"]
            if not targs and trait in OPS2:
                targs = [{"k": "path", "name": "Self", "args": [], "assoc": []}]
            if not targs and trait == "Sum":
                targs = [{"k": "path", "name": "Self", "args": [], "assoc": []}]
            if len(targs) != len(args):
                continue
            if not all(self.match(p, g, env, conds, later) if g[0] not in ("dim", "const") else self.match_arg(p, g, env, conds, later) for p, g in zip(targs, args)):
                continue
            if not self.finish(env, conds, later):
                continue
            c_ = And(*conds)
            if c_ is not False:
                out.append((c_, imp, env))
        return out

    def finish(self, env, conds, later):
        # bind parameters through associated-type constraints first
        for p, g in later:
            cs = []
            if p["k"] in ("cexpr", "cname") or g[0] in ("dim", "const"):
                if not self.match_arg(p, g, env, conds, []):
                    return False
                continue
            t = self.eval_ty(p, env, conds)
            if not self.eq_ty(t, g, conds):
                return False
        for w in env["?where"]:
            if "other" in w:
                raise Unsupported("where " + w["other"])
            if not w["bounds"]:
                self.eval_ty(w["ty"], env, conds)
                continue
            me = self.eval_ty(w["ty"], env, conds)
            for b in w["bounds"]:
                if b.get("maybe"):
                    continue
                tn = last(b["name"])
                cargs = []
                for a in b["args"]:
                    v = self.eval_arg(a, env, conds)
                    cargs.append(v)
                if tn in self.traits:
                    alts = self.trait_holds(tn, tuple(cargs), me)
                else:
                    alts = self.holds(tn, tuple(cargs), me, env)
                opts = []
                for c_, o in alts:
                    cs = [c_]
                    ok = True
                    for a in b["assoc"]:
                        o2 = o(a["name"]) if callable(o) else o
                        if o2 is None:
                            ok = False
                            break
                        l2 = []
                        if not self.match(a["ty"], o2, env, cs, l2):
                            ok = False
                            break
                        for p, g in l2:
                            ok = ok and self.eq_ty(self.eval_ty(p, env, cs), g, cs)
                    if ok:
                        opts.append(And(*cs))
                r = Or(*opts)
                if r is False:
                    return False
                conds.append(r)
        return True

    def trait_holds(self, tn, args, me):
        """a trait the expansion declares: an impl, and its supertraits"""
        out = []
        t = self.traits[tn]
        for imp_c, imp, env in self.search(tn, args, me):
            out.append((imp_c, None))
        c_ = Or(*[c for c, _ in out])
        if c_ is False:
            return []
        for s in t["supers"]:
            env = self.new_env(t)
            env["Self"] = me
            for p, a in zip(t["params"], args):
                env[p["name"]] = a[1] if a[0] in ("dim", "const") else a
            conds = []
            sargs = tuple(self.eval_arg(a, env, conds) for a in s["args"])
            h = self.holds(last(s["name"]), sargs, me)
            c_ = And(c_, *conds, Or(*[x for x, _ in h]))
        return [(c_, None)] if c_ is not False else []

    def op(self, trait, a, b):
        """(accepted, [(cond, output ground type)]) for `a op b`"""
        r = self.holds(trait, (b,), a)
        outs = []
        for c_, o in r:
            if callable(o):
                cs = []
                outs.append((c_, o("Output")))
            elif o is not None:
                outs.append((c_, o))
        return Or(*[c_ for c_, _ in r]), outs

    def methods(self, name, me, args, ints=()):
        """inherent methods `name` callable on a value of type me with these arguments: [(cond, output)]"""
        out = []
        for imp in self.impls:
            if imp["trait"] is not None:
                continue
            for m in imp["methods"]:
                if m["name"] != name or not m["pub"]:
                    continue
                env = self.new_env(imp, m)
                conds, later = [], []
                if not self.match(imp["self"], me, env, conds, later):
                    continue
                env["Self"] = me
                cps = [p["name"] for p in m["params"] if p["k"] == "const" and last(p["ty"]["name"]) != "Dimension"]
                for n, v in zip(cps, ints):
                    env[n] = v
                ins = [x["ty"] for x in m["inputs"] if not x["receiver"]]
                if len(ins) != len(args):
                    continue
                if not all(self.match(p, g, env, conds, later) for p, g in zip(ins, args)):
                    continue
                if not self.finish(env, conds, later):
                    continue
                o = self.eval_ty(m["output"], env, conds)
                c_ = And(*conds)
                if c_ is not False:
                    out.append((c_, o))
        return out

    def deref(self, me):
        return Or(*[c_ for c_, _, _ in self.search("Deref", (), me)])

    # ------------------------------------------------------------------ queries
    def dimvars(self, p):
        v = tuple(f"{p}_{f}" for f in self.fields)
        for x in v:
            self.smt.var(x)
        return v

    def ranges(self, *ds):
        if self.rational:
            return [f"(and (is_int {x}) (<= {LO} {x} {HI}))" for d in ds for x in d if x != "0"] if self.integral else []
        return [f"(<= {LO} {x} {HI})" for d in ds for x in d if x != "0"]

    def integral_roots(self, name, d):
        k = {"sqrt": 2, "cbrt": 3}.get(name)
        if not self.integral or k is None:
            return []
        return [f"(is_int (/ {x} {k}))" if self.rational else f"(= 0 (mod {x} {k}))" for x in d if x != "0"]

    def small(self, names):
        if self.rational:
            return [f"(and (<= (- 6) {n} 6) (is_int (* 12 {n})))" for n in names]
        return [f"(<= (- 6) {n} 6)" for n in names]

    def solve(self, f, names, ranges):
        """is f satisfiable?  -> (ans, model)"""
        f = And(*[x for x in ([f] if not isinstance(f, list) else f)], *ranges)
        if f is False:
            return "unsat", None
        a, m = self.smt.check([f] + self.small(names), names)
        if a == "sat":
            return a, m
        a, m = self.smt.check([f], names)
        return a, m

    def decide(self, what, formula, names, ranges, program, want):
        """No dimensions satisfy `formula` (a way to break the property).  program(model) is a line of Rust which rustc
        must accept (want=True) or reject (want=False) if the property holds."""
        c = self.c
        c.obligations += 1
        a, m = self.solve(And(formula, *self.focus), names, ranges)
        self.queries += 1
        c.queries += 1
        if a == "unsat":
            c.discharged += 1
            return True
        if a == "unknown":
            c.error(f"{self.config}: {what}: solver unknown")
            return False
        self.probes.append((what, m, program(m), want))
        return False

    def replay(self):
        """the counterexamples, against the real compiler"""
        if not self.probes:
            return
        c = self.c
        ps = self.probes[:60]
        ps = ps[:12] if len(ps) > 12 else ps
        rejected, other = self.check_each([p[2] for p in ps], "replay")
        msgs = dict(self.msgs)
        if other:
            # an error without a place may hide others: one by one
            rejected = set()
            for i, p in enumerate(ps):
                r, o = self.check_each([p[2]], "replay")
                if r or o:
                    rejected.add(i)
                    msgs[i] = (o or [self.msgs.get(0, "")])[0]
            other = []
        for i, (what, m, line, want) in enumerate(ps):
            ok = i not in rejected
            if other and not rejected:
                c.error(f"{self.config}: replay: {other[0]}")
            if ok == want:
                c.error(f"{self.config}: {what}: counterexample {fmt(m)} is not confirmed by rustc: {line}")
                continue
            os.makedirs(c.replay_dir, exist_ok=True)
            p = os.path.join(c.replay_dir, f"types-{self.config}-{i}.rs")
            open(p, "w").write(HEAD + SYSTEM + "pub mod probe {\nuse super::*;\nuse super::units::*;\n" + PROBE_HEAD + line + "\n}\n}\n// rustc " + ("accepts" if ok else "rejects: " + msgs.get(i, "")) + " this; the property says it must be " + ("accepted" if want else "rejected") + "\n")
            c.violate("types-" + self.config, what, "accepted" if ok else "rejected", fmt(m), p, text=line)

    def validate(self, samples):
        """model check: rustc must agree with the formulas on concrete dimensions.  samples: (what, line, accepted)"""
        if not samples:
            return
        c = self.c
        acc = [s for s in samples if s[2]]
        rej = [s for s in samples if not s[2]]
        bad, other = self.check_each([s[1] for s in samples], "validate")
        if other:
            c.error(f"{self.config}: validation: {other[0]}")
        for i, s in enumerate(samples):
            if (i not in bad) != s[2]:
                c.error(f"{self.config}: rustc {'accepts' if i not in bad else 'rejects'} {s[0]}, the model does not: {s[1]} {self.msgs.get(i, '')}")
            else:
                c.validated += 1

    def close(self):
        self.c.solver_s += self.smt.time
        self.smt.close()


def fmt(m):
    return {k: str(v) for k, v in (m or {}).items()}


def num(v):
    return str(v) if v >= 0 else f"(- {-v})"


def ev(x, m):
    """value of a (small) SMT term under a model"""
    if x in (m or {}):
        return m[x]
    toks = x.replace("(", " ( ").replace(")", " ) ").split()

    def go(i):
        if toks[i] != "(":
            return (m[toks[i]] if m and toks[i] in m else F(toks[i])), i + 1
        op = toks[i + 1]
        i += 2
        a = []
        while toks[i] != ")":
            v, i = go(i)
            a.append(v)
        if op == "+":
            r = sum(a)
        elif op == "-":
            r = -a[0] if len(a) == 1 else a[0] - sum(a[1:])
        elif op == "*":
            r = a[0]
            for y in a[1:]:
                r *= y
        elif op == "/":
            r = F(a[0]) / a[1]
        elif op == "div":
            r = F(a[0] // a[1])
        else:
            raise ValueError(x)
        return r, i + 1
    return go(0)[0]


PROBE_HEAD = """use core::ops::*;
use core::cmp::*;
use super::unit_type::RuntimeUnit;
"""

GEN_COMMON = r'''
type X = (i64, i64);
/// the linear map proved for an expression: coefficients come from the command line
fn coef(f: usize, j: usize) -> i128 { param(["m00","m01","m02","m03","m04","m05","m10","m11","m12","m13","m14","m15","m20","m21","m22","m23","m24","m25"][f * 6 + j], 0) as i64 as i128 }
fn cons(f: usize) -> i128 { param(["c0", "c1", "c2"][f], 0) as i64 as i128 }
const XN: [[&str; 3]; 2] = [["x00", "x01", "x02"], ["x10", "x11", "x12"]];
macro_rules! entries {
    ({ $fit:ident $prove:ident $frac:ident } $nd:literal $ni:literal $i:ident $e:expr) => {
        #[no_mangle] pub extern "C" fn $fit() {
            let mut x = [[(0i64, 1i64); 3]; if $nd == 0 { 1 } else { $nd }];
            for a in 0..$nd { for g in 0..3 { x[a][g].0 = input(XN[a][g], 64) as i64; } }
            let $i = input("i", 32) as i32;
            let r = parts(($e)(&x, $i));
            for f in 0..3 {
                out(["n0", "n1", "n2"][f], r[f].0 as u64);
                out(["d0", "d1", "d2"][f], r[f].1 as u64);
            }
        }
        #[no_mangle] pub extern "C" fn $prove() {
            // bits of the exponents; products of two unknowns are decided for one small factor at a time
            let xb = param("xbits", 64) as u32;
            let mut x = [[(0i64, 1i64); 3]; if $nd == 0 { 1 } else { $nd }];
            for a in 0..$nd { for g in 0..3 {
                let v = ((input(XN[a][g], xb) << (64 - xb)) as i64) >> (64 - xb);
                x[a][g].0 = if xb < 8 { pick(v as u64) as i64 } else { v };
                if RATIONAL { assume(x[a][g].0 != i64::MIN); }
            } }
            let ib = param("ibits", 32) as u32;
            let $i = if $ni == 1 { ((input("i", ib) << (32 - ib)) as i32) >> (32 - ib) } else { 1 };
            let $i = if ib < 8 { pick($i as u32 as u64) as i32 } else { $i };
            prove($nd, &x, $i, $e);
        }
        #[no_mangle] pub extern "C" fn $frac() {
            let mut x = [[(0i64, 1i64); 3]; if $nd == 0 { 1 } else { $nd }];
            let which = pick(input("field", 2)) as usize;
            assume(which < 3);
            for a in 0..$nd {
                x[a][which].0 = { let v = input(XN[a][which], 4) as i64; (v << 60) >> 60 };
                x[a][which].1 = pick(input(["den0", "den1"][a], 2)) as i64 + 1;
                // the invariant of the representation
                for p in [2, 3] { if x[a][which].1 % p == 0 { assume(x[a][which].0 % p != 0); } }
                if x[a][which].1 == 4 { assume(x[a][which].0 % 2 != 0); }
            }
            let $i = if $ni == 1 { pick(input("i", 3)) as i32 - 4 } else { 1 };
            prove($nd, &x, $i, $e);
        }
    };
}
'''
GEN_INT = r'''
const RATIONAL: bool = false;
fn mk(x: &[X; 3]) -> Dimension { Dimension { length: x[0].0, time: x[1].0, mass: x[2].0 } }
fn parts(d: Dimension) -> [X; 3] { [(d.length, 1), (d.time, 1), (d.mass, 1)] }
fn prove<const N: usize>(nd: usize, x: &[[X; 3]; N], i: i32, e: impl Fn(&[[X; 3]; N], i32) -> Dimension) {
    let den = param("den", 1) as i128;
    let mut want = [0i128; 3];
    let mut ok = true;
    for f in 0..3 {
        let mut s = 0i128;
        for a in 0..nd { for g in 0..3 { let k = coef(f, a * 3 + g); if k != 0 { s += k * x[a][g].0 as i128; } } }
        s *= i as i128;
        ok &= s % den == 0;
        want[f] = s / den + cons(f);
        ok &= want[f] >= i64::MIN as i128 && want[f] <= i64::MAX as i128;
        if param("integral", 0) == 1 { assume(s % den == 0); }
    }
    if branch(ok) {
        let r = parts(e(x, i));
        for f in 0..3 { check(r[f].0 == want[f] as i64, ["field 0", "field 1", "field 2"][f]); }
        reach("end");
    } else {
        reach("rejected");
        expect_panic(true);
        let r = parts(e(x, i));
        out("n0", r[0].0 as u64);
        out("n1", r[1].0 as u64);
        out("n2", r[2].0 as u64);
    }
}
'''
GEN_RATIONAL = r'''
const RATIONAL: bool = true;
fn mk(x: &[X; 3]) -> Dimension { Dimension { length: Exponent::new(x[0].0, x[0].1), time: Exponent::new(x[1].0, x[1].1), mass: Exponent::new(x[2].0, x[2].1) } }
fn parts(d: Dimension) -> [X; 3] { [(d.length.num(), d.length.denom()), (d.time.num(), d.time.denom()), (d.mass.num(), d.mass.denom())] }
fn prove<const N: usize>(nd: usize, x: &[[X; 3]; N], i: i32, e: impl Fn(&[[X; 3]; N], i32) -> Dimension) {
    let den = param("den", 1) as i128;
    // value of field f is num[f] / dd[f]
    let (mut num, mut dd) = ([0i128; 3], [1i128; 3]);
    let mut ok = true;
    for f in 0..3 {
        for a in 0..nd { for g in 0..3 { let k = coef(f, a * 3 + g); if k != 0 { dd[f] *= x[a][g].1 as i128; } } }
        for a in 0..nd { for g in 0..3 { let k = coef(f, a * 3 + g); if k != 0 { num[f] += k * x[a][g].0 as i128 * (dd[f] / x[a][g].1 as i128); } } }
        num[f] = num[f] * i as i128 + cons(f) * den * dd[f];
        dd[f] *= den;
        if param("integral", 0) == 1 { assume(num[f] % dd[f] == 0); }
        ok &= num[f] > i64::MIN as i128 && num[f] <= i64::MAX as i128;
    }
    if branch(ok) {
        let r = parts(e(x, i));
        for f in 0..3 {
            let q = pick(r[f].1 as u64) as i64;
            check(q > 0 && r[f].0 as i128 * dd[f] == num[f] * q as i128, ["field 0", "field 1", "field 2"][f]);
        }
        reach("end");
    } else {
        // numerators that large may still fit after reduction
        reach("rejected");
    }
}
'''
