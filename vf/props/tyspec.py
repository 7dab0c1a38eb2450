"""What the type layer has to accept, and the dimensions of what comes out (parts of C01, C02, C04, C05, C17, C18, C21)."""
import concurrent.futures as cf
from .. import core, types
from ..types import And, Or, Not, Eq, TRAIT_PATHS, Unsupported

REFS = ("v", "r", "m")
SYM = {"v": "", "r": "&", "m": "&mut "}
FLOATS = ("f64", "f32")


def wrap(f, t):
    return t if f == "v" else ("ref", f == "m", t)


def S(s):
    return ("S", s)


def Q(s, d):
    return ("P", "Quantity", (S(s), ("dim", d)))


def U(d, f="FA"):
    return ("P", "Unit", (("dim", d), ("const", f)))


def R(d):
    return ("P", "RuntimeUnit", (("dim", d),))


def base_of(s):
    return "f64" if s in ("f64", "glam::DVec2", "glam::DVec3") else "f32"


MAG = {"FA": "{ Magnitude { mantissa: 4503599627370496, exponent: -52, sign: 1 } }",
       "FB": "{ Magnitude { mantissa: 4503599627370496, exponent: -51, sign: 1 } }"}


class Spec:
    def __init__(self, L):
        self.L, self.c = L, L.c
        self.a, self.b = L.dimvars("a"), L.dimvars("b")
        self.zero = ("0", "0", "0")
        self.names = list(self.a) + list(self.b)
        self.samples = []
        self.sample_dims = [(0, 0, 0), (1, 0, 0), (2, -1, 4), (6, 0, 12)]
        self.seen = set()

    def same(self, x, y):
        return And(*[Eq(p, q) for p, q in zip(x, y)])

    def plus(self, x, y):
        return tuple(f"(+ {p} {q})" for p, q in zip(x, y))

    def minus(self, x, y):
        return tuple(f"(- {p} {q})" for p, q in zip(x, y))

    def neg(self, x):
        return tuple(f"(- {p})" for p in x)

    def times(self, k, x):
        return tuple(f"(* {k} {p})" for p in x)

    def over(self, k, x):
        return tuple(f"(/ {p} {k})" if self.L.rational else f"(div {p} {k})" for p in x)

    def divisible(self, k, x):
        return True if self.L.rational else And(*[f"(= 0 (mod {p} {k}))" for p in x])

    def fits(self, x):
        return True if self.L.rational else And(*[f"(<= {types.LO} {p} {types.HI})" for p in x])

    # ---- deciding one claim
    def never(self, what, f, line):
        """no dimensions satisfy f; line(model): what rustc would accept if they did"""
        return self.L.decide(what, f, self.names, self.L.ranges(self.a, self.b), line, False)

    def always(self, what, f, line):
        return self.L.decide(what, Not(f), self.names, self.L.ranges(self.a, self.b), line, True)

    def implies(self, what, pre, f, line):
        return self.L.decide(what, And(pre, Not(f)), self.names, self.L.ranges(self.a, self.b), line, True)

    # ---- lines of Rust
    def rs(self, t, m):
        return self.fix(self.L.rs(t, m))

    def fix(self, s):
        for k, v in MAG.items():
            s = s.replace(k, v)
        return s

    CALLS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Div": "div", "AddAssign": "add_assign", "SubAssign": "sub_assign",
             "MulAssign": "mul_assign", "DivAssign": "div_assign", "PartialEq": "eq", "PartialOrd": "partial_cmp", "Neg": "neg"}

    def bound(self, trait, args, me, out=None):
        def op(m):
            fn = self.CALLS[trait]
            l = self.rs(me, m)
            if trait == "Neg":
                ps, call = f"a: {l}", "(a)"
                tr = TRAIT_PATHS[trait]
            else:
                r = self.rs(args[0], m)
                ps = f"mut a: {l}, b: {r}"
                call = "(&mut a, b)" if trait.endswith("Assign") else "(&a, &b)" if trait.startswith("Partial") else "(a, b)"
                tr = f"{TRAIT_PATHS[trait]}<{r}>"
            o = "" if out is None else ": " + self.rs(out, m)
            return f"pub fn f{len(self.c_lines())}({ps}) {{ let x{o} = <{l} as {tr}>::{fn}{call}; }}"
        if trait in self.CALLS:
            return op

        def line(m):
            a = ", ".join(self.rs(x, m) for x in args)
            if out is not None:
                a = ", ".join(x for x in (a, "Output = " + self.rs(out, m)) if x)
            return f"pub fn f() {{ fn c<T: 'static + {TRAIT_PATHS[trait]}{'<' + a + '>' if a else ''}>() {{}} c::<{self.rs(me, m)}>() }}".replace("fn f()", f"fn f{len(self.c_lines())}()")
        return line

    def c_lines(self):
        self._n = getattr(self, "_n", 0) + 1
        return range(self._n)

    def call(self, name, me, args, out=None, ints=None):
        def line(m):
            ps = ", ".join(f"a{i}: {self.rs(x, m)}" for i, x in enumerate(args))
            g = "" if ints is None else f"::<{ints}>" if not isinstance(ints, str) else f"::<{{ {int(m.get(ints, 0))} }}>"
            o = "" if out is None else f": {self.rs(out, m)}"
            n = len(self.c_lines())
            return f"pub fn f{n}(me: {self.rs(me, m)}{', ' + ps if ps else ''}) {{ let x{o} = me.{name}{g}({', '.join(f'a{i}' for i in range(len(args)))}); }}" + (" //build" if name in ("sqrt", "cbrt") else "")
        return line

    def static(self, name, me, args, out=None):
        def line(m):
            ps = ", ".join(f"a{i}: {self.rs(x, m)}" for i, x in enumerate(args))
            o = "" if out is None else f": {self.rs(out, m)}"
            n = len(self.c_lines())
            return f"pub fn f{n}({ps}) {{ let x{o} = <{self.rs(me, m)}>::{name}({', '.join(f'a{i}' for i in range(len(args)))}); }}"
        return line

    def dims_of(self, t):
        """(kind, storage, dims) of an output type"""
        if t is None:
            return None
        if t[0] == "P" and t[1] == "Quantity":
            return ("Q", t[2][0], t[2][1][1])
        if t[0] == "P" and t[1] == "Unit":
            return ("U", None, t[2][0][1])
        if t[0] == "P" and t[1] == "RuntimeUnit":
            return ("U", None, t[2][0][1])
        return ("S", t, self.zero)

    def out_is(self, o, kind, dims, storage=None):
        d = self.dims_of(o)
        if d is None or d[0] != kind:
            # a bare number is as good as a dimensionless quantity
            if d is not None and kind == "Q" and d[0] == "S" and (storage is None or d[1] == storage):
                return self.same(self.zero, dims)
            return False
        if storage is not None and kind == "Q" and d[1] != storage:
            return False
        return self.same(d[2], dims)

    def sample(self, what, acc, line, rng):
        """a model check with rustc at concrete dimensions"""
        for _ in range(2):
            m = {}
            d1 = rng.choice(self.sample_dims)
            d2 = d1 if rng.random() < .5 else rng.choice(self.sample_dims)
            for n, v in zip(self.names, d1 + d2):
                m[n] = types.F(v)
            self.samples.append((what + " " + str([str(x) for x in m.values()]), line(m), self.holds_at(acc, m)))

    def holds_at(self, f, m):
        if isinstance(f, bool):
            return f
        a, _ = self.L.smt.check([f] + [f"(= {n} {types.num(v)})" for n, v in m.items()])
        return a == "sat"

    def guard(self, what, fn):
        self.L.focus, self.L.partial = [], set()
        try:
            n = len(self.L.probes)
            fn()
            if self.L.partial and len(self.L.probes) == n:
                self.c.error(f"{self.L.config}: {what}: decided at one point only: " + "; ".join(sorted(self.L.partial)))
        except Unsupported as e:
            self.c.error(f"{self.L.config}: {what}: {e}")

    # ---- C01
    def c01(self):
        L, a, b, Z = self.L, self.a, self.b, self.zero
        st = L.storages
        must = {("Add", x, y) for x in "vr" for y in "vr"} | {("Sub", x, y) for x in "vr" for y in "vr"} \
            | {(o, x, y) for o in ("AddAssign", "SubAssign") for x in "vm" for y in "vr"} \
            | {(o, x, y) for o in ("PartialEq", "PartialOrd") for x, y in ("vv", "vr", "rv", "rr", "mm")}
        for op in ("Add", "Sub", "AddAssign", "SubAssign", "PartialEq", "PartialOrd"):
            for s1 in st:
                for s2 in st:
                    if s1 != s2 and (s1 not in FLOATS or s2 not in FLOATS) and not self.c.thorough:
                        continue
                    for f1 in REFS:
                        for f2 in REFS:
                            what = f"{SYM[f1]}Quantity<{s1}, A> {op} {SYM[f2]}Quantity<{s2}, B>"

                            def one():
                                x, y = wrap(f1, Q(s1, a)), wrap(f2, Q(s2, b))
                                acc, outs = L.op(op, x, y)
                                line = self.bound(op, (y,), x)
                                self.never(what + " with different dimensions", And(acc, Not(self.same(a, b))), line)
                                if op in ("Add", "Sub"):
                                    for c_, o in outs:
                                        self.never(what + ": dimension of the result", And(c_, Not(self.out_is(o, "Q", a, S(s1) if s1 == s2 else None))), self.bound(op, (y,), x, o))
                                cmp_vec = op == "PartialOrd" and s1 not in FLOATS
                                if s1 == s2 and (op, f1, f2) in must and not cmp_vec:
                                    self.implies(what + " with equal dimensions", self.same(a, b), acc, line)
                                if s1 == s2 and s1 in ("f64", "glam::DVec2") and not cmp_vec:
                                    self.sample(what, acc, line, self.c.rng)
                            self.guard(what, one)
        # numbers
        nm = {("Add", x, y) for x in "vr" for y in "vr"} | {("Sub", x, y) for x in "vr" for y in "vr"}
        qn = nm | {(o, x, y) for o in ("AddAssign", "SubAssign") for x in "vm" for y in "vr"} | {("PartialEq", "v", "v"), ("PartialOrd", "v", "v")}
        sn = nm | {(o, "v", y) for o in ("AddAssign", "SubAssign") for y in "vr"} | {("PartialEq", "v", "v"), ("PartialOrd", "v", "v")}
        for op in ("Add", "Sub", "AddAssign", "SubAssign", "PartialEq", "PartialOrd"):
            for s1 in st:
                for s2 in st:
                    if s1 != s2 and (s1 not in FLOATS or s2 not in FLOATS) and not self.c.thorough:
                        continue
                    for f1 in REFS:
                        for f2 in REFS:
                            for left in (True, False):
                                what = f"{SYM[f1]}{'Quantity<' + s1 + ', A>' if left else s1} {op} {SYM[f2]}{s2 if left else 'Quantity<' + s2 + ', A>'}"

                                def one():
                                    x = wrap(f1, Q(s1, a) if left else S(s1))
                                    y = wrap(f2, S(s2) if left else Q(s2, a))
                                    acc, outs = L.op(op, x, y)
                                    line = self.bound(op, (y,), x)
                                    self.never(what + " with a dimension", And(acc, Not(self.same(a, Z))), line)
                                    for c_, o in outs:
                                        self.never(what + ": dimension of the result", And(c_, Not(self.out_is(o, "Q", Z))), self.bound(op, (y,), x, o))
                                    if s1 == s2 and (op, f1, f2) in (qn if left else sn) and not (op == "PartialOrd" and s1 not in FLOATS):
                                        self.implies(what + " without dimension", self.same(a, Z), acc, line)
                                    if s1 == s2 and s1 in ("f32",):
                                        self.sample(what, acc, line, self.c.rng)
                                self.guard(what, one)
        # scaling in place
        for op in ("MulAssign", "DivAssign"):
            for s1 in st:
                for s2 in st:
                    for f1 in REFS:
                        for f2 in REFS:
                            what = f"{SYM[f1]}Quantity<{s1}, A> {op} {SYM[f2]}Quantity<{s2}, B>"

                            def one():
                                x, y = wrap(f1, Q(s1, a)), wrap(f2, Q(s2, b))
                                acc, _ = L.op(op, x, y)
                                line = self.bound(op, (y,), x)
                                self.never(what + " with a dimension on the right", And(acc, Not(self.same(b, Z))), line)
                                if (s1 == s2 or base_of(s1) == s2) and f1 in "vm" and f2 in "vr":
                                    self.implies(what + " without dimension on the right", self.same(b, Z), acc, line)
                                if s1 == s2 == "f64":
                                    self.sample(what, acc, line, self.c.rng)
                                acc, _ = L.op(op, wrap(f1, S(s1)), y)
                                line = self.bound(op, (y,), wrap(f1, S(s1)))
                                self.never(f"{SYM[f1]}{s1} {op} {SYM[f2]}Quantity<{s2}, B> with a dimension on the right", And(acc, Not(self.same(b, Z))), line)
                                if s1 == s2 and f1 == "v" and f2 in "vr":
                                    self.implies(f"{s1} {op} {SYM[f2]}Quantity<{s2}, B> without dimension", self.same(b, Z), acc, line)
                                x2, y2 = wrap(f1, Q(s1, a)), wrap(f2, S(s2))
                                acc, _ = L.op(op, x2, y2)
                                line = self.bound(op, (y2,), x2)
                                if s1 == s2 and f1 == "v" and f2 in "vr":
                                    self.always(f"{SYM[f1]}Quantity<{s1}, A> {op} {SYM[f2]}{s2}", acc, line)
                            self.guard(what, one)

    # ---- C02
    def c02(self):
        L, a, b, Z = self.L, self.a, self.b, self.zero
        st = L.storages
        for op in ("Mul", "Div"):
            want = self.plus(a, b) if op == "Mul" else self.minus(a, b)
            for s1 in st:
                for s2 in st:
                    for f1 in REFS:
                        for f2 in REFS:
                            what = f"{SYM[f1]}Quantity<{s1}, A> {op} {SYM[f2]}Quantity<{s2}, B>"

                            def one():
                                x, y = wrap(f1, Q(s1, a)), wrap(f2, Q(s2, b))
                                acc, outs = L.op(op, x, y)
                                line = self.bound(op, (y,), x)
                                for c_, o in outs:
                                    self.never(what + ": dimension of the result", And(c_, Not(self.out_is(o, "Q", want))), self.bound(op, (y,), x, o))
                                self.never(what + " when an exponent does not fit", And(acc, Not(self.fits(want))), line)
                                if s1 == s2 and f1 in "vr" and f2 in "vr" and s1 in FLOATS:
                                    self.implies(what, self.fits(want), acc, line)
                                if s1 == s2 == "f64" or (s1, s2) == ("glam::DVec2", "f64"):
                                    self.sample(what, acc, line, self.c.rng)
                            self.guard(what, one)
                            for left in (True, False):
                                what2 = f"{SYM[f1]}{'Quantity<' + s1 + ', A>' if left else s1} {op} {SYM[f2]}{s2 if left else 'Quantity<' + s2 + ', A>'}"

                                def two():
                                    x = wrap(f1, Q(s1, a) if left else S(s1))
                                    y = wrap(f2, S(s2) if left else Q(s2, a))
                                    acc, outs = L.op(op, x, y)
                                    line = self.bound(op, (y,), x)
                                    w = a if left or op == "Mul" else self.neg(a)
                                    for c_, o in outs:
                                        self.never(what2 + ": dimension of the result", And(c_, Not(self.out_is(o, "Q", w))), self.bound(op, (y,), x, o))
                                    self.never(what2 + " when an exponent does not fit", And(acc, Not(self.fits(w))), line)
                                    if s1 == s2 and f1 in "vr" and f2 in "vr":
                                        self.implies(what2, self.fits(w), acc, line)
                                    if s1 == s2 == "f32":
                                        self.sample(what2, acc, line, self.c.rng)
                                self.guard(what2, two)
        for s in st:
            for f in REFS:
                def one():
                    x = wrap(f, Q(s, a))
                    acc, outs = [], []
                    for c_, o in L.holds("Neg", (), x):
                        acc.append(c_)
                        o = o("Output") if callable(o) else o
                        self.never(f"-{SYM[f]}Quantity<{s}>: dimension", And(c_, Not(self.out_is(o, "Q", a))), self.bound("Neg", (), x, o))
                    if f == "v":
                        self.always(f"-Quantity<{s}>", Or(*acc), self.bound("Neg", (), x))
                self.guard("Neg", one)
        L.smt.var("I", "Int")
        for s in st:
            fl = s in FLOATS
            table = [("squared", self.times(2, a), True, None), ("cubed", self.times(3, a), True, None), ("powi", self.times("I", a), True, "I")]
            roots = L.config != "nostd"
            if roots:
                table += [("sqrt", self.over(2, a), self.divisible(2, a), None), ("cbrt", self.over(3, a), self.divisible(3, a), None)]
            for name, want, dom, ints in table:
                what = f"Quantity<{s}>::{name}"

                def one():
                    x = Q(s, a)
                    ms = L.methods(name, x, (), (ints,) if ints else ())
                    names = self.names + (["I"] if ints else [])
                    rng_ = L.ranges(a, b) + (["(<= (- 2147483648) I 2147483647)"] if ints else []) + L.integral_roots(name, a)
                    acc = Or(*[c_ for c_, _ in ms])
                    line = self.call(name, x, (), None, ints)
                    for c_, o in ms:
                        L.decide(what + ": dimension of the result", And(c_, Not(self.out_is(o, "Q", want))), names, rng_, self.call(name, x, (), o, ints), False)
                    L.decide(what + ": dimension not integral or too large", And(acc, Not(And(dom, self.fits(want)))), names, rng_, line, False)
                    if fl:
                        L.decide(what + ": accepted", And(dom, self.fits(want), Not(acc)), names, rng_, line, True)
                    if fl and not ints:
                        self.sample(what, acc, line, self.c.rng)
                self.guard(what, one)

    # ---- C04
    def c04(self):
        L, a, b, Z = self.L, self.a, self.b, self.zero
        for s in L.storages:
            for u in ("U", "R"):
                ua, ub = (U(a), U(b, "FB")) if u == "U" else (R(a), R(b))
                rows = [("Mul", S(s), ua, a), ("Mul", ua, S(s), a), ("Div", S(s), ua, self.neg(a)), ("Div", ua, S(s), a),
                        ("Mul", Q(s, a), ub, self.plus(a, b)), ("Mul", ua, Q(s, b), self.plus(a, b)),
                        ("Div", Q(s, a), ub, self.minus(a, b)), ("Div", ua, Q(s, b), self.minus(a, b))]
                for op, x, y, want in rows:
                    what = f"{self.L.rs(x, {}) if x[0] == 'S' else x[1]} {op} {y[1]} for {s}"

                    def one():
                        acc, outs = L.op(op, x, y)
                        line = self.bound(op, (y,), x)
                        for c_, o in outs:
                            self.never(what + ": dimension of the result", And(c_, Not(self.out_is(o, "Q", want, S(s)))), self.bound(op, (y,), x, o))
                        self.never(what + " when an exponent does not fit", And(acc, Not(self.fits(want))), line)
                        # glam's vectors cannot be scaled by a factor of units, so vector quantities cannot either
                        needs = s in FLOATS or "S" in (x[0], y[0]) and not (op == "Div" and x[0] == "P")
                        if needs:
                            self.implies(what, self.fits(want), acc, line)
                        if s in ("f64", "glam::Vec3"):
                            self.sample(what, acc, line, self.c.rng)
                    self.guard(what, one)

                def new():
                    ms = L.methods("new", ua, (S(s),))
                    for c_, o in ms:
                        self.never(f"{ua[1]}::new({s}): dimension", And(c_, Not(self.out_is(o, "Q", a, S(s)))), self.call("new", ua, (S(s),), o))
                    if s in FLOATS:
                        self.always(f"{ua[1]}::new({s})", Or(*[c_ for c_, _ in ms]), self.call("new", ua, (S(s),)))
                self.guard("new", new)
        kinds = {"Unit": (U(a), U(b, "FB")), "RuntimeUnit": (R(a), R(b))}
        for k1, (x, _) in kinds.items():
            for k2, (_, y) in kinds.items():
                for op in ("Mul", "Div"):
                    want = self.plus(a, b) if op == "Mul" else self.minus(a, b)

                    def one():
                        acc, outs = L.op(op, x, y)
                        line = self.bound(op, (y,), x)
                        for c_, o in outs:
                            self.never(f"{k1} {op} {k2}: dimension of the result", And(c_, Not(self.out_is(o, "U", want))), self.bound(op, (y,), x, o))
                        self.never(f"{k1} {op} {k2} when an exponent does not fit", And(acc, Not(self.fits(want))), line)
                        if k1 == k2 == "Unit":
                            self.implies(f"{k1} {op} {k2}", self.fits(want), acc, line)
                        self.sample(f"{k1} {op} {k2}", acc, line, self.c.rng)
                    self.guard(f"{k1} {op} {k2}", one)

    # ---- C05
    def c05(self):
        L, a, b = self.L, self.a, self.b
        for s in L.storages:
            for u in (U(b), R(b)):
                what = f"Quantity<{s}, A>::value_in({u[1]}<B>)"

                def one():
                    x = Q(s, a)
                    ms = L.methods("value_in", x, (u,))
                    acc = Or(*[c_ for c_, _ in ms])
                    line = self.call("value_in", x, (u,))
                    self.never(what + " with a unit of another dimension", And(acc, Not(self.same(a, b))), line)
                    if s in FLOATS:
                        self.implies(what + " with a unit of its dimension", self.same(a, b), acc, line)
                    for c_, o in ms:
                        self.never(what + ": result", And(c_, Not(o == S(s))), self.call("value_in", x, (u,), o))
                    self.sample(what, acc, line, self.c.rng)
                self.guard(what, one)
            for arg in (S("f64"), S("f32"), Q(s, b), Q("f64", b)):
                def other():
                    ms = L.methods("value_in", Q(s, a), (arg,))
                    self.never(f"Quantity<{s}>::value_in({arg[1]})", Or(*[c_ for c_, _ in ms]), self.call("value_in", Q(s, a), (arg,)))
                self.guard("value_in", other)

    # ---- C17
    PURE = ("log2 ln log10 exp exp2 ceil floor sin cos tan asin acos atan sinh cosh tanh asinh acosh atanh exp_m1 ln_1p").split()
    MORE_PURE = "round trunc fract signum recip powf log atan2 sin_cos exp10 to_degrees to_radians gamma rem_euclid div_euclid sqrt_unchecked".split()

    def c17(self):
        L, a, b, Z = self.L, self.a, self.b, self.zero
        for s in FLOATS:
            x = Q(s, a)
            for name in self.PURE + self.MORE_PURE:
                what = f"Quantity<{s}>::{name}"

                def one():
                    ms = L.methods(name, x, ())
                    acc = Or(*[c_ for c_, _ in ms])
                    line = self.call(name, x, ())
                    self.never(what + " with a dimension", And(acc, Not(self.same(a, Z))), line)
                    for c_, o in ms:
                        self.never(what + ": result", And(c_, Not(self.out_is(o, "Q", Z, S(s)))), self.call(name, x, (), o))
                    if name in self.PURE and L.config != "nostd":
                        # through the quantity's own method or by dereferencing to the number
                        self.implies(what + " without dimension", self.same(a, Z), Or(acc, L.deref(x)), line)
                        self.sample(what, Or(acc, L.deref(x)), line, self.c.rng)
                self.guard(what, one)
            for name in ("abs",):
                def one():
                    ms = L.methods(name, x, ())
                    for c_, o in ms:
                        self.never(f"Quantity<{s}>::{name}: dimension", And(c_, Not(self.out_is(o, "Q", a, S(s)))), self.call(name, x, (), o))
                    self.always(f"Quantity<{s}>::{name}", Or(*[c_ for c_, _ in ms]), self.call(name, x, ()))
                self.guard(name, one)
            for name, n in (("min", 1), ("max", 1), ("clamp", 2)):
                what = f"Quantity<{s}>::{name}"

                def one():
                    for arg, ok in ((Q(s, b), self.same(a, b)), (S(s), self.same(a, Z))):
                        ms = L.methods(name, x, (arg,) * n)
                        acc = Or(*[c_ for c_, _ in ms])
                        line = self.call(name, x, (arg,) * n)
                        self.never(what + f"({arg[1]}) with another dimension", And(acc, Not(ok)), line)
                        self.implies(what + f"({arg[1]})", ok, acc, line)
                        for c_, o in ms:
                            self.never(what + f"({arg[1]}): dimension", And(c_, Not(self.out_is(o, "Q", a, S(s)))), self.call(name, x, (arg,) * n, o))
                        self.sample(what + f"({arg[1]})", acc, line, self.c.rng)
                self.guard(what, one)

            def zero():
                ms = L.methods("zero", x, ())
                for c_, o in ms:
                    self.never(f"Quantity<{s}>::zero: dimension", And(c_, Not(self.out_is(o, "Q", a, S(s)))), self.static("zero", x, (), o))
                self.always(f"Quantity<{s}>::zero", Or(*[c_ for c_, _ in ms]), self.static("zero", x, ()))
            self.guard("zero", zero)
            for name in ("is_positive", "is_positive_or_zero", "is_negative", "is_negative_or_zero", "is_nan"):
                def pred():
                    ms = L.methods(name, x, ())
                    self.always(f"Quantity<{s}>::{name}", Or(*[And(c_, o == S("bool")) for c_, o in ms]), self.call(name, x, ()))
                self.guard(name, pred)

    # ---- C18
    def c18(self):
        L, a, b, Z = self.L, self.a, self.b, self.zero
        for s in L.vecs:
            f = base_of(s)
            n = int(s[-1])
            x, q = Q(s, a), Q(f, b)
            SELF = ("ref", False, Q(s, b))
            same = self.same(a, b)
            rows = [("new", (q,) * n, same, x, True)]
            rows += [(f"new_{c}", (q,), same, x, True) for c in "xyz"[:n]]
            rows += [(c, (), True, Q(f, a), False) for c in "xyz"[:n]]
            rows += [(f"set_{c}", (q,), same, None, False) for c in "xyz"[:n]]
            rows += [("zero", (), True, x, True), ("min", (Q(s, b),), same, x, False), ("max", (Q(s, b),), same, x, False), ("abs", (), True, x, False),
                     ("length", (), True, Q(f, a), False), ("distance", (SELF,), same, Q(f, a), False),
                     ("distance_squared", (SELF,), And(same, self.fits(self.times(2, a))), Q(f, self.times(2, a)), False),
                     ("normalize", (), True, Q(s, Z), False), ("dot", (Q(s, b),), self.fits(self.plus(a, b)), Q(f, self.plus(a, b)), False)]
            for name, args, dom, out, st in rows:
                what = f"Quantity<{s}>::{name}"

                def one():
                    ms = L.methods(name, x, args)
                    acc = Or(*[c_ for c_, _ in ms])
                    mk = self.static if st else self.call
                    me = x
                    line = mk(name, me, args)
                    if name.startswith("set_"):
                        line = lambda m, line=line: line(m).replace("(me:", "(mut me:")
                    self.never(what + " with other dimensions", And(acc, Not(dom)), line)
                    self.implies(what, dom, acc, line)
                    if out is not None:
                        k = self.dims_of(out)
                        for c_, o in ms:
                            self.never(what + ": result", And(c_, Not(self.out_is(o, "Q", k[2], k[1]))), mk(name, me, args, o))
                    self.sample(what, acc, line, self.c.rng)
                self.guard(what, one)

    # ---- C21
    def c21(self):
        L, a, b, Z = self.L, self.a, self.b, self.zero
        for s in L.storages:
            x = Q(s, a)
            bare = [S(s), ("ref", False, S(s)), ("ref", True, S(s))]
            for name in ("value", "value_ref"):
                def one():
                    ms = L.methods(name, x, ())
                    acc = Or(*[c_ for c_, _ in ms])
                    self.never(f"Quantity<{s}>::{name} with a dimension", And(acc, Not(self.same(a, Z))), self.call(name, x, ()))
                    self.implies(f"Quantity<{s}>::{name} without dimension", self.same(a, Z), acc, self.call(name, x, ()))
                    self.sample(f"Quantity<{s}>::{name}", acc, self.call(name, x, ()), self.c.rng)
                self.guard(name, one)
            for name in ("value_unchecked", "value_unchecked_ref"):
                def unc():
                    ms = L.methods(name, x, ())
                    self.always(f"Quantity<{s}>::{name}", Or(*[c_ for c_, _ in ms]), self.call(name, x, ()))
                self.guard(name, unc)

            def newu():
                ms = L.methods("new_unchecked", x, (S(s),))
                for c_, o in ms:
                    self.never("new_unchecked: dimension", And(c_, Not(self.out_is(o, "Q", a, S(s)))), self.static("new_unchecked", x, (S(s),), o))
                self.always(f"Quantity<{s}>::new_unchecked", Or(*[c_ for c_, _ in ms]), self.static("new_unchecked", x, (S(s),)))
            self.guard("new_unchecked", newu)
            # every other method that hands out or takes in the bare number
            names = sorted({m["name"] for i in L.impls if i["trait"] is None for m in i["methods"] if m["pub"]})
            for name in names:
                if "unchecked" in name:
                    continue

                def anyname():
                    for c_, o in L.methods(name, x, (), ("1",)):
                        if o in bare:
                            self.never(f"Quantity<{s}>::{name} hands out the number of a quantity with a dimension", And(c_, Not(self.same(a, Z))), self.call(name, x, ()))
                    if s in FLOATS:
                        for c_, o in L.methods(name, x, (S(s),), ("1",)):
                            d = self.dims_of(o)
                            if d and d[0] == "Q" and name not in ("min", "max", "clamp"):
                                self.never(f"Quantity<{s}>::{name} makes a quantity with a dimension of a number", And(c_, Not(self.same(a, Z))), self.static(name, x, (S(s),)))
                self.guard(name, anyname)

            def conv():
                for trait in ("From", "Into"):
                    for me, arg in ((x, S(s)), (S(s), x), (x, ("ref", False, S(s))), (S(s), ("ref", False, x)), (("ref", False, S(s)), ("ref", False, x)), (("ref", False, x), ("ref", False, S(s)))):
                        acc = Or(*[c_ for c_, _ in L.holds(trait, (arg,), me)])
                        line = self.bound(trait, (arg,), me)
                        self.never(f"{trait} between Quantity<{s}, A> and {s}", And(acc, Not(self.same(a, Z))), line)
                        if (trait, me, arg) in (("From", x, S(s)), ("Into", S(s), x)):
                            self.implies(f"{trait} of a number for a dimensionless quantity", self.same(a, Z), acc, line)
                            self.sample(f"{trait} {s}", acc, line, self.c.rng)
                    acc = Or(*[c_ for c_, _ in L.holds(trait, (Q(s, b),), x)])
                    self.never(f"{trait} between quantities of different dimensions", And(acc, Not(self.same(a, b))), self.bound(trait, (Q(s, b),), x))
            self.guard("conversions", conv)

            def deref():
                acc = L.deref(x)
                line = self.bound("Deref", (), x)
                self.never(f"dereferencing Quantity<{s}> with a dimension", And(acc, Not(self.same(a, Z))), line)
                self.implies(f"dereferencing Quantity<{s}> without dimension", self.same(a, Z), acc, line)
                self.sample("Deref", acc, line, self.c.rng)
                for t in ("DerefMut",):
                    acc = Or(*[c_ for c_, _, _ in L.search(t, (), x)])
                    self.never(f"{t} of Quantity<{s}> with a dimension", And(acc, Not(self.same(a, Z))), self.bound(t, (), x))
                for t in ("AsRef", "Borrow", "AsMut"):
                    acc = Or(*[c_ for c_, _, _ in L.search(t, (S(s),), x)])
                    self.never(f"{t} of Quantity<{s}> with a dimension", And(acc, Not(self.same(a, Z))), self.bound(t, (S(s),), x))
            self.guard("Deref", deref)

            def sums():
                acc = Or(*[c_ for c_, _ in L.holds("Sum", (Q(s, b),), x)])
                line = self.bound("Sum", (Q(s, b),), x)
                self.never(f"sum of quantities of another dimension", And(acc, Not(self.same(a, b))), line)
                self.implies(f"sum of quantities of the same dimension", self.same(a, b), acc, line)
                self.sample("Sum", acc, line, self.c.rng)
                acc = Or(*[c_ for c_, _ in L.holds("Sum", (S(s),), x)])
                self.never("sum of numbers to a quantity with a dimension", And(acc, Not(self.same(a, Z))), self.bound("Sum", (S(s),), x))
                if s in FLOATS:
                    acc = Or(*[c_ for c_, _ in L.holds("Default", (), x)])
                    self.always("default", acc, self.bound("Default", (), x))
            self.guard("Sum", sums)
        for f in L.structs["Quantity"]["fields"]:
            self.c.obligations += 1
            if f.get("vis") == "pub":
                self.c.error("the number of a quantity is a public field")
            else:
                self.c.discharged += 1


def run(c, prop, configs=("std", "rational", "nostd")):
    """the type-level part of a property, in several feature configurations at once"""
    def one(cfg):
        sub = c.sub()
        try:
            L = types.Layer(sub, cfg)
            s = Spec(L)
            getattr(s, prop.lower())()
            L.replay()
            if not sub.violations:
                L.validate(s.samples)
            L.close()
        except core.CheckError as e:
            sub.error(f"{cfg}: {e}")
        return sub
    with cf.ThreadPoolExecutor(3) as ex:
        for cfg, sub in zip(configs, ex.map(one, configs)):
            c.merge(sub)
    c.samples = c.samples[:12]
    c.bound("types: all integer dimension vectors (i64) resp. all rational ones over three base dimensions; storage types f32, f64, Vec2, DVec2, Vec3, DVec3 by value and by reference")
    c.bound("constant expressions in types: proved for all i64 exponents (sums, negations), 64-bit exponents times powers of 4 bits and 3-bit exponents times all i32 powers, 16-bit exponents for roots; rational exponents: all integers, and numerators of 4 bits over denominators to 4")
    c.assume("rustc implements trait selection as modelled (structural unification, where clauses, evaluable constant expressions); cross-checked against rustc on samples in every run")
