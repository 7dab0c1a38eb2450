"""Generated unit systems, through the real macro and the real compiler.

Each run writes unit systems (seeded), has the compiler expand and build them against /repo, and compares every generated
dimension, unit, constant, symbol and Debug suffix with an evaluator written here (exact rationals; results that doubles
cannot hold carry an error bound).  The row of each table is a symbolic variable; so is the number in front of a symbol."""
import concurrent.futures as cf
import decimal, os, random, re, shutil
from fractions import Fraction as Fr
from .. import core
from .macb import write
from .c13 import dbl, chunks

FEATS = {"int": [], "rational": ["rational"]}
PREF = [("exa", "E", 18), ("peta", "P", 15), ("tera", "T", 12), ("giga", "G", 9), ("mega", "M", 6), ("kilo", "k", 3),
        ("hecto", "h", 2), ("deca", "da", 1), ("deci", "d", -1), ("centi", "c", -2), ("milli", "m", -3),
        ("micro", "\u03bc", -6), ("nano", "n", -9), ("pico", "p", -12), ("femto", "f", -15), ("atto", "a", -18)]
SYL = ["ba", "ce", "di", "fo", "gu", "ka", "le", "mi", "no", "pu", "ra", "se", "ti", "vo", "zu", "wexl", "qit", "yor"]
KEYWORDS = ["Type", "Move", "Loop", "Box", "Yield", "Super", "Virtual", "Static", "Final"]
PER_TABLE = 60


def exact(f):
    try:
        return Fr(float(f)) == f
    except OverflowError:
        return False


class V:
    """a factor: an exact value and how many units in the last place the computed double may be off"""
    def __init__(self, f, e=0):
        self.f, self.e = Fr(f), e
        if not exact(self.f):
            self.e = max(e, 1)

    def of(self, f, e):
        return V(f, 0 if e == 0 and exact(f) else e + 1)

    def __mul__(self, o):
        return self.of(self.f * o.f, self.e + o.e)

    def __truediv__(self, o):
        return self.of(self.f / o.f, self.e + o.e)

    def range(self):
        b = dbl(self.f)
        return b - self.e, b + self.e

    def pow(self, n):
        # the reciprocal may be taken before or after the multiplications
        r = V(1)
        for _ in range(abs(n)):
            r = r * self
        return V(1) / r if n < 0 else r


class System:
    def __init__(self, name, rng, rational, size):
        self.name, self.r, self.rational = name, rng, rational
        self.taken, self.syms = set(), set()
        self.dims = {}       # name -> exponents
        self.units = {}      # name -> (exponents, V)
        self.consts = {}
        self.symbols = []    # (symbol, unit)
        self.one = []        # (exponents, symbol, V) in no particular order
        self.base_sym = []
        self.st = []
        self.types = rng.choice([("Quantity", "Dimension"), ("Qty", "Dim"), ("MyQuantity", "Exponents")])
        self.nb = rng.choice([1, 2, 3, 4, 6] if size < 3 else [2, 5, 9, 12])
        self.chain = []
        self.make(size)

    def zero(self):
        return (Fr(0),) * self.nb

    def fresh(self, style):
        while True:
            n = "".join(self.r.choice(SYL) for _ in range(self.r.choice([2, 2, 3])))
            if style == "dim":
                k = self.r.randrange(4)
                n = n.capitalize() if k else "".join(self.r.choice(SYL).capitalize() for _ in range(2))
                if k == 1:
                    n += str(self.r.randrange(10))
            if style == "const":
                n = n.upper()
            if style == "unit" and self.r.randrange(4) == 0:
                n += "_" + self.r.choice(SYL)
            if n.lower() not in self.taken:
                self.taken.add(n.lower())
                return n

    def unit_names(self, base, prefixes):
        return [base] + [p[0] + base for p in prefixes]

    # expressions
    def exponent(self):
        if self.rational and self.r.randrange(4) == 0:
            n, d = self.r.choice([1, 1, 3, -1, 2, -2]), self.r.choice([2, 2, 3, 4])
            return Fr(n, d), f"({n}/{d})"
        n = self.r.choice([2, 3, -1, -2, 1, 0, 4, -3])
        return Fr(n), self.r.choice([f"{n}", f"{n}", f" {n}"])

    def dim_atom(self):
        if self.r.randrange(8) == 0:
            return "1", self.zero()
        n = self.r.choice(list(self.dims))
        return n, self.dims[n]

    def dim_factor(self, depth):
        if depth and self.r.randrange(4) == 0:
            t, v = self.dim_expr(depth - 1)
            return f"({t})", v
        t, v = self.dim_atom()
        if t != "1" and self.r.randrange(3) == 0:
            e, et = self.exponent()
            return f"{t}^{et}", tuple(x * e for x in v)
        return t, v

    def dim_expr(self, depth=2):
        t, v = self.dim_factor(depth)
        for _ in range(self.r.choice([0, 1, 1, 2, 3])):
            o = self.r.choice(["*", "*", "/", "/", " "])
            t2, v2 = self.dim_factor(depth)
            if o == " " and not t2[0].isalpha():
                o = "*"
            t += f" {o} " if o != " " else " "
            t += t2
            v = tuple(a - b if o == "/" else a + b for a, b in zip(v, v2))
        return t, v

    def literal(self):
        k = self.r.randrange(9)
        if k == 0:
            n = self.r.randrange(1, 1000)
            return str(n), V(n)
        if k == 1:
            n = self.r.randrange(1000, 10 ** 7)
            t = f"{n:_}"
            return t, V(n)
        if k == 2:
            n = self.r.choice([1, 2, 5, 8])
            return f"{n}e{3}", V(n * 1000)
        if k == 3:
            return "0.5", V(Fr(1, 2))
        if k == 4:
            return "1.0", V(1)
        if k == 5:
            t = self.r.choice(["0.1", "0.3048", "6.626e-34", "1.602e-19", "149597870700.0", "0.45359237"])
            return t, V(Fr(float(t)))
        if k == 6:
            n = self.r.choice([2, 4, 16, 1024, 65536])
            return str(n), V(n)
        if k == 7:
            return "1", V(1)
        n = self.r.randrange(1, 64)
        return f"{n}.25", V(Fr(4 * n + 1, 4))

    def val_atom(self):
        if self.r.randrange(3) == 0:
            t, v = self.literal()
            return t, self.zero(), v
        pool = list(self.units.items()) + list(self.consts.items())
        n, (d, v) = self.r.choice(pool)
        return n, d, v

    def val_factor(self, depth):
        if depth and self.r.randrange(4) == 0:
            t, d, v = self.val_expr(depth - 1)
            return f"({t})", d, v
        t, d, v = self.val_atom()
        if self.r.randrange(4) == 0:
            e, et = self.exponent()
            if e.denominator != 1 and v.f != 1:
                return t, d, v
            if v.e and abs(e) > 1:
                return t, d, v
            nd = tuple(x * e for x in d)
            nv = v if e.denominator != 1 else v.pow(int(e))
            if self.rational and e != 1 and v.f != 1:
                nv = V(nv.f, nv.e + 2)      # a library power may be used
            return f"{t}^{et}", nd, nv
        return t, d, v

    def ok(self, v):
        return Fr(10) ** -250 < abs(v.f) < Fr(10) ** 250 and v.e <= 24

    def val_expr(self, depth=2):
        while True:
            t, d, v = self.val_factor(depth)
            for _ in range(self.r.choice([0, 1, 1, 1, 2, 3])):
                o = self.r.choice(["*", "*", "/", "/", " "])
                t2, d2, v2 = self.val_factor(depth)
                if o == " " and not t2[0].isalpha():
                    o = "*"
                t += (f" {o} " if o != " " else " ") + t2
                d = tuple(a - b if o == "/" else a + b for a, b in zip(d, d2))
                v = v / v2 if o == "/" else v * v2
            if self.ok(v):
                return t, d, v

    # statements
    def attrs(self, base, name):
        """(attributes, prefixes, aliases, symbol)"""
        a = []
        k = self.r.randrange(6)
        pre = []
        if k == 0:
            skip = self.r.sample(PREF, self.r.choice([0, 0, 1, 3]))
            pre = [p for p in PREF if p not in skip]
            a.append("#[metric_prefixes" + (f"(skip: {', '.join(p[0] for p in skip)})" if skip else "") + "]")
        elif k < 4:
            pre = self.r.sample(PREF, self.r.choice([1, 2, 3]))
            if len(pre) > 1 and self.r.randrange(2):
                a.append(f"#[prefix({', '.join(p[0] for p in pre[1:])})]")
                a.append(f"#[prefix({pre[0][0]})]")
            else:
                a.append(f"#[prefix({', '.join(p[0] for p in pre)})]")
        sym = None
        if base or self.r.randrange(2):
            for _ in range(200):
                s = self.r.choice(["", "", "q", "x", "L", "\u03a9", "w_"]) + self.r.choice("bgjlnoqrstuvwxyzABCDFHIJKLNOQRSUVWXYZ\u03b2\u03b8")
                new = [s] + [p[1] + s for p in pre]
                if len(set(new)) == len(new) and not (set(new) & self.syms) and s not in ("if", "in", "as", "do", "fn"):
                    self.syms |= set(new)
                    sym = s
                    a.append(f"#[symbol({s})]")
                    break
            else:
                raise RuntimeError("no symbol left")
        al = [self.fresh("unit") for _ in range(self.r.choice([0, 0, 1, 2]))]
        if al:
            if len(al) > 1 and self.r.randrange(2):
                a += [f"#[alias({x})]" for x in al]
            else:
                a.append(f"#[alias({', '.join(al)})]")
        return a, pre, al, sym

    def add_unit(self, name, d, v, pre, al, sym):
        for n in [name] + al:
            self.units[n] = (d, v)
            for p, ps, e in pre:
                # the prefix's power of ten is itself a double
                k = V(Fr(float(f"1e{e}")))
                w = V(k.f * v.f, 0 if exact(k.f * v.f) and v.e == 0 else v.e + 1)
                self.units[p + n] = (d, w)
                if n == name and sym:
                    self.symbols.append((ps + sym, p + n))
        if sym:
            self.symbols.append((sym, name))

    def statement(self, attrs, text):
        self.r.shuffle(attrs)
        return self.r.choice([" ", "\n    "]).join(attrs + [text])

    def make(self, size):
        nb, r = self.nb, self.r
        for i in range(nb):
            n = self.fresh("dim")
            if r.randrange(3) == 0:
                # a field of this name in lower case would be a keyword
                n = r.choice([x for x in KEYWORDS if x.lower() not in self.taken])
                self.taken.add(n.lower())
            self.dims[n] = tuple(Fr(int(i == j)) for j in range(nb))
            self.st.append(f"dimension {n};")
        bases = list(self.dims)
        self.bases = bases
        for _ in range(4 * size):
            t, v = self.dim_expr()
            if max(abs(x.numerator) for x in v) > 2000 or max(x.denominator for x in v) > 2000:
                continue
            n = self.fresh("dim")
            self.dims[n] = v
            self.st.append(f"dimension {n} = {t};")
        self.base_units = []
        for i, b in enumerate(bases):
            n = self.fresh("unit")
            a, pre, al, sym = self.attrs(True, n)
            a.append(f"#[base({b})]")
            ann = f": {b}" if r.randrange(3) == 0 else ""
            self.st.append(self.statement(a, f"unit {n}{ann};"))
            self.add_unit(n, self.dims[b], V(1), pre, al, sym)
            self.base_units.append(n)
            self.base_sym.append(sym)
        for _ in range(7 * size):
            t, d, v = self.val_expr()
            if max(abs(x.numerator) for x in d) > 2000 or max(x.denominator for x in d) > 2000:
                continue
            same = [k for k, x in self.dims.items() if x == d]
            ann = ""
            if not same and r.randrange(2):
                n = self.fresh("dim")
                # a dimension for it, written out
                t2 = "1"
                for b, e in zip(bases, d):
                    if e:
                        t2 += f" * {b}^" + (f"{e}" if e.denominator == 1 else f"({e.numerator}/{e.denominator})")
                self.dims[n] = d
                self.st.append(f"dimension {n} = {t2};")
                same = [n]
            if same and r.randrange(3):
                ann = f": {r.choice(same)}"
            if r.randrange(4) == 0:
                n = self.fresh("const")
                self.consts[n] = (d, v)
                self.st.append(f"constant {n}{ann} = {t};")
            else:
                n = self.fresh("unit")
                a, pre, al, sym = self.attrs(False, n)
                self.st.append(self.statement(a, f"unit {n}{ann} = {t};"))
                self.add_unit(n, d, v, pre, al, sym)
        # factors at the ends of the range of doubles, exponents at the ends of theirs
        if size > 1:
            for t in ["1e300", "1.7976931348623157e308", "2.2250738585072014e-308", "4.9406564584124654e-324", "1e-310", "9007199254740993", "0.1", "3.0000000000000004"]:
                n = self.fresh("unit")
                self.units[n] = (self.zero(), V(Fr(float(t))))
                self.st.append(f"unit {n} = {t};")
            # exponents that 32 bits do not hold, on factors close enough to one
            for t, e in [("1.0000000001", 2 ** 32), ("1.0000000001", -2 ** 31 - 1), ("0.9999999999", 3 * 2 ** 31 + 5), ("1.0000000000000002", 2 ** 50 + 1)]:
                n = self.fresh("unit")
                with decimal.localcontext() as cx:
                    cx.prec = 60
                    f = (decimal.Decimal(float(t)).ln() * e).exp()
                # a power by squaring loses about one bit per squaring
                self.units[n] = (self.zero(), V(Fr(f), 8 * abs(e)))
                self.st.append(f"unit {n} = {t}^{e};")
            # almost one is not one, and a symbol in another case is another symbol
            b = r.choice(bases)
            for e, t in enumerate(["1.0000000000000002", "0.9999999999999999", "1.001", "0.99", "1.02"], 11):
                n = self.fresh("dim")
                self.dims[n] = tuple(x * e for x in self.dims[b])
                self.st.append(f"dimension {n} = {b}^{e};")
                u = self.fresh("unit")
                s = self.r.choice(["zz", "zZ", "Zz", "ZZ"]) + "abcde"[e - 11]
                self.st.append(f"#[symbol({s})] unit {u} = {t} * {self.base_units[bases.index(b)]}^{e};")
                self.add_unit(u, self.dims[n], V(Fr(float(t))), [], [], s)
            u = self.fresh("unit")
            s = self.symbols[-1][0].swapcase()
            self.st.append(f"#[symbol({s})] unit {u} = 4.0;")
            self.add_unit(u, self.zero(), V(4), [], [], s)
            for e, i in enumerate(range(nb), 30):
                t = self.base_sym[i].swapcase()
                if t not in self.syms:
                    self.syms.add(t)
                    n, u = self.fresh("dim"), self.fresh("unit")
                    self.dims[n] = tuple(x * e for x in self.dims[bases[i]])
                    self.st.append(f"dimension {n} = {bases[i]}^{e};")
                    self.st.append(f"#[symbol({t})] unit {u} = {self.base_units[i]}^{e};")
                    self.add_unit(u, self.dims[n], V(1), [], [], t)
            for e in [2 ** 31 - 1, -2 ** 31, 10 ** 12]:
                n = self.fresh("dim")
                self.dims[n] = tuple(x * e for x in self.dims[b])
                self.st.append(f"dimension {n} = {b}^{e};")
        if size > 2:
            self.long()
        self.order = []
        for k in range(2):
            st = list(self.st)
            ty = [f"quantity_type {self.types[0]};", f"dimension_type {self.types[1]};"]
            if k or r.randrange(3) == 0:
                st += ty
                r.shuffle(st)
                # every link of the chains before what it refers to
                at = sorted(st.index(x) for x in self.chain)
                for i, x in zip(at, reversed(self.chain)):
                    st[i] = x
            else:
                st = ty + st
            # base dimensions stay in order of each other only for Debug, which goes by order of declaration
            self.order.append(st)

    def long(self):
        """long chains of references, long and deeply nested expressions, many aliases"""
        r = self.r

        def put(kind, t, d, v=None, chain=False):
            n = self.fresh(kind)
            if kind == "dim":
                self.dims[n] = d
                s = f"dimension {n} = {t};"
            elif kind == "const":
                self.consts[n] = (d, v)
                s = f"constant {n} = {t};"
            else:
                self.units[n] = (d, v)
                s = f"unit {n} = {t};"
            self.st.append(s)
            if chain:
                self.chain.append(s)
            return n
        add = lambda a, b, k: tuple(x + k * y for x, y in zip(a, b))
        n, d = r.choice(list(self.dims.items()))
        for i in range(40):
            b = r.choice(self.bases)
            k = r.choice([-1, 1])
            d = add(d, self.dims[b], k)
            n = put("dim", f"{n} {'*' if k > 0 else '/'} {b}", d, chain=True)
        b = r.choice(self.base_units)
        n, d, v = b, self.units[b][0], V(1)
        for i in range(60):
            b = r.choice(self.base_units)
            k, l = r.choice([-1, 1]), r.choice([2, 4, 3])
            d = add(d, self.units[b][0], k)
            if l == 3 and v.f > 1000:
                l = 2
            v = v * V(l) if r.randrange(2) or l == 3 else v / V(l)
            o = "*" if v.f > (self.consts.get(n) or self.units[n])[1].f else "/"
            n = put(r.choice(["unit", "unit", "const"]), f"{n} {o} {l} {'*' if k > 0 else '/'} {b}", d, v, chain=True)
        # one flat expression, one nested
        for nested in (False, True):
            u = r.choice(self.base_units)
            t, d, f, dt = u, self.units[u][0], V(1), self.bases[self.base_units.index(u)]
            for i in range(24 if nested else 70):
                u = r.choice(self.base_units)
                k, l = r.choice([-1, 1]), r.choice([1, 2, 4])
                b = self.bases[self.base_units.index(u)]
                o = "*" if k > 0 else "/"
                if nested and i % 3 == 0:
                    # on the right: turns what was before around
                    t, dt = f"{u} {o} ({t})", f"{b} {o} ({dt})"
                    d = add(self.units[u][0], d, k)
                    f = f if k > 0 else V(1) / f
                else:
                    t, dt = f"{t} {o} {u} * {l}", f"{dt} {o} {b}"
                    d = add(d, self.units[u][0], k)
                    f = f * V(l)
                    if nested:
                        t, dt = f"({t})", f"({dt})"
            put("unit", t, d, f)
            put("dim", dt, d)
        n = self.fresh("unit")
        al = [self.fresh("unit") for _ in range(20)]
        self.st.append(f"#[alias({', '.join(al)})] #[prefix(kilo)] unit {n} = 8;")
        self.add_unit(n, self.zero(), V(8), [x for x in PREF if x[0] == "kilo"], al, None)

    def declared(self, st):
        """indices of the base dimensions in order of declaration"""
        pos = {b: i for i, b in enumerate(self.bases)}
        return [pos[m] for s in st for m in re.findall(r"^dimension (\w+);$", s)]

    def suffixes(self, d, st):
        """all acceptable Debug suffixes of a dimension"""
        out, sure = [], False
        for s, u in self.symbols:
            e, v = self.units[u]
            if e != d:
                continue
            if v.e == 0 and v.f == 1:
                out.append(" " + s)
                sure = True
            elif v.range()[0] <= dbl(1) <= v.range()[1]:
                out.append(" " + s)
        if not sure:
            ts = [""]
            for i in self.declared(st):
                if d[i]:
                    # the base unit's symbol, or that of another unit that is the same
                    e = tuple(Fr(int(i == j)) for j in range(self.nb))
                    alt = {self.base_sym[i]} | {s for s, u in self.symbols if self.units[u][0] == e and self.units[u][1].range()[0] <= dbl(1) <= self.units[u][1].range()[1]}
                    x = "" if d[i] == 1 else f"^{d[i].numerator}" if d[i].denominator == 1 else f"^{d[i].numerator}/{d[i].denominator}"
                    ts = [t + " " + s + x for t in ts for s in sorted(alt)]
            out += ts
        return out

    def source(self, k):
        """module of the k-th order of this system"""
        st, nb, m = self.order[k], self.nb, f"{self.name}{'ab'[k]}"
        num = lambda d: "[" + ", ".join(str(x.numerator) for x in d) + "]"
        den = lambda d: "[" + ", ".join(str(x.denominator) for x in d) + "]"
        lst = lambda x: "[" + ", ".join(x) + "]"
        o = [f"pub mod {m} {{ use crate::sx::*; use crate::{{row, Show}};",
             "diman::unit_system!(\n    " + "\n    ".join(st) + "\n);",
             *([f"use self::{self.types[0]} as Quantity; use self::{self.types[1]} as Dimension;"] if self.types[0] != "Quantity" else []),
             f"helpers!({nb});",
             f"const BASES: [[i64; W]; {nb}] = " + lst(f"udim(units::{n})" for n in self.base_units) + ";"]
        tab = [(f"units::{n}", d, v) for n, (d, v) in self.units.items()] + [(f"constants::{n}", d, v) for n, (d, v) in self.consts.items()]
        for i, ch in enumerate(chunks(tab, PER_TABLE)):
            n = len(ch)
            lo, hi = zip(*(v.range() for _, _, v in ch))
            o.append(f"static U{i}: [[i64; W]; {n}] = {lst(f'udim({x})' for x, _, _ in ch)}; static UN{i}: [[i64; {nb}]; {n}] = {lst(num(d) for _, d, _ in ch)}; static UD{i}: [[i64; {nb}]; {n}] = {lst(den(d) for _, d, _ in ch)};")
            o.append(f"static L{i}: [u64; {n}] = {list(lo)}; static H{i}: [u64; {n}] = {list(hi)};")
            o.append(f"#[no_mangle] pub extern \"C\" fn gen_values_{m}_{i}() {{ let f: [f64; {n}] = {lst(f'fac({x})' for x, _, _ in ch)}; units(&U{i}, &UN{i}, &UD{i}, &f, &L{i}, &H{i}); }}")
        dt = list(self.dims.items())
        n = len(dt)
        o.append(f"static D: [[i64; W]; {n}] = {lst(f'qdim(pd::<dimensions::{x}<f64>>)' for x, _ in dt)}; static DN: [[i64; {nb}]; {n}] = {lst(num(d) for _, d in dt)}; static DD: [[i64; {nb}]; {n}] = {lst(den(d) for _, d in dt)};")
        o.append(f"#[no_mangle] pub extern \"C\" fn gen_dims_{m}() {{ dims(&D, &DN, &DD); }}")
        if k == 0:
            sy = self.symbols if len(self.symbols) <= 24 else random.Random(1).sample(self.symbols, 24)
            o.append(f"#[no_mangle] pub extern \"C\" fn gen_symbols_{m}() {{\n    match row({len(sy)}) {{")
            for i, (s, u) in enumerate(sy):
                lo, hi = self.units[u][1].range()
                o.append(f"        {i} => symbol(units::{u}, \"{s}\", {lo}, {hi}),")
            o.append("        _ => {}\n    }\n}")
        for i, ch in enumerate(chunks(dt, 24)):
            o.append(f"#[no_mangle] pub extern \"C\" fn gen_debug_{m}_{i}() {{\n    match row({len(ch)}) {{")
            for j, (x, d) in enumerate(ch):
                o.append(f"        {j} => debug(pd::<dimensions::{x}<Show>>, &[" + ", ".join(f"\"X{s}\"" for s in self.suffixes(d, st)) + "]),")
            o.append("        _ => {}\n    }\n}")
        for i, ch in enumerate(chunks(dt, 24)):
            if k == 0:
                o.append(f"#[no_mangle] pub extern \"C\" fn gen_roundtrip_{m}_{i}() {{\n    match row({len(ch)}) {{")
                o += [f"        {j} => roundtrip(pd::<dimensions::{x}<f64>>)," for j, (x, _) in enumerate(ch)]
                o.append("        _ => {}\n    }\n}")
        o.append("}")
        return "\n".join(o)


def build(c, cfg):
    root = os.path.join(core.BUILD, "gen-src-" + cfg)
    hs = os.path.join(core.VERIF, "harness")
    sys_ = []
    for i in range(12 if c.thorough else 3):
        rng = random.Random(f"{c.seed}/{i}/{cfg if i % 2 else ''}")
        sys_.append(System(f"s{i}", rng, cfg == "rational" and i % 2 == 1, 2 if i % 2 == 0 else 3))
    write(os.path.join(root, "src/lib.rs"), open(os.path.join(hs, "gen/lib.rs")).read())
    write(os.path.join(root, "src/sx.rs"), open(os.path.join(hs, "sx.rs")).read())
    write(os.path.join(root, "Cargo.toml"), open(os.path.join(hs, "gen/Cargo.toml")).read())
    if not os.path.exists(os.path.join(root, "Cargo.lock")):
        shutil.copy(os.path.join(hs, "gen/Cargo.lock"), os.path.join(root, "Cargo.lock"))
    write(os.path.join(root, "src/systems.rs"), "\n".join(s.source(k) for s in sys_ for k in range(2)) + "\n")
    return core.build_harness("gen", FEATS[cfg], cfg, src_dir=root), sys_


def refused(c, cfg, e, accept, names):
    """The generated systems are well-formed and define every name the harness uses."""
    heads = re.findall(r"^error(?:\[E\d+\])?: (.*)\n +--> ([^\s:]+):(\d+)", e.full, re.M)
    mine = [(m, int(n)) for m, f, n in heads if f.endswith("src/systems.rs")]
    gone = [x for x in mine if re.match(r"cannot find (value|type|constant|type alias)", x[0])]
    other = [x for x in mine if x not in gone]
    if isinstance(accept, str) and not all(re.match(accept, m) for m, _ in other):
        accept = False
    if heads and len(mine) == len(heads) and "could not compile `gen`" in e.full:
        first = (other if accept and other else gone if names and gone and not other else [None])[0]
        if first:
            d = os.path.join(c.replay_dir, "gen-" + cfg)
            shutil.copytree(os.path.join(core.BUILD, "gen-src-" + cfg), d, dirs_exist_ok=True)
            c.violate("gen-" + cfg, None, "well-formed system refused" if accept and other else "name not defined", {}, d, None, f"src/systems.rs:{first[1]}: {first[0]}")
            return
    c.error(str(e))


def run(c, kinds, cfgs=("int", "rational"), accept=False, names=True, opts=None):
    """kinds of entries: values, dims, symbols, debug, roundtrip; accept: whether refusing a system (with errors of which text) is a violation"""
    if c.violations:
        return
    s = c.sub()
    s.params = {}
    jobs = []

    def one(cfg):
        try:
            return cfg, build(s, cfg), None
        except core.CheckError as e:
            return cfg, None, e
    with cf.ThreadPoolExecutor(2) as ex:
        bs = list(ex.map(one, cfgs))
    n = rows = 0
    for cfg, b, e in bs:
        if e:
            refused(s, cfg, e, accept, names)
            continue
        b, sys_ = b
        n += 2 * len(sys_)
        rows += sum(2 * len(x.units) + 2 * len(x.consts) + 2 * len(x.dims) for x in sys_)
        jobs += [(b, x) for k in kinds for x in b.list(f"gen_{k}_")]
    if accept:
        # the compiler accepted them
        s.extra["generated_systems_accepted"] = n
    if jobs and not s.violations:
        s.run_jobs(jobs, {"*": {"time": 300, **(opts or {})}}, validate=1)
    s.extra["generated_systems"] = n
    s.extra["generated_names"] = rows
    c.merge(s)
    c.bound(f"{n} generated unit systems expanded and compiled by the real macro and compiler (seed {c.seed}; each in two orders of statements; 1 to 6 base dimensions, nested expressions, prefixes, aliases, symbols, annotations, constants, factors at the ends of the range of doubles, exponents up to 10^12; with rational-dimensions fractional exponents): {rows} generated dimensions, units and constants against an evaluator in exact arithmetic, the row being symbolic")
