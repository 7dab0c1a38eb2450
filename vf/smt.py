"""A z3 process for the type-level queries (linear integer/real arithmetic over dimension vectors)."""
import re, subprocess, time


def And(*xs):
    out = []
    for x in xs:
        if x is False:
            return False
        if x is not True and x not in out:
            out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else "(and " + " ".join(out) + ")"


def Or(*xs):
    out = []
    for x in xs:
        if x is True:
            return True
        if x is not False and x not in out:
            out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else "(or " + " ".join(out) + ")"


def Not(x):
    if x is True:
        return False
    if x is False:
        return True
    return f"(not {x})"


def Eq(a, b):
    return True if a == b else f"(= {a} {b})"


def s(x):
    return {True: "true", False: "false"}.get(x, x) if isinstance(x, bool) else x


class Smt:
    def __init__(self, sort):
        self.sort = sort
        self.p = subprocess.Popen(["z3-new", "-in", "-smt2"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        self.w("(set-option :timeout 20000)")
        self.declared = set()
        self.queries = 0
        self.time = 0.0

    def w(self, t):
        self.p.stdin.write(t + "\n")

    def var(self, v, sort=None):
        if v not in self.declared:
            self.declared.add(v)
            self.w(f"(declare-const {v} {sort or self.sort})")

    def check(self, fs, names=()):
        """-> ('sat', model) / ('unsat', None) / ('unknown', None)"""
        t0 = time.time()
        self.queries += 1
        self.w("(push 1)")
        for f in fs:
            self.w(f"(assert {s(f)})")
        self.w("(check-sat)")
        self.p.stdin.flush()
        a = self.p.stdout.readline().strip()
        m = None
        if a == "sat" and names:
            self.w("(get-value (" + " ".join(names) + "))")
            self.p.stdin.flush()
            t = ""
            while True:
                t += self.p.stdout.readline()
                if t.count("(") == t.count(")"):
                    break
            m = {}
            for n, v in re.findall(r"\((\w+) ((?:\([^()]*(?:\([^()]*\))?[^()]*\))|[^()\s]+)\)", t):
                m[n] = parse(v)
        elif a == "sat":
            m = {}
        self.w("(pop 1)")
        self.time += time.time() - t0
        if a not in ("sat", "unsat", "unknown"):
            raise RuntimeError("z3: " + a)
        return a, m

    def close(self):
        self.p.stdin.close()
        self.p.wait()


def parse(v):
    from fractions import Fraction as F
    toks = v.replace("(", " ( ").replace(")", " ) ").split()

    def go(i):
        if toks[i] == "(":
            op = toks[i + 1]
            i += 2
            args = []
            while toks[i] != ")":
                x, i = go(i)
                args.append(x)
            if op == "-":
                r = -args[0] if len(args) == 1 else args[0] - args[1]
            elif op == "/":
                r = args[0] / args[1]
            else:
                raise ValueError(v)
            return r, i + 1
        if toks[i] in ("true", "false"):
            return toks[i] == "true", i + 1
        return F(toks[i]), i + 1

    return go(0)[0]
