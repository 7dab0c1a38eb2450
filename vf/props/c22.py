"""C22: the two exponent representations agree where both apply.

Both configurations are decided against one reference, restricted to integral exponents: the macro's resolution of
definitions, the bundled SI, and the signatures of the dimension operations.  A counterexample counts here only if the
other configuration, given the same input, does what the reference says: then the two differ."""
import concurrent.futures as cf
import os, re
from .. import core, types
from . import c08, c09, c10, c13, gen, macb
from .tyspec import Spec

CFG = {"std": "rational", "rational": "std"}
SPECS = ("c01", "c02", "c04", "c05", "c17", "c18", "c21")


def translate(line, to):
    if to == "std":
        return re.sub(r"Exponent::new\((-?\d+), 1\)", r"\1", line)
    return re.sub(r"\b(length|time|mass): (-?\d+)(?=[,} ])", r"\1: Exponent::new(\2, 1)", line)


def other_way(c, b, o, subs):
    """violations of one configuration that the other does not share"""
    for v in subs.violations:
        code, out, p = c.native(o, v["entry"], v["inputs"], "other")
        what = v["check"]
        if code == 0:
            c.violate(b.name, v["entry"], what, v["inputs"], v["replay"], b, text=f"the same input satisfies '{what}' in {o.name}")
        else:
            os.remove(p)
            c.extra["deviations_shared_by_both"] = c.extra.get("deviations_shared_by_both", 0) + 1
        subs.violations = [x for x in subs.violations if x is not v]


def pairs(c, builds, entries, opts, prefix="c"):
    """entries of two builds, and the violations of one taken to the other"""
    for b, o in (builds, builds[::-1]):
        have = set(o.list(prefix))
        es = [e for e in entries if e in set(b.list(prefix))]
        if set(es) - have:
            c.error(f"entries missing in {o.name}: {sorted(set(es) - have)}")
        s = c.sub()
        # each violation is looked at on its own: none stops the others
        s.stop_at = [float("inf")]
        s.run_jobs([(b, e) for e in es], opts, validate=0)
        other_way(c, b, o, s)
        c.merge(s)


def macro(c):
    c.params["exp_bits"] = c.params["rat_bits"] = 16 if c.thorough else 12
    es = ["c08_int_literal"] + (c08.TWO if c.thorough else c08.TWO[::2]) + c08.SMALL + c09.ANY[1:4:2] + ["c09_graph_dims", "c09_permute_first"] + c10.E
    bs = macb.builds(["int", "rational"])
    if not all(b.summary for b in bs):
        c.params["table"] = 1
        bs = [macb.build(k, summary=False) for k in ("int", "rational")]
    pairs(c, bs, es, {"*": {"int-token": 1, "time": 1500 if c.thorough else 600}})


def si(c):
    with cf.ThreadPoolExecutor(2) as ex:
        bs = list(ex.map(lambda k: c13.build(c, k), ("int", "rational")))
    for k in ("units", "constants", "dimensions"):
        c.obligations += 1
        if bs[0][1][k] != bs[1][1][k]:
            c.error(f"{k} defined in one configuration only: {sorted(bs[0][1][k] ^ bs[1][1][k])}")
        else:
            c.discharged += 1
    bs = [b for b, *_ in bs]
    pairs(c, bs, [e for e in bs[0].list("c13_") if "symbols" not in e], {"time": 700})


def generated(c):
    """the systems that are the same text in both configurations"""
    with cf.ThreadPoolExecutor(2) as ex:
        bs = list(ex.map(lambda k: gen.build(c, k), ("int", "rational")))
    same = [x.name for x, y in zip(bs[0][1], bs[1][1]) if x.order == y.order]
    if not same:
        c.error("no common generated system")
    bs = [b for b, _ in bs]
    pairs(c, bs, [e for e in bs[0].list("gen_") if e.split("_")[1] in ("values", "dims") and e.split("_")[2][:-1] in same], {"time": 300}, "gen_")
    c.bound(f"{len(same)} generated unit systems (in two orders each) through the real macro and compiler in both configurations: the dimension and factor of every name")


def typed(c):
    def one(cfg):
        s = c.sub()
        try:
            s.L = types.Layer(s, cfg, integral=True)
            sp = Spec(s.L)
            for p in SPECS:
                getattr(sp, p)()
        except core.CheckError as e:
            s.error(f"{cfg}: {e}")
        return s
    with cf.ThreadPoolExecutor(2) as ex:
        subs = dict(zip(CFG, ex.map(one, CFG)))
    if all(hasattr(s, "L") for s in subs.values()):
        for cfg, s in subs.items():
            other = subs[CFG[cfg]]
            # one probe of each kind, spread over what was refuted
            ps = s.L.probes
            ps = ps[::max(1, len(ps) // 12)][:12]
            for i, (what, m, line, want) in enumerate(ps):
                r, o = s.L.check_each([line], "replay")
                mine = not (r or o)
                l2 = translate(line, CFG[cfg])
                r, o = other.L.check_each([l2], "replay")
                theirs = not (r or o)
                if mine == want:
                    s.error(f"{cfg}: {what}: counterexample {types.fmt(m)} is not confirmed by rustc: {line}")
                elif theirs == want:
                    os.makedirs(c.replay_dir, exist_ok=True)
                    p = os.path.join(c.replay_dir, f"types-{cfg}-{i}.rs")
                    says = lambda x: "accepts" if x else "rejects"
                    open(p, "w").write(types.HEAD + types.SYSTEM + "pub mod probe {\nuse super::*;\nuse super::units::*;\n" + types.PROBE_HEAD + f"// {cfg}: rustc {says(mine)}\n{line}\n// {CFG[cfg]}: rustc {says(theirs)}\n// {l2}\n" + "}\n}\n")
                    c.violate("types-" + cfg, what, says(mine), types.fmt(m), p, text=line)
                else:
                    c.extra["deviations_shared_by_both"] = c.extra.get("deviations_shared_by_both", 0) + 1
    for s in subs.values():
        if hasattr(s, "L"):
            s.L.close()
            s.__dict__.pop("L")
        c.merge(s)


def run(c):
    with cf.ThreadPoolExecutor(2) as ex:
        t = c.sub()
        t.params = {}
        f = ex.submit(typed, t)
        macro(c)
        c.params = {}
        si(c)
        generated(c)
        f.result()
    c.merge(t)
    c.bound("definitions: the C08 (two to six factors), C09 (references, order) and C10 (annotations) harnesses in both configurations, integer exponents of 12 bits (thorough 16), all factors")
    c.bound("types: all integer dimension vectors (i64) over three base dimensions for every operation of C01, C02, C04, C05, C17, C18, C21; roots where the exponents divide")
    c.bound("bundled SI: every name of the table of C13")
    c.assume("both configurations are compared with one reference; a deviation that both share is the matter of the property it breaks, not of this one")
    c.assume("rustc implements trait selection as modelled; refutations are confirmed with rustc in both configurations")
