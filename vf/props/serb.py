"""The serde and Debug harness."""
import concurrent.futures as cf
from .. import core

FEATS = {"int": (), "rational": ("rational",)}


def builds():
    with cf.ThreadPoolExecutor(2) as ex:
        return dict(zip(FEATS, ex.map(lambda k: core.build_harness("ser", FEATS[k], k), FEATS)))


def run(c, opts, thorough_prefix=None):
    bs = builds()
    jobs = []
    p = c.prop.lower() + "_"
    for k, b in bs.items():
        es = b.list(p)
        if len(es) < 8:
            c.error(f"only {len(es)} entries in {k}")
        if not c.thorough:
            es = [e for e in es if not e.startswith(p + "t_")]
        es.sort(key=lambda e: (not e.startswith((p + "ratio", p + "raw_6", p + "three", p + "two", p + "t_")), e))
        jobs += [(b, e) for e in es]
    o = {"time": 1500 if c.thorough else 500}
    o.update(opts)
    c.run_jobs(jobs, {"*": o}, validate=1)
    c.bound("feature configurations: integer exponents, rational exponents")
    if c.prop != "C19":
        c.assume("the standard library's Display and FromStr of finite floats are inverse to each other, and the text is a number as the crate sees it (no white space, letters other than e, brackets): the text of a symbolic number is an opaque token; NaN and the infinities, where distinguished, have their real texts")
