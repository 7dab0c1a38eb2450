"""The four feature configurations the operator harness is built in."""
import concurrent.futures as cf
from .. import core

CONFIGS = {
    "std": ["std", "glamf"],
    "rational": ["std", "glamf", "rational"],
    "nostd": [],
    "libm": ["libm"],
}


def build(names=("std", "rational", "nostd", "libm")):
    with cf.ThreadPoolExecutor(4) as ex:
        fs = {n: ex.submit(core.build_harness, "ops", CONFIGS[n], n) for n in names}
        return {n: f.result() for n, f in fs.items()}


def run(c, prefix, names=("std", "rational", "nostd", "libm"), **kw):
    bs = build(names)
    for n, b in bs.items():
        es = b.list(prefix)
        c.run(b, es, **kw)
    c.bound("feature configurations: " + ", ".join(names))
    return bs
