"""C13: the bundled SI system against an independently written table of the SI."""
import math, os, re, shutil, struct
from fractions import Fraction as Fr
from .. import core
from . import sitable as si
from .macb import write

SRC = os.path.join(core.BUILD, "si-src")
ULPS = 4
CHUNK = 100
FEATS = {"int": [], "rational": ["rational"]}


def dbl(f):
    """bits of the nearest double (Python's Fraction to float conversion is correctly rounded)"""
    return struct.unpack("<Q", struct.pack("<d", float(f)))[0]


def chunks(x, n=CHUNK):
    return [x[i:i + n] for i in range(0, len(x), n)]


def arr(d):
    return "[" + ", ".join(map(str, d)) + "]"


def source(missing):
    units = [(f"u::{n}", d, f) for n, d, f in si.names() if n not in missing["units"]]
    units += [(f"k::{n}", d, f) for n, d, f in si.CONSTANTS if n not in missing["constants"]]
    dims = [(n, d) for n, d in si.DIMENSIONS.items() if n not in missing["dimensions"]]
    syms = [(s, d, f, n) for s, d, f, n in si.symbols() if n not in missing["units"]]
    o = ["static BASES: [[i64; W]; 7] = [" + ", ".join(f"udim(u::{n})" for n in si.BASE_UNITS) + "];",
         "static NONE: [i64; W] = words(Dimension::none());"]
    for i, ch in enumerate(chunks(units)):
        lo = [dbl(f) - ULPS for _, _, f in ch]
        hi = [dbl(f) + ULPS for _, _, f in ch]
        n = len(ch)
        o.append(f"static U{i}: [[i64; W]; {n}] = [" + ", ".join(f"udim({x})" for x, _, _ in ch) + "];")
        o.append(f"static O{i}: [[i64; 7]; {n}] = [" + ", ".join(arr(d) for _, d, _ in ch) + "];")
        o.append(f"static L{i}: [u64; {n}] = {arr(lo)};\nstatic H{i}: [u64; {n}] = {arr(hi)};")
        o.append(f"#[no_mangle] pub extern \"C\" fn c13_units_{i}() {{ let f: [f64; {n}] = [" + ", ".join(f"fac({x})" for x, _, _ in ch) + f"]; units(&U{i}, &O{i}, &f, &L{i}, &H{i}); }}")
    for i, ch in enumerate(chunks(dims)):
        n = len(ch)
        o.append(f"static D{i}: [[i64; W]; {n}] = [" + ", ".join(f"qdim(pd::<d::{x}<f64>>)" for x, _ in ch) + "];")
        o.append(f"static DO{i}: [[i64; 7]; {n}] = [" + ", ".join(arr(d) for _, d in ch) + "];")
        o.append(f"#[no_mangle] pub extern \"C\" fn c13_dims_{i}() {{ dims(&D{i}, &DO{i}); }}")
    for i, ch in enumerate(chunks(syms, 30)):
        n = len(ch)
        o.append(f"#[no_mangle] pub extern \"C\" fn c13_symbols_{i}() {{\n    let i = index({n});\n    match i {{")
        for j, (s, d, f, u) in enumerate(ch):
            o.append(f"        {j} => symbol(u::{u}, {'\"' + s + '\"'}, {dbl(f) - ULPS}, {dbl(f) + ULPS}),")
        o.append("        _ => {}\n    }\n    reach(\"end\");\n}")
    # the units of one dimension, converted into each other
    return "\n".join(o) + "\n", [x[0] for x in units], [x[0] for x in dims], [x[0] for x in syms]


def build(c, cfg):
    root = SRC + "-" + cfg
    hs = os.path.join(core.VERIF, "harness")
    shutil.rmtree(os.path.join(root, "src"), ignore_errors=True) if False else None
    write(os.path.join(root, "src/lib.rs"), open(os.path.join(hs, "si/lib.rs")).read())
    write(os.path.join(root, "src/sx.rs"), open(os.path.join(hs, "sx.rs")).read())
    write(os.path.join(root, "Cargo.toml"), open(os.path.join(hs, "si/Cargo.toml")).read())
    if not os.path.exists(os.path.join(root, "Cargo.lock")):
        shutil.copy(os.path.join(hs, "si/Cargo.lock"), os.path.join(root, "Cargo.lock"))
    missing = {"units": set(), "constants": set(), "dimensions": set()}
    for _ in range(4):
        t, u, d, s = source(missing)
        write(os.path.join(root, "src/tables.rs"), t)
        try:
            b = core.build_harness("si", FEATS[cfg], cfg, src_dir=root)
            return b, missing, u, d, s
        except core.CheckError as e:
            m = re.findall(r"cannot find (?:value|type|constant|type alias|struct) `(\w+)` in (?:module|crate) `(\w)`", e.full)
            if not m:
                raise
            for n, k in m:
                missing[{"u": "units", "k": "constants", "d": "dimensions"}[k]].add(n)
    raise core.CheckError("the SI harness does not build")


def run(c):
    jobs = []
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(2) as ex:
        bs = list(ex.map(lambda k: build(c, k), FEATS))
    for (b, missing, u, d, s) in bs:
        jobs += [(b, e) for e in b.list("c13_")]
    b, missing, u, d, s = bs[0]
    if len(u) < 300 or len(d) < 20:
        c.error(f"only {len(u)} units and {len(d)} dimensions of the table exist")
    c.extra["units_checked"] = len(u)
    c.extra["dimensions_checked"] = len(d)
    c.extra["symbols_checked"] = len(s)
    c.extra["names_of_the_table_that_do_not_exist"] = sum(len(x) for x in missing.values())
    c.run_jobs(jobs, {"time": 700}, validate=1)
    c.bound(f"{len(u)} unit names, {len(d)} named dimensions, {len(s)} symbols of the independently written SI table that exist in the crate; units of the crate outside the table are not judged")
    c.bound(f"factors within {ULPS} units in the last place of the nearest double to the official factor; symbols: all numbers in front of them")
