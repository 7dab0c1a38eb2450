"""The macro harness: the unit_system! macro's own parsing, expansion and resolution code, compiled as ordinary code.

/repo/crates/diman_unit_system/src is copied next to the harness modules; the only edits are the removal of the
`#[proc_macro]` attributes.  Outside a compiler session, proc_macro2 uses its own token implementation; our copy of it
(harness/pm2) differs in that `Span::unwrap` gives a stand-in whose diagnostics are counted instead of printed.
diman_lib is copied too, and its pair `Magnitude::from_f64`/`into_f64` replaced by a lossless bit copy; that the real
pair is lossless is what the C06 harness proves, and the checks run that proof along with their own."""
import concurrent.futures as cf
import os, re, shutil
from .. import core

SRC = os.path.join(core.BUILD, "mac-src")
FEATS = {"int": ["std", "f32", "f64"], "rational": ["std", "f32", "f64", "rational-dimensions"],
         "intreal": ["std", "f32", "f64"]}


def write(p, s):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if os.path.exists(p) and open(p).read() == s:
        return
    with open(p, "w") as f:
        f.write(s)


def copytree(src, dst):
    """copy, leaving unchanged files alone, dropping files that are gone"""
    seen = set()
    for d, ds, fs in os.walk(src):
        ds[:] = [x for x in ds if x not in ("target", "tests", ".git")]
        for f in fs:
            if f.endswith((".rs", ".toml")):
                rel = os.path.relpath(os.path.join(d, f), src)
                seen.add(rel)
                yield rel, open(os.path.join(d, f)).read()
    for d, _, fs in os.walk(dst):
        for f in fs:
            rel = os.path.relpath(os.path.join(d, f), dst)
            if rel not in seen and f.endswith(".rs") and not rel.startswith(("vfh", "target")):
                os.remove(os.path.join(d, f))


def summarise(text):
    """replace the bodies of from_f64/into_f64 by a bit copy; None if they are not where we expect them"""
    a = re.subn(r"pub\s+(const\s+)?fn\s+from_f64\s*\(", r"pub \1fn from_f64(f: f64) -> Self { Self { mantissa: f.to_bits(), exponent: 0, sign: 1 } }\n    #[allow(dead_code)] \1fn vf_real_from_f64(", text)
    b = re.subn(r"pub\s+(const\s+)?fn\s+into_f64\s*\(", r"pub \1fn into_f64(self) -> f64 { f64::from_bits(self.mantissa) }\n    #[allow(dead_code)] \1fn vf_real_into_f64(", a[0])
    return b[0] if a[1] == 1 and b[1] == 1 else None


def prepare(summary=True):
    root = SRC + ("" if summary else "-real")
    hs = os.path.join(core.VERIF, "harness")
    ud = os.path.join(core.REPO, "crates/diman_unit_system/src")
    mods = sorted(f[:-3] for f in os.listdir(os.path.join(hs, "mac/src")) if f.endswith(".rs"))
    for rel, t in copytree(ud, os.path.join(root, "src")):
        if rel == "lib.rs":
            t = re.sub(r"#\[proc_macro\]\s*", "", t)
            t = open(os.path.join(hs, "mac/prelude.txt")).read() + t + "\n" + "".join(f'#[path = "vfh_{m}.rs"] pub mod vfh_{m};\n' for m in mods)
            # inner attributes go first
            t = re.sub(r"^#!\[feature\(\s*proc_macro\w*\s*\)\]\s*$", "", t, flags=re.M)
            t = re.sub(r"(#!\[feature\(.*?)\bproc_macro\w*\s*,?", r"\1", t)
            attrs = re.findall(r"^#!\[.*?\]\s*$", t, re.M)
            t = "\n".join(attrs) + "\n" + re.sub(r"^#!\[.*?\]\s*$", "", t, flags=re.M)
        write(os.path.join(root, "src", rel), t)
    for m in mods:
        write(os.path.join(root, "src", f"vfh_{m}.rs"), open(os.path.join(hs, f"mac/src/{m}.rs")).read())
    write(os.path.join(root, "src/vfh_sx/sx.rs"), open(os.path.join(hs, "sx.rs")).read())
    done = not summary
    for rel, t in copytree(os.path.join(core.REPO, "crates/diman_lib"), os.path.join(root, "diman_lib")):
        if rel == "src/magnitude.rs" and summary:
            s = summarise(t)
            done = s is not None
            t = s or t
        if rel == "Cargo.toml":
            t = detach(t)
        write(os.path.join(root, "diman_lib", rel), t)
    ct = open(os.path.join(hs, "mac/Cargo.toml")).read()
    ct = ct.replace("FAKEPM", os.path.join(hs, "fakepm")).replace("PM2", os.path.join(hs, "pm2")).replace("DIMANLIB", os.path.join(root, "diman_lib"))
    write(os.path.join(root, "Cargo.toml"), ct)
    lock = os.path.join(root, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(hs, "mac/Cargo.lock"), lock)
    return root, done


def detach(t):
    """workspace-inherited keys, with the workspace's values"""
    w = open(os.path.join(core.REPO, "Cargo.toml")).read()
    m = re.search(r"\[workspace\.package\](.*?)(\n\[|\Z)", w, re.S)
    vals = dict(re.findall(r'^(\w+)\s*=\s*(.+)$', m.group(1), re.M)) if m else {}
    t = re.sub(r"^(\w+)\.workspace\s*=\s*true\s*$", lambda x: f"{x.group(1)} = {vals[x.group(1)]}" if x.group(1) in vals else "", t, flags=re.M)
    return t


def build(cfg="int", summary=True):
    root, done = prepare(summary)
    b = core.build_harness("mac", FEATS[cfg], cfg + ("" if summary else "-real"), src_dir=root)
    b.summary = done
    return b


def builds(cfgs):
    with cf.ThreadPoolExecutor(2) as ex:
        return [f.result() for f in [ex.submit(build, x) for x in cfgs]]


def run(c, plan, rejects=(), number=True, factors=False):
    """plan: configuration -> entries, longest first; rejects: entries that must also reach a rejected system"""
    bs = dict(zip(plan, builds(list(plan))))
    if factors and not all(b.summary for b in bs.values()):
        # the representation of factors is not the one the summary knows: run with factors from a table
        c.params["table"] = 1
        c.bound("factors from a table of eight (the factor representation was not recognised)")
        bs = {k: build(k, summary=False) for k in plan}
    jobs = []
    for k, es in plan.items():
        have = set(bs[k].list("c"))
        for e in es:
            if e in have:
                jobs.append((bs[k], e))
            else:
                c.error(f"no entry {e} in {k}")
    need = {"*": ("end",)}
    need.update({e: ("end", "rejected") for e in rejects})
    c.run_jobs(jobs, {"*": {"int-token": 1, "time": 1500 if c.thorough else 600}}, validate=1, need_reach=need)
    if factors and all(b.summary for b in bs.values()) and not c.violations:
        # discharge the summary of Magnitude::from_f64/into_f64
        from . import opsb
        ob = opsb.build(("std",))["std"]
        saved, c.params = c.params, {}
        c.run(ob, [e for e in ob.list("c06_") if "trip" in e], validate=0)
        c.params = saved
        c.assume("Magnitude::from_f64 and into_f64 are replaced by a lossless copy of the double; that the real pair is lossless is checked in the same run (c06_trip entries), that products and quotients of factors are those of doubles by C06")
    c.assume("the macro's own source is compiled as ordinary code against proc_macro2's own token implementation; the compiler's lexer and its delivery of tokens are not part of the encoding")
    c.assume("the text of a number is turned into a double by the standard library (its result is a symbolic value or exact)")
    c.bound("feature configurations: " + ", ".join({"int": "integer exponents", "rational": "rational exponents"}[k] for k in plan))
    return bs
