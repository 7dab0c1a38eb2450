"""Shared machinery of the checks: building the harnesses from /repo's working tree, running the symbolic
executor on them, replaying what it finds against the real build, and writing evidence."""
import concurrent.futures as cf
import hashlib, json, os, random, re, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
BUILD = os.path.join(VERIF, ".build")
TOOLCHAIN = "nightly-2024-10-20-x86_64-unknown-linux-gnu"
SYMEX = os.path.join(BUILD, "symex/release/symex")
NATIVE = os.path.join(BUILD, "native")
REFERENCE_RUSTFLAGS = ["-C", "no-vectorize-slp", "-C", "no-vectorize-loops"]


class CheckError(Exception):
    full = ""


def env(target=None, toolchain=TOOLCHAIN):
    e = {k: v for k, v in os.environ.items() if not k.startswith(("CARGO_", "RUST"))}
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    if toolchain:
        e["RUSTUP_TOOLCHAIN"] = toolchain
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    if target:
        e["CARGO_TARGET_DIR"] = target
    for k in ("CARGO_HOME", "RUSTUP_HOME"):
        if k in os.environ:
            e[k] = os.environ[k]
    return e


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)


def log(*a):
    print(*a, flush=True)


def build_tools():
    """The symbolic executor and the native replayer (independent of /repo)."""
    os.makedirs(BUILD, exist_ok=True)
    e = env(os.path.join(BUILD, "symex"), None)
    r = sh(["cargo", "build", "--offline", "--release", "--quiet"], cwd=os.path.join(VERIF, "symex"), env=e)
    if r.returncode:
        raise CheckError("building symex failed:\n" + r.stderr[-3000:])
    r = sh(["cargo", "build", "--offline", "--release", "--quiet"], cwd=os.path.join(VERIF, "typex"), env=env(os.path.join(BUILD, "typex"), None))
    if r.returncode:
        raise CheckError("building typex failed:\n" + r.stderr[-3000:])
    src = os.path.join(VERIF, "vf/native.c")
    if not os.path.exists(NATIVE) or os.path.getmtime(NATIVE) < os.path.getmtime(src):
        r = sh(["gcc", "-O1", "-rdynamic", "-o", NATIVE + ".tmp", src, "-ldl"])
        if r.returncode:
            raise CheckError("building native.c failed:\n" + r.stderr)
        os.replace(NATIVE + ".tmp", NATIVE)


def repo_hash():
    h = hashlib.sha256()
    for d, ds, fs in sorted(os.walk(REPO)):
        ds[:] = sorted(x for x in ds if x not in (".git", "target", "tests"))
        for f in sorted(fs):
            if f.endswith((".rs", ".toml")):
                p = os.path.join(d, f)
                h.update(p.encode())
                h.update(open(p, "rb").read())
    return h.hexdigest()


def drop_stale(target):
    """Make cargo rebuild everything that came from /repo unless it was built from exactly this tree."""
    st = os.path.join(target, "vf-stamp")
    h = repo_hash()
    if os.path.exists(st) and open(st).read() == h:
        return h
    for prof in ("release", "debug"):
        fp = os.path.join(target, prof, ".fingerprint")
        if os.path.isdir(fp):
            for n in os.listdir(fp):
                if n.startswith(("diman", "ops-", "mac", "expand", "gen", "lay-", "si-", "ser", "h-", "tyx")):
                    shutil.rmtree(os.path.join(fp, n), ignore_errors=True)
    return h


class Built:
    def __init__(self, ir, so, target, name):
        self.ir, self.so, self.target, self.name = ir, so, target, name
        self.entries = None

    def list(self, prefix):
        r = sh([SYMEX, "--ir", self.ir, "--list", prefix, "x"] if False else [SYMEX, "--ir", self.ir, "--list", prefix])
        return [x for x in r.stdout.split() if x.startswith(prefix)]


def build_harness(crate, features=(), config="", extra_env=None, src_dir=None, timeout=800):
    """Build a harness crate against /repo's working tree; LLVM IR and the native library come from one rustc run."""
    name = crate + ("-" + config if config else "")
    target = os.path.join(BUILD, "t-" + name)
    os.makedirs(target, exist_ok=True)
    h = drop_stale(target)
    e = env(target)
    if extra_env:
        e.update(extra_env)
    cmd = ["cargo", "rustc", "--offline", "--release", "--lib"]
    if features:
        cmd += ["--features", ",".join(features)]
    cmd += ["--", "--emit=llvm-ir,link"] + REFERENCE_RUSTFLAGS
    cwd = src_dir or os.path.join(VERIF, "harness", crate)
    lock = os.path.join(cwd, "Cargo.lock")
    r = sh(cmd, cwd=cwd, env=e, timeout=timeout)
    if r.returncode:
        x = CheckError(f"building harness {name} failed:\n" + first_errors(r.stderr))
        x.full = r.stderr
        raise x
    ir = os.path.join(target, "release/deps", crate + ".ll")
    so = os.path.join(target, "release/deps", "lib" + crate + ".so")
    if not os.path.exists(ir) or not os.path.exists(so):
        raise CheckError(f"harness {name}: no IR produced")
    with open(os.path.join(target, "vf-stamp"), "w") as f:
        f.write(h)
    return Built(ir, so, target, name)


def first_errors(s, n=3500):
    i = s.find("error")
    return s[max(0, i):][:n]


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.reports = []          # (built name, entry, report)
        self.violations = []       # dicts
        self.known = []
        self.errors = []
        self.assumptions = []
        self.bounds = []
        self.samples = []
        self.extra = {}
        self.params = {}
        self.validated = 0
        self.obligations = 0
        self.discharged = 0
        self.queries = 0
        self.solver_s = 0.0
        self.functions = set()
        self.paths = 0
        self.instructions = 0
        self.rng = random.Random(seed * 7919 + 17)
        # once a violation is confirmed the verdict is settled: what is still running gets a little longer only
        self.stop_at = [0.0]
        self.replay_dir = os.path.join(VERIF, "evidence", "replay", prop)
        shutil.rmtree(self.replay_dir, ignore_errors=True)
        kf = os.path.join(VERIF, "known-findings.json")
        self.kf = [k for k in (json.load(open(kf)) if os.path.exists(kf) else []) if k.get("property") == prop and k.get("status") == "open"]

    LISTS = ("violations", "known", "errors", "reports", "samples")
    COUNTS = ("obligations", "discharged", "queries", "validated", "paths", "instructions")

    def sub(self):
        """a context of its own for a part of the work; merge() adds it up"""
        s = Ctx.__new__(Ctx)
        s.__dict__.update(self.__dict__)
        for k in self.LISTS:
            setattr(s, k, [])
        for k in self.COUNTS:
            setattr(s, k, 0)
        s.functions, s.extra, s.solver_s = set(), {}, 0.0
        return s

    def merge(self, s):
        for k in self.LISTS:
            setattr(self, k, getattr(self, k) + getattr(s, k))
        self.functions |= s.functions
        for k in self.COUNTS + ("solver_s",):
            setattr(self, k, getattr(self, k) + getattr(s, k))
        for k, v in s.extra.items():
            self.extra[k] = self.extra.get(k, 0) + v

    @property
    def thorough(self):
        return self.tier == "thorough"

    def left(self):
        return (3400 if self.thorough else 840) - (time.time() - self.t0)

    def bound(self, s):
        if s not in self.bounds:
            self.bounds.append(s)

    def assume(self, s):
        if s not in self.assumptions:
            self.assumptions.append(s)

    def error(self, s):
        log("ERROR:", s)
        self.errors.append(s)

    # ---- running the symbolic executor
    def symex(self, b, entry, opts=None):
        tag = hashlib.sha256(json.dumps(sorted(self.params.items())).encode()).hexdigest()[:8]
        out = os.path.join(b.target, f"out-{entry}-{tag}.json")
        if os.path.exists(out):
            os.remove(out)
        o = {"time": 300, "seed": self.seed}
        o.update(opts or {})
        o["time"] = min(o["time"], max(20, self.left() - 30))
        cmd = [SYMEX, "--ir", b.ir, "--entry", entry, "--out", out]
        if self.params:
            cmd += ["--params", ",".join(f"{k}={v}" for k, v in self.params.items())]
        for k, v in o.items():
            cmd += ["--" + k, str(v)]
        if self.stop_at[0] and time.time() > self.stop_at[0]:
            return {"entry": entry, "aborted": True}
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
        end = time.time() + o["time"] * 1.3 + 60
        err = []
        import threading
        th = threading.Thread(target=lambda: err.append(p.stderr.read()), daemon=True)
        th.start()
        while p.poll() is None:
            time.sleep(0.02)
            now = time.time()
            if now > end or (self.stop_at[0] and now > self.stop_at[0]):
                try:
                    os.killpg(p.pid, 9)
                except ProcessLookupError:
                    pass
                p.wait()
                if now > end:
                    return {"entry": entry, "errors": ["executor timed out"]}
                return {"entry": entry, "aborted": True}
        th.join(5)
        if p.returncode or not os.path.exists(out):
            return {"entry": entry, "errors": ["executor failed: " + "".join(err)[-600:]]}
        return json.load(open(out))

    def native(self, b, entry, inputs, tag):
        os.makedirs(self.replay_dir, exist_ok=True)
        p = os.path.join(self.replay_dir, f"{b.name}.{entry}.{tag}.txt")
        with open(p, "w") as f:
            for k, v in self.params.items():
                f.write(f"%{k} {v:#x}\n")
            for k, v in inputs.items():
                if not k.startswith("~"):
                    f.write(f"{k} {v}\n")
        try:
            r = sh([NATIVE, b.so, entry, p], timeout=90)
            return r.returncode, r.stdout, p
        except subprocess.TimeoutExpired:
            return 99, "timeout", p

    def run(self, b, entries, opts=None, validate=2, need_reach=("end",), allow=()):
        """Execute entries symbolically, replay every violation natively, cross-check the executor on samples."""
        if not entries:
            self.error(f"{b.name}: no entries")
            return {}
        res = self.run_jobs([(b, e) for e in entries], opts, validate, need_reach, allow)
        return {e: r for (_, e), r in res.items()}

    def run_jobs(self, jobs, opts=None, validate=2, need_reach=("end",), allow=()):
        """The same for (build, entry) pairs; opts and need_reach may be tables by entry with a default under "*"."""
        opts = opts or {}

        def sel(t, e):
            return t.get(e, t.get("*", {})) if isinstance(t, dict) and ("*" in t or any(x in t for _, x in jobs)) else t
        res = {}
        with cf.ThreadPoolExecutor(8) as ex:
            futs = {ex.submit(self.symex, b, e, sel(opts, e)): (b, e) for b, e in jobs}
            for f in cf.as_completed(futs):
                b, e = futs[f]
                r = res[(b.name, e)] = f.result()
                if r.get("violations"):
                    self.absorb(b, e, r, sel(need_reach, e), allow)
                    r["absorbed"] = True
        for b, e in jobs:
            if not res[(b.name, e)].get("absorbed"):
                self.absorb(b, e, res[(b.name, e)], sel(need_reach, e), allow)
        if validate and not self.violations:
            for name in dict.fromkeys(b.name for b, _ in jobs):
                bb = next(b for b, _ in jobs if b.name == name)
                self.validate(bb, [e for b, e in jobs if b.name == name], {e: r for (n, e), r in res.items() if n == name}, validate)
        return res

    def absorb(self, b, e, r, need_reach=("end",), allow=()):
        self.reports.append((b.name, e, r))
        if r.get("aborted"):
            self.extra["entries_not_finished_after_violation"] = self.extra.get("entries_not_finished_after_violation", 0) + 1
            return
        for x in r.get("errors", []):
            self.error(f"{b.name}/{e}: {x}")
        if self.thorough and r.get("paths") and (r.get("truncated") or r.get("inconclusive")):
            # the deeper bounds are explored as far as the time goes; what was left out is part of the evidence
            self.extra["entries_explored_in_part"] = self.extra.get("entries_explored_in_part", 0) + 1
            self.extra["obligations_undecided"] = self.extra.get("obligations_undecided", 0) + len(r.get("inconclusive", []))
            self.bound(f"{b.name}/{e}: explored in part only ({r['paths']} paths; {r.get('truncated') or ''} {len(r.get('inconclusive', []))} undecided)")
        else:
            if r.get("truncated"):
                self.error(f"{b.name}/{e}: incomplete: {r['truncated']}")
            for x in r.get("inconclusive", []):
                self.error(f"{b.name}/{e}: inconclusive: {x}")
        if r.get("unknown"):
            # an unknown answer keeps the branch alive or leaves the obligation inconclusive; never dropped
            self.extra["solver_unknown"] = self.extra.get("solver_unknown", 0) + r["unknown"]
        if "paths" not in r:
            return
        self.paths += r["paths"]
        self.instructions += r["instructions"]
        self.queries += r["queries"]
        self.solver_s += r["solver_s"]
        self.functions.update(r["functions"])
        for k, (triv, dis, viol) in r["checks"].items():
            self.obligations += triv + dis + viol
            self.discharged += triv + dis
            self.extra["obligations_by_solver"] = self.extra.get("obligations_by_solver", 0) + dis
            self.extra["obligations_by_term_identity"] = self.extra.get("obligations_by_term_identity", 0) + triv
        for k in need_reach:
            if k not in r["reach"] and not r["violations"]:
                self.error(f"{b.name}/{e}: vacuous: '{k}' was never reached")
        for i, v in enumerate(r["violations"]):
            if v["id"] in allow:
                continue
            inp = {k: x.split(":")[0] for k, x in v["inputs"].items()}
            code, outp, path = self.native(b, e, inp, f"v{i}")
            if code == 10 and ("FAILED " + v["id"] in outp or "FAILED" in outp):
                self.violate(b.name, e, v["id"], inp, path, b)
            else:
                self.error(f"{b.name}/{e}: counterexample to '{v['id']}' does not reproduce natively (exit {code}): {inp}")
        for k, s in r["reach"].items():
            if len(self.samples) < 12 and s["sample"]:
                self.samples.append({"harness": f"{b.name}/{e}", "reaches": k, "inputs": {k: x for k, x in s["sample"].items() if not k.startswith("~")}})

    def violate(self, where, entry, cid, inputs, path, b=None, text=None):
        for k in self.kf:
            if k.get("entry") in (entry, None) and k.get("where", where) == where and k.get("check") in (cid, None) and all(inputs.get(a) == x for a, x in k.get("inputs", {}).items()):
                self.known.append((k, f"{where}/{entry}: {cid}"))
                return
        if not self.stop_at[0]:
            self.stop_at[0] = time.time() + 30
        self.violations.append({"where": where, "entry": entry, "check": cid, "inputs": inputs, "replay": path, "text": text})

    def validate(self, b, entries, res, n):
        """Translator check: the executor in concrete mode and the native build must agree on every check, output and outcome."""
        jobs = []
        for e in entries:
            r = res[e]
            if "paths" not in r:
                continue
            cands = []
            names = {}
            for k, s in list(r["reach"].items()):
                if s["sample"]:
                    names.update(s["sample"])
                    cands.append({a: x.split(":")[0] for a, x in s["sample"].items() if not a.startswith("~")})
            cands = cands[:n]
            if names:
                inp = {}
                for a, x in names.items():
                    if a.startswith("~"):
                        continue
                    w = int(x.split(":")[1])
                    inp[a] = hex(self.randval(w))
                cands.append(inp)
            jobs += [(e, i, c) for i, c in enumerate(cands)]

        def one(j):
            e, i, c = j
            code, outp, p = self.native(b, e, c, f"val{i}")
            out = os.path.join(b.target, f"val-{e}-{i}.json")
            cmd = [SYMEX, "--ir", b.ir, "--entry", e, "--out", out, "--concrete", p, "--time", "60"]
            if self.params:
                cmd += ["--params", ",".join(f"{k}={v}" for k, v in self.params.items())]
            rr = sh(cmd, timeout=200)
            if rr.returncode or not os.path.exists(out):
                return j, "executor failed in concrete mode", None
            r = json.load(open(out))
            os.remove(out)
            if r["errors"]:
                return j, "concrete mode: " + r["errors"][0], None
            nat_ch = {}
            for l in outp.splitlines():
                if l.startswith("CHECK "):
                    _, okv, cid = l.split(" ", 2)
                    nat_ch[cid] = nat_ch.get(cid, True) and okv == "1"
            sym_ch = {k: v[2] == 0 for k, v in r["checks"].items() if k not in ("missing-rejection", "unexpected-rejection", "unexpected-panic")}
            nat_out = [tuple(l.split(" ")[1:]) for l in outp.splitlines() if l.startswith("OUT ")]
            sym_out = [(k, v[2:]) for k, v in r["outs"]]
            infeasible = r["infeasible"] > 0
            if infeasible != ("ASSUME failed" in outp):
                return j, f"assumption outcome differs (native {code})", None
            if infeasible:
                return j, None, False
            if any(not v for v in sym_ch.values()):
                # after a failed check the executor stops the path, the native run goes on
                if code != 10:
                    return j, f"verdicts differ: {sym_ch} native exit {code}", None
            elif nat_ch != sym_ch:
                return j, f"checks differ: native {nat_ch} executor {sym_ch}", None
            if nat_out != sym_out and not any(not v for v in sym_ch.values()):
                return j, f"outputs differ: native {nat_out} executor {sym_out}", None
            if ("PANIC" in outp) != (r["panicked"] > 0):
                return j, f"panic outcome differs: native exit {code} executor panicked {r['panicked']}", None
            return j, None, True

        with cf.ThreadPoolExecutor(8) as ex:
            for j, e, ok in ex.map(one, jobs):
                if e:
                    self.error(f"translator validation {b.name}/{j[0]} {j[2]}: {e}")
                elif ok:
                    self.validated += 1
        if os.path.isdir(self.replay_dir):
            for f in os.listdir(self.replay_dir):
                if ".val" in f:
                    os.remove(os.path.join(self.replay_dir, f))

    def randval(self, w):
        r = self.rng
        if w == 64:
            import struct
            v = r.choice([r.uniform(-10, 10), r.uniform(-1e3, 1e3), r.lognormvariate(0, 20), 1.0, -0.0])
            return struct.unpack("<Q", struct.pack("<d", v))[0]
        if w == 32:
            import struct
            v = r.choice([r.uniform(-10, 10), r.uniform(-1e3, 1e3), 1.0])
            return struct.unpack("<I", struct.pack("<f", v))[0]
        return r.getrandbits(w)

    # ---- end
    def finish(self):
        wall = time.time() - self.t0
        fns = sorted(self.functions)
        mine = [f for f in fns if "diman" in f or f.startswith(("<sys", "sys::", "<ops", "ops::", "ratio", "<diman", "macx", "si::")) or "mac::" in f and "vfh_" not in f]
        cov = {
            "states": self.paths,
            "transitions": self.instructions,
            "traces_validated_against_impl": self.validated,
            "samples": self.samples[:12] or ["none"],
            "paths_explored": self.paths,
            "ir_instructions_executed": self.instructions,
            "obligations": self.obligations,
            "discharged": self.discharged,
            "queries": self.queries,
            "solver_seconds": round(self.solver_s, 3),
            "functions_encoded": len(fns),
            "functions_sample": (mine or fns)[:60],
            "bounds": self.bounds,
            "harness_entries": len(self.reports),
        }
        cov.update(self.extra)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": cov, "assumptions": self.assumptions, "wall_s": round(wall, 2),
            "violations": len(self.violations), "errors": self.errors[:20],
            "known_findings": [x[1] for x in self.known],
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        seen = set()
        for k, w in self.known:
            t = f"KNOWN-FINDING: property={self.prop} {k['what']}"
            if t not in seen:
                seen.add(t)
                log(t)
        for v in self.violations[:10]:
            log(f"VIOLATION property={self.prop} replay={v['replay']}")
            log(f"   {v['where']}/{v['entry']}: {v['check']} inputs={v['inputs']}" + (("\n   " + v["text"]) if v.get("text") else ""))
        log(f"{self.prop} {self.tier}: {len(self.reports)} harness entries, {self.paths} paths, {self.obligations} obligations "
            f"({self.discharged} discharged), {self.queries} queries, {self.solver_s:.1f} s solver, {self.validated} traces validated, {wall:.1f} s")
        if self.violations:
            return 1
        if self.errors:
            log(f"{len(self.errors)} error(s): no verdict")
            return 2
        if self.obligations == 0:
            log("nothing was checked: no verdict")
            return 2
        return 0
