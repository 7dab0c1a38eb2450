#!/usr/bin/env python3
"""plant.py ID...: confirm planted bugs in a scratch copy: patch applies, the build and the stable tests pass, demo passes before
and fails after.  --check additionally applies each patch to /repo, runs the check of its property, and undoes the patch."""
import json, os, re, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("PLANT_DIR", "/tmp/plant")
def sh(c, **k): return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)
def scratch():
    os.makedirs(S, exist_ok=True)
    if not os.path.exists(S + "/repo"):
        sh(f"cp -a /repo {S}/repo; cp -a /opt/vp {S}/vp; cd {S}/vp && sed -i 's#/repo#{S}/repo#g; s#/opt/vp#{S}/vp#g' build.sh test.sh env.sh results.py")
    sh(f"cd {S}/repo && git checkout -q -- . && git fetch -q /repo HEAD && git checkout -q FETCH_HEAD")
def main():
    ids = [a for a in sys.argv[1:] if not a.startswith("--")]
    only_check = "--only-check" in sys.argv
    for i in ids:
        d = f"{V}/seeded/{i}"
        meta = json.load(open(d + "/meta.json"))
        ok = True
        if not only_check:
            scratch()
            r = sh(f"bash {d}/demo.sh", cwd=S + "/repo")
            print(i, "demo unchanged:", r.returncode, flush=True)
            if r.returncode: print(r.stdout[-1500:])
            r = sh(f"git apply {d}/patch.diff", cwd=S + "/repo")
            if r.returncode: print(i, "patch does not apply", r.stdout); continue
            r = sh(f"bash {d}/demo.sh", cwd=S + "/repo")
            print(i, "demo patched:", r.returncode, r.stdout.strip()[-300:], flush=True)
            if "--no-tests" not in sys.argv:
                r = sh(f"bash {S}/vp/test.sh {S}/out-{i}.json")
                base = json.load(open("/opt/vp/BASELINE.json"))["stable"]
                res = json.load(open(f"{S}/out-{i}.json"))
                t = json.dumps(res)
                passed = set(res.get("passed", [])) if isinstance(res, dict) else set()
                passed |= {k for k, v in res.items() if v in ("passed", "ok", True)} if isinstance(res, dict) else set()
                miss = [x for x in base if x not in passed]
                print(i, "stable tests not passing:", len(miss), miss[:4], flush=True)
            sh("git checkout -q -- .", cwd=S + "/repo")
        if "--check" in sys.argv or only_check:
            props = os.environ.get("PROPS", meta["property"]).split(",")
            try:
                r = sh(f"git apply {d}/patch.diff", cwd="/repo")
                if r.returncode: print(i, "patch does not apply to /repo", r.stdout); continue
                for p in props:
                    r = sh(f"timeout 900 python3 check.py {p} quick", cwd=V)
                    print(i, p, "check rc", r.returncode, "|", "; ".join(l for l in r.stdout.splitlines() if "VIOLATION" in l or "ERROR" in l)[:400], flush=True)
            finally:
                sh("git checkout -q -- .", cwd="/repo")
main()
