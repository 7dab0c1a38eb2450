#!/usr/bin/env python3
"""seed.py: write seeded/<id> from a description (used interactively): edits given as (file, old, new)."""
import json, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(i, prop, edits, needs, breaks, main, features="std,f32,f64,si", deps="", demo=None, bad=()):
    d = f"{V}/seeded/{i}"
    os.makedirs(d, exist_ok=True)
    w = "/tmp/seedw"
    shutil.rmtree(w, ignore_errors=True)
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, o, n in edits:
        p = f"{w}/{f}"
        t = open(p).read()
        assert t.count(o) == 1, (i, f, t.count(o), o)
        open(p, "w").write(t.replace(o, n))
    r = subprocess.run(["git", "diff"], cwd=w, text=True, stdout=subprocess.PIPE)
    open(d + "/patch.diff", "w").write(r.stdout)
    shutil.rmtree(w)
    if demo:
        open(d + "/demo.sh", "w").write(demo)
    else:
        shutil.copy(V + ("/tools/demo_reject.sh" if bad else "/tools/demo.sh"), d + "/demo.sh")
        for k, b in enumerate(bad):
            open(f"{d}/bad{k}.rs", "w").write(b)
        fs = ", ".join(f'"{x}"' for x in features.split(","))
        t = open(V + "/tools/demo.toml").read().replace('"std", "f32", "f64", "si"', fs).replace("[workspace]", deps + "[workspace]")
        open(d + "/demo.toml", "w").write(t)
        open(d + "/main.rs", "w").write(main)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
