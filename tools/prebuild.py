#!/usr/bin/env python3
import importlib.machinery, importlib.util, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
l = importlib.machinery.SourceFileLoader("check", os.path.join(V, "check"))
s = importlib.util.spec_from_loader("check", l); c = importlib.util.module_from_spec(s); l.exec_module(c)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
seen, bad = set(), 0
for p, vs in c.VARIANTS.items():
    for v in vs:
        k = (v["build"], v["pkg"])
        if k in seen or v.get("no_prebuild"): continue
        seen.add(k)
        ok, out = c.build(v["build"], [v["pkg"]], os.path.join(V, "evidence", f"build.{k[0]}.{k[1]}.log"))
        print("built" if ok else "FAILED", *k)
        if not ok: print(out[-3000:]); bad = 1
sys.exit(bad)
