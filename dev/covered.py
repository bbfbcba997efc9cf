#!/usr/bin/env python3
"""Lists the functions of the workspace no check evaluates (development aid). covered.py [ID...]"""
import os, sys, importlib, subprocess, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if len(sys.argv) == 3 and sys.argv[1] == "--one":
    from vt import interp
    seen = {}
    orig = interp.Interp.call_fn if hasattr(interp, "Interp") else None
    cls = next(c for c in vars(interp).values() if isinstance(c, type) and "call_fn" in vars(c))
    orig = cls.call_fn

    def call_fn(self, fn, *a, **k):
        seen[f"{fn.file}:{fn.line}:{fn.name}"] = 1
        return orig(self, fn, *a, **k)
    cls.call_fn = call_fn
    from rules.registry import CHECKS
    m, f = CHECKS[sys.argv[2]]
    if m == "common":
        from rules.common import run_specs
        run_specs(sys.argv[2], "quick", f)
    else:
        getattr(importlib.import_module("rules." + m), f)(sys.argv[2], "quick")
    json.dump(list(seen), open(f"/tmp/cov/{sys.argv[2]}.json", "w"))
else:
    os.makedirs("/tmp/cov", exist_ok=True)
    from rules.registry import CHECKS
    ids = sys.argv[1:] or list(CHECKS)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(4) as ex:
        list(ex.map(lambda i: subprocess.run([sys.executable, __file__, "--one", i], capture_output=True), ids))
    seen = set()
    for i in CHECKS:
        try:
            seen |= set(json.load(open(f"/tmp/cov/{i}.json")))
        except OSError:
            print("no coverage of", i)
    from vt.front import World
    w = World()
    for c in w.crates.values():
        for f in c.fns:
            k = f"{f.file}:{f.line}:{f.name}"
            if f.body is None or k in seen or any(x in f.file for x in ("test", "bench", "weights", "mock")) or "tests" in f.mod.path:
                continue
            print(k)
