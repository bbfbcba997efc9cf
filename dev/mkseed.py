#!/usr/bin/env python3
"""Creates /verif/seeded/<id>/ from a planted-bug description and confirms it: mkseed.py FILE.py [ID...]
FILE defines SEEDS = [dict(id, prop, edits=[(file, old, new)], main=<main.rs> | demo=<demo.sh>, needs, breaks)]"""
import json, os, runpy, shutil, subprocess, sys
V = "/verif"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
seeds = runpy.run_path(sys.argv[1])["SEEDS"]
only = set(sys.argv[2:])
base = json.load(open("/opt/vp/BASELINE.json")) if os.path.exists("/opt/vp/BASELINE.json") else {}
assert not sh("git -C /repo status --porcelain").stdout.strip(), "repo not clean"
for s in seeds:
    if only and s["id"] not in only: continue
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    try:
        ok = True
        for f, old, new in s["edits"]:
            t = open(f"/repo/{f}").read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(f"/repo/{f}", "w").write(t.replace(old, new))
        open(f"{d}/patch.diff", "w").write(sh("git -C /repo diff").stdout)
        b = sh("bash /opt/vp/build.sh")
        tst = sh("bash /opt/vp/test.sh /tmp/seed_out.json")
        res = json.load(open("/tmp/seed_out.json"))
        miss = [x for x in base["stable"] if x not in res["passed"]]
        if s.get("main"):
            for x in ("sp-arithmetic", "sp-std"):
                shutil.rmtree(f"{d}/{x}", ignore_errors=True); shutil.copytree(f"{V}/dev/demo/{x}", f"{d}/{x}")
            for x in ("math.Cargo.toml", "demo.Cargo.toml", "demo.sh", "Cargo.lock"):
                shutil.copy(f"{V}/dev/demo/{x}", f"{d}/{x}")
            open(f"{d}/main.rs", "w").write(s["main"])
        else:
            open(f"{d}/demo.sh", "w").write(s["demo"])
            for n, c in s.get("files", {}).items():
                open(f"{d}/{n}", "w").write(c)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(f"{d}/meta.json", "w"), indent=1)
        bad = sh(f"bash {d}/demo.sh", cwd="/repo")
        chk = sh(f"VERIF_EVIDENCE=/tmp/seed_ev python3 {V}/check.py {s['prop']} quick", cwd=V)
        allc = chk.stdout
    finally:
        sh("git -C /repo checkout -- .")
    good = sh(f"bash {d}/demo.sh", cwd="/repo")
    print(s["id"], s["prop"], "build", b.returncode, "tests", "pass" if not miss else miss[:3], "demo(bug)", bad.returncode, "demo(ok)", good.returncode,
          "CAUGHT" if chk.returncode == 1 else f"missed rc={chk.returncode}", flush=True)
    if b.returncode: print(b.stdout[-500:], b.stderr[-800:])
    if bad.returncode == 0 or good.returncode: print(bad.stdout[-300:], bad.stderr[-300:], good.stdout[-300:], good.stderr[-800:])
    if chk.returncode == 1: print("   ", "\n".join(l for l in chk.stdout.split("\n") if l.startswith("  ["))[:300])
