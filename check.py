#!/usr/bin/env python3
"""Run the check of one property: check.py <ID> [quick|thorough].

Reads /repo's current source, decides the property, writes evidence/<ID>.json, prints one
VIOLATION line per reported construct (details in the replay file) and exits 1 if there is any."""
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)


def main():
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    t0 = time.time()
    from rules.registry import CHECKS
    modname, fname = CHECKS[pid]
    if modname == "common":
        from rules.common import run_specs
        res = run_specs(pid, tier, fname)
    else:
        res = getattr(importlib.import_module("rules." + modname), fname)(pid, tier)
    known = json.load(open(os.path.join(HERE, "known_findings.json")))["findings"]
    keys = {k["key"]: k for k in known if k["property"] == pid}
    new, old, seen = [], [], set()
    for f in res.findings:
        ident = (f.key, f.msg)
        if ident in seen:
            continue
        seen.add(ident)
        (old if f.key in keys else new).append(f)
    evd = os.environ.get("VERIF_EVIDENCE", os.path.join(HERE, "evidence"))
    os.makedirs(evd, exist_ok=True)
    cov = dict(res.coverage)
    cov["reported"] = len(new)
    cov["known_findings_seen"] = sorted({f.key for f in old})
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "other",
          "coverage": cov, "assumptions": res.assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    replay = os.path.join(evd, f"{pid}.violations.txt")
    if new:
        with open(replay, "w") as fh:
            for f in new:
                fh.write(f"rule: {f.rule}\nconstruct: {f.fn}\nat: {f.file}:{f.line}\nkey: {f.key}\n{f.msg}\n\n")
    elif os.path.exists(replay):
        os.unlink(replay)
    tmp = os.path.join(evd, f".{pid}.json.tmp")
    with open(tmp, "w") as fh:
        json.dump(ev, fh, indent=1, default=str)
        fh.write("\n")
    os.replace(tmp, os.path.join(evd, f"{pid}.json"))
    for k in sorted({f.key for f in old}):
        print(f"KNOWN-FINDING: property={pid} {keys[k]['what']}")
    for f in new:
        print(f"VIOLATION property={pid} replay={replay}")
        print(f"  [{f.rule}] {f.file}:{f.line} {f.fn}: {f.msg[:600]}")
    if not new:
        print(f"OK property={pid} " + " ".join(f"{k}={v}" for k, v in cov.items() if isinstance(v, int)))
    return 1 if new else 0


if __name__ == "__main__":
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
