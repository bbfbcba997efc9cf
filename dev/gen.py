#!/usr/bin/env python3
"""Writes properties.jsonl, MANIFEST.json and rules/registry.py from the dev/props_*.py texts."""
import importlib, json, os, sys, glob
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H)
sys.path.insert(0, H)
props, na = [], []
for f in sorted(glob.glob(H + "/props_*.py")):
    m = importlib.import_module(os.path.basename(f)[:-3])
    props += m.PROPS
    na += getattr(m, "NA", [])
props.sort(key=lambda p: p["id"])
assert len({p["id"] for p in props}) == len(props)
reg = ["# generated by dev/gen.py", "CHECKS = {"]
out, checks = [], []
for p in props:
    assert len(p["title"]) <= 80, p["title"]
    assert p["statement"].count(". ") <= 2, p["id"]
    for x in p["files"]:
        assert os.path.exists("/repo/" + x), x
    d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
             anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))
    if p.get("observe"):
        d["anchors"]["observe_at"] = p["observe"]
    out.append(d)
    if p.get("na"):
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    checks.append(dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough",
                       technique=p["tech"], level=p["level"], level_note=p["note"]))
    reg.append(f"    {p['id']!r}: {(p.get('run') or ('common', p['mods']))!r},")
reg.append("}")
open(V + "/rules/registry.py", "w").write("\n".join(reg) + "\n")
with open(V + "/properties.jsonl", "w") as f:
    for d in out:
        f.write(json.dumps(d) + "\n")
man = dict(version=1, setup_cmd="python3 -c \"from vt.front import tool; tool()\"", checks=checks, not_applicable=na)
json.dump(man, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(out), "properties", len(checks), "checks", len(na), "not applicable")
