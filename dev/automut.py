#!/usr/bin/env python3
"""Systematic textual mutants of one source file, judged by one rule module (development aid).
   automut.py MODULE RELFILE [FIRST LAST]  -- prints the mutants the module does not report"""
import os, re, subprocess, sys, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MOD, REL = sys.argv[1:3]
A, B = (int(sys.argv[3]), int(sys.argv[4])) if len(sys.argv) > 4 else (1, 10**9)
REPO = "/repo"
DIRS = sys.argv[5].split(",") if len(sys.argv) > 5 else ["math", "traits", "primitives"]
SUB = [(r"checked_add", "checked_sub"), (r"checked_sub", "checked_add"), (r"checked_mul\b", "checked_div"), (r"checked_div\b", "checked_mul"),
       (r"saturating_add", "saturating_sub"), (r"saturating_sub", "saturating_add"), (r"saturating_mul", "saturating_add"), (r" < ", " >= "), (r" > ", " <= "), (r" <= ", " > "), (r" >= ", " < "), (r" == ", " != "), (r" != ", " == "),
       (r" \+ ", " - "), (r" - ", " + "), (r" \* ", " / "), (r" / ", " * "), (r"Rounding::Up", "Rounding::Down"), (r"Rounding::Down", "Rounding::Up"),
       (r"round_up", "round_down"), (r"mul_floor", "mul_ceil"), (r"mul_ceil", "mul_floor"), (r"Increase", "Decrease"), (r"Decrease", "Increase"),
       (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"&&", "||"), (r"\|\|", "&&"), (r"\breserve\b", "hub_reserve"), (r"hub_reserve", "reserve"),
       (r"\b1(u128)?\b", "2"), (r"\b2\b", "3"), (r"_in\b", "_out"), (r"_out\b", "_in"), (r"\.0\b", ".1"), (r"\.1\b", ".0"), (r"is_zero\(\)", "is_one()"),
       (r"one\(\)", "zero()"), (r"zero\(\)", "one()"), (r"\+= ", "-= "), (r"-= ", "+= "), (r"!(?=[a-z])", ""), (r"to_u256!\((\w+), (\w+), (\w+)\)", r"to_u256!(\2, \1, \3)"),
       (r"to_u256!\((\w+), (\w+)\)", r"to_u256!(\2, \1)"), (r"\((\w+), (\w+)\)", r"(\2, \1)")]
src = open(f"{REPO}/{REL}").read().split("\n")
muts = []
for i, l in enumerate(src):
    if not A <= i + 1 <= B:
        continue
    t = l.strip()
    if not t or t.startswith(("//", "use ", "pub fn", "fn ", "#[", "pub mod")):
        continue
    for pat, rep in SUB:
        for m in re.finditer(pat, l):
            n = l[:m.start()] + re.sub(pat, rep, m.group(0), count=1) if True else l
            n += l[m.end():]
            if n != l and (i, n) not in muts:
                muts.append((i, n))
def one(k):
    i, n = muts[k]
    d = tempfile.mkdtemp(prefix="am_", dir="/dev/shm")
    try:
        for x in DIRS:
            os.makedirs(os.path.dirname(f"{d}/{x}"), exist_ok=True)
            shutil.copytree(f"{REPO}/{x}", f"{d}/{x}", symlinks=True, ignore=shutil.ignore_patterns("target", "tests*", "benchmarks"))
        s = list(src); s[i] = n
        open(f"{d}/{REL}", "w").write("\n".join(s))
        r = subprocess.run([sys.executable, "/tmp/rs.py" if not MOD.startswith("@") else f"{HERE}/check.py", MOD.lstrip("@")], env={**os.environ, "VERIF_REPO": d, "VERIF_EVIDENCE": d, "VERIF_BUILD": os.environ.get("VERIF_BUILD", HERE + "/build")}, capture_output=True, text=True, timeout=300)
        out = r.stdout
        hit = "[" in out.split("{'functions'")[0].replace("UNDEC", "") and any(x.startswith("[") for x in out.split("\n")) if not MOD.startswith("@") else "VIOLATION" in out
        und = "UNDEC" in out or "Traceback" in r.stderr
        return k, hit, und
    except subprocess.TimeoutExpired:
        return k, False, True
    finally:
        shutil.rmtree(d)
hits = 0
with ThreadPoolExecutor(8) as ex:
    res = sorted(ex.map(one, range(len(muts))))
for k, hit, und in res:
    hits += hit
    if not hit:
        print(("undec " if und else "MISS  ") + f"{muts[k][0]+1}: {src[muts[k][0]].strip()[:70]}  ->  {muts[k][1].strip()[:80]}")
print(f"{hits}/{len(muts)} reported")
