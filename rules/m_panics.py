"""No panic, wrap-around or division by zero in the math crate's public functions."""
import importlib
from rules.common import Result
from vt.front import World
from vt.interp import Budget
from vt.spec import FnSpec, run_fn, SpecRun, Finding, show
from vt import ratfun as R
from vt import panics

MODS = ("xyk", "omnipool", "stableswap", "lbp", "fees", "farms", "numbers", "powers")
FIX = {g: ("U32F96",) for g in ("S", "D", "T")}
RULE = ("Every unchecked arithmetic operation, conversion, unwrap/expect, index, shift, assertion and panic on every path of every public function of the "
        "math crate is an obligation; it is discharged from the facts of the path (intervals, order and non-zero facts, Farkas over linear facts). "
        "It is reported when it fails for certain: everything it depends on is a linear or interval condition on the function's own arguments and "
        "does not imply it. Otherwise it is counted as undecided.")


def targets(world):
    c = world.crate("math")
    seen = {}
    for m in MODS:
        for s in importlib.import_module("rules.m_" + m).specs():
            fn = c.fn(s.qual) or c.fn(s.qual.split('::', 1)[1])
            if fn is not None and fn.item.get("vis", "pub"):
                seen[fn.qual] = s
    for f in c.fns:
        if f.item.get("test") or "/tests" in f.file or "test_utils" in f.file or f.item.get("body") is None:
            continue
        vis = f.item.get("vis")
        if not vis or "pub" not in str(vis):
            continue
        if f.qual not in seen:
            seen[f.qual] = FnSpec(f.qual, [p if isinstance(p, str) else f"a{i}" for i, (p, t) in enumerate(f.params)], {},
                                  tymap=FIX if "transcendental" in f.qual else {})
    return seen


def run(pid, tier):
    res = Result()
    world = World(only=["math", "traits"])
    st = dict(functions=0, obligations=0, proved=0, undecided=0, failed_to_evaluate=0)
    und = []
    for q, s in sorted(targets(world).items()):
        try:
            r = run_fn(world, s)
        except Budget:
            r = None
        except Exception:
            r = None
        if r is None:
            st["failed_to_evaluate"] += 1
            und.append(q)
            continue
        fn, it = r[0], r[1]
        st["functions"] += 1
        for o in it.obls.values():
            st["obligations"] += 1
            if o.ok:
                st["proved"] += 1
            else:
                und.append(f"{q}: {o.kind} {o.file}:{o.line} {o.desc}"[:200])
        ctx = R.Ctx(mag={}, default_mag=1e24)
        for o in it.obl_open:
            if panics.definite(ctx, o):
                key = f"{o.kind}|{q}|{o.desc}"[:300]
                facts = [("" if p else "not ") + show(c) for c, p in o.facts][:6]
                if not any(f.key == key for f in res.findings):
                    res.findings.append(Finding("panic", o.fn, o.file, o.line, f"{o.kind}: {o.desc} (reached from {q}" + (", where " + " and ".join(facts) if facts else "") + ")", key))
    st["undecided"] = st["obligations"] - st["proved"]
    res.coverage = dict(st)
    res.coverage["explanation"] = RULE
    res.coverage["undecided_items"] = und[:60]
    res.assumptions = ["integer and fixed-point types follow their documented semantics; FixedU128::from_rational panics on overflow and on a zero denominator"]
    return res
