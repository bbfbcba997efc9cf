"""Unit constants of the primitives crate."""
from rules.common import Result
from vt.front import World
from vt.interp import Interp, Frame, St, tonode_
from vt.spec import FnSpec, Out, SpecRun, Finding

UNITS = 10**12
SEC = 12
WANT = {
    # name: (module, value, why)
    "UNITS": ("currency", UNITS, "one token has 12 decimals"),
    "DOLLARS": ("currency", 100 * UNITS, "100 UNITS"),
    "CENTS": ("currency", UNITS, "DOLLARS / 100"),
    "MILLICENTS": ("currency", UNITS // 1000, "CENTS / 1000"),
    "NATIVE_EXISTENTIAL_DEPOSIT": ("currency", UNITS, "one CENT"),
    "FORTUNE": ("currency", 2**128 - 1, "the largest balance"),
    "MILLISECS_PER_BLOCK": ("time", SEC * 1000, "twelve second blocks"),
    "SECS_PER_BLOCK": ("time", SEC, "twelve second blocks"),
    "SLOT_DURATION": ("time", SEC * 1000, "one slot per block"),
    "MINUTES": ("time", 60 // SEC, "blocks per minute"),
    "HOURS": ("time", 3600 // SEC, "blocks per hour"),
    "DAYS": ("time", 86400 // SEC, "blocks per day"),
    "EPOCH_DURATION_IN_BLOCKS": ("time", 4 * 3600 // SEC, "four hours of blocks"),
    "DAY": ("unix_time", 86400_000, "milliseconds per day"),
    "WEEK": ("unix_time", 7 * 86400_000, "milliseconds per week"),
    "MONTH": ("unix_time", 2629743_000, "milliseconds in an average month"),
    "CORE_ASSET_ID": ("chain", 0, "the native asset"),
}
RULE = ("Every constant is folded from its defining expression in the source (through the constants it refers to) and compared with the specified value; "
        "the deposit formula is evaluated symbolically over both arguments; oracle source names are compared pairwise.")


def run(pid, tier):
    res = Result()
    world = World(only=["primitives"])
    c = world.crate("primitives")
    it = Interp(world)
    st = dict(constants=0, decided=0, undecided=0)
    und = []

    def value(name, mod):
        cs = [(m, x) for m, x in c.consts.get(name, []) if "tests" not in m.path]
        cs = [(m, x) for m, x in cs if m.path and m.path[-1] == mod] or cs
        if len(cs) != 1:
            return None, None, None
        m, x = cs[0]
        x = dict(x)
        x["_mod"] = m
        try:
            return it.const_val(x, Frame(None, m, None, 0)), m, x
        except Exception:
            return None, m, x

    for name, (mod, want, why) in WANT.items():
        st["constants"] += 1
        v, m, x = value(name, mod)
        n = tonode_(v) if v is not None else None
        if n is None or n.op != "const" or not isinstance(n.args[0], int):
            st["undecided"] += 1
            und.append(name)
            continue
        st["decided"] += 1
        if n.args[0] != want:
            res.findings.append(Finding("constant", f"primitives::{name}", m.file, x.get("line", 0),
                                        f"{name} is {n.args[0]}, not {want} ({why})", f"const|{name}"))
    names = {}
    for k in ("OMNIPOOL_SOURCE", "STABLESWAP_SOURCE", "XYK_SOURCE"):
        st["constants"] += 1
        v, m, x = value(k, "chain")
        n = tonode_(v) if v is not None else None
        if n is None or n.op not in ("const", "bytes", "b", "list"):
            st["undecided"] += 1
            und.append(k)
            continue
        st["decided"] += 1
        if n in names:
            res.findings.append(Finding("constant", f"primitives::{k}", m.file, x.get("line", 0), f"{k} and {names[n]} name the same oracle source", f"source|{k}"))
        names[n] = k
    r = SpecRun(world, pid)
    D, MC = 100 * UNITS, UNITS // 1000
    fs = [f for f in c.fns if f.name == "deposit" and "tests" not in f.mod.path]
    if fs:
        r.check(FnSpec(fs[0].qual, ["items", "bytes"], {"": Out(lambda e: e.items * 2 * D + e.bytes * 30 * MC, "exact", 0)}, degenerate=False, reject="open"))
    res.findings += r.findings
    res.coverage = dict(st)
    for k, v in r.stats.items():
        res.coverage[k] = res.coverage.get(k, 0) + v if isinstance(v, int) else v
    res.coverage["explanation"] = RULE
    res.coverage["undecided_items"] = und + r.undecided
    res.assumptions = ["integer constants are folded without wrap-around; a wrapping constant expression does not compile"]
    return res
