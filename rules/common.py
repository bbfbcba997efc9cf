"""What every rule module returns, and the driver for formula specifications."""
from vt.front import World
from vt.spec import SpecRun, IterSpec, LoopSpec, NodeSpec


class Result:
    def __init__(self):
        self.findings = []
        self.coverage = {}
        self.assumptions = []


RATFUN = ("Each listed function is evaluated symbolically from its source into one result graph per exit path; every result "
          "component is normalised to a rational function of the inputs plus a directed rounding-error interval, and compared with the "
          "specified formula, rounding direction and accuracy; guards are compared with the specified domain. Constructs the evaluator "
          "does not model are counted as undecided and never reported.")
ARITH = ["primitive and U256 checked/saturating arithmetic, FixedU128, Permill and Ratio follow their documented semantics",
         "reference magnitudes (about 2^80 per balance) are used only to rank rounding error, never to decide a formula"]


def group(name):
    """specs of one named group: (module, predicate on the function name)"""
    import importlib
    from rules.groups import GROUPS
    mod, names = GROUPS[name]
    S = importlib.import_module("rules." + mod).specs()
    if callable(names):
        return [s for s in S if names(s.qual)]
    return [s for s in S if names is None or any(("::" + s.qual).endswith("::" + n if "::" not in n else n.replace("mining::", "liquidity_mining::").replace("staking::", "staking::math::")) for n in names)]


def run_specs(pid, tier, mods, world=None):
    res = Result()
    world = world or World(only=["math", "traits"])
    r = SpecRun(world, pid)
    names = []
    for m in mods:
        for s in group(m):
            names.append(s.qual)
            (r.check_node if isinstance(s, NodeSpec) else r.check_loop if isinstance(s, LoopSpec) else r.check_iter if isinstance(s, IterSpec) else r.check)(s)
    res.findings = r.findings
    res.coverage = dict(r.stats)
    res.coverage["explanation"] = RATFUN
    res.coverage["analysed"] = names
    res.coverage["undecided_items"] = r.undecided[:40]
    res.assumptions = ARITH
    return res
