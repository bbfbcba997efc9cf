"""Signed balance changes (BalanceUpdate) behave like the integers they stand for."""
from rules.p_oracle import tyname
from rules.p_small import *

RULE = ("Every path of the operations on signed balance changes is evaluated per combination of signs: the result must be the signed sum by linear arithmetic, of a sign its comparison justifies, "
        "and the only path that gives up is the one on which a sum does not fit.")
MS = "math"


def pick(ctx, name, self, other=None):
    """the operation, with another change (other True) or with a plain amount"""
    p = ctx.pallet(MS)
    fs = [f for f in p.c.by_name.get(name, []) if f.mod.file.endswith("omnipool/types.rs") and "tests" not in f.mod.path and f.impl and tyname(f.impl["self"]) == self]
    if other is not None:
        fs = [f for f in fs if ("Self" in str(f.params[1][1]) or "BalanceUpdate" in str(f.params[1][1])) == other]
    if len(fs) != 1:
        ctx.c["missing"] += 1
        ctx.und.append(f"{self}::{name}: not found")
        return None
    return fs[0]


def paths(ctx, name, self, other=None):
    f = pick(ctx, name, self, other)
    return (None, []) if f is None else fnpaths(ctx, MS, name, fn=f)


def sign(q, n):
    """+1, -1 or None, with the amount"""
    inc = None
    for f, p in q.facts:
        if f.op == "is" and f.args[0] is n and f.args[1] in ("Increase", "Decrease"):
            inc = (f.args[1] == "Increase") == p if inc is None or p else inc
    if inc is None:
        return None
    return (1, mk("vfld", n, "Increase", "0")) if inc else (-1, mk("vfld", n, "Decrease", "0"))


def scaled(s, x):
    return {k: s * c for k, c in lin(x).items()}


def unpart(q):
    """[(value or None, extra facts)] of an Option result"""
    n = q.node
    if n.op == "part:Option":
        yes = [(c, True) if c.op != "not" else (c.args[0], False) for c in n.args[1:]]
        return [(n.args[0], yes)] + [(None, [(c, not p)]) for c, p in yes]
    if n.op == "variant:None":
        return [(None, [])]
    if n.op == "variant:Some":
        return [(n.args[0], [])]
    return [(n, [])]


def overflow(facts, sums):
    """is the sum said not to fit?"""
    return any(f.op == "fits" and not p and lin(f.args[0]) == lin(s) for f, p in facts for s in sums)


def wellformed(q):
    return all(v is None or v.op in ("variant:Increase", "variant:Decrease") for v, _ in unpart(q))


def ge(facts, a, b):
    """a >= b"""
    return any(f.op == "lt" and not p and f.args[0] is a and f.args[1] is b or f.op in ("lt", "le") and p and f.args[0] is b and f.args[1] is a for f, p in facts)


@guarded
def changes(ctx):
    """adding two changes"""
    for name in ("checked_add", "merge", "add"):
        r, qs = paths(ctx, name, "BalanceUpdate", True if name != "merge" else None)
        reached = {}
        for q in qs:
            u, v = sign(q, r.arg(0)), sign(q, r.arg(1))
            if u is None or v is None:
                ctx.judge(r, q, "signed sum", None, "the path does not say which signs it adds", relevant=VALUE)
                continue
            want = ladd(scaled(*u), scaled(*v))
            a, b = u[1], v[1]
            for val, more in unpart(q):
                facts = list(q.facts) + more
                if val is None:
                    # the magnitude may only be refused when it does not fit
                    same_ = u[0] == v[0]
                    bad = [f for f, p in more if f.op == "lt" and not same_ and p]
                    ok = same_ and overflow(facts, [mk("add", a, b), mk("add", b, a)])
                    if not ok and not same_:
                        # a difference the comparison made safe is not reached
                        f = [f for f, p in facts if f.op == "lt" and (f, not p) in facts]
                        ok = bool(f)
                    ctx.judge(r, q, "refused only on overflow", ok, "a sum that fits is refused", relevant=VALUE)
                    continue
                s = {"variant:Increase": 1, "variant:Decrease": -1}.get(val.op)
                if s is None:
                    ctx.judge(r, q, "signed sum", None, f"the result is {show(val)[:60]}", relevant=VALUE)
                    continue
                ctx.judge(r, q, "signed sum", scaled(s, val.args[0]) == want, lambda: f"{'+-'[u[0] < 0]}a and {'+-'[v[0] < 0]}b add to {'+-'[s < 0]}({show(val.args[0])[:80]})", relevant=VALUE)
                if u[0] != v[0]:
                    # the amount of the result is a - b or b - a: not negative by the comparison made
                    first = lin(val.args[0]) == lsub(lin(a), lin(b))
                    if not (ge(facts, a, b) and ge(facts, b, a)):
                        reached.setdefault((u[0], v[0]), {}).setdefault(first, q)
                    ctx.judge(r, q, "sign of the larger", ge(facts, a, b) if first else ge(facts, b, a) or any(f.op == "lt" and p and f.args[0] is a and f.args[1] is b for f, p in facts), "the smaller amount's sign is kept", relevant=VALUE)
        for k in ((1, -1), (-1, 1)) if r is not None and qs else ():
            seen = reached.get(k, {})
            ok = len(seen) == 2 or (None if any(not wellformed(z) for z in qs) or not reached else False)
            ctx.judge(r, next(iter(seen.values()), qs[0]), "differences of both signs", ok, "a difference of one sign is never given", relevant=VALUE)


@guarded
def amounts(ctx):
    """applying a change to an amount; magnitude and zero"""
    r, qs = paths(ctx, "add", "BalanceUpdate", False)
    for q in qs:
        u, b = sign(q, r.arg(0)), r.arg(1)
        if u is None:
            ctx.judge(r, q, "applied change", None, "the path does not say which sign it applies", relevant=VALUE)
            continue
        for val, more in unpart(q):
            facts = list(q.facts) + more
            if val is not None:
                ctx.judge(r, q, "applied change", lin(val) == ladd(lin(b), scaled(*u)), lambda: f"applying {'+-'[u[0] < 0]}a to b gives {show(val)[:60]}", relevant=VALUE)
                if u[0] < 0:
                    ctx.judge(r, q, "no underflow", ge(facts, b, u[1]), "more than there is can be taken", relevant=VALUE)
                continue
            ok = overflow(facts, [mk("add", b, u[1]), mk("add", u[1], b)]) if u[0] > 0 else any(f.op == "lt" and p and f.args[0] is b and f.args[1] is u[1] for f, p in facts)
            ctx.judge(r, q, "refused only when impossible", ok, "a change that can be applied is refused", relevant=VALUE)
    r, qs = paths(ctx, "deref", "BalanceUpdate")
    for q in qs:
        u = sign(q, r.arg(0))
        ctx.judge(r, q, "magnitude", None if u is None else q.node is u[1], lambda: f"the magnitude is given as {show(q.node)[:60]}", relevant=VALUE)
    r, qs = paths(ctx, "default", "BalanceUpdate")
    for q in qs:
        ctx.judge(r, q, "zero", q.node.op in ("variant:Increase", "variant:Decrease") and num(q.node.args[0]) == 0 if q.node.args else None, "the default change is not zero", relevant=VALUE)


FIELDS = ("reserve", "hub_reserve", "shares", "protocol_shares")


@guarded
def state(ctx):
    """a state after a change, and its price"""
    r, qs = paths(ctx, "delta_update", "AssetReserveState")
    for q in qs:
        if q.node.op != "variant:Some" or not q.node.args[0].op.startswith("struct:"):
            continue
        n = q.node.args[0]
        got = dict(zip(n.op.split(":")[2].split(","), n.args))
        for k in FIELDS:
            d, b = mk("fld", r.arg(1), "delta_" + k), mk("fld", r.arg(0), k)
            leaves = find(got.get(k, ZERO), lambda z: z.op in ("vfld", "fld")) if k in got else []
            base = {z for z in leaves if z.op == "vfld"}
            ok = None if k not in got else all(z.args[0] is d for z in base) and bool(base) and any(z is b for z in leaves) and not any(z.op == "fld" and z.args[0] is r.arg(0) and z is not b for z in leaves)
            ctx.judge(r, q, f"{k} after the change", ok, lambda: f"{k} becomes {show(got[k])[:80]}", relevant=VALUE)
    for self, x, y in (("AssetReserveState", lambda s: mk("fld", s, "hub_reserve"), lambda s: mk("fld", s, "reserve")), ("Position", lambda s: mk("fld", mk("fld", s, "price"), "0"), lambda s: mk("fld", mk("fld", s, "price"), "1"))):
        r, qs = paths(ctx, "price", self)
        for q in qs:
            for val, more in unpart(q):
                if val is None:
                    continue
                v = val.args[0] if val.op == "sat" else val
                ok = v.op == "div" and v.args[1] is y(r.arg(0)) and v.args[0].op == "mul" and x(r.arg(0)) in v.args[0].args and any(str(num(z)) == str(10**18) for z in v.args[0].args if isinstance(z, Node)) if v.op == "div" else None
                ctx.judge(r, q, "price", ok, lambda: f"the price is {show(v)[:80]}", relevant=VALUE)


def signed(pid, tier):
    ctx = Ctx(pid, tier)
    changes(ctx)
    amounts(ctx)
    state(ctx)
    return ctx.done(RULE, ["integer addition and subtraction of the balance type follow their documented semantics"])
