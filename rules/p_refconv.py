"""Referrals in the runtime: conversion of the collected fees, and the tiers."""
from fractions import Fraction
from rules.p_evmfee import called, handler
from rules.p_small import *
from rules.p_prices import value
from rules.p_referrals import TIERS
from vt.pallet import tyname
from vt.terms import const

VALUE = ("free_balance",)
RT = "runtime/hydradx"
RULE = ("Every path of the conversion is evaluated: the trade made, its arguments and limit, and what is reported as received are compared with the specification. Every tier's volume and shares are evaluated as constants and compared "
        "with each other.")


def conversion(ctx):
    r, qs = handler(ctx, RT, "convert", "ConvertViaOmnipool")
    for q in qs or []:
        who, src, dst, amount = (r.arg(k) for k in range(4))
        eff = [e for e in q.eff if e.kind in ("call", "ext", "xcall")]
        last = lambda e: str(e.name).replace(".", "::").split("::")[-1]
        trades = [e for e in eff if last(e) in ("sell", "buy", "transfer", "withdraw", "deposit", "swap", "mint_into", "burn_from") and not str(e.name).startswith("RuntimeOrigin")]
        ok = q.node.op == "variant:Ok"
        if not trades:
            ctx.judge(r, q, "converted", not ok, "a conversion is reported though nothing was sold", relevant=VALUE)
            continue
        e = trades[0]
        if not ctx.judge(r, q, "one sale", len(trades) == 1 and str(e.name).endswith("Omnipool::sell") and len(e.args) == 5, lambda: f"assets moved by {[x.name for x in trades]}", relevant=VALUE, eff=e):
            continue
        o, a, b, amt, lim = [strip(x) for x in e.args]
        ctx.judge(r, q, "sold for the owner", called("signed")(o) and strip(o.args[1]) is who, lambda: f"sold for {show(o)[:80]}", relevant=VALUE, eff=e)
        ctx.judge(r, q, "asset sold and bought", a is src and b is dst, lambda: f"sells {show(a)[:40]} for {show(b)[:40]}", relevant=VALUE, eff=e)
        ctx.judge(r, q, "exactly the amount", amt is amount, lambda: f"sells {show(amt)[:80]}", relevant=VALUE, eff=e)
        small = [(f, p) for f, p in q.facts if f.op in ("lt", "le") and find(f, lambda z: z.op in ("call", "cfg", "ext") and "MinimumTradingLimit" in str(z.args[0]))]
        en = any(f.op == "lt" and not p and strip(f.args[0]) is amount or f.op == "le" and p and strip(f.args[1]) is amount for f, p in small)
        ctx.judge(r, q, "not below the trading limit", en, "an amount below the pool's trading limit is sold", relevant=VALUE)
        prices = [(strip(f.args[0]), p if f.args[1] == "Some" else not p) for f, p in q.facts if f.op == "is" and called("spot_price")(strip(f.args[0])) and f.args[1] in ("Some", "None")]
        good = [p for n, p in prices if [strip(x) for x in n.args[1:] if isinstance(x, Node)][:2] == [dst, src] and p]
        if not ctx.judge(r, q, "price required", bool(good) if prices else False, "sold without a price of the asset bought in terms of the asset sold", relevant=VALUE):
            continue
        price = mk("payload", [n for n, p in prices if p][0])
        one = [x for x in lim.args if num(x) is not None] if lim.op == "max" else []
        main = [x for x in lim.args if num(x) is None] if lim.op == "max" else [lim]
        ctx.judge(r, q, "limit at least one unit", any(num(x) >= 1 for x in one), lambda: f"limit {show(lim)[:120]} may be zero", relevant=VALUE, eff=e)
        exps = find(lim, lambda z: z.op == "m" and "mul_int" in z.args[0] and len(z.args) >= 3)
        exps = {z for z in exps}
        if len(main) != 1 or len(exps) != 1:
            ctx.judge(r, q, "limit within one percent of the price", None if exps else False, "limit does not follow the price", relevant=VALUE, eff=e)
            continue
        x = exps.pop()
        ctx.judge(r, q, "expected amount", strip(x.args[1]) is strip(price) and strip(x.args[2]) is amount, lambda: f"expects {show(x)[:100]}", relevant=VALUE, eff=e)
        v, w = value(main[0]), value(x)
        if v is None or w is None:
            ctx.judge(r, q, "limit within one percent of the price", None, "limit not understood")
            continue
        k = next((pct for pct in range(0, 101) if v.same(w * Fraction(100 - pct, 100)) is True), None) if not hasattr(v, "_x") else None
        ctx.judge(r, q, "limit within one percent of the price", None if k is None else k <= 1, f"the limit is {k} percent below the price", relevant=VALUE, eff=e)
        if not ok:
            continue
        n = q.node.args[0]
        i = q.eff.index(e)
        bal = lambda z: called("free_balance")(z) and [strip(y) for y in z.args[1:] if isinstance(y, Node) and y.op != "at"] in ([dst, who],)
        stamp = lambda z: max([y.args[0] for y in z.args if isinstance(y, Node) and y.op == "at"] or [0])
        if n.op == "sat":
            n = n.args[0]
        if n.op in ("satsub", "sub") and bal(n.args[0]) and bal(n.args[1]):
            ctx.judge(r, q, "the amount received", stamp(n.args[0]) > stamp(n.args[1]), "the amount received is the balance before less the balance after", relevant=VALUE)
        else:
            fbs = find(n, lambda z: called("free_balance")(z))
            wrong = not any(stamp(z) for z in fbs) or n in fbs or n.op in ("satsub", "sub") and n.args[0] in fbs and n.args[1] in fbs
            ctx.judge(r, q, "the amount received", False if wrong else None, lambda: f"reports {show(n)[:100]}", relevant=VALUE)
    if qs:
        ctx.judge(r, qs[0], "converts", any(q.node.op == "variant:Ok" for q in qs), "nothing is ever converted", relevant=VALUE)


def tiers(ctx):
    r, qs = handler(ctx, RT, "get", "ReferralsLevelVolumeAndRewards")
    got = {}
    for q in qs or []:
        names = [f.args[1] for f, p in q.facts if f.op == "is" and p]
        n = strip(q.node)
        if n.op != "tuple" or len(n.args) != 2 or not n.args[1].op.startswith("struct:FeeDistribution"):
            ctx.judge(r, q, "tier", None, lambda: f"value {show(n)[:80]}")
            continue
        d = dict(zip(n.args[1].op.split(":")[2].split(","), [num(x) for x in n.args[1].args]))
        v = num(n.args[0])
        if v is None or None in d.values():
            ctx.judge(r, q, "tier", None, "not constant")
            continue
        if not names:
            no = {f.args[1] for f, p in q.facts if f.op == "is" and not p}
            names = [t for t in ["None"] + TIERS if t not in no]
        for t in names:
            got[t] = (v, d, q)
    for t, (v, d, q) in got.items():
        s = sum(d.values())
        ctx.judge(r, q, "at most the whole fee", s <= 1000000, f"{t}: shares add up to {s} ppm", relevant=VALUE)
        base = sum(got["None"][1].values()) if "None" in got else s
        ctx.judge(r, q, "same total at every tier", s == base, f"{t}: shares add up to {s} ppm, not {base}", relevant=VALUE)
        if t == "None":
            ctx.judge(r, q, "unlinked accounts are paid nothing", d.get("referrer") == 0 and d.get("trader") == 0, f"no code: {d}", relevant=VALUE)
    ts = [t for t in TIERS if t in got]
    if len(ts) < len(TIERS) and qs:
        ctx.judge(r, qs[0], "tiers", None, "not all tiers found")
    for a, b in zip(ts, ts[1:]):
        (v, d, _), (w, e, q) = got[a], got[b]
        ctx.judge(r, q, "thresholds increase", w > v, f"{b} needs {w}, {a} needs {v}", relevant=VALUE)
        ctx.judge(r, q, "a higher tier pays no less", e["referrer"] >= d["referrer"] and e["trader"] >= d["trader"], f"{b} pays less than {a}", relevant=VALUE)


def referrals(pid, tier):
    ctx = Ctx(pid, tier)
    g = guarded(lambda c, f: f(c))
    for f in (conversion, tiers):
        g(ctx, f)
    return ctx.done(RULE, ["the price is exact to the precision of the spot price; rounding of the limit by one unit is not decided"])
