"""The prices taken from the oracle for fees, scheduled trades, farms and the Omnipool, and the locks other pallets are told about."""
from vt.terms import subst
from rules.p_dynfees import cstr
from rules.p_evmfee import handler, called, equal
from rules.p_formula import ratio
from rules.p_hooks import getter, is_source, source, eargs
from rules.p_small import *

RULE = ("Every path of the price adapters is evaluated, hop by hop for routes: the pair, source and period asked of the oracle and the arithmetic on the answers are compared with the definition of "
        "the price, as exact rational functions; an unknown price must not become a price.")
AD = "runtime/adapters"


def plain(n):
    """arguments of a call without the position marks"""
    return [x for x in n.args[1:] if x.op != "at"]


def unmap(n):
    """payload of a mapped option or result: the body at the payload"""
    if not isinstance(n, Node):
        return n
    a = [unmap(x) if isinstance(x, Node) else x for x in n.args]
    n = mk(n.op, *a)
    if n.op == "payload" and n.args[0].op == "m" and n.args[0].args[0] == "map" and n.args[0].args[2].op == "lam" and n.args[0].args[2].args[0] == 1:
        lam = n.args[0].args[2]
        return unmap(subst(lam.args[1], {mk("lamarg", 0, 0): mk("payload", n.args[0].args[1]), mk("lamarg", num_(0), num_(0)): mk("payload", n.args[0].args[1])}))
    if n.op == "fld" and n.args[0].op == "tuple" and str(n.args[1]).isdigit() and int(n.args[1]) < len(n.args[0].args):
        return n.args[0].args[int(n.args[1])]
    return n


def num_(k):
    from vt.terms import const
    return const(k)


def value(n):
    """the number a node stands for, prices asked of the oracle being atoms"""
    n = strip(n)
    if n.op == "fld" and str(n.args[1]) in ("n", "d", "0", "1"):
        b = strip(n.args[0])
        k = str(n.args[1])
        if k in ("0", "1") and b.op == "call" and "to_rational" in str(b.args[0]):
            x = plain(b)[0]
            if x.op == "tuple" and len(x.args) == 2:
                return value(x.args[int(k)])
        if k in ("n", "d"):
            p = parts(b)
            if p is not None:
                return p[k == "d"]
    if n.op in ("add", "mul"):
        out = None
        for x in n.args:
            v = value(x)
            if v is None:
                return None
            out = v if out is None else out + v if n.op == "add" else out * v
        return out
    if n.op == "sat":
        return value(n.args[0])
    if n.op in ("sub", "satsub"):
        a, b = value(n.args[0]), value(n.args[1])
        return None if a is None or b is None else a - b
    if n.op == "div":
        a, b = value(n.args[0]), value(n.args[1])
        return None if a is None or b is None else a / b
    return ratio(n)


def parts(n):
    """(numerator, denominator) of a price"""
    n = strip(n)
    if n.op == "call":
        k = str(n.args[0]).split("::")[-1]
        x = plain(n)
        if k in ("from", "into") and len(x) == 1:
            if x[0].op == "tuple" and len(x[0].args) == 2:
                x = list(x[0].args)
                k = "new"
            else:
                v = value(x[0])
                return None if v is None else (v, ratio(num_(1)))
        if k == "one" and not x:
            return ratio(num_(1)), ratio(num_(1))
        if k == "new" and len(x) == 2:
            a, b = value(x[0]), value(x[1])
            return None if a is None or b is None else (a, b)
    g = fields(n)
    if g and set(g) == {"n", "d"}:
        a, b = value(g["n"]), value(g["d"])
        return None if a is None or b is None else (a, b)
    if num(n) is not None:
        return ratio(n), ratio(num_(1))
    if n.op == "fld" and str(n.args[1]) == "0" and n.args[0].op == "payload":
        return ratio(mk("fld", n, "n")), ratio(mk("fld", n, "d"))
    return None


def frac(n):
    p = parts(n)
    return None if p is None or p[1].iszero() else p[0] / p[1]


def asked(facts):
    """the oracle calls decided on a path, with what is known of their answers: True, or the error, or False"""
    out = {}
    for f, p in facts:
        if f.op != "is":
            continue
        x = f.args[0]
        if called("get_price")(x):
            if f.args[1] in ("Ok", "Err"):
                ok = p == (f.args[1] == "Ok")
                out[x] = True if ok else out.get(x) if isinstance(out.get(x), str) else False
        elif x.op == "errof" and called("get_price")(x.args[0]) and p:
            out[x.args[0]] = str(f.args[1])
    return out


@guarded
def route(ctx):
    r, qs = handler(ctx, AD, "price", "OraclePriceProvider")
    loops = set()
    for q in qs:
        if not q.p.ok or q.node.op != "variant:Some":
            continue
        los = {n for f, p in q.facts for n in find(f, lambda n: n.op == "loopout")} | set(find(q.node, lambda n: n.op == "loopout"))
        if len(los) != 1:
            ctx.judge(r, q, "route price", None, show(q.node)[:80])
            continue
        lo = los.pop()
        loops.add(lo)
        # the product over the hops
        v = q.node.args[0]
        folds = {}
        if v.op == "call" and str(v.args[0]).split("::")[-1] == "new":
            for k, x in zip("nd", plain(v)):
                x = strip(x)
                if x.op == "fld" and x.args[0].op == "call" and "to_rational" in str(x.args[0].args[0]) and str(x.args[1]) == str("nd".index(k)):
                    t = plain(x.args[0])[0]
                    if t.op == "tuple" and len(t.args) == 2:
                        folds[k] = strip(t.args["nd".index(k)])
                elif x.op == "fld":
                    folds[k] = None
        for k in "nd":
            f = folds.get(k)
            if f is None or f.op != "fold":
                ctx.judge(r, q, "product of the hops", False if k in folds and f is None else None, lambda: show(v)[:100], relevant=VALUE)
                continue
            ok = f.args[0] is lo and num(f.args[1]) == 1 and (f.args[2].op == "mul" and len(f.args[2].args) == 2 and any(strip(x).op == "fld" and strip(x).args[1] == k and strip(x).args[0].op == "idx" and strip(x).args[0].args[0] is lo for x in f.args[2].args))
            ctx.judge(r, q, "product of the hops", ok, lambda: f"the price's {k} is {show(f)[:100]}", relevant=VALUE)
        empty = [p for f, p in q.facts if f.op == "eq" and any(num(x) == 0 for x in f.args) and any(x.op == "len" and x.args[0] is lo for x in f.args)]
        empty += [not p for f, p in q.facts if f.op == "lt" and num(f.args[0]) == 0 and f.args[1].op == "len" and f.args[1].args[0] is lo]
        ctx.judge(r, q, "empty route", False in empty, "a route without hops has a price", relevant=VALUE)
    for lo in loops:
        st = loopsteps(r, lo)
        info = loopinfo(r, str(lo.args[0]))
        if st is None:
            continue
        ctx.judge(r, None, "starts empty", st[2].op == "empty" or None, lambda: show(st[2])[:60])
        seq = info["seq"]
        dom = getattr(seq, "dom", None)
        ctx.judge(r, None, "every hop", (dom is r.arg(0) and not info["breaks"]) or None, lambda: f"the hops are {dom}")
        hop = mk("idx", r.arg(0), None) if False else None
        for x, n in st[1]:
            P = PPs(r, x)
            if n.op != "push" or n.args[0] is not st[0]:
                ctx.judge(r, P, "a price per hop", False if n is st[0] else None, lambda: "a hop contributes " + show(n)[-80:], relevant=VALUE)
                continue
            judge_hop(ctx, r, P, n.args[1])


class PPs:
    """the facts of one pass of a loop"""

    def __init__(self, r, st):
        self.facts = tuple(st.facts)

    def unknown(self, *a):
        return None


def judge_hop(ctx, r, P, price):
    pools = [(f.args[0], f.args[1]) for f, p in P.facts if f.op == "is" and p and f.args[0].op == "fld" and f.args[0].args[1] == "pool"]
    if len(pools) != 1:
        neg = [f.args[1] for f, p in P.facts if f.op == "is" and not p and f.args[0].op == "fld" and f.args[0].args[1] == "pool"]
        ctx.judge(r, P, "pool of the hop", False if {"Omnipool", "Stableswap", "XYK"} <= set(neg) else None, "a hop through an unsupported pool is priced")
        return
    (pn, kind), trade = pools[0], pools[0][0].args[0]
    a, b = mk("fld", trade, "asset_in"), mk("fld", trade, "asset_out")
    share = mk("vfld", pn, "Stableswap", "0")
    if kind == "Omnipool":
        want, src = [(lambda n: match(n, a), hub), (hub, lambda n: match(n, b))], "omnipool"
    elif kind == "Stableswap":
        isshare = lambda n: strip(n).op == "vfld" and strip(n).args[0] is pn
        want, src = [(lambda n: match(n, a), isshare), (isshare, lambda n: match(n, b))], "stableswap"
    elif kind == "XYK":
        want, src = [(lambda n: match(n, a), lambda n: match(n, b))], "xyk"
    else:
        ctx.judge(r, P, "pool of the hop", False, f"a hop through a {kind} pool is priced")
        return
    cs = asked(P.facts)
    got = frac(price)
    exp = ratio(num_(1))
    used = 0
    for c, ok in cs.items():
        x = plain(c)
        if len(x) != 4:
            ctx.judge(r, P, "oracle asked", None, show(c)[:80])
            return
        k = next((i for i, w in enumerate(want) if w[0](x[0]) and w[1](x[1])), None)
        ctx.judge(r, P, f"pair asked ({kind})", k is not None, lambda: f"the oracle is asked for {show(x[0])[:40]} against {show(x[1])[:40]}")
        ctx.judge(r, P, f"period asked ({kind})", match(x[2], r.arg(1)), lambda: f"the period asked is {show(x[2])[:40]}")
        ctx.judge(r, P, f"source asked ({kind})", is_source(x[3], src), lambda: f"the source asked is {source(x[3])[:40]}")
        ctx.judge(r, P, f"price known ({kind})", ok is True or ok == "SameAsset", lambda: f"an unknown price ({ok}) is used")
        if ok is True:
            p = mk("fld", mk("payload", c), "0")
            exp = exp * ratio(mk("fld", p, "n")) / ratio(mk("fld", p, "d"))
        used += 1
    ctx.judge(r, P, f"legs asked ({kind})", used == len(want), lambda: f"{used} prices make up the hop")
    ctx.judge(r, P, f"price of the hop ({kind})", got.same(exp) if got is not None else None, lambda: f"the hop's price is {show(price)[:100]}")


def hub(n):
    return getter(n, "Lrna")


@guarded
def feeprice(ctx):
    r, qs = handler(ctx, AD, "price", "AssetFeeOraclePriceProvider")
    for q in qs:
        v = q.node
        cur = r.arg(0)
        if v.op == "m" and v.args[0] == "map":
            v = unmap(mk("payload", v))
            some = mk("variant:Some", v)
            v = v
        elif v.op == "variant:Some":
            v = v.args[0]
        elif v.op == "variant:None" or not q.p.ok:
            # refused: not the native asset and not an accepted one, or nothing is known
            nat = [equal(q, cur, x) for f, p in q.facts for x in find(f, lambda n: getter(n, "A"))]
            ctx.judge(r, q, "native price", True not in nat, "the native asset has no price", relevant=VALUE)
            continue
        else:
            v = None
        if v is None:
            ctx.judge(r, q, "price", None, show(q.node)[:80])
            continue
        nat = [equal(q, cur, x) for f, p in q.facts for x in find(f, lambda n: getter(n, "A"))]
        acc = [p for f, p in q.facts if called("contains")(f) and match(plain(f)[0], cur)]
        f = frac(v)
        if True in nat:
            ctx.judge(r, q, "native price", f.same(ratio(num_(1))) if f is not None else None, lambda: f"the native asset's price is {show(v)[:60]}", relevant=VALUE)
            continue
        ctx.judge(r, q, "accepted", True in acc, "an asset that is not accepted has a price", relevant=VALUE)
        orc = [(g.args[0], p) for g, p in q.facts if g.op == "is" and g.args[1] in ("Some", "Ok") and called("price")(g.args[0])]
        known = [p for _, p in orc]
        if not orc:
            ctx.judge(r, q, "oracle first", None, "the oracle is not asked")
            continue
        for o, p in orc:
            x = plain(o)
            rt = x[0]
            g = [y for y in find(rt, called("get_route"))]
            pair = fields(plain(g[0])[0]) if g and plain(g[0]) else None
            okp = match(pair["asset_in"], cur) and getter(pair["asset_out"], "A") if pair and set(pair) == {"asset_in", "asset_out"} else None
            ctx.judge(r, q, "route of the pair", okp, lambda: f"the route is {show(rt)[:80]}", relevant=VALUE)
            ctx.judge(r, q, "period", getter(x[1], "Period"), lambda: f"the period is {show(x[1])[:40]}", relevant=VALUE)
        if True in known:
            o = [c for c, p in orc if p][0]
            ctx.judge(r, q, "oracle price", match(v, mk("payload", o)), lambda: f"the price is {show(v)[:80]}", relevant=VALUE)
            continue
        fb = find(v, lambda n: called("get")(n) and len(plain(n)) == 1)
        if len(set(fb)) != 1:
            ctx.judge(r, q, "fallback price", None, show(v)[:80])
            continue
        ctx.judge(r, q, "fallback price of", match(plain(fb[0])[0], cur), lambda: f"the fallback price is {show(v)[:80]}", relevant=VALUE)
        e = ratio(mk("payload", fb[0])) / ratio(num_(10**18))
        ctx.judge(r, q, "fallback price", f.same(e) if f is not None else None, lambda: f"the fallback price is {show(v)[:80]}", relevant=VALUE)


@guarded
def adjustment(ctx):
    r, qs = handler(ctx, AD, "get", "PriceAdjustmentAdapter")
    farm = r.arg(0) if r else None
    for q in qs:
        if q.node.op != "variant:Ok":
            continue
        cs = asked(q.facts)
        if len(cs) != 1:
            ctx.judge(r, q, "oracle asked", None, f"{len(cs)} times")
            continue
        c, ok = next(iter(cs.items()))
        x = plain(c)
        rew = mk("fld", farm, "reward_currency")
        det = [f.args[0] for f, p in q.facts if f.op == "is" and p and called("get")(f.args[0]) and "Assets" in str(f.args[0].args[0]) or f.op == "is" and p and f.args[0].op == "st"]
        det = [d for d in det if any(match(y, rew) for y in d.args)]
        bond = [p for f, p in q.facts if f.op == "is" and f.args[1] == "Bond" and f.args[0].op == "fld" and f.args[0].args[1] == "asset_type" and any(match(f.args[0].args[0], mk("payload", d)) for d in det)]
        if not det or not bond:
            ctx.judge(r, q, "type of the reward currency", None, "not known on this path")
        elif bond[0]:
            names = [mk("payload", mk("fld", mk("payload", d), "name")) for d in det]
            okb = x[0].op == "payload" and called("parse_bond_name")(x[0].args[0]) and any(match(plain(x[0].args[0])[0], n) for n in names)
            ctx.judge(r, q, "underlying of a bond", okb, lambda: f"the currency priced is {show(x[0])[:80]}", relevant=VALUE)
        else:
            ctx.judge(r, q, "reward currency", match(x[0], rew), lambda: f"the currency priced is {show(x[0])[:80]}", relevant=VALUE)
        ctx.judge(r, q, "incentivized asset", match(x[1], mk("fld", farm, "incentivized_asset")), lambda: f"priced against {show(x[1])[:60]}", relevant=VALUE)
        ctx.judge(r, q, "period", x[2].op == "variant:TenMinutes", lambda: f"the period is {show(x[2])[:40]}", relevant=VALUE)
        ctx.judge(r, q, "source", getter(x[3], "OracleSource"), lambda: f"the source is {show(x[3])[:40]}", relevant=VALUE)
        ctx.judge(r, q, "price known", ok is True, "an unknown price is used", relevant=VALUE)
        f, p = value(q.node.args[0]), mk("fld", mk("payload", c), "0")
        e = ratio(mk("fld", p, "n")) / ratio(mk("fld", p, "d")) * ratio(num_(10**18))
        ctx.judge(r, q, "adjustment", f.same(e) if f is not None else None, lambda: f"the adjustment is {show(q.node.args[0])[:80]}", relevant=VALUE)


@guarded
def forward(ctx):
    r, qs = handler(ctx, AD, "get_price", "EmaOraclePriceAdapter")
    for q in qs:
        cs = asked(q.facts)
        for c in find(q.node, called("get_price")):
            cs.setdefault(c, None)
        if not q.p.ok:
            ctx.judge(r, q, "known price given", True not in cs.values(), "a known price is refused", relevant=VALUE)
            continue
        if len(cs) != 1:
            ctx.judge(r, q, "oracle asked", None, f"{len(cs)} times")
            continue
        c, ok = next(iter(cs.items()))
        x = plain(c)
        ctx.judge(r, q, "pair", match(x[0], r.arg(0)) and match(x[1], r.arg(1)), lambda: f"asked for {show(x[0])[:40]}, {show(x[1])[:40]}", relevant=VALUE)
        ctx.judge(r, q, "period", getter(x[2], "Period"), lambda: f"the period is {show(x[2])[:40]}", relevant=VALUE)
        ctx.judge(r, q, "source", is_source(x[3], "omnipool"), lambda: f"the source is {source(x[3])[:40]}", relevant=VALUE)
        v = q.node.args[0] if q.node.op == "variant:Ok" else None
        ctx.judge(r, q, "price given", match(v, mk("fld", mk("payload", c), "0")) if v is not None else None, lambda: f"the price given is {show(v)[:60]}", relevant=VALUE)


@guarded
def locks(ctx):
    # vesting locks of the native asset
    r, qs = handler(ctx, AD, "locked", "VestingInfo")
    for q in qs:
        fnd = [n for f, p in q.facts for n in find(f, lambda n: n.op == "m" and n.args[0] == "find")] + find(q.node, lambda n: n.op == "m" and n.args[0] == "find")
        lockjudge(ctx, r, q, set(fnd), r.arg(0), None, lambda n: "VESTING" in show(n).upper(), lambda c: "balances" in str(c.args[0]).lower())
    r, qs = handler(ctx, AD, "get_by_lock", "MultiCurrencyLockedBalance")
    for q in qs:
        lid, cur, who = (r.arg(k) for k in range(3))
        fnd = [n for f, p in q.facts for n in find(f, lambda n: n.op == "m" and n.args[0] == "find")] + find(q.node, lambda n: n.op == "m" and n.args[0] == "find")
        nat = [equal(q, cur, x) for f, p in q.facts for x in find(f, lambda n: getter(n, "NativeAssetId"))]
        kind = True if True in nat else False if False in nat else None
        lockjudge(ctx, r, q, set(fnd), who, None if kind else cur, lambda n: match(n, lid), lambda c: None if kind is None else ("balances" in str(c.args[0]).lower()) == kind)


def lockjudge(ctx, r, q, fnd, who, cur, isid, rightpallet):
    """the amount of the lock with the given id, zero when there is none"""
    if len(fnd) != 1:
        ctx.judge(r, q, "lock found", None, f"{len(fnd)} searches")
        return
    f = fnd.pop()
    src, lam = f.args[1], f.args[2]
    ctx.judge(r, q, "locks of", src.op == "call" and rightpallet(src) and plain(src)[:1] and match(plain(src)[0], who) and (cur is None or len(plain(src)) == 2 and match(plain(src)[1], cur)), lambda: f"the locks searched are {show(src)[:60]}", relevant=VALUE)
    body = lam.args[1] if lam.op == "lam" and lam.args[0] == 1 else None
    ok = None
    if body is not None:
        ok = body.op == "eq" and any(x.op == "fld" and x.args[1] == "id" and x.args[0].op == "lamarg" for x in body.args) and any(isid(x) for x in body.args)
    ctx.judge(r, q, "lock searched", ok, lambda: f"the lock searched is {show(lam)[:80]}", relevant=VALUE)
    isok = [p for g, p in q.facts if g.op == "is" and find(g, lambda n: n is f) and g.args[1] in ("Some", "Ok")]
    if isok and isok[0]:
        v = unmap(q.node)
        ctx.judge(r, q, "amount locked", match(v, mk("fld", mk("payload", f), "amount")), lambda: f"the amount is {show(v)[:60]}", relevant=VALUE)
    elif isok:
        ctx.judge(r, q, "no lock", num(q.node) == 0 or q.node.op == "default", lambda: f"the amount is {show(q.node)[:60]}", relevant=VALUE)


def prices(pid, tier):
    ctx = Ctx(pid, tier)
    route(ctx)
    feeprice(ctx)
    adjustment(ctx)
    forward(ctx)
    locks(ctx)
    return ctx.done(RULE, ["the rounding of the product to 128 bits is decided by the math properties", "the oracle's answers are those of the oracle property"])
