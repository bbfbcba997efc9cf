"""What the pools tell the price oracle, the circuit breaker and the fee receivers after a trade or a change of liquidity."""
from rules.p_dynfees import cstr
from rules.p_evmfee import handler, called, equal
from rules.p_small import *

RULE = ("Every path of the hooks the Omnipool and Stableswap run after a trade or liquidity change is evaluated: the assets, amounts, reserves and prices handed to the oracle, the limits "
        "asked of the circuit breaker and the fee handed to referrals and staking must be those of the state change, and every refusal must come back to the pool.")
AD = "runtime/adapters"
SOURCES = {"OMNIPOOL_SOURCE": "omnipool", "STABLESWAP_SOURCE": "stablesw", "XYK_SOURCE": "hydraxyk"}


def source(n):
    s = cstr(n)
    return s or (str(n.args[0]) if n.op in ("const", "fn") else show(n))


def is_source(n, what):
    s = source(n).lower()
    return True if what in s or SOURCES.get(what.upper() + "_SOURCE", "\0") in s else False if n.op == "const" else None


def getter(n, *names):
    """the configured constant: a call without arguments of one of the getters"""
    return called("get")(n) and not [x for x in n.args[1:] if x.op != "at"] and any(str(n.args[0]).startswith(k) for k in names) or n.op == "cfg" and str(n.args[0]) in names


def delta(n, of):
    """the magnitude of a balance update"""
    n = strip(n)
    while n.op == "vfld" or n.op in ("m", "call") and str(n.args[0]).split("::")[-1] in ("deref", "into", "clone"):
        n = n.args[0] if n.op == "vfld" else n.args[1]
    return n is strip(of)


def calls(q, name):
    return [e for e in q.eff if e.kind in ("call", "ext") and "WeightInfo" not in str(e.name) and str(e.name).replace(".", "::").split("::")[-1] == name]


def eargs(e):
    return [a for a in e.args if isinstance(a, Node) and a.op != "at"]


def okres(q, e):
    """is the effect's success required by the path"""
    nm = str(e.name).replace(".", "::").split("::")[-1]
    for f, p in q.facts:
        if f.op == "is" and f.args[1] in ("Ok", "Err") and called(nm)(f.args[0]) and tuple(x for x in f.args[0].args[1:] if x.op != "at") == tuple(eargs(e)):
            return p == (f.args[1] == "Ok")
    if called(nm)(q.node) and tuple(x for x in q.node.args[1:] if x.op != "at") == tuple(eargs(e)):
        return True
    mine = lambda n: called(nm)(n) and len(eargs(e)) == len([x for x in n.args[1:] if x.op != "at"])
    if not any(find(f, mine) for f, p in q.facts) and not find(q.node, mine):
        return False  # nothing depends on the result
    return None


def ispair(n, a, b, exact=None):
    """a price a/b"""
    n = strip(n)
    g = fields(n)
    if g and set(g) == {"n", "d"}:
        x = [g["n"], g["d"]]
    elif n.op in ("call", "ext") and str(n.args[0]).split("::")[-1] in ("new", "from", "into"):
        x = [y for y in n.args[1:] if y.op != "at"]
        if len(x) == 1 and x[0].op == "tuple":
            x = list(x[0].args)
    elif n.op == "tuple":
        x = list(n.args)
    else:
        return None
    return len(x) == 2 and match(x[0], a) and match(x[1], b)


def told(ctx, r, q, e, label, a, b, da, db, la, lb, src="omnipool"):
    x = eargs(e)
    if len(x) != 8:
        ctx.judge(r, q, label, None, f"called with {len(x)} arguments")
        return
    hub = lambda n, w: getter(n, "Lrna") if w == "hub" else match(n, w)
    ctx.judge(r, q, label + " source", is_source(x[0], src), lambda: f"the source given is {source(x[0])[:40]}", eff=e, relevant=VALUE)
    ctx.judge(r, q, label + " assets", hub(x[1], a) and hub(x[2], b), lambda: f"the pair given is {show(x[1])[:40]}, {show(x[2])[:40]}", eff=e, relevant=VALUE)
    ctx.judge(r, q, label + " amounts", delta(x[3], da) and delta(x[4], db), lambda: f"the amounts given are {show(x[3])[:60]}, {show(x[4])[:60]}", eff=e, relevant=VALUE)
    ctx.judge(r, q, label + " reserves", match(x[5], la) and match(x[6], lb), lambda: f"the reserves given are {show(x[5])[:60]}, {show(x[6])[:60]}", eff=e, relevant=VALUE)
    ctx.judge(r, q, label + " price", ispair(x[7], la, lb), lambda: f"the price given is {show(x[7])[:80]}", eff=e, relevant=VALUE)


def required(ctx, r, q, e, label):
    ctx.judge(r, q, label, okres(q, e), "succeeds although it was refused", eff=e, relevant=VALUE)


def limit(ctx, r, q, name, want, label):
    es = calls(q, name)
    if len(es) != 1:
        ctx.judge(r, q, label, False if not es else None, f"{name} is asked {len(es)} times", relevant=VALUE)
        return
    x = eargs(es[0])
    ok = len(x) == len(want) and all(w(n) for w, n in zip(want, x))
    ctx.judge(r, q, label, ok, lambda: f"{name} is asked with {', '.join(show(n)[:45] for n in x)}", eff=es[0], relevant=VALUE)
    required(ctx, r, q, es[0], label + " required")


def M(n):
    return lambda x: match(x, n)


def info(a):
    fl = lambda *k: mkf(a, *k)
    return dict(id=fl("asset_id"), dr=fl("delta_changes", "delta_reserve"), dh=fl("delta_changes", "delta_hub_reserve"), ar=fl("after", "reserve"), ah=fl("after", "hub_reserve"),
                br=fl("before", "reserve"), bh=fl("before", "hub_reserve"), safe=fl("safe_withdrawal"))


def mkf(a, *ks):
    for k in ks:
        a = mk("fld", a, k)
    return a


ZERO = lambda n: num(strip(n)) == 0 or strip(n).op == "default"


@guarded
def omnipool(ctx):
    S = "OmnipoolHookAdapter"
    r, qs = handler(ctx, AD, "on_liquidity_changed", S)
    for q in qs:
        if not q.p.ok:
            continue
        i = info(r.arg(1))
        es = calls(q, "on_liquidity_changed")
        if len(es) != 1:
            ctx.judge(r, q, "liquidity told", False if not es else None, f"the oracle is told {len(es)} times", relevant=VALUE)
        for e in es:
            told(ctx, r, q, e, "liquidity told", i["id"], "hub", i["dr"], i["dh"], i["ar"], i["ah"])
            required(ctx, r, q, e, "oracle refusal")
        inc = [p if f.args[1] == "Increase" else not p for f, p in q.facts if f.op == "is" and match(f.args[0], i["dr"]) and f.args[1] in ("Increase", "Decrease")]
        safe = q.holds(i["safe"])
        if not inc or len(set(inc)) != 1:
            ctx.judge(r, q, "direction", None, "it is not known whether liquidity is added or removed")
            continue
        want = [M(r.arg(0)), M(i["id"]), M(i["br"]), lambda n: delta(n, i["dr"])]
        if inc[0]:
            limit(ctx, r, q, "ensure_add_liquidity_limit", want, "limit on added liquidity")
        elif safe is not True:
            limit(ctx, r, q, "ensure_remove_liquidity_limit", want, "limit on removed liquidity")
        else:
            ctx.judge(r, q, "safe withdrawal", True, "")
        wrong = calls(q, "ensure_remove_liquidity_limit" if inc[0] else "ensure_add_liquidity_limit")
        ctx.judge(r, q, "limit of the other direction", not wrong, "the limit of the other direction is charged", relevant=VALUE)
    r, qs = handler(ctx, AD, "on_trade", S)
    for q in qs:
        if not q.p.ok:
            continue
        a, b = info(r.arg(1)), info(r.arg(2))
        es = calls(q, "on_trade")
        if len(es) != 2:
            ctx.judge(r, q, "trade told", False if len(es) < 2 else None, f"the oracle is told {len(es)} times", relevant=VALUE)
        first = [e for e in es if len(eargs(e)) == 8 and not getter(eargs(e)[1], "Lrna")]
        second = [e for e in es if e not in first]
        if len(es) == 2 and len(first) != 1:
            ctx.judge(r, q, "trade told", False, "the oracle is told twice about the same leg", eff=es[0], relevant=VALUE)
        for e in first[:1]:
            told(ctx, r, q, e, "trade in told", a["id"], "hub", a["dr"], a["dh"], a["ar"], a["ah"])
        for e in second[:1]:
            told(ctx, r, q, e, "trade out told", "hub", b["id"], b["dh"], b["dr"], b["ah"], b["ar"])
        for e in es:
            required(ctx, r, q, e, "oracle refusal")
        limit(ctx, r, q, "ensure_pool_state_change_limit", [M(a["id"]), M(a["br"]), lambda n: delta(n, a["dr"]), M(b["id"]), M(b["br"]), lambda n: delta(n, b["dr"])], "limit on trade")
    r, qs = handler(ctx, AD, "on_hub_asset_trade", S)
    for q in qs:
        if not q.p.ok:
            continue
        b = info(r.arg(1))
        es = calls(q, "on_trade")
        if len(es) != 1:
            ctx.judge(r, q, "hub trade told", False if not es else None, f"the oracle is told {len(es)} times", relevant=VALUE)
        for e in es:
            told(ctx, r, q, e, "hub trade told", "hub", b["id"], b["dh"], b["dr"], b["ah"], b["ar"])
            required(ctx, r, q, e, "oracle refusal")
        limit(ctx, r, q, "ensure_pool_state_change_limit", [lambda n: getter(n, "Lrna"), ZERO, ZERO, M(b["id"]), M(b["br"]), lambda n: delta(n, b["dr"])], "limit on hub trade")
    r, qs = handler(ctx, AD, "on_trade_fee", S)
    for q in qs:
        if not q.p.ok:
            continue
        pot, who, asset, amount = (r.arg(k) for k in range(4))
        get = lambda k: [x for f, p in q.facts for x in find(f, lambda n: getter(n, k))]
        hub = [equal(q, asset, x) for x in get("Lrna")]
        nat = [equal(q, asset, x) for x in get("NativeAsset")]
        rf = [e for e in q.eff if str(e.name) == "pallet_referrals::Pallet::process_trade_fee"]
        stk = [e for e in q.eff if str(e.name) == "pallet_staking::Pallet::process_trade_fee"]
        if hub and True in hub:
            ctx.judge(r, q, "fee in hub asset", not rf and not stk and q.node.op == "variant:Ok" and ZERO(q.node.args[0]), "a fee in the hub asset is passed on", relevant=VALUE)
            continue
        native = True in nat
        if native:
            ctx.judge(r, q, "native fee", not rf, "referrals take a fee in the native asset", relevant=VALUE)
        else:
            ctx.judge(r, q, "referrals", len(rf) == 1 if rf or False in nat else None, f"referrals are given the fee {len(rf)} times", relevant=VALUE)
        for e in rf:
            x = eargs(e)
            ctx.judge(r, q, "referral fee", len(x) == 4 and all(match(u, v) for u, v in zip(x, (pot, who, asset, amount))), lambda: f"referrals are given {', '.join(show(u)[:30] for u in x)}", eff=e, relevant=VALUE)
            required(ctx, r, q, e, "referral failure")
        ctx.judge(r, q, "staking", len(stk) == 1 if not stk or len(stk) == 1 else None, f"staking is given the fee {len(stk)} times", relevant=VALUE)
        took = [mk("payload", mk("call", e.name, *eargs(e))) for e in rf]
        for e in stk:
            x = eargs(e)
            rest = x[2] if len(x) == 3 else None
            ok = rest is not None and match(x[0], pot) and match(x[1], asset)
            ctx.judge(r, q, "staking fee of", ok, lambda: f"staking is given {', '.join(show(u)[:30] for u in x)}", eff=e, relevant=VALUE)
            if rest is not None:
                y = strip(rest)
                less = y.op in ("satsub", "sub") and match(y.args[0], amount) and len(rf) == 1 and isused(y.args[1], rf[0])
                ctx.judge(r, q, "staking takes the rest", less if rf else match(rest, amount), lambda: f"staking is given {show(rest)[:80]}", eff=e, relevant=VALUE)
            required(ctx, r, q, e, "staking failure")
        v = q.node.args[0] if q.node.op == "variant:Ok" else None
        if v is not None:
            terms = summands(v)
            es = rf + stk
            ok = len(terms) == len(es) and all(any(isused(t, e) for t in terms) for e in es)
            ctx.judge(r, q, "fee used", ok, lambda: f"the fee reported as used is {show(v)[:100]}", relevant=VALUE)


def isused(n, e):
    n = strip(n)
    return n.op == "payload" and n.args[0].op == "call" and str(n.args[0].args[0]) == str(e.name) and tuple(x for x in n.args[0].args[1:] if x.op != "at") == tuple(eargs(e))


def summands(n):
    n = strip(n)
    if n.op == "sat":
        return summands(n.args[0])
    if n.op == "add":
        return [y for x in n.args for y in summands(x)]
    return [] if num(n) == 0 else [n]


@guarded
def stableswap(ctx):
    S = "StableswapHooksAdapter"
    for name in ("on_trade", "on_liquidity_changed"):
        r, qs = handler(ctx, AD, name, S)
        for q in qs:
            if not q.p.ok:
                continue
            pool, st = r.arg(0), r.arg(3 if name == "on_trade" else 1)
            fl = lambda k: mk("fld", st, k)
            es = calls(q, name)
            loops = [e for e in es if e.loop]
            if len(es) != 1 or len(loops) != 1:
                # nothing told: only of a pool without assets
                ctx.judge(r, q, "told", False if not es and any(i for i in r.runs.it.loops_seen) is False else None, f"the oracle is told {len(es)} times")
                continue
            e = es[0]
            x = eargs(e)
            if len(x) != 8:
                ctx.judge(r, q, "told", None, f"{len(x)} arguments")
                continue
            at = lambda n, k: strip(n).op == "idx" and match(strip(n).args[0], fl(k)) and strip(n).args[1]
            ix = at(x[1], "assets")
            ctx.judge(r, q, "source", is_source(x[0], "stableswap"), lambda: f"the source given is {source(x[0])[:40]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "assets", bool(ix) and match(x[2], pool), lambda: f"the pair given is {show(x[1])[:50]}, {show(x[2])[:30]}", eff=e, relevant=VALUE)
            if not ix:
                continue
            ctx.judge(r, q, "amount", at(x[3], "delta") is ix, lambda: f"the amount given is {show(x[3])[:60]}", eff=e, relevant=VALUE)
            if name == "on_trade":
                ctx.judge(r, q, "share amount", ZERO(x[4]), lambda: f"the amount of shares given is {show(x[4])[:60]}", eff=e, relevant=VALUE)
            else:
                ctx.judge(r, q, "share amount", difference(q, x[4], fl("issuance_before"), fl("issuance_after")), lambda: f"the amount of shares given is {show(x[4])[:60]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "reserves", at(x[5], "after") is ix and match(x[6], fl("issuance_after")), lambda: f"the reserves given are {show(x[5])[:60]}, {show(x[6])[:60]}", eff=e, relevant=VALUE)
            pr = mk("idx", fl("share_prices"), ix)
            ctx.judge(r, q, "price", ispair(x[7], mk("fld", pr, "0"), mk("fld", pr, "1")), lambda: f"the price given is {show(x[7])[:80]}", eff=e, relevant=VALUE)
            # each asset of the pool, and stop at the first refusal
            fs = [(f, p) for f, p in q.facts if f.op == "all"]
            cover = [f for f, p in fs if p and f.args[0].op == "range" and num(f.args[0].args[0]) == 0 and f.args[0].args[2] is False and f.args[0].args[1].op == "m" and f.args[0].args[1].args[0] == "len" and match(f.args[0].args[1].args[1], fl("assets"))]
            whole = [f for f, p in fs if p and match(f.args[0], fl("assets"))]
            req = [f for f, p in fs if p and find(f, called(name))]
            some = [f for f, p in fs if p and find(f, called(name))]
            ctx.judge(r, q, "every asset", True if cover or whole else False if some and all(f.args[0].op == "range" and num(f.args[0].args[0]) for f in some) else None, lambda: "the assets told about are " + "; ".join(show(f)[:60] for f, p in fs), relevant=VALUE)
            ctx.judge(r, q, "refusals", True if req else False, "a refusal of the oracle is ignored", eff=e, relevant=VALUE)
            for k in ("before", "after", "delta", "share_prices"):
                h = [p for f, p in q.facts if f.op == "eq" and all(n.op == "m" and n.args[0] == "len" for n in f.args) and {strip(n.args[1]) for n in f.args} == {fl(k), fl("assets")}]
                if k in ("after", "delta", "share_prices"):
                    ctx.judge(r, q, "lengths agree", True if True in h else None, f"the length of {k} is not compared")


def difference(q, n, a, b):
    n = strip(n)
    if n.op == "absdiff":
        return {n.args[0], n.args[1]} == {a, b} or all(any(match(x, y) for y in (a, b)) for x in n.args[:2])
    if n.op in ("satsub", "sub"):
        if match(n.args[0], a) and match(n.args[1], b):
            return q.le(b, a) or None
        if match(n.args[0], b) and match(n.args[1], a):
            return q.le(a, b) or None
        return False
    return False


def hooks(pid, tier):
    ctx = Ctx(pid, tier)
    omnipool(ctx)
    stableswap(ctx)
    return ctx.done(RULE, ["what the oracle and circuit breaker do with what they are told is decided by their own properties"])
