"""Trades happen only when allowed: flags, minimum amounts, in/out ratio limits, distinct assets; and the observers of a trade are told the truth."""
from rules.p_liquidity import *
from rules import p_guards as PG

FOREIGN = X("from_assets", "_", "_", "_")


def pairpool(g, i, o):
    ai, ao = g.a(i), g.a(o)
    return pairs(ai, ao)


def ratio(g, reserve, cfg, amount):
    """amount <= reserve / limit was required"""
    C_ = mk("cfg", cfg)
    for n, p in g.q.facts:
        if n.op != "lt":
            continue
        a, b = n.args
        if not p and a.op == "div" and a.args[1] is C_ and match(a.args[0], reserve) and match(b, amount):
            return True
        if not p and a.op != "div" and match(a, reserve) and b.op == "mul" and C_ in b.args and any(match(x, amount) for x in b.args):
            return True
    return False


def amt_is(g, k):
    return lambda n: n is g.a(k) or g.q.same(n, g.a(k))


def computed(*names):
    return lambda n: any(has(n, lambda z, nm=nm: z.op == "call" and str(z.args[0]).endswith("::" + nm)) for nm in names)


def o_hub(g, i):
    return g.q.same(g.a(i), mk("cfg", "HubAssetId")) or match(g.a(i), CFG("HubAssetId"))


def o_flag_in(g, i):
    if o_hub(g, i):
        return g.flag(ST("HubAssetTradability"), "SELL")
    return g.flag(F(PL(ST("Assets", g.a(i))), "tradable"), "SELL")


def o_in_res(g, i, o):
    return F(PL(ST("Assets", g.a(o))), "hub_reserve") if o_hub(g, i) else FB(g.a(i), PG.POOLACC)


def omni(sell):
    i, o = (0, 1) if sell else (1, 0)
    inn = (lambda g: amt_is(g, 2)) if sell else (lambda g: computed("calculate_buy_state_changes", "calculate_buy_for_hub_asset_state_changes"))
    out = (lambda g: computed("calculate_sell_state_changes", "calculate_sell_hub_state_changes")) if sell else (lambda g: amt_is(g, 2))
    return [
        ("two assets", lambda g: g.ne(g.a(0), g.a(1)), (0, 1), "an asset can be traded for itself"),
        ("minimum", lambda g: g.le(CFGN("MinimumTradingLimit"), g.a(2)), (2,), "less than the minimum can be traded"),
        ("hub asset not bought", lambda g: g.ne(g.a(o), CFG("HubAssetId")) or o_hub(g, i) and g.ne(g.a(0), g.a(1)), (o,), "the hub asset can be bought"),
        ("tradability of the sold asset", lambda g: o_flag_in(g, i), (i,), "an asset is sold although its state does not allow it"),
        ("tradability of the bought asset", lambda g: g.flag(F(PL(ST("Assets", g.a(o))), "tradable"), "BUY"), (o,), "an asset is bought although its state does not allow it"),
        ("ratio in", lambda g: ratio(g, o_in_res(g, i, o), "MaxInRatio", inn(g)), (2,), "more than the maximum fraction of the reserve can be sold"),
        ("ratio out", lambda g: ratio(g, FB(g.a(o), PG.POOLACC), "MaxOutRatio", out(g)), (2,), "more than the maximum fraction of the reserve can be bought"),
    ]


def xyk_(sell):
    i, o = (0, 1) if sell else (1, 0)
    inn = (lambda g: amt_is(g, 2)) if sell else (lambda g: computed("calculate_in_given_out"))
    out = (lambda g: computed("calculate_out_given_in")) if sell else (lambda g: amt_is(g, 2))
    return [
        ("minimum", lambda g: g.le(CFGN("MinTradingLimit"), g.a(2)), (2,), "less than the minimum can be traded"),
        ("pool exists", lambda g: g.some(ST("ShareToken", pairpool(g, 0, 1))), (0, 1), "a pool that does not exist is traded with"),
        ("ratio in", lambda g: ratio(g, FB(g.a(i), pairpool(g, i, o)), "MaxInRatio", inn(g)), (2,), "more than the maximum fraction of the reserve can be sold"),
        ("ratio out", lambda g: ratio(g, FB(g.a(o), pairpool(g, i, o)), "MaxOutRatio", out(g)), (2,), "more than the maximum fraction of the reserve can be bought"),
    ]


def stab(sell):
    i, o = (1, 2) if sell else (2, 1)
    return [
        ("two assets", lambda g: g.ne(g.a(1), g.a(2)), (1, 2), "an asset can be traded for itself"),
        ("pool exists", lambda g: g.some(ST("Pools", g.a(0))), (0,), "a pool that does not exist is traded with"),
        ("minimum", lambda g: g.le(CFGN("MinTradingLimit"), g.a(3)), (3,), "less than the minimum can be traded"),
        ("tradability of the sold asset", lambda g: g.flag(ST("AssetTradability", g.a(0), g.a(i)), "SELL"), (i,), "an asset is sold although its state does not allow it"),
        ("tradability of the bought asset", lambda g: g.flag(ST("AssetTradability", g.a(0), g.a(o)), "BUY"), (o,), "an asset is bought although its state does not allow it"),
    ]


def running(g):
    P = PL(ST("PoolData", FOREIGN))
    now = X("current_block_number")
    started = any(n.op == "lt" and not p and match(n.args[0], now) and match(n.args[1], PL(F(P, "start"))) for n, p in g.q.facts)
    open_ = any(n.op == "lt" and not p and match(n.args[1], now) and match(n.args[0], PL(F(P, "end"))) for n, p in g.q.facts)
    return started and open_


def lbp_(sell):
    i, o = (0, 1) if sell else (1, 0)
    inn = (lambda g: amt_is(g, 2)) if sell else (lambda g: computed("calculate_in_given_out"))
    out = (lambda g: computed("calculate_out_given_in")) if sell else (lambda g: amt_is(g, 2))
    return [
        ("positive", lambda g: g.le(1, g.a(2)), (2,), "nothing can be traded"),
        ("pool exists", lambda g: g.some(ST("PoolData", pairpool(g, 0, 1))), (0, 1), "a pool that does not exist is traded with"),
        ("sale running", running, (), "a trade happens outside the pool's sale period"),
        ("ratio in", lambda g: ratio(g, FB(g.a(i), pairpool(g, i, o)), "MaxInRatio", inn(g)), (2,), "more than the maximum fraction of the reserve can be sold"),
        ("ratio out", lambda g: ratio(g, FB(g.a(o), pairpool(g, i, o)), "MaxOutRatio", out(g)), (2,), "more than the maximum fraction of the reserve can be bought"),
    ]


TABLE = [("omnipool", "sell", omni(True)), ("omnipool", "buy", omni(False)), ("xyk", "sell", xyk_(True)), ("xyk", "buy", xyk_(False)), ("stableswap", "sell", stab(True)), ("stableswap", "buy", stab(False)),
         ("lbp", "sell", lbp_(True)), ("lbp", "buy", lbp_(False))]


def guards(pid, tier):
    ctx = Ctx(pid, tier)
    PG.run(ctx, TABLE)
    return ctx.done(PG.RULE)


# ---------------------------------------------------------------------------------------------------------- observers
RULE9 = ("Every success path of the trading and liquidity functions is evaluated over the parsed source; the observer hook of the pool must be called exactly once per changed asset or pair, after the "
         "movements, with the amounts that actually moved and reserves read after them (xyk), or with the state before and after as stored (omnipool, stableswap).")


@guarded
def xyk_observe(ctx, fname, i, o, kind):
    r = ctx.fn("xyk", fname)
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        a, b = g.a(i), g.a(o)
        pool = pairs(a, b)
        hs = q.ext("AMMHandler." + kind)
        ctx.judge(r, q, "notified", len(hs) == 1, f"the observer is notified {len(hs)} times", relevant=())
        for h in hs:
            x, y, nx, ny, rx, ry, price = h.args[1:8]
            swap = x is b and y is a
            ok = {x, y} == {a, b}
            ctx.judge(r, q, "assets", ok and (kind != "on_trade" or not swap), "the observer is told of the wrong assets", eff=h)
            if not ok:
                continue
            if kind == "on_trade":
                dx, dy = [next((lin(f.amount) for f in q.flows() if f.asset is z and (f.src if k == 0 else f.dst) is g.who and (match(f.dst, lambda n: any(match(n, p) for p in pool)) if k == 0 else True) and f.dst is not None), {})
                          for k, z in ((0, x), (1, y))]
            else:
                dx, dy = [next((lin(f.amount) for f in q.flows() if f.asset is z and f.amount is not None), {}) for z in (x, y)]
            ctx.judge(r, q, "amounts", q.leq(lin(nx), dx) and q.leq(lin(ny), dy), lambda: f"the observer is told of {show(nx)[:90]} and {show(ny)[:90]}, not of what moved", eff=h)
            bal = lambda z: lambda n: any(match(n, [X("total_balance", z, p), X("free_balance", z, p)]) for p in pool)
            ok = bal(x)(rx) and bal(y)(ry)
            ctx.judge(r, q, "reserves", ok, "the observer is not told the pool's reserves of the two assets in order", eff=h)
            if ok:
                # the balances are those after both movements
                last = max([f.eff.ep for f in q.flows() if side_pool(f, pool)], default=-1)
                ctx.judge(r, q, "reserves after", all(epochs(z) and min(epochs(z)) > last for z in (rx, ry)), "the reserves told were read before the trade had moved both assets", eff=h)
                ctx.judge(r, q, "price", price.op == "call" and str(price.args[0]).endswith("Ratio::new") and strip(price.args[1]) is strip(rx) and strip(price.args[2]) is strip(ry), "the price told is not the ratio of the reserves", eff=h)


def side_pool(f, pool):
    return any(n is not None and any(match(n, p) for p in pool) for n in (f.src, f.dst))


# ---------------------------------------------------------------------------------------------- omnipool observers
DELTAS = {"hub_reserve": "delta_hub_reserve", "reserve": "delta_reserve"}


def B(v):
    return lambda n: n.op in ("const", "bool") and (n.args[0] is v or str(n.args[0]).lower() == str(v).lower())


def fld(n, f):
    d = fields(n)
    return d[f] if f in d else mk("fld", n, f)


@guarded
def info(ctx, r, q, g, h, n, asset, what, safe=None):
    """one AssetInfo of a hook call: identity, state before and after, and the reported change agree with what the path reads and stores"""
    from rules import p_omnipool as PO
    PO.CUR[:] = [q]
    f = fields(n)
    if not {"asset_id", "before", "after", "delta_changes"} <= set(f):
        ctx.undecided(r, "hook " + what, "state information not built field by field")
        return
    a = f["asset_id"]
    ok = a is asset or match(a, asset) or isinstance(asset, Node) and q.same(a, asset)
    ctx.judge(r, q, what + " asset", ok, lambda: f"the observer is told of {show(a)[:80]} as {what}", eff=h)
    b, c, d = f["before"], f["after"], f["delta_changes"]
    if fields(b):
        fb = fields(b)
        ok = all(match(fb.get(x, b), F(PL(ST("Assets", a)), x)) for x in ("hub_reserve", "shares", "protocol_shares"))
        ok = ok and match(fb.get("reserve", b), FB(a, PG.POOLACC))
        ctx.judge(r, q, what + " before", ok, lambda: f"the state before told for {what} is not the stored state: {show(b)[:160]}", eff=h)
    else:
        ctx.undecided(r, what + " before", "state before not built field by field")
    ws = [e for e in q.writes("Assets") if len(e.args) == 2 and e.args[0] is a]
    if ws:
        w = ws[-1].args[-1]
        ok = all(vanish(q, lsub(PO.amt(fld(c, x)), PO.amt(fld(w, x)))) for x in ("hub_reserve", "shares", "protocol_shares"))
        ctx.judge(r, q, what + " after", ok, lambda: f"the state after told for {what} is not the state stored", eff=h)
    else:
        ctx.judge(r, q, what + " after", False, f"the state of {what} told to the observer is never stored", eff=h)
    for x, y in DELTAS.items():
        e = lsub(lsub(PO.amt(fld(c, x)), PO.amt(fld(b, x))), PO.sv(fld(d, y)))
        ctx.judge(r, q, f"{what} {y}", vanish(q, e), lambda: f"the change of {x} told for {what} is not after - before (off by {fmt(e)[:160]})", eff=h)
    if safe is not None:
        s = f.get("safe_withdrawal")
        ctx.judge(r, q, what + " safe", s is not None and safe(s), lambda: f"the withdrawal of {what} is reported with safe_withdrawal = {show(s) if s is not None else '?'}", eff=h)


def vanish(q, d):
    from rules import p_omnipool as PO
    return PO.vanishes(q, d)


@guarded
def omni_observe(ctx, fname, kind):
    r = ctx.fn("omnipool", fname)
    FALSE = B(False)
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        tr, hub, liq = q.ext("OmnipoolHooks.on_trade"), q.ext("OmnipoolHooks.on_hub_asset_trade"), q.ext("OmnipoolHooks.on_liquidity_changed")
        if kind == "trade":
            i, o = (0, 1) if fname == "sell" else (1, 0)
            if o_hub(g, i):
                ctx.judge(r, q, "hub trade notified", len(hub) == 1 and not tr, f"the observer is notified of {len(hub)} hub asset trades and {len(tr)} trades", relevant=())
                for h in hub:
                    info(ctx, r, q, g, h, h.args[1], g.a(o), "the bought asset", FALSE)
            else:
                ctx.judge(r, q, "trade notified", len(tr) == 1 and not hub, f"the observer is notified of {len(tr)} trades and {len(hub)} hub asset trades", relevant=())
                for h in tr:
                    info(ctx, r, q, g, h, h.args[1], g.a(i), "the sold asset", FALSE)
                    info(ctx, r, q, g, h, h.args[2], g.a(o), "the bought asset", FALSE)
            for h in liq:
                info(ctx, r, q, g, h, h.args[1], CFG("HdxAssetId"), "the protocol fee asset")
        else:
            ctx.judge(r, q, "liquidity change notified", len(liq) == 1 and not tr and not hub, f"the observer is notified of {len(liq)} liquidity changes", relevant=())
            k, safe = kind
            for h in liq:
                info(ctx, r, q, g, h, h.args[1], k(g), "the asset", safe)


# -------------------------------------------------------------------------------------------- stableswap observers
@guarded
def stable_observe(ctx, fname, kind):
    r = ctx.fn("stableswap", fname)
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        hs = q.ext("Hooks." + kind)
        ctx.judge(r, q, "notified", len(hs) == 1, f"the observer is notified {len(hs)} times", relevant=())
        for h in hs:
            pid, rest = h.args[0], h.args[1:]
            ctx.judge(r, q, "pool", pid is g.a(0) or q.same(pid, g.a(0)), "the observer is told of another pool", eff=h)
            if kind == "on_trade":
                ai, ao = (1, 2) if fname == "sell" else (2, 1)
                ok = len(rest) >= 3 and (rest[0] is g.a(ai) or q.same(rest[0], g.a(ai))) and (rest[1] is g.a(ao) or q.same(rest[1], g.a(ao)))
                ctx.judge(r, q, "assets", ok, "the observer is not told of the traded assets in order", eff=h)
            st = next((x for x in rest if "issuance_before" in fields(x)), None)
            if st is None:
                ctx.undecided(r, "state", "pool state not built field by field")
                continue
            f = fields(st)
            iss = X("total_issuance", g.a(0))
            ctx.judge(r, q, "issuance before", match(f["issuance_before"], iss), lambda: f"the share issuance before is {show(f['issuance_before'])[:120]}", eff=h)
            ctx.judge(r, q, "issuance after", match(f["issuance_after"], iss), lambda: f"the share issuance after is {show(f['issuance_after'])[:120]}", eff=h)
            for x, late in (("issuance_before", False), ("before", False), ("issuance_after", True), ("after", True)):
                mv = [z.eff.ep for z in q.flows() if not x.startswith("issuance") or z.src is None or z.dst is None]
                ep = epochs(f[x])
                if not ep:
                    ctx.undecided(r, x, "no read of the pool found in it")
                    continue
                ok = min(ep) > max(mv, default=-1) if late else max(ep) <= min(mv, default=1 << 30)
                ctx.judge(r, q, x, ok, lambda: f"the pool's {x} told to the observer was read {'before' if late else 'after'} the movements", relevant=(f[x],), eff=h)
            pr = f.get("share_prices")
            ok = pr is not None and match(pr, [PL(C("calculate_share_prices", f["after"], amp(mk("payload", mk("st", "Pools", g.a(0)))), f["issuance_after"])), PL(C("calculate_share_prices", f["after"], "_", f["issuance_after"]))])
            ctx.judge(r, q, "share prices", ok, "the share prices told are not those of the state after", relevant=(pr,), eff=h)
            d, b, a = f.get("delta"), f["before"], f["after"]
            if d is not None and d.op == b.op == a.op == "seq" and fields(b.args[1]) and fields(a.args[1]):
                x, y = fields(b.args[1])["amount"], fields(a.args[1])["amount"]
                e = d.args[1]
                ctx.judge(r, q, "deltas", e.op == "absdiff" and {e.args[0], e.args[1]} == {x, y}, lambda: f"the reserve changes told are not the differences between after and before: {show(e)[:150]}", relevant=(e,), eff=h)
            else:
                ctx.undecided(r, "deltas", "reserve changes not built element by element")
            ctx.judge(r, q, "assets of the pool", has(f["assets"], lambda z: z.op == "st" and str(z.args[0]) == "Pools" and z.args[1] is g.a(0)), "the observer is not told of the pool's assets", eff=h)


def observers(pid, tier):
    ctx = Ctx(pid, tier)
    pos = lambda g: F(PL(ST("Positions", g.a(0))), "asset_id")
    pos = lambda g: mk("fld", mk("payload", mk("st", "Positions", g.a(0))), "asset_id")
    omni_observe(ctx, "sell", "trade")
    omni_observe(ctx, "buy", "trade")
    for f in ("add_liquidity", "add_liquidity_with_limit"):
        omni_observe(ctx, f, (lambda g: g.a(0), B(False)))
    for f in ("remove_liquidity", "remove_liquidity_with_limit"):
        omni_observe(ctx, f, (pos, None))
    omni_observe(ctx, "withdraw_protocol_liquidity", (lambda g: g.a(0), B(True)))
    for f, k in (("sell", "on_trade"), ("buy", "on_trade"), ("add_liquidity", "on_liquidity_changed"), ("add_liquidity_shares", "on_liquidity_changed"),
                 ("remove_liquidity_one_asset", "on_liquidity_changed"), ("withdraw_asset_amount", "on_liquidity_changed")):
        stable_observe(ctx, f, k)
    xyk_observe(ctx, "sell", 0, 1, "on_trade")
    xyk_observe(ctx, "buy", 1, 0, "on_trade")
    xyk_observe(ctx, "add_liquidity", 0, 1, "on_liquidity_changed")
    xyk_observe(ctx, "remove_liquidity", 0, 1, "on_liquidity_changed")
    return ctx.done(RULE9)
