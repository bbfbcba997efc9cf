"""Circuit breaker, price oracle and dynamic fees."""
from rules.p_small import *

RULE = ("Every path of the named functions is evaluated over the parsed source; the limits checked, the records written and the results must be exactly those stated.")
HUB = CFG("OmnipoolHubAsset")


def bal(n):
    return lambda x: match(x, n) or x.op in ("ext", "call") and str(x.args[0]).endswith("Balance.from") and match(x.args[-1], n)


def frac(base, lim):
    """base * lim.0 / lim.1"""
    part = lambda n, k: bal(F(lim, str(k)))(n) or bal(F(lim, k))(n)
    return lambda n: n.op == "div" and n.args[0].op == "mul" and len(n.args[0].args) == 2 and base in n.args[0].args and any(part(x, 0) for x in n.args[0].args) and part(n.args[1], 1)


def last(q, item, key):
    ws = [e for e in q.writes(item) if len(e.args) == 2 and e.args[0] is key]
    return ws[-1] if ws else None


def rec(q, g, S, base, lim, fs):
    """the record the path started from: (limit pattern, {field: old value or 0})"""
    if g.some(S):
        return F(PL(S), "limit"), {f: F(PL(S), f) for f in fs}
    if g.none(S):
        return frac(base, lim), {f: None for f in fs}
    return None, None


def plus(old, add):
    return LIN(*([(1, old)] if old is not None else []) + ([(1, add)] if add is not None else []))


@guarded
def volumes(ctx):
    r = ctx.fn("circuit-breaker", "ensure_pool_state_change_limit")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        ai, ri, ni, ao, ro, no = [r.arg(k) for k in range(6)]
        if g.eq(ai, ao):
            continue
        for a, res, inn, out in ((ai, ri, ni, None), (ao, ro, None, no)):
            e = last(q, "AllowedTradeVolumeLimitPerAsset", a)
            if g.eq(a, HUB):
                ctx.judge(r, q, "hub asset", e is None, "the hub asset is limited", relevant=(a,))
                continue
            ctx.judge(r, q, "limited assets", g.ne(a, HUB), "an asset is left out of the trade volume limit without being the hub asset", relevant=(a,))
            if e is None or not g.ne(a, HUB):
                ctx.judge(r, q, "volume recorded", e is not None, "a traded asset's volume is not recorded", relevant=(a,))
                continue
            f = fields(e.args[-1])
            lim, old = rec(q, g, ST("AllowedTradeVolumeLimitPerAsset", a), res, ST("TradeVolumeLimitPerAsset", a), ("volume_in", "volume_out"))
            if set(f) == {"volume_in", "volume_out", "limit"} and lim is None and not has(e.args[-1], lambda z: z.op == "st" and str(z.args[0]) == "AllowedTradeVolumeLimitPerAsset"):
                ctx.judge(r, q, "volume kept", False, "the volume already traded in the block is forgotten", eff=e, relevant=VALUE)
                continue
            if not {"volume_in", "volume_out", "limit"} <= set(f) or lim is None:
                ctx.undecided(r, "trade volume", "record not followed")
                continue
            ctx.judge(r, q, "limit kept", match(f["limit"], lim), lambda: f"the block's limit of a traded asset becomes {show(f['limit'])[:160]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "volume in", match(f["volume_in"], plus(old["volume_in"], inn)), lambda: f"the volume in becomes {show(f['volume_in'])[:160]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "volume out", match(f["volume_out"], plus(old["volume_out"], out)), lambda: f"the volume out becomes {show(f['volume_out'])[:160]}", eff=e, relevant=VALUE)
            vi, vo, L = lin(f["volume_in"]), lin(f["volume_out"]), lin(f["limit"])
            for x, y, w in ((vi, vo, "influx"), (vo, vi, "outflow")):
                d = ladd(x, {k: -v for k, v in y.items()})
                ok = q.lle(d, L) or q.lle(x, y)
                ctx.judge(r, q, f"net {w} limit", ok, f"a trade can push the net {w} of an asset over the block's limit", relevant=(a, f["limit"]))
        for e in q.writes():
            ctx.judge(r, q, "other writes", e.name == "AllowedTradeVolumeLimitPerAsset" and e.args[0] in (ai, ao), lambda: f"unexpected write of {e.name}", eff=e)


@guarded
def liquidity(ctx):
    for fn, cfg, item, other in (("ensure_add_liquidity_limit", "LiquidityAddLimitPerAsset", "AllowedAddLiquidityAmountPerAsset", "AllowedRemoveLiquidityAmountPerAsset"),
                                 ("ensure_remove_liquidity_limit", "LiquidityRemoveLimitPerAsset", "AllowedRemoveLiquidityAmountPerAsset", "AllowedAddLiquidityAmountPerAsset")):
        r = ctx.fn("circuit-breaker", fn)
        for q in (r.paths if r is not None else ()):
            g = G(r, q)
            a, res, n = r.argn("asset_id", 1), r.argn("initial_liquidity", 2), r.arg(3)
            root = g.none(lambda x: x.op == "signer")
            white = g.y(("ext", "WhitelistedAccounts.contains", lambda x: has(x, lambda z: z.op == "signer")))
            e = last(q, item, a)
            C_ = ST(cfg, a)
            if root or white:
                ctx.judge(r, q, "exempt", not q.writes(), "an exempt account's liquidity is counted")
                continue
            ctx.judge(r, q, "not exempt", g.n(("ext", "WhitelistedAccounts.contains", lambda x: has(x, lambda z: z.op == "signer"))), "liquidity is not limited although the account is not exempt", relevant=(a,))
            if g.eq(a, HUB) or g.none(C_):
                ctx.judge(r, q, "unlimited", e is None, "an asset without a limit is limited", relevant=(a,))
                continue
            if e is None:
                ctx.judge(r, q, "liquidity recorded", False, "liquidity of a limited asset is not counted", relevant=(a,))
                continue
            f = fields(e.args[-1])
            lim, old = rec(q, g, ST(item, a), res, PL(C_), ("liquidity",))
            if set(f) == {"liquidity", "limit"} and lim is None and not has(e.args[-1], lambda z: z.op == "st" and str(z.args[0]) == item):
                ctx.judge(r, q, "liquidity kept", False, "the liquidity already counted in the block is forgotten", eff=e, relevant=VALUE)
                continue
            if not {"liquidity", "limit"} <= set(f) or lim is None:
                ctx.undecided(r, "liquidity", "record not followed")
                continue
            ctx.judge(r, q, "limit kept", match(f["limit"], lim), lambda: f"the block's limit becomes {show(f['limit'])[:160]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "liquidity counted", match(f["liquidity"], plus(old["liquidity"], n)), lambda: f"the counted liquidity becomes {show(f['liquidity'])[:160]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "liquidity limit", q.lle(lin(f["liquidity"]), lin(f["limit"])), "the liquidity of a block can exceed its limit", relevant=(a, f["limit"]))
            for w in q.writes():
                if w.name == other:
                    v = fields(w.args[-1])
                    ok = w.args[0] is a and set(v) == {"liquidity", "limit"} and num(v["liquidity"]) == 0 and g.none(ST(other, a))
                    ctx.judge(r, q, "other direction", ok, "the counted liquidity of the other direction changes", eff=w)
                else:
                    ctx.judge(r, q, "other writes", w.name == item and w.args[0] is a, lambda: f"unexpected write of {w.name}", eff=w)


@guarded
def breaker_admin(ctx):
    r, qs = fnpaths(ctx, "circuit-breaker", "on_finalize")
    for q in qs:
        cl = {e.name for e in q.writes() if e.args[-1].op == "cleared" and (len(e.args) < 3 or num(e.args[0]) is None or num(e.args[0]) >= 2**32 - 1)}
        want = {"AllowedTradeVolumeLimitPerAsset", "AllowedAddLiquidityAmountPerAsset", "AllowedRemoveLiquidityAmountPerAsset"}
        ctx.judge(r, q, "new block", cl == want, lambda: f"counted at the end of a block: not cleared {', '.join(sorted(want - cl))}" if want - cl else f"the end of a block clears {', '.join(sorted(cl - want))}")
    for fn, item in (("set_trade_volume_limit", "TradeVolumeLimitPerAsset"), ("set_add_liquidity_limit", "LiquidityAddLimitPerAsset"), ("set_remove_liquidity_limit", "LiquidityRemoveLimitPerAsset")):
        r = ctx.fn("circuit-breaker", fn)
        for q in (r.paths if r is not None else ()):
            g = G(r, q)
            a, l = g.a(0), g.a(1)
            ctx.judge(r, q, "not the hub asset", g.ne(a, HUB), "a limit can be set for the hub asset", relevant=(a,))
            wrote(ctx, r, q, g, item, [a], lambda n: n is l, "limit stored", "the stored limit is not the given one")
            setsonly(ctx, r, q, item)
            v = l if fn == "set_trade_volume_limit" else mk("payload", l)
            if v is not l and g.none(l):
                continue
            for k in ("0", "1"):
                x = mk("fld", v, k)
                ctx.judge(r, q, "limit range", (q.lle({None: 1}, lin(x)) or g.ne(x, 0)) and q.lle(lin(x), {None: 10000}), "a limit outside 1/10000..10000 can be set", relevant=(l,))


def breaker(pid, tier):
    ctx = Ctx(pid, tier)
    volumes(ctx)
    liquidity(ctx)
    breaker_admin(ctx)
    return ctx.done(RULE)
