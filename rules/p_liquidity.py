"""Adding and removing liquidity: limits, minimums, ownership, flags (guards) and the amounts exchanged (formulas)."""
from rules.p_guards import *
from rules import p_guards as PG

FB = lambda x, acc: X("free_balance", x, acc)


def pairs(a, b):
    return [X("from_assets", a, b, "_"), X("from_assets", b, a, "_")]


def amp(P):
    return C("calculate_amplification", ("nzget", F(P, "initial_amplification")), ("nzget", F(P, "final_amplification")), F(P, "initial_block"), F(P, "final_block"), X("current_block_number"))


def pos(P, x):
    return ("position", F(P, "assets"), lambda n: n.op == "eq" and any(match(y, x) for y in n.args) and any(match(y, ("idx", F(P, "assets"), "_")) for y in n.args))


def reserves(P, pool):
    return lambda n: n.op == "seq" and match(n.args[0], F(P, "assets")) and has(n, lambda z: match(z, FB(("idx", F(P, "assets"), "_"), pool))) and has(n, lambda z: match(z, X("decimals", ("idx", F(P, "assets"), "_"))))


# ------------------------------------------------------------------------------------------------------------ guards
def owner_of(g):
    return g.owner(CFG("NFTCollectionId"), g.a(0))


OP = PL(ST("Assets", "_"))


def o_state(g):
    """state of the position's asset"""
    return PL(ST("Assets", F(PL(ST("Positions", g.a(0))), "asset_id")))


def o_safe(g):
    return g.y(("m", "is_safe_withdrawal", "_"))


def barrier(g, asset):
    return g.ok(X("ensure_price", g.who, CFG("HubAssetId"), asset, "_"))


def o_add(g):
    """shares of the position written"""
    ws = [e for e in g.q.writes("Positions") if e.args[-1].op != "removed"]
    f = fields(ws[-1].args[-1]) if ws else {}
    return f


def hubcap(g, asset):
    """new hub reserve / (pool's hub balance + what is added) is within the asset's cap"""
    return any(not p and n.op == "lt" and match(n.args[0], F(PL(ST("Assets", asset)), "cap")) for n, p in g.q.facts)


LIMITS = [
    ("omnipool", ("add_liquidity_with_limit",), [
        ("minimum added", lambda g: g.le(CFGN("MinimumPoolLiquidity"), g.a(1)), (1,), "less than the minimum liquidity can be added"),
        ("tradability", lambda g: g.flag(F(PL(ST("Assets", g.a(0))), "tradable"), "ADD_LIQUIDITY"), (0,), "liquidity is added although the asset's state does not allow it"),
        ("price barrier", lambda g: barrier(g, g.a(0)), (0,), "liquidity is added without the price barrier"),
        ("weight cap", lambda g: hubcap(g, g.a(0)), (0,), "liquidity is added without respecting the weight cap"),
        ("minimum shares", lambda g: "shares" in o_add(g) and g.q.lle(lin(g.a(2)), lin(o_add(g)["shares"])), (2,), "the position may get fewer shares than the caller's minimum"),
    ]),
    ("omnipool", ("remove_liquidity_with_limit",), [
        ("owner", owner_of, (0,), "a position's liquidity is removed by someone who does not own the position"),
        ("positive", lambda g: g.le(1, g.a(1)), (1,), "zero shares can be removed"),
        ("position's shares", lambda g: g.le(g.a(1), F(PL(ST("Positions", g.a(0))), "shares")), (1,), "more shares can be removed than the position holds"),
        ("tradability", lambda g: g.flag(F(o_state(g), "tradable"), "REMOVE_LIQUIDITY"), (0,), "liquidity is removed although the asset's state does not allow it"),
        ("price barrier", lambda g: barrier(g, F(PL(ST("Positions", g.a(0))), "asset_id")) or g.y(("m", "is_safe_withdrawal", F(o_state(g), "tradable"))), (0,), "liquidity is removed without the price barrier while trading is enabled"),
        ("minimum received", lambda g: any(g.q.lle(lin(g.a(2)), lin(f.amount)) for f in g.q.flows() if f.amount is not None and f.dst is g.who and match(f.asset, F(PL(ST("Positions", g.a(0))), "asset_id"))),
         (2,), "the caller may receive less than the stated minimum"),
    ]),
    ("omnipool", ("sacrifice_position",), [("owner", owner_of, (0,), "a position is given up by someone who does not own it")]),
    ("xyk", "create_pool", [
        ("allowed", lambda g: g.y(X("can_create", g.a(0), g.a(2))) or g.y(X("can_create", g.a(2), g.a(0))), (0, 2), "a pool is created that the configuration forbids"),
        ("minimum of the first asset", lambda g: g.le(CFGN("MinPoolLiquidity"), g.a(1)), (1,), "a pool is created with less than the minimum liquidity"),
        ("minimum of the second asset", lambda g: g.le(CFGN("MinPoolLiquidity"), g.a(3)), (3,), "a pool is created with less than the minimum liquidity"),
        ("two assets", lambda g: g.ne(g.a(0), g.a(2)), (0, 2), "a pool of one asset with itself is created"),
        ("new pool", lambda g: g.none(ST("ShareToken", pairs(g.a(0), g.a(2)))), (0, 2), "an existing pool is created again"),
    ]),
    ("xyk", "add_liquidity", [
        ("pool exists", lambda g: g.some(ST("ShareToken", pairs(g.a(0), g.a(1)))), (0, 1), "liquidity is added to a pool that does not exist"),
        ("minimum added", lambda g: g.le(CFGN("MinTradingLimit"), g.a(2)), (2,), "less than the minimum can be added"),
        ("maximum of the second asset", lambda g: moved(g, g.a(1), src=g.who, at_most=g.a(3)), (3,), "the caller may pay more of the second asset than the stated maximum"),
        ("shares", lambda g: minted_positive(g), (2,), "liquidity is added for no shares"),
    ]),
    ("xyk", "remove_liquidity", [
        ("pool exists", lambda g: g.some(ST("ShareToken", pairs(g.a(0), g.a(1)))), (0, 1), "liquidity is removed from a pool that does not exist"),
        ("positive", lambda g: g.le(1, g.a(2)), (2,), "zero shares can be removed"),
        ("shares held", lambda g: g.le(g.a(2), FB(ST("ShareToken", pairs(g.a(0), g.a(1))), g.who)), (2,), "more shares are removed than the caller holds"),
        ("remainder", lambda g: remainder(g, FB(ST("ShareToken", pairs(g.a(0), g.a(1))), g.who), g.a(2), "MinPoolLiquidity"), (2,), "the caller may be left with shares below the minimum"),
    ]),
    ("stableswap", "add_liquidity", [
        ("pool exists", lambda g: g.some(ST("Pools", g.a(0))), (0,), "liquidity is added to a pool that does not exist"),
        ("tradability", lambda g: g.y(("all", g.a(1), ("m", "contains", ST("AssetTradability", g.a(0), F(("idx", g.a(1), "_"), "asset_id")), lambda f: str(f.args[0]).endswith("::ADD_LIQUIDITY")))), (1,),
         "liquidity is added of an asset whose state does not allow it"),
        ("minimum of each asset", lambda g: g.y(("all", g.a(1), lambda n: not_below(n, F(("idx", g.a(1), "_"), "amount"), CFG("MinTradingLimit")))), (1,), "less than the minimum can be added"),
        ("shares", lambda g: minted_positive(g), (1,), "liquidity is added for no shares"),
        ("minimum shares held", lambda g: heldmin(g), (1,), "the caller may end with shares below the minimum"),
        ("pool assets only", lambda g: any(match(n, ("m", "is_empty", "_")) and p for n, p in g.q.facts), (1,), "liquidity of an asset that is not in the pool is accepted"),
    ]),
    ("stableswap", "add_liquidity_shares", [
        ("pool exists", lambda g: g.some(ST("Pools", g.a(0))), (0,), "liquidity is added to a pool that does not exist"),
        ("tradability", lambda g: g.flag(ST("AssetTradability", g.a(0), g.a(2)), "ADD_LIQUIDITY"), (2,), "liquidity is added of an asset whose state does not allow it"),
        ("maximum paid", lambda g: moved(g, g.a(2), src=g.who, at_most=g.a(3)), (3,), "the caller may pay more than the stated maximum"),
        ("minimum shares held", lambda g: heldmin(g), (1,), "the caller may end with shares below the minimum"),
        ("positive payment", lambda g: any(g.q.lle({None: 1}, lin(f.amount)) for f in g.q.flows() if f.amount is not None and f.src is g.who), (1,), "shares are given for nothing"),
    ]),
    ("stableswap", "remove_liquidity_one_asset", [
        ("pool exists", lambda g: g.some(ST("Pools", g.a(0))), (0,), "liquidity is removed from a pool that does not exist"),
        ("tradability", lambda g: g.flag(ST("AssetTradability", g.a(0), g.a(1)), "REMOVE_LIQUIDITY"), (1,), "liquidity is removed of an asset whose state does not allow it"),
        ("positive", lambda g: g.le(1, g.a(2)), (2,), "zero shares can be removed"),
        ("shares held", lambda g: g.le(g.a(2), FB(g.a(0), g.who)), (2,), "more shares are removed than the caller holds"),
        ("remainder", lambda g: remainder(g, FB(g.a(0), g.who), g.a(2), "MinPoolLiquidity"), (2,), "the caller may be left with shares below the minimum"),
        ("minimum received", lambda g: moved(g, g.a(1), dst=g.who, at_least=g.a(3)), (3,), "the caller may receive less than the stated minimum"),
    ]),
    ("stableswap", "withdraw_asset_amount", [
        ("pool exists", lambda g: g.some(ST("Pools", g.a(0))), (0,), "liquidity is removed from a pool that does not exist"),
        ("tradability", lambda g: g.flag(ST("AssetTradability", g.a(0), g.a(1)), "REMOVE_LIQUIDITY"), (1,), "liquidity is removed of an asset whose state does not allow it"),
        ("maximum shares", lambda g: moved(g, g.a(0), src=g.who, at_most=g.a(3)), (3,), "more shares are burned than the stated maximum"),
        ("exact amount", lambda g: moved(g, g.a(1), dst=g.who, at_least=g.a(2)) and moved(g, g.a(1), dst=g.who, at_most=g.a(2)), (2,), "the amount withdrawn is not the stated one"),
        ("remainder", lambda g: any(remainder(g, FB(g.a(0), g.who), f.amount, "MinPoolLiquidity") for f in g.q.flows() if f.src is g.who and f.asset is g.a(0)), (2,), "the caller may be left with shares below the minimum"),
    ]),
    ("lbp", "create_pool", [
        ("minimum of the first asset", lambda g: g.le(CFGN("MinPoolLiquidity"), g.a(2)), (2,), "a pool is created with less than the minimum liquidity"),
        ("minimum of the second asset", lambda g: g.le(CFGN("MinPoolLiquidity"), g.a(4)), (4,), "a pool is created with less than the minimum liquidity"),
        ("two assets", lambda g: g.ne(g.a(1), g.a(3)), (1, 3), "a pool of one asset with itself is created"),
        ("new pool", lambda g: g.none(ST("PoolData", pairs(g.a(1), g.a(3)))), (1, 3), "an existing pool is created again"),
    ]),
    ("lbp", "add_liquidity", [
        ("owner", lambda g: g.eq(g.who, F(PL(ST("PoolData", "_")), "owner")), (), "liquidity is added by someone other than the pool's owner"),
    ]),
    ("lbp", "remove_liquidity", [
        ("owner", lambda g: g.eq(g.who, F(PL(ST("PoolData", g.a(0))), "owner")), (0,), "the pool's liquidity is taken by someone other than its owner"),
        ("not running", lambda g: not_running(g), (0,), "liquidity can be taken out while the sale is running"),
    ]),
    ("lbp", "update_pool_data", [
        ("owner", lambda g: g.eq(g.who, F(PL(ST("PoolData", g.a(0))), "owner")), (0,), "the pool is changed by someone other than its owner"),
        ("not started", lambda g: g.none(F(PL(ST("PoolData", g.a(0))), "start")) or any(n.op == "lt" and p and match(n.args[0], X("current_block_number")) and
                                                                                      match(n.args[1], PL(F(PL(ST("PoolData", g.a(0))), "start"))) for n, p in g.q.facts), (0,),
         "the pool can be changed after the sale has started"),
    ]),
]


def CFGN(n):
    return mk("cfg", n)


def not_below(n, a, b):
    return n.op == "not" and n.args[0].op == "lt" and match(n.args[0].args[0], a) and match(n.args[0].args[1], b) or n.op == "le" and match(n.args[0], b) and match(n.args[1], a)


def moved(g, asset, src=None, dst=None, at_most=None, at_least=None):
    d, found = {}, False
    for f in g.q.flows():
        if f.amount is None:
            return None
        if not (f.asset is asset or f.asset is not None and g.q.same(f.asset, asset)):
            continue
        if src is not None and f.src is src or dst is not None and f.dst is dst:
            d = ladd(d, lin(f.amount))
            found = True
    if at_most is not None:
        return g.q.lle(d, lin(at_most))
    return found and g.q.lle(lin(at_least), d)


def minted_positive(g):
    ds = [f for f in g.q.flows() if f.src is None and f.dst is g.who]
    return bool(ds) and any(g.q.lle({None: 1}, lin(f.amount)) for f in ds if f.amount is not None)


def heldmin(g):
    """balance + minted shares >= MinPoolLiquidity (a saturating sum counts)"""
    ds = [f for f in g.q.flows() if f.src is None and f.dst is g.who and f.amount is not None]
    M = mk("cfg", "MinPoolLiquidity")
    for n, p in g.q.facts:
        if n.op == "lt" and not p and n.args[1] is M:
            x = n.args[0].args[0] if n.args[0].op == "sat" else n.args[0]
            if any(matchlin(lin(x), [(1, f.amount), (1, X("free_balance", "_", g.who))]) for f in ds):
                return True
    return False


def remainder(g, bal, amount, cfg):
    """bal - amount is zero or at least the configured minimum"""
    M = mk("cfg", cfg)
    for b in g.nodes(bal):
        rest = lsub(lin(b), lin(amount))
        if g.q.leq(lin(b), lin(amount)) or g.q.lle(lin(M), rest):
            return True
        for n, p in g.q.facts:
            if n.op == "lt" and not p and n.args[1] is M and n.args[0].op == "satsub" and n.args[0].args[0] is b and n.args[0].args[1] is amount:
                return True
            if n.op == "eq" and p and set(n.args) == {b, amount}:
                return True
    return False


def not_running(g):
    P = PL(ST("PoolData", g.a(0)))
    s, e = F(P, "start"), F(P, "end")
    now = X("current_block_number")
    return g.none(s) or g.none(e) or any(n.op == "lt" and p and (match(n.args[0], now) and match(n.args[1], PL(s)) or match(n.args[1], now) and match(n.args[0], PL(e))) for n, p in g.q.facts)


def limits(pid, tier):
    ctx = Ctx(pid, tier)
    PG.run(ctx, LIMITS)
    return ctx.done(PG.RULE)


# ------------------------------------------------------------------------------------------------------------ amounts
RULE7 = ("Every success path of the functions that add or remove liquidity is evaluated over the parsed source; its currency movements must be exactly the specified ones (asset, source, destination) "
         "and every computed amount must be the specified formula call with the arguments listed in the rule; records written must carry the specified values.")


def f_xyk_create(ctx, r, q, g):
    a, na, b, nb = (g.a(k) for k in range(4))
    pool = lambda n: any(match(n, p) for p in pairs(a, b))
    tok = PL(X("get_or_register_insufficient_asset", ...))
    smaller = lambda n: n is na and q.lle(lin(a), lin(b)) or n is nb and q.lle(lin(b), lin(a)) or n.op == "ite"
    settle(ctx, r, q, g, [("first asset paid in", a, g.who, pool, na), ("second asset paid in", b, g.who, pool, nb), ("shares minted", tok, None, g.who, smaller)])
    w = wrote(ctx, r, q, g, "TotalLiquidity", [pool], smaller, "total liquidity", "the pool's total liquidity is not the number of shares minted")
    wrote(ctx, r, q, g, "ShareToken", [pool], tok, "share token", "the pool's share token is not the registered one")
    wrote(ctx, r, q, g, "PoolAssets", [pool], lambda n: n.op == "tuple" and set(n.args) == {a, b}, "pool assets", "the recorded assets are not the pool's")


def f_xyk_add(ctx, r, q, g):
    a, b, na = g.a(0), g.a(1), g.a(2)
    pool = lambda n: any(match(n, p) for p in pairs(a, b))
    T = ST("TotalLiquidity", pool)
    nb = PL(C("calculate_liquidity_in", FB(a, pool), FB(b, pool), na))
    sh = PL(C("xyk::calculate_shares", FB(a, pool), na, T))
    settle(ctx, r, q, g, [("first asset paid in", a, g.who, pool, na), ("second asset paid in", b, g.who, pool, nb), ("shares minted", ST("ShareToken", pool), None, g.who, sh)])
    wrote(ctx, r, q, g, "TotalLiquidity", [pool], LIN((1, T), (1, sh)), "total liquidity", "total liquidity does not grow by the shares minted")


def f_xyk_remove(ctx, r, q, g):
    a, b, n = g.a(0), g.a(1), g.a(2)
    pool = lambda n: any(match(n, p) for p in pairs(a, b))
    T = ST("TotalLiquidity", pool)
    out = PL(C("calculate_liquidity_out", FB(a, pool), FB(b, pool), n, T))
    settle(ctx, r, q, g, [("first asset paid out", a, pool, g.who, F(out, 0)), ("second asset paid out", b, pool, g.who, F(out, 1)), ("shares burned", ST("ShareToken", pool), g.who, None, n)])
    ws = [e for e in q.writes("TotalLiquidity") if match(e.args[0], pool)]
    left = LIN((1, T), (-1, n))
    gone = [e for e in ws if e.args[-1].op == "removed"]
    if gone:
        z = any(p and f.op == "eq" and any(left(x) for x in f.args) and any(x.op == "const" and x.args[0] == 0 for x in f.args) for f, p in q.facts) or \
            any(p and f.op == "eq" and any(match(x, T) for x in f.args) and n in f.args for f, p in q.facts)
        ctx.judge(r, q, "pool removed", z, "the pool is removed while shares remain", relevant=(n,), eff=gone[0])
        for item in ("ShareToken", "PoolAssets"):
            wrote(ctx, r, q, g, item, [pool], None, "pool removed", f"{item} of an empty pool is not removed")
    else:
        wrote(ctx, r, q, g, "TotalLiquidity", [pool], left, "total liquidity", "total liquidity does not shrink by the shares burned")
        for item in ("ShareToken", "PoolAssets"):
            ctx.judge(r, q, "pool kept", not q.writes(item), f"{item} changes although shares remain", relevant=(n,), eff=(q.writes(item) or [None])[0])


def stable(g):
    P = PL(ST("Pools", g.a(0)))
    pool = X("from_assets", g.a(0), "_")
    return P, pool, reserves(P, pool), X("total_issuance", g.a(0))


def f_st_shares(ctx, r, q, g):
    P, pool, R, iss = stable(g)
    pay = F(PL(C("calculate_add_one_asset", R, g.a(1), pos(P, g.a(2)), iss, amp(P), F(P, "fee"))), 0)
    settle(ctx, r, q, g, [("shares minted", g.a(0), None, g.who, g.a(1)), ("asset paid in", g.a(2), g.who, pool, pay)])


def f_st_add(ctx, r, q, g):
    P, pool, R, iss = stable(g)
    el = ("idx", g.a(1), "_")
    sh = PL(C("stableswap::calculate_shares", R, lambda n: True, amp(P), iss, F(P, "fee")))
    settle(ctx, r, q, g, [("shares minted", g.a(0), None, g.who, sh), ("assets paid in", F(el, "asset_id"), g.who, pool, F(el, "amount"))])


def f_st_remove(ctx, r, q, g):
    P, pool, R, iss = stable(g)
    out = F(PL(C("calculate_withdraw_one_asset", R, g.a(2), pos(P, g.a(1)), iss, amp(P), F(P, "fee"))), 0)
    settle(ctx, r, q, g, [("shares burned", g.a(0), g.who, None, g.a(2)), ("asset paid out", g.a(1), pool, g.who, out)])


def f_st_withdraw(ctx, r, q, g):
    P, pool, R, iss = stable(g)
    sh = PL(C("calculate_shares_for_amount", R, pos(P, g.a(1)), g.a(2), amp(P), iss, F(P, "fee")))
    settle(ctx, r, q, g, [("shares burned", g.a(0), g.who, None, sh), ("asset paid out", g.a(1), pool, g.who, g.a(2))])


def ostate(x, acc=PG.POOLACC):
    A = PL(ST("Assets", x))

    def ok(n):
        f = fields(n)
        return {"reserve", "hub_reserve", "shares", "protocol_shares"} <= set(f) and match(f["reserve"], FB(x, acc)) and all(match(f[k], F(A, k)) for k in ("hub_reserve", "shares", "protocol_shares"))
    return ok


HUB = CFG("HubAssetId")
IMB = lambda n: has(n, lambda z: match(z, ST("HubAssetImbalance")))


def is_hub(f):
    return match(f.asset, HUB)


def f_omni_add(ctx, r, q, g):
    x, n = g.a(0), g.a(1)
    ch = PL(C("calculate_add_liquidity_state_changes", ostate(x), n, IMB, FB(HUB, PG.POOLACC)))
    D = F(ch, "asset", "delta_reserve")
    settle(ctx, r, q, g, [("asset paid in", x, g.who, PG.POOLACC, lambda z: z is n or match(z, D))],
           extra=[lambda f: is_hub(f) and (f.src is None and match(f.dst, PG.POOLACC) or f.dst is None and match(f.src, PG.POOLACC))])
    upd = lambda s, k: any(match(z, F(ch, "asset", k)) for z in find(s, lambda z: z.op == "fld"))
    w = wrote(ctx, r, q, g, "Positions", [ST("NextPositionId")], REC(asset_id=lambda z: z is x, amount=lambda z: z is n or match(z, D), shares=F(ch, "asset", "delta_shares"),
              price=lambda z: z.op == "tuple" and len(z.args) == 2 and upd(z.args[0], "delta_hub_reserve") and upd(z.args[1], "delta_reserve") and
              any(match(y, F(PL(ST("Assets", x)), "hub_reserve")) for y in find(z.args[0], lambda y: y.op == "fld"))), "position", "the position does not record the asset, amount, shares and price of this addition")
    mints = q.ext("NFTHandler.mint_into")
    ctx.judge(r, q, "position token", len(mints) == 1 and match(mints[0].args[0], CFG("NFTCollectionId")) and match(mints[0].args[1], ST("NextPositionId")) and mints[0].args[2] is g.who,
              "the position's token is not minted to the caller under the position's id", eff=(mints or [None])[0])
    wrote(ctx, r, q, g, "NextPositionId", [], lambda z: has(z, mk("st", "NextPositionId")) and z is not mk("st", "NextPositionId"), "next position", "the next position id does not advance")


def f_omni_remove(ctx, r, q, g):
    pid, n = g.a(0), g.a(1)
    p = PL(ST("Positions", pid))
    x = F(p, "asset_id")
    A = PL(ST("Assets", x))
    price = PL(X("get_price", HUB, x))
    spot = lambda z: has(z, lambda y: match(y, F(A, "hub_reserve"))) and has(z, lambda y: match(y, FB(x, PG.POOLACC)))
    fee = C("calculate_withdrawal_fee", spot, lambda z: has(z, lambda y: match(y, F(price, "n"))) and has(z, lambda y: match(y, F(price, "d"))), CFG("MinWithdrawalFee"))
    ch = PL(C("calculate_remove_liquidity_state_changes", ostate(x), n, p, IMB, FB(HUB, PG.POOLACC), lambda z: match(z, fee)))
    settle(ctx, r, q, g, [("asset paid out", x, PG.POOLACC, g.who, F(ch, "asset", "delta_reserve"))],
           extra=[lambda f: is_hub(f) and (f.src is None and match(f.dst, PG.POOLACC) or f.dst is None and match(f.src, PG.POOLACC)),
                  lambda f: is_hub(f) and match(f.src, PG.POOLACC) and f.dst is g.who and match(f.amount, F(ch, "lp_hub_amount"))])
    hubs = [f for f in q.flows() if is_hub(f) and (f.dst is g.who or f.dst is None and match(f.amount, F(ch, "lp_hub_amount")))]
    none = any(q.lle(lin(z), {}) for z in g.nodes(F(ch, "lp_hub_amount")))
    ctx.judge(r, q, "hub asset paid out", len(hubs) == 1 or not hubs and none, "the provider's hub asset is not paid out (or burned when the transfer fails) exactly once", eff=(hubs or [None])[0] and hubs[0].eff)
    burn = q.ext("NFTHandler.burn")
    gone = [e for e in q.writes("Positions") if e.args[-1].op == "removed"]
    ctx.judge(r, q, "position token", bool(burn) == bool(gone), "the position and its token are not removed together", eff=(burn or gone or [None])[0])
    for e in gone:
        z = any(pp and f.op == "eq" and any(y.op == "const" and y.args[0] == 0 for y in f.args) and any(has(y, lambda w: match(w, F(p, "shares"))) for y in f.args) for f, pp in q.facts) or \
            q.leq(lin(n), {mk("fld", mk("payload", mk("st", "Positions", pid)), "shares"): 1})
        ctx.judge(r, q, "position removed", z, "a position that still has shares is removed", relevant=(pid,), eff=e)
    if not gone:
        ws = [e for e in q.writes("Positions") if e.args[0] is pid]
        ok = len(ws) == 1 and {"asset_id", "price", "amount", "shares"} <= set(fields(ws[0].args[-1]))
        if ok:
            f = fields(ws[0].args[-1])
            ok = match(f["asset_id"], x) and match(f["price"], F(p, "price")) and has(f["amount"], lambda z: match(z, F(ch, "delta_position_reserve"))) and has(f["amount"], lambda z: match(z, F(p, "amount")))
        ctx.judge(r, q, "position kept", ok, "the position does not keep its asset and entry price or its amount does not fall by the removed part", relevant=(pid,), eff=(ws or [None])[0])


def f_omni_sacrifice(ctx, r, q, g):
    pid = g.a(0)
    p = PL(ST("Positions", pid))
    x = F(p, "asset_id")
    A = PL(ST("Assets", x))
    settle(ctx, r, q, g, [])
    wrote(ctx, r, q, g, "Positions", [pid], None, "position removed", "the position is not removed")
    wrote(ctx, r, q, g, "Assets", [x], REC(protocol_shares=LIN((1, F(A, "protocol_shares")), (1, F(p, "shares"))), shares=F(A, "shares"), hub_reserve=F(A, "hub_reserve"), cap=F(A, "cap"),
                                             tradable=F(A, "tradable")), "protocol shares", "the position's shares do not become the protocol's")
    burn = q.ext("NFTHandler.burn")
    ctx.judge(r, q, "position token", len(burn) == 1 and burn[0].args[1] is pid, "the position's token is not burned")


def f_omni_protocol(ctx, r, q, g):
    x, n, price, dest = (g.a(k) for k in range(4))
    A = PL(ST("Assets", x))
    ch = PL(C("calculate_remove_liquidity_state_changes", ostate(x), n, lambda z: has(z, price) and not has(z, lambda y: y.op == "st" and y.args[0] == "Positions"), IMB, FB(HUB, PG.POOLACC), "_"))
    settle(ctx, r, q, g, [("asset paid out", x, PG.POOLACC, dest, F(ch, "asset", "delta_reserve"))],
           extra=[lambda f: is_hub(f) and (f.src is None and match(f.dst, PG.POOLACC) or f.dst is None and match(f.src, PG.POOLACC)),
                  lambda f: is_hub(f) and match(f.src, PG.POOLACC) and f.dst is dest and match(f.amount, F(ch, "lp_hub_amount"))])
    ctx.judge(r, q, "protocol's shares", g.le(n, F(A, "protocol_shares")), "more than the protocol's shares can be withdrawn", relevant=(n,))


def f_lbp_create(ctx, r, q, g):
    o, a, na, b, nb = (g.a(k) for k in range(5))
    pool = lambda n: any(match(n, p) for p in pairs(a, b))
    settle(ctx, r, q, g, [("first asset paid in", a, o, pool, na), ("second asset paid in", b, o, pool, nb)])
    wrote(ctx, r, q, g, "PoolData", [pool], REC(owner=o, assets=lambda n: n.op == "tuple" and set(n.args) == {a, b}, fee=g.a(8), fee_collector=g.a(9), initial_weight=g.a(5), final_weight=g.a(6),
                                                  repay_target=g.a(10), start="_", end="_"), "pool data", "the pool does not record its owner, assets, weights, fee, collector and repay target")


def f_lbp_add(ctx, r, q, g):
    A, B = g.a(0), g.a(1)
    a, na, b, nb = mk("fld", A, "0"), mk("fld", A, "1"), mk("fld", B, "0"), mk("fld", B, "1")
    a, na, b, nb = F(A, 0), F(A, 1), F(B, 0), F(B, 1)
    pool = lambda n: any(match(n, p) for p in pairs(a, b))
    settle(ctx, r, q, g, [("first asset paid in", a, g.who, pool, na), ("second asset paid in", b, g.who, pool, nb)])


def f_lbp_remove(ctx, r, q, g):
    pool = g.a(0)
    P = PL(ST("PoolData", pool))
    a, b = F(P, "assets", 0), F(P, "assets", 1)
    settle(ctx, r, q, g, [("first asset paid out", a, pool, g.who, FB(a, pool)), ("second asset paid out", b, pool, g.who, FB(b, pool))])
    wrote(ctx, r, q, g, "PoolData", [pool], None, "pool removed", "the emptied pool is not removed")
    wrote(ctx, r, q, g, "FeeCollectorWithAsset", [F(P, "fee_collector"), a], None, "collector freed", "the pool's fee collector stays bound to the removed pool")


AMOUNTS = [("xyk", "create_pool", f_xyk_create), ("xyk", "add_liquidity", f_xyk_add), ("xyk", "remove_liquidity", f_xyk_remove), ("stableswap", "add_liquidity", f_st_add),
           ("stableswap", "add_liquidity_shares", f_st_shares), ("stableswap", "remove_liquidity_one_asset", f_st_remove), ("stableswap", "withdraw_asset_amount", f_st_withdraw),
           ("omnipool", "add_liquidity_with_limit", f_omni_add), ("omnipool", "remove_liquidity_with_limit", f_omni_remove), ("omnipool", "sacrifice_position", f_omni_sacrifice),
           ("omnipool", "withdraw_protocol_liquidity", f_omni_protocol), ("lbp", "create_pool", f_lbp_create), ("lbp", "add_liquidity", f_lbp_add), ("lbp", "remove_liquidity", f_lbp_remove)]


def formulas(pid, tier):
    ctx = Ctx(pid, tier)
    for pn, fname, fun in AMOUNTS:
        amounts(ctx, pn, fname, fun)
    return ctx.done(RULE7, ["the formulas themselves, as decided by M01, M03, M04 and M06"])


@guarded
def amounts(ctx, pn, fname, fun):
    r = ctx.fn(pn, fname)
    if r is None:
        return
    for q in r.paths:
        fun(ctx, r, q, G(r, q))
