"""Liquidity mining entry points: deposits move exactly the depositor's tokens, only the deposit's holder acts on it, farms are managed as the caller for the named pool."""
from rules.p_small import *

RULE = ("Every success path of the dispatchables of the two liquidity mining front pallets, and of the trait implementation they call, is compared with the specified calls, token movements, "
        "NFT movements and storage writes; functions handed to the farms pallet are evaluated with unknown arguments and their results compared with the specified value of the shares.")
OM, XY, LMP = "omnipool-liquidity-mining", "xyk-liquidity-mining", "liquidity-mining"
H = "LiquidityMiningHandler."
ACC = PL(("m", "try_into_account", CFG("PalletId")))
PACC = [("m", "into_account_truncating", CFG("PalletId")), ACC]
NFT = CFG("NFTCollectionId")
ONFT = CFG("NFTCollectionId@pallet_omnipool")
SIG = {
    (OM, "create_global_farm"): "total_rewards planned_yielding_periods blocks_per_period reward_currency owner yield_per_period min_deposit lrna_price_adjustment",
    (XY, "create_global_farm"): "total_rewards planned_yielding_periods blocks_per_period incentivized_asset reward_currency owner yield_per_period min_deposit price_adjustment",
    (XY, "update_global_farm"): "global_farm_id price_adjustment",
    (OM, "terminate_global_farm"): "global_farm_id", (XY, "terminate_global_farm"): "global_farm_id",
    (OM, "create_yield_farm"): "global_farm_id asset_id multiplier loyalty_curve", (XY, "create_yield_farm"): "global_farm_id asset_pair multiplier loyalty_curve",
    (OM, "update_yield_farm"): "global_farm_id asset_id multiplier", (XY, "update_yield_farm"): "global_farm_id asset_pair multiplier",
    (OM, "stop_yield_farm"): "global_farm_id asset_id", (XY, "stop_yield_farm"): "global_farm_id asset_pair",
    (OM, "resume_yield_farm"): "global_farm_id yield_farm_id asset_id multiplier", (XY, "resume_yield_farm"): "global_farm_id yield_farm_id asset_pair multiplier",
    (OM, "terminate_yield_farm"): "global_farm_id yield_farm_id asset_id", (XY, "terminate_yield_farm"): "global_farm_id yield_farm_id asset_pair",
    (OM, "deposit_shares"): "global_farm_id yield_farm_id position_id", (XY, "deposit_shares"): "global_farm_id yield_farm_id asset_pair shares_amount",
    (OM, "redeposit_shares"): "global_farm_id yield_farm_id deposit_id", (XY, "redeposit_shares"): "global_farm_id yield_farm_id asset_pair deposit_id",
    (OM, "claim_rewards"): "deposit_id yield_farm_id", (XY, "claim_rewards"): "deposit_id yield_farm_id",
    (OM, "withdraw_shares"): "deposit_id yield_farm_id", (XY, "withdraw_shares"): "deposit_id yield_farm_id asset_pair",
    (LMP, "withdraw_lp_shares"): "who deposit_id global_farm_id yield_farm_id amm_pool_id", (LMP, "is_yield_farm_claimable"): "global_farm_id yield_farm_id amm_pool_id",
}


class A(G):
    """a path with its arguments by the names of the specification (positions, so renaming a parameter changes nothing)"""

    def __init__(self, r, q, pn, f):
        super().__init__(r, q)
        self.sig = SIG.get((pn, f), "").split()

    def has(self, k):
        return k in self.sig

    def a(self, k):
        return self.r.arg(self.sig.index(k))


def positional(r):
    return [r.arg(k) for k in range(12) if r.arg(k) is not None]


def acts(ctx, r, q, specs, what=""):
    """the calls and writes of the path are exactly the specified ones (events aside); returns the effects in the order of the specs"""
    rest = [e for e in q.acts() if e.kind != "event"]
    got = []
    for label, kind, name, args in specs:
        same = [e for e in rest if (e.kind == kind or kind == "write" and e.kind == "set") and e.name == name and len([a for a in e.args if isinstance(a, Node)]) == len(args)]
        m = [e for e in same if all(match(a, p) for a, p in zip([a for a in e.args if isinstance(a, Node)], args))]
        if m:
            ctx.judge(r, q, label, True, "")
            rest.remove(m[0])
            got.append(m[0])
            continue
        got.append(None)
        if same:
            e = same[0]
            rest.remove(e)
            bad = [show(a)[:120] for a, p in zip([a for a in e.args if isinstance(a, Node)], args) if not match(a, p)]
            ctx.judge(r, q, label, False, f"{label}: {name} with {'; '.join(bad)}", relevant=VALUE, eff=e)
        else:
            ctx.judge(r, q, label, False, f"{label}: {name} is not called" if kind == "ext" else f"{label}: {name} is not written", relevant=VALUE)
    for e in rest:
        fam = e.kind in ("write", "set") or e.name.split(".")[0] in ("Currencies", "NFTHandler", "LiquidityMiningHandler")
        ctx.judge(r, q, "nothing else", False if fam else None, lambda: f"unexpected {e.kind} {e.name}", relevant=VALUE, eff=e)
    return got


def certain(ctx, r, q):
    """a failing step fails the call"""
    q.allcertain(ctx, r)


@guarded
def creation(ctx, pn, r, q):
    g = A(r, q, pn, "create_global_farm")
    a = g.a
    ctx.judge(r, q, "privileged", "CreateOrigin" in q.origins(), "a global farm is created without the privileged origin")
    hub = CFG("HubAssetId") if pn == OM else a("incentivized_asset")
    adj = a("lrna_price_adjustment") if pn == OM else a("price_adjustment")
    specs = [("global farm as specified", "ext", H + "create_global_farm",
              (a("total_rewards"), a("planned_yielding_periods"), a("blocks_per_period"), hub, a("reward_currency"), a("owner"), a("yield_per_period"), a("min_deposit"), adj))]
    if pn == XY:
        suff = X("is_sufficient", a("reward_currency"))
        if g.n(suff):
            ed = lambda n: bool(find(n, lambda x: match(x, X("existential_deposit", a("reward_currency"))))) and not find(n, lambda x: x.op in ("add", "mul", "sub", "div"))
            specs.append(("pot kept alive", "ext", "Currencies.transfer", (a("reward_currency"), a("owner"), PL(X("pot_account")), ed)))
        elif not g.y(suff):
            ctx.judge(r, q, "sufficiency known", None, "sufficiency of the reward currency is not decided on the path")
            return
    acts(ctx, r, q, specs)


def managed(g, pn, checked):
    """the pool a call names: id pattern"""
    return g.a("asset_id") if pn == OM else X("get_pair_id", g.a("asset_pair"))


# function, does the pool have to exist, arguments after (who, global farm)
MANAGE = {
    "update_global_farm": ("update_global_farm_price_adjustment", False, lambda g, pn, p: (g.who, g.a("global_farm_id"), g.a("price_adjustment"))),
    "terminate_global_farm": ("terminate_global_farm", False, lambda g, pn, p: (g.who, g.a("global_farm_id"))),
    "create_yield_farm": ("create_yield_farm", True, lambda g, pn, p: (g.who, g.a("global_farm_id"), g.a("multiplier"), g.a("loyalty_curve"), p, pair(g, pn))),
    "update_yield_farm": ("update_yield_farm_multiplier", True, lambda g, pn, p: (g.who, g.a("global_farm_id"), p, g.a("multiplier"))),
    "stop_yield_farm": ("stop_yield_farm", False, lambda g, pn, p: (g.who, g.a("global_farm_id"), p)),
    "resume_yield_farm": ("resume_yield_farm", True, lambda g, pn, p: (g.who, g.a("global_farm_id"), g.a("yield_farm_id"), p, g.a("multiplier"))),
    "terminate_yield_farm": ("terminate_yield_farm", False, lambda g, pn, p: (g.who, g.a("global_farm_id"), g.a("yield_farm_id"), p)),
}


def pair(g, pn):
    if pn == OM:
        x, y = g.a("asset_id"), CFG("HubAssetId")
    else:
        p = g.a("asset_pair")
        x, y = ("fld", p, "asset_in"), ("fld", p, "asset_out")
    return [("list", x, y), ("list", y, x)]


@guarded
def management(ctx, pn, fname, r, q):
    g = A(r, q, pn, fname)
    ctx.judge(r, q, "signed", g.who is not None, "a farm is managed without a signature")
    if g.who is None:
        return
    call, exists, args = MANAGE[fname]
    pool = managed(g, pn, exists) if g.has("asset_id") or g.has("asset_pair") else None
    if exists:
        c = C("exists", g.a("asset_id")) if pn == OM else X("exists", g.a("asset_pair"))
        ctx.judge(r, q, "pool exists", g.y(c), "a yield farm is created, updated or resumed for a pool that need not exist", relevant=(g.a("asset_id") if pn == OM else g.a("asset_pair"),))
    acts(ctx, r, q, [("managed as the caller", "ext", H + call, args(g, pn, pool))])


def holder(ctx, r, q, g):
    """signed by the holder of the deposit's NFT"""
    ok = g.who is not None and g.owner(NFT, g.a("deposit_id"))
    ctx.judge(r, q, "only the holder", ok, "the caller need not hold the deposit", relevant=(g.a("deposit_id"),))
    return ok


@guarded
def valuation(ctx, pn, r, q, pos):
    """what the function handed to the farms pallet returns is the value of the shares"""
    cb = [e for e in q.eff if e.kind == "callback"]
    if len(cb) != 1:
        ctx.judge(r, q, "valued", None, "valuation not evaluated")
        return
    any_ok = False
    for facts, val, eff in cb[0].raw[8]:
        if val.op == "variant:Err":
            continue
        any_ok = True
        v = val.args[0] if val.op == "variant:Ok" else ("?",)
        if not isinstance(v, Node):
            ctx.judge(r, q, "valued", None, "valuation of unknown form")
            continue
        yes = lambda pat: any(p and match(n, pat) for n, p in facts)
        eqs = [(n, p) for n, p in facts if n.op == "eq"]
        if pn == OM:
            price = F(F(PL(X("get_price", CFG("HubAssetId"), F(pos, "asset_id"), CFG("OraclePeriod"), CFG("OracleSource"))), "0"))
            want = ("div", [("mul", F(pos, "amount"), F(price, "n")), ("mul", F(price, "n"), F(pos, "amount"))], F(price, "d"))
            ctx.judge(r, q, "valued at the oracle price", match(v, want), lambda: f"the position is valued at {show(v)[:200]}", relevant=VALUE, eff=cb[0])
        else:
            asset, pool, n = (mk("cbarg", i) for i in range(3))
            assets = PL(X("get_pool_assets", pool))
            at = lambda i: ("idx", assets, i)
            liq = PL(X("get_liquidity_behind_shares", at(0), at(1), n))
            first = [p for x, p in eqs if match(x, ("eq", asset, at(0))) or match(x, ("eq", at(0), asset))]
            second = [p for x, p in eqs if match(x, ("eq", asset, at(1))) or match(x, ("eq", at(1), asset))]
            inpool = yes(lambda x: x.op == "contains" and match(x.args[0], assets) and x.args[1] is asset)
            isfirst = True in first
            issecond = True in second or inpool and False in first
            if not (isfirst or issecond):
                ctx.judge(r, q, "valued asset in the pool", False, "shares are valued in an asset that need not be in the pool", relevant=VALUE, eff=cb[0])
                continue
            want = F(liq, "0" if isfirst else "1")
            ctx.judge(r, q, "valued by the liquidity behind the shares", match(v, want), lambda: f"the shares are valued at {show(v)[:200]}", relevant=VALUE, eff=cb[0])
    if not any_ok:
        ctx.judge(r, q, "valued", None, "valuation always fails")


def xyklp(g):
    """the share token of the named pair"""
    p = g.a("asset_pair")
    assets = PL(X("get_pool_assets", X("get_pair_id", p)))
    return [X("get_share_token", p), X("get_share_token", C("AssetPair::new", ("idx", assets, 0), ("idx", assets, 1)))]


@guarded
def deposit(ctx, pn, r, q):
    g = A(r, q, pn, "deposit_shares")
    a = g.a
    ctx.judge(r, q, "signed", g.who is not None, "shares are deposited without a signature")
    if g.who is None:
        return
    certain(ctx, r, q)
    new = lambda n: n.op == "payload" and match(n.args[0], X(H[:-1] + ".deposit_lp_shares", ...))
    if pn == OM:
        load = C("load_position", a("position_id"), g.who)
        pos = PL(load)
        ctx.judge(r, q, "own position", g.ok(load), "the position need not be the caller's", relevant=(a("position_id"),))
        ctx.judge(r, q, "asset in the pool", g.y(C("exists", F(pos, "asset_id"))), "a position of an asset not in the omnipool is deposited", relevant=(a("position_id"),))
        specs = [("deposited shares", "ext", H + "deposit_lp_shares", (a("global_farm_id"), a("yield_farm_id"), F(pos, "asset_id"), F(pos, "shares"), "_")),
                 ("position moves to the pallet", "ext", "NFTHandler.transfer", (ONFT, a("position_id"), PACC)),
                 ("position recorded", "write", "OmniPositionId", (new, a("position_id"))),
                 ("deposit minted to the caller", "ext", "NFTHandler.mint_into", (NFT, new, g.who))]
    else:
        pos = None
        pool = X("get_pair_id", a("asset_pair"))
        ctx.judge(r, q, "pool exists", g.y(X("exists", a("asset_pair"))), "shares of a pool that need not exist are deposited", relevant=(a("asset_pair"),))
        specs = [("deposited shares", "ext", H + "deposit_lp_shares", (a("global_farm_id"), a("yield_farm_id"), pool, a("shares_amount"), "_")),
                 ("share tokens move to the pallet", "ext", "Currencies.transfer", (xyklp(g), g.who, PACC, a("shares_amount"))),
                 ("deposit minted to the caller", "ext", "NFTHandler.mint_into", (NFT, new, g.who))]
    acts(ctx, r, q, specs)
    valuation(ctx, pn, r, q, pos)


@guarded
def redeposit(ctx, pn, r, q):
    g = A(r, q, pn, "redeposit_shares")
    a = g.a
    if not holder(ctx, r, q, g):
        return
    pos = None
    if pn == OM:
        load = C("load_position", PL(ST("OmniPositionId", a("deposit_id"))), PACC)
        pos = PL(load)
        ctx.judge(r, q, "deposit's position", g.ok(load), "the deposit's position is not loaded", relevant=(a("deposit_id"),))
        ctx.judge(r, q, "asset in the pool", g.y(C("exists", F(pos, "asset_id"))), "a position of an asset not in the omnipool is redeposited", relevant=(a("deposit_id"),))
    got = acts(ctx, r, q, [("redeposited", "ext", H + "redeposit_lp_shares", (a("global_farm_id"), a("yield_farm_id"), a("deposit_id"), "_"))])
    if pn == XY and got[0] is not None:
        pool = X("get_pair_id", a("asset_pair"))
        ctx.judge(r, q, "pool exists", g.y(X("exists", a("asset_pair"))), "shares of a pool that need not exist are redeposited", relevant=(a("asset_pair"),))
        ctx.judge(r, q, "the deposit's pool", g.eq(pool, F(PL(X("redeposit_lp_shares", ...)), "1")), "the named pair need not be the pool of the deposit", relevant=(a("asset_pair"),))
    valuation(ctx, pn, r, q, pos)


@guarded
def claiming(ctx, pn, r, q):
    g = A(r, q, pn, "claim_rewards")
    a = g.a
    if not holder(ctx, r, q, g):
        return
    acts(ctx, r, q, [("claimed for the holder", "ext", H + "claim_rewards", (g.who, a("deposit_id"), a("yield_farm_id")))])
    amount = F(PL(X("claim_rewards", g.who, a("deposit_id"), a("yield_farm_id"))), "2")
    ctx.judge(r, q, "no empty claim", g.lt(0, amount), "a claim of nothing succeeds", relevant=VALUE)


@guarded
def withdrawal(ctx, pn, r, q):
    g = A(r, q, pn, "withdraw_shares")
    a = g.a
    if not holder(ctx, r, q, g):
        return
    certain(ctx, r, q)
    gf = PL(X("get_global_farm_id", a("deposit_id"), a("yield_farm_id")))
    if pn == OM:
        pos = PL(C("load_position", PL(ST("OmniPositionId", a("deposit_id"))), PACC))
        pool = F(pos, "asset_id")
    else:
        pool = X("get_pair_id", a("asset_pair"))
        ctx.judge(r, q, "pool exists", g.y(X("exists", a("asset_pair"))), "shares of a pool that need not exist are withdrawn", relevant=(a("asset_pair"),))
    call = X("withdraw_lp_shares", ...)
    done = F(PL(call), "2")
    amount = F(PL(call), "0")
    specs = [("withdrawn from the deposit's pool", "ext", H + "withdraw_lp_shares", (g.who, a("deposit_id"), gf, a("yield_farm_id"), pool))]
    if g.y(done):
        if pn == OM:
            specs += [("position returned to the holder", "ext", "NFTHandler.transfer", (ONFT, PL(ST("OmniPositionId", a("deposit_id"))), g.who)),
                      ("position forgotten", "write", "OmniPositionId", (a("deposit_id"), lambda n: n.op == "removed"))]
        else:
            specs += [("share tokens returned to the holder", "ext", "Currencies.transfer", (xyklp(g), PACC, g.who, amount))]
        specs += [("deposit burned", "ext", "NFTHandler.burn", (NFT, a("deposit_id"), lambda n: n.op == "variant:None" or n.op == "variant:Some" and n.args[0] is g.who))]
    elif not g.n(done):
        ctx.judge(r, q, "last entry known", None, "whether the deposit is destroyed is not decided on the path")
        return
    acts(ctx, r, q, specs)


def pallets(ctx):
    for pn in (OM, XY):
        todo = [("create_global_farm", lambda r, q: creation(ctx, pn, r, q)), ("deposit_shares", lambda r, q: deposit(ctx, pn, r, q)),
                ("redeposit_shares", lambda r, q: redeposit(ctx, pn, r, q)), ("claim_rewards", lambda r, q: claiming(ctx, pn, r, q)),
                ("withdraw_shares", lambda r, q: withdrawal(ctx, pn, r, q))]
        for f in MANAGE:
            if pn == OM and f == "update_global_farm" and not ctx.pallet(pn).calls.get(f):
                continue
            todo.append((f, lambda r, q, f=f: management(ctx, pn, f, r, q)))
        for f, k in todo:
            r = ctx.fn(pn, f)
            for q in (r.paths if r is not None else []):
                k(r, q)


# ---------------------------------------------------------------------------------------------------- the trait implementation
INNER = ("create_global_farm", "update_global_farm_price_adjustment", "terminate_global_farm", "create_yield_farm", "update_yield_farm_multiplier", "stop_yield_farm", "resume_yield_farm",
         "terminate_yield_farm", "deposit_lp_shares", "redeposit_lp_shares", "claim_rewards", "withdraw_lp_shares", "is_yield_farm_claimable", "get_global_farm_id")


def trait(ctx):
    try:
        p = ctx.pallet(LMP)
    except KeyError:
        ctx.fn(LMP, "withdraw_lp_shares")
        return
    for f in INNER:
        fs = [x for x in p.c.by_name.get(f, []) if x.impl is not None and x.impl["trait"] is not None and "Mutate" in repr(x.impl["trait"]) and "tests" not in x.mod.path]
        if len(fs) != 1:
            ctx.c["missing"] += 1
            ctx.und.append(f"{LMP}: implementation of Mutate::{f} not found")
            continue
        r = ctx.fn(LMP, f, fn=fs[0], opaque=INNER)
        for q in (r.paths if r is not None else []):
            one(ctx, r, q, f)


def delegates(q):
    return [e for e in q.eff if e.kind == "call" and e.name.split("::")[-1] in INNER]


@guarded
def one(ctx, r, q, f):
    g = A(r, q, LMP, f)
    a = g.a
    mine = delegates(q)
    val = tonode_(q.val)
    if val.op in ("variant:Ok",):
        val = val.args[0]
    if f != "withdraw_lp_shares":
        want = positional(r)
        if f == "claim_rewards":
            want.append(isT)
        ok = len(mine) == 1 and mine[0].name.split("::")[-1] == f and len(mine[0].args) == len(want) and all(match(x, w) for x, w in zip(mine[0].args, want))
        ctx.judge(r, q, "passed on", ok, lambda: f"{f} is passed on as {[repr(e) for e in mine]}", relevant=VALUE)
        if not ok:
            return
        c = ("call", f, *want)
        same = match(val, [c, PL(c)]) or val.op == "tuple" and all(match(x, F(PL(c), str(i))) for i, x in enumerate(val.args)) or not val.args and len(q.facts) <= 1 and not val.op.startswith("variant:E")
        ctx.judge(r, q, "answer passed on", same or (None if val.op not in ("tuple", "fld", "call", "payload") else False), lambda: f"{f} returns {show(val)[:200]}", relevant=VALUE)
        return
    dep = PL(ST("Deposit", a("deposit_id")))
    ctx.judge(r, q, "the deposit's pool", g.eq(F(dep, "amm_pool_id"), a("amm_pool_id")),
              "shares are withdrawn as those of a pool that need not be the deposit's pool: the caller pays out the tokens of the pool it named", relevant=VALUE,
              key="liquidity-mining::withdraw_lp_shares: named pool need not be the deposit's")
    able = C("is_yield_farm_claimable", a("global_farm_id"), a("yield_farm_id"), a("amm_pool_id"))
    moves = [e for e in mine if e.name.split("::")[-1] != "is_yield_farm_claimable"]
    claim = C("claim_rewards", a("who"), a("deposit_id"), a("yield_farm_id"), isF)
    if g.y(able):
        unc = F(PL(claim), "3")
        seq = [claim, C("withdraw_lp_shares", a("deposit_id"), a("yield_farm_id"), unc)]
        data = ("variant:Some", ("tuple", F(PL(claim), "1"), F(PL(claim), "2"), unc))
    elif g.n(able):
        unc = 0
        seq = [C("withdraw_lp_shares", a("deposit_id"), a("yield_farm_id"), 0)]
        data = ("variant:None",)
    else:
        ctx.judge(r, q, "claimable known", False, "whether the farm can be claimed from is not asked", relevant=VALUE)
        return
    asnode = [mk("call", e.name, *[x for x in e.args if isinstance(x, Node)]) for e in moves]
    ok = len(asnode) == len(seq) and all(match(x, s) for x, s in zip(asnode, seq))
    ctx.judge(r, q, "claims first, then withdraws", ok, lambda: f"withdrawal does {[repr(e) for e in moves]}", relevant=VALUE)
    if ok:
        w = seq[-1]
        good = val.op == "tuple" and len(val.args) == 3 and match(val.args[0], F(PL(w), "1")) and match(val.args[1], data) and match(val.args[2], F(PL(w), "2"))
        ctx.judge(r, q, "answer passed on", good, lambda: f"withdrawal returns {show(val)[:250]}", relevant=VALUE)


@guarded
def noadjust(ctx):
    p = ctx.pallet(LMP)
    f = "create_global_farm_without_price_adjustment"
    fs = [x for x in p.c.by_name.get(f, []) if x.impl is not None and x.impl["trait"] is not None]
    r = ctx.fn(LMP, f, fn=fs[0], opaque=INNER) if fs else None
    for q in (r.paths if r is not None else []):
        mine = delegates(q)
        want = positional(r) + [lambda n: n is ONE or n.op == "const" and n.args[0] == 10 ** 18]
        ok = len(mine) == 1 and mine[0].name.split("::")[-1] == "create_global_farm" and len(mine[0].args) == len(want) and all(match(x, w) for x, w in zip(mine[0].args, want))
        ctx.judge(r, q, "no adjustment is one", ok, lambda: f"passed on as {[repr(e) for e in mine]}", relevant=VALUE)


@guarded
def claimable(ctx):
    r, ps = fnpaths(ctx, LMP, "is_yield_farm_claimable")
    for q in ps:
        g = A(r, q, LMP, "is_yield_farm_claimable")
        y = ST("YieldFarm", g.a("amm_pool_id"), g.a("global_farm_id"), g.a("yield_farm_id"))
        n = q.node
        if g.none(y):
            ctx.judge(r, q, "missing farm", isF(n) or None, "a missing farm is claimable")
            continue
        for v in ((isT(n),) if isT(n) or isF(n) else (True, False)):
            g2 = g
            if not (isT(n) or isF(n)):
                import copy
                q2 = copy.copy(q)
                neg = n.op == "not"
                q2.facts = tuple(q.facts) + ((n.args[0] if neg else n, v != neg),)
                q2._conds = None
                g2 = G(r, q2)
            st, cnt = F(PL(y), "state"), F(PL(y), "entries_count")
            if v:
                ctx.judge(r, q, "claimable while live and in use", g2.n(("is", st, "Terminated")) and g2.lt(0, cnt), "a farm that is terminated or empty is claimable", relevant=VALUE)
            else:
                ctx.judge(r, q, "claimable while live and in use", g2.y(("is", st, "Terminated")) or g2.eq(cnt, 0) or None, "a farm is not claimable for another reason")


def calls(pid, tier):
    ctx = Ctx(pid, tier)
    pallets(ctx)
    trait(ctx)
    noadjust(ctx)
    claimable(ctx)
    return ctx.done(RULE)
