"""What pools, the router, the oracle and the claims extension answer when they are asked: the state they hold, nothing else."""
from rules.p_evmfee import called
from rules.p_formula import ratio
from rules.p_small import *
from vt.pallet import tyname
from vt.terms import const, subst

RULE = ("Every path of each question is evaluated to the value returned and the conditions under which it is; the value is compared, as an exact expression of stored records, "
        "reserves of the pool's own account, weights and settings, with the answer the state calls for, and an empty or negative answer is accepted only under the condition that calls for it.")
VALUE = ("free_balance",)
HOLDS = ("param", "arg", "st", "fld", "vfld", "payload", "ext", "cfg", "const", "add", "mul", "sub", "div", "satsub", "pair", "tuple", "list", "variant:Some", "variant:Ok", "is", "not", "eq", "lt", "fits", "errof", "sat", "cdiv")


def canon(n):
    """accounts of a pair by the pair, reads by what is read"""
    n = strip(n)
    mp = {}
    for x in find(n, lambda z: z.op == "ext" and str(z.args[0]).endswith("AssetPairAccountId.from_assets") or called("get_pair_id")(z) or called("pair_account_from_assets")(z)):
        a = list(x.args[1:])
        if len(a) == 1 and a[0].op.startswith("struct:"):
            a = list(a[0].args)
        if len(a) >= 2:
            mp[x] = mk("pair", *sorted((strip(a[0]), strip(a[1])), key=lambda z: z.id))
    for x in find(n, lambda z: called("exists")(z) and len(z.args) == 2 and z.args[1].op.startswith("struct:AssetPair")):
        a = x.args[1].args
        mp[x] = mk("exists", mk("pair", *sorted((strip(a[0]), strip(a[1])), key=lambda z: z.id)))
    for x in find(n, lambda z: z.op == "m" and z.args[0] == "into_account_truncating" and called("PalletId")(z.args[1])):
        mp[x] = mk("pair", x.args[1].args[-1])
    return subst(n, mp) if mp else n


def pair(a, b):
    return mk("pair", *sorted((a, b), key=lambda z: z.id))


def plainly(n, seen=None):
    """made of things whose meaning is known"""
    return not find(n, lambda z: z.op in ("opaque", "macro", "phi", "loopout", "fold", "m", "lam") or z.op.startswith(("part:", "mut")))


def equal(got, want):
    got, want = canon(got), canon(want)
    if got is want:
        return True
    if {got.op, want.op} & {"add", "mul", "div", "cdiv", "sub", "satsub"} and got.op != "part:Option":
        a, b = ratio(got), ratio(want)
        if a is not None and b is not None and a.same(b):
            return True
    return False if plainly(got) else None


def known(q, n):
    """does the path's condition settle n"""
    n = canon(n)
    neg = n.op == "not"
    n = n.args[0] if neg else n
    for f, p in q.facts:
        if canon(f) is n or f.op == "eq" and n.op == "eq" and {canon(x) for x in f.args} == {canon(x) for x in n.args}:
            return p != neg
    return None


def truth(ctx, r, q, title, req, what):
    """a yes or no answer: yes exactly if every requirement holds"""
    n = canon(q.node)
    st = [known(q, x) for x in req]
    if isT(n):
        ok = all(s is True for s in st)
    elif isF(n):
        ok = any(s is False for s in st)
    else:
        hit = [i for i, x in enumerate(req) if canon(x) is n or n.op == "eq" and x.op == "eq" and {canon(z) for z in x.args} == set(n.args)]
        ok = bool(hit) and all(s is True for i, s in enumerate(st) if i not in hit)
        if not ok and not plainly(n):
            ok = None
    ctx.judge(r, q, title, ok, what, relevant=VALUE)


def answer(ctx, r, q, title, want, why, msg, ok_variant="variant:Some", fails=()):
    """an optional answer: `want` under the conditions `why` (nodes that must hold), nothing under one that does not"""
    n = canon(q.node)
    st = [known(q, x) for x in why]
    if n.op in ("variant:None", "none", "variant:Err"):
        bad = any(s is False for s in st) or any(known(q, x) is False for x in fails) or any(f.op == "fits" and not p or f.op == "eq" and p and any(num(z) == 0 for z in f.args) for f, p in q.facts)
        ctx.judge(r, q, title + ": refusal", bad, "no answer is given although there is one", relevant=VALUE)
        return
    rest = []
    if n.op in ("part:Option", "part:Result"):
        rest, n = list(n.args[1:]), n.args[0]
    elif n.op == ok_variant:
        n = n.args[0]
    elif n.op not in ("variant:Ok", "variant:Some"):
        ctx.judge(r, q, title, None, "answer not understood", relevant=VALUE)
        return
    else:
        n = n.args[0]
    st = [True if s is None and any(c is canon(x) for c in rest) else s for s, x in zip(st, why)]
    ctx.judge(r, q, title + ": condition", all(s is True for s in st) if all(s is not None for s in st) or not rest else None, "an answer is given although there is none", relevant=VALUE)
    w = want(q) if callable(want) else want
    e = equal(n, w)
    ctx.judge(r, q, title + ": value", e, lambda: f"{msg}: the answer is {show(n)[:200]}, the state calls for {show(canon(w))[:200]}", relevant=VALUE)
    odd = [c for c in rest if not (c.op == "fits" or c.op == "not" and c.args[0].op == "eq" and any(num(z) == 0 for z in c.args[0].args) or any(c is canon(x) for x in tuple(why) + tuple(fails)))]
    ctx.judge(r, q, title + ": withheld", None if odd else True, "the answer depends on a condition that is not understood", relevant=VALUE)


def contradictory(q):
    """the same question of the same pair answered both ways: no such path"""
    seen = {}
    return any(seen.setdefault(canon(f), p) != p for f, p in q.facts)


def impls(ctx, pn, name, where="", **kw):
    fs = [f for f in ctx.pallet(pn).c.by_name.get(name, []) if where in f"{f.mod.file}|{tyname(f.impl['self']) if f.impl else ''}" and not any(w in f.mod.file for w in ("mock", "tests", "benchmark"))]
    if len(fs) != 1:
        ctx.c["missing"] += 1
        ctx.und.append(f"{pn}: {name} not found")
        return None, []
    r, qs = fnpaths(ctx, pn, name, fn=fs[0], **kw)
    return r, [q for q in qs if not contradictory(q)]


def some(n):
    return mk("is", n, "Some")


def mul(*a):
    return mk("mul", *a)


ONE = const(10**18)


@guarded
def xyk(ctx):
    R = lambda x, y, z: mk("ext", "Currency.free_balance", x, pair(y, z))
    r, qs = impls(ctx, "xyk", "pair_exists", "impls")
    for q in qs:
        n = canon(q.node)
        p = pair(r.arg(0), r.arg(1))
        ok = n is mk("exists", p) or (n.op == "stexists" and n.args[0] == "ShareToken" and n.args[1] is p)
        ctx.judge(r, q, "xyk pair exists", ok or (None if not plainly(n) or n.op == "exists" and len(set(n.args[0].args)) < 1 else False), lambda: f"the pair's existence is answered with {show(n)[:140]}", relevant=VALUE)
    r, qs = impls(ctx, "xyk", "exists")
    for q in qs:
        s = q.node
        a = r.arg(0)
        n = strip(s)
        st = n if n.op == "stexists" else n.args[0] if n.op == "is" and n.args[1] == "Some" and n.args[0].op == "st" else None
        k = st.args[1] if st is not None and len(st.args) > 1 else None
        ok = k is not None and st.args[0] == "ShareToken" and {x for x in k.args[1:3]} == {mk("fld", a, "asset_in"), mk("fld", a, "asset_out")}
        ctx.judge(r, q, "xyk pool exists", ok or (None if k is None else False), lambda: f"existence of a pool is answered with {show(n)[:140]}", relevant=VALUE)
    r, qs = impls(ctx, "xyk", "spot_price", "impls")
    for q in qs:
        a, b = r.arg(0), r.arg(1)
        ex = next((f for f, p in q.facts if canon(f).op == "exists" and canon(f).args[0] is pair(a, b)), mk("exists", pair(a, b)))
        answer(ctx, r, q, "xyk spot price", mk("div", mul(R(a, a, b), ONE), R(b, a, b)), [ex], "price of the first asset in the second is not the ratio of reserves")
    if qs:
        ctx.judge(r, qs[0], "xyk pairs have a price", any(q.node.op not in ("variant:None", "none") for q in qs), "no pair has a price", relevant=VALUE)
    r, qs = impls(ctx, "xyk", "get_pool_assets")
    for q in qs:
        s = mk("st", "PoolAssets", r.arg(0))
        answer(ctx, r, q, "xyk pool assets", mk("list", mk("fld", mk("payload", s), "0"), mk("fld", mk("payload", s), "1")), [some(s)], "assets of a pool")
    r, qs = impls(ctx, "xyk", "get_pool_balances")
    for q in qs:
        s = mk("st", "PoolAssets", r.arg(0))
        if known(q, some(s)) is True:
            x = [mk("fld", mk("payload", s), i) for i in "01"]
            answer(ctx, r, q, "xyk pool balances", mk("list", *(mk("tuple", z, mk("ext", "Currency.free_balance", z, r.arg(0))) for z in x)), [some(s)], "balances of a pool")
        elif known(q, some(s)) is False:
            n = q.node
            ctx.judge(r, q, "xyk pool balances: none", n.op == "variant:None" or n.op == "variant:Some" and n.args[0].op in ("empty", "list") and not n.args[0].args or (None if not plainly(n) else False), "balances of a pool that does not exist", relevant=VALUE)
    r, qs = impls(ctx, "xyk", "get_spot_price_unchecked")
    for q in qs:
        unchecked(ctx, r, q, "xyk", lambda a, b: [R(a, a, b), R(b, a, b), r.arg(2)], "calculate_spot_price")
    r, qs = impls(ctx, "xyk", "get_liquidity_behind_shares")
    for q in qs:
        a, b = r.arg(0), r.arg(1)
        behind(ctx, r, q, [R(a, a, b), R(b, a, b), r.arg(2), mk("st", "TotalLiquidity", pair(a, b))])


def unchecked(ctx, r, q, pn, want, fn):
    a, b = r.arg(0), r.arg(1)
    n = canon(q.node)
    if num(n) == 0:
        ok = any(f.op == "is" and not p for f, p in q.facts)
        ctx.judge(r, q, pn + " amount at spot price: zero", ok, "zero is answered although the price is known", relevant=VALUE)
        return
    c = n.args[0] if n.op == "payload" else n
    if not called(fn)(c):
        ctx.judge(r, q, pn + " amount at spot price", None, "answer not understood")
        return
    args, w = list(c.args[1:]), [canon(x) for x in want(a, b)]
    ok = len(args) == len(w) and all(equal(x, y) is True for x, y in zip(args, w))
    ctx.judge(r, q, pn + " amount at spot price", ok or (False if all(plainly(x) for x in args) else None), lambda: "the price is computed from " + ", ".join(show(x)[:60] for x in args), relevant=VALUE)


def behind(ctx, r, q, want):
    n = canon(q.node)
    if n.op in ("variant:Err", "errof"):
        ctx.judge(r, q, "liquidity behind shares: refusal", any(f.op == "is" and not p for f, p in q.facts), "refused although it can be computed", relevant=VALUE)
        return
    cs = find(n, called("calculate_liquidity_out"))
    if not cs:
        ctx.judge(r, q, "liquidity behind shares", None, "answer not understood")
        return
    c = cs[0]
    w = [canon(x) for x in want]
    ok = all(equal(x, y) is True for x, y in zip(c.args[1:], w)) and len(c.args) == 5 and (n.op in ("variant:Ok", "part:Result") and n.args[0] is mk("payload", c) or n is c)
    ctx.judge(r, q, "liquidity behind shares", ok or (False if all(plainly(x) for x in c.args[1:]) else None), lambda: "computed from " + ", ".join(show(x)[:60] for x in c.args[1:]), relevant=VALUE)


@guarded
def lbp(ctx):
    R = lambda x, y, z: mk("ext", "MultiCurrency.free_balance", x, pair(y, z))
    pool = lambda a, b: mk("st", "PoolData", pair(a, b))

    def weights(q, a, p):
        """the two weights of the pool's current state, the first asset's first"""
        out = []
        for c in [x for f, _ in q.facts for x in find(f, called("get_sorted_weight"))]:
            c = canon(c)
            if c.args[1] is a and c.args[2] is mk("ext", "BlockNumberProvider.current_block_number") and c.args[3] is mk("payload", p):
                return [mk("fld", mk("payload", c), i) for i in "01"]
            out.append(c)
        return [] if out else None
    r, qs = impls(ctx, "lbp", "pair_exists", "provider")
    for q in qs:
        truth(ctx, r, q, "lbp pair exists", [some(pool(r.arg(0), r.arg(1)))], "existence of a pair is not that of its pool")
    r, qs = impls(ctx, "lbp", "spot_price", "provider", opaque=("get_sorted_weight",))
    for q in qs:
        a, b = r.arg(0), r.arg(1)
        if known(q, mk("eq", a, b)) is True:
            answer(ctx, r, q, "lbp price of an asset in itself", ONE, [], "not one")
            continue
        p = pool(a, b)
        w = weights(q, a, p)
        if w == []:
            ctx.judge(r, q, "lbp weights", False, "the weights are not those of the pair's pool now, the first asset's first", relevant=VALUE)
            continue
        if w is None and q.node.op not in ("variant:None", "none"):
            ctx.judge(r, q, "lbp weights", None, "weights not understood")
            continue
        v = mk("div", mul(mul(R(a, a, b), w[1]), ONE), mul(R(b, a, b), w[0])) if w else ONE
        answer(ctx, r, q, "lbp spot price", v, [some(p)], "the price is not the weighted ratio of reserves", fails=[mk("is", w[0].args[0].args[0], "Ok")] if w else ())
    given = [q for q in qs if known(q, mk("eq", r.arg(0), r.arg(1))) is not True and q.node.op not in ("variant:None", "none")]
    if qs:
        ctx.judge(r, qs[0], "lbp pairs have a price", bool(given), "no pair has a price", relevant=VALUE)
    r, qs = impls(ctx, "lbp", "get_spot_price_unchecked", opaque=("get_sorted_weight",))
    for q in qs:
        a, b = r.arg(0), r.arg(1)
        w = weights(q, a, pool(a, b))
        if w == []:
            ctx.judge(r, q, "lbp weights", False, "the weights are not those of the pair's pool now, the first asset's first", relevant=VALUE)
            continue
        if w is None and num(q.node) != 0:
            ctx.judge(r, q, "lbp weights", None, "weights not understood")
            continue
        unchecked(ctx, r, q, "lbp", lambda x, y: [R(x, x, y), R(y, x, y), w[0], w[1], r.arg(2)], "calculate_spot_price")
    r, qs = impls(ctx, "lbp", "get_pool_assets")
    for q in qs:
        s = mk("st", "PoolData", r.arg(0))
        f = mk("fld", mk("payload", s), "assets")
        answer(ctx, r, q, "lbp pool assets", mk("list", mk("fld", f, "0"), mk("fld", f, "1")), [some(s)], "assets of a pool")
    r, qs = impls(ctx, "lbp", "get_fee")
    for q in qs:
        s = mk("st", "PoolData", r.arg(0))
        k = known(q, some(s))
        w = mk("fld", mk("payload", s), "fee") if k else mk("tuple", const(0), const(0))
        ctx.judge(r, q, "lbp fee", equal(q.node, w) if k is not None else None, lambda: f"the fee answered is {show(q.node)[:100]}", relevant=VALUE)
    r, qs = impls(ctx, "lbp", "calculate_weight", "LBPWeightFunction")
    for q in qs:
        a = [r.arg(i) for i in range(1, 6)]
        cs = find(q.node, called("calculate_linear_weights"))
        ok = bool(cs) and list(cs[0].args[1:]) == a
        ctx.judge(r, q, "lbp weight curve", ok or (False if cs else None), lambda: "weights are computed from " + ", ".join(show(x)[:40] for x in cs[0].args[1:]), relevant=VALUE)


@guarded
def settings(ctx):
    for pn in ("xyk", "lbp"):
        for fn, c in (("get_min_trading_limit", "MinTradingLimit"), ("get_min_pool_liquidity", "MinPoolLiquidity"), ("get_max_in_ratio", "MaxInRatio"), ("get_max_out_ratio", "MaxOutRatio")) + ((("get_fee", "GetExchangeFee"),) if pn == "xyk" else ()):
            r, qs = impls(ctx, pn, fn)
            for q in qs:
                n = q.node
                ctx.judge(r, q, f"{pn} {fn}", match(n, mk("cfg", c)) or (False if n.op in ("cfg", "const") else None), lambda: f"answered with {show(n)[:80]}, not the configured {c}", relevant=VALUE)


@guarded
def omnipool(ctx):
    A = lambda x: mk("st", "Assets", x)
    PA = lambda x: mk("payload", A(x))
    hub = mk("cfg", "HubAssetId")

    def reserve(q, x):
        hit = [n for n in find(canon(q.node), lambda z: z.op == "ext" and str(z.args[0]) == "Currency.free_balance" and z.args[1] is x)]
        own = [n for n in hit if n.args[2].op == "pair" and len(n.args[2].args) == 1 or called("protocol_account")(n.args[2])]
        return own[0] if own else mk("ext", "Currency.free_balance", x, mk("protocol"))
    r, qs = impls(ctx, "omnipool", "pair_exists", "provider")
    for q in qs:
        truth(ctx, r, q, "omnipool pair exists", [some(A(r.arg(0))), some(A(r.arg(1)))], "existence of a pair is not that of both assets")
    r, qs = impls(ctx, "omnipool", "exists")
    for q in qs:
        truth(ctx, r, q, "omnipool asset exists", [some(A(r.arg(0)))], "existence of an asset is not that of its state")
    r, qs = impls(ctx, "omnipool", "spot_price", "provider")
    for q in qs:
        a, b = r.arg(0), r.arg(1)
        if known(q, mk("eq", a, b)) is True:
            answer(ctx, r, q, "omnipool price of an asset in itself", ONE, [], "not one")
            continue
        ha, hb = known(q, mk("eq", a, hub)), known(q, mk("eq", b, hub))
        H = lambda x: mk("fld", PA(x), "hub_reserve")
        if ha is True:
            w, c = mk("div", mul(H(b), ONE), reserve(q, b)), [some(A(b))]
        elif hb is True:
            w, c = mk("div", mul(reserve(q, a), ONE), H(a)), [some(A(a))]
        elif ha is False and hb is False:
            w, c = mk("div", mul(mk("div", mul(reserve(q, a), ONE), H(a)), mk("div", mul(H(b), ONE), reserve(q, b))), ONE), [some(A(a)), some(A(b))]
        else:
            ctx.judge(r, q, "omnipool spot price", None, "case not understood")
            continue
        answer(ctx, r, q, "omnipool spot price", w, c, "the price is not that of the reserves")
    r, qs = impls(ctx, "omnipool", "is_hub_asset_allowed")
    for q in qs:
        n = strip(q.node)
        ok = n.op in ("m", "contains") and n.args[-1] is r.arg(0) and bool(find(n.args[-2], lambda z: z.op == "st" and z.args[0] == "HubAssetTradability")) and not find(n, lambda z: z.op == "not")
        ctx.judge(r, q, "hub asset allowed", ok or (False if n.op in ("not", "const") or n.op in ("m", "contains") else None), lambda: f"answered with {show(n)[:120]}", relevant=VALUE)
    r, qs = impls(ctx, "omnipool", "price_as_rational")
    for q in qs:
        s = r.arg(0)
        ctx.judge(r, q, "omnipool price as a fraction", equal(q.node, mk("tuple", mk("fld", s, "hub_reserve"), mk("fld", s, "reserve"))), lambda: f"the price is {show(q.node)[:100]}", relevant=VALUE)
    r, qs = impls(ctx, "omnipool", "load_position")
    for q in qs:
        s = mk("st", "Positions", r.arg(0))
        own = mk("eq", mk("ext", "NFTHandler.owner", mk("cfg", "NFTCollectionId"), r.arg(0)), mk("variant:Some", r.arg(1)))
        answer(ctx, r, q, "position loaded for its owner", mk("payload", s), [own, some(s)], "the position", "variant:Ok")
    r, qs = impls(ctx, "omnipool", "add_asset")
    for q in qs:
        if not q.p.ok:
            continue
        x = r.arg(0)
        ctx.judge(r, q, "asset added is new", known(q, some(A(x))) is False, "an asset already in the pool is overwritten", relevant=VALUE)
        ctx.judge(r, q, "asset added is registered", known(q, mk("ext", "AssetRegistry.exists", x)) is True, "an asset that is not registered is added", relevant=VALUE)
        ws = q.writes()
        ctx.judge(r, q, "asset added", len(ws) == 1 and ws[0].name == "Assets" and list(ws[0].args) == [x, r.arg(1)], "the state given is not stored for the asset", relevant=VALUE)
    r, qs = impls(ctx, "omnipool", "set_position")
    for q in qs:
        ws = q.writes()
        ctx.judge(r, q, "position stored", len(ws) == 1 and ws[0].name == "Positions" and [strip(z) for z in ws[0].args] == [r.arg(0), r.arg(1)], "the position given is not stored under its id", relevant=VALUE)
    r, qs = impls(ctx, "omnipool", "remove_asset")
    for q in qs:
        ws = q.writes()
        ctx.judge(r, q, "asset removed", len(ws) == 1 and ws[0].name == "Assets" and ws[0].args[0] is r.arg(0) and ws[0].args[-1].op == "removed", "the asset's state is not removed", relevant=VALUE)


@guarded
def oracle(ctx):
    r, qs = impls(ctx, "ema-oracle", "get_price", opaque=("get_entry",))
    for q in qs:
        cs = [c for f, _ in q.facts for c in find(f, called("get_entry"))]
        if not cs:
            ctx.judge(r, q, "oracle price", None, "no entry is asked for")
            continue
        c = cs[0]
        ctx.judge(r, q, "oracle entry asked", [strip(x) for x in c.args[1:]] == [r.arg(i) for i in range(4)], lambda: "entry of " + ", ".join(show(x) for x in c.args[1:]), relevant=VALUE)
        e = mk("payload", c)
        answer(ctx, r, q, "oracle price", mk("tuple", mk("fld", e, "price"), mk("fld", e, "oracle_age")), [mk("is", c, "Ok")], "price and age of the entry", "variant:Ok")
    r, qs = impls(ctx, "ema-oracle", "contains")
    for q in qs:
        n, t = strip(q.node), r.arg(0)
        f = [mk("fld", t, str(i)) for i in range(3)]
        ok = n.op in ("contains", "m") and bool(find(n, lambda z: z.op == "st" and z.args[0] == "WhitelistedAssets")) and n.args[-1] is mk("tuple", f[0], mk("tuple", f[1], f[2]))
        ctx.judge(r, q, "whitelist", ok or (False if n.op in ("contains", "not", "const") else None), lambda: f"answered with {show(n)[:120]}", relevant=VALUE)


def hops(n, route):
    """the elements a fold runs over are the route's hops, all of them in some order"""
    n = strip(n)
    if n is route:
        return True
    return n.op == "m" and n.args[0] == "chunks" and n.args[1] is route and (num(n.args[2]) or 0) > 0


@guarded
def router(ctx):
    r, qs = impls(ctx, "route-executor", "spot_price_with_fee", "lib.rs|Pallet")
    for q in qs:
        route = r.arg(0)
        n = strip(q.node)
        empty = next((p for f, p in q.facts if f.op == "eq" and any(num(z) == 0 for z in f.args) and any(z.op == "len" and strip(z.args[0]) is route for z in f.args)), None)
        if n.op == "variant:None":
            ctx.judge(r, q, "route price refused", empty is True or any(not p for f, p in q.facts if f.op in ("is", "fits", "foldok", "all")), "no price although every hop has one", relevant=VALUE)
            continue
        ctx.judge(r, q, "empty route has no price", empty is False, "an empty route has a price", relevant=VALUE)
        c = [x for x in find(n, called("round_u512_to_rational"))]
        v = n.args[0] if n.op in ("part:Option", "variant:Some") else None
        if not c or v is None or len(set(c)) != 1 or c[0].args[1].op != "tuple":
            ctx.judge(r, q, "route price", None, "answer not understood")
            continue
        num_, den = c[0].args[1].args
        a, b = ratio(v), ratio(mk("div", mul(ONE, mk("fld", c[0], "0")), mk("fld", c[0], "1")))
        ctx.judge(r, q, "route price is the fraction", a.same(b) if a is not None else None, "the price is not the rounded fraction", relevant=VALUE)
        for k, x in (("product of the hops' prices", num_), ("scaled once per hop", den)):
            fs = find(x, lambda z: z.op == "fold")
            if x.op != "fold" or not fs:
                ctx.judge(r, q, k, None, "not a product over the hops")
                continue
            ok, leaf, els = True, x, []
            while ok and leaf.op == "fold":
                els.append(leaf)
                ok = num(leaf.args[1]) == 1
                body = leaf.args[2]
                fac = list(body.args) if body.op == "mul" else []
                acc = [z for z in fac if z.op == "bv" and str(z.args[0]).startswith("acc")]
                rest = [z for z in fac if z not in acc]
                if body.op == "bv" or body.op == "const":
                    leaf = const(1)
                    break
                if len(fac) != 2 or len(rest) != 1:
                    ok = None
                    break
                leaf = rest[0]
            if not ok:
                ctx.judge(r, q, k, ok, "the product does not start at one", relevant=VALUE)
                continue
            ctx.judge(r, q, k + ": every hop", True if hops(els[0].args[0], route) else None, "hops not understood")
            if k.startswith("product"):
                e = leaf.args[0] if leaf.op == "payload" else None
                e = strip(e) if e is not None else None
                if e is None or e.op != "ext" or "calculate_spot_price_with_fee" not in str(e.args[0]):
                    ctx.judge(r, q, k, None if not plainly(leaf) or leaf.op != "const" else False, lambda: f"each hop contributes {show(leaf)[:100]}", relevant=VALUE)
                    continue
                el = [z.args[0] if z.op == "fld" else None for z in e.args[1:4]]
                ok = len({x for x in el}) == 1 and el[0] is not None and [z.args[1] for z in e.args[1:4]] == ["pool", "asset_in", "asset_out"]
                ctx.judge(r, q, k, ok, lambda: f"a hop's price is asked as {show(e)[:140]}", relevant=VALUE)
            else:
                ctx.judge(r, q, k, num(leaf) == 10**18 or (False if leaf.op == "const" else None), lambda: f"each hop is scaled by {show(leaf)[:60]}", relevant=VALUE)


@guarded
def claims(ctx):
    r, qs = impls(ctx, "claims", "validate", "ValidateClaim", opaque=("validate_claim",))
    for q in qs:
        sub = [f for f, p in q.facts if p and f.op == "is" and f.args[1] == "claim"]
        n = q.node
        if not sub:
            ctx.judge(r, q, "other calls pass", n.op == "variant:Ok" or (None if n.op not in ("variant:Err",) else False), "a call that is no claim is refused", relevant=VALUE)
            continue
        vs = [(f, p) for f, p in q.facts if f.op == "is" and f.args[1] == "Ok" and called("validate_claim")(f.args[0])]
        if not vs:
            ctx.judge(r, q, "claims are checked", False if n.op == "variant:Ok" and not find(n, called("validate_claim")) else None, "a claim enters the pool without being checked", relevant=VALUE)
            continue
        f, p = vs[0]
        c = f.args[0]
        ctx.judge(r, q, "claims are checked", strip(c.args[1]) is r.arg(1) and bool(find(c.args[2], lambda z: z is sub[0].args[0])), lambda: f"the check is made with {show(c)[:140]}", relevant=VALUE)
        ctx.judge(r, q, "claim's validity", (n.op == "variant:Ok") == p or (None if not n.op.startswith("variant:") and not called("Custom")(n) else False), "a claim is valid exactly if its check passes", relevant=VALUE)
    r, qs = impls(ctx, "claims", "pre_dispatch", "ValidateClaim", opaque=("validate", "validate_claim"))
    for q in qs:
        cs = [c for f, _ in q.facts for c in find(f, lambda z: called("validate")(z))] or find(q.node, called("validate"))
        ok = bool(cs) and [strip(x) for x in cs[0].args[1:]] == [r.arg(i) for i in range(len(cs[0].args) - 1)]
        ctx.judge(r, q, "claims are checked before dispatch", ok or (False if q.node.op == "variant:Ok" and not cs and not find(q.node, called("validate_claim")) and not any(find(f, called("validate_claim")) for f, _ in q.facts) else None), "a claim is dispatched without being checked", relevant=VALUE)


def answers(pid, tier):
    ctx = Ctx(pid, tier)
    for f in (xyk, lbp, settings, omnipool, oracle, router, claims):
        f(ctx)
    return ctx.done(RULE)


# ---- the asset registry

RULE2 = ("Every path of each lookup is evaluated to what it returns; the record and field it is taken from, the key it is looked up by and the condition under which "
         "there is no answer are compared with what the question asks for.")


def core(n):
    """what an optional or converted field is taken from"""
    while True:
        n = strip(n)
        if n.op in ("part:Option", "variant:Some", "payload", "variant:Ok"):
            n = n.args[0]
        elif n.op == "m" and n.args[0] in ("map", "into", "clone", "to_vec", "into_inner", "copied", "cloned"):
            n = n.args[1]
        else:
            return n


def field_of(ctx, r, q, key, field, title, absent=("variant:None",), otherwise=None):
    rec = mk("st", "Assets", key)
    n = q.node
    there = known(q, some(rec))
    want = mk("fld", mk("payload", rec), field)
    if n.op in absent:
        inner = [p for f, p in q.facts if f.op == "is" and strip(f.args[0]) is want]
        ctx.judge(r, q, title + ": nothing", there is False or inner == [False] or (None if there is None and q.facts else False), "no answer although the asset is registered", relevant=VALUE)
        return
    if otherwise is not None and there is False:
        ctx.judge(r, q, title + ": unknown asset", otherwise(n), lambda: f"an asset that is not registered answers {show(n)[:80]}", relevant=VALUE)
        return
    c = core(n)
    ok = True if c is want else False if c.op in ("fld", "sat", "add", "sub", "mul", "satsub") and plainly(c) or c.op in ("const", "arg") else None
    ctx.judge(r, q, title, ok, lambda: f"answers {show(n)[:160]}", relevant=VALUE)


@guarded
def registry(ctx):
    pn = "asset-registry"
    for fn, table in (("asset_to_location", "AssetLocations"), ("location_to_asset", "LocationAssets")):
        r, qs = impls(ctx, pn, fn)
        for q in qs:
            n = core(q.node) if not match(q.node, mk("st", table, r.arg(0))) else q.node
            want = mk("st", table, r.arg(0))
            ok = True if n is want or q.node is want else False if n.op == "st" or q.node.op == "variant:None" and known(q, some(want)) is not False else None
            ctx.judge(r, q, f"{fn} is the one stored for it", ok, lambda: f"answers {show(q.node)[:120]}", relevant=VALUE)
    for fn, field in (("decimals", "decimals"), ("asset_type", "asset_type"), ("asset_name", "name"), ("asset_symbol", "symbol"), ("existential_deposit", "existential_deposit")):
        r, qs = impls(ctx, pn, fn)
        for q in qs:
            field_of(ctx, r, q, r.arg(0), field, f"{fn} is the registered one")
    r, qs = impls(ctx, pn, "is_sufficient")
    for q in qs:
        field_of(ctx, r, q, r.arg(0), "is_sufficient", "an asset is sufficient if registered so", absent=(), otherwise=lambda n: isF(n) or (False if isT(n) else None))
    for fn, table in (("exists", "Assets"), ("is_banned", "BannedAssets")):
        r, qs = impls(ctx, pn, fn)
        for q in qs:
            want = some(mk("st", table, r.arg(0)))
            n = canon(q.node)
            k = known(q, want)
            ok = True if n is want or k is not None and (isT(n) and k or isF(n) and not k) else False if isT(n) or isF(n) or n.op in ("is", "not") and plainly(n) else None
            ctx.judge(r, q, f"{fn} is whether it is stored", ok, lambda: f"answers {show(q.node)[:120]}", relevant=VALUE)
    r, qs = impls(ctx, pn, "get", "|Pallet")
    for q in qs:
        field_of(ctx, r, q, r.arg(0), "existential_deposit", "the least balance of an asset is the registered one", absent=(),
                 otherwise=lambda n: num(n) == 2 ** 128 - 1 if num(n) is not None else None)
    r, qs = impls(ctx, pn, "get", "XcmRateLimitsInRegistry")
    for q in qs:
        field_of(ctx, r, q, r.arg(0), "xcm_rate_limit", "an asset's limit across chains is the registered one")
    r, qs = impls(ctx, pn, "contains", "OracleWhitelist")
    for q in qs:
        ks = []
        for i in ("1", "2"):
            xs = [(f, p) for f, p in q.facts if f.op == "fld" and f.args[1] == "is_sufficient" and strip(f.args[0]).op == "payload"]
            a = mk("st", "Assets", mk("fld", r.arg(0), i))
            there = known(q, some(a))
            v = [p for f, p in xs if strip(f.args[0].args[0]) is a]
            ks.append(False if there is False or v == [False] else True if v == [True] else None)
        n = q.node
        t = True if isT(n) else False if isF(n) else None
        if t is None and any(z.op == "fld" and z.args[1] == "is_sufficient" for z in find(n, lambda z: z.op == "fld")):
            ok = None
        else:
            ok = None if t is None else (ks == [True, True] if t else False in ks)
        ctx.judge(r, q, "the oracle follows pairs of sufficient assets", ok, lambda: f"answers {show(n)[:60]} although the assets' sufficiency is {ks}", relevant=VALUE)
    r, qs = impls(ctx, pn, "next_asset_id")
    for q in qs:
        n = q.node
        if n.op == "part:Option":
            n = n.args[0]
        if n.op == "variant:None":
            ok = any(f.op == "fits" and not p for f, p in q.facts) or None
        else:
            ok = equal(core(n), mk("add", mk("st", "NextAssetId"), mk("cfg", "SequentialIdStartAt")))
        ctx.judge(r, q, "the next identifier is the counter past the first one", ok, lambda: f"answers {show(q.node)[:120]}", relevant=VALUE)


def lookups(pid, tier):
    ctx = Ctx(pid, tier)
    registry(ctx)
    return ctx.done(RULE2)
