"""OTC orders and bonds: backing, prices, fill and redemption conditions."""
from rules.p_guards import *

RULE10 = ("Every success path of the OTC dispatchables is evaluated over the parsed source: conditions that must have been checked, reserves placed and released, currency movements and the stored order must be those of the "
          "order's own price and remaining amounts.")
RULE11 = ("Every success path of the bond dispatchables is evaluated over the parsed source: minted and burned bond amounts, escrowed and released underlying amounts, fee and stored bond terms must agree.")
ED = lambda asset: X("ExistentialDeposits.get", asset)
RES = ("reserve_named", "unreserve_named", "reserve", "unreserve", "repatriate_reserved_named", "slash_reserved_named")


def minimum(asset):
    return lambda n: n.op == "mul" and len(n.args) == 2 and any(match(x, ED(asset)) for x in n.args) and any(match(x, CFG("ExistentialDepositMultiplier")) for x in n.args)


def atleast(g, amount, pat):
    """an amount (linear form) was required to be at least a value of the pattern"""
    for n, p in g.q.facts:
        for x in find(n, pat):
            if g.q.lle({x: 1}, amount):
                return True
    return False


def reserves(q):
    out = []
    for e in q.eff:
        if e.kind == "ext" and e.name.split(".")[-1] in RES:
            out.append(e)
    return out


def onlyreserve(ctx, r, q, g, kind, asset, who, amount, full=True):
    rs = reserves(q)
    ctx.judge(r, q, "reserves", len(rs) == 1 and rs[0].name.endswith("." + kind), lambda: f"expected one {kind}, found {[e.name for e in rs]}", relevant=())
    for e in rs[:1]:
        a = e.args[-3:]
        ctx.judge(r, q, "reserved asset", match(a[0], asset), lambda: f"{e.name} of asset {show(a[0])[:80]}", eff=e)
        ctx.judge(r, q, "reserve account", a[1] is who or match(a[1], who), lambda: f"{e.name} on account {show(a[1])[:80]}", eff=e)
        ctx.judge(r, q, "reserved amount", match(a[2], amount), lambda: f"{e.name} of {show(a[2])[:160]}", eff=e)
        if kind.startswith("unreserve") and full:
            ok = g.y(("eq", 0, lambda n: strip(n) is strip(mk("ext", e.name, *e.args)))) or g.y(("eq", lambda n: strip(n) is strip(mk("ext", e.name, *e.args)), 0))
            ctx.judge(r, q, "fully released", ok, "the release of the reserve may have been partial", eff=e)


O = lambda g, f: mk("fld", mk("payload", mk("st", "Orders", g.a(0))), f)


@guarded
def place(ctx):
    r = ctx.fn("otc", "place_order")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        ai, ao, ni, no, pf = [g.a(k) for k in range(5)]
        for a, n, w in ((ai, ni, "wanted"), (ao, no, "offered")):
            ctx.judge(r, q, f"minimum {w}", atleast(g, lin(n), minimum(a)), f"an order with a too small {w} amount is accepted", relevant=(n,))
        ctx.judge(r, q, "registered", g.y(X("AssetRegistry.exists", ai)), "an order for an unregistered asset is accepted", relevant=(ai,))
        onlyreserve(ctx, r, q, g, "reserve_named", ao, g.who, no)
        settle2(ctx, r, q, g, [])
        wrote(ctx, r, q, g, "Orders", [ST("NextOrderId")], REC(owner=g.who, asset_in=ai, asset_out=ao, amount_in=ni, amount_out=no, partially_fillable=pf), "stored order", "the stored order is not the placed one")
        wrote(ctx, r, q, g, "NextOrderId", [], lambda n: lin(n) == {mk("st", "NextOrderId"): 1, None: 1}, "next id", "the order id is not advanced")


@guarded
def fill(ctx):
    r = ctx.fn("otc", "fill_order")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        ow = O(g, "owner")
        ctx.judge(r, q, "order exists", g.some(ST("Orders", g.a(0))), "an order that does not exist is filled", relevant=(g.a(0),))
        onlyreserve(ctx, r, q, g, "unreserve_named", O(g, "asset_out"), ow, O(g, "amount_out"))
        settle2(ctx, r, q, g, [("payment to the owner", O(g, "asset_in"), g.who, ow, O(g, "amount_in")), ("delivery to the filler", O(g, "asset_out"), ow, g.who, O(g, "amount_out"))])
        wrote(ctx, r, q, g, "Orders", [g.a(0)], None, "order removed", "a filled order is not removed")


def settle2(ctx, r, q, g, specs):
    settle(ctx, r, NoRes(q), g, specs)


class NoRes:
    """a path without its reserve operations"""

    def __init__(self, q):
        self.__dict__.update(q.__dict__)
        self._q = q

    def __getattr__(self, k):
        return getattr(self._q, k)

    def flows(self, *a):
        return [f for f in self._q.flows(*a) if f.how not in RES]


@guarded
def partial(ctx):
    r = ctx.fn("otc", "partial_fill_order")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        ow, x = O(g, "owner"), g.a(1)
        IN, OUT = O(g, "amount_in"), O(g, "amount_out")
        out = lambda n: n.op == "div" and n.args[1] is IN and n.args[0].op == "mul" and set(n.args[0].args) == {x, OUT}
        ctx.judge(r, q, "order exists", g.some(ST("Orders", g.a(0))), "an order that does not exist is filled", relevant=(g.a(0),))
        ctx.judge(r, q, "partially fillable", g.y(F(PL(ST("Orders", g.a(0))), "partially_fillable")), "an order that is not partially fillable is partially filled", relevant=(g.a(0),))
        onlyreserve(ctx, r, q, g, "unreserve_named", O(g, "asset_out"), ow, out)
        settle2(ctx, r, q, g, [("payment to the owner", O(g, "asset_in"), g.who, ow, x), ("delivery to the filler", O(g, "asset_out"), ow, g.who, out)])
        w = wrote(ctx, r, q, g, "Orders", [g.a(0)], REC(owner=ow, asset_in=O(g, "asset_in"), asset_out=O(g, "asset_out"), partially_fillable=O(g, "partially_fillable"),
                  amount_in=LIN((1, IN), (-1, x)), amount_out=LIN((1, OUT), (-1, out))), "remaining order", "the remaining order is not the order less what was filled")
        if w is not None and fields(w.args[-1]):
            f = fields(w.args[-1])
            for k, a, what in (("amount_in", "asset_in", "wanted"), ("amount_out", "asset_out", "offered")):
                ctx.judge(r, q, f"remaining {what} minimum", atleast(g, lin(f[k]), minimum(O(g, a))), f"an order can be left with a too small {what} amount", relevant=(x,))


@guarded
def cancel(ctx):
    r = ctx.fn("otc", "cancel_order")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        ow = O(g, "owner")
        ctx.judge(r, q, "owner only", g.eq(ow, g.who), "an order can be cancelled by someone who does not own it", relevant=(g.a(0),))
        onlyreserve(ctx, r, q, g, "unreserve_named", O(g, "asset_out"), lambda n: n is ow or n is g.who, O(g, "amount_out"))
        settle2(ctx, r, q, g, [])
        wrote(ctx, r, q, g, "Orders", [g.a(0)], None, "order removed", "a cancelled order is not removed")


def otc(pid, tier):
    ctx = Ctx(pid, tier)
    for f in (place, fill, partial, cancel):
        f(ctx)
    return ctx.done(RULE10)


# -------------------------------------------------------------------------------------------------------------- bonds
def net(amount, fee):
    return lambda n: n.op == "satsub" and n.args[0] is amount and fee(n.args[1]) or matchlin(lin(n), [(1, amount), (-1, fee)])


@guarded
def issue(ctx):
    r = ctx.fn("bonds", "issue")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        a, n, mat = g.a(0), g.a(1), g.a(2)
        iss = next((mk("signer", f.args[0], f.args[1]) for f, p in q.facts if f.op == "origin" and p), None)
        fee = lambda x: x.op == "cdiv" and x.args[0].op == "mul" and any(match(y, CFG("ProtocolFee")) for y in x.args[0].args) and n in x.args[0].args and x.args[1].op == "const" and x.args[1].args[0] == 10**6
        ctx.judge(r, q, "allowed asset", g.y(X("AssetTypeWhitelist.contains", PL(X("AssetRegistry.asset_type", a)))), "bonds of an asset whose type is not allowed can be issued", relevant=(a,))
        new = g.none(ST("BondIds", lambda k: k.op == "tuple" and k.args[0] is a and k.args[1] is mat))
        key = lambda k: k.op == "tuple" and k.args[0] is a and k.args[1] is mat
        bond = PL(X("AssetRegistry.register_insufficient_asset", ...)) if new else PL(ST("BondIds", key))
        settle(ctx, r, q, g, [("escrow of the underlying", a, iss, POOLACC, net(n, fee)), ("fee", a, iss, CFG("FeeReceiver"), fee), ("minted bonds", bond, None, iss, net(n, fee))])
        if new:
            ctx.judge(r, q, "maturity", g.le(X("TimestampProvider.now"), mat), "bonds can be created with a maturity in the past", relevant=(mat,))
            wrote(ctx, r, q, g, "Bonds", [bond], key, "bond terms", "the stored terms of the new bond are not its asset and maturity")
            wrote(ctx, r, q, g, "BondIds", [key], bond, "bond id", "the new bond is not found under its asset and maturity")
        else:
            ctx.judge(r, q, "terms kept", not q.writes("Bonds", "BondIds"), "the terms of an existing bond change")


@guarded
def redeem(ctx):
    r = ctx.fn("bonds", "redeem")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        b, n = g.a(0), g.a(1)
        B_ = PL(ST("Bonds", b))
        ctx.judge(r, q, "mature", g.le(F(B_, 1), X("TimestampProvider.now")), "bonds can be redeemed before maturity", relevant=(b,))
        settle(ctx, r, q, g, [("burned bonds", b, g.who, None, n), ("released underlying", F(B_, 0), POOLACC, g.who, n)])
        ctx.judge(r, q, "terms kept", not q.writes("Bonds", "BondIds"), "redeeming changes the terms of a bond")


def bonds(pid, tier):
    ctx = Ctx(pid, tier)
    issue(ctx)
    redeem(ctx)
    return ctx.done(RULE11)
