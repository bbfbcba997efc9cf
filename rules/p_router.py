"""Trade router: routes are followed hop by hop with the amounts computed beforehand, and on-chain routes are replaced only by better ones."""
from rules.p_oracle import *
from vt.terms import subst, bvi, ZERO, const, sub, idx

RULE = ("Every path of the router's trade, route-setting and route-query functions is evaluated over the parsed source (routes of any length: loops are summarised per hop); "
        "hops, amounts, limits and stored routes must be those stated.")
PN = "route-executor"
I = bvi(0)


def pair(n):
    return getf(n, "asset_in"), getf(n, "asset_out")


def shape(n):
    """(base, inverted): the route a sequence node denotes, read as a fixed route or its inverse; None if neither"""
    if n.op == "seq" and len(n.args) == 2:
        D, e = n.args
        rev = D.op == "rev"
        X = D.args[0] if rev else D
        x = mk("idx", D, I)
        f = fields(e)
        if set(f) != {"asset_in", "asset_out", "pool"} or f["pool"] is not mk("fld", x, "pool"):
            return None
        keep = f["asset_in"] is mk("fld", x, "asset_in") and f["asset_out"] is mk("fld", x, "asset_out")
        flip = f["asset_in"] is mk("fld", x, "asset_out") and f["asset_out"] is mk("fld", x, "asset_in")
        if rev and flip:
            return X, True
        if keep and not rev:
            return X, False
        return None
    if n.op in ("m", "payload", "call") and any(str(a) in ("try_into",) or str(a).endswith("BoundedVec::try_from") for a in n.args[:1]):
        return shape(n.args[-1])
    if n.op == "payload" and n.args[0].op in ("m", "call") and n.args[0].args[0] == "try_into":
        return shape(n.args[0].args[1])
    return n, False


class Hop:
    """the hops of a route: base X, inverted?"""

    def __init__(self, X, inv):
        self.X, self.inv = X, inv
        self.D = mk("rev", X) if inv else X

    def at(self, i):
        x = idx(self.D, i)
        a, b = mk("fld", x, "asset_in"), mk("fld", x, "asset_out")
        return (mk("fld", x, "pool"),) + ((b, a) if self.inv else (a, b))

    def end(self):
        return sub(mk("len", self.X), const(1))


class One:
    """a route of a single trade"""
    D = None

    def __init__(self, pool, a, b):
        self.t = (pool, a, b)

    def at(self, i):
        return self.t

    def end(self):
        return ZERO


def inner(q, hop):
    """the facts that hold for every hop"""
    if hop.D is None:
        return list(q.facts)
    out = []
    for n, p in q.facts:
        if n.op == "all" and p and n.args[0] is hop.D:
            for c in n.args[1:]:
                pol = True
                while c.op == "not":
                    c, pol = c.args[0], not pol
                out.append((c, pol))
    return out


def taken(r, q, g, given, a, b):
    """the route the path follows: the given one, the stored one of the ordered pair (inverted for the reversed pair), or the default trade"""
    ln = mk("len", given)
    if any(n.op == "eq" and p and set(n.args) == {ZERO, ln} for n, p in q.facts):
        flip = any(n.op == "lt" and n.args == (b, a) and p for n, p in q.facts)
        x, y = (b, a) if flip else (a, b)
        S = ST("Routes", lambda n: pair(n) == (x, y))
        if g.some(S):
            st = next(z for n, p in q.facts for z in find(n, lambda z: match(z, S)))
            return Hop(mk("payload", st), flip)
        if g.none(S):
            return One(mk("cfg", "DefaultRoutePoolType"), a, b)
        return None
    if any(n.op == "eq" and not p and set(n.args) == {ZERO, ln} for n, p in q.facts):
        return Hop(given, False)
    return None


def bal(who, asset):
    return lambda n: n.op == "ext" and str(n.args[0]).endswith("Currency.reducible_balance") and n.args[1] is asset and n.args[2] is who


def epoch(n):
    e = epochs(n)
    return e[-1] if e else None


def spent(who, asset, amount, facts, more):
    """a fact that (before - after) >= amount (more=True), or (after - before) <= amount"""
    B = bal(who, asset)
    for n, p in facts:
        if n.op != "lt" or p:
            continue
        l, h = n.args
        d, am = (l, h) if more else (h, l)
        if d.op == "sub" and B(d.args[0]) and B(d.args[1]) and am is amount:
            u, v = epoch(d.args[0]), epoch(d.args[1])
            if u is not None and v is not None and (u < v if more else u > v):
                return True
    return False


def arguments(ctx, r, q, g, hop, a, b):
    if hop.D is None:
        return
    first, last = hop.at(ZERO), hop.at(hop.end())
    eqs = [set(n.args) for n, p in q.facts if n.op == "eq" and p]
    ctx.judge(r, q, "route start", {a, first[1]} in eqs or a is first[1], "a route whose first trade does not take the sold asset is followed", relevant=(hop.X,))
    ctx.judge(r, q, "route end", {b, last[2]} in eqs or b is last[2], "a route whose last trade does not give the bought asset is followed", relevant=(hop.X,))
    R = mk("range", ZERO, hop.end(), "False")
    nxt = mk("add", I, const(1)), mk("add", const(1), I)
    ok = any(n.op == "all" and p and n.args[0].op == "range" and n.args[0].args[0] is ZERO and n.args[0].args[1] is hop.end()
             and any(c.op == "eq" and any(set(c.args) == {hop.at(I)[2], hop.at(k)[1]} for k in nxt) for c in n.args[1:]) for n, p in q.facts)
    ctx.judge(r, q, "route connected", ok, "a route is followed although a trade does not take what the one before it gives", relevant=(hop.X,))


def chain(ctx, r, q, label, amount, start, step, D=None):
    """amount is carried from hop to hop: it starts as `start` and continues as `step` (written over D, which the loop may run in reverse)"""
    if amount.op != "phi":
        return None
    info = loopinfo(r, str(amount.args[0]))
    if D is not None and info is not None and info.get("seq") is not None and info["seq"].dom is not D:
        step = subst(step, {mk("idx", D, I): mk("idx", info["seq"].dom, I)})
    s = loopsteps(r, amount)
    if s is None:
        return None
    _, ends, init = s
    ctx.judge(r, q, label, init is start, "the first computed hop does not start from the stated amount", relevant=VALUE)
    for st, v in ends:
        v = S_(v)
        ctx.judge(r, q, label, v is S_(step) or subst_idx(v) is subst_idx(S_(step)), "a hop's amount is not the one computed for the hop before it", relevant=VALUE)
    return True


def subst_idx(n):
    """loop indices named alike"""
    for b in find(n, lambda z: z.op == "bv"):
        n = subst(n, {b: mk("bv", "#")})
    return n


@guarded
def trade(ctx, fn):
    r = ctx.fn(PN, fn)
    if r is None:
        return
    a, b, amt, lim, given = [r.argn(n, k) for k, n in enumerate(("asset_in", "asset_out", "amount_in" if fn == "sell" else "amount_out", "min_amount_out" if fn == "sell" else "max_amount_in", "route"))]
    for q in r.paths:
        g = G(r, q)
        ctx.judge(r, q, "different assets", g.ne(a, b), "an asset can be traded for itself", relevant=(a, b))
        ctx.judge(r, q, "route length", g.le(mk("len", given), 5), "a route of more than five trades is accepted", relevant=(given,))
        hop = taken(r, q, g, given, a, b)
        if hop is None:
            ctx.undecided(r, "route", "which route is followed was not recognised")
            continue
        arguments(ctx, r, q, g, hop, a, b)
        fs = inner(q, hop)
        ex = [n.args[0] for n, p in fs if n.op == "is" and n.args[1] == "Ok" and p and n.args[0].op == "ext" and str(n.args[0].args[0]).endswith((".execute_sell", ".execute_buy"))]
        done = q.ext("execute_sell", "execute_buy")
        if not done:
            ctx.judge(r, q, "hops executed", False, "the trades of the route are not executed", relevant=(given,))
            continue
        if not ex:
            allf = [n for n, p in q.facts if n.op == "all" and p and has(n, lambda z: z.op == "ext" and "execute_" in str(z.args[0]))]
            if allf and hop.D is not None and all(n.args[0] in (hop.X, mk("rev", hop.X)) for n in allf):
                ctx.judge(r, q, "order of hops", False, "the trades of the route are executed in the reverse order", relevant=VALUE)
            elif allf:
                ctx.judge(r, q, "hops executed", None, "hops run over a sequence not recognised as the route")
            else:
                ctx.judge(r, q, "failed hop", False, "a trade succeeds although a hop failed", relevant=(given,))
            continue
        ctx.judge(r, q, "hops executed", len(ex) == 1, "a hop is executed more than once", relevant=VALUE)
        x = ex[0]
        args = [z for z in x.args[1:] if z.op != "at"]
        t = hop.at(I)
        ctx.judge(r, q, "hop kind", str(x.args[0]).endswith(".execute_" + fn), f"a {fn} executes the other kind of trade", relevant=VALUE)
        o = r.fn.params[0][0]
        ctx.judge(r, q, "hop origin", args[0] is mk("var", o[1]), "a hop is not executed as the caller", relevant=VALUE)
        ctx.judge(r, q, "hop pool and assets", all(S_(u) is S_(v) for u, v in zip(args[1:4], t)), "a hop is not executed in its own pool with its own assets", relevant=VALUE)
        x1, x2 = args[4], args[5]          # the amount given and the limit computed from it
        calc = lambda i, am: mk("payload", mk("ext", f"AMM.calculate_{fn}", *hop.at(i), am))
        ctx.judge(r, q, "hop limit", S_(x2) is S_(calc(I, x1)), "a hop's limit is not the amount computed for it", relevant=VALUE)
        if hop.D is None:
            ctx.judge(r, q, "hop amount", S_(x1) is S_(amt), "the single trade is not for the stated amount", relevant=VALUE)
        elif chain(ctx, r, q, "hop amount", x1, amt, calc(I, x1), hop.D) is None:
            if S_(x1) is S_(amt):
                ctx.judge(r, q, "hop amount", False, "every hop is for the first hop's amount", relevant=VALUE)
            else:
                ctx.undecided(r, "hop amount", "amount carried between hops not followed")
            continue
        if hop.D is not None:
            # the order the amounts are computed in: from the first trade for a sale, from the last for a purchase
            info = loopinfo(r, str(x1.args[0]))
            dom = info["seq"].dom if info is not None and info.get("seq") is not None else None
            want = hop.D if fn == "sell" else (hop.X if hop.inv else mk("rev", hop.X))
            ctx.judge(r, q, "order of hops", None if dom is None else dom is want, "the amounts of the hops are computed in the wrong order", relevant=VALUE)
        endi = hop.end() if fn == "sell" else ZERO
        total_ = calc(endi, x1)
        ok = any(n.op == "lt" and not p and (S_(n.args[0]) is S_(total_) and n.args[1] is lim if fn == "sell" else n.args[0] is lim and S_(n.args[1]) is S_(total_)) for n, p in q.facts)
        ctx.judge(r, q, "trade limit", ok, f"the trade succeeds although the {'proceeds are below the minimum' if fn == 'sell' else 'price is above the maximum'}", relevant=(lim,))
        who = q.who
        if fn == "sell":
            ctx.judge(r, q, "hop spent", spent(who, t[1], x1, fs, True), "a hop that spends less than its computed amount is accepted", relevant=(x1,))
        else:
            ctx.judge(r, q, "trade spent", spent(who, a, S_(total_), [(S_keep(n), p) for n, p in q.facts], True), "a purchase that spends less than its computed price is accepted", relevant=(lim,))
        for e in q.events("Executed"):
            f = fields(e.args[0])
            if set(f) == {"asset_in", "asset_out", "amount_in", "amount_out"}:
                w = dict(asset_in=a, asset_out=b, amount_in=amt if fn == "sell" else total_, amount_out=total_ if fn == "sell" else amt)
                ctx.judge(r, q, "event", all(S_(f[k]) is S_(w[k]) for k in w), "the event does not tell the traded amounts", relevant=VALUE, eff=e)
        setsonly(ctx, r, q)


def S_keep(n):
    return n


@guarded
def chains(ctx):
    """the published amounts of a route"""
    for fn, am in (("calculate_sell_trade_amounts", "amount_in"), ("calculate_buy_trade_amounts", "amount_out")):
        r, qs = fnpaths(ctx, PN, fn)
        k = "sell" if "sell" in fn else "buy"
        for q in qs:
            if not q.p.ok:
                continue
            n = q.node.args[0] if q.node.op == "variant:Ok" else None
            if n is None or n.op != "seq" or len(n.args) != 2:
                ctx.undecided(r, fn, "amounts not followed")
                continue
            D = n.args[0]
            route = r.arg(0)
            ctx.judge(r, q, "order of hops", D is (route if k == "sell" else mk("rev", route)), "the amounts of the hops are computed in the wrong order", relevant=VALUE)
            f = fields(n.args[1])
            if set(f) != {"amount_in", "amount_out"}:
                ctx.undecided(r, fn, "amounts not followed")
                continue
            x = mk("idx", D, I)
            t = [mk("fld", x, w) for w in ("pool", "asset_in", "asset_out")]
            u, v = (f["amount_in"], f["amount_out"]) if k == "sell" else (f["amount_out"], f["amount_in"])
            want = mk("payload", mk("ext", f"AMM.calculate_{k}", *t, u))
            ctx.judge(r, q, "hop amounts", S_(v) is S_(want), "a hop's amount is not the one its own pool computes", relevant=VALUE)
            if u is r.arg(1):
                ctx.judge(r, q, "hop amount", False, "every hop is for the first hop's amount", relevant=VALUE)
            elif chain(ctx, r, q, "hop amount", u, r.arg(1), want) is None:
                ctx.undecided(r, fn, "amount carried between hops not followed")
    r, qs = fnpaths(ctx, PN, "calculate_expected_amount_out")
    for q in qs:
        if q.p.ok:
            n = q.node.args[0]
            h = Hop(r.arg(0), False)
            ok = n.op == "payload" and match(n, PL(X("AMM.calculate_sell", *h.at(h.end()), "_")))
            ctx.judge(r, q, "expected amount", ok, "the expected proceeds are not those of the last trade of the route", relevant=VALUE)


@guarded
def query(ctx):
    r, qs = impl_fn(ctx, PN, "get_route", "Pallet")
    for q in qs:
        g = G(r, q)
        a, b = [mk("fld", r.arg(0), f) for f in ("asset_in", "asset_out")]
        flip = any(n.op == "lt" and n.args == (b, a) and p for n, p in q.facts)
        x, y = (b, a) if flip else (a, b)
        S = ST("Routes", lambda n: pair(n) == (x, y) or n is r.arg(0) and not flip)
        if g.some(S):
            s = shape(q.node)
            ctx.judge(r, q, "stored route", None if s is None else match(s[0], PL(S)) and s[1] == flip, "the route of a pair is not its stored route, inverted for the reversed pair", relevant=VALUE)
            if s is None and q.node.op == "seq":
                ctx.judge(r, q, "inverse", False, "the route of the reversed pair is not the inverse of the stored one", relevant=VALUE)
        elif g.none(S):
            n = q.node
            ok = n.op == "list" and len(n.args) == 1 and fields(n.args[0]) == dict(pool=mk("cfg", "DefaultRoutePoolType"), asset_in=a, asset_out=b)
            ctx.judge(r, q, "default route", ok, "the route of a pair without a stored one is not the default trade", relevant=VALUE)
        else:
            wrong = [z for n, p in q.facts for z in find(n, lambda z: z.op == "st" and z.args[0] == "Routes")]
            ctx.judge(r, q, "stored under", False if wrong else None, "a route is looked up under another pair", relevant=VALUE)


def stored(ctx, r, q, g, given, pr):
    """the stored pair and route of a path that inserts; (base, inverted)"""
    a, b = [mk("fld", pr, f) for f in ("asset_in", "asset_out")]
    ws = q.writes("Routes")
    setsonly(ctx, r, q, "Routes")
    if len(ws) != 1 or len(ws[0].args) != 2:
        ctx.judge(r, q, "stored", False, "a route is not stored exactly once", relevant=(given,))
        return None
    k, v = ws[0].args
    kp = (a, b) if k is pr else pair(k)
    le = lambda u, v: g.le(u, v)
    if kp == (a, b):
        flip = False
    elif kp == (b, a):
        flip = True
    else:
        ctx.judge(r, q, "stored under", False, "a route is stored under another pair", relevant=VALUE)
        return None
    ctx.judge(r, q, "stored under", le(kp[0], kp[1]), "a route is stored under an unordered pair", relevant=(pr,))
    s = shape(v)
    ctx.judge(r, q, "stored route", s is not None and s == (given, flip), "the route stored is not the given one, inverted for the reversed pair", relevant=VALUE)
    return flip


OWN = "Pallet::"


def iscall(n, name):
    return n.op == "call" and str(n.args[0]).endswith("::" + name)


def okof(q, name):
    return [n.args[0] for n, p in q.facts if n.op == "is" and (n.args[1] == "Ok") == p and n.args[1] in ("Ok", "Err") and iscall(n.args[0], name)]


def errof_(q, name):
    return [n.args[0] for n, p in q.facts if n.op == "is" and (n.args[1] == "Ok") != p and n.args[1] in ("Ok", "Err") and iscall(n.args[0], name)]


@guarded
def setting(ctx):
    r = ctx.fn(PN, "force_insert_route")
    for q in (r.paths if r is not None else ()):
        stored(ctx, r, q, G(r, q), r.arg(1), r.arg(0))
    ctx.known |= {f"pallets/{PN}::Pallet::{x}" for x in ("validate_route", "validate_sell", "calculate_expected_amount_out", "get_route", "calculate_reference_amount_in")}
    r = ctx.fn(PN, "set_route", opaque=("validate_route", "validate_sell", "calculate_expected_amount_out", "get_route"))
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        pr, given = r.arg(0), r.arg(1)
        ctx.judge(r, q, "route length", g.le(mk("len", given), 5), "a route of more than five trades is accepted", relevant=(given,))
        a, b = [mk("fld", pr, f) for f in ("asset_in", "asset_out")]
        arguments(ctx, r, q, g, Hop(given, False), a, b)
        suff = [z for n, p in q.facts if n.op == "all" and p for c in n.args[1:] for z in [c] if z.op == "ext" and str(z.args[0]).endswith(".is_sufficient")]
        srcs = [n.args[0] for n, p in q.facts if n.op == "all" and p and any(c in suff for c in n.args[1:])]
        got = {f for f in ("asset_in", "asset_out") if any(has(z, mk("fld", mk("idx", given, I), f)) for z in srcs + suff)}
        for f in ("asset_in", "asset_out"):
            ctx.judge(r, q, "sufficient assets", f in got, "a route over an insufficient asset is stored by a user", relevant=(given,))
        flip = stored(ctx, r, q, g, given, pr)
        if flip is None:
            continue
        x, y = (b, a) if flip else (a, b)
        sh = lambda n: shape(n)
        is_new = lambda n, inv: sh(n) == (given, flip ^ inv)

        def is_old(n, inv):
            s = sh(n)
            return s is not None and s[1] == inv and iscall(s[0], "get_route") and (pair(s[0].args[1]) == (x, y) or s[0].args[1] is pr and (x, y) == (a, b))
        vr_err = [c for c in errof_(q, "validate_route") if is_old(c.args[1], False)]
        vr_ok = [c for c in okof(q, "validate_route") if is_old(c.args[1], False)]
        if vr_err:
            ok = any(is_new(c.args[1], False) for c in okof(q, "validate_route"))
            ctx.judge(r, q, "validated", ok, "a route replaces a failing one without being validated in both directions", relevant=(given,))
            continue
        if not vr_ok:
            ctx.judge(r, q, "existing route", None, "the existing route's validation was not recognised")
            continue
        vs = okof(q, "validate_sell")
        for inv in (False, True):
            ctx.judge(r, q, "validated", any(is_new(c.args[1], inv) for c in vs), f"a route is stored without its {'inverse' if inv else 'trades'} having been validated", relevant=(given,))
            ref = mk("fld", mk("payload", vr_ok[0]), "1" if inv else "0")
            better = False
            for n, p in q.facts:
                if n.op == "lt" and p and all(z.op == "payload" and iscall(z.args[0], "calculate_expected_amount_out") for z in n.args):
                    o, w = n.args[0].args[0], n.args[1].args[0]
                    if is_old(o.args[1], inv) and is_new(w.args[1], inv) and o.args[2] is ref and w.args[2] is ref:
                        better = True
            ctx.judge(r, q, "better", better, f"a route replaces the existing one without giving more {'in the reverse direction' if inv else ''}", relevant=(given,))


@guarded
def validation(ctx):
    r = ctx.fn(PN, "validate_sell", opaque=("sell",))
    for q in (r.paths if r is not None else ()):
        undone = [x for e in q.eff if e.kind == "rollback" for x in flatten(e.raw[8] or ())]
        open_ = [e for e in q.eff if e.kind == "call" and e.name.endswith("Pallet::sell")]
        sells = [e for e in undone if e.kind == "call" and e.name.endswith("Pallet::sell")]
        ctx.judge(r, q, "dry run", not open_ and (bool(sells) or None), "the dry run of a route is committed", relevant=VALUE)
        route = r.arg(0)
        h = Hop(route, False)
        for e in sells:
            A = e.args
            ctx.judge(r, q, "dry run", match(A[0], C("Signed", POOLACC)) or match(A[0], C("Signed", C("router_account"))) if len(A) == 6 else None, "the dry run is not signed by the router's own account", eff=e, relevant=VALUE)
            if len(A) == 6:
                ctx.judge(r, q, "dry run", A[1] is h.at(ZERO)[1] and A[2] is h.at(h.end())[2] and A[3] is r.arg(1) and A[5] is route, "the dry run does not sell the stated amount along the route", eff=e, relevant=VALUE)
        if sells:
            # the rolled-back result fails with the sale
            sold = any(p and n.op == "is" and n.args[1] == "Ok" and n.args[0].op == "call" and str(n.args[0].args[0]).endswith("Pallet::sell") for n, p in q.facts)
            ctx.judge(r, q, "dry run", sold or (False if tonode_(q.val).op == "variant:Ok" else None), "the dry run's failure is not reported", relevant=VALUE)
    r, qs = fnpaths(ctx, PN, "validate_route", opaque=("validate_sell", "calculate_reference_amount_in"))
    for q in qs:
        if not q.p.ok:
            continue
        n = q.node.args[0] if q.node.op == "variant:Ok" else None
        if n is None:
            ctx.undecided(r, "validate_route", "result not followed")
            continue
        amts = [getf(n, 0), getf(n, 1)]
        vs = okof(q, "validate_sell")
        for inv in (False, True):
            ok = any(shape(c.args[1]) == (r.arg(0), inv) and c.args[2] is amts[inv] for c in vs)
            ctx.judge(r, q, "both directions", ok, f"a route counts as valid without its {'inverse' if inv else 'trades'} having been validated with the returned amount", relevant=(r.arg(0),))


def router(pid, tier):
    ctx = Ctx(pid, tier)
    trade(ctx, "sell")
    trade(ctx, "buy")
    chains(ctx)
    query(ctx)
    setting(ctx)
    validation(ctx)
    return ctx.done(RULE)
