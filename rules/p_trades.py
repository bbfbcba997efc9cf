"""Trades of the four pools and the router: exact amounts, limits, counterparties, computed by the specified formula."""
from rules.plib import *

RULE = ("Every success path of each sell and buy is evaluated over the parsed source; the currency movements of the path are summed per account and asset (linear forms over the value graph), "
        "compared with the traded amount, and the caller's limit must follow from the path's comparisons by linear (Farkas) reasoning. The amount computed must be the pool formula applied to the pool's own reserves.")
# (pallet, function, indices of asset_in, asset_out, amount, limit among the arguments after the origin)
TRADES = [("omnipool", "sell", 0, 1, 2, 3), ("omnipool", "buy", 1, 0, 2, 3), ("stableswap", "sell", 1, 2, 3, 4), ("stableswap", "buy", 2, 1, 3, 4),
          ("xyk", "sell", 0, 1, 2, 3), ("xyk", "buy", 1, 0, 2, 3), ("lbp", "sell", 0, 1, 2, 3), ("lbp", "buy", 1, 0, 2, 3)]
# components of the omnipool's state changes that equal the traded amount (decided by M02)
LEMMA = {("calculate_sell_state_changes", "asset_in", "delta_reserve"): 2, ("calculate_sell_hub_state_changes", "asset", "delta_hub_reserve"): 1,
         ("calculate_buy_state_changes", "asset_out", "delta_reserve"): 2, ("calculate_buy_for_hub_asset_state_changes", "asset", "delta_reserve"): 1}


def callnode(n):
    return n.op in ("call", "sum")


def amt(n):
    """replace state-change components by the amount they are specified to equal"""
    if n.op == "fld" and n.args[0].op == "fld" and n.args[0].args[0].op == "payload":
        c = n.args[0].args[0].args[0]
        if callnode(c):
            k = (str(c.args[0]).split("::")[-1], n.args[0].args[1], n.args[1])
            if k in LEMMA:
                return c.args[1:][LEMMA[k]]
    return n


def opaque_amount(q, ns):
    return any(f.amount is None for f in q.flows())


def limits(pid, tier):
    ctx = Ctx(pid, tier)
    for t in TRADES:
        limit(ctx, *t)
    router(ctx)
    return ctx.done(RULE)


@guarded
def limit(ctx, pn, fname, i, o, a, l):
    r = ctx.fn(pn, fname)
    if r is None:
        return
    ai, ao, am, li = [r.arg(k) for k in (i, o, a, l)]
    for q in r.paths:
        who = q.who
        if who is None:
            continue
        ci, di = q.net(who, ai, amt)
        co, do = q.net(who, ao, amt)
        if q.same(ai, ao):
            continue
        if any(f.amount is None for f in q.flows()):
            ctx.undecided(r, "flows", "unmodelled currency movement")
            continue
        net_in, net_out = lsub(di, ci), lsub(co, do)
        A, L = lin(am), lin(li)
        if fname == "sell":
            ctx.judge(r, q, "amount sold", q.leq(net_in, A), f"the caller pays {fmt(net_in)} of the sold asset, not {show(am)}", relevant=(am,))
            ctx.judge(r, q, "minimum received", q.lle(L, net_out), f"the caller receives {fmt(net_out)}, which is not bounded below by {show(li)}", relevant=(li,))
        else:
            ctx.judge(r, q, "amount bought", q.leq(net_out, A), f"the caller receives {fmt(net_out)} of the bought asset, not {show(am)}", relevant=(am,))
            ctx.judge(r, q, "maximum paid", q.lle(net_in, L), f"the caller pays {fmt(net_in)}, which is not bounded above by {show(li)}", relevant=(li,))


def fmt(d):
    return " + ".join((f"{c}*" if c != 1 else "") + (show(k)[:110] if k is not None else "1") for k, c in d.items()) or "nothing"


@guarded
def router(ctx):
    for fname in ("sell", "buy"):
        r = ctx.fn("route-executor", fname)
        if r is None:
            continue
        am, li = r.arg(2), r.arg(3)
        for q in r.paths:
            for e in q.events("Executed"):
                n = e.args[0]
                f = fields(n)
                if not {"amount_in", "amount_out"} <= set(f):
                    ctx.undecided(r, "event", show(n)[:100])
                    continue
                if fname == "sell":
                    ctx.judge(r, q, "amount sold", f["amount_in"] is am, f"the route sells {show(f['amount_in'])[:120]}, not {show(am)}", relevant=(am,), eff=e)
                    ctx.judge(r, q, "minimum received", q.lle(lin(li), lin(f["amount_out"])), f"the route's result {show(f['amount_out'])[:140]} is not bounded below by {show(li)}", relevant=(li,), eff=e)
                else:
                    ctx.judge(r, q, "amount bought", f["amount_out"] is am, f"the route buys {show(f['amount_out'])[:120]}, not {show(am)}", relevant=(am,), eff=e)
                    ctx.judge(r, q, "maximum paid", q.lle(lin(f["amount_in"]), lin(li)), f"the route's cost {show(f['amount_in'])[:140]} is not bounded above by {show(li)}", relevant=(li,), eff=e)


def reserve_state(x, pool):
    """the omnipool's stored state of asset x together with the pool's balance of it"""
    A = PL(ST("Assets", x))

    def ok(n):
        f = fields(n)
        return {"reserve", "hub_reserve", "shares", "protocol_shares"} <= set(f) and match(f["reserve"], X("free_balance", x, pool)) and \
            all(match(f[k], F(A, k)) for k in ("hub_reserve", "shares", "protocol_shares"))
    return ok


# ---------------------------------------------------------------------------------------------------------------- P03
RULE3 = ("Every success path of each sell and buy is evaluated over the parsed source; the parties of all currency movements and the value graph of every computed amount are matched against the specified "
         "pool account and the specified formula call with its arguments (reserves of that pool, traded amount, configured or stored fee).")


def matchlin(d, spec):
    """linear form == sum of coefficient*pattern, one to one"""
    d = dict(d)
    for c, p in spec:
        for k in list(d):
            if k is not None and d[k] == c and match(k, p):
                del d[k]
                break
        else:
            return False
    return not d


def counterparties(ctx, r, q, who, pool, extra=()):
    """every movement is between the caller and the pool; extra: patterns (src, dst) otherwise allowed"""
    for f in q.flows():
        if f.amount is None:
            return False
        side = {"who" if f.src is who else "pool" if f.src is not None and match(f.src, pool) else "?",
                "who" if f.dst is who else "pool" if f.dst is not None and match(f.dst, pool) else "?"}
        ok = side == {"who", "pool"} or any(match_or_none(f.src, a) and match_or_none(f.dst, b) and x(f) for a, b, x in extra)
        ctx.judge(r, q, "counterparty", ok, lambda: f"{f.how} of {show(f.asset)[:60] if f.asset else 'native'} from {show(f.src)[:80] if f.src else 'nothing'} to {show(f.dst)[:80] if f.dst else 'nothing'} is not between the caller and the pool",
                  eff=f.eff)
    return True


def match_or_none(n, p):
    return n is None if p is None else n is not None and match(n, p)


def early_reads(q, d):
    """no amount is computed from a balance read after the first movement"""
    fl = q.flows()
    if not fl:
        return True
    first = None
    for n, p in q.facts:
        for x in find(n, lambda z: z.op == "ext" and str(z.args[0]).endswith((".transfer", ".withdraw")) and z.args[-1].op == "at"):
            k = x.args[-1].args[0]
            first = k if first is None else min(first, k)
    if first is None:
        return True
    for k in d:
        if k is not None:
            for x in find(k, lambda z: z.op == "ext" and str(z.args[0]).endswith("balance") and z.args[-1].op == "at"):
                if x.args[-1].args[0] > first:
                    return False
    return True


def formulas(pid, tier):
    ctx = Ctx(pid, tier)
    for t in TRADES:
        formula(ctx, *t)
    return ctx.done(RULE3)


def pair(ai, ao):
    return lambda n: match(n, X("from_assets", ai, ao, "_")) or match(n, X("from_assets", ao, ai, "_"))


@guarded
def formula(ctx, pn, fname, i, o, a, l):
    r = ctx.fn(pn, fname)
    if r is None:
        return
    ai, ao, am = [r.arg(k) for k in (i, o, a)]
    for q in r.paths:
        q.allcertain(ctx, r)
        who = q.who
        if who is None or q.same(ai, ao):
            continue
        ci, di = q.net(who, ai)
        co, do = q.net(who, ao)
        nin, nout = lsub(di, ci), lsub(co, do)
        sell = fname == "sell"
        moved = nout if sell else nin
        what = "output" if sell else "input"
        if pn == "xyk":
            pool = pair(ai, ao)
            R = lambda x: X("free_balance", x, pool)
            base = PL(C("xyk::calculate_out_given_in", R(ai), R(ao), am)) if sell else PL(C("xyk::calculate_in_given_out", R(ao), R(ai), am))
            disc = r.arg(4)
            cfgd = CFG("DiscountedFee" if q.holds(disc) else "GetExchangeFee")
            fee = PL(C("calculate_pool_trade_fee", base, cfgd))
            spec = [[(1, base), (-1 if sell else 1, fee)]]
            ok = counterparties(ctx, r, q, who, pool, extra=[(lambda n: n is who, None, lambda f: match(f.asset, CFG("NativeAssetId")) and q.holds(disc))])
        elif pn == "omnipool":
            pool = ("m", "into_account_truncating", "_")
            R = lambda x: reserve_state(x, pool)
            hub = CFG("HubAssetId")
            imb = lambda n: has(n, lambda z: match(z, ST("HubAssetImbalance")))
            fees = [F(X("get", ao), 0), F(X("get", ai), 1)]
            if any(match(f.asset, hub) and f.src is who for f in q.flows()):
                nm = "calculate_sell_hub_state_changes" if sell else "calculate_buy_for_hub_asset_state_changes"
                c = C(nm, R(ao), am, fees[0], imb, X("free_balance", hub, pool))
                fi, fo = ("asset", "delta_hub_reserve"), ("asset", "delta_reserve")
                nin = next((lin(f.amount) for f in q.flows() if f.src is who), {})
                moved = nout if sell else nin
            else:
                nm = "calculate_sell_state_changes" if sell else "calculate_buy_state_changes"
                c = C(nm, R(ai), R(ao), am, fees[0], fees[1], imb)
                fi, fo = ("asset_in", "delta_reserve"), ("asset_out", "delta_reserve")
            spec = [[(1, F(PL(c), *(fo if sell else fi)))]]
            ok = counterparties(ctx, r, q, who, pool, extra=[(pool, None, lambda f: match(f.asset, hub))])
        elif pn == "stableswap":
            pid_ = r.arg(0)
            pool = X("from_assets", pid_, "_")
            P = PL(ST("Pools", pid_))
            res = lambda n: n.op == "seq" and match(n.args[0], F(P, "assets")) and has(n, lambda z: match(z, X("free_balance", ("idx", F(P, "assets"), "_"), pool))) and \
                has(n, lambda z: match(z, X("decimals", ("idx", F(P, "assets"), "_"))))
            pos = lambda x: ("position", F(P, "assets"), lambda n: n.op == "eq" and any(y is x for y in n.args) and any(match(y, ("idx", F(P, "assets"), "_")) for y in n.args))
            amp = C("calculate_amplification", ("nzget", F(P, "initial_amplification")), ("nzget", F(P, "final_amplification")), F(P, "initial_block"), F(P, "final_block"), X("current_block_number"))
            spec = [[(1, F(PL(C("calculate_out_given_in_with_fee" if sell else "calculate_in_given_out_with_fee", res, pos(ai), pos(ao), am, amp, F(P, "fee"))), 0))]]
            ok = counterparties(ctx, r, q, who, pool)
        else:
            pool = pair(ai, ao)
            D = PL(ST("PoolData", pool))
            R = lambda x: X("free_balance", x, pool)
            fa = F(D, "assets", 0)
            w = PL(X("calculate_weight", F(D, "weight_curve"), PL(F(D, "start")), PL(F(D, "end")), F(D, "initial_weight"), F(D, "final_weight"), X("current_block_number")))
            w2 = lambda n: n.op in ("satsub", "sub") and match(n.args[1], w) and n.args[0].op == "const"
            fan = next((x for n, p in q.facts for x in find(n, lambda z: match(z, fa))), None)
            if fan is None:
                ctx.undecided(r, what, "the accumulated asset is not compared")
                continue
            inacc = q.same(ai, fan)
            differs = lambda x: any(n.op == "eq" and not p and x in n.args and fan in n.args for n, p in q.facts)
            if differs(ai) and differs(ao):
                continue        # a pool stores the two assets of its pair
            if not inacc and not q.same(ao, fan):
                # the pool's data hold the two assets of the pair
                if q.holds(mk("eq", *sorted((ai, fan), key=lambda z: z.id))) is None and not any(n.op == "eq" and not p and ai in n.args and fan in n.args for n, p in q.facts):
                    ctx.undecided(r, what, "the accumulated asset is not compared")
                    continue
            W = (w, w2) if inacc else (w2, w)
            feerate = lambda n: match(n, F(D, "fee")) or n.op == "tuple" and len(n.args) == 2
            fee = lambda x: PL(C("calculate_pool_trade_fee", x, feerate))
            FC = lambda n: match(n, F(D, "fee_collector"))
            if sell:
                base = PL(C("lbp::calculate_out_given_in", R(ai), R(ao), W[0], W[1], am))
                spec = [[(1, base)]] if inacc else [[(1, base), (-1, fee(base))]]
                feepat = fee(am) if inacc else fee(base)
            else:
                net = am if inacc else (lambda n: matchlin(lin(n), [(1, am), (1, fee(am))]))
                base = PL(C("lbp::calculate_in_given_out", R(ai), R(ao), W[0], W[1], net))
                spec = [[(1, base)]]
                feepat = fee(base) if inacc else fee(am)
            payer = who if inacc else pool
            ok = counterparties(ctx, r, q, who, pool, extra=[(payer, FC, lambda f: match(f.asset, fa) and match(f.amount, feepat))])
        if not ok:
            ctx.undecided(r, what, "unmodelled currency movement")
            continue
        ctx.judge(r, q, what, any(matchlin(moved, s) for s in spec), lambda: f"the {what} {fmt(moved)[:400]} is not the pool formula of this pool's reserves, amount and fee", relevant=(am,), eff=q.flows()[0].eff)
        ctx.judge(r, q, "reserves read before the trade", early_reads(q, moved), f"the {what} depends on a balance read after the first transfer", eff=q.flows()[0].eff)
