"""What the pools tell the router: quotes, liquidity depth and spot prices against the trades they execute."""
from rules.p_evmfee import called
from rules.p_formula import ratio
from rules.p_small import *
from vt.terms import subst

RULE = ("For each pool every path of the sell and buy quote is compared with every path of the sale and purchase the router executes: under the same conditions the amount quoted must be, as an "
        "exact expression of the state, the amount the trade moves; the other side of the trade, refusals, depth and the state the spot price is computed from are compared likewise.")
POOLS = ("omnipool", "stableswap", "xyk", "lbp")
KIND = {"omnipool": "Omnipool", "stableswap": "Stableswap", "xyk": "XYK", "lbp": "LBP"}
VALUE = ("free_balance",)


def impl(ctx, pn, name):
    fs = [f for f in ctx.pallet(pn).c.by_name.get(name, []) if f.impl and f.impl["trait"] and "TradeExecution" in repr(f.impl["trait"]) and "tests" not in f.mod.path]
    if len(fs) != 1:
        ctx.c["missing"] += 1
        ctx.und.append(f"{pn}: TradeExecution::{name} not found")
        return None, []
    return fnpaths(ctx, pn, name, fn=fs[0])


def facts(q, mp=None):
    out = {}
    for f, p in q.facts:
        f = strip(f)
        out[(subst(f, mp) if mp else f).id] = p
    return out


def compatible(fx, fq):
    return all(fx.get(k, p) == p for k, p in fq.items())


def offpair(q, i, o):
    """a path on which the pool's first asset is both assets traded or neither: the pool of a pair holds exactly the pair"""
    first = {}
    for f, p in q.facts:
        if f.op == "eq" and len(f.args) == 2:
            for a, b in (f.args, f.args[::-1]):
                if a in (i, o) and b.op == "fld" and b.args[1] == "0" and b.args[0].op == "fld" and b.args[0].args[1] == "assets":
                    first[a.id] = p
    return len(first) == 2 and len(set(first.values())) == 1


def supported(q):
    return next((p for f, p in q.facts if f.op == "is" and f.args[1] in KIND.values()), next((p for f, p in q.facts if f.op == "eq" and any(x.op.startswith("variant:") and x.op[8:] in KIND.values() for x in f.args)), None))


def refused(ctx, pn, r, qs):
    for q in qs:
        s = [f.args[1] for f, p in q.facts if p and f.op == "is" and f.args[1] in KIND.values()]
        if s:
            ctx.judge(r, q, "own pools only", s[0] == KIND[pn], f"{pn} serves pools of kind {s[0]}", relevant=VALUE)
        elif supported(q) is False:
            bad = q.p.ok or q.writes() or q.flows()
            ctx.judge(r, q, "other pools refused", not bad, f"{pn} serves a pool of another kind", relevant=VALUE)
        elif q.p.ok:
            ctx.judge(r, q, "own pools only", None if any(find(f, lambda n: n is r.arg(0) or n is r.arg(1)) for f, p in q.facts) else False, f"{pn} does not look at the kind of pool", relevant=VALUE)


def total(flows, sign=1):
    t = {}
    for f in flows:
        for k, v in lin(strip(f.amount)).items():
            t[k] = t.get(k, 0) + v
    return {k: v for k, v in t.items() if v}


def opaque(n):
    """is a value whose meaning is not known part of the amount"""
    return bool(find(n, lambda x: x.op in ("opaque", "macro", "phi", "loopout", "fold") or x.op.startswith("part:")))


def quotes(ctx, pn):
    for sell in (True, False):
        k = "sell" if sell else "buy"
        rq, qq = impl(ctx, pn, "calculate_" + k)
        rx, qx = impl(ctx, pn, "execute_" + k)
        if rq is None or rx is None:
            continue
        refused(ctx, pn, rq, qq)
        refused(ctx, pn, rx, qx)
        i, o, am, lim = rx.arg(2), rx.arg(3), rx.arg(4), rx.arg(5)
        mp = {rq.arg(j): rx.arg(j + 1) for j in range(4)}
        good = [(q, facts(q, mp)) for q in qq if q.p.ok and q.node.op == "variant:Ok"]
        for x in qx:
            if not x.p.ok or offpair(x, i, o):
                continue
            fx = facts(x)
            # conditions the trade checks after moving anything say nothing about the quote
            comp = [q for q, fq in good if compatible(fx, fq)]
            fl = x.flows()
            who = next((f.args[1] for f, p in x.facts if f.op == "origin"), None)
            mine = lambda n: n is not None and n.op == "signer"
            got = [f for f in fl if mine(f.dst)]
            paid = [f for f in fl if mine(f.src)]
            if any(f.asset is None or f.amount is None or f.eff.loop for f in fl):
                ctx.judge(rx, x, "movements", None, "movement not understood")
                continue
            hub = lambda a, b: match(a, b) or x.same(a, b) or any(p and f.op == "eq" and {strip(f.args[0]).id, strip(f.args[1]).id} == {strip(a).id, strip(b).id} for f, p in x.facts)
            inn, out = [f for f in paid if hub(f.asset, i)], [f for f in got if hub(f.asset, o)]
            other = [f for f in got + paid if f not in inn and f not in out]
            ctx.judge(rx, x, "assets traded", not other and bool(inn) and bool(out), lambda: "moved: " + "; ".join(show(f.asset)[:50] for f in got + paid), relevant=VALUE)
            fixed, quoted = (inn, out) if sell else (out, inn)
            fa = total(fixed)
            okf = fa == lin(strip(am))
            if not okf and len(fixed) == 1 and pn == "omnipool":        # the state change's own delta: what it was asked for (M02)
                n = fixed[0].amount
                okf = n.op == "fld" and str(n.args[1]).startswith("delta_") and bool(find(n, lambda z: z.op == "payload" and z.args[0].op == "call" and any(strip(y) is strip(am) for y in z.args[0].args[1:] if isinstance(y, Node)))) and \
                    deltaof(n, sell)
            ctx.judge(rx, x, "amount asked is moved", okf, lambda: "moved: " + "; ".join(show(f.amount)[:80] for f in fixed), relevant=VALUE)
            if not comp:
                ctx.judge(rx, x, "quoted", None, "no quote under the conditions of the trade")
                continue
            t = total(quoted)
            for q in comp:
                v = subst(strip(q.node.args[0]), mp)
                ok = lin(v) == t
                if not ok and (opaque(v) or any(opaque(f.amount) for f in quoted)):
                    ok = None
                ctx.judge(rx, x, "trade pays the quote", ok, lambda: f"quoted {show(v)[:90]}, moved " + "; ".join(show(f.amount)[:90] for f in quoted), relevant=VALUE)
            limit(ctx, pn, rx, x, sell, lim, am, t)


def deltaof(n, sell):
    """the delta of the side that is asked for: in a sale what goes in, in a purchase what comes out"""
    fn = [str(z.args[0].args[0]).split("::")[-1] for z in find(n, lambda z: z.op == "payload" and z.args[0].op == "call" and "state_changes" in str(z.args[0].args[0]))][:1]
    p = (n.args[0].args[1] if n.args[0].op == "fld" else "", n.args[1])
    return fn and p in {"calculate_sell_state_changes": [("asset_in", "delta_reserve")], "calculate_sell_hub_state_changes": [("asset", "delta_hub_reserve")],
                        "calculate_buy_state_changes": [("asset_out", "delta_reserve")], "calculate_buy_for_hub_asset_state_changes": [("asset", "delta_reserve")]}.get(fn[0], [])


def limit(ctx, pn, r, x, sell, lim, am, t):
    """the limit given bounds the amount that is not fixed; selling for shares of a stable pool has no limit of its own (the router compares what arrived, P12)"""
    rel = [(f, p) for f, p in x.facts if f.op == "lt" and any(strip(a) is strip(lim) for a in f.args)]
    if not rel:
        mint = any(f.src is None and f.dst is not None and f.dst.op == "signer" for f in x.flows())
        ctx.judge(r, x, "limit", True if pn == "stableswap" and sell and mint else False, "the trader's limit is not enforced", relevant=VALUE)
        return
    ok = None
    for f, p in rel:
        a, b = f.args
        low = strip(a) is strip(lim)      # lim < value
        val = b if low else a
        if lin(strip(val)) == t or not p and len(t) > 1 and all(v > 0 for v in t.values()):
            good = (p is False and low) if not sell else (p is False and not low)
            strict = (p is True and not low) if not sell else (p is True and low)
            ok = bool(good or strict) if lin(strip(val)) == t else ok
    ctx.judge(r, x, "limit", ok, lambda: "limit compared with something else", relevant=VALUE)


def depth(ctx, pn):
    r, qs = impl(ctx, pn, "get_liquidity_depth")
    if r is None:
        return
    refused(ctx, pn, r, qs)
    for q in qs:
        if not q.p.ok or q.node.op != "variant:Ok":
            continue
        n = strip(q.node.args[0])
        ok = n.op == "ext" and str(n.args[0]).split(".")[-1] == "free_balance" and match(n.args[1], r.arg(1))
        acc = n.args[2] if n.op == "ext" and len(n.args) > 2 else None
        ok = ok and ownaccount(pn, acc, r)
        ctx.judge(r, q, "depth", ok if ok or n.op in ("ext", "fld", "const") else None, lambda: f"the depth is {show(n)[:80]}", relevant=VALUE)


def ownaccount(pn, acc, r):
    if acc is None:
        return False
    if pn == "omnipool":
        return acc.op == "m" and acc.args[0] == "into_account_truncating"
    if pn == "stableswap":
        return bool(find(acc, called("from_assets"))) and bool(find(acc, lambda n: n.op == "vfld" and n.args[0] is r.arg(0)))
    return bool(find(acc, lambda n: n is r.arg(1))) and bool(find(acc, lambda n: n is r.arg(2)))


MATH = {"omnipool": ("calculate_spot_price", "calculate_lrna_spot_price"), "stableswap": ("calculate_spot_price",), "xyk": ("calculate_spot_price_with_fee",), "lbp": ("calculate_spot_price_with_fee",)}


def price(ctx, pn):
    r, qs = impl(ctx, pn, "calculate_spot_price_with_fee")
    rq, qq = impl(ctx, pn, "calculate_sell")
    if r is None or rq is None:
        return
    refused(ctx, pn, r, qs)
    mp = {rq.arg(0): r.arg(0), rq.arg(1): r.arg(1), rq.arg(2): r.arg(2)}
    a, b = r.arg(1), r.arg(2)
    for q in qs:
        if not q.p.ok or q.node.op != "variant:Ok":
            continue
        n = strip(q.node.args[0])
        inv = n.op == "payload" and n.args[0].op == "m" and n.args[0].args[0] == "reciprocal"
        core = n.args[0].args[1] if inv else n
        core = core.args[0] if core.op == "payload" else core
        if core.op != "call" or "hydra_dx_math" not in str(core.args[0]):
            ctx.judge(r, q, "spot price", None, show(core)[:80])
            continue
        f = str(core.args[0]).split("::")[-1]
        ctx.judge(r, q, "price function", f in MATH[pn], f"the price is computed by {f}", relevant=VALUE)
        ctx.judge(r, q, "direction", inv == (pn != "stableswap"), "the price is the inverse of what is asked for", relevant=VALUE)
        args = core.args[1:]
        fs = facts(q)
        comp = [x for x in qq if x.p.ok and x.node.op == "variant:Ok" and compatible(fs, facts(x, mp))]
        same = lambda u, v: strip(u) is strip(v)
        for x in comp:
            mc = [c for c in find(strip(x.node), lambda z: z.op == "call" and "hydra_dx_math" in str(z.args[0]))]
            mc = {str(c.args[0]).split("::")[-1]: [subst(z, mp) if isinstance(z, Node) else z for z in c.args[1:]] for c in mc}
            if pn == "omnipool":
                if f == "calculate_lrna_spot_price":
                    w = mc.get("calculate_sell_hub_state_changes")
                    ok = w and same(args[0], w[0]) and match(args[1], ("variant:Some", w[2]))
                else:
                    w = mc.get("calculate_sell_state_changes")
                    ok = w and same(args[0], w[0]) and same(args[1], w[1]) and match(args[2], ("variant:Some", ("tuple", w[4], w[3])))
                ctx.judge(r, q, "priced as traded", bool(ok) if w else None, lambda: f"{f} of {[show(z)[:40] for z in args]}", relevant=VALUE)
            elif pn == "xyk":
                w = mc.get("calculate_out_given_in")
                res = lambda z: z.op == "ext" and "free_balance" in str(z.args[0]) and z.args[1]
                ok = w and all(res(args[j]) is res(w[j]) and res(w[j]) and bool(find(args[j].args[2], lambda z: z is a)) and bool(find(args[j].args[2], lambda z: z is b)) for j in (0, 1))
                fee = [w2 for k, w2 in mc.items() if "fee" in k]
                okf = args[2].op == "variant:Some" and fee and same_fee(args[2].args[0], fee[0])
                ctx.judge(r, q, "priced as traded", bool(ok) if w else None, lambda: f"{f} of {[show(z)[:60] for z in args]}", relevant=VALUE)
                ctx.judge(r, q, "priced with the pool's fee", okf if fee else None, lambda: f"the fee is {show(args[2])[:60]}", relevant=VALUE)
            elif pn == "lbp":
                w = mc.get("calculate_out_given_in")
                ok = w and all(same(args[j], w[j]) for j in range(4))
                ctx.judge(r, q, "priced as traded", bool(ok) if w else None, lambda: f"{f} of {[show(z)[:60] for z in args[:4]]}", relevant=VALUE)
                okb = len(args) == 7 and match(args[5], b) and args[4].op == "fld" and args[4].args[1] == "0" and bool(find(args[4], lambda z: z.op == "fld" and z.args[1] == "assets"))
                ctx.judge(r, q, "fee asset", okb, lambda: f"{[show(z)[:60] for z in args[4:6]]}", relevant=VALUE)
        if pn == "lbp":
            # the fee the quote takes under the same conditions
            want = {strip(subst(z, mp)).id for x in comp for c in find(strip(x.node), lambda z: z.op == "call" and str(z.args[0]).endswith("calculate_pool_trade_fee")) for z in c.args[2:]}
            rep = next((p for g, p in q.facts if g.op in ("lt", "eq", "le") and find(g, called("get_by_lock"))), None)
            v = args[6].args[0] if len(args) == 7 and args[6].op == "variant:Some" else None
            okf = None
            if v is not None:
                const_ = v.op == "tuple" and all(z.op == "const" for z in v.args)
                own = v.op == "fld" and v.args[1] == "fee"
                okf = (v.id in want) if want else (own or const_ or None)
            ctx.judge(r, q, "priced with the pool's fee", okf, lambda: f"the fee is {show(v)[:60]}", relevant=VALUE)
        if pn == "stableswap":
            pool = lambda z: z.op == "vfld" and z.args[0] is r.arg(0)
            rec = lambda z: z.op == "payload" and z.args[0].op == "st" and z.args[0].args[0] == "Pools" and pool(z.args[0].args[1])
            ok = len(args) == 8 and pool(args[0]) and match(args[3], a) and match(args[4], b)
            ctx.judge(r, q, "priced pair", ok, lambda: f"{[show(z)[:40] for z in (args[0], args[3], args[4])]}", relevant=VALUE)
            if len(args) == 8:
                amps = [subst(z, mp) for x in qq if x.p.ok for z in find(strip(x.node), lambda z: z.op == "call" and "calculate_amplification" in str(z.args[0]))]
                ctx.judge(r, q, "amplification", any(same(args[2], z) for z in amps) if amps else None, lambda: show(args[2])[:80], relevant=VALUE)
                ctx.judge(r, q, "issuance", args[5].op == "ext" and str(args[5].args[0]).endswith("total_issuance") and pool(args[5].args[1]), lambda: show(args[5])[:60], relevant=VALUE)
                ctx.judge(r, q, "priced with the pool's fee", args[7].op == "variant:Some" and args[7].args[0].op == "fld" and args[7].args[0].args[1] == "fee" and rec(args[7].args[0].args[0]), lambda: show(args[7])[:60], relevant=VALUE)
                s = args[1]
                okr = s.op == "seq" and s.args[0].op == "fld" and s.args[0].args[1] == "assets" and rec(s.args[0].args[0]) and s.args[1].op == "tuple"
                if okr:
                    el = s.args[1].args[0]
                    fb = [z for z in find(s.args[1].args[1], lambda z: z.op == "ext" and "free_balance" in str(z.args[0]))]
                    okr = len(fb) == 1 and fb[0].args[1] is el and ownaccount(pn, fb[0].args[2], r)
                else:
                    okr = None
                ctx.judge(r, q, "reserves", okr, lambda: show(s)[:120], relevant=VALUE)


def same_fee(v, w):
    return any(strip(v) is strip(z) for z in w if isinstance(z, Node)) or any(strip(z) is strip(v) for y in w if isinstance(y, Node) for z in find(y, lambda z: True)) or \
        all(any(strip(mk("fld", v, k)) is strip(z) for z in w if isinstance(z, Node)) for k in ("0", "1"))


def router_interface(pid, tier):
    ctx = Ctx(pid, tier)
    g = guarded(one)
    for pn in POOLS:
        g(ctx, pn)
    return ctx.done(RULE, ["balances read at different moments of one call differ only by the call's own movements", "the math functions return the same amounts for the same state"])


def one(ctx, pn):
    quotes(ctx, pn)
    depth(ctx, pn)
    price(ctx, pn)
