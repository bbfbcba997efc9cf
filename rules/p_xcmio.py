"""Assets arriving and leaving by XCM, the fees paid for it, exchanges and what users may execute."""
from rules.p_oracle import tyname
from rules.p_evmfee import handler, called
from rules.p_hooks import getter, calls, eargs, okres
from rules.p_prices import plain
from vt.terms import subst
from rules.p_small import *

RULE = ("Every path of the asset transactor, the weight trader, the asset exchanger and the execution filter is evaluated: which account, asset and amount each credits, debits, returns or refunds, "
        "and which instructions it lets through, must be those the message determines.")
AD = "runtime/adapters"


def unmap(n, memo=None):
    """payload of a mapped option or result: the body at the payload"""
    memo = {} if memo is None else memo
    if not isinstance(n, Node):
        return n
    if n.id in memo:
        return memo[n.id]
    a = [unmap(x, memo) if isinstance(x, Node) else x for x in n.args]
    o = n if all(x is y for x, y in zip(a, n.args)) else mk(n.op, *a)
    if o.op == "payload" and o.args[0].op == "m" and o.args[0].args[0] == "map" and len(o.args[0].args) == 3 and o.args[0].args[2].op == "lam" and o.args[0].args[2].args[0] == 1:
        body = o.args[0].args[2].args[1]
        ls = {x for x in find(body, lambda x: x.op == "lamarg")}
        if len(ls) <= 1:
            o = unmap(subst(body, {l: mk("payload", o.args[0].args[1]) for l in ls}), memo)
    if o.op == "fld" and o.args[0].op == "tuple" and str(o.args[1]).isdigit() and int(o.args[1]) < len(o.args[0].args):
        o = o.args[0].args[int(o.args[1])]
    memo[n.id] = o
    return o


def unsat(n):
    n = strip(n)
    while n.op == "sat":
        n = strip(n.args[0])
    return n


def P_(n):
    return mk("payload", n)


def converted(n, name, arg):
    """what a converter made of the argument"""
    n = unsat(n)
    return n.op == "payload" and called(name)(n.args[0]) and len(plain(n.args[0])) == 1 and match(plain(n.args[0])[0], arg)


def rerouted(q, cur, acc):
    """is the (currency, account) pair one to reroute?"""
    for f, p in q.facts:
        if called("contains")(f):
            x = plain(f)
            x = list(x[0].args) if len(x) == 1 and x[0].op == "tuple" else x
            if len(x) == 2 and cur(x[0]) and acc(x[1]):
                return p
    return None


@guarded
def transactor(ctx):
    S = "ReroutingMultiCurrencyAdapter"
    r, qs = handler(ctx, AD, "deposit_asset", S)
    if r:
        asset, loc = r.arg(0), r.arg(1)
        cur = lambda n: converted(n, "convert", asset)
        acc = lambda n: converted(n, "convert_location", loc)
        amt = lambda n: converted(n, "matches_fungible", asset)
    for q in qs:
        if not q.p.ok:
            continue
        kn = known(q, asset, loc)
        ds = [e for e in calls(q, "deposit")]
        multi = [e for e in ds if len(eargs(e)) == 3]
        unk = [e for e in ds if len(eargs(e)) == 2]
        if kn is None:
            ctx.judge(r, q, "known asset", None, "not decided on this path")
            continue
        if not kn:
            ctx.judge(r, q, "unknown asset", len(unk) == 1 and not multi and match(eargs(unk[0])[0], asset) and match(eargs(unk[0])[1], loc), "an asset that is not known is not given to the holder of unknown assets", relevant=VALUE)
            fail(ctx, r, q, unk, "on_deposit_unknown_asset_fail", lambda x: len(x) == 3 and match(x[1], asset) and match(x[2], loc))
            continue
        ctx.judge(r, q, "deposited once", len(multi) == 1 and not unk, f"deposited {len(multi)} times", relevant=VALUE)
        for e in multi:
            x = eargs(e)
            to = rerouted(q, cur, acc)
            ctx.judge(r, q, "deposit of", cur(x[0]) and amt(x[2]), lambda: f"{show(x[2])[:50]} of {show(x[0])[:50]} is deposited", eff=e, relevant=VALUE)
            okto = None if to is None and not (acc(x[1])) else getter(x[1], "RerouteDestination") if to else acc(x[1]) if to is False else False
            ctx.judge(r, q, "deposit to", okto, lambda: f"deposited to {show(x[1])[:60]}", eff=e, relevant=VALUE)
        fail(ctx, r, q, multi, "on_deposit_currency_fail", lambda x: len(x) == 4 and cur(x[1]) and acc(x[2]) and amt(x[3]))
    r, qs = handler(ctx, AD, "withdraw_asset", S)
    if r:
        asset, loc = r.arg(0), r.arg(1)
        cur = lambda n: converted(n, "convert", asset)
        acc = lambda n: converted(n, "convert_location", loc)
        amt = lambda n: converted(n, "matches_fungible", asset)
    for q in qs:
        if not q.p.ok:
            continue
        ws = calls(q, "withdraw")
        unk = [e for e in ws if len(eargs(e)) == 2]
        multi = [e for e in ws if len(eargs(e)) == 3]
        done = [e for e in unk if okres(q, e)]
        ctx.judge(r, q, "withdrawn", True if [e for e in unk + multi if okres(q, e)] else False, "the asset is handed over without being withdrawn", relevant=VALUE)
        ctx.judge(r, q, "withdrawn once", not (done and multi), "the asset is withdrawn twice", relevant=VALUE)
        for e in unk:
            x = eargs(e)
            ctx.judge(r, q, "unknown asset of", match(x[0], asset) and match(x[1], loc), lambda: f"withdrawn: {show(x[0])[:50]} of {show(x[1])[:50]}", eff=e, relevant=VALUE)
        for e in multi:
            x = eargs(e)
            ctx.judge(r, q, "withdrawal of", cur(x[0]) and acc(x[1]) and amt(x[2]), lambda: f"{show(x[2])[:50]} of {show(x[0])[:40]} is taken from {show(x[1])[:40]}", eff=e, relevant=VALUE)
        same_asset(ctx, r, q, asset)
    r, qs = handler(ctx, AD, "transfer_asset", S)
    if r:
        asset, a, b = (r.arg(k) for k in range(3))
        cur = lambda n: converted(n, "convert", asset)
        acc = lambda l: lambda n: converted(n, "convert_location", l)
        amt = lambda n: converted(n, "matches_fungible", asset)
    for q in qs:
        if not q.p.ok:
            continue
        ts = calls(q, "transfer")
        ctx.judge(r, q, "transferred once", len(ts) == 1 if len(ts) < 2 else None, f"transferred {len(ts)} times", relevant=VALUE)
        for e in ts:
            x = eargs(e)
            if len(x) != 4:
                ctx.judge(r, q, "transfer", None, f"{len(x)} arguments")
                continue
            ctx.judge(r, q, "transfer of", cur(x[0]) and amt(x[3]) and acc(a)(x[1]), lambda: f"{show(x[3])[:40]} of {show(x[0])[:40]} is taken from {show(x[1])[:40]}", eff=e, relevant=VALUE)
            to = rerouted(q, cur, acc(b))
            okto = getter(x[2], "RerouteDestination") if to else acc(b)(x[2]) if to is False else False if acc(b)(x[2]) or getter(x[2], "RerouteDestination") else None
            ctx.judge(r, q, "transfer to", okto, lambda: f"transferred to {show(x[2])[:60]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "transfer required", okres(q, e), "a failed transfer succeeds", eff=e, relevant=VALUE)
        same_asset(ctx, r, q, asset)


def same_asset(ctx, r, q, asset):
    v = strip(q.node.args[0]) if q.node.op == "variant:Ok" else None
    while v is not None and v.op in ("call", "m") and str(v.args[0]).split("::")[-1] in ("into", "from", "clone"):
        v = strip(v.args[1])
    ctx.judge(r, q, "asset handed over", match(v, asset) if v is not None else None, lambda: f"handed over: {show(q.node)[:60]}", relevant=VALUE)


def known(q, asset, loc):
    out = {}
    for f, p in q.facts:
        if f.op == "is" and f.args[1] in ("Some", "Ok"):
            for k, a in (("convert_location", loc), ("convert", asset), ("matches_fungible", asset)):
                if called(k)(f.args[0]) and match(plain(f.args[0])[0], a):
                    out[k] = p
    if False in out.values():
        return False
    return True if len(out) == 3 else None


def fail(ctx, r, q, es, name, want):
    """a failed deposit is handed to the failure handler, whose answer is the answer"""
    hs = calls(q, name)
    for e in es:
        done = okres(q, e)
        if done is False:
            ctx.judge(r, q, "failed deposit", len(hs) == 1 and want(eargs(hs[0])) and okres(q, hs[0]), "a failed deposit is not given to the failure handler", eff=e, relevant=VALUE)
        elif done:
            ctx.judge(r, q, "deposit succeeded", not hs, "a deposit that succeeded is treated as failed", eff=e, relevant=VALUE)
        elif hs:
            # the handler is inside the result
            ctx.judge(r, q, "failed deposit", want(eargs(hs[0])) or None, "")


def method(ctx, name, self, **kw):
    fs = [f for f in ctx.pallet(AD).c.by_name.get(name, []) if f.impl and tyname(f.impl["self"]) == self and f.impl["trait"] and "tests" not in f.mod.path]
    if len(fs) != 1:
        ctx.c["missing"] += 1
        return None, []
    return fnpaths(ctx, AD, name, fn=fs[0], **kw)


def state(q):
    o = q.p.out(0)
    g = fields(unmap(o)) if o is not None else {}
    return o, {k: unmap(v) for k, v in g.items()} if g else {}


def table(n):
    """(table, key, value stored): one entry of a map changed"""
    n = strip(n)
    if n.op == "upd":
        return n.args[0], n.args[1], n.args[2]
    if n.op == "mut" and n.args[0] == "insert" and len(n.args) == 4:
        return n.args[1], n.args[2], n.args[3]
    return None


@guarded
def trader(ctx):
    r, qs = method(ctx, "buy_weight", "MultiCurrencyTrader", outs=True)
    for q in qs:
        if not q.p.ok:
            o = q.p.out(0)
            ctx.judge(r, q, "nothing paid on refusal", True if o is None or o is r.arg(0) else None, lambda: show(o)[:60])
            continue
        me, weight, pay = r.arg(0), r.arg(1), r.arg(2)
        v = unmap(q.node.args[0]) if q.node.op == "variant:Ok" else None
        if v is None or not (v.op == "payload" and v.args[0].op == "m" and v.args[0].args[0] == "checked_sub"):
            ctx.judge(r, q, "unused payment", False if v is not None and match(v, pay) else None, lambda: f"the unused payment is {show(q.node)[:80]}", relevant=VALUE)
            continue
        c = v.args[0]
        ctx.judge(r, q, "unused payment of", match(c.args[1], pay), lambda: f"the payment is {show(c.args[1])[:60]}", relevant=VALUE)
        req = c.args[2]
        while req.op in ("call", "m") and str(req.args[0]).split("::")[-1] in ("into", "from"):
            req = req.args[1]
        if req.op != "tuple" or len(req.args) != 2:
            ctx.judge(r, q, "amount required", None, show(req)[:80])
            continue
        loc, amount = req.args
        am = unsat(amount)
        # price(currency of the asset) * fee(weight)
        ok, pr, cur = None, None, None
        if am.op == "payload" and am.args[0].op == "m" and am.args[0].args[0] == "checked_mul_int":
            pr, fee = am.args[0].args[1], am.args[0].args[2]
            ok = called("weight_to_fee")(fee) and match(plain(fee)[0], weight)
            ctx.judge(r, q, "fee of the weight", ok, lambda: f"the fee is {show(fee)[:60]}", relevant=VALUE)
            if pr.op == "payload" and called("price")(pr.args[0]):
                cur = plain(pr.args[0])[0]
                first = cur.args[0] if cur.op == "payload" and called("convert")(cur.args[0]) else None
                as_ = plain(first)[0] if first is not None else None
                okc = None
                if as_ is not None:
                    okc = bool(find(as_, lambda n: n is pay)) and match(loc, mk("fld", mk("fld", as_, "id"), "0"))
                ctx.judge(r, q, "asset paid", okc, lambda: f"paid in {show(loc)[:60]} at the price of {show(cur)[:60]}", relevant=VALUE)
            else:
                ctx.judge(r, q, "price", None, show(pr)[:60])
        else:
            ctx.judge(r, q, "amount required", None, show(am)[:80])
        o, g = state(q)
        if set(g) < {"weight", "paid_assets"} or not g:
            ctx.judge(r, q, "trader kept", False if o is me else None, "the weight bought is not remembered", relevant=VALUE)
            continue
        w = unsat(g["weight"])
        ctx.judge(r, q, "weight bought", lin(w) == ladd(lin(mk("fld", me, "weight")), lin(weight)), lambda: f"the weight becomes {show(w)[:60]}", relevant=VALUE)
        t = table(g["paid_assets"])
        if t is None:
            ctx.judge(r, q, "paid kept", False if match(g["paid_assets"], mk("fld", me, "paid_assets")) else None, lambda: f"the assets paid become {show(g['paid_assets'])[:80]}", relevant=VALUE)
            continue
        ctx.judge(r, q, "paid kept under", t[0] is mk("fld", me, "paid_assets") and (t[1].op == "tuple" and match(t[1].args[0], loc) and pr is not None and match(t[1].args[1], pr) or None), lambda: f"kept under {show(t[1])[:80]}", relevant=VALUE)
        val = t[2]
        old = None
        if val.op == "mut" and val.args[0] in ("saturating_accrue", "add_assign"):
            old, val = val.args[1], val.args[2]
        elif unsat(val).op == "add":
            xs = [x for x in unsat(val).args if not match(unsat(x), am)]
            old, val = (xs[0], am) if len(xs) == 1 else (None, val)
        ctx.judge(r, q, "amount kept", match(unsat(val), am), lambda: f"the amount kept is {show(t[2])[:80]}", relevant=VALUE)
        had = [p for f, p in q.facts if f.op == "is" and f.args[0].op == "m" and f.args[0].args[0] in ("get", "get_mut", "contains_key") and unmap(f.args[0].args[2]) is t[1]]
        had += [p for f, p in q.facts if f.op == "m" and f.args[0] == "contains_key" and unmap(f.args[2]) is t[1]]
        if old is not None:
            okold = old.op == "payload" and bool(find(old, lambda n: n is t[1])) 
            ctx.judge(r, q, "added to what was paid", okold or None, lambda: show(old)[:60])
        else:
            ctx.judge(r, q, "added to what was paid", True if False in had else False if True in had else None, "an earlier payment is forgotten", relevant=VALUE)
    r, qs = method(ctx, "refund_weight", "MultiCurrencyTrader", outs=True)
    for q in qs:
        me, weight = r.arg(0), r.arg(1)
        W = mk("fld", me, "weight")
        o, g = state(q)
        some = q.node.op == "variant:Some"
        if not g:
            ctx.judge(r, q, "state after refund", False if some and o is me else None, "a refund leaves the trader as it was", relevant=VALUE)
            continue
        less = mk("min", *sorted((W, weight), key=lambda n: n.id))
        ismin = lambda n: n.op == "min" and set(n.args) == {W, weight}
        w = strip(g["weight"])
        okw = unsat(w).op in ("sub", "satsub") and unsat(w).args[0] is W and (ismin(unsat(w).args[1]) or unsat(w).op == "satsub" and unsat(w).args[1] is weight)
        if some:
            ctx.judge(r, q, "weight refunded", okw, lambda: f"the weight left is {show(w)[:80]}", relevant=VALUE)
        T = mk("fld", me, "paid_assets")
        if not some:
            ctx.judge(r, q, "nothing refunded", match(g["paid_assets"], T), "assets paid change without a refund", relevant=VALUE)
            continue
        v = q.node.args[0]
        while v.op in ("call", "m") and str(v.args[0]).split("::")[-1] in ("into", "from"):
            v = v.args[1]
        if v.op != "tuple" or len(v.args) != 2:
            ctx.judge(r, q, "refund", None, show(v)[:80])
            continue
        loc, ref = v.args
        n = strip(g["paid_assets"])
        removed = n.op == "mut" and n.args[0] == "remove"
        key = n.args[2] if removed else None
        t = table(n.args[1] if removed else n)
        if t is None:
            ctx.judge(r, q, "refund booked", False if match(n, T) else None, lambda: f"the assets paid become {show(n)[:80]}", relevant=VALUE)
            continue
        ctx.judge(r, q, "refund of", match(loc, mk("fld", t[1], "0")) and t[0] is T, lambda: f"refunded in {show(loc)[:60]}", relevant=VALUE)
        cur = [x for x in find(t[2], lambda x: x.op == "payload" and x.args[0].op == "m" and x.args[0].args[0] == "get" and x.args[0].args[1] is T and x.args[0].args[2] is t[1])]
        if not cur:
            held = lambda y: y.op == "payload" and y.args[0].op == "m" and y.args[0].args[0] in ("get", "get_mut") and y.args[0].args[1] is T
            whole = num(t[2]) == 0 and held(strip(ref))
            ctx.judge(r, q, "refund booked", None if not whole else True, show(t[2])[:80])
            if whole:
                ctx.judge(r, q, "amount refunded", False, "the whole payment is refunded whatever the unused weight is worth", relevant=VALUE)
            continue
        was = cur[0]
        ctx.judge(r, q, "refund booked", lin(t[2]) == lsub(lin(was), lin(ref)), lambda: f"the amount paid becomes {show(t[2])[:100]}", relevant=VALUE)
        x = strip(ref)
        okr = None
        if x.op == "min":
            rest = [y for y in x.args if not match(y, was)]
            okr = len(rest) == 1 and len(x.args) == 2
            if okr:
                y = unsat(rest[0])
                if y.op == "m" and y.args[0] in ("saturating_mul_int", "checked_mul_int"):
                    fee = y.args[2]
                    okr = match(y.args[1], mk("fld", t[1], "1")) and called("weight_to_fee")(fee) and ismin(strip(plain(fee)[0]))
                else:
                    okr = None
        elif match(x, was) or unsat(x).op == "m" and unsat(x).args[0] in ("saturating_mul_int", "checked_mul_int"):
            okr = False
        ctx.judge(r, q, "amount refunded", okr, lambda: f"refunded: {show(ref)[:120]}", relevant=VALUE)
        if removed:
            zero = any(p and f.op == "eq" and any(num(y) == 0 for y in f.args) and any(lin(y) == lin(t[2]) for y in f.args) for f, p in q.facts)
            ctx.judge(r, q, "payment forgotten when refunded", match(key, t[1]) and zero, "a payment is forgotten although it was not wholly refunded", relevant=VALUE)
    r, qs = method(ctx, "drop", "MultiCurrencyTrader")
    for q in qs:
        es = calls(q, "take_revenue")
        T = mk("fld", r.arg(0), "paid_assets")
        if len(es) != 1 or not es[0].loop:
            ctx.judge(r, q, "revenue taken", False if not es else None, f"revenue is taken {len(es)} times", relevant=VALUE)
            continue
        x = eargs(es[0])[0]
        if x.op != "tuple" or len(x.args) != 2:
            ctx.judge(r, q, "revenue taken", None, show(x)[:60])
            continue
        el = [n for n in find(x, lambda n: n.op == "idx" and n.args[0] is T)]
        ok = el and match(x.args[0], mk("fld", mk("fld", el[0], "0"), "0")) and match(x.args[1], mk("fld", el[0], "1"))
        ctx.judge(r, q, "revenue taken", bool(ok), lambda: f"the revenue is {show(x)[:80]}", eff=es[0], relevant=VALUE)
        for i in r.runs.it.loops_seen:
            ctx.judge(r, q, "all revenue", (getattr(i["seq"], "dom", None) is T and not i["breaks"]) or None, "not every payment is taken")
    r, qs = handler(ctx, AD, "take_revenue", "ToFeeReceiver")
    for q in qs:
        asset = r.arg(0)
        es = calls(q, "deposit_fee")
        fung = [p for f, p in q.facts if f.op == "is" and f.args[1] == "Fungible"]
        conv = [p for f, p in q.facts if f.op == "is" and f.args[1] in ("Some", "Ok") and called("convert")(f.args[0])]
        if True in fung and True in conv:
            ctx.judge(r, q, "revenue deposited", len(es) == 1, f"the revenue is deposited {len(es)} times", relevant=VALUE)
        for e in es:
            x = eargs(e)
            ok = len(x) == 3 and getter(x[0], "F") and converted(x[1], "convert", asset) and match(unsat(x[2]), mk("vfld", mk("fld", asset, "fun"), "Fungible", "0"))
            ctx.judge(r, q, "revenue of", ok, lambda: f"deposited: {show(x[2])[:50]} of {show(x[1])[:40]} to {show(x[0])[:40]}", eff=e, relevant=VALUE)


@guarded
def exchange(ctx):
    r, qs = handler(ctx, AD, "exchange_asset", "XcmAssetExchanger")
    for q in qs:
        if not q.p.ok:
            v = q.node.args[0] if q.node.op == "variant:Err" else None
            ctx.judge(r, q, "refused: everything given back", match(v, r.arg(1)) if v is not None else None, lambda: f"given back: {show(q.node)[:60]}", relevant=VALUE)
            continue
        give, want, maximal = r.arg(1), r.arg(2), r.arg(3)
        one = lambda w: any(p and f.op == "eq" and any(num(x) == 1 for x in f.args) and any(x.op in ("m", "len") and any(y is w for y in x.args) for x in f.args) for f, p in q.facts)
        ctx.judge(r, q, "one asset given", one(give) or None, "")
        ctx.judge(r, q, "one asset given for", one(give), "several assets given are exchanged as one", relevant=VALUE)
        ctx.judge(r, q, "one asset wanted", one(want), "several assets wanted are exchanged as one", relevant=VALUE)
        mx = q.holds(maximal)
        cs = calls(q, "sell") + calls(q, "buy")
        if len(cs) != 1:
            ctx.judge(r, q, "trade", False if not cs else None, f"{len(cs)} trades", relevant=VALUE)
            continue
        t = cs[0]
        x = eargs(t)
        if len(x) < 5:
            ctx.judge(r, q, "trade", None, f"{len(x)} arguments")
            continue
        sell = str(t.name).endswith("sell")
        ctx.judge(r, q, "direction of the trade", mx == sell if mx is not None else None, f"a {'sale' if sell else 'purchase'} when maximal is {mx}", eff=t, relevant=VALUE)
        ctx.judge(r, q, "trade required", okres(q, t), "a failed trade is ignored", eff=t, relevant=VALUE)
        gin = lambda n: n.op == "payload" and called("convert")(n.args[0]) and bool(find(n, lambda y: y is give))
        wout = lambda n: n.op == "payload" and called("convert")(n.args[0]) and bool(find(n, lambda y: y is want))
        amount_of = lambda w: lambda n: unsat(n).op == "vfld" and unsat(n).args[1] == "Fungible" and unsat(n).args[0].op == "fld" and unsat(n).args[0].args[1] == "fun" and bool(find(n, lambda y: y is w))
        ctx.judge(r, q, "assets traded", gin(x[1]) and wout(x[2]), lambda: f"traded: {show(x[1])[:50]} for {show(x[2])[:50]}", eff=t, relevant=VALUE)
        a, b = (give, want) if sell else (want, give)
        ctx.judge(r, q, "amounts traded", amount_of(a)(x[3]) and amount_of(b)(x[4]), lambda: f"amount {show(x[3])[:60]}, limit {show(x[4])[:60]}", eff=t, relevant=VALUE)
        tmp = lambda n: getter(n, "TempAccount")
        orig = [n for n in find(x[0], lambda n: getter(n, "TempAccount"))]
        ctx.judge(r, q, "trader", bool(orig), lambda: f"traded by {show(x[0])[:60]}", eff=t, relevant=VALUE)
        dep = [e for e in q.ext("deposit") if True]
        wd = [e for e in q.ext("withdraw")]
        ctx.judge(r, q, "given asset minted", len(dep) == 1, f"minted {len(dep)} times", relevant=VALUE)
        for e in dep:
            y = eargs(e)
            ctx.judge(r, q, "minted", gin(y[0]) and tmp(y[1]) and amount_of(give)(y[2]), lambda: f"minted: {show(y[2])[:40]} of {show(y[0])[:40]} to {show(y[1])[:40]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "minted before the trade", e.i < t.i, "the trade comes before the asset given", eff=e, relevant=VALUE)
        for e in dep + wd:
            ctx.judge(r, q, "transfer required", not q.failed(e) and q.certain(e) or None, "")
        # what leaves the account is what is handed over
        out = handed(q.node.args[0])
        if out is None:
            ctx.judge(r, q, "handed over", None, show(q.node)[:80])
            continue
        burnt = [(eargs(e), e) for e in wd]
        ctx.judge(r, q, "handed over once burnt", len(out) == len(burnt), lambda: f"{len(out)} assets handed over, {len(burnt)} burnt", relevant=VALUE)
        for y, e in burnt:
            bal = y[2]
            src = give if gin(y[0]) else want if wout(y[0]) else None
            isbal = unsat(bal).op == "ext" and "balance" in str(unsat(bal).args[0]) and match(plain(unsat(bal))[0], y[0]) and tmp(plain(unsat(bal))[1])
            ctx.judge(r, q, "burnt", src is not None and tmp(y[1]) and (isbal or None), lambda: f"burnt: {show(bal)[:60]} of {show(y[0])[:40]} from {show(y[1])[:40]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "burnt after the trade", e.i > t.i, "burnt before the trade", eff=e, relevant=VALUE)
            mine = [o for o in out if match(unsat(o[1]), unsat(bal)) and o[0].op == "fld" and o[0].args[1] == "id" and src is not None and bool(find(o[0], lambda n: n is src))]
            ctx.judge(r, q, "handed over", len(mine) == 1, lambda: f"handed over: {', '.join(show(o[1])[:50] + ' of ' + show(o[0])[-40:] for o in out)}", eff=e, relevant=VALUE)
        # nothing of the given asset may be left behind after a purchase
        if not sell and not [y for y, _ in burnt if gin(y[0])]:
            none = [p for f, p in q.facts if f.op in ("lt", "eq") and find(f, lambda n: n.op == "ext" and "balance" in str(n.args[0]) and gin(plain(n)[0]))]
            ctx.judge(r, q, "nothing left over", True if none else False, "what is left of the given asset is not returned", relevant=VALUE)


def handed(n):
    n = strip(n)
    while n.op in ("call", "m") and str(n.args[0]).split("::")[-1] in ("into", "from"):
        n = n.args[1]
    if n.op == "tuple" and len(n.args) == 2:
        return [(n.args[0], n.args[1])]
    if n.op == "list":
        out = [handed(x) for x in n.args]
        return None if any(x is None for x in out) else [y for x in out for y in x]
    if n.op == "push":
        a, b = handed(n.args[0]), handed(n.args[1])
        return None if a is None or b is None else a + b
    if n.op == "empty":
        return []
    return None


ALLOWED = {"ClearOrigin", "ExchangeAsset", "WithdrawAsset", "TransferAsset", "DepositAsset", "ExpectAsset", "SetFeesMode", "BuyExecution"}
NESTED = {"InitiateReserveWithdraw": "xcm", "DepositReserveAsset": "xcm", "TransferReserveAsset": "xcm"}


@guarded
def execfilter(ctx):
    REC = "check_instructions_recursively"
    fs = [f for f in ctx.pallet(AD).c.by_name.get(REC, []) if "tests" not in f.mod.path]
    if len(fs) != 1:
        # renamed or restructured: nothing is decided
        ctx.und.append("execution filter: not found")
        return
    r, qs = fnpaths(ctx, AD, REC, fn=fs[0], opaque=(REC,))
    depth = r.arg(1)
    ends = 0
    for q in qs:
        if num(q.node) == 0 or isF(q.node):
            continue
        if not isT(q.node):
            ctx.judge(r, q, "verdict", None, show(q.node)[:60])
            continue
        deep = any(not p and f.op == "lt" and getter(f.args[0], "MaxXcmDepth") and f.args[1] is depth for f, p in q.facts)
        ctx.judge(r, q, "depth limit", deep, "a message nested too deep is allowed", relevant=VALUE)
        alls = [f for f, p in q.facts if f.op == "all" and p]
        ctx.judge(r, q, "every instruction", True if alls else False if not r.runs.it.loops_seen else None, "a message is allowed without looking at its instructions", relevant=VALUE)
    for i in r.runs.it.loops_seen:
        if getattr(i["seq"], "dom", None) is None or not find(i["seq"].dom, lambda n: n is r.arg(0)):
            continue
        ctx.judge(r, None, "no early end", not i["breaks"] or None, "")
        for st in i["ends"]:
            ends += 1
            facts = tuple(st.facts)
            names = [f.args[1] for f, p in facts if f.op == "is" and p and f.args[0].op == "idx"]
            recs = [(f, p) for f, p in facts if called(REC)(f)]

            class Q:
                p = None
            Q.facts = facts
            P = type("P", (), {"facts": facts, "unknown": lambda self, *a: None})()
            nm = names[0] if len(names) == 1 else None
            if nm is None:
                ctx.judge(r, P, "instruction", False if not names and not recs else None, "instructions outside the list are allowed")
                continue
            if nm in NESTED:
                ok = [f for f, p in recs if p and bool(find(plain(f)[0], lambda n: n.op == "vfld" and n.args[1] == nm))]
                ctx.judge(r, P, "nested program", bool(ok), f"the program inside {nm} is not looked at")
                for f in ok:
                    x = plain(f)
                    dl = lsub(lin(x[1]), lin(depth))
                    ctx.judge(r, P, "nested depth", lin(x[1]) == ladd(lin(depth), lin(mk_one())), lambda: f"the depth of a nested program is {show(x[1])[:40]}")
                    ctx.judge(r, P, "instructions counted across programs", not (fields(x[2]) and num(next(iter(fields(x[2]).values()))) == 0), "a nested program starts counting anew")
            else:
                ctx.judge(r, P, "instruction", nm in ALLOWED, f"{nm} is allowed")
            lim = [(f, p) for f, p in facts if f.op == "lt" and getter(f.args[0], "MaxInstructions")]
            ctx.judge(r, P, "instruction limit", any(not p for _, p in lim), "the number of instructions is not limited")
            for f, p in lim:
                c = f.args[1]
                ok = c.op == "add" and any(num(x) == 1 for x in c.args) and bool(find(c, lambda n: n.op == "phi"))
                ctx.judge(r, P, "instructions counted", ok, lambda: f"the count is {show(c)[:60]}")
    if qs:
        ctx.judge(r, qs[-1], "instructions examined", ends > 0 or None, "no loop over the instructions")
    r, qs = handler(ctx, AD, "contains", "AllowTransferAndSwap")
    fs = ctx.pallet(AD).c.by_name.get("contains", [])
    fs = [f for f in fs if f.impl and tyname(f.impl["self"]) == "AllowTransferAndSwap"]
    if len(fs) == 1:
        r, qs = fnpaths(ctx, AD, "contains", fn=fs[0], opaque=(REC,))
        a = r.arg(0)
        for q in qs:
            here = [p for f, p in q.facts if f.op == "eq" and any(called("here")(x) for x in f.args) and any(match(x, mk("fld", a, "0")) for x in f.args)]
            rec = [n for n in find(q.node, called(REC))] + [n for f, p in q.facts if p for n in find(f, called(REC))]
            if isT(q.node) and not rec:
                ctx.judge(r, q, "local origin", True in here, "a message of another origin is allowed unexamined", relevant=VALUE)
                continue
            if isF(q.node):
                continue
            for n in rec:
                x = plain(n)
                ok = match(x[0], mk("fld", a, "1")) and num(x[1]) == 0
                cnt = fields(x[2])
                ctx.judge(r, q, "whole message examined", ok and (num(next(iter(cnt.values()))) == 0 if cnt else None), lambda: f"examined: {show(n)[-100:]}", relevant=VALUE)
            ctx.judge(r, q, "verdict", bool(rec) or None, lambda: show(q.node)[:60])


def mk_one():
    from vt.terms import const
    return const(1)


def xcm(pid, tier):
    ctx = Ctx(pid, tier)
    transactor(ctx)
    trader(ctx)
    exchange(ctx)
    execfilter(ctx)
    return ctx.done(RULE, ["assets of the XCM executor's holding are the executor's", "the currency implementations move exactly what they are told"])
