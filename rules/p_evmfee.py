"""Fees of EVM transactions: what is charged, returned and kept, and the gas price."""
from rules.p_oracle import tyname
from rules.p_formula import same as samefrac
from rules.p_small import *

RULE = ("Every path of the EVM fee handlers, of the conversion between fee currencies and of the gas price update is evaluated: the amounts charged, returned and passed on must be the ones the converted fee and the "
        "corrected fee determine, in the same currency, and the gas price must be the scaled and bounded default.")
RT = "runtime/hydradx"
AD = "runtime/adapters"


def handler(ctx, pn, name, self):
    fs = [f for f in ctx.pallet(pn).c.by_name.get(name, []) if f.impl and tyname(f.impl["self"]) == self and "tests" not in f.mod.path]
    if len(fs) != 1:
        ctx.c["missing"] += 1
        ctx.und.append(f"{self}::{name}: not found")
        return None, []
    return fnpaths(ctx, pn, name, fn=fs[0])


def same(a, b):
    return strip(a) is strip(b) or lin(strip(a)) == lin(strip(b))


def equal(q, a, b):
    h = [q.holds(mk("eq", a, b)), q.holds(mk("eq", b, a))]
    return True if True in h else False if False in h else None


def called(name):
    return lambda n: n.op in ("call", "ext") and str(n.args[0]).replace(".", "::").split("::")[-1] == name


def conversion(n):
    """the conversion call a converted amount comes from"""
    if n.op == "fld" and n.args[1] == "0" and n.args[0].op == "payload" and called("convert")(n.args[0].args[0]):
        return n.args[0].args[0]
    return None


def asked(c):
    """(from, to, amount) of a conversion"""
    a = [x for x in c.args[1:] if isinstance(x, Node) and x.op != "at"]
    if len(a) == 1 and a[0].op == "tuple":
        a = list(a[0].args)
    return a if len(a) == 3 else None


def account(n, who):
    return called("into_account_id")(n) and any(x is who for x in n.args)


def feecurrency(n, acc):
    return called("get")(n) and len([x for x in n.args[1:] if x.op != "at"]) == 1 and strip(n.args[1]) is strip(acc)


def evmcurrency(n):
    return called("get")(n) and not [x for x in n.args[1:] if x.op != "at"] or n.op == "cfg"


def judge_conversion(ctx, r, q, c, acc, amount):
    a = asked(c)
    if a is None:
        ctx.judge(r, q, "converted fee", None, show(c)[:100], relevant=VALUE)
        return
    ctx.judge(r, q, "converted fee", evmcurrency(a[0]) and feecurrency(a[1], acc) and match(a[2], amount),
              lambda: f"the fee charged is converted as {show(c)[:120]}", relevant=VALUE)


@guarded
def charge(ctx):
    """what is taken before execution"""
    r, qs = handler(ctx, RT, "withdraw_fee", "TransferEvmFees")
    for q in qs:
        who, fee = r.arg(0), r.arg(1)
        fl = q.flows(("MC",))
        if not q.p.ok:
            continue
        ctx.judge(r, q, "one charge", len(fl) <= 1, "the fee is taken more than once", relevant=VALUE)
        if not fl:
            zero = q.holds(mk("eq", ZERO, fee)) or q.le(fee, ZERO)
            ctx.judge(r, q, "charged", bool(zero), "a fee is not taken", eff=None, relevant=VALUE)
            ctx.judge(r, q, "nothing recorded", q.node.args and q.node.args[0].op == "variant:None" or None, show(q.node)[:80], relevant=VALUE)
            continue
        f = fl[0]
        if f.amount is None:
            ctx.judge(r, q, "charge", None, repr(f.eff)[:100], relevant=VALUE)
            continue
        ctx.judge(r, q, "payer", f.dst is None and f.src is not None and account(f.src, who), lambda: f"the fee is taken from {show(f.src)[:60] if f.src is not None else 'nobody'}", eff=f.eff, relevant=VALUE)
        if f.src is None:
            continue
        ctx.judge(r, q, "fee currency", feecurrency(f.asset, f.src), lambda: f"the fee is taken in {show(f.asset)[:80]}", eff=f.eff, relevant=VALUE)
        c = conversion(f.amount)
        ctx.judge(r, q, "amount charged", c is not None, lambda: f"the amount taken is {show(f.amount)[:100]}", eff=f.eff, relevant=VALUE)
        if c is None:
            continue
        judge_conversion(ctx, r, q, c, f.src, fee)
        ctx.judge(r, q, "nonzero", q.holds(mk("eq", ZERO, f.amount), False) or q.lt(ZERO, f.amount), "a fee that converts to zero is accepted", eff=f.eff, relevant=VALUE)
        a = f.eff.args
        ctx.judge(r, q, "exact", not any(isinstance(x, Node) and x.op == "variant:BestEffort" for x in a) and (any(isinstance(x, Node) and x.op == "variant:Exact" for x in a) or None), "a partial fee may be taken", eff=f.eff, relevant=VALUE)
        ctx.judge(r, q, "keeps holds", not any(isinstance(x, Node) and x.op == "variant:Force" for x in a), "held funds may be taken", eff=f.eff, relevant=VALUE)
        n = q.node
        while n.op in ("variant:Ok", "variant:Some"):
            n = n.args[0]
        g = fields(n)
        if not g:
            ctx.judge(r, q, "record", None, show(n)[:80], relevant=VALUE)
            continue
        ctx.judge(r, q, "recorded amount", match(g["amount"], f.amount) or g["amount"].op == "payload" and str(g["amount"].args[0].args[0]) == f.eff.name if g.get("amount") is not None else None,
                  lambda: f"{show(g['amount'])[:80]} is recorded as taken", relevant=VALUE)
        ctx.judge(r, q, "recorded currency", match(g["asset_id"], f.asset) if "asset_id" in g else None, lambda: f"{show(g['asset_id'])[:80]} is recorded as the currency", relevant=VALUE)
        ctx.judge(r, q, "recorded price", match(g["price"], mk("fld", mk("payload", c), "1")) if "price" in g else None, lambda: f"{show(g['price'])[:80]} is recorded as the price", relevant=VALUE)
    r, qs = handler(ctx, RT, "can_withdraw", "TransferEvmFees")
    for q in qs:
        if not q.p.ok:
            continue
        who, amount = r.arg(0), r.arg(1)
        us = [(x, f, p) for f, p in q.facts for x in find(f, called("can_withdraw"))]
        ctx.judge(r, q, "affordability", bool(us), "the balance is not looked at", relevant=VALUE)
        for x, f, p in us:
            a = [y for y in x.args[1:] if y.op != "at"]
            ctx.judge(r, q, "affordable", p if f.op == "is" and f.args[1] == "Ok" else not p if f.op == "is" and f.args[1] == "Err" else None, "an unaffordable fee passes", relevant=VALUE)
            if len(a) != 3:
                continue
            ctx.judge(r, q, "payer", account(a[1], who), lambda: f"the balance of {show(a[1])[:60]} is looked at", relevant=VALUE)
            ctx.judge(r, q, "fee currency", feecurrency(a[0], a[1]), lambda: f"the balance looked at is in {show(a[0])[:80]}", relevant=VALUE)
            c = conversion(a[2])
            ctx.judge(r, q, "amount checked", c is not None, lambda: f"the amount looked for is {show(a[2])[:100]}", relevant=VALUE)
            if c is not None:
                judge_conversion(ctx, r, q, c, a[1], amount)
                ctx.judge(r, q, "nonzero", q.holds(mk("eq", ZERO, a[2]), False) or q.lt(ZERO, a[2]), "a fee that converts to zero passes", relevant=VALUE)
            break
    r, qs = handler(ctx, RT, "get", "FeeCurrencyOverrideOrDefault")
    for q in qs:
        ov = [(f, p) for f, p in q.facts if f.op == "is" and called("tx_fee_currency_override")(f.args[0]) and f.args[1] == "Some"]
        if not ov:
            ctx.judge(r, q, "override", None if find(q.node, called("tx_fee_currency_override")) else False, "a currency override is not looked at", relevant=VALUE)
            continue
        f, p = ov[0]
        ctx.judge(r, q, "override", match(f.args[0].args[1], r.arg(0)) and (match(q.node, mk("payload", f.args[0])) if p else evmcurrency(q.node)), lambda: f"the fee currency is {show(q.node)[:80]}", relevant=VALUE)


def given(q, name):
    """the payments handed on"""
    return [e for e in q.eff if e.kind in ("call", "ext") and e.name.replace(".", "::").split("::")[-1] == name]


@guarded
def settle_fee(ctx):
    """what is returned and kept after execution"""
    r, qs = handler(ctx, RT, "correct_and_deposit_fee", "TransferEvmFees")
    for q in qs:
        who, fixed, paid = r.arg(0), r.arg(1), r.arg(3)
        some = [p for f, p in q.facts if f.op == "is" and f.args[0] is paid and f.args[1] == "Some"]
        on, fl = given(q, "on_unbalanced"), q.flows(("MC",))
        if not q.p.ok:
            ctx.judge(r, q, "settles", False, "an executed transaction's fee is not settled", relevant=VALUE)
            continue
        if some and not some[0]:
            ctx.judge(r, q, "nothing to settle", not on and not fl, "money appears for a fee never taken", relevant=VALUE)
            continue
        P = mk("payload", paid)
        amount, asset, price = (mk("fld", P, k) for k in ("amount", "asset_id", "price"))
        num_, den = mk("fld", price, "n"), mk("fld", price, "d")
        ctx.judge(r, q, "kept once", len(on) == 1, f"the kept fee is passed on {len(on)} times", relevant=VALUE)
        # a mint that failed moved nothing
        tried = [e for e in q.eff if e.kind == "ext" and e.name.split(".")[-1] in ("mint_into", "deposit")]
        back = ZERO
        for e in tried:
            a = [x for x in e.args if isinstance(x, Node)]
            ctx.judge(r, q, "returned to", account(a[1], who), lambda: f"the excess goes to {show(a[1])[:60]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "returned currency", a[0] is asset, lambda: f"the excess is returned in {show(a[0])[:60]}", eff=e, relevant=VALUE)
            conv = [x for x in find(a[2], lambda x: x.op in ("div", "cdiv")) if x.args[1] is den]
            want = [mk("satsub", amount, c) for c in conv] + [mk("sub", amount, c) for c in conv]
            good = [c for c in conv if c.op == "cdiv" and same(c.args[0], mk("mul", fixed, num_))]
            ok = bool(good) and (a[2] in want or same(a[2], mk("sub", amount, good[0])) and q.le(good[0], amount))
            ctx.judge(r, q, "amount returned", ok, lambda: f"{show(a[2])[:140]} is returned", eff=e, relevant=VALUE)
            res = mk("ext", e.name, *a)
            okf = [p for f, p in q.facts if f.op == "is" and f.args[1] == "Ok" and match(f.args[0], res)]
            if not okf:
                ctx.judge(r, q, "return may fail", False, "whether the excess was returned is not looked at", eff=e, relevant=VALUE)
            elif okf[0]:
                back = a[2]
        ctx.judge(r, q, "one return", len(tried) <= 1, "the excess is returned more than once", relevant=VALUE)
        if not tried:
            # only when the corrected fee cannot be converted
            why = any(f.op == "eq" and p and ZERO in f.args and den in f.args or f.op == "fits" and not p for f, p in q.facts)
            ctx.judge(r, q, "excess returned", why, "the excess is kept", relevant=VALUE)
        for e in on:
            g = fields(e.args[0]) if isinstance(e.args[0], Node) else {}
            if not g:
                ctx.judge(r, q, "kept payment", e.args[0] is P if back is ZERO else None, lambda: show(e.args[0])[:80], eff=e, relevant=VALUE)
                continue
            ctx.judge(r, q, "kept currency", g["asset_id"] is asset, lambda: f"the fee is kept in {show(g['asset_id'])[:60]}", eff=e, relevant=VALUE)
            v = unsat(g["amount"], tried, back)
            ok = same(v, mk("sub", amount, back)) or lin(v) == lsub(lin(amount), lin(back))
            ctx.judge(r, q, "amount kept", ok, lambda: f"{show(g['amount'])[:200]} is kept", eff=e, relevant=VALUE)
    r, qs = handler(ctx, RT, "pay_priority_fee", "TransferEvmFees")
    for q in qs:
        tip = r.arg(0)
        some = [p for f, p in q.facts if f.op == "is" and f.args[0] is tip and f.args[1] == "Some"]
        on = given(q, "on_unbalanced")
        if some and some[0]:
            ctx.judge(r, q, "tip kept", len(on) == 1 and on[0].args[0] is mk("payload", tip), "the tip is not passed on once", relevant=VALUE)
        else:
            ctx.judge(r, q, "no tip", not on, "money appears for no tip", relevant=VALUE)


def unsat(n, tried, back):
    """the amount kept: what a successful mint answered is what it was asked for, and nothing saturates below it"""
    if n.op == "sat":
        return unsat(n.args[0], tried, back)
    if n.op == "payload" and n.args[0].op == "ext" and tried and str(n.args[0].args[0]) == tried[0].name:
        return tried[0].args[2]
    if n.op in ("add", "sub", "satsub") and len(n.args) >= 2:
        a = [unsat(x, tried, back) for x in n.args]
        if n.op == "satsub" and a[0] is a[1]:
            return ZERO
        # amount - (amount - fee): the part returned is never more than the amount
        if n.op == "satsub" and a[1].op == "satsub" and a[1].args[0] is a[0]:
            return mk("sub", *a)
        return mk(n.op, *a)
    return n


@guarded
def treasury(ctx):
    """where the kept fees go"""
    r, qs = handler(ctx, RT, "on_nonzero_unbalanced", "DepositEvmFeeToTreasury")
    for q in qs:
        d = given(q, "deposit_fee")
        ctx.judge(r, q, "deposited", len(d) == 1, "the fee is not deposited once", relevant=VALUE)
        for e in d:
            a = [x for x in e.args if isinstance(x, Node)]
            ctx.judge(r, q, "treasury", find(a[0], lambda x: x.op == "call" and "Treasury" in str(x.args[0])) != [] or "reasury" in show(a[0]), lambda: f"the fee goes to {show(a[0])[:60]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "deposited fee", match(a[1], mk("fld", r.arg(0), "asset_id")) and match(a[2], mk("fld", r.arg(0), "amount")), lambda: f"{show(a[2])[:40]} of {show(a[1])[:40]} is deposited", eff=e, relevant=VALUE)
    fs = [f for f in ctx.pallet(RT).c.by_name.get("merge", []) if f.impl and tyname(f.impl["self"]) == "EvmPaymentInfo"]
    if len(fs) == 1:
        r, qs = fnpaths(ctx, RT, "merge", fn=fs[0])
        for q in qs:
            g, a, b = fields(q.node), r.arg(0), r.arg(1)
            ctx.judge(r, q, "merged amount", same(unsat(g["amount"], [], ZERO), mk("add", mk("fld", a, "amount"), mk("fld", b, "amount"))) if g else None, "two payments do not add", relevant=VALUE)
            ctx.judge(r, q, "merged currency", match(g["asset_id"], mk("fld", a, "asset_id")) if g else None, "the merged payment is in another currency", relevant=VALUE)
    fs = [f for f in ctx.pallet(RT).c.by_name.get("try_drop", []) if f.impl and tyname(f.impl["self"]) == "EvmPaymentInfo"]
    if len(fs) == 1:
        r, qs = fnpaths(ctx, RT, "try_drop", fn=fs[0])
        for q in qs:
            if q.node.op == "variant:Ok":
                ctx.judge(r, q, "dropped", q.holds(mk("eq", ZERO, mk("fld", r.arg(0), "amount"))), "a nonzero payment is dropped", relevant=VALUE)
            elif q.node.op == "variant:Err":
                ctx.judge(r, q, "handed back", match(q.node.args[0], r.arg(0)) or None, show(q.node)[:60], relevant=VALUE)


@guarded
def conversions(ctx):
    """amounts in another currency"""
    r, qs = handler(ctx, AD, "convert", "ConvertAmount")
    for q in qs:
        t = r.arg(0)
        src, dst, amount = (mk("fld", t, str(k)) for k in range(3))
        if q.node.op != "variant:Some" or not q.p.ok:
            continue
        v = q.node.args[0]
        if v.op != "tuple":
            ctx.judge(r, q, "converted", None, show(v)[:80], relevant=VALUE)
            continue
        if equal(q, src, dst):
            ctx.judge(r, q, "price of itself", num(v.args[1]) == 1 if num(v.args[1]) is not None else None, lambda: f"a currency costs {show(v.args[1])[:40]} of itself", relevant=VALUE)
            ctx.judge(r, q, "same currency", v.args[0] is amount, lambda: f"the amount becomes {show(v.args[0])[:80]}", relevant=VALUE)
            continue
        ps = find(v, called("get_price"))
        pp = ps[0] if ps else None
        if pp is None:
            ctx.judge(r, q, "price", False if v.args[0] is amount else None, "the amount is not converted", relevant=VALUE)
            continue
        a = [x for x in pp.args[1:] if x.op != "at"]
        ctx.judge(r, q, "price of target over source", len(a) == 2 and match(a[0], dst) and match(a[1], src), lambda: f"the price used is that of {', '.join(show(x)[:30] for x in a)}", relevant=VALUE)
        P = mk("payload", pp)
        want = mk("cdiv", mk("mul", amount, mk("fld", P, "n")), mk("fld", P, "d"))
        ctx.judge(r, q, "converted amount", same(v.args[0], want), lambda: f"the amount becomes {show(v.args[0])[:140]}", relevant=VALUE)
        ctx.judge(r, q, "price given", match(v.args[1], P), lambda: f"the price given is {show(v.args[1])[:100]}", relevant=VALUE)
    r, qs = handler(ctx, AD, "get_price", "OraclePriceProviderUsingRoute")
    for q in qs:
        n = q.node
        if not called("price")(n):
            ctx.judge(r, q, "route price", None, show(n)[:80], relevant=VALUE)
            continue
        gs = find(n, called("get_route"))
        g = fields(gs[0].args[1]) if gs else {}
        ctx.judge(r, q, "route price", match(g.get("asset_in"), r.arg(0)) and match(g.get("asset_out"), r.arg(1)) if len(g) == 2 else None, lambda: f"the price is that of the route {show(n)[:120]}", relevant=VALUE)
        per = [x for x in n.args[1:] if x.op != "at"]
        ctx.judge(r, q, "period", True if len(per) == 2 and called("get")(per[1]) else None, show(n)[:80], relevant=VALUE)
    r, qs = handler(ctx, AD, "get_balance_in_currency", "FeeAssetBalanceInCurrency")
    for q in qs:
        to, who = r.arg(0), r.arg(1)
        if q.node.op != "tuple":
            ctx.judge(r, q, "balance", None, show(q.node)[:80], relevant=VALUE)
            continue
        v = q.node.args[0]
        bs = find(mk("t", v, *[f for f, p in q.facts]), called("reducible_balance"))
        cv = [(f.args[0], p) for f, p in q.facts if f.op == "is" and called("convert")(f.args[0]) and f.args[1] == "Some"]
        if len(bs) != 1:
            ctx.judge(r, q, "balance", None, show(v)[:80], relevant=VALUE)
            continue
        b = bs[0]
        a = [x for x in b.args[1:] if x.op != "at"]
        ctx.judge(r, q, "balance of the account", feecurrency(a[0], who) and match(a[1], who), lambda: f"the balance is {show(b)[:100]}", relevant=VALUE)
        if not cv:
            ctx.judge(r, q, "same currency", match(v, b) and equal(q, to, a[0]), lambda: f"the balance given is {show(v)[:80]}", relevant=VALUE)
        elif cv[0][1]:
            t = asked(cv[0][0])
            ctx.judge(r, q, "converted balance", match(v, mk("fld", mk("payload", cv[0][0]), "0")) and t is not None and match(t[0], a[0]) and match(t[1], to) and match(t[2], b), lambda: f"the balance given is {show(v)[:120]}", relevant=VALUE)
        else:
            ctx.judge(r, q, "unknown price", v is ZERO, lambda: f"without a price the balance is {show(v)[:80]}", relevant=VALUE)


def unclamp(n):
    """(value, low, high) of a bounded value"""
    def cfg(x):
        return x.op == "cfg"
    if n.op not in ("min", "max"):
        return None
    for a, b in (n.args, n.args[::-1]):
        if cfg(a) and b.op in ("min", "max") and b.op != n.op:
            for c, d in (b.args, b.args[::-1]):
                if cfg(c) and not cfg(d):
                    return (d, c, a) if n.op == "min" else (d, a, c)
    return None


@guarded
def gasprice(ctx):
    """the price of gas"""
    r, qs = fnpaths(ctx, "dynamic-evm-fee", "on_initialize")
    reached = False
    for q in qs:
        ws = q.writes("BaseFeePerGas")
        prices = [(f.args[0], p) for f, p in q.facts if f.op == "is" and called("price")(f.args[0]) and f.args[1] in ("Some", "Ok")]
        known = prices and prices[0][1]
        if not ws:
            lost = not known or any(f.op == "fits" and not p or f.op == "eq" and p and ZERO in f.args for f, p in q.facts)
            ctx.judge(r, q, "updated", lost, "the gas price is not updated although a price is known", relevant=VALUE)
            continue
        ctx.judge(r, q, "one update", len(ws) == 1, "the gas price is written more than once", relevant=VALUE)
        v = ws[-1].args[-1]
        ctx.judge(r, q, "price known", bool(known), "the gas price is changed without a price", eff=ws[-1], relevant=VALUE)
        if not known:
            continue
        reached = True
        c = unclamp(v)
        ctx.judge(r, q, "follows the present price", not find(v, lambda y: y.op == "st"), lambda: f"the gas price becomes {show(v)[:120]}", eff=ws[-1], relevant=VALUE)
        if c is None:
            ctx.judge(r, q, "bounded", None if v.op in ("min", "max", "ite", "m") else False, lambda: f"the gas price becomes {show(v)[:120]}", eff=ws[-1], relevant=VALUE)
            continue
        x, lo, hi = c
        ctx.judge(r, q, "bounds", str(lo.args[0]) == "MinBaseFeePerGas" and str(hi.args[0]) == "MaxBaseFeePerGas", lambda: f"the gas price is kept between {show(lo)} and {show(hi)}", eff=ws[-1], relevant=VALUE)
        P = mk("payload", prices[0][0])
        ctx.judge(r, q, "price of", [str(y.args[0]) for y in prices[0][0].args[1:] if y.op == "cfg"] == ["WethAssetId"], "the price is of another asset", eff=ws[-1], relevant=VALUE)
        D, M = mk("cfg", "DefaultBaseFeePerGas"), mk("cfg", "FeeMultiplier")
        leaves = find(v, lambda y: y.op == "cfg")
        D = next((y for y in leaves if str(y.args[0]) == "DefaultBaseFeePerGas"), D)
        M = next((y for y in leaves if str(y.args[0]) == "FeeMultiplier"), M)
        k = const
        E18 = k(10**18)
        want = mk("div", mk("mul", mk("add", D, mk("div", mk("mul", k(3), mk("mul", M, D)), E18)), mk("div", mk("fld", P, "n"), mk("fld", P, "d"))), mk("div", k(8945857934143137845), E18))
        ok = samefrac(x, want)
        ctx.judge(r, q, "gas price", ok, lambda: f"the gas price becomes {show(x)[:200]}", eff=ws[-1], relevant=VALUE)
    if r is not None and qs:
        ctx.judge(r, qs[-1], "follows the price", reached or None, "no path updates the gas price", relevant=VALUE)
    r, qs = fnpaths(ctx, "dynamic-evm-fee", "min_gas_price")
    for q in qs:
        v = q.node.args[0] if q.node.op == "tuple" else None
        ctx.judge(r, q, "gas price asked", None if v is None else match(v, ST("BaseFeePerGas")), lambda: f"the gas price asked is {show(v)[:60]}", relevant=VALUE)


def fees(pid, tier):
    ctx = Ctx(pid, tier)
    charge(ctx)
    settle_fee(ctx)
    treasury(ctx)
    conversions(ctx)
    gasprice(ctx)
    return ctx.done(RULE, ["the EVM pallet calls the fee handlers in its documented order"])
