"""Transaction fees in other currencies: which currency pays, how much is taken, given back and passed on."""
from rules.p_oracle import tyname
from rules.p_lmcalls import acts
from rules.p_small import *

RULE = ("Every path of the fee handlers, dispatchables, hooks and permit dispatch of the payment pallet is compared with the specified currency, amounts and storage updates; amounts are matched as "
        "floored products with the price source the path's lookups select, and the accepted-currency condition must follow from the path.")
PN = "transaction-multi-payment"
NATIVE = CFG("NativeAssetId")
ONE18 = 10 ** 18
BATCHES = ("batch", "batch_all", "force_batch")


def impl(ctx, name, trait, owner=None):
    """the function a type provides for a trait"""
    try:
        p = ctx.pallet(PN)
    except KeyError:
        return None
    fs = [f for f in p.c.by_name.get(name, []) if f.impl is not None and f.impl["trait"] and f.impl["trait"][-1][0] == trait and not any(x in f.file for x in ("mock", "test"))
          and (owner is None or tyname(f.impl["self"]) == owner)]
    return fs[0] if len(fs) == 1 else None


def paths(ctx, name, trait, owner=None):
    f = impl(ctx, name, trait, owner)
    if f is None:
        ctx.c["missing"] += 1
        ctx.und.append(f"{PN}: {trait}::{name}: not found")
        return None, []
    return fnpaths(ctx, PN, name, fn=f)




def under(n):
    while n.op in ("m", "call") and len(n.args) == 2 and str(n.args[0]).split("::")[-1] in ("into", "from", "clone") and isinstance(n.args[1], Node):
        n = n.args[1]
    return n


def sub(of):
    return PL(("m", "is_sub_type", of))


def vf(n, v, f):
    return ("vfld", n, v, f)


def wanted(q, call):
    """the currency the call asks for, None when it asks for none, False when the path does not say"""
    pos = lambda n, v: any(p and match(x, ("is", n, v)) for x, p in q.facts)
    neg = lambda n, v: any(not p and match(x, ("is", n, v)) for x, p in q.facts)
    s = sub(call)
    if neg(("m", "is_sub_type", call), "Some"):
        return None
    if pos(s, "set_currency"):
        return vf(s, "set_currency", "currency")
    if not neg(s, "set_currency"):
        return False
    b = next((b for b in BATCHES if pos(s, b)), None)
    if b is None:
        return None if all(neg(s, b) for b in BATCHES) else False
    calls = vf(s, b, "calls")
    first = ("m", "first", calls)
    alts = [(first, PL(first)), (("m", "get", calls, 0), PL(("m", "get", calls, 0)))]
    for f, x in alts:
        if neg(f, "Some"):
            return None
        if pos(f, "Some"):
            y = sub(x)
            if neg(("m", "is_sub_type", x), "Some") or neg(y, "set_currency"):
                return None
            if pos(y, "set_currency"):
                return vf(y, "set_currency", "currency")
    others = [n for n, p in q.facts if n.op == "is" and has(n, lambda z: z.op == "m" and match(z.args[1], calls) if len(z.args) > 1 else False)]
    return "unasked" if others and not any(has(n, lambda z: z.op == "m" and z.args[0] in ("first", "get", "next")) for n in others) else False


def account(g, who):
    """the currency set for an account"""
    c = ST("AccountCurrencyMap", who)
    return PL(c) if g.some(c) else NATIVE if g.none(c) else None


def accepted(g, c):
    s = ST("AcceptedCurrencies", c)
    return True if g.some(s) else False if g.none(s) else None


def oracle(c):
    return lambda n: n.op == "ext" and match(n, X("price", lambda x: x.op == "ext" and str(x.args[0]).endswith("get_route") and pair(x.args[1], c), ("variant:Short",)))


def pair(n, c):
    f = fields(n)
    return bool(f) and match(f.get("asset_in"), c) and match(f.get("asset_out"), NATIVE) or n.op in ("call", "m") and len(n.args) == 3 and match(n.args[1], c) and match(n.args[2], NATIVE)


def rational(c):
    P_ = PL(oracle(c))
    return lambda n: match(n, [("div", ("mul", ONE18, F(P_, "n")), F(P_, "d")), ("div", ("mul", F(P_, "n"), ONE18), F(P_, "d"))])


def source(g, c):
    """where the price of a currency comes from on this path"""
    cached, fall = ST("AcceptedCurrencyPrice", c), ST("AcceptedCurrencies", c)
    if g.eq(c, NATIVE):
        return "native", ONE18
    if g.some(cached):
        return "cache", PL(cached)
    if not g.none(cached):
        return None, None
    if any(p and n.op == "is" and n.args[1] == "Some" and oracle(c)(strip(n.args[0])) for n, p in g.q.facts):
        return "oracle", rational(c)
    if any(not p and n.op == "is" and n.args[1] == "Some" and oracle(c)(strip(n.args[0])) for n, p in g.q.facts):
        return "fallback", PL(fall)
    return None, None


def floor(amount, price):
    P_ = lambda n: match(n, price)
    return [lambda n: n.op == "div" and match(n, [("div", ("mul", amount, P_), ONE18), ("div", ("mul", P_, amount), ONE18)]), PL(("m", "checked_mul_int", P_, amount))] + ([amount] if price == ONE18 else [])


def converted(amount, price):
    """max(1, floor(amount * price))"""
    fl = floor(amount, price)
    P_ = lambda n: match(n, price)
    return [("max", 1, fl), ("max", fl, 1), PL(("m", "map", ("m", "checked_mul_int", P_, amount), ("lam", "_", [("max", 1, ("lamarg", ...)), ("max", ("lamarg", ...), 1)])))]


@guarded
def withdraw(ctx):
    r, qs = paths(ctx, "withdraw_fee", "OnChargeTransaction")
    for q in qs:
        if q.p.ok:
            wpath(ctx, r, q, *(r.arg(k) for k in (0, 1, 3)))


@guarded
def wpath(ctx, r, q, who, call, fee):
    g = G(r, q)
    val = q.node.args[0] if q.node.op == "variant:Ok" else q.node
    ws = q.ext("MC.withdraw")
    writes = [e for e in q.acts() if e.kind in ("write", "set", "event") or e.kind == "ext" and e.name.startswith("MC.") and e.name != "MC.withdraw"]
    ctx.judge(r, q, "nothing else changes", not writes, lambda: f"unexpected {writes[0]!r}", relevant=VALUE)
    if any(p and n.op == "eq" and any(num(x) == 0 for x in n.args) and fee in n.args for n, p in q.facts):
        ctx.judge(r, q, "no fee", not ws and match(val, ("variant:None",)), "something is taken or recorded for a fee of zero", relevant=VALUE)
        return
    if len(ws) != 1:
        ctx.judge(r, q, "fee taken once", False, f"a fee is withdrawn {len(ws)} times", relevant=VALUE)
        return
    w = ws[0]
    c = under(w.args[0])
    ctx.judge(r, q, "payer", match(w.args[1], who), lambda: f"the fee is taken from {show(w.args[1])[:80]}", relevant=VALUE, eff=w)
    ctx.judge(r, q, "withdrawal required", q.certain(w), "the transaction is admitted although the fee may not have been paid", relevant=VALUE, eff=w)
    want = wanted(q, call)
    acc = account(g, who)
    if want == "unasked":
        ctx.judge(r, q, "currency", False, "the currency depends on another than the first call of a batch", relevant=VALUE, eff=w)
    elif want is False:
        ctx.judge(r, q, "currency", None, "what the call asks for is not decided on the path")
    elif want is None:
        ctx.judge(r, q, "currency", None if acc is None else match(c, acc), lambda: f"the fee is paid in {show(c)[:100]} rather than in the account's currency", relevant=VALUE, eff=w)
    else:
        ctx.judge(r, q, "currency", match(c, want), lambda: f"the fee is paid in {show(c)[:100]} rather than in the currency the call sets", relevant=VALUE, eff=w)
    fine = acc is not None and match(c, acc) or g.eq(c, NATIVE) or accepted(g, c) or acc is not None and g.eq(c, acc) or match(c, NATIVE)
    ctx.judge(r, q, "accepted currency", fine, "the fee is taken in a currency that is neither native, accepted nor the account's own", relevant=(c,), eff=w, key="withdraw_fee|accepted currency")
    nat = match(c, NATIVE)
    src, price = ("native", ONE18) if nat else source(g, c)
    if src is None:
        ctx.judge(r, q, "price source", None, f"the source of the price is not decided on the path")
        return
    amount = converted(fee, price)
    ctx.judge(r, q, "fee at the price", match(w.args[2], amount), lambda: f"{show(w.args[2])[:160]} is taken instead of the fee at the {src} price, at least 1", relevant=VALUE, eff=w)
    info = val.args[0] if val.op == "variant:Some" else None
    if info is None:
        ctx.judge(r, q, "payment recorded", False if val.op == "variant:None" else None, "the payment is not recorded", relevant=VALUE)
        return
    if src == "native":
        ok = match(info, ("variant:Native", fee))
    else:
        isnat = False if g.ne(c, NATIVE) or acc is not None and match(c, acc) and g.ne(acc, NATIVE) else None
        ok = isnat is False and info.op == "variant:NonNative" and len(info.args) == 3 and match(info.args[0], amount) and under(info.args[1]) is c and match(info.args[2], price)
    ctx.judge(r, q, "payment recorded", ok, lambda: f"{show(info)[:160]} is recorded for a fee paid at the {src} price", relevant=VALUE)


@guarded
def correct(ctx):
    r, qs = paths(ctx, "correct_and_deposit_fee", "OnChargeTransaction")
    for q in qs:
        if q.p.ok:
            cpath(ctx, r, q, *(r.arg(k) for k in (0, 3, 4, 5)))


def less(a, b):
    return [("satsub", a, b), ("sat", ("sub", a, b))]


@guarded
def cpath(ctx, r, q, who, fee, tip, paid):
    g = G(r, q)
    recv = [("call", "FR::get"), CFG("FR")]
    MCD = "MC.deposit"
    moves = [e for e in q.eff if e.kind in ("write", "set") or e.kind == "ext" and e.name.startswith("MC.") or e.kind in ("call", "ext") and e.name.endswith(("deposit_fee",))]
    if g.none(paid):
        ctx.judge(r, q, "nothing paid", not moves, lambda: f"{moves[0]!r} although nothing was paid", relevant=VALUE)
        return
    P_ = PL(paid)
    if g.y(("is", P_, "Native")):
        cur, taken, due, t = NATIVE, field(P_, "Native", 0), fee, tip
    elif g.y(("is", P_, "NonNative")):
        cur, taken, price = [field(P_, "NonNative", k) for k in (1, 0, 2)]
        due, t = converted(fee, price), floor(tip, price)
    else:
        ctx.judge(r, q, "paid currency known", None, "which currency was paid is not decided on the path")
        return
    dep = [e for e in moves if e.name == MCD]
    fwd = [e for e in moves if e.name.endswith("deposit_fee")]
    rest = [e for e in moves if e not in dep + fwd]
    ctx.judge(r, q, "nothing else moves", not rest, lambda: f"unexpected {rest[0]!r}", relevant=VALUE)
    ok = len(dep) == 1 and match(under(dep[0].args[0]), cur) and match(dep[0].args[1], who) and match(dep[0].args[2], less(taken, due))
    zero = not dep and any(p and n.op == "eq" and any(num(x) == 0 for x in n.args) and any(match(x, less(taken, due)) for x in n.args) for n, p in q.facts)
    ctx.judge(r, q, "refund", ok or zero, lambda: f"the refund is {[show(a)[:90] for a in dep[0].args] if dep else 'not paid'}", relevant=VALUE, eff=dep[0] if dep else None)
    ok = len(fwd) == 1 and match(fwd[0].args[0], recv) and match(under(fwd[0].args[1]), cur) and match(fwd[0].args[2], forwarded(due, t))
    ctx.judge(r, q, "fee passed on", ok, lambda: f"the fee passed on is {[show(a)[:90] for a in fwd[0].args] if fwd else 'nothing'}", relevant=VALUE, eff=fwd[0] if fwd else None)
    for e in dep + fwd:
        ctx.judge(r, q, "failures reported", q.certain(e, any_=True) or g.ok(lambda n, e=e: n.op == "call" and n.args[0] == e.name and all(x is y for x, y in zip(n.args[1:], e.args))) or has(q.node, lambda n, e=e: n.op == "call" and n.args[0] == e.name), f"{e.name} may fail unnoticed", relevant=VALUE, eff=e)


def field(n, v, k):
    return lambda x: match(x, ("vfld", n, v, str(k))) or match(x, ("vfld", n, v, k))


def forwarded(due, tip):
    D_, T_ = (lambda n: match(n, due)), (lambda n: match(n, tip))
    s = ("satsub", D_, T_)
    return [("add", T_, s), ("add", s, T_), ("max", D_, T_), ("max", T_, D_), D_]


@guarded
def calls(ctx):
    r, qs = fnpaths(ctx, PN, "set_currency")
    for q in qs:
        if q.p.ok:
            g, c = G(r, q), r.arg(0)
            acts(ctx, r, q, [("account's currency", "write", "AccountCurrencyMap", [q.who, c])])
            ctx.judge(r, q, "native or accepted", g.eq(c, NATIVE) or accepted(g, c) is True, "a currency that is neither native nor accepted can be set", relevant=(c,))
    r, qs = fnpaths(ctx, PN, "add_currency")
    for q in qs:
        if q.p.ok:
            g, c = G(r, q), r.arg(0)
            acts(ctx, r, q, [("fallback price stored", "write", "AcceptedCurrencies", [c, [r.arg(1), ("variant:Some", r.arg(1))]])])
            ctx.judge(r, q, "not the native asset", g.ne(c, NATIVE), "the native asset can be added", relevant=(c,))
            ctx.judge(r, q, "not yet accepted", g.none(ST("AcceptedCurrencies", c)), "the fallback price of an accepted currency can be replaced", relevant=(c,))
    r, qs = fnpaths(ctx, PN, "remove_currency")
    for q in qs:
        if q.p.ok:
            g, c = G(r, q), r.arg(0)
            acts(ctx, r, q, [("removed", "write", "AcceptedCurrencies", [c, ("removed",)])])
            ctx.judge(r, q, "accepted before", accepted(g, c) is True, "a currency that is not accepted can be removed", relevant=(c,))
    r, qs = fnpaths(ctx, PN, "reset_payment_currency")
    for q in qs:
        if q.p.ok:
            who = r.arg(0)
            evm = next((p for n, p in q.facts if match(n, X("is_evm_account", who))), None)
            if evm is None:
                ctx.judge(r, q, "EVM account known", False if q.writes() else None, "a payment currency is reset without asking whether the account is an EVM account", relevant=VALUE)
                continue
            e = [e for e in q.acts() if e.kind != "event" and not e.name.startswith("InspectEvmAccounts")]
            ok = len(e) == 1 and e[0].kind in ("write", "set") and e[0].name == "AccountCurrencyMap" and match(e[0].args[0], who) and match(e[0].args[1], CFG("EvmAssetId") if evm else ("removed",))
            ctx.judge(r, q, "reset", ok, lambda: f"an {'EVM' if evm else 'ordinary'} account's currency is reset by {e!r}", relevant=VALUE)


@guarded
def lookups(ctx):
    for nm, trait, arg in (("account_currency", None, 0), ("get", "AccountFeeCurrency", 0)):
        r, qs = fnpaths(ctx, PN, nm) if trait is None else paths(ctx, nm, trait)
        for q in qs:
            want = account(G(r, q), r.arg(0))
            ctx.judge(r, q, "account's currency or native", None if want is None else match(q.node, want), lambda: f"{show(q.node)[:100]} is the payment currency", relevant=VALUE)
    r, qs = paths(ctx, "price", "NativePriceOracle")
    for q in qs:
        g, c = G(r, q), r.arg(0)
        if g.eq(c, NATIVE):
            ok = match(q.node, ("variant:Some", ONE18))
        elif not g.ne(c, NATIVE):
            ok = None
        elif g.some(ST("AcceptedCurrencyPrice", c)):
            ok = match(q.node, [("variant:Some", PL(ST("AcceptedCurrencyPrice", c))), ST("AcceptedCurrencyPrice", c)])
        elif g.none(ST("AcceptedCurrencyPrice", c)):
            ok = bool(find(q.node, lambda n: rational(c)(strip(n)))) or q.node.op == "variant:None" or None
        else:
            ok = None
        ctx.judge(r, q, "price", ok, lambda: f"{show(q.node)[:140]} is reported as the price", relevant=VALUE)
    for nm, item in (("contains", "AcceptedCurrencies"),):
        r, qs = paths(ctx, nm, "Contains")
        for q in qs:
            s = ST(item, r.arg(0))
            g = G(r, q)
            ok = match(q.node, ("is", s, "Some")) or isT(q.node) and g.some(s) or isF(q.node) and g.none(s)
            ctx.judge(r, q, "accepted means listed", ok, lambda: f"{show(q.node)[:100]} says whether a currency is accepted", relevant=VALUE)
    r, qs = paths(ctx, "deposit_fee", "DepositFee", "DepositAll")
    for q in qs:
        if q.p.ok:
            d = q.ext("Currencies.deposit")
            ctx.judge(r, q, "deposited", len(d) == 1 and match(d[0].args[0], r.arg(1)) and match(d[0].args[1], r.arg(0)) and match(d[0].args[2], r.arg(2)), "the fee is not deposited to the receiver in its currency", relevant=VALUE)
            for e in d:
                ctx.judge(r, q, "deposit required", q.certain(e) or match(q.node, ("ext", ...)), "a failing deposit is not reported", relevant=VALUE, eff=e)


@guarded
def hooks(ctx):
    r, qs = fnpaths(ctx, PN, "on_initialize")
    for q in qs:
        ws = q.writes()
        ok = all(w.name == "AcceptedCurrencyPrice" for w in ws)
        ctx.judge(r, q, "only prices", ok, lambda: "on_initialize writes " + ", ".join(sorted({w.name for w in ws})), relevant=VALUE)
        for w in ws:
            if w.name != "AcceptedCurrencyPrice":
                continue
            c = w.args[0]
            item = c.args[0] if c.op == "fld" and c.args[1] == "0" else None
            if item is None or not has(item, lambda n: n.op == "stiter" and "AcceptedCurrencies" in n.args):
                ctx.judge(r, q, "for accepted currencies", None, f"a price is stored for {show(c)[:100]}", eff=w)
                continue
            fall = mk("fld", item, "1")
            v = w.args[1]
            o = rational(c)
            if match(v, fall):
                ok = True
                known = [p for n, p in iterfacts(q, w) if n.op == "is" and n.args[1] == "Some" and oracle(c)(strip(n.args[0]))]
                if known:
                    ok = not known[0]
            else:
                ok = o(strip(v)) or match(v, lambda n: n.op in ("ite", "unwrap_or") and has(n, lambda z: o(strip(z))) and has(n, lambda z: match(z, fall)))
            ctx.judge(r, q, "oracle or fallback price", ok, lambda: f"{show(v)[:140]} is stored as the price", relevant=VALUE, eff=w)
        ctx.judge(r, q, "prices stored", bool(ws) or None, "no prices are stored", relevant=VALUE)
    r, qs = fnpaths(ctx, PN, "on_finalize")
    for q in qs:
        ws = q.writes()
        ok = len(ws) == 1 and ws[0].name == "AcceptedCurrencyPrice" and any(a.op == "cleared" for a in ws[0].args)
        ctx.judge(r, q, "prices forgotten", ok if ws else False, lambda: f"at the end of a block {ws!r}", relevant=VALUE)


def iterfacts(q, w):
    return getattr(w, "facts", None) or q.facts


@guarded
def accounts(ctx):
    r, qs = paths(ctx, "happened", "Happened", "AddTxAssetOnAccount")
    for q in qs:
        g = G(r, q)
        who, cur = parts(r)
        if who is None:
            ctx.judge(r, q, "arguments", None, "unfamiliar arguments")
            break
        ws = q.writes()
        setit = g.none(ST("AccountCurrencyMap", who)) and accepted(g, cur) is True and zero(g, NATIVE, who)
        ctx.judge(r, q, "currency of a new account", (not ws or setit) and all(w.name == "AccountCurrencyMap" and match(w.args[0], who) and match(w.args[1], cur) for w in ws) and len(ws) <= 1,
                  "a payment currency is set on arrival of a token although the account has one, the token is not accepted or the account holds native currency", relevant=VALUE)
        if setit:
            ctx.judge(r, q, "set when due", len(ws) == 1, "the token is not made the payment currency", relevant=VALUE)
    r, qs = paths(ctx, "happened", "Happened", "RemoveTxAssetOnKilled")
    for q in qs:
        g = G(r, q)
        who, cur = parts(r)
        if who is None:
            break
        ws = q.writes()
        mine = PL(ST("AccountCurrencyMap", who))
        ex = next((p for n, p in q.facts if n.op in ("ext", "call") and str(n.args[0]).endswith("account_exists") and match(n.args[1], who)), None)
        due = ex is False or ex is True and zero(g, mine, who)
        ctx.judge(r, q, "currency of a dead account", (due or not ws) and len(ws) <= 1 and all(w.name == "AccountCurrencyMap" and match(w.args[0], who) and match(w.args[1], ("removed",)) for w in ws),
                  "the payment currency of an account that exists and still holds it is removed", relevant=VALUE)
        if due:
            ctx.judge(r, q, "removed when due", len(ws) == 1, "the payment currency of a dead account is kept", relevant=VALUE)


def parts(r):
    ps = [p for p, t in r.fn.params]
    if len(ps) != 1:
        return None, None
    for v in r.runs.paths:
        for n, _ in v.facts:
            for x in find(n, lambda z: z.op == "fld" and z.args[0].op == "var" and z.args[1] in ("0", "1")):
                a = x.args[0]
                return mk("fld", a, "0"), mk("fld", a, "1")
    return None, None


def zero(g, asset, who):
    b = X("total_balance", asset, who)
    return any(p and n.op == "eq" and any(num(x) == 0 for x in n.args) and any(match(x, b) for x in n.args) for n, p in g.q.facts)


@guarded
def convert(ctx):
    r, qs = paths(ctx, "try_convert", "TryConvert", "TryCallCurrency")
    for q in qs:
        g = G(r, q)
        want = wanted(q, r.arg(0))
        if want == "unasked":
            ctx.judge(r, q, "currency of the call", False, "the currency depends on another than the first call of a batch", relevant=VALUE)
        elif want is False:
            ctx.judge(r, q, "currency of the call", None, "what the call asks for is not decided on the path")
        elif want is None:
            ctx.judge(r, q, "no currency", q.node.op == "variant:Err", lambda: f"{show(q.node)[:100]} is taken as the currency of a call that sets none", relevant=VALUE)
        elif q.node.op == "variant:Ok":
            c = under(q.node.args[0])
            ctx.judge(r, q, "currency of the call", match(c, want), lambda: f"{show(c)[:100]} is taken as the currency the call sets", relevant=VALUE)
            ctx.judge(r, q, "accepted currency", g.eq(c, NATIVE) or accepted(g, c) is True, "a currency that is neither native nor accepted can pay", relevant=(c,), key="try_convert|accepted currency")
        else:
            ctx.judge(r, q, "accepted currency used", accepted(g, (lambda n: match(n, want))) is False or None, "the currency an accepted call sets is ignored")


@guarded
def permits(ctx):
    r, qs = fnpaths(ctx, PN, "dispatch_permit")
    for q in qs:
        if any(n.op == "origin" and not p for n, p in q.facts):
            continue
        permit(ctx, r, q)
    r, qs = fnpaths(ctx, PN, "validate_unsigned")
    for q in qs:
        validated(ctx, r, q)


ARGS = ("from", "to", "value", "data", "gas_limit", "deadline", "v", "r", "s")


def permitcurrency(g, q, data, acc):
    """the currency a permit pays in"""
    dec = [n.args[0] for n, p in q.facts if n.op == "is" and n.args[1] == "Ok" and n.args[0].op == "call" and str(n.args[0].args[0]).split("::")[-1].startswith("decode") and any(x is data for x in n.args[0].args[1:])]
    if not dec:
        return False
    if g.ok(dec[0]):
        t = X("try_convert", PL(dec[0]))
        if g.ok(t):
            return PL(t)
        if not g.n(("is", t, "Ok")):
            return False
    c = account(g, acc)
    return False if c is None else c


@guarded
def permit(ctx, r, q):
    g = G(r, q)
    a = {k: r.arg(i) for i, k in enumerate(ARGS)}
    v = X("validate_permit", *[a[k] for k in ("from", "to", "data", "value", "gas_limit", "deadline", "v", "r", "s")])
    ctx.judge(r, q, "never fails", q.p.ok, "a permit that passed validation fails, and its fee is not charged", relevant=VALUE)
    run = q.ext("EvmPermit.dispatch_permit")
    ws = q.writes()
    err = q.ext("EvmPermit.on_dispatch_permit_error")
    if not g.ok(v):
        bad = g.n(("is", v, "Ok"))
        ctx.judge(r, q, "valid permit", False if run or ws else bad or None, "a permit is executed without having been validated over all its fields", relevant=VALUE)
        if bad:
            ctx.judge(r, q, "invalid permit handled", bool(err), "the error handler is not told about an invalid permit", relevant=VALUE)
        return
    if len(run) != 1:
        ctx.judge(r, q, "executed once", False, f"a valid permit is executed {len(run)} times", relevant=VALUE)
        return
    e = run[0]
    args = [x for x in e.args]
    want = [a["from"], a["to"], a["data"], a["value"], a["gas_limit"], lambda n: n.op == "fld" and match(n.args[0], X("gas_price")) and n.args[1] == "0", ("variant:None",), "_", "_"]
    bad = [show(x)[:60] for x, w in zip(args, want) if w != "_" and not match(x, w)]
    ctx.judge(r, q, "as signed", not bad, lambda: f"the permit is executed with {bad}", relevant=VALUE, eff=e)
    acc = X("account_id", a["from"])
    cur = permitcurrency(g, q, a["data"], acc)
    ov = [w for w in ws if w.name == "TransactionCurrencyOverride"]
    other = [w for w in ws if w.name != "TransactionCurrencyOverride"]
    ctx.judge(r, q, "nothing else written", not other, lambda: f"unexpected {other[0]!r}", relevant=VALUE)
    order = [x for x in q.acts() if x in ov or x is e]
    ok = len(ov) == 2 and order == [ov[0], e, ov[1]] and all(match(w.args[0], acc) for w in ov) and match(ov[1].args[1], ("removed",)) and not match(ov[0].args[1], ("removed",))
    ctx.judge(r, q, "override for the execution only", ok, lambda: f"the currency override is not set before and removed after the execution: {ov!r}", relevant=VALUE, eff=e)
    if ok:
        ctx.judge(r, q, "override currency", None if cur is False else match(ov[0].args[1], cur), lambda: f"{show(ov[0].args[1])[:110]} is the currency of the execution", relevant=VALUE, eff=ov[0])
    failed = any(not p and n.op == "is" and n.args[1] == "Ok" and match(n.args[0], X("dispatch_permit", a["from"], ...)) for n, p in q.facts)
    runner = [p for n, p in q.facts if has(n, lambda z: "EvmPermitRunnerError" in str(z.op) + str(z.args))]
    if failed and runner:
        ctx.judge(r, q, "runner errors handled", bool(err) == runner[0], "the error handler is not told about a runner error, or about another one", relevant=VALUE)
    elif failed:
        ctx.judge(r, q, "runner errors handled", None, "which error occurred is not decided on the path")
    else:
        ctx.judge(r, q, "runner errors handled", not err, "the error handler is called although nothing failed", relevant=VALUE)


@guarded
def validated(ctx, r, q):
    g = G(r, q)
    call = r.arg(1)
    pos = g.y(("is", call, "dispatch_permit"))
    node = q.node
    valid = node.op == "m" and find(node, lambda n: n.op == "call" and "ValidTransaction" in str(n.args[0]) and "Invalid" not in str(n.args[0])) or "ValidTransaction" in node.op and "Invalid" not in node.op
    ws = [e for e in q.acts() if e.kind in ("write", "set") or e.kind == "ext" and not e.name.endswith(("permit_nonce", "gas_price", "account_id"))]
    ctx.judge(r, q, "validation leaves no trace", not ws, lambda: f"validating a transaction leaves {ws[0]!r}", relevant=VALUE)
    if not pos:
        ctx.judge(r, q, "only permits", not valid, "another unsigned call is accepted", relevant=VALUE)
        return
    a = {k: mk("vfld", call, "dispatch_permit", k) for k in ARGS}
    v = X("validate_permit", *[a[k] for k in ("from", "to", "data", "value", "gas_limit", "deadline", "v", "r", "s")])
    d = X("dispatch_permit", a["from"], a["to"], a["data"], a["value"], a["gas_limit"], ...)
    if valid:
        ctx.judge(r, q, "valid permit", g.ok(v), "an unsigned permit is admitted without having been validated over all its fields", relevant=VALUE)
        ctx.judge(r, q, "dry run succeeded", g.ok(d), "an unsigned permit is admitted although executing it may fail", relevant=VALUE)
        prov = find(node, lambda n: n.op == "m" and n.args[0] == "and_provides")
        n = X("permit_nonce", a["from"])
        want = lambda x: x.op in ("tup", "tuple") and len(x.args) == 2 and match(x.args[0], n) and match(x.args[1], a["from"])
        ctx.judge(r, q, "one per nonce", bool(prov) and all(want(p.args[2]) for p in prov) or (None if not prov else False), "admitted permits are not told apart by nonce and signer", relevant=VALUE)
    else:
        bad = g.n(("is", v, "Ok")) or g.n(("is", d, "Ok"))
        ctx.judge(r, q, "valid permits admitted", bad or None, "a permit is refused for another reason")


def payment(pid, tier):
    ctx = Ctx(pid, tier)
    withdraw(ctx)
    correct(ctx)
    calls(ctx)
    lookups(ctx)
    hooks(ctx)
    accounts(ctx)
    convert(ctx)
    permits(ctx)
    return ctx.done(RULE, ["a call converts to at most one of the payment and utility pallets' calls", "the runtime's permit handler honours its trait (see P29)"])
