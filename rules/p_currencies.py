"""Currencies: one interface over the native currency and the token ledger."""
from rules.p_oracle import tyname
from rules.p_small import *

RULE = ("Every path of every method the multi-currency pallet implements is compared with the one call of the same operation on the native currency (exactly for the native asset) or on the token ledger, "
        "argument by argument, and with the answer given back; adapters likewise.")
PN = "currencies"
NATIVE = CFG("GetNativeCurrencyId")
SKIP = ("Hooks", "BuildGenesisConfig", "GenesisBuild")


def arms(ctx, owner):
    """the trait methods implemented for a type"""
    try:
        p = ctx.pallet(PN)
    except KeyError:
        return []
    out = []
    for n, fs in sorted(p.c.by_name.items()):
        for f in fs:
            if f.impl is None or f.impl["trait"] is None or tyname(f.impl["self"]) != owner or any(x in f.file for x in ("mock", "test", "weights", "benchmark")):
                continue
            if any(s in repr(f.impl["trait"]) for s in SKIP):
                continue
            out.append(f)
    return out


def params(f):
    return [mk("var", p[1]) for p, t in f.params if p[0] == "pid"], [tyname(t) for p, t in f.params if p[0] == "pid"]


def unwrapped(n):
    """the call an answer comes from"""
    while True:
        if n.op in ("variant:Ok", "variant:Err", "payload", "errof") and n.args:
            n = n.args[0]
        elif n.op == "m" and n.args[0] == "map" and match(n.args[-1], ("lam", "_", ("lamarg", ...))):
            n = n.args[1]
        else:
            return n


def result(ctx, r, q, f, call, what="answer"):
    """the answer is the call's own, or success with the call certain"""
    n = q.node
    u = unwrapped(n)
    if u.op == "ext":
        name, args = call
        ok = u.args[0] == name and len([a for a in u.args[1:] if not (isinstance(a, Node) and a.op == "at")]) >= len(args) and all(a is b for a, b in zip(u.args[1:], args))
    else:
        ok = None
    return ok


def answered(q, e):
    n = q.node
    u = unwrapped(n)
    return u.op == "ext" and u.args[0] == e.name and all(a is b for a, b in zip(u.args[1:], e.args))


def noop(g, f, amounts, parties):
    z = any(g.eq(a, mk("const", 0)) or g.eq(mk("const", 0), a) for a in amounts)
    same = len(parties) == 2 and g.eq(parties[0], parties[1])
    return z or same


AMOUNTS = ("Balance", "Amount", "BalanceOf", "AmountOf")


@guarded
def forward(ctx, owner, asset=None):
    for f in arms(ctx, owner):
        if f.name in ("transfer_all", "asset_exists", "handle_dust"):
            continue
        r, qs = fnpaths(ctx, PN, f.name, fn=f)
        ps, ts = params(f)
        ids = [k for k, t in enumerate(ts) if t in ("CurrencyId", "AssetId", "CurrencyIdOf")]
        if asset is None and len(ids) != 1:
            ctx.c["missing"] += 1
            ctx.und.append(f"{owner}::{f.name}: no asset parameter")
            continue
        amounts = [p for p, t in zip(ps, ts) if t in AMOUNTS]
        parties = [p for p, t in zip(ps, ts) if t == "AccountId"]
        for q in qs:
            one(ctx, r, q, f, asset, ps, ids, amounts, parties)


def at(xs, k):
    return xs[k] if k < len(xs) else None


@guarded
def one(ctx, r, q, f, asset, ps, ids, amounts, parties):
    g = G(r, q)
    if asset is None:
        a = ps[ids[0]]
        full, short = list(ps), [p for k, p in enumerate(ps) if k != ids[0]]
    else:
        a = next((x for n, _ in q.facts for x in find(n, lambda z: match(z, asset))), None) or next((x for e in q.eff for n in e.args if isinstance(n, Node) for x in find(n, lambda z: match(z, asset))), None)
        a = a or next(iter(find(q.node, lambda z: match(z, asset))), None)
        full = short = list(ps)
    native = True if g.eq(a, NATIVE) else False if g.ne(a, NATIVE) else None
    calls = [e for e in q.eff if e.kind == "ext" and e.name.split(".")[0] in ("NativeCurrency", "MultiCurrency")]
    u = unwrapped(q.node)
    if not calls and u.op == "ext" and u.args[0].split(".")[0] in ("NativeCurrency", "MultiCurrency"):
        name, args = u.args[0], [x for x in u.args[1:] if not (isinstance(x, Node) and x.op == "at")]
        read = True
    elif not calls:
        ok = q.node.op == "variant:Err" or noop(g, f, amounts, parties)
        ctx.judge(r, q, f"{f.name} performed", ok, "the operation is skipped", relevant=VALUE)
        return
    else:
        name, args, read = calls[0].name, list(calls[0].args), False
        ctx.judge(r, q, "one ledger operation", len(calls) == 1, lambda: f"{len(calls)} ledger operations", relevant=VALUE)
    side, op = name.split(".")[0], name.split(".")[-1]
    if native is None:
        ctx.judge(r, q, "which ledger", False, f"{name} is used without comparing the asset with the native one", relevant=VALUE)
        return
    ctx.judge(r, q, "the asset's ledger", side == ("NativeCurrency" if native else "MultiCurrency"), f"{name} is used for {'the native asset' if native else 'another asset'}", relevant=VALUE)
    ctx.judge(r, q, "the same operation", op == f.name, lambda: f"{f.name} performs {name}", relevant=VALUE)
    want = short if side == "NativeCurrency" else full
    if asset is not None and side == "MultiCurrency":
        ok = [x for x in args if x is not a and not match(x, asset)] == short and len(args) == len(short) + 1
    else:
        ok = len(args) == len(want) and all(x is y for x, y in zip(args, want))
    ctx.judge(r, q, "the same parties and amount", ok, lambda: f"{f.name} calls {name}({', '.join(show(x)[:60] for x in args)})", relevant=VALUE)
    if not read:
        err = any(n.op == "is" and (n.args[1] == "Ok" and not p or n.args[1] == "Err" and p) and unwrapped(n.args[0]).op == "ext" and unwrapped(n.args[0]).args[0] == name for n, p in q.facts)
        e = calls[0]
        if err:
            ctx.judge(r, q, "failure reported", q.node.op == "variant:Err" or answered(q, e), "a failed operation is reported as done", relevant=VALUE)
        else:
            ctx.judge(r, q, "its result", answered(q, e) or q.node.op == "variant:Ok" and q.certain(e, True), lambda: f"{f.name} answers {show(q.node)[:150]}", relevant=VALUE)
        for ev in q.ext(kind="event"):
            pass
        for ev in [x for x in q.eff if x.kind == "event"]:
            fs = fields(ev.args[0]) if ev.args else {}
            for k, v in fs.items():
                if v.op == "var" or match(v, ("call", ...)):
                    wantv = {"currency_id": a, "from": at(parties, 0), "who": at(parties, 0), "to": at(parties, 1), "amount": at(amounts, 0)}.get(k)
                    ctx.judge(r, q, "event", wantv is None or v is wantv or match(v, wantv), lambda: f"the event names {show(v)[:60]} as {k}", relevant=VALUE)
    else:
        ctx.judge(r, q, "its result", True, "")


EXTRA = {"transfer": "AllowDeath", "withdraw": "AllowDeath"}


@guarded
def adapter(ctx):
    for f in arms(ctx, "BasicCurrencyAdapter"):
        r, qs = fnpaths(ctx, PN, f.name, fn=f)
        ps, ts = params(f)
        for q in qs:
            adapted(ctx, r, q, f, ps)


@guarded
def adapted(ctx, r, q, f, ps):
    g = G(r, q)
    calls = [e for e in q.eff if e.kind == "ext" and e.name.startswith("Currency.")]
    u = unwrapped(q.node)
    if f.name == "handle_dust":
        ctx.judge(r, q, "dust", len(calls) == 1 and calls[0].name == "Currency.handle_dust" and match(calls[0].args[0], C("Dust", F(ps[0], "0"))), "dust is not handed on", relevant=VALUE)
        return
    if f.name == "update_balance":
        amount = ps[1]
        mag = lambda n: n is amount or has(n, lambda z: z is amount)
        pos = True if g.y(("m", "is_positive", amount)) or g.lt(0, amount) else False if g.n(("m", "is_positive", amount)) or g.le(amount, 0) else None
        if not calls:
            ctx.judge(r, q, "balance updated", q.node.op == "variant:Err" or noop(g, f, [x for n, p in q.facts for x in find(n, lambda z: mag(z))], []), "the balance is not updated", relevant=VALUE)
            return
        op = calls[0].name.split(".")[-1]
        ctx.judge(r, q, "direction", op == ("deposit_creating" if pos else "withdraw") if pos is not None else None, f"the balance is changed by {op}", relevant=VALUE)
        ctx.judge(r, q, "by the amount", len(calls) == 1 and calls[0].args[0] is ps[0] and mag(calls[0].args[1]), "another amount or account is updated", relevant=VALUE)
        return
    if f.name == "deposit":
        if not calls:
            ctx.judge(r, q, "deposited", noop(g, f, [ps[1]], []), "nothing is deposited", relevant=VALUE)
            return
        e = calls[0]
        ctx.judge(r, q, "deposited", len(calls) == 1 and e.name == "Currency.deposit_creating" and e.args[0] is ps[0] and e.args[1] is ps[1], "another amount or account receives the deposit", relevant=VALUE)
        if q.node.op == "variant:Ok":
            ctx.judge(r, q, "whole amount", any(p and n.op == "eq" and any(x is ps[1] for x in n.args) and any(match(x, ("m", "peek", X("deposit_creating", ps[0], ps[1]))) for x in n.args) for n, p in q.facts), "a partial deposit passes", relevant=VALUE)
        return
    if f.name == "ensure_can_withdraw":
        if q.node.op == "variant:Err" and u.op != "ext":
            ctx.judge(r, q, "refused", g.lt(X("free_balance", ps[0]), ps[1]), "a withdrawal is refused although the balance covers it", relevant=VALUE)
            return
        left = LIN((1, X("free_balance", ps[0])), (-1, ps[1]))
        ok = u.op == "ext" and match(u, X("ensure_can_withdraw", ps[0], ps[1], "_", left))
        ctx.judge(r, q, "ensured", ok and g.le(ps[1], X("free_balance", ps[0])), "the withdrawal is not ensured", relevant=VALUE)
        return
    if calls:
        e = calls[0]
        name, args = e.name, list(e.args)
        ctx.judge(r, q, "one operation", len(calls) == 1, "more than one operation", relevant=VALUE)
    elif (q.node if q.node.op == "fld" else u).op in ("ext", "fld"):
        z = u.args[0] if u.op == "fld" else u
        name, args = z.args[0], [x for x in z.args[1:] if not (isinstance(x, Node) and x.op == "at")]
        e = None
    else:
        ctx.judge(r, q, f"{f.name} performed", False, "the operation is skipped", relevant=VALUE)
        return
    ctx.judge(r, q, "the same operation", name == "Currency." + f.name, lambda: f"{f.name} performs {name}", relevant=VALUE)
    ok = len(args) >= len(ps) and all(x is y for x, y in zip(args, ps))
    ctx.judge(r, q, "the same parties and amount", ok, lambda: f"{f.name} calls {name}({', '.join(show(x)[:60] for x in args)})", relevant=VALUE)
    if f.name in EXTRA:
        ctx.judge(r, q, "allow death", any(x.op.endswith(EXTRA[f.name]) for x in args if isinstance(x, Node)), f"{f.name} can be refused for the last balance", relevant=VALUE)
    if f.name in ("slash", "slash_reserved", "slash_reserved_named"):
        ctx.judge(r, q, "what was not slashed", match(q.node, F(X(f.name, *ps), "1")), lambda: f"{f.name} answers {show(q.node)[:120]}", relevant=VALUE)
    elif e is not None:
        failed = any(n.op == "is" and (n.args[1] == "Ok" and not p or n.args[1] == "Err" and p) for n, p in q.facts)
        ctx.judge(r, q, "its result", (q.node.op == "variant:Err" or answered(q, e)) if failed else (answered(q, e) or q.node.op == "variant:Ok"), "a failed operation is reported as done", relevant=VALUE)


@guarded
def whole(ctx):
    r = ctx.fn(PN, "transfer_all")
    for q in (r.paths if r is not None else []):
        src, dst = r.arg(0), r.arg(1)
        t, n = q.ext("MultiCurrency.transfer_all"), q.ext("NativeCurrency.transfer")
        ctx.judge(r, q, "all tokens", len(t) == 1 and t[0].args[0] is src and t[0].args[1] is dst and q.certain(t[0], True), "tokens stay behind", relevant=VALUE)
        ctx.judge(r, q, "all native currency", len(n) == 1 and n[0].args[0] is src and n[0].args[1] is dst and match(n[0].args[2], X("free_balance", src)) and q.certain(n[0]), "native currency stays behind", relevant=VALUE)
    for f in arms(ctx, "FungibleCurrencies"):
        if f.name not in ("asset_exists", "handle_dust"):
            continue
        r, qs = fnpaths(ctx, PN, f.name, fn=f)
        for q in qs:
            g = G(r, q)
            p0 = params(f)[0][0]
            a = p0 if f.name == "asset_exists" else F(p0, "0")
            native = True if g.eq(a, NATIVE) else False if g.ne(a, NATIVE) else None
            if f.name == "asset_exists":
                ok = isT(q.node) if native else match(q.node, X("asset_exists", p0)) if native is False else match(q.node, ("or", "_", "_")) or None
                ctx.judge(r, q, "asset exists", ok, lambda: f"existence is answered with {show(q.node)[:100]}", relevant=VALUE)
            else:
                es = q.ext("handle_dust")
                want = C("Dust", F(p0, "1")) if native else C("Dust", F(p0, "0"), F(p0, "1"))
                ok = native is not None and len(es) == 1 and es[0].name.split(".")[0] == ("NativeCurrency" if native else "MultiCurrency") and match(es[0].args[0], want)
                ctx.judge(r, q, "dust", ok, "dust is handed to the wrong ledger", relevant=VALUE)


@guarded
def calls(ctx):
    for f in ("transfer", "transfer_native_currency", "update_balance"):
        r = ctx.fn(PN, f)
        for q in (r.paths if r is not None else []):
            g = G(r, q)
            dest = PL(X("lookup", r.arg(0)))
            if f == "transfer_native_currency":
                es = q.ext("NativeCurrency.transfer")
                ok = len(es) == 1 and es[0].args[0] is g.who and match(es[0].args[1], dest) and es[0].args[2] is r.arg(1) and q.certain(es[0], True)
                ctx.judge(r, q, "transfer", ok and g.who is not None, "native currency is moved otherwise than signed", relevant=VALUE)
            elif f == "transfer":
                es = [e for e in q.eff if e.kind == "ext" and e.name.endswith(".transfer")]
                if not es:
                    ctx.judge(r, q, "transfer", noop(g, None, [r.arg(2)], [dest, g.who]), "nothing is transferred", relevant=VALUE)
                    continue
                args = list(es[0].args)
                rest = args[1:] if es[0].name.startswith("Multi") else args
                ok = len(es) == 1 and q.certain(es[0], True) and rest[0] is g.who and match(rest[1], dest) and rest[2] is r.arg(2) and (len(rest) == len(args) or args[0] is r.arg(1))
                ctx.judge(r, q, "transfer", ok and g.who is not None, lambda: f"the transfer is {es[0]!r}", relevant=VALUE)
            else:
                es = [e for e in q.eff if e.kind == "ext" and e.name.endswith(".update_balance")]
                args = list(es[0].args) if es else []
                rest = args[1:] if es and es[0].name.startswith("Multi") else args
                ok = len(es) == 1 and q.certain(es[0], True) and match(rest[0], dest) and rest[1] is r.arg(2)
                ctx.judge(r, q, "update", ok, "another balance is updated", relevant=VALUE)


def currencies(pid, tier):
    ctx = Ctx(pid, tier)
    forward(ctx, "Pallet")
    forward(ctx, "FungibleCurrencies")
    forward(ctx, "Currency", asset=("call", lambda n: str(n).endswith("GetCurrencyId::get") if not isinstance(n, Node) else False, ...))
    adapter(ctx)
    whole(ctx)
    calls(ctx)
    return ctx.done(RULE, [])
