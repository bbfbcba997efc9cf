"""Adapters and shared records: they pass on what they are given."""
from rules.p_small import *
from rules.p_answers import canon, equal, impls, known, plainly, some
from rules.p_evmfee import called
from vt.pallet import tyname
from vt.terms import const

RULE = ("Every path of each adapter is evaluated to the call it makes and every argument of it, of each record's constructor or conversion to its fields; they are "
        "compared with the arguments given, position by position and field by field.")
VALUE = ("free_balance",)


def fields(n):
    if not n.op.startswith("struct:"):
        return None
    ns = n.op.split(":")[-1].split(",")
    return dict(zip(ns, n.args)) if len(ns) == len(n.args) else None


def ledgers(ctx):
    """the native currency in its own ledger, every other asset in the ledger of many"""
    for fn, n in (("total_issuance", 1), ("minimum_balance", 1), ("total_balance", 2), ("balance", 2), ("reducible_balance", 4), ("can_deposit", 4), ("can_withdraw", 3), ("asset_exists", 1)):
        r, qs = impls(ctx, "runtime/adapters", fn, "MultiInspectAdapter")
        for q in qs:
            nat = [p for f, p in q.facts if f.op == "eq" and any(a is r.arg(0) for a in f.args) and any(called("GetNativeCurrencyId")(a) or "GetNativeCurrencyId" in show(a) for a in f.args)]
            got = strip(q.node)
            if got.op == "call":
                who, args = str(got.args[0]), [strip(a) for a in got.args[1:]]
                native = who.split("::")[0] == "NativeCurrency"
                multi = who.split("::")[0] == "MultiCurrency"
                if not native and not multi:
                    ctx.judge(r, q, f"{fn} is asked of the asset's own ledger", None, f"asked of {who}", relevant=VALUE)
                    continue
                want = [r.arg(i) for i in range(n)]
                want = want[1:] if native else want
                ok = who.split("::")[-1] == fn and args == want
                ctx.judge(r, q, f"{fn} is asked as it is", ok, lambda: f"answers {show(got)[:140]}", relevant=VALUE)
                ctx.judge(r, q, f"{fn} is asked of the asset's own ledger", nat == [native] if nat else None if q.facts else False, lambda: f"{who} is asked although the asset is {'not ' if native else ''}native", relevant=VALUE)
            elif fn == "asset_exists" and (isT(got) or isF(got)):
                asked = [p for f, p in q.facts if f.op == "call" and str(f.args[0]) == "MultiCurrency::asset_exists" and [strip(a) for a in f.args[1:]] == [r.arg(0)]]
                ok = nat == [True] and isT(got) or nat == [False] and asked == [isT(got)]
                plain = len(q.facts) == len(nat) + len(asked) and len(nat) < 2
                ctx.judge(r, q, "the native asset exists", ok or (False if plain else None), lambda: f"answers {show(got)}", relevant=VALUE)
            else:
                ctx.judge(r, q, f"{fn} is asked of the asset's own ledger", False if got.op in ("const", "arg") or num(got) is not None else None, lambda: f"answers {show(got)[:120]}", relevant=VALUE)


def registering(ctx):
    for fn, to, n, suf in (("register_insufficient_asset", "register_asset", 8, False), ("register_sufficient_asset", "register_asset", 8, True),
                           ("get_or_register_sufficient_asset", "get_or_register_asset", 7, True), ("get_or_register_insufficient_asset", "get_or_register_asset", 7, False)):
        r, qs = fnpaths(ctx, "traits", fn)
        for q in qs if r is not None else ():
            cs = [e for e in q.eff if e.kind == "call" and str(e.name).split("::")[-1] == to]
            if len(cs) != 1:
                ctx.judge(r, q, f"{fn} registers once", None if cs or q.eff else False, "nothing is registered", relevant=VALUE)
                continue
            args = [strip(a) for a in cs[0].args]
            if len(args) != n + 1:
                ctx.judge(r, q, f"{fn} passes on what it is given", None, f"{len(args)} arguments", relevant=VALUE)
                continue
            ed = 3 if n == 8 else 2
            bad = []
            for i in range(n):
                a = args[i].args[0] if i == ed and suf and args[i].op == "variant:Some" else args[i]
                if strip(a) is not r.arg(i):
                    bad.append((i, a))
            ctx.judge(r, q, f"{fn} passes on what it is given", not bad or (False if all(plainly(a) for _, a in bad) else None), lambda: f"argument {bad[0][0]} becomes {show(bad[0][1])[:80]}", relevant=VALUE)
            ctx.judge(r, q, f"{fn} registers what its name says", isT(args[n]) if suf else isF(args[n]), lambda: f"sufficient is {show(args[n])[:40]}", relevant=VALUE)


def judge_fields(ctx, r, q, title, want):
    g = fields(strip(q.node))
    if g is None:
        ctx.judge(r, q, title, None, f"answers {show(q.node)[:80]}", relevant=VALUE)
        return
    for f, w in want.items():
        if f not in g:
            ctx.judge(r, q, f"{title}: {f}", None, "no such field", relevant=VALUE)
            continue
        a = strip(g[f])
        a0 = a.args[0] if a.op == "sat" else a
        ok = a is w or (num(w) is not None and num(a) == num(w)) or equal(a0, w)
        ctx.judge(r, q, f"{title}: {f}", ok, lambda f=f: f"{f} becomes {show(g[f])[:100]}", relevant=VALUE)


def volumes(ctx):
    P = "traits"
    z = const(0)

    def fl(a, f):
        return mk("fld", a, f)
    r, qs = impls(ctx, P, "from_a_in_b_out", "Volume")
    for q in qs:
        judge_fields(ctx, r, q, "a trade from a to b", dict(a_in=r.arg(0), b_out=r.arg(1), a_out=z, b_in=z))
    r, qs = impls(ctx, P, "from_a_out_b_in", "Volume")
    for q in qs:
        judge_fields(ctx, r, q, "a trade from b to a", dict(a_out=r.arg(0), b_in=r.arg(1), a_in=z, b_out=z))
    r, qs = impls(ctx, P, "inverted", "Volume")
    for q in qs:
        s = r.arg(0)
        judge_fields(ctx, r, q, "a volume seen from the other asset", dict(a_in=fl(s, "b_in"), b_out=fl(s, "a_out"), a_out=fl(s, "b_out"), b_in=fl(s, "a_in")))
    r, qs = impls(ctx, P, "saturating_add", "Volume")
    for q in qs:
        a, b = r.arg(0), r.arg(1)
        judge_fields(ctx, r, q, "volumes add up", {f: mk("add", fl(a, f), fl(b, f)) for f in ("a_in", "b_out", "a_out", "b_in")})
    r, qs = impls(ctx, P, "cumulative_volume", "Volume")
    for q in qs:
        s, n = r.arg(0), strip(q.node)
        if n.op != "tuple" or len(n.args) != 2:
            ctx.judge(r, q, "a cumulative volume", None, "no pair", relevant=VALUE)
            continue
        for i, (x, y) in enumerate((("a_in", "a_out"), ("b_out", "b_in"))):
            a = strip(n.args[i])
            a = a.args[0] if a.op == "sat" else a
            ctx.judge(r, q, f"a cumulative volume is what went in and out of the asset ({i})", equal(a, mk("add", fl(s, x), fl(s, y))), lambda: f"it is {show(n)[:120]}", relevant=VALUE)
    # conversions
    order = {"Volume": ("a_in", "b_out", "a_out", "b_in"), "Liquidity": ("a", "b"), "AggregatedEntry": ("price", "volume", "liquidity", "oracle_age")}
    for f in ctx.pallet(P).c.by_name.get("from", []):
        if not f.mod.file.endswith("oracle.rs") or not f.impl:
            continue
        to = tyname(f.impl["self"]).split("<")[0]
        r, qs = fnpaths(ctx, P, "from", fn=f)
        for q in qs if r is not None else ():
            if to in order:
                judge_fields(ctx, r, q, f"a {to} made of its parts", {x: fl(r.arg(0), str(i)) for i, x in enumerate(order[to])})
                continue
            n = strip(q.node)
            if n.op != "tuple":
                continue
            for k, o in order.items():
                if len(o) == len(n.args) and all(strip(a).op == "fld" and strip(a).args[0] is r.arg(0) and strip(a).args[1] in o for a in n.args):
                    ctx.judge(r, q, f"the parts of a {k}", [strip(a).args[1] for a in n.args] == list(o), lambda: f"they are {show(n)[:120]}", relevant=VALUE)
                    break
            else:
                ctx.judge(r, q, "the parts of a record", None, f"they are {show(n)[:100]}", relevant=VALUE)


def whitelist(ctx):
    r, qs = impls(ctx, "duster", "contains", "DusterWhitelist")
    for q in qs:
        want = some(mk("st", "AccountBlacklist", r.arg(0)))
        n, k = canon(q.node), known(q, want)
        ok = True if n is canon(want) or k is not None and (isT(n) and k or isF(n) and not k) else False if isT(n) or isF(n) or n.op in ("is", "not") and plainly(n) else None
        ctx.judge(r, q, "an account is spared exactly if it is listed", ok, lambda: f"answers {show(q.node)[:80]}", relevant=VALUE)
    for fn, n in (("add_account", 0), ("add_nondustable_account", 0)):
        r, qs = impls(ctx, "duster", fn, "duster/src/lib.rs")
        for q in qs:
            ws = [e for e in q.eff if e.kind in ("write", "set") and str(e.name) == "AccountBlacklist"]
            ok = bool(ws) and strip(ws[-1].args[0]) is r.arg(n) and ws[-1].args[-1].op != "removed"
            ok = ok or (False if ws and ws[-1].args[-1].op == "removed" or all(e.kind in ("event", "origin", "loop", "write") for e in q.eff) else None)
            if q.p.ok:
                ctx.judge(r, q, "an added account is listed", ok, "it is not", relevant=VALUE)
    for fn, n in (("remove_account", 0), ("remove_nondustable_account", 0)):
        r, qs = impls(ctx, "duster", fn, "duster/src/lib.rs")
        for q in qs:
            rec = mk("st", "AccountBlacklist", r.arg(n))
            k = known(q, some(rec))
            k = known(q, some(mk("ret", "take", rec))) if k is None else k
            ws = [e for e in q.eff if e.kind in ("write", "set") and str(e.name) == "AccountBlacklist"]
            if q.p.ok:
                gone = bool(ws) and strip(ws[-1].args[0]) is r.arg(n) and (ws[-1].args[-1].op in ("removed", "variant:None", "none") or ws[-1].args[-1] is mk("mut", "take", rec))
                ctx.judge(r, q, "a removed account is no longer listed", gone or (False if not ws and all(e.kind in ("event", "origin", "loop") for e in q.eff) or ws and show(ws[-1].args[-1]) == "()" else None), lambda: f"it becomes {show(ws[-1].args[-1])[:60] if ws else 'nothing else'}", relevant=VALUE)
                ctx.judge(r, q, "only a listed account is removed", True if k is True else False if k is False else None, "one that is not is", relevant=VALUE)
            elif fn == "remove_account" or k is not None:
                ctx.judge(r, q, "a listed account can be removed", k is False or (False if k is True else None), "it is refused", relevant=VALUE)


def adapters(pid, tier):
    ctx = Ctx(pid, tier)
    for g in (ledgers, registering, volumes, whitelist):
        guarded(g)(ctx)
    return ctx.done(RULE)
