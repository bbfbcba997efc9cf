"""Settlement of OTC orders against the router."""
from rules.p_evmfee import called
from rules.p_hooks import calls, eargs, okres
from rules.p_formula import same
from rules.p_small import *
from vt.terms import const

RULE = ("Every path of the settlement, of the validation of unsigned settlements and of the off-chain search is evaluated: what is minted, filled, sold, paid out and burnt, which balances and prices "
        "a success requires, and which amount the search submits.")
PN = "otc-settlements"
VALUE = ("into_account_truncating",)
MOVES = ("mint_into", "burn_from", "transfer", "sell", "buy", "fill_order", "partial_fill_order", "deposit", "withdraw", "place_order", "cancel_order", "shelve", "restore", "set_balance")


def last(e):
    return str(e.name).replace(".", "::").split("::")[-1]


def signed(n):
    """the account of a signed origin"""
    n = strip(n)
    while n.op == "call" and len(n.args) == 2 and str(n.args[0]).split("::")[-1] in ("into", "from", "Signed", "signed"):
        n = n.args[1]
    if n.op.startswith("variant:Signed"):
        n = n.args[0]
    return n


def isacc(n):
    n = strip(n)
    return n.op in ("m", "call") and str(n.args[0]).split("::")[-1] == "into_account_truncating"


def balance(n):
    """(asset, account, epoch) of a balance read"""
    if n.op == "ext" and str(n.args[0]).split(".")[-1] in ("balance", "total_balance", "free_balance"):
        a = [x for x in n.args[1:] if x.op != "at"]
        e = [x.args[0] for x in n.args[1:] if x.op == "at"]
        return (a[0], a[1], e[0]) if len(a) == 2 and e else None


def diffof(n, T):
    """n = balance(T) later - balance(T) earlier - rest: (later, earlier, rest) with rest a linear form, or None"""
    b = find(n, lambda x: balance(x) is not None and match(balance(x)[0], T) and isacc(balance(x)[1]))
    b = {x.id: x for x in b}
    if len(b) != 2:
        return None
    x, y = sorted(b.values(), key=lambda x: balance(x)[2])
    n = n if n.op != "satsub" else mk("sub", *n.args)
    rest = lsub(lsub(lin(n), lin(y)), {k: -v for k, v in lin(x).items()})
    return y, x, rest


def plainly(n, r, O):
    """is the value plain arithmetic over the order, the amount, configured constants and balances of the pallet"""
    if n.op in ("add", "sub", "mul", "div", "satsub", "min", "max", "sat"):
        return all(plainly(x, r, O) for x in n.args)
    return n.op in ("const", "cfg") or balance(n) is not None or n is r.arg(1) or n.op == "fld" and n.args[0] is O


def order(q, otc):
    """the stored order the path works on"""
    for f, p in q.facts:
        if p and f.op == "is" and f.args[1] == "Some" and called("get")(f.args[0]) and match(f.args[0].args[-1], otc):
            return mk("payload", f.args[0])
    o = [n for f, p in q.facts for n in find(f, lambda n: n.op == "payload" and called("get")(n.args[0]) and match(n.args[0].args[-1], otc))]
    return o[0] if o else None


def known(q, n, w=None):
    """is n == w (or n itself) settled on the path"""
    for f, p in q.facts:
        if w is None and f is n:
            return p
        if w is not None and f.op == "eq" and {f.args[0].id, f.args[1].id} == {n.id, w.id}:
            return p
    return None


@guarded
def settle(ctx):
    r, qs = fnpaths(ctx, PN, "settle_otc_order")
    for q in qs:
        if not q.p.ok or q.node.op == "variant:Err":
            continue
        otc, amount, route = r.arg(0), r.arg(1), r.arg(2)
        O = order(q, otc)
        if O is None:
            ctx.judge(r, q, "order exists", False if not any(find(f, called("get")) for f, p in q.facts) else None, "an order that does not exist is settled", relevant=VALUE)
            continue
        A, B, IN, OUT = (mk("fld", O, k) for k in ("asset_in", "asset_out", "amount_in", "amount_out"))
        part = known(q, mk("fld", O, "partially_fillable"))
        whole = known(q, amount, IN)
        moves = [e for e in q.eff if e.kind in ("ext", "call") and last(e) in MOVES]
        byname = {}
        for e in moves:
            byname.setdefault(last(e), []).append(e)
        one = lambda k: byname[k][0] if len(byname.get(k, ())) == 1 and not byname[k][0].loop else None
        ctx.judge(r, q, "nothing else moves", set(byname) <= {"mint_into", "burn_from", "transfer", "sell", "fill_order", "partial_fill_order"}, lambda: "moves: " + ", ".join(sorted(byname)), relevant=VALUE)
        m, b, t, s = one("mint_into"), one("burn_from"), one("transfer"), one("sell")
        fills = byname.get("fill_order", []) + byname.get("partial_fill_order", [])
        for k, e in (("minted once", m), ("burnt once", b), ("sold once", s), ("profit paid once", t)):
            ctx.judge(r, q, k, e is not None and okres(q, e), "the settlement's %s: %s" % (k, "its failure is ignored" if e is not None else "no"), relevant=VALUE)
        ctx.judge(r, q, "filled once", len(fills) == 1 and okres(q, fills[0]), lambda: f"the order is filled {len(fills)} times", relevant=VALUE)
        ctx.judge(r, q, "whole unless partially fillable", part is True or whole is True, "an order that is not partially fillable is settled in part", relevant=VALUE)
        rt = [(f, p) for f, p in q.facts if f.op == "eq" and any(called("get_route")(x) for x in f.args)]
        okr = False
        if rt:
            f, p = rt[0]
            g = [x for x in f.args if called("get_route")(x)][0]
            h = fields([x for x in g.args[1:] if x.op != "at"][0])
            okr = p and any(match(x, route) for x in f.args) and set(h) == {"asset_in", "asset_out"} and match(h["asset_in"], B) and match(h["asset_out"], A)
        ctx.judge(r, q, "on-chain route", okr, "the route traded is not known to be the router's for the order's assets", relevant=VALUE)
        if None in (m, b, t, s) or len(fills) != 1:
            continue
        f = fills[0]
        a = eargs(m)
        ctx.judge(r, q, "minted", match(a[0], A) and isacc(a[1]) and match(a[2], amount), lambda: f"minted: {[show(x)[:50] for x in a]}", eff=m, relevant=VALUE)
        a = eargs(b)
        ctx.judge(r, q, "burnt", match(a[0], A) and isacc(a[1]) and match(a[2], amount) and any(x.op.startswith("variant:Exact") for x in a), lambda: f"burnt: {[show(x)[:50] for x in a]}", eff=b, relevant=VALUE)
        a = eargs(f)
        if last(f) == "fill_order":
            okf = whole is True or all(any(p is False and g.op == "lt" and match(g.args[0], u) and match(g.args[1], v) for g, p in q.facts) for u, v in ((amount, IN), (IN, amount)))
        else:
            okf = len(a) == 3 and match(a[2], amount)
        okf = okf and isacc(signed(a[0])) and match(a[1], otc)
        ctx.judge(r, q, "filled", okf, lambda: f"{last(f)} of {[show(x)[:50] for x in a]}", eff=f, relevant=VALUE)
        a = eargs(s)
        ctx.judge(r, q, "sold by the pallet over the route", len(a) == 6 and isacc(signed(a[0])) and match(a[1], B) and match(a[2], A) and match(a[5], route), lambda: f"sell of {[show(x)[:40] for x in a]}", eff=s, relevant=VALUE)
        d = diffof(a[3], B) if len(a) == 6 else None
        if d is None:
            ctx.judge(r, q, "sold what was received", False if plainly(a[3], r, O) else None, lambda: f"sold: {show(a[3])[:80]}", eff=s, relevant=VALUE)
        else:
            ctx.judge(r, q, "sold what was received", not {k: v for k, v in d[2].items() if v} and balance(d[0])[2] > f.ep >= balance(d[1])[2] and s.ep >= balance(d[0])[2], lambda: f"sold: {show(a[3])[:80]}", eff=s, relevant=VALUE)
        a = eargs(t)
        ctx.judge(r, q, "profit receiver", match(a[0], A) and isacc(a[1]) and match(a[2], CFG("ProfitReceiver")), lambda: f"paid: {[show(x)[:50] for x in a]}", eff=t, relevant=VALUE)
        profit = a[3]
        d = diffof(profit, A)
        if d is None:
            ctx.judge(r, q, "profit", False if plainly(profit, r, O) else None, lambda: f"profit: {show(profit)[:80]}", eff=t, relevant=VALUE)
        else:
            rest = {k: v for k, v in lsub(d[2], {k: -v for k, v in lin(amount).items()}).items() if v}
            ctx.judge(r, q, "profit", not rest and balance(d[0])[2] > s.ep and balance(d[0])[2] <= t.ep and balance(d[1])[2] <= m.ep, lambda: f"profit: {show(profit)[:120]}", eff=t, relevant=VALUE)
        # what a success requires
        mp = None
        for g, p in q.facts:
            if g.op == "lt" and find(g, lambda n: n.op == "cfg" and n.args[0] == "MinProfitPercentage"):
                x, y = g.args
                want = mk("div", mk("mul", IN, mk("cfg", "MinProfitPercentage")), const(10**9))
                if lin(x) == lin(profit) and same(y, want):
                    mp = not p
                elif lin(y) == lin(profit) and same(x, want):
                    mp = bool(p)
                elif any(lin(z) == lin(profit) for z in (x, y)):
                    z = y if lin(x) == lin(profit) else x
                    mp = False if z.op == "div" and plainly(z, r, O) else mp
                elif find(g, lambda n: n is IN) and not any(lin(z) == lin(profit) for z in (x, y)):
                    mp = False
        if mp is None and any(find(g, lambda n: n.op == "cfg" and n.args[0] == "MinProfitPercentage") for g, p in q.facts):
            ctx.judge(r, q, "minimum profit", None, "profit compared in an unknown way")
        else:
            ctx.judge(r, q, "minimum profit", bool(mp), "a settlement without the minimum profit succeeds", relevant=VALUE)
        end = max(e.ep for e in moves)
        for T, nm in ((A, "asset in"), (B, "asset out")):
            ok = False
            for g, p in q.facts:
                if g.op == "eq" and p and all(balance(x) is not None and match(balance(x)[0], T) and isacc(balance(x)[1]) for x in g.args):
                    u, v = sorted(balance(x)[2] for x in g.args)
                    ok = ok or u <= m.ep and v > end
            ctx.judge(r, q, "balance restored: " + nm, ok, f"the pallet's balance of the order's {nm} may end different", relevant=VALUE)
        if part is not False:
            price(ctx, r, q, O, s)
        ev = [e for e in q.eff if e.kind == "event"]
        if len(ev) == 1:
            h = fields(ev[0].args[0]) if isinstance(ev[0].args[0], Node) else {}
            v = ev[0].args[0]
            if v.op.startswith("variant:Executed:"):
                h = dict(zip(v.op.split(":")[2].split(","), v.args))
            ctx.judge(r, q, "reported", None if set(h) != {"asset_id", "profit"} else match(h["asset_id"], A) and lin(h["profit"]) == lin(profit), lambda: f"event {show(v)[:100]}", eff=ev[0], relevant=VALUE)
        else:
            ctx.judge(r, q, "reported", False, f"{len(ev)} events", relevant=VALUE)


def price(ctx, r, q, O, s):
    """the order's price and the route's after the trade differ by at most the precision"""
    isprec = lambda n: n.op == "cfg" and n.args[0] == "PricePrecision"
    isrp = lambda n: called("spot_price_with_fee")(n)
    otc = mk("div", mk("mul", mk("fld", O, "amount_out"), const(10**18)), mk("fld", O, "amount_in"))
    rel = [(g, p) for g, p in q.facts if g.op == "lt" and find(g, isprec)]
    both = [(g, p) for g, p in q.facts if g.op == "lt" and not find(g, isprec) and find(g, isrp)]
    ok = None if rel else False
    for g, p in rel:
        x, y = g.args
        px, py = bool(find(x, isprec)), bool(find(y, isprec))
        if px == py or find(x if px else y, isrp):
            continue
        d, pr = (y, x) if px else (x, y)
        if not find(d, isrp):
            continue
        rs = find(d, isrp)[0]
        when = [z.args[0] for z in rs.args if isinstance(z, Node) and z.op == "at"]
        late = bool(when) and when[0] > s.ep
        rp = mk("payload", rs)
        okd = d.op == "sub" and ({x.id for x in d.args} == {rp.id, otc.id})
        okp = same(pr, mk("div", mk("mul", otc, mk("cfg", "PricePrecision")), const(10**18)))
        if not okd or not okp:
            ok = None if not okd else False
            continue
        within = p is False and px or p is True and not px
        if not within:
            # otherwise both prices were required to be no higher than the other
            within = not [1 for z in (0, 1) if not any(p2 is False and g2.args == ((rp, otc) if z else (otc, rp)) for g2, p2 in both)]
        ok = within and late
    ctx.judge(r, q, "prices closed", ok, "the order's price and the route's may differ by more than the precision after the settlement", relevant=VALUE)


@guarded
def search(ctx):
    r, qs = fnpaths(ctx, PN, "try_find_trade_amount", opaque=("settle_otc_order",))
    trial = called("settle_otc_order")
    for q in qs:
        v = q.node
        if v.op != "variant:Some":
            continue
        ok = any(p and g.op == "is" and g.args[1] == "Ok" and trial(g.args[0]) and match(g.args[0].args[-2], v.args[0]) and match(g.args[0].args[-3], r.arg(0)) and match(g.args[0].args[-1], r.arg(2)) for g, p in q.facts)
        ctx.judge(r, q, "submitted amount tried", ok, lambda: f"{show(v.args[0])[:80]} is submitted without a successful trial", relevant=VALUE)
    if r is not None:
        for i in r.runs.it.loops_seen:
            ks = [k for k in range(len(i["phi"]))]
            ph = [tonode_(i["phi"][k]) for k in ks]
            for e in i["ends"]:
                nx = [tonode_(r.runs.it.force(e.store[i["slots"][k]], e)) for k in ks]
                tr = [n for g, p in e.facts for n in find(g, trial)]
                if not tr:
                    continue
                amt = tr[0].args[-2]
                if amt not in ph:
                    ctx.judge(r, None, "search", None, "the amount tried is not carried by the loop")
                    continue
                was = {g.args[1]: p for g, p in e.facts if g.op == "is" and g.args[0].op == "errof" and trial(g.args[0].args[0])}
                moved = [k for k in ks if match(nx[k], amt) and ph[k] is not amt]
                others = [k for k in ks if ph[k] is not amt]
                first = {k: strip(tonode_(i["init"][k])) for k in others}
                if len(others) == 1 and len(moved) == 1:      # the other bound never moves
                    k = moved[0]
                    if was.get("TradeAmountTooHigh") and match(first[k], ("cfg", "MinTradingLimit")) or was.get("TradeAmountTooLow") and match(first[k], mk("fld", r.arg(1), "amount_in")):
                        ctx.judge(r, None, "search narrows", False, "a trial that was too high raises the lower bound, or one too low lowers the upper", relevant=VALUE)
                        continue
                if len(others) != 2 or len(moved) != 1:
                    ctx.judge(r, None, "search narrows", False if len(others) == 2 and all(nx[k] is ph[k] for k in others) else None, "a failed trial does not narrow the search", relevant=VALUE)
                    continue
                upper = [k for k in others if match(first[k], mk("fld", r.arg(1), "amount_in"))]
                if len(upper) != 1:
                    ctx.judge(r, None, "search", None, "bounds not recognised")
                    continue
                high = was.get("TradeAmountTooHigh")
                low = was.get("TradeAmountTooLow")
                isup = moved[0] == upper[0]
                ok = True if isup and high or not isup and low else False if isup and low or not isup and high else None
                ctx.judge(r, None, "search narrows", ok, "a trial that was too high raises the lower bound, or one too low lowers the upper", relevant=VALUE)
                nu, nd = nx[upper[0]], nx[[k for k in others if k != upper[0]][0]]
                na = nx[ph.index(amt)]
                ctx.judge(r, None, "search halves", same(na, mk("div", mk("add", *sorted((nu, nd), key=lambda n: n.id)), const(2))), lambda: f"the next amount tried is {show(na)[:80]}", relevant=VALUE)
            ctx.judge(r, None, "search starts with the whole order", any(match(tonode_(i["init"][k]), mk("fld", r.arg(1), "amount_in")) for k in range(len(i["phi"]))), "the search does not start at the order's amount", relevant=VALUE)
    r, qs = fnpaths(ctx, PN, "settle_otcs", opaque=("try_find_trade_amount",))
    for q in qs:
        for e in calls(q, "submit_unsigned_transaction"):
            v = [n for a in eargs(e) for n in find(a, lambda n: n.op.startswith("variant:settle_otc_order:"))]
            if not v:
                ctx.judge(r, q, "submitted", None, "call not recognised")
                continue
            g = dict(zip(v[0].op.split(":")[2].split(","), v[0].args))
            am = strip(g["amount"])
            ok = am.op == "payload" and called("try_find_trade_amount")(am.args[0]) and match(am.args[0].args[1], g["otc_id"]) and match(am.args[0].args[3], g["route"])
            ctx.judge(r, q, "submitted", ok, lambda: f"submitted: {show(v[0])[:120]}", eff=e, relevant=VALUE)


@guarded
def unsigned(ctx):
    r, qs = fnpaths(ctx, PN, "validate_unsigned")
    for q in qs:
        ext = known_is(q, "External")
        loc = [k for k in ("Local", "InBlock") if known_is(q, k)]
        call = known_is(q, "settle_otc_order")
        valid = bool(find(q.node, called("with_tag_prefix"))) or q.node.op == "variant:Ok"
        ctx.judge(r, q, "unsigned settlements", valid == bool(call and not ext), ("accepted" if valid else "refused") + f": external {ext}, settlement {call}", relevant=VALUE)
        if valid:
            p = find(q.node, lambda n: n.op == "m" and n.args[0] == "propagate")
            ctx.judge(r, q, "not propagated", bool(p) and isF(p[0].args[2]), "an unsigned settlement is propagated to other nodes", relevant=VALUE)


def known_is(q, k):
    return next((p for f, p in q.facts if f.op == "is" and f.args[1] == k), None)


def settlements(pid, tier):
    ctx = Ctx(pid, tier)
    settle(ctx)
    search(ctx)
    unsigned(ctx)
    return ctx.done(RULE, ["OTC fills, router trades and currency operations do what P14, P17 and P27 say", "arguments of the off-chain search other than the order are as the worker read them"])
