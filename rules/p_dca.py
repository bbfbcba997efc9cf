"""Recurring orders (DCA): funds reserved up front, drawn down trade by trade, returned at the end; limits hold; no order is lost."""
from rules.p_oracle import *
from rules.p_small import loopinfo, loopsteps, isT, isF
from vt.terms import ZERO, const, sub, idx

RULE = ("Every path of the DCA pallet's calls and of the functions its block hook runs is evaluated over the parsed source (all order kinds, routes and schedules; loops summarised per iteration); "
        "reserved funds, recorded remainders, limits, planned blocks and outcomes must be those stated.")
PN = "dca"
OPQ = ("prepare_schedule", "execute_trade", "replan_or_complete", "retry_schedule", "terminate_schedule", "complete_schedule", "get_trade_weight", "get_randomness_generator")
NID = CFG("NamedReserveId")


def own(n, name):
    return n.op == "call" and str(n.args[0]).split("::")[-1] == name and "pallets/dca" in str(n.args[0])


class O:
    """the order of a schedule on one path"""

    def __init__(self, q, sch):
        self.order = mk("fld", sch, "order")
        self.side = None
        for n, p in q.facts:
            if n.op == "is" and n.args[0] is self.order and p and n.args[1] in ("Sell", "Buy"):
                self.side = n.args[1]
            if n.op == "is" and n.args[0] is self.order and not p and n.args[1] in ("Sell", "Buy") and self.side is None:
                self.side = "Buy" if n.args[1] == "Sell" else "Sell"

    def __getattr__(self, k):
        if self.side is None:
            raise ValueError("order kind unknown")
        return mk("vfld", self.order, self.side, k)


def resnode(asset, who, amount, m="reserve_named"):
    return X(m, NID, asset, who, amount)


def fees(q, asset, weight="_"):
    """the nodes denoting the execution fee in the sold asset"""
    nat = lambda z: match(z, X("weight_to_fee", lambda w: w.op == "min" and any(match(a, weight) for a in w.args) and any(match(a, ("fld", CFG("BlockWeights"), "max_block")) for a in w.args)))
    pr = X("NativePriceOracle.price", asset)
    for n, p in q.facts:
        if n.op == "eq" and any(match(a, CFG("NativeAssetId")) for a in n.args) and any(a is asset for a in n.args):
            if p:
                return nat
            return lambda z: match(z, ("cdiv", ("mul", nat, F(PL(pr), "n")), F(PL(pr), "d"))) or match(z, ("cdiv", ("mul", F(PL(pr), "n"), nat), F(PL(pr), "d")))
    return None


def planned(ctx, r, q, g, sid, at, label):
    """the id is appended to the list of one block with a free slot, found by moving forward from `at` (> current block)"""
    ws = [e for e in q.writes("ScheduleIdsPerBlock")]
    pushes = [e for e in ws if e.args[-1].op == "mut" and str(e.args[-1].args[0]) in ("try_push", "push")]
    if len(pushes) != 1 or len(ws) != 1:
        bad = not ws
        ctx.judge(r, q, label, False if bad else None, "the schedule is not added to any block's list" if bad else f"{len(ws)} writes of the block lists")
        return
    e = pushes[0]
    K, v = e.args[0], e.args[-1]
    st = v.args[1]
    ok = match(st, ST("ScheduleIdsPerBlock", K)) and v.args[2] is sid
    ctx.judge(r, q, label + ": entry", ok, lambda: f"the block list becomes {show(v)[:200]}", eff=e)
    cap = g.lt(lambda z: match(z, ("len", ST("ScheduleIdsPerBlock", K))), CFG("MaxSchedulePerBlock"))
    ctx.judge(r, q, label + ": free slot", cap, "a schedule is added to a block without a free slot", relevant=(K,), eff=e)
    if K.op == "phi":
        i = loopinfo(r, str(K.args[0]))
        steps = loopsteps(r, mk("loopout", *K.args)) if i is not None else None
        if steps is None:
            return ctx.judge(r, q, label + ": block", None, "loop not understood")
        ph, ss, init = steps
        up = all(z is ph or z.op == "add" and any(a is ph for a in z.args) or z.op == "sat" and z.args[0].op == "add" and any(a is ph for a in z.args[0].args) for _, z in ss)
        ctx.judge(r, q, label + ": block", match(init, at) and (up or None), lambda: f"planned from block {show(init)[:200]}", eff=e)
        start = init
    else:
        ctx.judge(r, q, label + ": block", match(K, at) or (None if has(K, lambda z: z.op in ("loopout", "apply", "m")) else False), lambda: f"planned at block {show(K)[:200]}", eff=e)
        start = K
    ctx.judge(r, q, label + ": future", g.lt(X("System.current_block_number"), start) or g.lt(X("System.block_number"), start), "a block that is not in the future can be planned", relevant=(start,), eff=e)


@guarded
def schedule(ctx):
    r = ctx.fn(PN, "schedule")
    if r is None:
        return
    sch, start = r.arg(0), r.arg(1)
    for q in r.paths:
        path_schedule(ctx, r, q, sch, start)


@guarded
def path_schedule(ctx, r, q, sch, start):
    g = G(r, q)
    o = O(q, sch)
    tot = mk("fld", sch, "total_amount")
    a_in = o.asset_in
    sid = ST("ScheduleIdSequencer")
    ctx.judge(r, q, "owner", g.eq(mk("fld", sch, "owner"), lambda z: z is g.who), "a schedule can be created for somebody else", relevant=(mk("fld", sch, "owner"),))
    res = [e for e in q.ext("reserve_named") if e.name.startswith(("Currencies.", "Currency."))]
    good = len(res) == 1 and match(res[0].args[0], NID) and res[0].args[1] is a_in and q.same(res[0].args[2], g.who) and res[0].args[3] is tot
    ctx.judge(r, q, "reserve", good, lambda: "the total amount of the sold asset is not reserved from the owner under the pallet's reserve" + (f": {res[0]}" if res else ""), eff=res[0] if res else None)
    if res:
        ctx.judge(r, q, "reserve required", q.certain(res[0]), "the reservation may fail", relevant=(tot,), eff=res[0])
    wrote(ctx, r, q, g, "ScheduleIdSequencer", (), LIN((1, sid), (1, 1)) if False else (lambda n: matchlin(lsub(lin(n), {None: 1}), [(1, sid)])), "next id", "the next id must be one more")
    ids = {e.args[0] for e in q.writes("Schedules")}
    for it, keys, val in (("Schedules", (sid,), sch), ("ScheduleOwnership", (lambda z: q.same(z, g.who), sid), "_"), ("RemainingAmounts", (sid,), tot)):
        wrote(ctx, r, q, g, it, keys, val, "record " + it, "the new schedule's record is wrong")
    rt = q.writes("RetriesOnError")
    ctx.judge(r, q, "retries", all(match(e.args[-1], 0) or e.args[-1].op == "removed" for e in rt), "the retry counter does not start at zero")
    # minimum sizes
    fee = fees(q, a_in)
    isnat = g.eq(CFG("NativeAssetId"), lambda z: z is a_in)
    if fee is None:
        ctx.judge(r, q, "fee", None, "fee not found")
    else:
        amt = o.amount_in if o.side == "Sell" else None
        if o.side == "Sell":
            A = [amt]
        else:
            A = [x for x in g.nodes(lambda z: z.op == "fld" and z.args[1] == "amount_in" and has(z, lambda y: y.op == "ext" and str(y.args[0]).endswith("calculate_buy_trade_amounts")))] or [o.max_amount_in]
        F20 = lambda z: z.op == "sat" and matchlin(lin(z.args[0]), [(20, fee)]) or matchlin(lin(z), [(20, fee)])
        ctx.judge(r, q, "trade size (fees)", any(g.le(F20, x) for x in A), "a single trade may be smaller than twenty times the execution fee", relevant=tuple(A))
        ctx.judge(r, q, "trade size (limit)", any(g.le(CFG("MinimumTradingLimit"), x) for x in A), "a single trade may be smaller than the minimum trading limit", relevant=tuple(A))
        ctx.judge(r, q, "budget covers a trade", any(g.q.lle(ladd(lin(x), lin(f)), lin(tot)) for x in A for f in g.nodes(fee)), "the budget may not cover a single trade with its fee", relevant=(tot,))
    MB = CFG("MinBudgetInNativeCurrency")
    if isnat:
        ok = g.le(MB, tot)
    else:
        pr = X("NativePriceOracle.price", a_in)
        ok = g.le(lambda z: match(z, ("cdiv", ("mul", MB, F(PL(pr), "n")), F(PL(pr), "d"))) or match(z, ("cdiv", ("mul", F(PL(pr), "n"), MB), F(PL(pr), "d"))), tot)
    ctx.judge(r, q, "minimum budget", ok, "a budget below the minimum is accepted", relevant=(tot,))
    some = g.some(start)
    at = (lambda n: n is mk("payload", start)) if some else (lambda n: any(match(x, X("System.current_block_number")) or match(x, X("System.block_number")) for x in lin(n) if x is not None))
    planned(ctx, r, q, g, sidnode(q), at, "first execution")


def sidnode(q):
    for e in q.writes("Schedules"):
        return e.args[0]
    return None


@guarded
def terminate(ctx):
    r = ctx.fn(PN, "terminate")
    if r is None:
        return
    sid, nb = r.arg(0), r.arg(1)
    for q in r.paths:
        path_terminate(ctx, r, q, sid, nb)


@guarded
def path_terminate(ctx, r, q, sid, nb):
    g = G(r, q)
    S = mk("payload", mk("st", "Schedules", sid))
    own_ = mk("fld", S, "owner")
    tech = any(n.op == "origin" and p and n.args[0] == "TechnicalOrigin" for n, p in q.facts)
    ctx.judge(r, q, "authority", tech or g.who is not None and g.eq(lambda z: match(z, own_), lambda z: z is g.who), "someone other than the owner and the technical origin can terminate a schedule", relevant=(own_,))
    ended(ctx, r, q, g, sid, F(PL(ST("Schedules", sid)), "owner"), F(PL(ST("Schedules", sid)), "order"))
    ws = q.writes("ScheduleIdsPerBlock")
    if not ws:
        ctx.judge(r, q, "unplanned", False, "the terminated schedule stays in its block's list", relevant=(sid,))
        return
    L = ws[-1].args[0]
    bs = [n for n, p in q.facts if has(n, lambda z: z.op == "m" and str(z.args[0]).startswith("binary_search"))]
    if bs:
        ctx.judge(r, q, "lookup in an unsorted list", False, "the schedule is looked up by binary search, but block lists are in planning order (ids are appended): existing schedules are not found", eff=ws[-1])
        return
    pos = [n for n, p in q.facts if n.op == "is" and n.args[1] == "Some" and p and n.args[0].op == "position"]
    v = ws[-1].args[-1]
    if pos:
        P_ = pos[0].args[0]
        listok = match(P_.args[0], ST("ScheduleIdsPerBlock", L)) and P_.args[1].op == "eq" and any(a is sid for a in P_.args[1].args) and any(a.op == "idx" and match(a.args[0], ST("ScheduleIdsPerBlock", L)) for a in P_.args[1].args)
        want = lambda z: z.op == "mut" and str(z.args[0]) in ("remove", "swap_remove") and match(z.args[1], ST("ScheduleIdsPerBlock", L)) and match(z.args[2], [PL(P_), P_])
        ok = listok and (want(v) or v.op == "removed" and any(n.op == "eq" and p and any(match(a, 0) for a in n.args) and has(n, want) for n, p in q.facts))
        ctx.judge(r, q, "unplanned", ok, lambda: f"the block's list becomes {show(v)[:200]}", eff=ws[-1])
    else:
        ctx.judge(r, q, "unplanned", None, "list update not understood")


def ended(ctx, r, q, g, sid, owner, order):
    """what is left is unreserved for the owner and the records are removed"""
    un = q.ext("unreserve_named")
    rem = ST("RemainingAmounts", sid)
    none = g.none(rem)
    if not none:
        ok = len(un) == 1 and match(un[0].args[0], NID) and match(un[0].args[1], ("vfld", order, "_", "asset_in")) and match(un[0].args[2], owner) and match(un[0].args[3], PL(rem))
        ctx.judge(r, q, "leftover returned", ok, lambda: "what remains of the budget is not unreserved for the owner" + (f": {un[0]}" if un else ""), relevant=(), eff=un[0] if un else None)
        if un:
            early = [e for e in q.writes("RemainingAmounts") if e.i < un[0].i]
            ctx.judge(r, q, "leftover order", not early, "the remainder is read after it was removed", eff=un[0])
    for it, keys in (("Schedules", (sid,)), ("ScheduleOwnership", (owner, sid)), ("RemainingAmounts", (sid,)), ("RetriesOnError", (sid,))):
        wrote(ctx, r, q, g, it, keys, None, "forget " + it, "the finished schedule's record stays")


def transactional(ctx, name, want=True):
    try:
        f = ctx.pallet(PN).fn(name)
    except KeyError:
        return
    if f is None:
        return
    ctx.c["obligations"] += 1
    has_ = any(a[0].split("::")[-1].strip() == "transactional" for a in f.item["attrs"])
    inner = "with_transaction" in repr(f.item["body"]) or "with_storage_layer" in repr(f.item["body"])
    if has_ == want or want and inner:
        ctx.c["proved"] += 1
        return
    msg = f"{name} changes storage before it can fail and its error is not propagated: it must roll back its changes" if want else f"{name} returns an error after it has rescheduled and charged: it must not roll back"
    from vt.spec import Finding
    ctx.res.findings.append(Finding("atomic", f"dca::{name}", f.mod.file, f.line, msg, f"dca::{name}|atomic"))


@guarded
def drawn(ctx, r, q, g, sid, owner, a_in, amount, label):
    """remaining amount and reserve both shrink by the same amount, which is at most the remainder"""
    rem = ST("RemainingAmounts", sid)
    ws = q.writes("RemainingAmounts")
    if len(ws) != 1:
        return ctx.judge(r, q, label, False if not ws else None, "the remaining amount is not reduced" if not ws else "several writes")
    v = ws[0].args[-1]
    d = lsub(lin(v), {})
    amount = [x for x in g.nodes(amount)] if not isinstance(amount, Node) else [amount]
    ok = any(matchlin(ladd(lin(v), lin(x)), [(1, PL(rem))]) for x in amount)
    ctx.judge(r, q, label + ": remainder", ok, lambda: f"the remaining amount becomes {show(v)[:200]}", eff=ws[0])
    un = q.ext("unreserve_named")
    ok = len(un) == 1 and match(un[0].args[0], NID) and un[0].args[1] is a_in and match(un[0].args[2], owner) and any(q.leq(lin(un[0].args[3]), lin(x)) for x in amount)
    ctx.judge(r, q, label + ": reserve", ok, lambda: "the amount taken off the remainder is not unreserved for the owner" + (f": {un[0]}" if un else ""), eff=un[0] if un else None)
    if un:
        full = any(n.op == "eq" and p and any(match(a, 0) for a in n.args) and any(a.op == "ext" and str(a.args[0]).endswith("unreserve_named") for a in n.args) for n, p in q.facts)
        ctx.judge(r, q, label + ": fully unreserved", full, "a reserve smaller than the amount is accepted", relevant=(un[0].args[3],), eff=un[0])
        ctx.judge(r, q, label + ": covered", any(x.op == "min" and m in x.args or q.lle(lin(x), lin(m)) for x in amount for m in find(v, lambda z: match(z, PL(rem)))), "more than the remainder can be drawn", relevant=(amount[0],) if amount else (), eff=ws[0])


@guarded
def trade(ctx):
    transactional(ctx, "execute_trade")
    transactional(ctx, "take_transaction_fee_from_user")
    transactional(ctx, "prepare_schedule", False)
    r = ctx.fn(PN, "execute_trade")
    if r is None:
        return
    for q in r.paths:
        path_trade(ctx, r, q)


@guarded
def path_trade(ctx, r, q):
    g = G(r, q)
    sid, sch = r.arg(0), r.arg(1)
    o = O(q, sch)
    owner = mk("fld", sch, "owner")
    ts = [e for e in q.eff if e.kind == "ext" and e.name in ("RouteExecutor.sell", "RouteExecutor.buy")]
    m = "RouteExecutor." + o.side.lower()
    ctx.judge(r, q, "one trade", len(ts) == 1 and ts[0].name == m, lambda: f"a {o.side} order must execute exactly one router {o.side.lower()}: {[str(t.name) for t in ts]}")
    if len(ts) != 1 or ts[0].name != m:
        return
    t = ts[0]
    a = t.args
    ctx.judge(r, q, "trade required", any(n.op == "is" and n.args[0].op == "ext" and str(n.args[0].args[0]) == t.name and (n.args[1] == "Ok") == p for n, p in q.facts), "a failed trade counts as executed", eff=t)
    ctx.judge(r, q, "trader", a[0].op == "call" and match(a[0].args[-1], owner) and "Signed" in show(a[0]), lambda: f"the trade is signed by {show(a[0])[:120]}", eff=t)
    ctx.judge(r, q, "assets", a[1] is o.asset_in and a[2] is o.asset_out, lambda: f"the trade is {show(a[1])[:80]} for {show(a[2])[:80]}", eff=t)
    empty = route_empty(q, o)
    route = a[5]
    rok = match(route, C("get_route", REC(asset_in=o.asset_in, asset_out=o.asset_out))) if empty else route is o.route
    ctx.judge(r, q, "route", rok, lambda: f"the trade follows {show(route)[:160]}", eff=t)
    rem = ST("RemainingAmounts", sid)
    # price: quotient of the last block's oracle
    est = lambda z: z.op in ("div", "fdiv") and has(z, lambda y: y.op == "ext" and str(y.args[0]) == "OraclePriceProvider.price")
    if o.side == "Sell":
        amt = a[3]
        ok = any(q.leq(lin(amt), lin(x)) for x in [mk("min", o.amount_in, y) for y in g.nodes(PL(rem))] + [mk("min", y, o.amount_in) for y in g.nodes(PL(rem))]) or amt.op == "min" and any(x is o.amount_in for x in amt.args) and any(match(x, PL(rem)) for x in amt.args)
        ctx.judge(r, q, "amount", ok, lambda: f"the amount sold is {show(amt)[:160]}, not the order's amount or the smaller remainder", eff=t)
        drawn(ctx, r, q, g, sid, owner, o.asset_in, amt, "sold amount")
        out = a[4]
        ctx.judge(r, q, "minimum out", q.lle(lin(o.min_amount_out), lin(out)), "less than the order's minimum can be accepted", relevant=(o.min_amount_out,), eff=t)
        lim = limits(q, sch, amt)
        ctx.judge(r, q, "slippage", any(q.lle(l, lin(out)) for l in lim) if lim else offlim(q, sch, amt, 1), "the amount is not held to the last block's price less (plus, for purchases) the allowed slippage", relevant=(), eff=t)
    else:
        out = a[3]
        ctx.judge(r, q, "amount", out is o.amount_out, lambda: f"the amount bought is {show(out)[:160]}", eff=t)
        lim_in = a[4]
        drawn(ctx, r, q, g, sid, owner, o.asset_in, lim_in, "spent amount")
        ctx.judge(r, q, "maximum in", q.lle(lin(lim_in), lin(o.max_amount_in)), "more than the order's maximum can be spent", relevant=(o.max_amount_in,), eff=t)
        lim = limits(q, sch, out, +1)
        ctx.judge(r, q, "slippage", any(q.lle(lin(lim_in), l) for l in lim) if lim else offlim(q, sch, out, -1), "the amount is not held to the last block's price less (plus, for purchases) the allowed slippage", relevant=(), eff=t)
    direction(ctx, r, q, g, sch, o, t)
    v = tonode_(q.val)
    f = fields(v) or (fields(v.args[0]) if v.args and isinstance(v.args[0], Node) else {})
    if {"amount_in", "amount_out"} <= set(f):
        want = (a[3], a[4]) if o.side == "Sell" else (a[4], a[3])
        ctx.judge(r, q, "reported amounts", f["amount_in"] is want[0] and f["amount_out"] is want[1], lambda: f"reports {show(f['amount_in'])[:80]} / {show(f['amount_out'])[:80]}", eff=t)


def offlim(q, sch, amt, wrong):
    """False if the path certainly checks no slippage limit against the last block's price, or one on the wrong side of it"""
    if limits(q, sch, amt, wrong):
        return False
    price = any(has(n, lambda y: y.op == "ext" and str(y.args[0]) == "OraclePriceProvider.price" and any(isinstance(w, Node) and w.op == "variant:LastBlock" for w in y.args)) for n, p in q.facts if n.op == "lt")
    sl = mk("fld", sch, "slippage")
    lim = any(n.op == "lt" and has(n, lambda y: y.op == "payload" and y.args[0] is sl or match(y, CFG("MaxPriceDifferenceBetweenBlocks"))) for n, p in q.facts)
    return None if price and lim and not any(n.op == "lt" and has(n, lambda z: z.op == "div" and match(z.args[1], 1000000) and not has(z, lambda y: y.op == "ext" and str(y.args[0]) == "OraclePriceProvider.price")) for n, p in q.facts) else False


def direction(ctx, r, q, g, sch, o, t):
    """the limits come from the amount times the last block's price of the route (the reversed route for sales)"""
    empty = route_empty(q, o)
    own_route = lambda z: match(z, C("get_route", REC(asset_in=o.asset_in, asset_out=o.asset_out))) if empty else z is o.route
    lp = lambda y: y.op == "ext" and str(y.args[0]) == "OraclePriceProvider.price" and any(isinstance(w, Node) and w.op == "variant:LastBlock" for w in y.args)
    seen = set()
    for n, p in q.facts:
        if n.op != "lt":
            continue
        for pr in find(n, lp):
            if pr in seen:
                continue
            seen.add(pr)
            rt = pr.args[1]
            inv = rt.op == "seq" and rt.args[0].op == "rev" and own_route(rt.args[0].args[0])
            if inv:
                f = fields(rt.args[1]) or {}
                inv = isinstance(f.get("asset_in"), Node) and isinstance(f.get("asset_out"), Node) and f["asset_in"].op == "fld" and f["asset_in"].args[1] == "asset_out" and f["asset_out"].op == "fld" and f["asset_out"].args[1] == "asset_in"
            plain = own_route(rt)
            good, bad = (inv, plain) if o.side == "Sell" else (plain, inv)
            ctx.judge(r, q, "limit price route", True if good else (False if bad else None), lambda: f"the limit of a {o.side} order is derived from the price of {show(rt)[:160]}", eff=t)
            P = mk("payload", pr)
            nn, dd = mk("fld", P, "n"), mk("fld", P, "d")
            for e in find(n, lambda z: z.op == "div" and has(z.args[0], lambda y: y is nn) and has(z, lambda y: y is dd) and z.args[1] is not dd or z.op == "div" and has(z.args[0], lambda y: y is dd) and z.args[1] is nn):
                inverted = has(e, lambda z: z.op == "div" and z.args[1] is nn)
                ctx.judge(r, q, "limit price direction", False if inverted else True, lambda: f"the limit uses the inverse of the price: {show(e)[:200]}", eff=t)


def route_empty(q, o):
    return any(n.op == "m" and n.args[0] == "is_empty" and n.args[1] is o.route and p or n.op == "eq" and p and any(match(x, ("len", o.route)) for x in n.args) for n, p in q.facts)


def limits(q, sch, amt, sign=-1):
    """linear forms estimate -/+ slippage where estimate = amount * last-block price (rounded down) and slippage = floor(limit * estimate)"""
    sl = mk("fld", sch, "slippage")
    out = []
    for n, p in q.facts:
        for z in find(n, lambda z: z.op in ("sub", "add") and len(z.args) >= 2):
            d = lin(z)
            if None in d or len(d) != 2 or sorted(d.values()) != sorted([1, sign]):
                continue
            for E in d:
                for D in d:
                    if E is D or d[E] != 1 or d[D] != sign:
                        continue
                    okE = E.op == "div" and has(E, lambda y: y is amt) and has(E, lambda y: y.op == "ext" and str(y.args[0]) == "OraclePriceProvider.price" and any(isinstance(w, Node) and w.op == "variant:LastBlock" for w in y.args))
                    lim = mk("payload", sl) if any(x.op == "is" and x.args[0] is sl and (x.args[1] == "Some") == pp for x, pp in q.facts) else None
                    okD = D.op == "div" and has(D, lambda y: y is E) and (has(D, lambda y: y is lim) if lim is not None else has(D, lambda y: match(y, CFG("MaxPriceDifferenceBetweenBlocks")))) and match(D.args[1], 1000000)
                    if okE and okD:
                        out.append(d)
    return out


@guarded
def fee(ctx):
    r = ctx.fn(PN, "take_transaction_fee_from_user")
    if r is None:
        return
    sid, sch, w = r.arg(0), r.arg(1), r.arg(2)
    for q in r.paths:
        path_fee(ctx, r, q, sid, sch, w)


@guarded
def path_fee(ctx, r, q, sid, sch, w):
    g = G(r, q)
    o = O(q, sch)
    fe = fees(q, o.asset_in, (lambda z: z is w))
    if fe is None:
        return ctx.judge(r, q, "fee", None, "fee not found")
    owner = mk("fld", sch, "owner")
    fl = q.flows()
    fl = [f for f in fl if f.how != "unreserve_named"]
    ok = len(fl) == 1 and fl[0].asset is o.asset_in and fl[0].src is owner and match(fl[0].dst, CFG("FeeReceiver")) and match(fl[0].amount, fe)
    ctx.judge(r, q, "fee paid", ok, lambda: "the owner must pay the execution fee, converted rounding up, to the fee receiver in the sold asset: " + "; ".join(f"{show(f.amount)[:120]} to {show(f.dst)[:60]}" for f in fl if f.amount is not None), eff=fl[0].eff if fl else None)
    if len(fl) == 1 and fl[0].amount is not None:
        ctx.judge(r, q, "fee required", q.certain(fl[0].eff), "the fee payment may fail", relevant=(fl[0].amount,), eff=fl[0].eff)
        drawn(ctx, r, q, g, sid, owner, o.asset_in, fl[0].amount, "fee")


@guarded
def prepare(ctx):
    """fee first; an unstable price reschedules the order and nothing is traded"""
    r = ctx.fn(PN, "prepare_schedule", opaque=("take_transaction_fee_from_user", "is_price_unstable", "retry_schedule"))
    if r is None:
        return
    cur, w, sid, sch = (r.arg(k) for k in range(4))
    for p in r.runs.paths:
        q = PP(r, p)
        tk = [e for e in q.eff if e.kind == "call" and e.name.endswith("::take_transaction_fee_from_user")]
        un = [n for n, pol in q.facts if own(n, "is_price_unstable")]
        if p.ok:
            okc = any(n.op == "is" and own(n.args[0], "take_transaction_fee_from_user") and (n.args[1] == "Ok") == pol for n, pol in q.facts)
            good = len(tk) == 1 and [a for a in tk[0].args] == [sid, sch, w]
            ctx.judge(r, q, "fee taken", okc and good if tk else None, "an execution is prepared without its fee", eff=tk[0] if tk else None)
            st = any(own(n, "is_price_unstable") and not pol and n.args[1] is sch for n, pol in q.facts)
            ctx.judge(r, q, "stability", st if any(own(n, "is_price_unstable") for x in r.runs.paths for n, _ in x.facts) else (None if not hasfn(ctx, "is_price_unstable") else False), "a trade is executed although the price is unstable")


def hasfn(ctx, n):
    return ctx.pallet(PN).fn(n) is not None


@guarded
def unstable(ctx):
    """stable only if |last - short| * 2 <= limit * (last + short)"""
    r = ctx.fn(PN, "is_price_unstable")
    if r is None:
        return
    sch = r.arg(0)
    for p in r.runs.paths:
        q = PP(r, p)
        path_unstable(ctx, r, q, sch)


@guarded
def path_unstable(ctx, r, q, sch):
    v = q.val
    n = tonode_(v)
    if isT(n):
        return
    pol = False
    while n.op == "not":
        n, pol = n.args[0], not pol
    # the answer `stable` (n == pol) must mean the stated inequality
    pr = lambda per: [x for f, _ in q.facts for x in find(f, lambda z: z.op == "payload" and z.args[0].op == "ext" and str(z.args[0].args[0]) == "OraclePriceProvider.price" and any(isinstance(w, Node) and w.op == "variant:" + per for w in z.args[0].args))]
    L, S = pr("LastBlock"), pr("Short")
    ctx.judge(r, q, "both prices", bool(L) and bool(S), "the price is called stable without comparing the last block's with the short period's")
    if n.op != "lt" or not L or not S:
        return ctx.judge(r, q, "stability", None, "answer not understood")
    a, b = n.args if not pol else n.args[::-1]
    # unstable iff a < b : b = 2*|L-S|, a = limit*(L+S)
    th = mk("fld", sch, "stability_threshold")
    lim = (lambda y: y is mk("payload", th)) if any(x.op == "is" and x.args[0] is th and (x.args[1] == "Some") == p for x, p in q.facts) else (lambda y: match(y, CFG("MaxPriceDifferenceBetweenBlocks")))
    has2 = lambda z: any(has(z, lambda y, x=x: y is x) for x in L) and any(has(z, lambda y, x=x: y is x) for x in S)
    sums = find(a, lambda z: z.op == "add" and len(z.args) == 2 and has2(z))
    difs = find(b, lambda z: z.op == "sub" and len(z.args) == 2 and has2(z))
    if not sums or not difs:
        return ctx.judge(r, q, "stability", None if has2(a) and has2(b) and has(a, lim) and not has(b, lim) else False, lambda: f"unstable iff {show(n)[:300]}")
    sm, df = sums[0], difs[0]
    two = [z for z in find(b, lambda z: z.op == "mul" and df in z.args)]
    k = [x.args[0] for z in two for x in z.args if x.op == "const"]
    one = [z for z in find(a, lambda z: z.op == "mul" and sm in z.args)]
    ok = has(a, lim) and not has(b, lim) and set(sm.args) == set(df.args) and q.lle(lin(df.args[1]), lin(df.args[0])) and k and k[0] in (2, 2 * 10 ** 18) and len(one) == 1
    ctx.judge(r, q, "stability", bool(ok), lambda: f"unstable iff {show(n)[:300]}; the limit must apply to half the sum of the two prices", relevant=())


@guarded
def replan(ctx):
    r = ctx.fn(PN, "replan_or_complete", opaque=("get_trade_weight",))
    if r is None:
        return
    ctx.known.add("pallets/dca::Pallet::get_trade_weight")
    for q in r.paths:
        path_replan(ctx, r, q)


@guarded
def path_replan(ctx, r, q):
    g = G(r, q)
    sid, sch, cur = r.arg(0), r.arg(1), r.arg(2)
    o = O(q, sch)
    rem = PL(ST("RemainingAmounts", sid))
    done = any(e.args[-1].op == "removed" for e in q.writes("Schedules"))
    fe = fees(q, o.asset_in, lambda z: own(z, "get_trade_weight") and z.args[1] is o.order)
    F20 = lambda z: z.op == "sat" and matchlin(lin(z.args[0]), [(20, fe)]) or matchlin(lin(z), [(20, fe)])
    if done:
        ended(ctx, r, q, g, sid, mk("fld", sch, "owner"), o.order)
        ctx.judge(r, q, "not planned again", not [e for e in q.writes("ScheduleIdsPerBlock")], "a completed schedule is planned again")
        return
    ctx.judge(r, q, "enough for fees", g.le(F20, rem), "a schedule goes on although less than twenty fees remain", relevant=())
    ctx.judge(r, q, "enough to trade", g.le(CFG("MinimumTradingLimit"), rem), "a schedule goes on with less than the minimum trading limit", relevant=())
    if o.side == "Buy":
        A = g.nodes(lambda z: z.op == "fld" and z.args[1] == "amount_in" and has(z, lambda y: y.op == "ext" and str(y.args[0]).endswith("calculate_buy_trade_amounts") and any(w is o.amount_out for w in y.args)))
        ok = any(q.lle(ladd(lin(x), lin(f)), lin(m)) for x in A for f in g.nodes(fe) for m in g.nodes(rem))
        ctx.judge(r, q, "enough for the next buy", ok, "a buy schedule goes on although the next buy and its fee are not covered", relevant=())
    wrote(ctx, r, q, g, "RetriesOnError", (sid,), lambda z: z.op == "removed" or match(z, 0), "retries reset", "a successful trade resets the retries") if False else \
        ctx.judge(r, q, "retries reset", any(match(e.args[0], sid) and (e.args[-1].op == "removed" or match(e.args[-1], 0)) for e in q.writes("RetriesOnError")), "a successful trade must reset the retries")
    planned(ctx, r, q, g, sid, lambda n: matchlin(lin(n), [(1, cur), (1, mk("fld", sch, "period"))]), "next execution")
    ctx.judge(r, q, "funds kept", not q.flows() and not q.ext("unreserve_named") and not q.writes("RemainingAmounts"), "planning moves funds")


@guarded
def retry(ctx):
    r = ctx.fn(PN, "retry_schedule")
    if r is None:
        return
    for q in r.paths:
        path_retry(ctx, r, q)


@guarded
def path_retry(ctx, r, q):
    g = G(r, q)
    sid, sch, cur = r.arg(0), r.arg(1), r.arg(2)
    mr = mk("fld", sch, "max_retries")
    n = ST("RetriesOnError", sid)
    lim = PL(mr) if g.some(mr) else CFG("MaxNumberOfRetriesOnError")
    ctx.judge(r, q, "limit", g.lt(n, lim), "more retries than the maximum are possible", relevant=())
    ws = q.writes("RetriesOnError")
    v = ws[-1].args[-1] if ws else None
    ok = v is not None and match(ws[-1].args[0], sid) and (matchlin(lsub(lin(v), {None: 1}), [(1, n)]) or v.op == "sat" and matchlin(lsub(lin(v.args[0]), {None: 1}), [(1, n)]) or v.op == "mut" and str(v.args[0]) == "saturating_inc" and match(v.args[1], n))
    ctx.judge(r, q, "counted", ok, lambda: f"a retry must count: {show(v)[:120] if v is not None else 'not written'}")

    def at(z):
        d = lin(z)
        if d.get(cur) != 1 or len(d) != 2:
            return False
        k, c = next((k, c) for k, c in d.items() if k is not cur)
        return k is not None and (c == 10 and k.op == "powi" and match(k.args[0], 2) and match(k.args[1], n) or c == 1 and k.op == "mul" and has(k, lambda y: y.op == "powi" and match(y.args[0], 2) and match(y.args[1], n)))
    planned(ctx, r, q, g, sid, at, "retry")


@guarded
def finish(ctx):
    for f in ("terminate_schedule", "complete_schedule"):
        r = ctx.fn(PN, f)
        if r is None:
            continue
        for q in r.paths:
            end_(ctx, r, q)


@guarded
def end_(ctx, r, q):
    sch = r.arg(1)
    ended(ctx, r, q, G(r, q), r.arg(0), mk("fld", sch, "owner"), mk("fld", sch, "order"))


class It:
    """one iteration of a loop as a path"""

    def __init__(self, r, info, end):
        pre = len(info["pre"].eff)
        self.p = PP.__new__(PP)
        self.p.run, self.p.p = r, None
        self.p.facts = end.facts
        self.p.eff = flatten(end.eff[pre:])
        self.p.val = None


@guarded
def hook(ctx):
    r = ctx.fn(PN, "on_initialize", opaque=OPQ)
    if r is None:
        return
    for n in OPQ:
        ctx.known.add("pallets/dca::Pallet::" + n)
    cur = r.arg(0) if r.arg(0) is not None else None
    cur = mk("var", r.fn.params[0][0][1]) if r.fn.params[0][0][0] == "pid" else cur
    for q in r.paths:
        g = G(r, q)
        wrote(ctx, r, q, g, "ScheduleIdsPerBlock", (cur,), None, "list consumed", "the executed block's list must be removed")
    infos = [i for i in r.runs.it.loops_seen if any(e.kind == "call" and e.name.endswith("::execute_trade") for x in i["ends"] for e in flatten(x.eff[len(i["pre"].eff):]))]
    if not infos:
        return ctx.undecided(r, "loop", "no loop executing trades found")
    for i in infos:
        if i["breaks"]:
            ctx.undecided(r, "loop", "the loop can end early")
            q = It(r, i, i["ends"][0]).p
            ctx.judge(r, q, "every schedule of the block", False, "the loop over the block's schedules can end early: the remaining schedules are lost", relevant=())
        for x in i["ends"]:
            iteration(ctx, r, It(r, i, x).p)


@guarded
def iteration(ctx, r, q):
    def calls(n):
        return [e for e in q.eff if e.kind == "call" and e.name.endswith("::" + n)]

    def res(n):
        """True Ok, False Err, None unknown"""
        for f, p in q.facts:
            if f.op == "is" and own(f.args[0], n):
                return (f.args[1] == "Ok") == p
        return None
    def err(name, n):
        """is the error of call n the named one (True / False / None)?"""
        for f, p in q.facts:
            if f.op == "is" and f.args[1] == name and f.args[0].op == "errof" and own(f.args[0].args[0], n):
                return p
            if f.op == "eq" and any(a.op == "variant:" + name for a in f.args) and any(a.op == "errof" and own(a.args[0], n) for a in f.args):
                return p
        return None
    gone = any(f.op == "is" and match(f.args[0], ST("Schedules", "_")) and (f.args[1] == "Some") != p for f, p in q.facts)
    if gone:
        ctx.judge(r, q, "missing schedule", not calls("execute_trade"), "a schedule that does not exist is executed")
        return
    inl = [e for e in q.eff if e.kind in ("write", "set", "ext")]
    if inl or q.unknown():
        return ctx.undecided(r, "iteration", "effects outside the known steps")
    pr, ex, re_, rt, te = (calls(n) for n in ("prepare_schedule", "execute_trade", "replan_or_complete", "retry_schedule", "terminate_schedule"))
    if ex:
        ctx.judge(r, q, "prepared first", len(pr) == 1 and pr[0].i < ex[0].i and res("prepare_schedule") is True, "a trade is executed without its successful preparation (fee, price stability)", eff=ex[0])
        ctx.judge(r, q, "executed once", len(ex) == 1, "a schedule is executed twice", eff=ex[0])
        same = len(pr) == 1 and ex[0].args[0] in pr[0].args and ex[0].args[1] in pr[0].args and match(ex[0].args[1], PL(ST("Schedules", ex[0].args[0])))
        ctx.judge(r, q, "schedule executed", same, "the executed schedule is not the prepared one", eff=ex[0])
    if res("execute_trade") is True:
        ok = len(re_) == 1 and not rt and (res("replan_or_complete") is True and not te or res("replan_or_complete") is False and len(te) == 1)
        ctx.judge(r, q, "after a trade", ok, "an executed schedule must be replanned or completed, and terminated if that fails")
    elif res("execute_trade") is False:
        ok = not re_ and (len(te) == 1 and (not rt or res("retry_schedule") is False) or not te and len(rt) == 1 and res("retry_schedule") is True)
        ctx.judge(r, q, "after a failed trade", ok, "a failed schedule must be retried or terminated")
        if te and not rt:
            no = {e for e in ("TradeLimitReached", "SlippageLimitReached") if err(e, "execute_trade") is False}
            ctx.judge(r, q, "retryable", len(no) == 2 and any(has(f, lambda z: z.op in ("ext", "cfg") and "RetryOnError" in str(z.args[0])) and not p for f, p in q.facts),
                      "a schedule that failed only because of its limits is terminated instead of retried")
    elif res("prepare_schedule") is False:
        un = err("PriceUnstable", "prepare_schedule")
        ctx.judge(r, q, "failed preparation", not ex and not re_ and not rt and (un and not te or not un and len(te) == 1), "a schedule that could not be prepared must be terminated, unless it was rescheduled because of an unstable price")
    else:
        ctx.undecided(r, "iteration", "outcome not understood")


def dca(pid, tier):
    ctx = Ctx(pid, tier, known=("Provider::get_route", "RouteProvider::get_route", "Origin::Signed", "rand::rngs::StdRng::seed_from_u64", "pallets/dca::Pallet::take_transaction_fee_from_user"))
    schedule(ctx)
    terminate(ctx)
    trade(ctx)
    fee(ctx)
    prepare(ctx)
    unstable(ctx)
    replan(ctx)
    retry(ctx)
    finish(ctx)
    hook(ctx)
    return ctx.done(RULE, ["unreserve_named returns the part it could not unreserve"])
