"""Omnipool bookkeeping: hub asset, shares and reserves stay in step with what the pool account holds and what positions claim."""
from rules.plib import *

RULE = ("Every success path of every omnipool dispatchable is evaluated over the parsed source; all storage writes and currency movements of the path are turned into signed linear changes over the value graph "
        "(a BalanceUpdate counts as +/- its amount, merging adds) and the required balance equation must vanish, using the path's own comparisons by linear reasoning.")
FUNS = ["add_token", "add_liquidity", "add_liquidity_with_limit", "remove_liquidity", "remove_liquidity_with_limit", "sacrifice_position", "sell", "buy", "set_asset_tradable_state",
        "refund_refused_asset", "set_asset_weight_cap", "withdraw_protocol_liquidity", "remove_token"]
# direction of the components of the specified state changes (decided by M02 and M03)
POS, NEG = 1, -1
SIGN = {("calculate_add_liquidity_state_changes", "asset"): dict(delta_reserve=POS, delta_hub_reserve=POS, delta_shares=POS),
        ("calculate_remove_liquidity_state_changes", "asset"): dict(delta_reserve=NEG, delta_hub_reserve=NEG, delta_shares=NEG, delta_protocol_shares=POS),
        ("calculate_sell_state_changes", "asset_in"): dict(delta_reserve=POS, delta_hub_reserve=NEG), ("calculate_sell_state_changes", "asset_out"): dict(delta_reserve=NEG, delta_hub_reserve=POS),
        ("calculate_buy_state_changes", "asset_in"): dict(delta_reserve=POS, delta_hub_reserve=NEG), ("calculate_buy_state_changes", "asset_out"): dict(delta_reserve=NEG, delta_hub_reserve=POS),
        ("calculate_sell_hub_state_changes", "asset"): dict(delta_reserve=NEG, delta_hub_reserve=POS), ("calculate_buy_for_hub_asset_state_changes", "asset"): dict(delta_reserve=NEG, delta_hub_reserve=POS)}


def change(n):
    """(call, side, field) of a component of a state change"""
    if n.op == "fld" and n.args[0].op == "fld" and n.args[0].args[0].op == "payload" and n.args[0].args[0].args[0].op == "call":
        return str(n.args[0].args[0].args[0].args[0]).split("::")[-1], n.args[0].args[1], n.args[1]
    return None


def atom(n):
    """signed value of an opaque BalanceUpdate over non-negative atoms"""
    c = change(n)
    s = SIGN.get(c[:2], {}).get(c[2]) if c else None
    if c and c[0].startswith(("calculate_sell", "calculate_buy", "calculate_add")) and c[:2] in SIGN and c[2].endswith("shares") and s is None:
        s = 0                                   # trades do not touch shares
    if s is not None:
        return {mk("abs", n): s} if s else {}
    return {mk("incr", n): 1, mk("decr", n): -1}


def removal(n):
    """the calculate_remove_liquidity_state_changes call whose result n is"""
    return n.op == "payload" and n.args[0].op == "call" and str(n.args[0].args[0]).endswith("::calculate_remove_liquidity_state_changes")


def sv(n):
    """signed amount of a BalanceUpdate as a linear form"""
    if n.op == "variant:Increase":
        return amt(n.args[0])
    if n.op == "variant:Decrease":
        return lsub({}, amt(n.args[0]))
    if n.op == "payload":
        return sv(n.args[0])
    if n.op == "m" and n.args[0] == "merge" or n.op == "op+" and len(n.args) == 2:
        a, b = [x for x in n.args if isinstance(x, Node)]
        return ladd(sv(a), sv(b) if upd(b) else amt(b))
    if n.op == "fld" and removal(n.args[0]) and n.args[1] == "delta_position_shares":
        return lsub({}, amt(n.args[0].args[0].args[2]))          # the position loses the removed shares
    if n.op == "fld" and n.args[1] == "delta_shares" and n.args[0].op == "fld" and removal(n.args[0].args[0]):
        call = n.args[0].args[0].args[0]
        return lsub(sv(mk("fld", n.args[0], "delta_protocol_shares")), amt(call.args[2]))
    return atom(n)


def upd(n):
    """is the node a BalanceUpdate?"""
    if n.op.startswith("variant:") or n.op == "m" and n.args[0] == "merge":
        return True
    if n.op == "payload":
        return upd(n.args[0])
    if n.op == "fld":
        return str(n.args[1]).startswith("delta_")
    return False


def amt(n):
    """amount as a linear form, components of BalanceUpdates replaced by their signed values"""
    out = {}
    for a, c in lin(n).items():
        r = {a: 1}
        if a is not None:
            if a.op == "vfld" and a.args[1] in ("Increase", "Decrease"):
                r = sv(a.args[0])
                if a.args[1] == "Decrease":
                    r = lsub({}, r)
            elif a.op == "payload" and a.args[0].op == "op+":
                r = sv(a)
            elif a.op == "satsub" and CUR and lle(CUR[0], amt(a.args[1]), amt(a.args[0])):
                r = lsub(amt(a.args[0]), amt(a.args[1]))
            elif change(a):
                s = SIGN.get(change(a)[:2], {}).get(change(a)[2])
                if s:
                    r = sv(a) if s > 0 else lsub({}, sv(a))
        out = ladd(out, {k: v * c for k, v in r.items()})
    return out


CUR = []


def equations(q):
    """linear comparisons of the path, in signed terms: forms that are >= 0"""
    if getattr(q, "_eqs", None) is None:
        q._eqs = []
        out = []
        for f, p in q.facts:
            if f.op == "eq" and p:
                d = lsub(amt(f.args[0]), amt(f.args[1]))
                out += [d, lsub({}, d)]
            elif f.op == "lt":
                a, b = amt(f.args[0]), amt(f.args[1])
                out.append(lsub(lsub(b, a), {None: 1}) if p else lsub(a, b))
        q._eqs = [{k if k is not None else (): c for k, c in d.items()} for d in out if d]
    return q._eqs


def lle(q, a, b):
    r = {k if k is not None else (): c for k, c in lsub(b, a).items()}
    if all(c >= 0 for c in r.values()):
        return True
    from vt.lin import farkas
    want, cs, rest = set(r) - {()}, [], list(equations(q))
    ch = True
    while ch and len(cs) < 30:
        ch = False
        for c in list(rest):
            if (set(c) & want) - {()}:
                cs.append(c)
                rest.remove(c)
                want |= set(c) - {()}
                ch = True
    return bool(farkas(r, cs[:38]))


def vanishes(q, d):
    return not d or lle(q, d, {}) and lle(q, {}, d)


def deltas(q, item, field):
    """sum of the changes of one field over all entries of a map that the path writes"""
    cur, tot = {}, {}
    for e in q.writes(item):
        k, v = e.args[0], e.args[-1]
        base = mk("fld", mk("payload", mk("st", item, k)), field)
        old = cur.get(k)
        if old is None:
            absent = q.holds(mk("is", mk("st", item, k), "None")) or q.holds(mk("is", mk("st", item, k), "Some")) is False or q.holds(mk("stexists", item, k)) is False or \
                any(f.op in ("stexists",) and f.args[0] == item and k in f.args and not p for f, p in q.facts) or item == "Positions" and match(k, ST("NextPositionId"))
            old = {} if absent else {base: 1}
        if v.op == "removed":
            new = {}
        else:
            f = fields(v)
            if field in f:
                new = amt(f[field])
            elif v.op == "payload" and v.args[0].op == "st":
                new = {mk("fld", v, field): 1}
            else:
                return None
        cur[k] = new
        tot = ladd(tot, lsub(new, old))
    return tot


def fmt(d):
    return " + ".join((f"{c}*" if c != 1 else "") + (show(k)[:90] if k is not None else "1") for k, c in d.items()) or "0"


def is_pool(n):
    return n is not None and match(n, ("m", "into_account_truncating", "_"))


def imbalances(pid, tier):
    ctx = Ctx(pid, tier)
    for f in names(ctx):
        moves(ctx, f)
    return ctx.done(RULE, ["the signs of the state-change components, as decided by M02 and M03"])


@guarded
def moves(ctx, fname):
    r = ctx.fn("omnipool", fname)
    for q in (r.paths if r is not None else ()):
        q.allcertain(ctx, r)
        CUR[:] = [q]
        imbalance(ctx, r, q)


def accounting(pid, tier):
    ctx = Ctx(pid, tier)
    for f in names(ctx):
        one(ctx, f)
    return ctx.done(RULE, ["the signs of the state-change components and that a liquidity removal burns delta_shares - delta_protocol_shares from the position, as decided by M02 and M03",
                           "the id taken from NextPositionId is not in use"])


def names(ctx):
    try:
        have = list(ctx.pallet("omnipool").calls)
    except KeyError:
        return FUNS
    return FUNS + [f for f in have if f not in FUNS]


@guarded
def one(ctx, fname):
    r = ctx.fn("omnipool", fname)
    if r is None:
        return
    for q in r.paths:
        fl = q.flows()
        if any(f.amount is None for f in fl):
            ctx.undecided(r, "hub asset", "unmodelled currency movement")
            continue
        CUR[:] = [q]
        hub, other = {}, {}
        for f in fl:
            h = match(f.asset, CFG("HubAssetId")) or f.asset is not None and any(p and n.op == "eq" and f.asset in n.args and any(match(x, CFG("HubAssetId")) for x in n.args) for n, p in q.facts)
            d = {}
            if is_pool(f.dst):
                d = ladd(d, amt(f.amount))
            if is_pool(f.src):
                d = lsub(d, amt(f.amount))
            if h:
                hub = ladd(hub, d)
            else:
                other[f.asset] = ladd(other.get(f.asset, {}), d)
        dh, ds, dp, dx = deltas(q, "Assets", "hub_reserve"), deltas(q, "Assets", "shares"), deltas(q, "Assets", "protocol_shares"), deltas(q, "Positions", "shares")
        if None in (dh, ds, dp, dx):
            ctx.undecided(r, "state", "unmodelled asset state")
            continue
        loc = fl[0].eff if fl else (q.writes("Assets") or q.writes("Positions") or [None])[0]
        # the dust tokens of a removed asset leave with its state: its whole hub reserve is burned
        ctx.judge(r, q, "hub asset", vanishes(q, lsub(hub, dh)), lambda: f"the pool's hub asset balance changes by {fmt(hub)[:300]} but the assets' hub reserves change by {fmt(dh)[:300]}", eff=loc)
        gone = lsub(lsub(ds, dp), dx)
        ok = vanishes(q, gone)
        if not ok and any(e.args[-1].op == "removed" for e in q.writes("Assets")):
            ok = None if ok is None else removed_ok(q, gone)
        ctx.judge(r, q, "shares", ok, lambda: f"the shares of the pool change by {fmt(lsub(ds, dp))[:300]} (without the protocol's) but positions' shares change by {fmt(dx)[:300]}", eff=loc)
        for e in q.writes("Assets"):
            x = e.args[0]
            D = [c for c in find(e.args[-1], lambda n: change(n) is not None and change(n)[2] == "delta_reserve" or n.op == "fld" and n.args[1] == "delta_hub_reserve")]
            sides = {n.args[0] for n in D if change(n)}
            hs = fields(e.args[-1]).get("hub_reserve")
            side = [n.args[0] for n in find(hs, lambda n: change(n) is not None and change(n)[2] == "delta_hub_reserve")] if hs is not None and hs.op == "payload" else []
            if len(side) == 1:
                want = sv(mk("fld", side[0], "delta_reserve"))
                got = next((d for a, d in other.items() if q.same(a, x)), {})
                ctx.judge(r, q, "reserve", vanishes(q, lsub(want, got)), lambda: f"the state of {show(x)[:60]} follows a change of its reserve by {fmt(want)[:160]} but the pool's balance of it changes by {fmt(got)[:200]}", eff=e)
        lost(ctx, r, q, ("Assets", "Positions"))


def signed(q, neg, val):
    """-value for a negative imbalance, +value otherwise; None when the sign is open"""
    if neg.op == "const":
        t = bool(neg.args[0])
    else:
        t = q.holds(neg)
        if t is None:
            return None
    return lsub({}, amt(val)) if t else amt(val)


def truth(n):
    return n.op in ("true", "const") and (n.op == "true" or bool(n.args[0]))


def imbalance(ctx, r, q):
    """the hub imbalance moves by exactly the delta of the state change and never becomes positive"""
    ws = q.writes("HubAssetImbalance")
    calls = {n for e in q.writes("Assets") for n in find(e.args[-1], lambda n: n.op == "payload" and n.args[0].op == "call" and "_state_changes" in str(n.args[0].args[0]))}
    loc = (ws or q.writes("Assets") or [None])[0]
    if not ws:
        ctx.judge(r, q, "imbalance", not calls, "the asset state changes by a trade or a change of liquidity but the hub imbalance is not updated", eff=loc)
        return
    old = mk("st", "HubAssetImbalance")
    on, ov = mk("fld", old, "negative"), mk("fld", old, "value")
    f = fields(ws[-1].args[-1])
    if not {"negative", "value"} <= set(f):
        ctx.undecided(r, "imbalance", "unmodelled value")
        return
    new = signed(q, f["negative"], f["value"])
    was = signed(q, on, ov)
    # a fresh, zero imbalance has no sign
    if new is None or was is None:
        if f["negative"] is on:
            # same sign as before: the change has the sign that `negative` must have for success
            new, was = lsub({}, amt(f["value"])), lsub({}, amt(ov))
        else:
            ctx.undecided(r, "imbalance", "the sign of the imbalance is open")
            return
    d = lsub(new, was)
    calls |= {n for n in find(f["value"], lambda n: n.op == "payload" and n.args[0].op == "call" and ("_state_changes" in str(n.args[0].args[0]) or str(n.args[0].args[0]).endswith("calculate_delta_imbalance")))}
    wants = []
    for c in calls:
        if str(c.args[0].args[0]).endswith("calculate_delta_imbalance"):
            # a new asset brings hub asset in, a removed one takes it out
            gone = any(e.args[-1].op == "removed" for e in q.writes("Assets"))
            dh = deltas(q, "Assets", "hub_reserve") or {}
            moved = lsub({}, dh) if gone else dh
            if vanishes(q, lsub(amt(c.args[0].args[1]), moved)) and match(c.args[0].args[3], X("free_balance", CFG("HubAssetId"), is_pool)):
                wants.append({c: 1 if gone else -1})
        else:
            wants.append(sv(mk("fld", c, "delta_imbalance")))
    ok = any(vanishes(q, lsub(d, w)) for w in wants)
    ctx.judge(r, q, "imbalance", ok, lambda: f"the hub imbalance changes by {fmt(d)[:300]}, not by the delta of the state change", eff=loc)
    neg = f["negative"]
    ctx.judge(r, q, "imbalance sign", truth(neg) or bool(q.holds(neg)), "the hub imbalance may become positive", eff=loc)


def removed_ok(q, gone):
    """removing an asset whose remaining shares all belong to the protocol: shares == protocol_shares is required"""
    return vanishes(q, gone)


def lost(ctx, r, q, items):
    """two entries of one map are not both computed from the state before the first write unless they differ"""
    ws = [e for e in q.eff if e.kind == "write" and e.extra and len(e.extra) > 3 and (items is None or e.name in items)]
    for j, w2 in enumerate(ws):
        for w1 in ws[:j]:
            if w1.name != w2.name or w2.extra[2] is None or w2.extra[2] > w1.extra[3]:
                continue
            k1, k2 = [tonode_(x) for x in w1.extra[0]], [tonode_(x) for x in w2.extra[0]]
            if all(a is b for a, b in zip(k1, k2)) or len(k1) != len(k2):
                continue
            if w2.args[-1].op == "removed" or not has(w2.args[-1], mk("st", w2.name, *k2)):
                continue
            distinct = any(q.holds(mk("eq", *sorted((a, b), key=lambda z: z.id))) is False or differ(q, a, b) for a, b in zip(k1, k2))
            ctx.judge(r, q, "stale write", distinct, f"{w2.name}({show(k2[0])[:60]}) is written from its value before {w2.name}({show(k1[0])[:60]}) was written; the two may be the same entry", eff=w2)


def differ(q, a, b):
    return any(n.op == "eq" and not p and a in n.args and b in n.args for n, p in q.facts)
