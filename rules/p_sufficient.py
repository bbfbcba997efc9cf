"""Existential deposits of insufficient assets, and the price barrier of omnipool liquidity moves."""
from rules.p_evmfee import called, handler, same
from rules.p_small import *
from vt.terms import const

RULE = ("Every path of the token hooks run before a deposit or transfer and when an account empties is evaluated: who pays, what is charged, locked, counted and refunded must be exactly what the asset, the "
        "receiver's holdings and the payer's fee currency determine.")
RT = "runtime/hydradx"
VALUE = ("free_balance",)
MUT = ("transfer", "set_lock", "remove_lock", "inc_sufficients", "dec_sufficients", "set", "mutate", "put", "deposit", "withdraw", "extend_lock")


def nm(e):
    return str(e.name if hasattr(e, "name") else e.args[0]).replace(".", "::").split("::")[-1]


def effs(q, *names):
    return [e for e in q.eff if e.kind in ("call", "ext") and nm(e) in names]


def ask(q, name, *args):
    """outcome of a yes/no question put to another pallet on this path: True, False or None"""
    for f, p in q.facts:
        if called(name)(f):
            a = [strip(x) for x in f.args[1:] if isinstance(x, Node) and x.op != "at"]
            if len(a) == len(args) and all(x is y for x, y in zip(a, args)):
                return p
    return None


def treasury(n):
    return n.op in ("call", "ext") and "Treasury" in str(n.args[0]) or n.op == "cfg" and "Treasury" in str(n.args[0])


def native(n):
    return n.op in ("call", "ext") and "Native" in str(n.args[0]) or n.op == "cfg" and "Native" in str(n.args[0]) or num(n) == 0


def locked(q, n, lock):
    """the amount of the treasury's lock of that name (zero without one): True, False, None when not understood"""
    if num(n) == 0 or n.op == "default":
        n0 = [f for f, p in q.facts if not p and f.op == "is" and find(f, called("get")) and any("Locks" in str(x.args[0]) for x in find(f, called("get")))]
        return bool(n0) and all(lockof(f.args[0], lock) for f in n0) or None
    if n.op == "payload":
        return lockof(n.args[0], lock)
    if n.op in ("unwrap_or", "unwrap_or_default"):
        return lockof(n.args[0], lock)
    return False if not find(n, lambda z: z.op in ("m", "lam", "opaque")) else None


def lockof(n, lock):
    src = find(n, lambda z: called("get")(z) and "Locks" in str(z.args[0]))
    if not src:
        return False if not find(n, lambda z: z.op == "opaque") else None
    if not all(any(treasury(x) for x in z.args[1:] if isinstance(x, Node)) for z in src):
        return False
    ids = find(n, lambda z: z.op == "eq" and any(x.op == "fld" and x.args[1] == "id" for x in z.args))
    if not ids:
        return None
    if not all(any(x is lock for x in z.args) for z in ids) or any(z.args[0] in ids for z in find(n, lambda z: z.op == "not")):
        return False
    # the amount of the entry found
    am = find(n, lambda z: z.op == "lam" and any(x.op == "fld" and x.args[1] == "amount" for x in z.args if isinstance(x, Node)))
    return True if am or n.op == "fld" and n.args[1] == "amount" else None


def funds(ctx, r, q, asset, payer, to):
    """one path of the hook with the account which has to pay"""
    banned = ask(q, "is_banned", asset)
    acts = effs(q, *MUT)
    ctx.judge(r, q, "banned assets stay", (banned is False) if q.p.ok else True, "an asset that may be banned is moved", relevant=VALUE, key="banned")
    if not q.p.ok:
        return
    holds = ask(q, "contains_key", to, asset)
    suff = ask(q, "is_sufficient", asset)
    if holds or suff:
        ctx.judge(r, q, "nothing owed", not acts, lambda: f"a deposit is taken for {'an account that holds the asset' if holds else 'a sufficient asset'}", relevant=VALUE, key="owed")
        return
    if holds is None or suff is None:
        ctx.judge(r, q, "deposit taken when owed", False, "not asked whether " + ("the receiver holds the asset" if holds is None else "the asset is sufficient"), relevant=VALUE, key="asked")
        return
    tr, lk, inc = effs(q, "transfer"), effs(q, "set_lock", "remove_lock", "extend_lock"), effs(q, "inc_sufficients", "dec_sufficients")
    cnt = [e for e in effs(q, "set", "put", "mutate") if "ExistentialDepositCounter" in str(e.name)]
    ok1 = len(tr) == 1 and len(tr[0].args) == 4
    ctx.judge(r, q, "one payment", ok1, lambda: f"{len(tr)} payments", relevant=VALUE, key="one")
    if ok1:
        c, frm, dst, amt = (strip(a) for a in tr[0].args)
        ctx.judge(r, q, "paid by the right account", frm is payer, lambda: f"paid by {show(frm)[:60]}", relevant=VALUE, key="payer")
        ctx.judge(r, q, "paid to the treasury", treasury(dst), lambda: f"paid to {show(dst)[:60]}", relevant=VALUE, key="treasury")
        own = called("account_currency")(c) and any(strip(x) is payer for x in c.args[1:] if isinstance(x, Node))
        ctx.judge(r, q, "in the payer's fee currency", own, lambda: f"paid in {show(c)[:60]}", relevant=VALUE, key="currency")
        price = [f.args[0] for f, p in q.facts if p and f.op == "is" and called("price")(f.args[0]) and any(strip(x) is c for x in f.args[0].args[1:] if isinstance(x, Node))]
        v = None
        if price:
            pay = mk("payload", price[0])
            want = lambda n: n.op == "m" and n.args[0] in ("saturating_mul_int", "checked_mul_int") and n.args[1] is pay and deposit(n.args[2]) or n.op == "div" and find(n, lambda z: z is pay) and any(deposit(z) for z in find(n, deposit))
            inner = [strip(x) for x in amt.args if num(strip(x)) != 1] if amt.op == "max" and len(amt.args) == 2 and any(num(strip(x)) == 1 for x in amt.args) else []
            v = len(inner) == 1 and bool(want(inner[0]))
        ctx.judge(r, q, "the deposit at its price", v if price else False, lambda: f"charged {show(amt)[:110]}", relevant=VALUE, key="amount")
        ctx.judge(r, q, "payment succeeded", settled(q, tr[0]), "the payment's failure is ignored", relevant=VALUE, key="paid ok")
    ok2 = len(lk) == 1 and nm(lk[0]) == "set_lock" and len(lk[0].args) == 4
    ctx.judge(r, q, "refund locked", ok2, lambda: "locks: " + ", ".join(nm(e) for e in lk), relevant=VALUE, key="locks")
    if ok2:
        lid, c, who, amt = (strip(a) for a in lk[0].args)
        ctx.judge(r, q, "locked at the treasury", native(c) and treasury(who), lambda: f"locked: {show(c)[:40]} of {show(who)[:40]}", relevant=VALUE, key="lock place")
        s = amt.args[0] if amt.op == "sat" else amt
        ed = [x for x in (s.args if s.op == "add" else ()) if called("get")(x) and "ExistentialDeposit" in str(x.args[0]) and "Insufficient" not in str(x.args[0]) or x.op == "cfg" and "ExistentialDeposit" in str(x.args[0])]
        rest = [x for x in s.args if x not in ed] if s.op == "add" else []
        v = locked(q, rest[0], lid) if len(ed) == 1 and len(rest) == 1 else False
        ctx.judge(r, q, "one deposit more locked", v, lambda: f"locks {show(amt)[:120]}", relevant=VALUE, key="lock amount")
        ctx.judge(r, q, "lock succeeded", settled(q, lk[0]), "the lock's failure is ignored", relevant=VALUE, key="lock ok")
    ctx.judge(r, q, "receiver kept alive", len(inc) == 1 and nm(inc[0]) == "inc_sufficients" and strip(inc[0].args[0]) is to, "the receiver is not the one account counted as sufficient once more", relevant=VALUE, key="inc")
    ctx.judge(r, q, "counted", len(cnt) == 1 and step(cnt[0], 1), "the number of deposits paid does not grow by one", relevant=VALUE, key="count")
    ev = [e for e in q.eff if e.kind == "event"]
    d = {}
    for e in ev:
        for a in e.args:
            if a.op.startswith("variant:ExistentialDepositPaid"):
                d = dict(zip(a.op.split(":")[-1].split(","), a.args))
    if ok1:
        ctx.judge(r, q, "reported", bool(d) and strip(d["who"]) is payer and strip(d["fee_asset"]) is c_(tr[0]) and same(d["amount"], tr[0].args[3]) if not d or {"who", "fee_asset", "amount"} <= set(d) else None, "the payment is not reported as made", relevant=VALUE, key="event")


def c_(e):
    return strip(e.args[0])


def settled(q, e):
    for f, p in q.facts:
        if f.op == "is" and f.args[0].op in ("call", "ext") and nm(f.args[0]) == nm(e) and f.args[1] in ("Ok", "Err"):
            a = [x for x in f.args[0].args[1:] if isinstance(x, Node) and x.op != "at"]
            if all(strip(x) is strip(y) for x, y in zip(a, e.args)):
                return p == (f.args[1] == "Ok")
    return False


def deposit(n):
    return n.op in ("call", "ext") and "InsufficientED" in str(n.args[0]) or n.op == "cfg" and "InsufficientED" in str(n.args[0])


def step(e, by):
    if nm(e) not in ("set", "put") or len(e.args) != 1:
        return None if nm(e) == "mutate" else False
    n = strip(e.args[0])
    n = n.args[0] if n.op == "sat" else n
    l = lin(n) if n.op != "satsub" else None
    if n.op == "satsub":
        return by == -1 and num(n.args[1]) == 1 and called("get")(n.args[0]) and "ExistentialDepositCounter" in str(n.args[0].args[0])
    k = [x for x in find(n, lambda z: called("get")(z) and "ExistentialDepositCounter" in str(z.args[0]))]
    return bool(k) and l == lin(add(k[0], const(by)) if by >= 0 else mk("sub", k[0], const(-by)))


def add(a, b):
    return mk("add", *sorted((a, b), key=lambda x: x.id))


def moves(ctx):
    for name in ("on_transfer", "on_deposit"):
        r, qs = handler(ctx, RT, name, "SufficiencyCheck")
        for q in qs or []:
            if name == "on_deposit":
                asset, to = r.arg(0), r.arg(1)
                funds(ctx, r, q, asset, to, to)
                continue
            asset, frm, to = r.arg(0), r.arg(1), r.arg(2)
            w = ask(q, "contains", frm)
            wl = [f for f, p in q.facts if called("contains")(f) and "Whitelist" in str(f.args[0])]
            if w is None and effs(q, "transfer") and not any(strip(x) is frm for f in wl for x in f.args[1:] if isinstance(x, Node)):
                ctx.judge(r, q, "who pays", False, "not asked whether the sender is exempt", relevant=VALUE, key="exempt")
                continue
            funds(ctx, r, q, asset, to if w else frm, to)


def unsat(n):
    n = strip(n)
    return unsat(n.args[0]) if n.op == "sat" else n


def nought(n):
    """a value that is zero whatever the state"""
    n = strip(n)
    if n.op == "default" or num(n) == 0:
        return True
    if n.op in ("sat", "unwrap_or_default"):
        return nought(n.args[0])
    if n.op in ("sub", "satsub", "add", "min") and all(isinstance(x, Node) for x in n.args):
        return all(nought(x) for x in n.args)
    return n.op in ("div", "mul") and nought(n.args[0])


def impossible(q):
    return any(f.op == "eq" and not p and all(nought(x) for x in f.args) for f, p in q.facts)


def killed(ctx):
    r, qs = handler(ctx, RT, "happened", "OnKilledTokenAccount")
    for q in qs or []:
        a = r.arg(0)
        if impossible(q):
            continue
        who, asset = mk("fld", a, "0"), mk("fld", a, "1")
        suff = ask(q, "is_sufficient", asset)
        acts = effs(q, *MUT)
        zero = next((p for f, p in q.facts if f.op == "eq" and any(x.op == "fld" and x.args[1] == "sufficients" for x in f.args) and any(num(x) == 0 for x in f.args)), None)
        if suff or zero:
            ctx.judge(r, q, "nothing to refund", not acts, "a deposit is refunded that was not paid", relevant=VALUE, key="nothing")
            continue
        if suff is None or zero is None:
            ctx.judge(r, q, "refund asked", not acts if not acts else False, "refunds without asking whether a deposit was paid", relevant=VALUE, key="asked")
            continue
        tr, lk, dec = effs(q, "transfer"), effs(q, "set_lock", "remove_lock", "extend_lock"), effs(q, "inc_sufficients", "dec_sufficients")
        cnt = [e for e in effs(q, "set", "put", "mutate") if "ExistentialDepositCounter" in str(e.name)]
        ctx.judge(r, q, "deposit returned once", len(tr) == 1 and len(tr[0].args) == 4, lambda: f"{len(tr)} payments", relevant=VALUE, key="one")
        if len(tr) == 1 and len(tr[0].args) == 4:
            c, frm, dst, amt = (strip(x) for x in tr[0].args)
            ctx.judge(r, q, "returned from the treasury", native(c) and treasury(frm) and dst is who, lambda: f"{show(c)[:30]} from {show(frm)[:40]} to {show(dst)[:40]}", relevant=VALUE, key="parties")
            # share of the lock
            cz = next((p for f, p in q.facts if f.op == "eq" and any(num(x) == 0 for x in f.args) and any(called("get")(x) and "Counter" in str(x.args[0]) for x in f.args)), None)
            lid = strip(lk[0].args[0]) if lk and lk[0].args else None
            s = amt.args[0] if amt.op == "sat" else amt
            if cz:
                ctx.judge(r, q, "share of the deposits", nought(s), "paid back though nobody paid a deposit", relevant=VALUE, key="share")
                base = None
            else:
                ok = s.op == "div" and called("get")(strip(s.args[1])) and "Counter" in str(strip(s.args[1]).args[0])
                base = strip(s.args[0]) if s.op == "div" else None
                ctx.judge(r, q, "share of the deposits", (locked(q, base, lid) if ok and lid is not None else ok or (None if q.holds is None else num(s) == 0 and None)), lambda: f"pays back {show(amt)[:120]}", relevant=VALUE, key="share")
            # lock shrinks by exactly what is paid back
            if len(lk) != 1:
                ctx.judge(r, q, "lock reduced", False, lambda: "locks: " + ", ".join(nm(e) for e in lk), relevant=VALUE, key="lock")
            else:
                place = [strip(x) for x in lk[0].args]
                ctx.judge(r, q, "treasury's lock", len(place) >= 3 and native(place[1]) and treasury(place[2]), "another lock is changed", relevant=VALUE, key="lock place")
                def rest(n):
                    n = strip(n)
                    n = n.args[0] if n.op == "sat" else n
                    if nought(n) and nought(s):
                        return True
                    if n.op in ("sub", "satsub"):
                        return same(unsat(n.args[1]), unsat(s)) and locked(q, strip(n.args[0]), lid)
                    return (nought(s) or None) and locked(q, n, lid)

                left = nought(s) and any(f.op == "is" and not p and find(f, called("get")) and lockof(f.args[0], lid) for f, p in q.facts) or any(
                    f.op == "eq" and p and any(num(x) == 0 for x in f.args) and any(num(x) != 0 and rest(x) for x in f.args) for f, p in q.facts)
                if nm(lk[0]) == "set_lock":
                    n = strip(place[3])
                    v = rest(n)
                    ctx.judge(r, q, "lock reduced by the refund", v, lambda: f"locks {show(n)[:110]}", relevant=VALUE, key="lock amount")
                else:
                    ctx.judge(r, q, "lock removed only when empty", nm(lk[0]) == "remove_lock" and left, "the lock is removed while deposits remain", relevant=VALUE, key="lock removed")
        ctx.judge(r, q, "account released", len(dec) == 1 and nm(dec[0]) == "dec_sufficients" and strip(dec[0].args[0]) is who, "the emptied account is not released once", relevant=VALUE, key="dec")
        ctx.judge(r, q, "counted down", len(cnt) == 1 and down(q, cnt[0]), "the number of deposits paid does not fall by one", relevant=VALUE, key="count")


def down(q, e):
    v = step(e, -1)
    if v:
        return True
    # one less than nothing is nothing
    zero = next((p for f, p in q.facts if f.op == "eq" and any(num(x) == 0 for x in f.args) and any(called("get")(x) and "Counter" in str(x.args[0]) for x in f.args)), None)
    return True if zero and len(e.args) == 1 and num(strip(e.args[0])) == 0 else v


def refund(ctx):
    fs = [f for f in ctx.pallet(RT).c.by_name.get("calculate", []) if f.impl and f.impl["trait"] and "RefundEdCalculator" in repr(f.impl["trait"])]
    if len(fs) != 1:
        ctx.und.append("RefundEdCalculator::calculate not found")
        return
    r, qs = fnpaths(ctx, RT, "calculate", fn=fs[0])
    for q in qs:
        n = strip(q.node)
        n = n.args[0] if n.op == "sat" else n
        cz = next((p for f, p in q.facts if f.op == "eq" and any(num(x) == 0 for x in f.args) and any(called("get")(x) and "Counter" in str(x.args[0]) for x in f.args)), None)
        if cz:
            ctx.judge(r, q, "refund quoted", num(n) == 0, "a refund is quoted though nobody paid", relevant=VALUE)
        else:
            ok = n.op == "div" and called("get")(strip(n.args[1])) and "Counter" in str(strip(n.args[1]).args[0])
            ids = find(n, lambda z: z.op == "eq" and any(x.op == "fld" and x.args[1] == "id" for x in z.args))
            ctx.judge(r, q, "refund quoted", ok and (bool(ids) or num(strip(n.args[0])) == 0 or strip(n.args[0]).op == "default" or None) or (True if num(n) == 0 and cz is False and [f for f, p in q.facts if not p and find(f, called("get"))] else ok and None), lambda: f"quotes {show(n)[:100]}", relevant=VALUE)


def sufficiency(pid, tier):
    ctx = Ctx(pid, tier)
    g = guarded(lambda c, f: f(c))
    for f in (moves, killed, refund):
        g(ctx, f)
    return ctx.done(RULE, ["orml-tokens runs the hooks before deposits and transfers and when an account of an asset empties, and undoes the operation when they fail"])
