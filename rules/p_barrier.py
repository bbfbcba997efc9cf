"""Trades handed to the pool that serves them, and the price barrier of the omnipool's liquidity moves."""
from rules.p_evmfee import called, handler, same
from rules.p_prices import value
from rules.p_formula import ratio
from rules.p_small import *
from vt.terms import const
from vt.pallet import tyname

VALUE = ("free_balance",)
RULE_D = ("impl_for_tuples bodies are written out for a tuple of three pools and every path is evaluated: the order of the pools asked, the arguments handed on, and the answer returned after each kind of answer.")
RULE_B = ("Every path of the barrier is evaluated; the condition under which it accepts is compared with the documented one as an exact rational inequality, and the tuple of barriers is written out for three elements.")
DISPATCH = {"calculate_sell": 4, "calculate_buy": 4, "execute_sell": 6, "execute_buy": 6, "get_liquidity_depth": 3, "calculate_spot_price_with_fee": 3}


def element(n):
    """(index, function, arguments) of a call of a tuple element"""
    if not (isinstance(n, Node) and n.op in ("call", "ext")):
        return None
    p = str(n.args[0]).replace(".", "::").split("::")
    if len(p) >= 2 and p[-2].startswith("Tuple") and p[-2][5:].isdigit():
        return int(p[-2][5:]), p[-1], [x for x in n.args[1:] if not (isinstance(x, Node) and x.op == "at")]
    return None


def tuplefn(ctx, pn, name):
    fs = [f for f in ctx.pallet(pn).c.by_name.get(name, []) if f.impl and f.impl["trait"] and tyname(f.impl["self"]) == "Tuple"]
    if len(fs) != 1:
        ctx.und.append(f"{pn}: {name} for tuples: {len(fs)} found")
        return None, []
    return fnpaths(ctx, pn, name, fn=fs[0])


def asked(q):
    out = []
    for e in q.eff:
        if e.kind in ("call", "ext"):
            x = element(mk("call", e.name, *e.args))
            if x:
                out.append(x)
    return out


def answer(q, i, name):
    """what element i answered on this path: 'ok', 'no' (not supported), 'err', None"""
    out = None
    for f, p in q.facts:
        if f.op in ("is", "eq"):
            b = f.args[0]
            if f.op == "is" and b.op == "errof" and element(b.args[0]) and element(b.args[0])[0] == i and f.args[1] == "NotSupported":
                out = "no" if p else "err"
            elif f.op == "is" and element(b) and element(b)[0] == i and f.args[1] in ("Ok", "Err"):
                if p == (f.args[1] == "Ok"):
                    out = "ok"
                elif out is None:
                    out = "failed"
            elif f.op == "eq" and any(x.op == "errof" and element(x.args[0]) and element(x.args[0])[0] == i for x in f.args) and any("NotSupported" in x.op or x.op == "fn" and "NotSupported" in str(x.args[0]) for x in f.args):
                out = "no" if p else "err"
    return out


def dispatch(ctx):
    for name, count in DISPATCH.items():
        r, qs = tuplefn(ctx, "traits", name)
        for q in qs or []:
            ev = asked(q)
            ctx.judge(r, q, "asked in turn", [x[0] for x in ev] == list(range(len(ev))) and len(ev) >= 1 or (None if not ev and not q.p.ok else False), lambda: f"pools asked: {[x[0] for x in ev]}", relevant=VALUE, key=name)
            if not ev:
                continue
            ok = all(x[1] == name and len(x[2]) == count and all(strip(a) is strip(r.arg(k)) for k, a in enumerate(x[2])) for x in ev)
            ctx.judge(r, q, "asked for the trade itself", ok, lambda: "asks " + "; ".join(f"{x[1]}({', '.join(show(a)[:24] for a in x[2])})" for x in ev)[:170], relevant=VALUE, key=name)
            a = [answer(q, x[0], name) for x in ev]
            last, i = a[-1], ev[-1][0]
            skipped = all(x == "no" for x in a[:-1])
            ctx.judge(r, q, "only unsupporting pools passed over", skipped if None not in a[:-1] and "failed" not in a[:-1] else False, lambda: f"answers passed over: {a[:-1]}", relevant=VALUE, key=name)
            if q.p.ok:
                n = q.node
                if isinstance(n, Node) and n.op == "variant:Ok" and n.args:
                    n = n.args[0]
                pay = isinstance(n, Node) and n.op == "payload" and element(n.args[0]) and element(n.args[0])[0] == i
                unit = name.startswith("execute")
                ctx.judge(r, q, "the pool's answer returned", last == "ok" and (pay or unit), lambda: f"succeeds with {show(q.node)[:80] if isinstance(q.node, Node) else '?'} after {last}", relevant=VALUE, key=name)
            else:
                whole = last == "no" and i == 2 or last == "err"
                if last == "failed":
                    looked = [f for f, p in q.facts if find(f, lambda z: z.op == "errof") or "NotSupported" in show(f)]
                    whole = i == 2 or (None if looked else False)
                ctx.judge(r, q, "refusal is the pool's", whole if last != "ok" else False, lambda: f"fails after {a}", relevant=VALUE, key=name)


def routing(pid, tier):
    ctx = Ctx(pid, tier)
    guarded(lambda c, f: f(c))(ctx, dispatch)
    return ctx.done(RULE_D, ["elements of a tuple are tried in order by the code impl_for_tuples generates; tuples of other lengths repeat the same body"])


# ---- price barrier ------------------------------------------------------------------------------
def tuple_barrier(ctx):
    r, qs = tuplefn(ctx, "omnipool", "ensure_price")
    for q in qs or []:
        ev = asked(q)
        a = []
        for x in ev:
            f = [p == (f.args[1] == "Ok") for f, p in q.facts if f.op == "is" and element(f.args[0]) and element(f.args[0])[0] == x[0] and f.args[1] in ("Ok", "Err")]
            a.append(f[0] if f else None)
        ok = all(x[1] == "ensure_price" and len(x[2]) == 4 and all(strip(y) is strip(r.arg(k)) for k, y in enumerate(x[2])) for x in ev)
        ctx.judge(r, q, "barriers asked about the move itself", ok, "a barrier is asked about something else", relevant=VALUE)
        if q.p.ok:
            ctx.judge(r, q, "every barrier passed", sorted(x[0] for x in ev) == [0, 1, 2] and all(a), lambda: f"accepted with answers {list(zip([x[0] for x in ev], a))}", relevant=VALUE)
        else:
            ctx.judge(r, q, "a barrier refused", a and False in a, "refused though no barrier did", relevant=VALUE)


def poly_eq(x, y):
    return x.same(y)


def within(ctx):
    r, qs = handler(ctx, "omnipool", "ensure_price", "EnsurePriceWithin")
    for q in qs or []:
        who, a, b, cur = (r.arg(k) for k in range(4))
        wl = next((p for f, p in q.facts if f.op in ("call", "ext") and called("contains")(f) and "Whitelist" in str(f.args[0]) and any(strip(x) is who for x in f.args[1:] if isinstance(x, Node))), None)
        if wl:
            ctx.judge(r, q, "exempt accounts pass", q.p.ok, "an exempt account is refused", relevant=VALUE)
            continue
        pr = [f.args[0] for f, p in q.facts if p == (f.args[1] == "Ok") and f.op == "is" and f.args[1] in ("Ok", "Err", "Some") and called("get_price")(f.args[0])] if True else []
        if not q.p.ok:
            continue
        ctx.judge(r, q, "others are checked", wl is False and len(pr) == 1, "accepted without an exemption or the oracle's price", relevant=VALUE)
        if len(pr) != 1:
            continue
        args = [strip(x) for x in pr[0].args[1:] if isinstance(x, Node) and x.op != "at"]
        ctx.judge(r, q, "the pair's oracle price", len(args) == 2 and args[0] is a and args[1] is b, lambda: f"oracle asked for {[show(x)[:30] for x in args]}", relevant=VALUE)
        e = ratio(mk("fld", mk("payload", pr[0]), "n")) / ratio(mk("fld", mk("payload", pr[0]), "d"))
        s = ratio(mk("fld", cur, "n")) / ratio(mk("fld", cur, "d"))
        one = ratio(const(10 ** 18))
        order, bounds, odd = None, [], []
        lts = []
        for f, p in q.facts:
            if f.op not in ("lt", "le", "eq") or not find(f, lambda n: n.op == "fld" and (n.args[0] is cur or n.args[0].op == "payload" and n.args[0].args[0] is pr[0])):
                continue
            if f.op == "eq" and any(num(x) == 0 for x in f.args):
                continue
            x, y = value(f.args[0]), value(f.args[1])
            if x is None or y is None:
                odd.append(f)
                continue
            # (x - y) REL 0
            rel = {("lt", True): "<", ("lt", False): ">=", ("le", True): "<=", ("le", False): ">"}.get((f.op, p))
            if rel is None:
                odd.append(f)
                continue
            lts.append((x - y, rel))
        for d, rel in lts:
            for k in (one, ratio(const(1))):
                if d.same((s - e) * k):
                    order = rel
                elif d.same((e - s) * k):
                    order = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}[rel]
        if odd or order is None:
            # not ordered: the difference must be absolute in itself
            ctx.judge(r, q, "distance to the oracle", None if odd else False, "the distance between the prices is not bounded", relevant=VALUE)
            continue
        dist = (s - e) if order in (">", ">=") else (e - s)
        m = [n for f, _ in q.facts for n in find(f, lambda z: called("get")(z) and "MaxAllowed" in str(z.args[0]))]
        v, got = False, ""
        for d, rel in lts:
            for mm in m[:1]:
                lim = ratio(mm) * (s + e)
                want = dist * ratio(const(2)) - lim
                for k in (one, ratio(const(1))):
                    if d.same(want * k) and rel == "<=" or d.same(want * ratio(const(-1)) * k) and rel == ">=":
                        v = True
                    elif d.same(want * k) or d.same(want * ratio(const(-1)) * k):
                        got = "the bound is " + rel
        rest = len(lts) - 1 - sum(1 for d, rel in lts if any(d.same((s - e) * k) or d.same((e - s) * k) for k in (one, ratio(const(1)))))
        ctx.judge(r, q, "distance to the oracle", v if m else False, lambda: got or "accepted without 2|spot - oracle| <= max * (spot + oracle)", relevant=VALUE)
        if v:
            ctx.judge(r, q, "nothing else required", rest <= 0, "acceptance has a further condition on the prices", relevant=VALUE)


def exempt(ctx):
    r, qs = handler(ctx, "runtime/hydradx", "contains", "CircuitBreakerWhitelist")
    for q in qs or []:
        n = strip(q.node)
        ok = n.op == "eq" and any(strip(x) is r.arg(0) for x in n.args) and any(called("into_account_truncating")(x) and find(x, lambda z: "TreasuryPalletId" in str(z.args[0]) if z.op in ("call", "cfg") else False) or
                                                                               x.op in ("call", "cfg") and "TreasuryAccount" in str(x.args[0]) for x in n.args)
        if not ok:
            w = [(f, p) for f, p in q.facts if f.op == "eq" and any(strip(x) is r.arg(0) for x in f.args) and find(f, lambda z: z.op in ("call", "cfg") and "Treasury" in str(z.args[0]))]
            ok = bool(w) and (isT(n) if w[0][1] else isF(n))
        ctx.judge(r, q, "only the treasury is exempt", ok, lambda: f"exempt: {show(n)[:100]}", relevant=VALUE)


BITS = {"FROZEN": 0, "SELL": 1, "BUY": 2, "ADD_LIQUIDITY": 4, "REMOVE_LIQUIDITY": 8}


def flags(n, me, st):
    """a bit set or a condition on one, for a given state of the asset; None when not understood"""
    n = strip(n)
    if n is me:
        return st
    if isT(n) or isF(n):
        return isT(n)
    if n.op == "fn":
        return BITS.get(str(n.args[0]).split("::")[-1])
    k = str(n.args[0]) if n.op == "m" else n.op
    xs = [flags(x, me, st) for x in n.args[(n.op == "m"):] if isinstance(x, Node)]
    if None in xs or not xs:
        return None
    two = {"op|": lambda a, b: a | b, "op&": lambda a, b: a & b, "union": lambda a, b: a | b, "intersection": lambda a, b: a & b, "difference": lambda a, b: a & ~b, "eq": lambda a, b: a == b, "contains": lambda a, b: a & b == b,
           "intersects": lambda a, b: bool(a & b), "and": lambda a, b: a and b, "or": lambda a, b: a or b}
    one = {"is_empty": lambda a: a == 0, "not": lambda a: not a, "bits": lambda a: a, "complement": lambda a: 15 & ~a}
    if k in two and len(xs) == 2:
        return two[k](*xs)
    return one[k](xs[0]) if k in one and len(xs) == 1 else None


def safe(ctx):
    r, qs = fnpaths(ctx, "omnipool", "is_safe_withdrawal")
    me = r.arg(0) if r else None
    for q in qs:
        bad = unknown = None
        for st in range(16):
            fs = [(flags(f, me, st), p) for f, p in q.facts]
            if any(v is not None and bool(v) != p for v, p in fs):
                continue
            v = flags(q.node, me, st)
            if v is None or any(x is None for x, _ in fs):
                unknown = True
            elif bool(v) != (st in (8, 12)):
                bad = st
        ctx.judge(r, q, "trading disabled", False if bad is not None and not unknown else None if unknown else True,
                  lambda: "a withdrawal is called " + ("safe" if bad not in (8, 12) else "unsafe") + " in state " + ("|".join(k for k, b in BITS.items() if b & bad) or "FROZEN"), relevant=VALUE)


def barrier(pid, tier):
    ctx = Ctx(pid, tier)
    g = guarded(lambda c, f: f(c))
    for f in (tuple_barrier, within, exempt, safe):
        g(ctx, f)
    return ctx.done(RULE_B, ["fixed-point rounding of the two prices and of the bound is disregarded: the inequality is compared exactly", "which moves are subject to the barrier is decided by P06"])
