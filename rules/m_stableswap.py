"""Stableswap: invariant iterations, trades, liquidity, prices."""
from vt.spec import *
from vt.terms import binders

M = "math::stableswap::math::"
RTR = "math::support::rational::round_to_rational"
SUM = [M + x for x in ["calculate_d_internal", "calculate_y_internal", "normalize_value"]] + [RTR]
UP, DN = mk("variant:Up"), mk("variant:Down")
PR = ["r", "i", "j", "a", "amp"]


def d_step(e):
    n = e.count("xp")
    ann = e.amp * n
    dp = e.fold("xp", e.x, lambda acc, v: acc * e.x / (v * n))
    return (ann * e.sum("xp") + n * dp) * e.x / ((ann - 1) * e.x + (n + 1) * dp)


def y_step(e):
    n = e.count("xp") + 1
    ann = e.amp * n
    c = e.fold("xp", e.d, lambda acc, v: acc * e.d / (v * n)) * e.d / (ann * n)
    b = e.sum("xp") + e.d / ann
    return (e.x * e.x + c) / (2 * e.x + b - e.d)


def NV(a, dec, tgt, r):
    return fncall(M + "normalize_value", a, dec, tgt, r)


def D(xp, amp):
    return fnsome(M + "calculate_d_internal", xp, amp)


def Y(xp, d, amp):
    return fnsome(M + "calculate_y_internal", xp, d, amp)


def nrm(x):
    return NV(x.amount, x.decimals, 18, DN)


def norm(r):
    return seqmap(r, lambda x, i: nrm(x))


def y_in(e):
    r, i, j, a, amp = [e.nx(k) for k in PR]
    xp = seqmap(r, lambda x, k: ite(eq(k.n, i.n), nrm(r[i]) + NV(a, r[i].decimals, 18, UP), nrm(x)), lambda k: nnot(eq(k.n, j.n)))
    return NV(nrm(r[j]) - Y(xp, D(norm(r), amp), amp), 18, r[j].decimals, DN)


def y_out(e):
    r, i, j, a, amp = [e.nx(k) for k in PR]
    xp = seqmap(r, lambda x, k: ite(eq(k.n, j.n), nrm(r[j]) - NV(a, r[j].decimals, 18, DN), nrm(x)), lambda k: nnot(eq(k.n, i.n)))
    return NV(Y(xp, D(norm(r), amp), amp) - nrm(r[i]), 18, r[i].decimals, UP)


def E(e, n):
    return e.node(nx(n))


def out_gi(e):
    return e.max(0, E(e, y_in(e)) - 1)


def in_go(e):
    return E(e, y_out(e)) + 1


def lfee(e):
    """imbalance fee n/(4(n-1)) of the pool fee"""
    n = e.count("r")
    return e.fee * n / (4 * (n - 1))


def nfee(f, r):
    """the imbalance fee as a fixed-point graph"""
    n = NX(mk("len", nx(r)))
    return f * 10**12 * n / (4 * (n - 1))


def charged(r0, r1, d0, d1, fee):
    def el(x, i):
        i0 = r0[i]
        paid = NX(mk("absdiff", nx(x.amount), nx(d1 * i0.amount / d0)) if nx(x.amount).id <= nx(d1 * i0.amount / d0).id else
                  mk("absdiff", nx(d1 * i0.amount / d0), nx(x.amount)))
        return NX(mk("satsub", nx(x.amount), nx(fee * paid / 10**18)))
    return el


def shares_(e):
    r0, r1, amp, fee = [e.nx(k) for k in ("r", "u", "amp", "fee")]
    d0 = D(norm(r0), amp)
    d1 = D(norm(r1), amp) - 2
    el = charged(r0, r1, d0, d1, nfee(fee, r0))
    adj = seqmap(r1, lambda x, i: NV(el(x, i), x.decimals, 18, DN))
    return E(e, (D(adj, amp) - d0) * e.nx("iss") / d0)


def shares_for(e):
    r0, i_, a, amp, fee = [e.nx(k) for k in ("r", "i", "a", "amp", "fee")]
    upd = lambda x, i: ite(eq(i.n, i_.n), x.amount - a, x.amount)
    d0 = D(norm(r0), amp)
    d1 = D(seqmap(r0, lambda x, i: NV(upd(x, i), x.decimals, 18, DN)), amp)
    f = nfee(fee, r0)

    def el(x, i):
        u = upd(x, i)
        ideal = d1 * r0[i].amount / d0
        paid = NX(absdiff(nx(u), nx(ideal)))
        return NV(NX(mk("satsub", nx(u), nx(f * paid / 10**18))), x.decimals, 18, DN)
    adj = seqmap(r0, el)
    return E(e, (d0 - D(adj, amp)) * e.nx("iss") / d0)


def one_asset(e, sign):
    """(net amount, fee) of exchanging shares for a single asset; sign -1: withdraw, +1: add"""
    r, s, ix, iss, amp, fee = [e.nx(k) for k in ("r", "s", "i", "iss", "amp", "fee")]
    f = nfee(fee, r)
    d = D(norm(r), amp)
    d1 = d - s * d / iss if sign < 0 else d + s * d / iss
    y = Y(seqmap(r, lambda x, i: nrm(x), lambda k: nnot(eq(k.n, ix.n))), d1, amp)

    def red(x, own):
        v = nrm(x)
        t = v * d1 / d
        if sign < 0:
            ex = t - y if own else v - t
        else:
            ex = y - t if own else t - v
        return v - f * ex / 10**18
    y1 = Y(seqmap(r, lambda x, i: red(x, False), lambda k: nnot(eq(k.n, ix.n))), d1, amp)
    own = red(r[ix], True)
    if sign < 0:
        dy = own - y1
        return NV(dy, 18, r[ix].decimals, DN), NV((nrm(r[ix]) - y) - dy, 18, r[ix].decimals, DN)
    dy = y1 - own
    return NV(dy, 18, r[ix].decimals, UP), NV(dy - (y - own), 18, r[ix].decimals, DN)


def pow10(e, k):
    return NX(mk("powi", const(10), nx(k), "u128"))


def share_price(e):
    r, ix, amp = [e.nx(k) for k in ("r", "i", "amp")]
    n = e.count("r")
    xi = E(e, nrm(r[ix]))
    d = e.dd
    c = d * e.fold_node(norm(r), rf(10**18), lambda acc, v: acc * ((d * 10**18) / (n * v)) / 10**18) / 10**18
    ann = e.amp * n
    p = E(e, pow10(e, NX(mk("satsub", const(18), nx(r[ix].decimals)))))
    return (d * xi * ann + xi * c * (n + 1) - xi * d) / (e.iss * (xi * ann + c) * p)


def provided_d(e):
    v = e.d
    return opt(v, lambda x: x) if not isinstance(v, NoneV) else E(e, D(norm(e.nx("r")), e.nx("amp")))


def pair_price(e):
    r, i, j = [e.nx(k) for k in ("r", "i", "j")]
    n = e.count("r")
    x0, xi = E(e, nrm(r[i])), E(e, nrm(r[j]))
    c = e.fold_node(norm(r), e.d, lambda acc, v: acc * e.d / (v * n))
    ann = e.amp * n
    return x0 * (ann * xi + c) / (xi * (ann * x0 + c)) / opt(e.fee, lambda f: 1 - f, 1)


def L(x):
    return mk("len", x)


ONE = const(1)
TRADE = lambda a: [(lt(ONE, L(a("r"))), True), (lt(a("i"), L(a("r"))), True), (lt(a("j"), L(a("r"))), True), (eq(a("i"), a("j")), False)]
LIQ = lambda *more: lambda a: [(lt(ONE, L(a("r"))), True)] + [x for m in more for x in m(a)]
IDX = lambda a: [(lt(a("i"), L(a("r"))), True)]
SAME = lambda a: [(eq(L(a("u")), L(a("r"))), True)]
HELD = lambda a: [(lt(a("iss"), a("s")), False)]
GROWN = lambda a: [(lt((D(norm(NX(a("u"))), NX(a("amp"))) - 2).n, D(norm(NX(a("r"))), NX(a("amp"))).n), False)]
ISS = lambda a: [(lt(ZERO, a("iss")), True)]


def specs():
    A = []
    A.append(IterSpec(M + "calculate_d_internal", ["xp", "amp"], lambda e: e.sum("xp"), d_step, "up", 1e9, bias=1))
    A.append(IterSpec(M + "calculate_y_internal", ["xp", "d", "amp"], lambda e: e.d, y_step, "up", 1e9, bias=1))
    A.append(FnSpec(M + "calculate_out_given_in", PR, {"": Out(out_gi, "exact", 0)}, domain=TRADE, summaries=SUM))
    A.append(FnSpec(M + "calculate_in_given_out", PR, {"": Out(in_go, "exact", 0)}, domain=TRADE, summaries=SUM))
    A.append(FnSpec(M + "calculate_out_given_in_with_fee", PR + ["fee"], {
        "0": Out(lambda e: out_gi(e) * (1 - e.fee), "up", 2), "1": Out(lambda e: out_gi(e) * e.fee, "down", 2)}, domain=TRADE, summaries=SUM))
    A.append(FnSpec(M + "calculate_in_given_out_with_fee", PR + ["fee"], {
        "0": Out(lambda e: in_go(e) * (1 + e.fee), "up", 2), "1": Out(lambda e: in_go(e) * e.fee, "up", 2)}, domain=TRADE, summaries=SUM))
    A.append(FnSpec(M + "calculate_d", ["r", "amp"], {"": Out(lambda e: E(e, D(norm(e.nx("r")), e.nx("amp"))), "exact", 0)}, summaries=SUM))
    A.append(FnSpec(M + "calculate_shares", ["r", "u", "amp", "iss", "fee"], {"": [
        Out(lambda e: E(e, D(norm(e.nx("u")), e.nx("amp")) - 2), "exact", 0, when=lambda e, c, st: e.le(e.iss, 0)),
        Out(shares_, "down", 1)]}, domain=LIQ(SAME, ISS, GROWN), summaries=SUM, degenerate=False))
    A.append(FnSpec(M + "calculate_amplification", ["a0", "a1", "b0", "b1", "b"], {"": [
        Out(lambda e: e.a0, "exact", 0, when=lambda e, c, st: e.le(e.b + 1, e.b0) or e.le(e.b1, e.b0)),
        Out(lambda e: e.a1, "exact", 0, when=lambda e, c, st: e.le(e.b1, e.b)),
        Out(lambda e: e.a0 + (e.a1 - e.a0) * (e.b - e.b0) / (e.b1 - e.b0), "near", 2)]},
        default_mag=1e6))
    A.append(FnSpec(M + "calculate_shares_for_amount", ["r", "i", "a", "amp", "iss", "fee"], {"": Out(shares_for, "up", 1)}, domain=LIQ(IDX, ISS), summaries=SUM))
    PO = ["r", "s", "i", "iss", "amp", "fee"]
    LIM = [("shares <= issuance", lambda e: e.iss - e.s), ("valid index", lambda e: e.count("r") - e.i - 1), ("two assets", lambda e: e.count("r") - 2)]
    A.append(FnSpec(M + "calculate_withdraw_one_asset", PO, {
        "0": Out(lambda e: E(e, one_asset(e, -1)[0]), "exact", 0), "1": Out(lambda e: E(e, one_asset(e, -1)[1]), "exact", 0)},
        domain=LIQ(IDX, ISS, HELD), summaries=SUM, requires=LIM[:1]))
    A.append(FnSpec(M + "calculate_add_one_asset", PO, {
        "0": Out(lambda e: E(e, one_asset(e, 1)[0]), "exact", 0), "1": Out(lambda e: E(e, one_asset(e, 1)[1]), "exact", 0)},
        domain=LIQ(IDX, ISS, HELD), summaries=SUM, requires=LIM[:1]))
    A.append(FnSpec(M + "normalize_value", ["a", "d", "t", "r"], {"": [
        Out(lambda e: E(e, e.nx("a") * pow10(e, e.nx("t") - e.nx("d"))), "exact", 0, when=lambda e, c, st: e.le(e.d, e.t)),
        Out(lambda e: E(e, e.nx("a") / pow10(e, e.nx("d") - e.nx("t"))), "down", 1, when=lambda e, c, st: e.isv("r", "Down")),
        Out(lambda e: E(e, e.nx("a") / pow10(e, e.nx("d") - e.nx("t"))), "up", 1)]}))
    A.append(FnSpec(M + "calculate_share_price", ["r", "amp", "iss", "i", "d"], {"0/1": Out(share_price, "near", INF)},
                    lets={"dd": provided_d}, domain=LIQ(IDX, ISS), summaries=SUM, reject="open"))
    A.append(FnSpec(M + "calculate_spot_price_between_two_stable_assets", ["r", "amp", "d", "i", "j", "fee"],
                    {"": Out(pair_price, "near", INF)}, domain=TRADE, summaries=SUM, reject="open"))
    A.append(NodeSpec(M + "calculate_share_prices", ["r", "amp", "iss"], prices_judge, summaries=OPQ))
    A.append(NodeSpec(M + "calculate_spot_price", ["pool", "r", "amp", "i", "o", "iss", "min", "fee"], spot_judge, summaries=OPQ))
    return A


OPQ = [M + x for x in ("calculate_share_price", "calculate_d", "calculate_shares_for_amount", "calculate_shares", "calculate_spot_price_between_two_stable_assets")]


def find(n, f, out=None):
    out = [] if out is None else out
    if hasattr(n, "op"):
        if f(n) and n not in out:
            out.append(n)
        for a in n.args:
            find(a, f, out)
    return out


def callsto(n, name):
    return find(n, lambda x: x.op in ("call", "sum") and x.args[0] == M + name)


def prices_judge(a, st, n):
    """one share price per asset, all with the same invariant"""
    cs = callsto(n, "calculate_share_price")
    if n.op == "empty":
        return [("prices", False, "no price is given")]
    if any(f is lt(ONE, L(tonode_(a["r"]))) and not p for f, p in st.facts):
        return [("pools", False, "prices are given for pools of one asset only")]
    if len(cs) != 1 or n.op != "seq":
        return [("prices", None, show(n)[:200])]
    c = cs[0]
    v = lambda k: tonode_(a[k])
    d = mk("payload", mk("sum", M + "calculate_d", v("r"), v("amp")))
    args = c.args[1:]
    ok = len(args) == 5 and args[0] is v("r") and args[1] is v("amp") and args[2] is v("iss")
    dom = n.args[0]
    full = dom.op == "range" and dom.args[0] is ZERO and dom.args[1].op == "len" and dom.args[1].args[0] is v("r") and not dom.args[2]
    full = full or dom is v("r")
    last = args[4] if len(args) == 5 else None
    okd = last is not None and (last.op.startswith("variant:None") or find(last, lambda x: x is d))
    return [("arguments", bool(ok and okd), f"share prices are computed from {[show(x)[:60] for x in args]}"),
            ("index", True if len(args) == 5 and args[3] is binders(n)[0] else False if len(args) == 5 and args[3].op == "const" else None, f"share price of asset {show(args[3])[:60]}"),
            ("range", True if full else False if dom.op == "range" and dom.args[0].op == "const" and dom.args[0] is not ZERO else None, f"prices are computed for {show(dom)[:100]}"),
            ("element", n.args[1].op == "payload" and n.args[1].args[0] is c or None, show(n.args[1])[:100])]


def spot_judge(a, st, n):
    """the pair price of the two assets, or the share exchange rate of the minimum trade"""
    v = lambda k: tonode_(a[k])
    pos = {}
    for f, p in st.facts:
        if f.op == "eq" and v("pool") in f.args:
            for k in ("i", "o"):
                if v(k) in f.args:
                    pos[k] = p
    if len(pos) != 2:
        return [("case", None, "which asset is the share is not decided")]
    plain = find(mk("t", n, *[f for f, p in st.facts]), lambda x: x.op in ("call", "sum") and x.args[0] == M + "calculate_d")
    ds = [x for x in plain]
    if len(ds) != 1:
        return [("invariant", None, f"{len(ds)} invariants")]
    rs, amp = ds[0].args[1], ds[0].args[2]
    d = mk("payload", ds[0])
    out = [("amplification", amp is v("amp"), f"the invariant uses {show(amp)[:80]}")]

    def index(x, k):
        ps = find(x, lambda y: y.op == "position")
        if any(y.args[1].op == "not" for y in ps):
            return False
        return x.op in ("payload", "position") and bool(find(x, lambda y: y is v(k))) and not find(x, lambda y: y is v("i" if k == "o" else "o"))

    if not pos["i"] and not pos["o"]:
        cs = callsto(n, "calculate_spot_price_between_two_stable_assets")
        if len(cs) != 1:
            return out + [("pair price", None, show(n)[:120])]
        x = cs[0].args[1:]
        out += [("reserves", x[0] is rs, show(x[0])[:80]), ("pair amplification", x[1] is v("amp"), show(x[1])[:80]), ("pair invariant", x[2] is d, show(x[2])[:80]),
                ("asset in", index(x[3], "i"), show(x[3])[:80]), ("asset out", index(x[4], "o"), show(x[4])[:80]),
                ("fee", bool(find(x[5], lambda y: y is mk("var", "fee"))), show(x[5])[:80])]
        return out
    fee = mk("var", "fee")
    has = [p for f, p in st.facts if f.op == "is" and f.args[0] is fee]

    def feearg(x):
        if has and has[0] is False:
            return x is ZERO
        return bool(find(x, lambda y: y is fee))
    if pos["i"] and not pos["o"]:
        cs = callsto(n, "calculate_shares_for_amount")
        if len(cs) != 1:
            return out + [("share price", False if callsto(n, "calculate_shares") else None, show(n)[:120])]
        x = cs[0].args[1:]
        want = (NX(mk("payload", cs[0])) * NX(const(10**18)) / NX(v("min"))).n
        return out + [("reserves", x[0] is rs, show(x[0])[:80]), ("asset out", index(x[1], "o"), show(x[1])[:80]), ("traded amount", x[2] is v("min"), show(x[2])[:80]),
                      ("share amplification", x[3] is v("amp"), show(x[3])[:80]), ("issuance", x[4] is v("iss"), show(x[4])[:80]), ("fee", feearg(x[5]), show(x[5])[:80]),
                      ("share price", n is want, show(n)[:200])]
    if pos["o"] and not pos["i"]:
        cs = callsto(n, "calculate_shares")
        if len(cs) != 1:
            return out + [("share price", False if callsto(n, "calculate_shares_for_amount") else None, show(n)[:120])]
        x = cs[0].args[1:]
        want = (NX(v("min")) * NX(const(10**18)) / NX(mk("payload", cs[0]))).n
        grown = find(x[1], lambda y: y.op == "add" and v("min") in y.args)
        sel0 = find(x[1], lambda y: y.op == "ite")
        if len(sel0) == 1:
            c, t, f = sel0[0].args
            g = [bool(find(y, lambda z: z in grown)) for y in (t, f)]
            iseq = c.op == "eq" and v("i") in c.args
            if iseq and g != [True, False]:
                out = out + [("grown asset", False, f"the traded amount is added when {show(c)[:80]} is {g[0]}")]
        sel = find(x[1], lambda y: y.op == "eq" and v("i") in y.args)
        return out + [("reserves", x[0] is rs, show(x[0])[:80]), ("grown reserve", bool(grown) if not find(x[1], lambda y: y.op in ("m", "apply", "closure")) else None, show(x[1])[:160]),
                      ("grown asset", True if sel else None, show(x[1])[:160]), ("share amplification", x[2] is v("amp"), show(x[2])[:80]), ("issuance", x[3] is v("iss"), show(x[3])[:80]),
                      ("fee", feearg(x[4]), show(x[4])[:80]), ("share price", n is want, show(n)[:200])]
    return [("case", False, "a price of the share in itself")]
