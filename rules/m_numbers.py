"""Rounding of wide rationals, fractions, ratios, moving averages."""
from vt.spec import *
from vt.terms import nmax, ONE

EM = "math::ema::math::"
F_ = "math::fraction::"
PWR = "math::transcendental::saturating_powi_high_precision"
W = 2**127


def wide(qual, names=("nd", "r"), comps="01", lim=128):
    """(n, d) shifted right until both fit 128 bits, then biased in the requested direction"""
    def sh(e):
        return NX(mk("satsub", nmax(mk("bits", part(e, "0").n), mk("bits", part(e, "1").n)), const(lim)))

    def fits(e, c, st):
        return e.holds(eq(ZERO, sh(e).n))

    def part(e, k):
        v = e.raw(names[0])
        return NX(tonode_(v.xs[int(k)]) if isinstance(v, Tup) else mk("fld", tonode_(v), k))

    def val(k, up):
        def f(e):
            b = 1 if e.isv(names[1], up) else 0
            v = E(e, NX(mk("shr", part(e, k).n, sh(e).n))) + b
            if k == "0":
                lo = 0 if e.holds(eq(ZERO, part(e, k).n)) else 1
            else:
                lo = 1
            return e.max(v, lo)
        return f
    return FnSpec(qual, list(names), {
        comps[0]: [Out(lambda e: E(e, part(e, "0")), "exact", 0, when=fits), Out(val("0", "Up"), "exact", 0)],
        comps[1]: [Out(lambda e: e.max(E(e, part(e, "1")), 1) if comps[1] == "d" else E(e, part(e, "1")), "exact", 0, when=fits), Out(val("1", "Down"), "exact", 0)]}, reject="open")


def E(e, n, k=1):
    return e.node(nx(n), k)


def wavg(p, i, w):
    return p + w * (i - p)


def specs():
    S = [wide("math::support::rational::round_to_rational"), wide("math::support::rational::round_u512_to_rational")]
    near = lambda f, a=1: Out(f, "near", a)
    FR = dict(mags={"w": 1e37})
    S += [
        FnSpec(F_ + "frac", ["n", "d"], {"": near(lambda e: e.n / e.d)}, reject="open"),
        FnSpec(F_ + "to_fixed", ["f"], {"": near(lambda e: e.f)}, reject="open"),
        FnSpec(F_ + "from_fixed", ["f"], {"": near(lambda e: e.f)}, reject="open"),
        FnSpec(F_ + "multiply_by_balance", ["f", "b"], {"": near(lambda e: e.f * e.b)}, reject="open"),
        FnSpec(F_ + "multiply_by_fixed", ["f", "x"], {"": near(lambda e: e.f * e.x)}, reject="open"),
    ]
    RT = "math::ratio::Ratio::"
    dz = lambda k: (lambda e, c, st: e.holds(eq(ZERO, tonode_(e.raw(k).f["d"]))))
    same = lambda e, c, st: e.holds(eq(tonode_(e.raw("a").f["d"]), tonode_(e.raw("b").f["d"])))
    S += [
        FnSpec(RT + "cmp", ["a", "b"], {"": [Out(lambda e: e.a.n - e.b.n, "graph", when=same), Out(lambda e: "Greater", "graph", when=dz("a")),
                                             Out(lambda e: "Less", "graph", when=dz("b")), Out(lambda e: e.a.n * e.b.d - e.b.n * e.a.d, "graph")]}, reject="open"),
        FnSpec(RT + "one", [], {"n/d": Out(lambda e: 1, "exact", 0)}),
        FnSpec(RT + "zero", [], {"n": Out(lambda e: 0, "exact", 0)}),
        FnSpec(RT + "is_zero", ["a"], {"": Out(lambda e: NX(TRUE if e.holds(eq(ZERO, tonode_(e.raw("a").f["n"]))) else FALSE), "graph")}),
        FnSpec(RT + "is_one", ["a"], {"": Out(lambda e: NX(FALSE if e.holds(eq(ZERO, tonode_(e.raw("a").f["d"]))) else TRUE if e.holds(
            eq(tonode_(e.raw("a").f["n"]), tonode_(e.raw("a").f["d"]))) else FALSE), "graph")}),
        FnSpec(RT + "new", ["n", "d"], {"n": Out(lambda e: e.n, "exact", 0), "d": Out(lambda e: e.pos("d"), "exact", 0)}, reject="open"),
        FnSpec(RT + "inverted", ["a"], {
            "n": [Out(lambda e: 0, "exact", 0, when=lambda e, c, st: e.holds(eq(ZERO, tonode_(e.raw("a").f["n"])))), Out(lambda e: e.a.d, "exact", 0)],
            "d": [Out(lambda e: e.a.d, "exact", 0, when=lambda e, c, st: e.holds(eq(ZERO, tonode_(e.raw("a").f["n"])))), Out(lambda e: e.a.n, "exact", 0)]}, reject="open"),
    ]
    ptext = lambda f: str(f.params[0][1])
    S += [
        FnSpec(RT + "from", ["n"], {"n": Out(lambda e: e.n, "exact", 0), "d": Out(lambda e: 1, "exact", 0)}, pick=lambda f: "ttup" not in ptext(f), reject="open"),
        FnSpec(RT + "from", ["nd"], {"n": Out(lambda e: e.nd.f0, "exact", 0), "d": Out(lambda e: E(e, nmax(tonode_(e.raw("nd").xs[1]), ONE)), "exact", 0)}, pick=lambda f: "ttup" in ptext(f), reject="open"),
        FnSpec("math::ratio::(u128,u128)::from", ["r"], {"0": Out(lambda e: e.r.n, "exact", 0), "1": Out(lambda e: e.r.d, "exact", 0)}, reject="open"),
    ]
    SU = "math::support::u128::"
    S += [
        FnSpec(SU + "u128::checked_add_into", ["a", "b"], {"": Out(lambda e: e.a + e.b, "exact", 0)}),
        FnSpec(SU + "u128::checked_mul_into", ["a", "b"], {"": Out(lambda e: e.a * e.b, "exact", 0)}),
        FnSpec(SU + "U256::checked_div_inner", ["a", "b"], {"": Out(lambda e: e.a / e.b, "down", 1)}),
        FnSpec(SU + "U256::checked_mul_inner", ["a", "b"], {"": Out(lambda e: e.a * e.b, "exact", 0)}),
    ]
    return S + ema()


def exps(e):
    """1 - (1 - s)^n with the high-precision power"""
    return 1 - E(e, fncall(PWR, NX(const(W)) - e.nx("s"), e.nx("n")), W)


def avgs(names):
    """componentwise weighted averages of tuples"""
    def one(k):
        return Out(lambda e: wavg(getattr(e.p, "f%d" % k), getattr(e.i, "f%d" % k), e.w), "near", 1)
    return {str(k): one(k) for k in range(names)}


def sub_(e):
    return e.l.n * e.r.d - e.r.n * e.l.d


def ema():
    near = lambda f, a=1: Out(f, "near", a)
    RND = [EM + "round", EM + "round_to_rational"]
    zero = lambda x: lambda e, c, st: e.holds(eq(ZERO, x(e)))
    ln, rn = (lambda e: tonode_(e.raw("l").f["n"])), (lambda e: tonode_(e.raw("r").f["n"]))
    xn = lambda e: tonode_(e.raw("x").xs[0])
    one = lambda e, c, st: e.holds(eq(const(W), tonode_(e.raw("f"))))
    big = dict(reject="open")

    def parts(e, name, ks):
        v = e.raw(name)
        if isinstance(v, Struct):
            return [NX(tonode_(v.f[k])) for k in ks]
        return [NX(tonode_(v.xs[int(k)])) for k in ks]

    def combine(sign):
        """l + x or l - x on a common denominator, the second operand first rounded to 384 bits"""
        def k(which):
            def f(e):
                l, x = parts(e, "l", "nd"), parts(e, "x", "01")
                r = fncall(EM + "round", tonode_(e.raw("x")), e.nx("r"))
                rn, rd = NX(mk("fld", r.n, "0")), NX(mk("fld", r.n, "1"))
                a, b = E(e, l[0]) * E(e, rd), E(e, rn) * E(e, l[1])
                n, d = (e.max(a + b * sign, 0), E(e, l[1]) * E(e, rd))
                return n / d
            return f
        zl, zx = zero(ln), zero(xn)
        ratio = lambda n: (lambda e: (lambda v: E(e, v[0]) / E(e, v[1]))(parts(e, *n)))
        if sign < 0:
            w = [Out(ratio(("l", "nd")), "near", INF, when=zl), Out(ratio(("l", "nd")), "near", INF, when=zx)]
        else:
            w = [Out(ratio(("x", "01")), "near", INF, when=zl), Out(ratio(("l", "nd")), "near", INF, when=zx)]
        return {"n/d": w + [Out(k("n"), "near", INF)]}

    def pavg(k):
        def f(e):
            w, p, i = e.nx("w"), e.nx("p"), e.nx("i")
            up = e.holds(lt(i.n, p.n))
            d = fncall(EM + "saturating_sub", p, i) if up else fncall(EM + "saturating_sub", i, p)
            m = fncall(EM + "multiply", w, d)
            q = fncall(EM + ("rounding_sub" if up else "rounding_add"), p, m, mk("variant:Up") if up else mk("variant:Down"))
            return E(e, NX(mk("fld", q.n, k)))
        return Out(f, "exact", 0)
    return [
        FnSpec(EM + "smoothing_from_period", ["n"], {"": near(lambda e: 2 / (e.pos("n") + 1))}, reject="open"),
        FnSpec(EM + "exp_smoothing", ["s", "n"], {"": Out(exps, "exact", 0)}, summaries=[PWR], **big),
        FnSpec(EM + "balance_weighted_average", ["p", "i", "w"], {"": near(lambda e: wavg(e.p, e.i, e.w))}, **big),
        FnSpec(EM + "volume_weighted_average", ["p", "i", "w"], avgs(4), **big),
        FnSpec(EM + "liquidity_weighted_average", ["p", "i", "w"], avgs(2), **big),
        FnSpec(EM + "saturating_sub", ["l", "r"], {
            "0/1": [Out(lambda e: e.l.n / e.l.d, "exact", 0, when=zero(rn)), Out(lambda e: e.max(sub_(e), 0) / (e.l.d * e.r.d), "exact", 0)]}, **big),
        FnSpec(EM + "multiply", ["f", "x"], {"0/1": Out(lambda e: e.f * e.x.f0 / e.x.f1, "exact", 0)}, **big),
        wide(EM + "round_to_rational", comps="nd"),
        wide(EM + "round", lim=383),
        FnSpec(EM + "rounding_add", ["l", "x", "r"], combine(1), summaries=RND, **big),
        FnSpec(EM + "rounding_sub", ["l", "x", "r"], combine(-1), summaries=RND, **big),
        FnSpec(EM + "price_weighted_average", ["p", "i", "w"], {"n": pavg("n"), "d": pavg("d")},
               summaries=[EM + x for x in ("rounding_add", "rounding_sub", "multiply", "saturating_sub")], **big),
    ] + composite(big)


AV = [EM + x for x in ("price_weighted_average", "volume_weighted_average", "liquidity_weighted_average", "balance_weighted_average", "exp_smoothing")]


def composite(big):
    """the averages applied with the (iterated) smoothing factor"""
    call = lambda f, *a: fncall(EM + f, *a)
    Z4 = mk("tuple", ZERO, ZERO, ZERO, ZERO)
    g = lambda f: Out(f, "graph")

    def tup(e, name, k):
        v = e.raw(name)
        return NX(tonode_(v.xs[k]) if isinstance(v, Tup) else mk("fld", tonode_(v), str(k)))
    ex = lambda e: call("exp_smoothing", e.nx("s"), e.nx("n"))
    out = []
    out.append(FnSpec(EM + "calculate_new_by_integrating_incoming", ["p", "i", "s"], {
        str(k): g(lambda e, k=k, f=f: call(f, tup(e, "p", k), tup(e, "i", k), e.nx("s")))
        for k, f in enumerate(["price_weighted_average", "volume_weighted_average", "liquidity_weighted_average"])}, summaries=AV, **big))
    out.append(FnSpec(EM + "update_outdated_to_current", ["n", "p", "i", "s"], {
        "0": g(lambda e: call("price_weighted_average", tup(e, "p", 0), tup(e, "i", 0), ex(e))),
        "1": g(lambda e: call("volume_weighted_average", tup(e, "p", 1), Z4, ex(e))),
        "2": g(lambda e: call("liquidity_weighted_average", tup(e, "p", 2), tup(e, "i", 1), ex(e)))}, summaries=AV, **big))
    for f, n in (("iterated_price_ema", "price_weighted_average"), ("iterated_balance_ema", "balance_weighted_average"), ("iterated_liquidity_ema", "liquidity_weighted_average")):
        out.append(FnSpec(EM + f, ["n", "p", "i", "s"], {"": g(lambda e, n=n: call(n, e.nx("p"), e.nx("i"), ex(e)))}, summaries=AV, **big))
    out.append(FnSpec(EM + "iterated_volume_ema", ["n", "p", "s"], {"": g(lambda e: call("volume_weighted_average", e.nx("p"), Z4, ex(e)))}, summaries=AV, **big))
    return out


def specs_ema():
    return ema()
