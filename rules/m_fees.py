"""Dynamic fees, flat trade fees."""
from vt.spec import *

D = "math::dynamic_fees::math::"


def step(sign):
    def f(e):
        p = e.p
        prev = e.f
        if e.lt(1, e.n):
            prev = e.max(prev - p.decay * (e.n - 1), p.min_fee)
        if e.holds(eq(tonode_(e.raw('v').f['liquidity']), ZERO)):
            x = rf(0)
        else:
            x = (e.v.amount_out - e.v.amount_in) * sign / e.v.liquidity
        return e.min(e.max(prev + p.amplification * x - p.decay, p.min_fee), p.max_fee)
    return f


def specs():
    S = []
    P = ["v", "f", "n", "p"]
    fld = lambda k: (lambda a: tonode_(a["p"].f[k]))
    A = [lambda a: [(lt(fld("max_fee")(a), fld("min_fee")(a)), False), (lt(const(10**6), fld("max_fee")(a)), False),
                    (lt(const(10**6), tonode_(a["f"])), False)]]
    kw = dict(assume=A, tymap={"Fee": ("Permill",)}, lets={}, reject="open",
              mags={"p.amplification": 1e18, "p.decay": 1e15, "n": 10.0})
    S.append(FnSpec(D + "recalculate_asset_fee", P, {"": Out(step(1), "near", 4)}, **kw))
    S.append(FnSpec(D + "recalculate_protocol_fee", P, {"": Out(step(-1), "near", 4)}, **kw))
    S.append(FnSpec("math::fee::calculate_pool_trade_fee", ["a", "f"], {"": [
        Out(lambda e: 0, "exact", 0, when=lambda e, c, st: e.le(e.f.f1, 0)),
        Out(lambda e: e.a * e.f.f0 / e.f.f1, "down", 1e6)]}, mags={"f.f0": 1e3, "f.f1": 1e3}))
    return S
