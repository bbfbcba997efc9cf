"""Weighted (bootstrapping) pool formulas."""
from vt.spec import *

M = "math::lbp::lbp::"
POW = "math::transcendental::pow"



def E(e, n, k=2**96):
    return e.node(nx(n), k)


def out_(e):
    x, wx, wy, a = [e.nx(k) for k in ("x", "wx", "wy", "a")]
    return e.y * (1 - E(e, fnsome(POW, cdivx(x * 2**96, x + a), wx * 2**96 / wy)))


def in_(e):
    y, wx, wy, a = [e.nx(k) for k in ("y", "wx", "wy", "a")]
    return e.x * (E(e, fnsome(POW, cdivx(y * 2**96, y - a), wy * 2**96 / wx)) - 1) + 1


def specs():
    return [
        FnSpec(M + "calculate_spot_price", ["x", "y", "wx", "wy", "a"], {"": Out(lambda e: e.a * e.y * e.wx / (e.x * e.wy), "down", 1)}),
        FnSpec(M + "calculate_spot_price_with_fee", ["x", "y", "wx", "wy", "fa", "ao", "fee"], {"": Out(
            lambda e: e.y * e.wx / (e.x * e.wy) * opt(e.fee, lambda f: 1 - f.f0 / f.f1 if e.holds(eq(e.nx("fa").n, e.nx("ao").n)) else 1, 1), "near", 3)}),
        FnSpec(M + "calculate_out_given_in", ["x", "y", "wx", "wy", "a"], {"": Out(out_, "down", 1)}, summaries=[POW]),
        FnSpec(M + "calculate_in_given_out", ["x", "y", "wx", "wy", "a"], {"": Out(in_, "up", 1)}, summaries=[POW],
               requires=[("amount <= reserve", lambda e: e.y - e.a)]),
        FnSpec(M + "calculate_linear_weights", ["x0", "x1", "y0", "y1", "at"], {"": Out(
            lambda e: (e.y0 * (e.x1 - e.at) + e.y1 * (e.at - e.x0)) / (e.x1 - e.x0), "down", 1)}, tymap={"BlockNumber": ("u64",)},
            requires=[("not before the start", lambda e: e.at - e.x0), ("not after the end", lambda e: e.x1 - e.at)]),
    ]
