"""Liquidity mining, staking, rate limiting, sub-pool migration."""
from vt.spec import *

L = "math::liquidity_mining::liquidity_mining::"
S_ = "math::staking::math::"
R_ = "math::rate_limiter::math::"
O = "math::omnipool_subpools::math::"
RTR = "math::support::rational::round_to_rational"
PER = {"Period": ("u64",)}


def norew(e, c, st):
    """the whole reward is below one unit on this path"""
    g = (e.now - e.a) * e.v
    return any(p and f.op == "eq" and f.args[0] is ZERO and c.q(f.args[1]).E.same(g) for f, p in st.facts)


def mining():
    ZR = Out(lambda e: 0, "exact", 0, when=norew)

    def reward(e):
        return (e.now - e.start) * e.sh
    return [
        FnSpec(L + "calculate_loyalty_multiplier", ["t", "r", "c"], {"": Out(lambda e: (e.t + e.r * e.c) / (e.t + e.c), "down", 2)}, tymap=PER,
               mags={"t": 1e6, "c": 1e2, "r": 1e17}),
        FnSpec(L + "calculate_accumulated_rps", ["acc", "z", "r"], {"": Out(lambda e: e.acc + e.r / e.z, "down", 1)}),
        FnSpec(L + "calculate_reward", ["start", "now", "sh"], {"": Out(reward, "down", 1)},
               requires=[("reward per share does not shrink", lambda e: e.now - e.start)]),
        FnSpec(L + "calculate_valued_shares", ["s", "b"], {"": Out(lambda e: e.s * e.b, "exact", 0)}, default_mag=2.0**60),
        FnSpec(L + "calculate_global_farm_shares", ["v", "m"], {"": Out(lambda e: e.v * e.m, "down", 1)}, default_mag=2.0**60),
        FnSpec(L + "calculate_yield_farm_rewards", ["y", "g", "m", "v"], {
            "1": Out(lambda e: (e.g - e.y) * e.m * e.v, "down", 1e8, leg="rew"),
            "0": Out(lambda e: e.rew / e.v, "down", 1)}, default_mag=2.0**60, mags={"m": 1e18, "g": 2e19, "y": 1e19}, degenerate=False),
        FnSpec(L + "calculate_user_reward", ["a", "v", "cl", "now", "lm"], {
            "0": [ZR, Out(lambda e: e.lm * (e.now - e.a) * e.v - e.cl, "down", 3, leg="u")],
            "1": [ZR, Out(lambda e: (e.now - e.a) * e.v - e.lm * (e.now - e.a) * e.v, "near", 3)]}, requires=[("reward per share does not shrink", lambda e: e.now - e.a)],
            reject="open", default_mag=2.0**60, mags={"lm": 5e17, "now": 2e19, "a": 1e19, "cl": 2.0**50}),
        FnSpec(L + "calculate_global_farm_rewards", ["z", "adj", "yld", "cap", "n"], {"": Out(
            lambda e: e.min(e.z * e.adj * e.yld * e.n, e.cap * e.n), "down", 10)}, tymap=PER, mags={"adj": 1e18, "yld": 1e14, "n": 10.0}, reject="open"),
    ]


def staking():
    def slash(e):
        raw = e.inc * e.p / (e.st * e.w)
        return e.min(e.max(e.min(raw, e.p), e.ms), e.p)
    return [
        FnSpec(S_ + "calculate_accumulated_rps", ["acc", "p", "t"], {"": Out(lambda e: e.acc + e.p / e.t, "down", 1)}),
        FnSpec(S_ + "calculate_slashed_points", ["p", "st", "inc", "w", "ms"], {"": Out(slash, "down", 1)}, default_mag=2.0**50, reject="open"),
        FnSpec(S_ + "calculate_period_number", ["len", "b"], {"": Out(lambda e: e.b / e.len, "down", 1)}),
        FnSpec(S_ + "calculate_points", ["c", "now", "tp", "tw", "ap", "aw", "sl"], {"": Out(
            lambda e: (e.now - e.c) * e.tp * e.tw + e.ap * e.aw - e.sl, "down", 2)},
            mags={"now": 2e6, "c": 1e6, "tp": 1.0, "tw": 8e5, "ap": 1e9, "aw": 2e8, "sl": 1e5}),
        FnSpec(S_ + "sigmoid", ["x", "a", "b"], {"": Out(lambda e: sig(e), "near", 1e6)}, mags={"x": 1e3, "a": 8e15, "b": 4e4}, reject="open"),
        FnSpec(S_ + "calculate_rewards", ["a", "r", "st"], {"": Out(lambda e: (e.a - e.r) * e.st, "down", 1)},
               requires=[("reward per stake does not shrink", lambda e: e.a - e.r)]),
        FnSpec(S_ + "calculate_percentage_amount", ["a", "p"], {"": Out(lambda e: e.a * e.p, "down", 1)}, mags={"p": 1e17}),
        FnSpec(S_ + "calculate_total_rewards", ["a", "b", "c"], {"": Out(lambda e: e.a + e.b + e.c, "exact", 0)}),
    ]


def sig(e):
    ax = e.a * e.x
    q = ax * ax * ax * ax
    return q / (q + e.b)


def rate():
    def decay(e, a="acc"):
        return e.max(getattr(e, a) - e.lim * e.n / e.pos("dur"), 0)
    M = {"n": 100.0, "dur": 1000.0, "acc": 2.0**79, "lim": 2.0**76}
    return [
        FnSpec(R_ + "calculate_deferred_duration", ["dur", "lim", "acc"], {"": [Out(
            lambda e: e.acc * e.pos("dur"), "down", INF, when=lambda e, c, st: e.holds(eq(ZERO, tonode_(e._n["lim"])))), Out(
            lambda e: e.max(e.acc - e.lim, 0) * e.pos("dur") / e.pos("lim"), "down", 1)]}, mags=M),
        FnSpec(R_ + "decay_accumulated_amount", ["dur", "lim", "acc", "n"], {"": Out(decay, "up", 1)}, mags=M),
        FnSpec(R_ + "calculate_new_accumulated_amount", ["dur", "lim", "inc", "acc", "n"], {"": Out(lambda e: e.inc + decay(e), "up", 1)}, mags=M),
    ]


def subpools():
    near = lambda f: Out(f, "near", INF)
    A = ["a", "s", "iss"]
    has = lambda e, c, st: not isinstance(e.s, NoneV)
    return [
        FnSpec(O + "recalculate_protocol_shares", ["h", "s", "p"], {"": Out(lambda e: e.h * e.p / e.s, "down", 1)}),
        FnSpec(O + "convert_position", ["p", "d"], {
            "shares": Out(lambda e: e.p.shares * e.d.hub_reserve / e.d.shares, "down", 1),
            "amount": Out(lambda e: e.p.amount * e.d.share_tokens / e.d.shares, "down", 1),
            "price.0/price.1": near(lambda e: e.p.price.f0 * e.d.price.f1 / (e.p.price.f1 * e.d.price.f0))}, summaries=[RTR]),
        FnSpec(O + "create_subpool_initial_state", ["a", "b"], {
            "hub_reserve": Out(lambda e: e.a.hub_reserve + e.b.hub_reserve, "exact", 0),
            "reserve": Out(lambda e: e.a.hub_reserve + e.b.hub_reserve, "exact", 0),
            "shares": Out(lambda e: e.a.hub_reserve + e.b.hub_reserve, "exact", 0),
            "protocol_shares": Out(lambda e: e.a.hub_reserve * e.a.protocol_shares / e.a.shares + e.b.hub_reserve * e.b.protocol_shares / e.b.shares, "down", 2)}),
        FnSpec(O + "calculate_asset_migration_details", A, {
            "0.shares": Out(lambda e: e.a.shares, "exact", 0),
            "0.hub_reserve": Out(lambda e: e.a.hub_reserve, "exact", 0),
            "0.share_tokens": [Out(lambda e: e.a.hub_reserve * e.iss / e.s.hub_reserve, "down", 1, when=has), Out(lambda e: e.a.hub_reserve, "exact", 0)],
            "0.price.0/0.price.1": [Out(lambda e: e.a.hub_reserve * e.iss / (e.a.reserve * e.s.shares), "near", INF, when=has),
                                    near(lambda e: e.a.hub_reserve / e.a.reserve)],
            "1.delta_reserve": Out(lambda e: e.a.hub_reserve * e.iss / e.s.hub_reserve, "down", 1, "Increase", when=has),
            "1.delta_hub_reserve": Out(lambda e: e.a.hub_reserve, "exact", 0, "Increase", when=has),
            "1.delta_shares": Out(lambda e: e.a.hub_reserve * e.s.shares / e.s.hub_reserve, "down", 1, "Increase", when=has),
            "1.delta_protocol_shares": Out(lambda e: e.s.shares * e.a.hub_reserve / e.s.hub_reserve * e.a.protocol_shares / e.a.shares, "down", 2, "Increase", when=has),
        }, summaries=[RTR]),
    ]


def specs():
    return mining() + staking() + rate() + subpools()
