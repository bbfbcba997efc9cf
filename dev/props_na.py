"""Properties of the system this family cannot decide: listed with the reason, no check."""


def N(i, title, st, files, mech, over, text, why, reason):
    return dict(id=i, title=title, statement=st, files=files, mech=mech, over=[over], text=text, why=why, na=reason)


PROPS = [
 N("N01", "The stable-pool iterations converge within their step limits",
   "For every pool state reachable from a valid one, the iterations for the invariant and for the unknown reserve reach two successive values at most one apart within the configured number of steps, so that trades are not refused for lack of convergence.",
   ["math/src/stableswap/math.rs"], [("Newton iterations", "math/src/stableswap/math.rs")], "inputs", "every amplification, number of assets and reserve vector reachable by trades",
   "the number of steps depends on the reserves and the amplification together; a test samples a few vectors",
   "the contraction rate is a property of the real-valued iteration over an unbounded set of reserve vectors; no dataflow or syntactic argument bounds it. The update rule, the start, the stopping condition and what happens when the limit is reached are decided (M04)."),
 N("N02", "No sequence of trades and liquidity moves is profitable against an idle pool",
   "With no other activity and constant fees, no account ends a sequence of trades, deposits and withdrawals in one pool with more of every asset than it started with.",
   ["pallets/omnipool/src/lib.rs", "pallets/stableswap/src/lib.rs", "pallets/xyk/src/lib.rs"], [("trades", "pallets/omnipool/src/lib.rs")], "histories", "every sequence of operations by one account",
   "the sequence is unbounded and its intermediate states are arbitrary",
   "an invariant of whole histories over non-linear curves: it needs an inductive argument about value along the curve, which no static analysis in reach supplies. Its single-step ingredients (direction of every rounding, exact settlement, limits) are decided by M01-M06, P02-P07 and P37."),
 N("N03", "The weight charged for a call bounds its execution time and proof size",
   "Every dispatchable and hook executes within the reference time and proof size its declared weight charges for, for every state and argument.",
   ["runtime/hydradx/src/weights/mod.rs"], [("weights", "runtime/hydradx/src/weights/mod.rs")], "inputs", "every state and argument",
   "benchmarks measure chosen states on one machine", "execution time and trie proof size are measured quantities of a machine and a state trie; they are not determined by the source."),
 N("N04", "Logarithm, exponential and power are within a stated distance of the real values",
   "For every operand in the supported range the fixed-point logarithm, exponential and power differ from the real function by at most a stated number of last places.",
   ["math/src/transcendental.rs"], [("series", "math/src/transcendental.rs")], "inputs", "every operand", "tests sample operands",
   "accuracy of a data-dependent loop over 2^128 operands: a sound error analysis needs numeric bounds on the remainder of the series and on the accumulated rounding per trip, beyond the engine's per-path rounding intervals. The reductions, edge cases and the recurrence of the terms are decided (M16)."),
 N("N05", "Prices recorded by the oracle resist manipulation",
   "An attacker can move the recorded moving-average prices over a period only at a cost that grows with the period and the liquidity of the pool.",
   ["pallets/ema-oracle/src/lib.rs"], [("oracle", "pallets/ema-oracle/src/lib.rs")], "histories", "every trading strategy", "tests cannot enumerate strategies",
   "a statement about economic cost over adversarial histories and external markets. How entries are recorded, smoothed and queried is decided (M07, P19, P34)."),
]
