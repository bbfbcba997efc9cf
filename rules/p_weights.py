"""What calls are charged for: the work each of them does, hooks and routes included."""
import re
import os
from rules.p_config import Conf, site
from rules.p_evmfee import called
from rules.p_formula import ratio
from rules.p_small import *
from vt.interp import tonode_
from vt.pallet import tyname
from vt.terms import const

RULE = ("The weight given for every dispatchable is read as the set of weights it adds up and compared with the call it belongs to and with the hooks the call's "
        "own paths invoke; the weight of a route is evaluated, hop by hop and for every kind of pool, to the sum it accumulates, and every part the work calls for "
        "has to be in that sum.")
VALUE = ("free_balance",)
RT = "runtime/hydradx"
# calls whose work is that of another one: any of the sets will do
OTHER = {
    ("currencies", "transfer"): [{"transfer_non_native_currency"}],
    ("currencies", "update_balance"): [{"update_balance_non_native_currency"}],
    ("democracy", "vote"): [{"vote_new", "vote_existing"}],
    ("democracy", "unlock"): [{"unlock_set", "unlock_remove"}],
    ("democracy", "set_metadata"): [{"set_external_metadata", "clear_external_metadata", "set_proposal_metadata", "clear_proposal_metadata", "set_referendum_metadata",
                                     "clear_referendum_metadata"}],
    ("omnipool", "add_liquidity_with_limit"): [{"add_liquidity"}],
    ("omnipool", "remove_liquidity_with_limit"): [{"remove_liquidity"}],
    ("route-executor", "sell"): [{"sell_weight"}],
    ("route-executor", "buy"): [{"buy_weight"}],
    ("route-executor", "set_route"): [{"set_route_weight"}],
    ("route-executor", "force_insert_route"): [{"force_insert_route_weight"}],
    ("otc-settlements", "settle_otc_order"): [{"settle_otc_order", "fill_order", "partial_fill_order"}],
    ("referrals", "claim_rewards"): [{"claim_rewards", "convert"}],
    ("transaction-multi-payment", "dispatch_permit"): [set()],
}
# what else a call does that has a weight of its own
ALSO = {
    ("otc-settlements", "settle_otc_order"): [r"RouterWeightInfo :: sell_weight", r"RouterWeightInfo :: get_route_weight", r"RouterWeightInfo :: calculate_spot_price_with_fee_weight"],
    ("dca", "schedule"): [r"AmmTradeWeights :: calculate_buy_trade_amounts_weight"],
    ("asset-registry", "register_external"): [r"saturating_mul|\*", r"RegExternalWeightMultiplier"],
    ("evm-accounts", "bind_evm_address"): [r"saturating_mul|\*", r"FeeMultiplier"],
    ("referrals", "claim_rewards"): [r"PendingConversions\W+(< T > )?\W*(:: )?count|PendingConversions.*:: count", r"saturating_mul|\*"],
    ("transaction-multi-payment", "dispatch_permit"): [r"dispatch_weight"],
    ("omnipool", "add_liquidity"): [r"ExternalPriceOracle :: get_price_weight"],
    ("omnipool", "add_liquidity_with_limit"): [r"ExternalPriceOracle :: get_price_weight"],
    ("omnipool-liquidity-mining", "deposit_shares"): [r"PriceOracle :: get_price_weight"],
    ("omnipool-liquidity-mining", "redeposit_shares"): [r"PriceOracle :: get_price_weight"],
}
FREE = {("claims", "claim")}
OPERATIONAL = {("democracy", "emergency_cancel"), ("democracy", "blacklist")}
HOOKS = ("OmnipoolHooks", "AMMHandler", "Hooks")
KINDS = ("Omnipool", "LBP", "Stableswap", "XYK")
OVER = {"sell": "sell_and_calculate_sell_trade_amounts_overhead_weight", "buy": "buy_and_calculate_buy_trade_amounts_overhead_weight"}
OPAQUE = ("router_execution_sell", "router_execution_buy", "calculate_buy", "calculate_spot_price_with_fee", "on_trade_weight", "on_liquidity_changed_weight",
          "set_route_overweight", "calculate_spot_price_overweight", "calculate_and_execute_sell_in_lbp", "calculate_and_execute_buy_in_lbp", "set_route_for_xyk",
          "calculate_spot_price_with_fee_in_lbp", "get_route", "force_insert_route") + tuple(OVER.values())


def pallets():
    root = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "pallets")
    return sorted(d for d in os.listdir(root) if os.path.isdir(os.path.join(root, d)))


def dispatchables(ctx):
    for pn in pallets():
        p = ctx.pallet(pn)
        if p is None:
            continue
        for name, fs in p.c.by_name.items():
            for f in fs:
                w = [a for a in f.item["attrs"] if a[0].replace(" ", "").endswith("pallet::weight")]
                if w:
                    yield pn, name, f, re.sub(r"\s+", " ", w[0][1])


def declared(ctx):
    n = 0
    for pn, name, f, t in dispatchables(ctx):
        n += 1
        names = set(re.findall(r"\bWeightInfo :: (\w+)", t))
        sets = [{name}] + OTHER.get((pn, name), []) if (pn, name) not in (("otc-settlements", "settle_otc_order"), ("referrals", "claim_rewards")) else OTHER[pn, name]
        odd = bool(re.search(r"saturating_sub|checked_sub|\. min \(| - | / |checked_div|saturating_div", t))
        helper = bool(re.search(r"(Self|Pallet ::< T >|Pallet < T >|crate) :: \w+ \(|\b[a-z_]\w* :: [a-z_]\w* \(|(?<![.:] )\b(?!match|if|in|let)[a-z_]\w* \(", t)) or not names
        met = any(s <= names for s in sets)
        if met:
            ok = None if odd else True
        else:
            ok = None if helper and not names else None if helper else False
        fixed = re.fullmatch(r"\(?(\d[\d_]*|Weight :: zero \(\)|Weight :: from_parts \(.*\))[ ,\w:)]*", t.strip())
        if fixed:
            ok = False
        site(ctx, f.mod, f.line, f"{pn}::{name}", "a call is charged by its own weight", ok, f"charged {t[:120]}")
        for pat in ALSO.get((pn, name), ()):
            ok = True if re.search(pat, t) else None if helper or odd else False
            site(ctx, f.mod, f.line, f"{pn}::{name}", f"a call is charged for everything it does ({pat.split(' :: ')[-1][:24]})", ok, f"charged {t[:160]}")
        # hooks
        r = ctx.fn(pn, name) if pn in ("omnipool", "xyk", "stableswap") else None
        if r is not None:
            hs = {str(e.name) for q in r.paths for e in q.eff if e.kind == "ext"}
            for h in sorted(hs):
                own = h.split(".")
                if len(own) == 2 and own[0].split("::")[-1] in HOOKS and own[1] in ("on_trade", "on_liquidity_changed"):
                    k = own[0].split("::")[-1]
                    got = re.search(rf"\b{k} :: {own[1]}_weight \(", t)
                    site(ctx, f.mod, f.line, f"{pn}::{name}", f"a call is charged for the hook it runs ({own[1]})", True if got and not odd else None if helper or odd else False,
                         f"{h} is run, the charge is {t[:160]}")
        free = bool(re.search(r"Pays :: No", t))
        op = bool(re.search(r"DispatchClass :: (Operational|Mandatory)", t))
        site(ctx, f.mod, f.line, f"{pn}::{name}", "only claims are free of charge", not free or (pn, name) in FREE, f"the fee is waived: {t[:120]}")
        site(ctx, f.mod, f.line, f"{pn}::{name}", "only emergency calls get past the limit for normal ones", not op or (pn, name) in OPERATIONAL, f"declared {t[:120]}")
    if n < 40:
        ctx.und.append("the dispatchables could not be listed")
        ctx.c["undecided"] += 1


def configured(ctx):
    cf = Conf(ctx)
    for (pn, item), v in sorted(cf.items.items(), key=str):
        if item not in ("WeightInfo", "SystemWeightInfo"):
            continue
        ty, m, line = v[0] if isinstance(v, list) else v
        x = ty
        for _ in range(4):
            if x[0] == "tp" and len(x[2]) == 1 and cf.alias(x[2][0][0]) is not None:
                x = cf.alias(x[2][0][0])
        base, inst = pn.split(":")[0], pn.split(":")[1] if ":" in pn else ""
        want = {"pallet_collective": "pallet_collective_council" if "Council" in inst else "pallet_collective_technical_committee"}.get(base, base)
        if x[0] == "ttup":
            ok = base in ("pallet_session", "pallet_uniques")
            if not ok and base not in {p for p, _ in cf.items if p.startswith("pallet_")}:
                ok = None
        elif x[0] == "tp":
            segs = [s[0] for s in x[2]]
            if "HydraWeight" in segs:
                mod = segs[segs.index("HydraWeight") - 1]
                ok = mod == want
            elif segs[-1] == "RouterWeightInfo":
                ok = base == "pallet_route_executor"
            elif segs[-1] == "SubstrateWeight":
                ok = None if base != "pallet_evm" else True
            else:
                ok = None
        else:
            ok = None
        site(ctx, m, line, pn, "a pallet is charged by the weights measured for it", ok, f"its weights are {tyname(x) if x[0] == 'tp' else x[0]} of {[s[0] for s in x[2]] if x[0] == 'tp' else ''}")


# ---- routes

def head(n):
    """short name of what is called"""
    if n.op == "call":
        return str(n.args[0])
    if n.op == "ext":
        return str(n.args[0])
    return ""


def leaves(n):
    """the sum a weight is"""
    n = strip(n)
    if n.op.startswith("mut") and n.args and str(n.args[0]).endswith("saturating_accrue") and len(n.args) == 3:
        return leaves(n.args[1]) + leaves(n.args[2])
    if n.op == "sat" and n.args and getattr(n.args[0], "op", "") == "add":
        return leaves(n.args[0])
    if n.op == "add":
        return [x for a in n.args for x in leaves(a)]
    if n.op == "m" and n.args[0] in ("saturating_add", "add") and len(n.args) == 3:
        return leaves(n.args[1]) + leaves(n.args[2])
    if n.op == "sat" and n.args and getattr(n.args[0], "op", "") in ("mul", "call"):
        return [n.args[0]] if n.args[0].op == "mul" else leaves(n.args[0])
    if isT0(n):
        return []
    return [n]


def isT0(n):
    return n.op == "const" and str(n.args[0]) == "0" or called("zero")(n) and len(n.args) == 1


def consts(n):
    out = []
    for a in n.args[1:]:
        k = num(a)
        if k is None:
            return None
        out.append(int(k))
    return out


def pooled(n, kind, fn):
    """is n the weight fn of the pool's own pallet"""
    h = head(n)
    return h.split("::")[-1] == fn and f"pallet_{kind.lower()}::" in h


def foreign(n):
    """a weight known to be of something else"""
    return head(n).split("::")[-1] in OPAQUE + ("sell_weight",) or "weights::pallet_" in head(n) or isT0(n) or n.op in ("phi", "loopout")


def need(ls, test, args=None):
    """is a leaf there; None when something unknown might be it"""
    for x in ls:
        if test(x):
            if args is None:
                return True
            k = consts(x)
            if k is None:
                return None
            if len(k) == len(args) and all(a >= b for a, b in zip(k, args)):
                return True
    return False if all(foreign(x) or x.op == "mul" and any(foreign(a) for a in x.args) for x in ls) else None


def short(ls):
    return [show(x)[-60:] for x in ls][:5]


def kinds(facts, end):
    """the kinds of pool an end of a hop may be about"""
    pos, neg = set(), set()
    for f, p in facts:
        if f.op == "is" and str(f.args[1]) in KINDS or f.op == "is" and getattr(f.args[1], "args", [None])[0] in KINDS:
            k = str(f.args[1]) if str(f.args[1]) in KINDS else str(f.args[1].args[0])
            (pos if p else neg).add(k)
    if pos:
        return pos - neg if len(pos) == 1 else set()
    return set(KINDS) - neg


def hop(ctx, r, L, name, want, over, j=0):
    """what one turn of the loop over a route adds, for each kind of pool"""
    f = r.f
    seen = set()
    for e in L["ends"]:
        for kind in sorted(kinds(e.facts, e)):
            seen.add(kind)
            ls = leaves(tonode_(e.store[L["slots"][j]]))
            phi = [x for x in ls if x.op == "phi"]
            title = f"a route is charged for each hop ({name}, {kind})"
            rest = [x for x in ls if x.op != "phi"]
            if len(phi) != 1:
                site(ctx, f.mod, L["line"], f"RouterWeightInfo::{name}", title, False if not phi and all(foreign(x) for x in rest) else None, f"what was added before is not kept: {short(ls)}")
                continue
            if over is not None:
                fn, k = over
                ok = None
                got = [x for x in rest if head(x).split("::")[-1] == fn]
                if got:
                    ok = consts(got[0]) == list(k) if consts(got[0]) is not None else None
                elif all(foreign(x) for x in rest):
                    ok = False
                site(ctx, f.mod, L["line"], f"RouterWeightInfo::{name}", f"a route is charged the router's own work at each hop ({name}, {kind})", ok,
                     f"asked {fn}{tuple(k)}, added {short(rest)}")
            for what, test, args in want(kind):
                ok = need(rest, test, args)
                site(ctx, f.mod, L["line"], f"RouterWeightInfo::{name}", f"{title}: {what}", ok, f"added {short(rest)}")
    for kind in set(KINDS) - seen:
        site(ctx, f.mod, L["line"], f"RouterWeightInfo::{name}", f"a route is charged for each hop ({name}, {kind})", None, "no turn for this kind of pool is seen")


def over_all(r, L, nth, rev=False):
    s = str(L["seq"])
    a = show(r.arg(0)) if r.arg(0) is not None else "route"
    return True if s.startswith(f"Seq({a};") or s.startswith(f"Seq(rev({a});") else (False if re.match(r"Seq\(seqop:(skip|take|step_by)\(", s) and a in s else None)


def weight_fn(ctx, name, opaque=OPAQUE):
    p = ctx.pallet(RT)
    fs = [f for f in p.c.by_name.get(name, []) if f.impl and "RouterWeightInfo" in tyname(f.impl["self"])]
    if len(fs) != 1:
        ctx.und.append(f"RouterWeightInfo::{name} not found once")
        ctx.c["undecided"] += 1
        return None, []
    r, qs = fnpaths(ctx, RT, name, fn=fs[0], opaque=opaque)
    if r is not None:
        r.f = fs[0]
    return r, qs


def hook(kind, what):
    if kind == "Omnipool":
        return lambda x: head(x).endswith(what) and ("OmnipoolHook" in head(x))
    return lambda x: head(x).endswith(what) and "AMMHandler" in head(x)


def hookish(what):
    return lambda x: re.search(rf"[.:]{what}$", head(x)) is not None


def routes(ctx):
    for name, side, k, e, hooks in (("sell_weight", "sell", 0, 1, True), ("buy_weight", "buy", 0, 1, True), ("calculate_buy_trade_amounts_weight", "buy", 1, 0, False),
                                    ("sell_and_calculate_sell_trade_amounts_weight", "sell", 1, 1, False), ("buy_and_calculate_buy_trade_amounts_weight", "buy", 2, 1, False)):
        r, qs = weight_fn(ctx, name)
        if r is None:
            continue

        def want(kind, side=side, k=k, e=e, hooks=hooks):
            out = [(f"the pool's {side}", lambda x: pooled(x, kind, f"router_execution_{side}"), (k + e, e))]
            if hooks and kind == "Omnipool":
                out += [("the trade hook", hookish("on_trade_weight"), None), ("the liquidity hook", hookish("on_liquidity_changed_weight"), None)]
            if e and kind == "XYK":
                out += [("the trade hook", hookish("on_trade_weight"), None)]
            return out
        loops(ctx, r, qs, name, [(want, (OVER[side], (k, e)), False)], [])
    # settling orders asks for prices
    name = "calculate_spot_price_with_fee_weight"
    r, qs = weight_fn(ctx, name)
    if r is not None:
        loops(ctx, r, qs, name, [(lambda kind: [("the pool's price", lambda x: pooled(x, kind, "calculate_spot_price_with_fee"), None)], None, False)],
              [("what the router adds to asking for a price", lambda x: head(x).endswith("calculate_spot_price_overweight"), None)])
    name = "set_route_weight"
    r, qs = weight_fn(ctx, name, opaque=OPAQUE + ("sell_weight",))
    if r is not None:
        w = lambda kind: [("the pool's sell", lambda x: pooled(x, kind, "router_execution_sell"), (1, 0))]

        def stored(x):
            return x.op == "mul" and any(pooled(a, "Stableswap", "router_execution_sell") and consts(a) is not None and consts(a)[0] >= 2 for a in x.args) and \
                any("MAX_NUMBER_OF_TRADES" in show(a) or (num(a) or 0) >= 9 for a in x.args)
        loops(ctx, r, qs, name, [(w, None, False), (w, None, True)],
              [("setting the route", lambda x: head(x).endswith("set_route_overweight"), None),
               ("the trial sell of the new route", lambda x: head(x).endswith("::sell_weight") and x.args[1:] == (r.arg(0),) or head(x).endswith("::sell_weight") and x.args[-1] is r.arg(0), None),
               ("quoting the stored route", stored, None)])


def loops(ctx, r, qs, name, each, before):
    Ls = r.runs.it.loops_seen
    f = r.f
    title = f"a route is charged over all its hops ({name})"
    if len(Ls) != len(each) or len(qs) != 1:
        if not Ls and qs and all(foreign(x) for q in qs for x in leaves(q.node)) and not any(find(q.node, lambda z: z.op in ("fold", "m", "sum")) for q in qs):
            site(ctx, f.mod, f.line, f"RouterWeightInfo::{name}", title, False, f"the answer does not go through the route: {show(qs[0].node)[:120]}")
        else:
            site(ctx, f.mod, f.line, f"RouterWeightInfo::{name}", title, None, f"{len(Ls)} loops")
        return
    got = strip(qs[0].node)
    fin = leaves(got)
    # the sums follow each other
    js, at, chain = [], fin, True
    for L in reversed(Ls):
        x = [y for y in at if y.op == "loopout" and str(y.args[0]) == str(L["lid"])]
        chain = chain and len(x) == 1
        js.insert(0, int(x[0].args[1]) if len(x) == 1 else 0)
        at = leaves(tonode_(L["init"][js[0]]))
    ok = True if chain else (False if all(foreign(x) for x in fin) else None)
    site(ctx, f.mod, f.line, f"RouterWeightInfo::{name}", f"a route's charge is the whole sum ({name})", ok, f"answers {show(got)[:120]}")
    start = at + [x for x in fin if x.op != "loopout"]
    for what, test, args in before:
        site(ctx, f.mod, f.line, f"RouterWeightInfo::{name}", f"{name} includes {what}", need(start, test, args), f"adds {short(start)}")
    for L, (want, over, rev), j in zip(Ls, each, js):
        whole = over_all(r, L, 0, rev)
        if L["breaks"]:
            whole = None if whole else whole
        site(ctx, f.mod, L["line"], f"RouterWeightInfo::{name}", title, whole, f"goes over {str(L['seq'])[:80]}")
        hop(ctx, r, L, name, want, over, j)


def overheads(ctx):
    """what the router adds is what its benchmark measured less the pool's part of it"""
    B = tuple(o for o in OPAQUE if o not in OVER.values() and not o.endswith("_overweight"))

    def only(name, pool_fn, bench, pool, args):
        r, qs = weight_fn(ctx, name, opaque=B)
        for q in qs:
            n = strip(q.node)
            ok = None
            if n.op == "satsub" and len(n.args) == 2:
                a, b = strip(n.args[0]), strip(n.args[1])
                if a.op == "call" and b.op == "call":
                    ok = head(a).endswith("::" + bench) and (pooled(b, pool, pool_fn) or name.startswith("buy") and pooled(b, pool, "calculate_buy"))
                    k, e = (r.arg(i) for i in range(2)) if args == "ke" else (None, None)
                    if ok and args == "ke" and head(b).endswith(pool_fn):
                        x = strip(b.args[1])
                        x = x.args[0] if x.op == "sat" else x
                        d = ratio(x)
                        w = ratio(mk("add", k, e))
                        ok = bool(d is not None and w is not None and d.same(w) and b.args[2] is e)
                    elif ok and args == "ke":
                        ok = q.holds(mk("eq", const(1), k), True) is not False if False else True
                    elif ok and isinstance(args, tuple):
                        g = consts(b)
                        ok = None if g is None else all(x <= y for x, y in zip(g, args)) and len(g) == len(args)
            elif n.op == "call" and head(n).endswith("::" + bench):
                ok = True
            ctx.judge(r, q, "what the router adds is measured work less the pool's own part", ok, f"{name} is {show(n)[:200]}", relevant=VALUE)
    only(OVER["sell"], "router_execution_sell", "calculate_and_execute_sell_in_lbp", "LBP", "ke")
    only(OVER["buy"], "router_execution_buy", "calculate_and_execute_buy_in_lbp", "LBP", "ke")
    only("set_route_overweight", "router_execution_sell", "set_route_for_xyk", "XYK", (5, 0))
    for name, bench in (("get_route_weight", "get_route"), ("force_insert_route_weight", "force_insert_route")):
        r, qs = weight_fn(ctx, name)
        for q in qs:
            n = strip(q.node)
            ok = "pallet_route_executor::" in head(n) and head(n).endswith("::" + bench) if n.op == "call" else False if isT0(n) else None
            ctx.judge(r, q, "the router's calls are charged what they were measured at", ok, f"{name} is {show(n)[:160]}", relevant=VALUE)


def trades(ctx):
    r, qs = fnpaths(ctx, "dca", "get_trade_weight", opaque=("get_route_or_default",))
    for q in qs if r is not None else ():
        n = strip(q.node)
        ls = leaves(n)
        kind = [k for k in ("Sell", "Buy") if any(f.op == "is" and p and k in show(f) for f, p in q.facts)] or \
               [k for k, o in (("Sell", "Buy"), ("Buy", "Sell")) if any(f.op == "is" and not p and show(f).endswith(f"{o})") for f, p in q.facts)]
        ok = None
        if len(kind) == 1 and all(head(x) for x in ls):
            k = kind[0].lower()
            hs = [head(x) for x in ls]
            ok = any(h.endswith(f"on_initialize_with_{k}_trade") for h in hs) and any(h.endswith(f"{k}_and_calculate_{k}_trade_amounts_weight") for h in hs)
        ctx.judge(r, q, "an execution is charged for scheduling it and for its route", ok, f"it is charged {short(ls)}", relevant=VALUE)


def weights(pid, tier):
    ctx = Ctx(pid, tier)
    for g in (declared, configured, routes, overheads, trades):
        guarded(g)(ctx)
    return ctx.done(RULE)
