"""Calls refused by the chain, calls remote chains may transact, and calls proxies may make."""
import itertools
from rules.p_evmfee import called, handler
from rules.p_small import *
from vt.pallet import tyname

VALUE = ("free_balance",)
RT = "runtime/hydradx"
RULE = ("Every path of the filter is evaluated over the pattern matches it makes on the call; for every kind of call named by the specification or by the code, and every answer to the questions asked about its arguments, "
        "the filter's answer must be the specified one.")
ANY = "*"
TO_POOL = [("Tokens", "transfer"), ("Tokens", "transfer_keep_alive"), ("Tokens", "transfer_all"), ("Currencies", "transfer")]
NATIVE_TO_POOL = [("Balances", "transfer_allow_death"), ("Balances", "transfer_keep_alive"), ("Balances", "transfer_all"), ("Currencies", "transfer_native_currency")]
UNIQUES = ("create force_create mint burn transfer freeze thaw freeze_collection thaw_collection transfer_ownership set_team approve_transfer cancel_approval force_item_status set_attribute clear_attribute set_metadata "
           "clear_metadata set_collection_metadata clear_collection_metadata set_accept_ownership set_price buy_item").split()
IDENTITY = "add_registrar set_identity clear_identity request_judgement cancel_request set_fee set_account_id set_fields provide_judgement kill_identity add_sub rename_sub remove_sub quit_sub".split()
SAFE = {"System": ["kill_prefix", "set_heap_pages"], "Utility": ["as_derivative"], "CollatorSelection": ["set_desired_candidates", "set_candidacy_bond", "register_as_candidate", "leave_intent"], "Session": ["purge_keys"],
        "Uniques": UNIQUES, "Identity": IDENTITY}
for _k in "Timestamp Balances Treasury Vesting Proxy Omnipool OmnipoolLiquidityMining OTC CircuitBreaker Router DCA MultiTransactionPayment Currencies Tokens OrmlXcm".split():
    SAFE[_k] = None
PROXY = {"Any": ANY, "CancelProxy": {"Proxy": ["reject_announcement"]}, "Governance": dict.fromkeys("Democracy Council TechnicalCommittee Elections Treasury Tips Utility".split()),
         "Transfer": dict.fromkeys("Balances Currencies Tokens".split()), "Liquidity": {"Omnipool": ["add_liquidity", "remove_liquidity"]},
         "LiquidityMining": {"OmnipoolLiquidityMining": ["deposit_shares", "redeposit_shares", "claim_rewards", "withdraw_shares"]}}


def listed(table, k, f):
    return table == ANY or k in table and (table[k] is None or f in table[k])


def call_filter(k, f, a):
    if k in ("System", "Timestamp", "ParachainSystem"):
        return True
    if a["paused"]:
        return False
    if (k, f) in TO_POOL:
        return not (a["pool"] and (a["hub"] or a["listed"]))
    if (k, f) in NATIVE_TO_POOL:
        return not a["pool"]
    if (k, f) == ("XYK", "create_pool"):
        return not (a["hub_a"] or a["hub_b"])
    if k == "PolkadotXcm":
        return f == "send"
    return (k, f) not in (("EVM", "create"), ("EVM", "create2")) and k != "OrmlXcm"


class Unknown(Exception):
    pass


class World:
    """one kind of call (and one answer to each question) the filter is asked about"""

    def __init__(self, c, k, f, ans, me=None, ptype=None):
        self.c, self.k, self.f, self.ans, self.me, self.ptype = c, k, f, ans, me, ptype

    def atom(self, n):
        """the name of a question about the call's arguments"""
        if called("contains")(n) and any(strip(x) is self.c for x in n.args[1:] if isinstance(x, Node)):
            return "allowed" if "CallFilter" in str(n.args[0]) else "paused"
        if called("exists")(n) and "Omnipool" in str(n.args[0]) and any(self.param(x) == "currency_id" for x in n.args[1:] if isinstance(x, Node)):
            return "listed"
        if n.op == "eq":
            ps = [self.param(x) for x in n.args]
            other = [x for x, p in zip(n.args, ps) if p is None]
            p = next((p for p in ps if p), None)
            if p and len(other) == 1:
                if p == "dest" and find(other[0], called("protocol_account")):
                    return "pool"
                hub = find(other[0], lambda z: z.op in ("call", "cfg", "ext") and ("HubAssetId" in str(z.args[0]) or "LRNA" in str(z.args[0])))
                if hub and p in ("currency_id", "asset_a", "asset_b"):
                    return {"currency_id": "hub", "asset_a": "hub_a", "asset_b": "hub_b"}[p]
        return None

    def param(self, n):
        n = strip(n)
        if n.op == "vfld" and n.args[0].op == "vfld" and n.args[0].args[0] is self.c:
            return str(n.args[2])
        return None

    def ev(self, n):
        n = strip(n)
        if isT(n) or isF(n):
            return isT(n)
        if n.op == "not":
            return not self.ev(n.args[0])
        if n.op in ("and", "or"):
            return (all if n.op == "and" else any)([self.ev(x) for x in n.args])
        if n.op == "is":
            b, v = strip(n.args[0]), str(n.args[1])
            if b is self.c:
                return v == self.k
            if b.op == "vfld" and b.args[0] is self.c:
                if str(b.args[1]) != self.k:
                    return False
                return v == self.f
            if self.me is not None and b is self.me[0]:
                return v == self.ptype[0]
            if self.me is not None and len(self.me) > 1 and b is self.me[1]:
                return v == self.ptype[1]
        if n.op == "eq" and self.me is not None:
            t = [self.type(x) for x in n.args]
            if None not in t:
                return t[0] == t[1]
        a = self.atom(n)
        if a is None:
            raise Unknown(n)
        return self.ans[a]

    def type(self, n):
        n = strip(n)
        for m, t in zip(self.me, self.ptype):
            if n is m:
                return t
        if n.op.startswith("variant:"):
            return n.op[8:]
        return str(n.args[0]).split("::")[-1] if n.op == "fn" else None


def mentioned(qs, c):
    out = {}
    for q in qs:
        for n in [f for f, _ in q.facts] + [q.node]:
            for z in find(n, lambda y: y.op == "is"):
                b = strip(z.args[0])
                if b is c:
                    out.setdefault(str(z.args[1]), set())
                elif b.op == "vfld" and b.args[0] is c:
                    out.setdefault(str(b.args[1]), set()).add(str(z.args[1]))
    return out


def universe(qs, c, tables):
    kinds = mentioned(qs, c)
    for t in tables:
        for k, fs in t.items():
            kinds.setdefault(k, set()).update(fs or ())
    return [(k, f) for k, fs in sorted(kinds.items()) for f in sorted(fs) + [ANY]] + [(ANY, ANY)]


def decide(ctx, r, q, worlds, spec, title, say):
    """compare one path with the specification over every world it is taken in"""
    bad = unknown = None
    for w in worlds:
        try:
            taken = True
            for f, p in q.facts:
                try:
                    if w.ev(f) != p:
                        taken = False
                        break
                except Unknown:
                    unknown_f = f
                    taken = None
            if taken is False:
                continue
            if taken is None:
                unknown = unknown_f
                # whatever the question is, an answer that is wrong both ways cannot be made right by it
                continue
            if w.ev(q.node) != spec(w):
                bad = bad or w
        except Unknown as e:
            unknown = e.args[0]
    ctx.judge(r, q, title, False if bad else None if unknown is not None else True, lambda: say(bad) if bad else "not understood: " + show(unknown)[:80], relevant=VALUE, key=title)


def worlds_of(c, uni, names, qs):
    for k, f in uni:
        for vals in itertools.product((True, False), repeat=len(names(k, f))):
            a = dict.fromkeys(("paused", "allowed", "pool", "hub", "listed", "hub_a", "hub_b"), False)
            a.update(zip(names(k, f), vals))
            yield World(c, k, f, a)


def about(k, f):
    if (k, f) in TO_POOL:
        return ("paused", "pool", "hub", "listed")
    if (k, f) in NATIVE_TO_POOL:
        return ("paused", "pool", "hub", "listed") if k == "Currencies" else ("paused", "pool")
    if (k, f) == ("XYK", "create_pool"):
        return ("paused", "hub_a", "hub_b")
    return ("paused", "pool", "hub", "listed") if k in ("Tokens", "Currencies", "Balances") else ("paused",)


def text(k, f):
    return ("a call of another pallet" if k == ANY else f"another call of {k}" if f == ANY else f"{k}.{f}")


def base(ctx):
    fs = [f for f in ctx.pallet(RT).c.by_name.get("contains", []) if f.impl and tyname(f.impl["self"]) == "CallFilter"]
    if len(fs) != 1:
        ctx.und.append("CallFilter::contains not found")
        return
    r, qs = fnpaths(ctx, RT, "contains", fn=fs[0])
    c = r.arg(0)
    uni = universe(qs, c, [dict.fromkeys(("System", "Timestamp", "ParachainSystem", "OrmlXcm")), {"PolkadotXcm": ["send"], "EVM": ["create", "create2", "call"], "XYK": ["create_pool"],
                           "Tokens": [f for k, f in TO_POOL if k == "Tokens"], "Currencies": ["transfer", "transfer_native_currency"], "Balances": [f for k, f in NATIVE_TO_POOL if k == "Balances"]}])
    ws = list(worlds_of(c, uni, about, qs))
    for q in qs:
        decide(ctx, r, q, ws, lambda w: call_filter(w.k, w.f, w.ans), "calls refused", lambda w: f"{text(w.k, w.f)} is {'refused' if call_filter(w.k, w.f, w.ans) else 'let through'}" +
               "".join(f", {k} {'yes' if v else 'no'}" for k, v in w.ans.items() if k in about(w.k, w.f)))


def remote(ctx):
    fs = [f for f in ctx.pallet(RT).c.by_name.get("contains", []) if f.impl and tyname(f.impl["self"]) == "SafeCallFilter"]
    if len(fs) != 1:
        ctx.und.append("SafeCallFilter::contains not found")
        return
    r, qs = fnpaths(ctx, RT, "contains", fn=fs[0], opaque=("contains",))
    c = r.arg(0)
    ws = list(worlds_of(c, universe(qs, c, [SAFE]), lambda k, f: ("allowed",), qs))
    for q in qs:
        decide(ctx, r, q, ws, lambda w: w.ans["allowed"] and listed(SAFE, w.k, w.f), "calls transacted by other chains",
               lambda w: f"{text(w.k, w.f)} is {'refused' if w.ans['allowed'] and listed(SAFE, w.k, w.f) else 'let through'}" + ("" if w.ans["allowed"] else " though the call filter refuses it"))


def proxies(ctx):
    r, qs = handler(ctx, RT, "filter", "ProxyType")
    if r:
        me, c = r.arg(0), r.arg(1)
        types = set(PROXY)
        for q in qs:
            types |= {str(z.args[1]) for f, _ in q.facts for z in find(f, lambda y: y.op == "is" and strip(y.args[0]) is me)}
        uni = universe(qs, c, [t for t in PROXY.values() if t != ANY])
        ws = [World(c, k, f, {}, (me,), (t,)) for t in sorted(types & set(PROXY)) for k, f in uni]
        for q in qs:
            decide(ctx, r, q, ws, lambda w: listed(PROXY[w.ptype[0]], w.k, w.f), "calls of a proxy",
                   lambda w: f"a proxy of type {w.ptype[0]} may {'not ' if listed(PROXY[w.ptype[0]], w.k, w.f) else ''}make {text(w.k, w.f)}")
    r, qs = handler(ctx, RT, "is_superset", "ProxyType")
    if r:
        me, o = r.arg(0), r.arg(1)
        ws = [World(None, ANY, ANY, {}, (me, o), (a, b)) for a in PROXY for b in PROXY]
        for q in qs:
            decide(ctx, r, q, ws, lambda w: w.ptype[0] == w.ptype[1] or w.ptype[0] == "Any", "proxies do not widen", lambda w: f"{w.ptype[0]} is {'not ' if w.ptype[0] in (w.ptype[1], 'Any') else ''}taken to include {w.ptype[1]}")


def filters(pid, tier):
    ctx = Ctx(pid, tier)
    g = guarded(lambda c, f: f(c))
    for f in (base, remote):
        g(ctx, f)
    return ctx.done(RULE, ["the filters are installed as the runtime's base call filter and as XCM's transact filter", "calls are dispatched through the origin's filter by FRAME"])


def proxy(pid, tier):
    ctx = Ctx(pid, tier)
    guarded(lambda c, f: f(c))(ctx, proxies)
    return ctx.done(RULE, ["pallet-proxy applies the filter to the proxied call and to every call nested in it"])
