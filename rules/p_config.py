"""The runtime's configuration of its pallets: whose each privileged call is, and parameters that must fit together."""
from fractions import Fraction as Fr
from rules.p_small import *
from vt.interp import tonode_
from vt.spec import Finding
from vt.front import tyname
from vt.interp import Interp, St, Frame
from rules.p_formula import ratio

VALUE = ("free_balance",)
RT = "runtime/hydradx"
RULE1 = ("The type given for every origin in the pallets' configuration is resolved through its aliases to the bodies it accepts and their shares, which must be at least those assigned. Decided over the type expressions of the source.")
RULE2 = ("Every parameter is evaluated as a constant of the source and the relations the pallets rely on (distinct identifiers, ordered bounds, non-zero divisors, periods the oracle keeps) are decided on the values.")


class Conf:
    def __init__(self, ctx):
        self.p = ctx.pallet(RT, extra=("primitives",))
        self.c = self.p.c
        self.items = {}          # (pallet, item) -> [(type, mod, line)]
        for m, i in self.c.impls:
            t = i["trait"]
            if t and t[-1][0] == "Config" and tyname(i["self"]) == "Runtime" and len(t) > 1:
                inst = ",".join(tyname(x) for x in t[-1][1]) if t[-1][1] else ""
                for x in i["items"]:
                    if x["k"] == "type" and not any("benchmarks" in str(a) and "not" not in str(a) for a in x["attrs"]):
                        self.items[t[-2][0] + (":" + inst if inst else ""), x["name"]] = (x["ty"], m, x["line"])
        self.params = {}
        for m, i in self.c.macros:
            if i["name"] == "parameter_types" and i.get("params"):
                for k, n, t, e, l in i["params"]:
                    self.params[n] = (t, e, m, l)
        self.it = Interp(self.p.w)

    def alias(self, name):
        """the type behind an alias of the runtime crate, if it is one"""
        for m in self.c.modules:
            for k, x in m.items.get(name, []):
                if k == "type" and not x.get("_impl"):
                    return x["ty"]
        return None

    def value(self, ty, m=None):
        """the constant behind a Config item's type"""
        if ty[0] != "tp":
            return None
        n, gs = ty[2][-1][0], ty[2][-1][1]
        if n.startswith("Const") and len(gs) == 1 and gs[0][0] == "tconst":
            return self.ev(gs[0][1], None, m)
        if n in self.params:
            return self.param(n)
        a = self.alias(n)
        return self.value(a, m) if a is not None else None

    def param(self, n):
        if n not in self.params:
            return None
        t, e, m, l = self.params[n]
        return self.ev(e, t, m)

    def ev(self, e, t, m):
        f = Frame(None, m, None, 0)
        try:
            r = self.it.eval(e, St(), f)
            v = r[0][1]
            if t is not None:
                v = self.it.coerce(v, self.it.T(t, f))
            return tonode_(v)
        except Exception:
            return None


# --------------------------------------------------------------------------------------------------------- origins
C, T = "CouncilCollective", "TechnicalCollective"
ROOT = ()
FLOOR = {
    ("pallet_asset_registry", "RegistryOrigin"): ROOT, ("pallet_asset_registry", "UpdateOrigin"): (T, Fr(2, 3), 0),
    ("pallet_uniques", "ForceOrigin"): (C, Fr(2, 3), 0), ("pallet_uniques", "CreateOrigin"): ROOT,
    ("pallet_omnipool", "AuthorityOrigin"): ROOT, ("pallet_omnipool", "TechnicalOrigin"): (T, Fr(2, 3), 0),
    ("pallet_circuit_breaker", "TechnicalOrigin"): (T, Fr(2, 3), 0), ("pallet_ema_oracle", "AuthorityOrigin"): (T, Fr(2, 3), 0),
    ("pallet_duster", "BlacklistUpdateOrigin"): (T, Fr(2, 3), 0),
    ("pallet_omnipool_liquidity_mining", "CreateOrigin"): (T, Fr(1), 0), ("pallet_xyk_liquidity_mining", "CreateOrigin"): (T, Fr(1), 0),
    ("pallet_dca", "TechnicalOrigin"): (T, Fr(2, 3), 0), ("pallet_route_executor", "TechnicalOrigin"): (T, Fr(2, 3), 0),
    ("pallet_stableswap", "AuthorityOrigin"): ROOT, ("pallet_staking", "AuthorityOrigin"): (C, Fr(2, 3), 0),
    ("pallet_lbp", "CreatePoolOrigin"): (T, Fr(2, 3), 0), ("pallet_referrals", "AuthorityOrigin"): ROOT,
    ("pallet_evm_accounts", "ControllerOrigin"): (T, Fr(2, 3), 0), ("pallet_transaction_multi_payment", "AcceptedCurrencyOrigin"): (T, Fr(2, 3), 0),
    ("pallet_transaction_pause", "UpdateOrigin"): (T, Fr(2, 3), 0), ("pallet_state_trie_migration", "ControlOrigin"): (T, Fr(2, 3), 0),
    ("cumulus_pallet_xcmp_queue", "ControllerOrigin"): (T, Fr(1, 2), 0), ("pallet_xcm", "AdminOrigin"): (C, Fr(2, 3), 0),
    ("pallet_collator_selection", "UpdateOrigin"): (C, Fr(1, 2), 1), ("pallet_identity", "ForceOrigin"): (C, Fr(1, 2), 1),
    ("pallet_identity", "RegistrarOrigin"): (C, Fr(1, 2), 1), ("pallet_identity", "UsernameAuthorityOrigin"): ROOT,
    ("pallet_treasury", "ApproveOrigin"): (C, Fr(3, 5), 0), ("pallet_treasury", "RejectOrigin"): (C, Fr(1, 2), 1), ("pallet_treasury", "SpendOrigin"): None,
    ("pallet_preimage", "ManagerOrigin"): ROOT, ("pallet_scheduler", "ScheduleOrigin"): (C, Fr(1, 2), 1),
    ("pallet_collective", "SetMembersOrigin"): ROOT,
    ("pallet_democracy", "ExternalOrigin"): (C, Fr(1, 2), 1), ("pallet_democracy", "ExternalMajorityOrigin"): (C, Fr(1, 2), 1),
    ("pallet_democracy", "ExternalDefaultOrigin"): (C, Fr(1), 0), ("pallet_democracy", "FastTrackOrigin"): (T, Fr(1, 2), 0),
    ("pallet_democracy", "InstantOrigin"): (T, Fr(1), 0), ("pallet_democracy", "CancellationOrigin"): (C, Fr(2, 3), 0),
    ("pallet_democracy", "BlacklistOrigin"): ROOT, ("pallet_democracy", "CancelProposalOrigin"): (T, Fr(1), 0),
    ("orml_vesting", "VestedTransferOrigin"): ROOT,
}


def bodies(cf, ty, depth=0):
    """what an origin type accepts: 'root', 'signed', ('COLLECTIVE', share, strict), ('COLLECTIVE', 'member'); None when unknown"""
    if depth > 12 or ty[0] != "tp":
        return None
    n, gs = ty[2][-1][0], ty[2][-1][1]
    if n in ("EitherOfDiverse", "EitherOf"):
        out = set()
        for g in gs:
            b = bodies(cf, g, depth + 1)
            if b is None:
                return None
            out |= b
        return out
    if n in ("AsEnsureOriginWithArg", "MapSuccess", "EnsureWithSuccess"):
        return bodies(cf, gs[0], depth + 1)
    if n in ("EnsureRoot", "EnsureRootWithSuccess", "RootAsVestingPallet"):
        return {"root"}
    if n in ("NeverEnsureOrigin", "EnsureNever"):
        return set()
    if n in ("EnsureSigned", "EnsureSignedBy", "EnsureXcmOrigin",):
        return {"signed"}
    if n in ("EnsureProportionAtLeast", "EnsureProportionMoreThan"):
        num_ = [literal(cf, g) for g in gs[2:4]]
        col = collective(cf, gs[1])
        if None in num_ or col is None or not num_[1]:
            return None
        return {(col, Fr(*num_), int(n.endswith("MoreThan")))}
    if n in ("EnsureAddressTruncated", "EnsureAddressNever", "EnsureNone"):
        return {"address"}
    if n == "EnsureMember":
        col = collective(cf, gs[1])
        return {(col, Fr(0), 1)} if col else None
    a = cf.alias(n)
    return bodies(cf, a, depth + 1) if a is not None else None


def literal(cf, g):
    if g[0] == "tconst":
        v = cf.ev(g[1], None, None)
        return num(v) if v is not None else None
    return None


def collective(cf, g):
    n = g[2][-1][0] if g[0] == "tp" else None
    if n in (C, T):
        return n
    a = cf.alias(n) if n else None
    if n in ("Instance1", "Instance2"):
        return {cf.alias(C) and cf.alias(C)[2][-1][0]: C, cf.alias(T) and cf.alias(T)[2][-1][0]: T}.get(n)
    return collective(cf, a) if a is not None else None


def site(ctx, m, line, name, title, ok, msg):
    ctx.c["obligations"] += 1
    ctx.c["paths"] += 1
    if ok is None:
        ctx.c["undecided"] += 1
        ctx.und.append(f"{name}: {title}: {msg}"[:300])
    elif ok:
        ctx.c["proved"] += 1
    else:
        ctx.res.findings.append(Finding(title, name, m.file if m is not None else RT, line, msg, f"{name}|{title}"))


def origins(pid, tier):
    ctx = Ctx(pid, tier)
    guarded(_origins)(ctx)
    return ctx.done(RULE1, ["the FRAME origin types accept what their documentation says", "the members of the bodies are governed elsewhere"])


def _origins(ctx):
    cf = Conf(ctx)
    for key, floor in FLOOR.items():
        hit = [(k, v) for k, v in cf.items.items() if k[1] == key[1] and k[0].split(":")[0] == key[0]]
        if not hit:
            ctx.c["missing"] += 1
            ctx.und.append(f"{key}: not found")
            continue
        for k, (ty, m, line) in hit:
            name = f"{k[0]}::{k[1]}"
            b = bodies(cf, ty)
            if b is None:
                site(ctx, m, line, name, "privileged origin", None, "type not resolved")
                continue
            ctx.analysed.append(name)
            for x in sorted(b, key=str):
                if x == "root":
                    ok = floor is not None
                elif x in ("signed", "address"):
                    ok = False
                else:
                    ok = bool(floor) and x[0] == floor[0] and (x[1] > floor[1] or x[1] == floor[1] and x[2] >= floor[2])
                say = {"root": "root", "signed": "any signed account", "address": "an account other than a governing body"}.get(x) if isinstance(x, str) else f"{'more than ' if x[2] else ''}{x[1]} of {x[0]}"
                site(ctx, m, line, name, "privileged origin", ok, f"accepts {say}")
    # bodies that one account may use alone, and nothing else unlisted
    for (pn, it), (ty, m, line) in cf.items.items():
        if not it.endswith("Origin") or (pn.split(":")[0], it) in FLOOR or not (pn.startswith("pallet_") or pn.startswith("warehouse")):
            continue
        b = bodies(cf, ty)
        if b is None:
            continue
        single = {("pallet_bonds", "IssueOrigin"), ("pallet_democracy", "SubmitOrigin"), ("pallet_xcm", "SendXcmOrigin"), ("pallet_xcm", "ExecuteXcmOrigin")}
        site(ctx, m, line, f"{pn}::{it}", "open to any account", "signed" not in b or (pn, it) in single, "accepts any signed account")


# ------------------------------------------------------------------------------------------------------ parameters
def text(n):
    if n is None:
        return None
    n = strip(n)
    while n.op in ("call", "struct:PalletId:0", "variant:PalletId", "deref", "m") and n.args and isinstance(n.args[-1], Node):
        n = strip(n.args[-1])
    return str(n.args[0]) if n.op == "const" and str(n.args[0]).startswith("b[") else None


def nums(n):
    """components of a pair, in order"""
    n = strip(n) if n is not None else None
    if n is not None and n.op.startswith("variant:Some"):
        n = strip(n.args[0])
    if n is None or n.op != "tuple":
        return None
    v = [num(strip(x)) for x in n.args]
    return None if None in v else v


def rational(n):
    n = strip(n) if n is not None else None
    if n is None:
        return None
    if num(n) is not None:
        return Fr(num(n), 10**18)
    xs = [num(strip(z)) for z in n.args if isinstance(z, Node)]
    k = str(n.args[0]).split("::")[-1] if n.op == "call" else ""
    if k in ("saturating_from_rational", "from_rational") and len(xs) == 2 and None not in xs and xs[1]:
        return Fr(*xs)
    return Fr(xs[0]) if k in ("saturating_from_integer", "from_u32", "from") and len(xs) == 1 and xs[0] is not None else None


def comps(n):
    if n is None:
        return {}
    n = strip(n)
    return dict(zip(n.op.split(":")[-1].split(","), [num(strip(x)) for x in n.args])) if n.op.startswith("struct:") else {}


def distinct(ctx, title, what, got, show_=str):
    seen = {}
    for name, v, m, line in got:
        if v is None:
            site(ctx, m, line, name, title, None, "value not evaluated")
            continue
        site(ctx, m, line, name, title, seen.setdefault(v, name) == name, f"{what} {show_(v)} is also that of {seen[v]}")


def parameters(pid, tier):
    ctx = Ctx(pid, tier)
    guarded(_parameters)(ctx)
    return ctx.done(RULE2, ["the compiler's arithmetic on constants"])


def plain(v):
    return bytes(int(x) for x in v[2:-1].split(",") if x.strip()).decode("latin1") if v.startswith("b[") else v


def _parameters(ctx):
    cf = Conf(ctx)
    P = cf.params
    ty = lambda n: tyname(P[n][0])
    ids = [(n, text(cf.param(n)), P[n][2], P[n][3] and P[n][3]) for n in P if ty(n) == "PalletId"]
    distinct(ctx, "own pallet account", "the pallet id", [(n, v, m, l) for n, v, m, l in ids if n in P], plain)
    ctx.analysed += [x[0] for x in ids]
    get = lambda pn, it: cf.items.get((pn, it))
    val = lambda pn, it: cf.value(get(pn, it)[0], get(pn, it)[1]) if get(pn, it) else None
    colls = [(f"{pn}::{it}", num(strip(v)) if (v := cf.value(x[0], x[1])) is not None else None, x[1], x[2]) for (pn, it), x in cf.items.items() if it.lower() == "nftcollectionid"]
    distinct(ctx, "own collection of position tokens", "the collection", colls)
    # locks and reserves
    locks = [(n, text(cf.param(n)), P[n][2], P[n][3]) for n in P if ty(n) == "LockIdentifier"]
    res = [(n, text(cf.param(n)), P[n][2], P[n][3]) for n in P if ty(n) in ("NamedReserveIdentifier", "ReserveIdentifier")]
    for crate in ("runtime/hydradx", "pallets/lbp", "pallets/democracy", "pallets/staking", "pallets/otc"):
        try:
            pc = ctx.pallet(crate if crate.startswith("runtime") else crate.split("/")[1])
        except Exception:
            ctx.c["missing"] += 1
            continue
        it = Interp(pc.w)
        for m in pc.c.modules:
            for k, xs in m.items.items():
                for kind, x in xs:
                    if kind == "const" and x.get("ty") and tyname(x["ty"]) in ("LockIdentifier", "NamedReserveIdentifier") and "tests" not in m.path:
                        try:
                            v = text(tonode_(it.eval(x["expr"], St(), Frame(None, m, None, 0))[0][1]))
                        except Exception:
                            v = None
                        (locks if tyname(x["ty"]) == "LockIdentifier" else res).append((f"{crate}::{k}", v, m, x["line"]))
    distinct(ctx, "own lock", "the lock", locks, plain)
    distinct(ctx, "own reserve", "the reserve", res, plain)
    # oracle
    sup = cf.param("SupportedPeriods") if "SupportedPeriods" in P else val("pallet_ema_oracle", "SupportedPeriods")
    kept = {z.args[0].split("::")[-1] if z.op == "fn" else z.op.split(":")[1] for z in find(sup, lambda z: z.op == "fn" and "OraclePeriod" in str(z.args[0]) or z.op.startswith("variant:") and not z.args)} if sup is not None else set()
    for n in P:
        if ty(n) == "OraclePeriod":
            v = cf.param(n)
            p = None if v is None else strip(v).args[0].split("::")[-1] if strip(v).op == "fn" else strip(v).op.split(":")[-1] if strip(v).op.startswith("variant:") else None
            site(ctx, P[n][2], P[n][3], n, "period the oracle keeps", None if p is None or not kept else p in kept, f"asks for the period {p}, the oracle keeps {sorted(kept)}")
    src = {pn: text(val(pn, "OracleSource")) for pn in ("pallet_omnipool_liquidity_mining", "pallet_xyk", "pallet_xyk_liquidity_mining") if get(pn, "OracleSource")}
    for pn, v in src.items():
        _, m, l = get(pn, "OracleSource")
        want = {"pallet_omnipool_liquidity_mining": "omnipool"}.get(pn, "hydraxyk")
        site(ctx, m, l, pn + "::OracleSource", "source of the pool's own entries", None if v is None else plain(v) == want, f"source {v and plain(v)}")
    # fees
    for n in ("AssetFeeParams", "ProtocolFeeParams"):
        if n in P:
            d = comps(cf.param(n))
            lo, hi, dec = d.get("min_fee"), d.get("max_fee"), d.get("decay")
            _, _, m, l = P[n]
            site(ctx, m, l, n, "minimum below maximum", None if lo is None or hi is None else lo <= hi <= 1000000, f"fees from {lo} to {hi} ppm")
            site(ctx, m, l, n, "fee decays", None if dec is None else 0 < dec < 10**18, f"decay {dec}")
    pairs = [(("pallet_xyk", "GetExchangeFee"), None), (("pallet_xyk", "DiscountedFee"), ("pallet_xyk", "GetExchangeFee"))]
    for k, above in pairs:
        x = get(*k)
        if x:
            v = nums(cf.value(x[0], x[1]))
            site(ctx, x[1], x[2], "::".join(k), "fee is a fraction", None if v is None else v[1] > 0 and v[0] <= v[1], f"fee {v}")
            w = nums(val(*above)) if above else None
            if v and w and v[1] and w[1]:
                site(ctx, x[1], x[2], "::".join(k), "discount is not a surcharge", Fr(*v) <= Fr(*w), f"discounted fee {v}, fee {w}")
    for it in ("DefaultMaxNetTradeVolumeLimitPerBlock", "DefaultMaxAddLiquidityLimitPerBlock", "DefaultMaxRemoveLiquidityLimitPerBlock"):
        x = get("pallet_circuit_breaker", it)
        if x:
            v = nums(cf.value(x[0], x[1]))
            site(ctx, x[1], x[2], "pallet_circuit_breaker::" + it, "limit is a fraction", None if v is None else v[1] > 0 and 0 < v[0] <= v[1], f"limit {v}")
    # bounds that divide or that must be positive
    pos = [(p, i) for p in ("pallet_omnipool", "pallet_xyk", "pallet_lbp") for i in ("MaxInRatio", "MaxOutRatio", "MinTradingLimit", "MinimumTradingLimit", "MinPoolLiquidity", "MinimumPoolLiquidity")]
    pos += [("pallet_stableswap", "MinTradingLimit"), ("pallet_stableswap", "MinPoolLiquidity"), ("pallet_staking", "PeriodLength"), ("pallet_staking", "MinStake"), ("pallet_otc", "ExistentialDepositMultiplier")]
    pos += [(p, "MinPlannedYieldingPeriods") for p, i in cf.items if i == "MinPlannedYieldingPeriods"]
    for k in pos:
        x = get(*k)
        if x:
            v = cf.value(x[0], x[1])
            v = None if v is None else num(strip(v))
            site(ctx, x[1], x[2], "::".join(k), "positive", None if v is None else v > 0, f"is {v}")
    order = [(("pallet_asset_registry", "MinStringLimit"), ("pallet_asset_registry", "StringLimit")), (("pallet_dynamic_evm_fee", "MinBaseFeePerGas"), ("pallet_dynamic_evm_fee", "DefaultBaseFeePerGas")),
             (("pallet_dynamic_evm_fee", "DefaultBaseFeePerGas"), ("pallet_dynamic_evm_fee", "MaxBaseFeePerGas"))]
    for a, b in order:
        x = get(*a)
        if x and get(*b):
            v, w = (num(strip(z)) if z is not None else None for z in (val(*a), val(*b)))
            site(ctx, x[1], x[2], "::".join(a), "bounds in order", None if v is None or w is None else v <= w, f"{a[1]} is {v}, {b[1]} is {w}")
    if "MinimumMultiplier" in P and "MaximumMultiplier" in P:
        v, w = (rational(z) for z in (cf.param("MinimumMultiplier"), cf.param("MaximumMultiplier")))
        site(ctx, P["MinimumMultiplier"][2], P["MinimumMultiplier"][3], "MinimumMultiplier", "bounds in order", None if v is None or w is None else 0 < v <= w, f"from {v} to {w}")
    x = get("pallet_stableswap", "AmplificationRange")
    if x:
        v = cf.value(x[0], x[1])
        v = strip(v) if v is not None else None
        ns = [[num(z) for z in find(a, lambda z: num(z) is not None)] for a in v.args if isinstance(a, Node)] if v is not None and v.op in ("call", "range") else []
        ns = [a[0] for a in ns if len(a) == 1]
        site(ctx, x[1], x[2], "pallet_stableswap::AmplificationRange", "bounds in order", None if len(ns) != 2 else 0 < ns[0] <= ns[1], f"range {ns}")
    h, n_ = get("pallet_omnipool", "HubAssetId"), get("pallet_omnipool", "HdxAssetId")
    if h and n_:
        v, w = (num(strip(z)) if z is not None else None for z in (cf.value(h[0], h[1]), cf.value(n_[0], n_[1])))
        site(ctx, h[1], h[2], "pallet_omnipool::HubAssetId", "hub asset is not the native one", None if v is None or w is None else v != w, f"both are {v}")
