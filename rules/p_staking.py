"""Staking: what an owner is paid, what is locked, what the pot keeps aside, and how votes become points."""
from rules.p_small import *

RULE = ("Every path of the staking dispatchables, of the reward, point and vote processing helpers and of the democracy hooks is evaluated over the parsed source; "
        "on each, the position and the pool data stored afterwards, the amounts paid and locked and the arguments of the reward formulas must be the specified ones "
        "(as linear forms over what was stored before).")
PN = "staking"
NAT = CFG("NativeAssetId")
S = ST("Staking")
POT = ("m", "into_account_truncating", CFG("PalletId"))
OP = ("process_votes", "calculate_rewards")
LOCK = lambda n: n.op == "const"


def fld(v, f):
    d = fields(v)
    return d[f] if f in d else mk("fld", v, f)


def period(block):
    return C("calculate_period_number", lambda n: has(n, lambda z: match(z, CFG("PeriodLength"))), block)


NOW = period(lambda n: has(n, lambda z: match(z, X("BlockNumberProvider.current_block_number"))))


def points(pos, cur, created):
    return PL(C("calculate_points", created, cur, CFG("TimePointsPerPeriod"), CFG("TimePointsWeight"), F(pos, "action_points"), CFG("ActionPointsWeight"), F(pos, "accumulated_slash_points")))


def one(ns):
    out = []
    for n in ns:
        if not any(strip(n) is strip(x) for x in out):
            out.append(n)
    return out


class St:
    """what a path of a dispatchable computed and stored"""

    def __init__(self, ctx, r, q, g, pid):
        self.ok = False
        self.pid = pid
        self.pos = PL(ST("Positions", pid)) if pid is not None else None
        self.pend = LIN((1, X("Currency.free_balance", NAT, POT)), (-1, F(S, "pot_reserved_balance")))
        ws = q.writes("Staking")
        if len(ws) != 1 and not (ws and all(w.args[-1].op != "removed" for w in ws)):
            ctx.judge(r, q, "pool data", False, "the pool data is not stored", relevant=())
            return
        self.w = ws[-1]
        v = self.w.args[-1]
        self.A, self.res, self.tot = (fld(v, k) for k in ("accumulated_reward_per_stake", "pot_reserved_balance", "total_stake"))
        self.rps = PL(C("calculate_accumulated_rps", F(S, "accumulated_reward_per_stake"), self.pend, F(S, "total_stake")))
        same = match(self.A, F(S, "accumulated_reward_per_stake"))
        ok = same or match(self.A, self.rps)
        ctx.judge(r, q, "rewards per stake", ok, lambda: f"the accumulated reward per stake becomes {show(self.A)[:200]}", eff=self.w, relevant=VALUE)
        if not ok:
            return
        if same:
            why = g.eq(0, F(S, "total_stake")) or g.eq(0, self.pend) or g.eq(self.rps, F(S, "accumulated_reward_per_stake")) or \
                any(p and n.op == "eq" and any(match(x, X("Currency.free_balance", NAT, POT)) for x in n.args) and any(match(x, F(S, "pot_reserved_balance")) for x in n.args) for n, p in q.facts)
            ctx.judge(r, q, "new rewards distributed", why, "rewards that arrived in the pot are not distributed over the stakes before the stakes change", eff=self.w)
        # reserve after taking in the pending rewards
        r0 = next((x for x in find(self.res, lambda z: match(z, F(S, "pot_reserved_balance")))), None)
        self.before = lin(r0) if r0 is not None else None
        if self.before is None:
            bal = next((x for x in find(self.res, lambda z: match(z, X("Currency.free_balance", NAT, POT)))), None)
            if bal is None or same:
                ctx.judge(r, q, "reserve", False, lambda: f"the reserved balance becomes {show(self.res)[:200]}", eff=self.w, relevant=VALUE)
                return
            self.before = lin(bal)
        elif not same:
            bal = next((x for x in find(self.res, lambda z: match(z, X("Currency.free_balance", NAT, POT)))), None)
            self.before = lin(bal) if bal is not None else None
            if bal is None:
                ctx.judge(r, q, "reserve", False, "rewards distributed over the stakes are not added to the reserved balance", eff=self.w, relevant=VALUE)
                return
        self.ok = True

    def reserve(self, ctx, r, q, spent):
        """reserved balance after == before - spent, on this path"""
        d = lsub(lin(self.res), self.before)
        for x in spent:
            d = ladd(d, lin(x))
        d = {k: v for k, v in strip_lin(d).items() if v}
        ok = not d or q.leq(d, {})
        ctx.judge(r, q, "reserve", ok, lambda: f"the reserved balance is off by {fmt(d)[:300]}: it must fall by exactly what is paid or given back", eff=self.w, relevant=VALUE)


def strip_lin(d):
    out = {}
    for k, v in d.items():
        k = strip(k) if isinstance(k, Node) else k
        out[k] = out.get(k, 0) + v
    return out


def common(ctx, r, q, g, pid):
    ctx.judge(r, q, "owner", g.owner(CFG("NFTCollectionId"), pid), "anyone can act on a position they do not own", relevant=(pid,))
    ctx.judge(r, q, "initialised", g.some(S), "staking can be used before it is initialised", relevant=())


def novotes(ctx, r, q, g):
    ok = any(not p and n.op in ("call", "ext") and str(n.args[0]).endswith("ProcessedVotes.contains_prefix") and any(x is g.who for x in n.args) for n, p in q.facts)
    ctx.judge(r, q, "no votes outstanding", ok, "a position with processed votes still outstanding can be changed", relevant=())


def rewardcall(ctx, r, q, s):
    cr = one(find_all(q, lambda n: n.op == "call" and str(n.args[0]).endswith("::Pallet::calculate_rewards")))
    if len(cr) != 1:
        ctx.judge(r, q, "rewards", False if not cr else None, "rewards are not computed" if not cr else "several reward computations")
        return None
    c = cr[0]
    ok = match(c, C("calculate_rewards", s.pos, lambda n: strip(n) is strip(s.A), NOW, period(F(s.pos, "created_at"))))
    ctx.judge(r, q, "rewards", ok, lambda: f"rewards are computed by {show(c)[:300]}, not from the position, the accumulated reward per stake, the current period and the period of its creation", relevant=VALUE)
    P_ = mk("payload", c)
    return [mk("fld", P_, str(k)) for k in range(3)]


def find_all(q, f):
    out = []
    for n, p in q.facts:
        out += find(n, f)
    for e in q.eff:
        for a in e.args:
            if isinstance(a, Node):
                out += find(a, f)
    return out


def paid(ctx, r, q, g, amount):
    fl = q.flows()
    if any(f.amount is None for f in fl):
        ctx.undecided(r, "payment", "unmodelled currency movement")
        return
    q.allcertain(ctx, r)
    zero = g.eq(0, amount)
    mine = [f for f in fl if match(f.asset, NAT) and f.src is not None and match(f.src, POT) and f.dst is g.who]
    d = {}
    for f in mine:
        d = ladd(d, lin(f.amount))
    if zero and not mine:
        ctx.judge(r, q, "payment", True, "")
    else:
        ctx.judge(r, q, "payment", not lsub(strip_lin(d), strip_lin(lin(amount))), lambda: f"the owner is paid {fmt(d)[:200]}, not the claimable rewards", eff=mine[0].eff if mine else None, relevant=VALUE)
    for f in fl:
        if f not in mine:
            ctx.judge(r, q, "payment", False, lambda: f"unexpected {f.how} of {show(f.amount)[:80]}", eff=f.eff, relevant=VALUE)


def lock(ctx, r, q, g, amount):
    es = q.ext("Currency.set_lock")
    ctx.judge(r, q, "lock", len(es) == 1, "the stake is not locked", relevant=())
    for e in es:
        ok = match(e.args[1], NAT) and e.args[2] is g.who
        ctx.judge(r, q, "locked account", ok, "the lock is put on the wrong account or asset", eff=e, relevant=VALUE)
        ctx.judge(r, q, "locked amount", q.leq(strip_lin(lin(e.args[3])), strip_lin(amount)), lambda: f"{show(e.args[3])[:160]} is locked, not {fmt(amount)[:160]}", eff=e, relevant=VALUE)
        q.certain(e) if False else ctx.judge(r, q, "lock checked", q.certain(e), "the lock may fail silently", eff=e)


def stored(ctx, r, q, s, item, label, want):
    """fields of the stored position"""
    ws = [e for e in q.writes("Positions") if e.args[0] is s.pid or strip(e.args[0]) is strip(s.pid)]
    for e in q.writes("Positions"):
        if e not in ws:
            ctx.judge(r, q, "other positions", False, "another position is changed", eff=e, relevant=VALUE)
    if not ws:
        ctx.judge(r, q, "position", False, "the position is not stored", relevant=())
        return
    e = ws[-1]
    v = e.args[-1]
    if v.op == "removed":
        ctx.judge(r, q, "position", False, "the position is removed", eff=e)
        return
    for k, spec in want.items():
        x = fld(v, k)
        ok = spec(x)
        ctx.judge(r, q, k, ok, lambda: f"{k} of the position becomes {show(x)[:240]}", eff=e, relevant=VALUE)


def EQ(n):
    return lambda x: strip(x) is strip(n) if isinstance(n, Node) else match(x, n)


def SUM(q, *ns):
    return lambda x: q.leq(strip_lin(lin(x)), strip_lin(total([n for n in ns])))


def posfld(q, pid, f):
    return mk("fld", mk("payload", mk("st", "Positions", pid)), f)


def isold(f, s):
    return lambda x: match(x, F(s.pos, f))


def sumpat(q, *pats):
    """linear form is exactly one of each pattern; terms known to be zero on the path may be missing"""
    def ok(x):
        d = dict(lin(x))
        for p in pats:
            for k in list(d):
                if k is not None and d[k] == 1 and match(k, p):
                    del d[k]
                    break
            else:
                if not any(match(y, p) and any(n.op == "eq" and pol and y in n.args and match([z for z in n.args if z is not y][0], 0) for n, pol in q.facts) for y in find_all(q, lambda z: match(z, p))):
                    return False
        return not d
    return ok


def olderthan(ctx, r, q, age):
    """[True] / [False]: the path is one where the age exceeds / does not exceed the unclaimable periods; [] not compared; None undecided or wrong (reported)"""
    U = CFG("UnclaimablePeriods")
    fs = [(n, p) for n, p in q.facts if has(n, lambda z: match(z, U))]
    for n, p in fs:
        if n.op == "lt" and match(n.args[0], U) and match(n.args[1], age):
            return [p]
    for n, p in fs:
        if n.op == "lt" and match(n.args[1], U) and match(n.args[0], age):
            ctx.judge(r, q, "unclaimable periods", False, "the last unclaimable period is treated like a claimable one", relevant=VALUE)
            return None
    if fs:
        ctx.undecided(r, "unclaimable periods", "age compared in another form: " + show(fs[0][0])[:120])
        return None
    return []


@guarded
def claim(ctx):
    r = ctx.fn(PN, "claim", opaque=OP)
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        pid = r.arg(0)
        common(ctx, r, q, g, pid)
        novotes(ctx, r, q, g)
        s = St(ctx, r, q, g, pid)
        if not s.ok:
            continue
        cr = rewardcall(ctx, r, q, s)
        if cr is None:
            continue
        created = period(F(s.pos, "created_at"))
        paid(ctx, r, q, g, cr[0])
        late = olderthan(ctx, r, q, ("satsub", NOW, created))
        if late is None:
            continue
        if late:
            s.reserve(ctx, r, q, [cr[0], cr[1]] if late[0] else [cr[0]])
        elif not any(has(n, lambda z: match(z, CFG("UnclaimablePeriods"))) for n, p in q.facts):
            ctx.judge(r, q, "unclaimable periods", False, "rewards are returned to the pot without regard to the age of the position")
        ctx.judge(r, q, "total stake", match(s.tot, F(S, "total_stake")), lambda: f"claiming changes the total stake to {show(s.tot)[:160]}", eff=s.w, relevant=VALUE)
        stored(ctx, r, q, s, "Positions", "", {
            "stake": isold("stake", s), "created_at": isold("created_at", s),
            "accumulated_locked_rewards": lambda x: match(x, 0),
            "accumulated_unpaid_rewards": (lambda x: match(x, 0) if late[0] else EQ(cr[1])(x)) if late else (lambda x: True),
            "reward_per_stake": EQ(s.A),
            "accumulated_slash_points": sumpat(q, F(s.pos, "accumulated_slash_points"), points(s.pos, NOW, created))})
        lock(ctx, r, q, g, lin(posfld(q, pid, "stake")))
        setsonly(ctx, r, q, "Positions", "Staking")


def stakeable(ctx, r, q, g, amount, s=None):
    free, vest = X("Currency.free_balance", NAT, g.who), X("Vesting.locked", g.who)
    fv = LIN((1, free), (-1, vest))
    ok = False
    for n, p in q.facts:
        if n.op == "lt" and not p and n.args[1] is amount and n.args[0].op == "satsub" and fv(n.args[0].args[0]):
            y = n.args[0].args[1]
            y = y.args[0] if y.op == "sat" else y
            if s is None:
                ok = ok or y.op == "default" or match(y, 0)
            else:
                ok = ok or LIN((1, F(s.pos, "stake")), (1, F(s.pos, "accumulated_locked_rewards")))(y)
        if n.op == "lt" and not p and n.args[1] is amount and s is None and fv(n.args[0]):
            ok = True
    ctx.judge(r, q, "stakeable balance", ok, "more can be staked than the free balance that is neither vested nor staked already", relevant=(amount,))


@guarded
def increase(ctx):
    r = ctx.fn(PN, "increase_stake", opaque=OP)
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        pid, amount = r.arg(0), r.arg(1)
        common(ctx, r, q, g, pid)
        novotes(ctx, r, q, g)
        ctx.judge(r, q, "minimum", g.le(CFG("MinStake"), amount), "less than the minimum can be staked", relevant=(amount,))
        s = St(ctx, r, q, g, pid)
        if not s.ok:
            continue
        stakeable(ctx, r, q, g, amount, s)
        cr = rewardcall(ctx, r, q, s)
        if cr is None:
            continue
        created = period(F(s.pos, "created_at"))
        paid(ctx, r, q, g, cr[0])
        s.reserve(ctx, r, q, [cr[0]])
        ctx.judge(r, q, "total stake", LIN((1, F(S, "total_stake")), (1, amount))(s.tot), lambda: f"the total stake becomes {show(s.tot)[:160]}", eff=s.w, relevant=VALUE)
        slash = PL(C("calculate_slashed_points", points(s.pos, NOW, created), F(s.pos, "stake"), amount, CFG("CurrentStakeWeight"), [X("MinSlash.get", cr[2]), ("call", "MinSlash.get", cr[2])]))
        stored(ctx, r, q, s, "Positions", "", {
            "stake": LIN((1, F(s.pos, "stake")), (1, amount)), "created_at": isold("created_at", s),
            "accumulated_locked_rewards": sumpat(q, F(s.pos, "accumulated_locked_rewards"), cr[0]),
            "accumulated_unpaid_rewards": EQ(cr[1]),
            "reward_per_stake": EQ(s.A),
            "accumulated_slash_points": sumpat(q, F(s.pos, "accumulated_slash_points"), slash)})
        ws = q.writes("Positions")
        if ws and ws[-1].args[-1].op != "removed":
            v = ws[-1].args[-1]
            lock(ctx, r, q, g, ladd(lin(fld(v, "stake")), lin(fld(v, "accumulated_locked_rewards"))))
        setsonly(ctx, r, q, "Positions", "Staking")


@guarded
def stake(ctx):
    r = ctx.fn(PN, "stake", opaque=OP)
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        amount = r.arg(0)
        nid = ST("NextPositionId")
        ctx.judge(r, q, "minimum", g.le(CFG("MinStake"), amount), "less than the minimum can be staked", relevant=(amount,))
        ctx.judge(r, q, "initialised", g.some(S), "staking can be used before it is initialised", relevant=())
        owned = X("NFTHandler.owned_in_collection", CFG("NFTCollectionId"), g.who)
        ctx.judge(r, q, "one position", g.none(("m", "next", owned)), "an account can have two positions", relevant=())
        stakeable(ctx, r, q, g, amount)
        ps = q.writes("Positions")
        ctx.judge(r, q, "position created", len(ps) == 1, f"{len(ps)} positions are written")
        if len(ps) != 1:
            continue
        s = St(ctx, r, q, g, ps[0].args[0])
        if not s.ok:
            continue
        ctx.judge(r, q, "position id", match(s.pid, nid), "the new position does not get the next free id", eff=ps[0], relevant=VALUE)
        ws = q.writes("NextPositionId")
        ctx.judge(r, q, "next id", len(ws) == 1 and LIN((1, nid), (1, ("ext", "PositionItemId.one")))(ws[0].args[-1]) or len(ws) == 1 and match(ws[0].args[-1], LINC(nid)), lambda: "the next position id is not advanced, the next staker would overwrite this position")
        s.reserve(ctx, r, q, [])
        ctx.judge(r, q, "total stake", LIN((1, F(S, "total_stake")), (1, amount))(s.tot), lambda: f"the total stake becomes {show(s.tot)[:160]}", eff=s.w, relevant=VALUE)
        z = lambda x: match(x, 0)
        stored(ctx, r, q, s, "Positions", "", {"stake": EQ(amount), "reward_per_stake": EQ(s.A), "action_points": z, "accumulated_slash_points": z, "accumulated_unpaid_rewards": z,
                                               "accumulated_locked_rewards": z, "created_at": lambda x: match(x, X("BlockNumberProvider.current_block_number"))})
        lock(ctx, r, q, g, lin(amount))
        ms = q.ext("NFTHandler.mint_into")
        ctx.judge(r, q, "nft", len(ms) == 1 and match(ms[0].args[0], CFG("NFTCollectionId")) and match(ms[0].args[1], nid) and ms[0].args[2] is g.who and q.certain(ms[0]), "the staker does not get the position's token")
        ctx.judge(r, q, "payment", not q.flows(), "staking moves funds", relevant=VALUE)
        setsonly(ctx, r, q, "Positions", "Staking", "NextPositionId")


def LINC(n):
    def ok(x):
        d = dict(lin(x))
        return d.pop(None, 0) == 1 and len(d) == 1 and all(v == 1 and match(k, n) for k, v in d.items())
    return ok


@guarded
def unstake(ctx):
    r = ctx.fn(PN, "unstake", opaque=OP)
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        pid = r.arg(0)
        common(ctx, r, q, g, pid)
        novotes(ctx, r, q, g)
        V = F(ST("PositionVotes", pid), "votes")
        ctx.judge(r, q, "no votes", g.eq(0, ("len", V)) or g.y(("m", "is_empty", V)), "a position with votes can be removed", relevant=())
        s = St(ctx, r, q, g, pid)
        if not s.ok:
            continue
        cr = rewardcall(ctx, r, q, s)
        if cr is None:
            continue
        paid(ctx, r, q, g, cr[0])
        s.reserve(ctx, r, q, [cr[0], cr[1]])
        ctx.judge(r, q, "total stake", LIN((1, F(S, "total_stake")), (-1, F(s.pos, "stake")))(s.tot), lambda: f"the total stake becomes {show(s.tot)[:160]}", eff=s.w, relevant=VALUE)
        for item in ("Positions", "PositionVotes"):
            ws = q.writes(item)
            ctx.judge(r, q, item, bool(ws) and ws[-1].args[0] is pid and ws[-1].args[-1].op == "removed", f"the entry of {item} outlives the position")
        es = q.ext("Currency.remove_lock")
        ctx.judge(r, q, "unlock", len(es) == 1 and match(es[0].args[1], NAT) and es[0].args[2] is g.who and q.certain(es[0]), "the stake stays locked")
        bs = q.ext("NFTHandler.burn")
        ctx.judge(r, q, "nft", len(bs) == 1 and match(bs[0].args[0], CFG("NFTCollectionId")) and bs[0].args[1] is pid and q.certain(bs[0]), "the position's token is not burned")
        setsonly(ctx, r, q, "Positions", "Staking", "PositionVotes")


@guarded
def locks(ctx):
    """one lock id for setting and removing"""
    ids = {}
    for f in ("stake", "increase_stake", "claim", "unstake"):
        r = ctx.fn(PN, f, opaque=OP)
        for q in (r.paths if r is not None else ()):
            for e in q.ext("Currency.set_lock", "Currency.remove_lock"):
                ids.setdefault(e.args[0], (r, q, e))
    if ids:
        r, q, e = list(ids.values())[-1]
        ctx.judge(r, q, "lock id", len(ids) == 1, "the lock is removed or replaced under another identifier than it was set with", eff=e, relevant=VALUE)


@guarded
def init(ctx):
    r = ctx.fn(PN, "initialize_staking")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        bal = X("Currency.free_balance", NAT, POT)
        ctx.judge(r, q, "once", g.none(S), "staking can be initialised again, forgetting every stake", relevant=())
        ctx.judge(r, q, "pot", g.lt(0, bal) or g.ne(0, bal), "staking can start with an empty pot", relevant=())
        ws = q.writes("Staking")
        ctx.judge(r, q, "pool data", len(ws) == 1, "the pool data is not stored")
        for e in ws:
            v = e.args[-1]
            z = lambda n: n.op == "fld" and n.args[0].op == "default" or match(n, 0) or n.op == "default"
            ctx.judge(r, q, "reserve", match(fld(v, "pot_reserved_balance"), bal), "what the pot held at the start can be distributed", eff=e, relevant=VALUE)
        ctx.judge(r, q, "origin", any(n.op == "origin" and p for n, p in q.facts), "no origin is required", relevant=())
        cs = q.ext("NFTHandler.create_collection")
        ctx.judge(r, q, "collection", len(cs) == 1 and match(cs[0].args[0], CFG("NFTCollectionId")), "no collection is created for the positions")
        fz = q.ext("freeze_collection")
        ctx.judge(r, q, "frozen", len(fz) == 1 and match(fz[0].args[1], CFG("NFTCollectionId")), "positions can be transferred")


@guarded
def rewards(ctx):
    r, qs = fnpaths(ctx, PN, "calculate_rewards")
    if r is None or len(r.fn.params) != 4:
        return
    pos, acc, cur, cre = [mk("var", p[0][1]) for p in r.fn.params]
    pos, acc, cur, cre = [r.arg(k) or x for k, x in enumerate((pos, acc, cur, cre))]
    new = PL(C("calculate_rewards", acc, F(pos, "reward_per_stake"), F(pos, "stake")))
    unpaid, locked = F(pos, "accumulated_unpaid_rewards"), F(pos, "accumulated_locked_rewards")
    age = ("satsub", cur, cre)
    seen = set()
    for q in qs:
        if q.node.op == "variant:None":
            continue
        t = q.node.args[0] if q.node.op == "variant:Some" else mk("payload", q.node)
        if t.op != "tuple" or len(t.args) != 3:
            ctx.undecided(r, "rewards", "result not a triple")
            continue
        pay, rest, pct = t.args
        late = olderthan(ctx, r, q, age)
        if late is None:
            continue
        if not late:
            ctx.judge(r, q, "unclaimable periods", False, "rewards do not depend on the age of the position")
            continue
        seen.add(late[0])
        if not late[0]:
            ctx.judge(r, q, "nothing yet", match(pay, 0) and match(pct, lambda n: match(n, 0) or n.op in ("default",)), "rewards are paid before the unclaimable periods have passed", relevant=VALUE)
            ctx.judge(r, q, "unpaid rewards", rest.op == "sat" and LIN((1, unpaid), (1, new))(rest.args[0]) or LIN((1, unpaid), (1, new))(rest), lambda: f"the unpaid rewards become {show(rest)[:200]}", relevant=VALUE)
            continue
        P_ = PL([X("PayablePercentage.get", points(pos, cur, cre)), C("PayablePercentage.get", points(pos, cur, cre))])
        tot = C("calculate_total_rewards", new, locked, unpaid)
        usr = C("calculate_percentage_amount", tot, P_)
        claimable = ("satsub", usr, locked)
        ctx.judge(r, q, "percentage", match(pct, P_), lambda: f"the payable percentage is {show(pct)[:200]}", relevant=VALUE)
        ctx.judge(r, q, "claimable rewards", match(pay, claimable), lambda: f"the claimable rewards are {show(pay)[:260]}", relevant=VALUE)
        ctx.judge(r, q, "unpaid rewards", match(rest, ("satsub", ("satsub", tot, locked), claimable)) or rest.op == "satsub" and match(rest.args[0], tot) and
                  (LIN((1, locked), (1, claimable))(rest.args[1].args[0] if rest.args[1].op == "sat" else rest.args[1])), lambda: f"the unpaid rewards become {show(rest)[:260]}", relevant=VALUE)


@guarded
def fees(ctx):
    r, qs = fnpaths(ctx, PN, "process_trade_fee")
    if r is None:
        return
    src, asset, amount = [r.arg(k) or mk("var", p[0][1]) for k, p in enumerate(r.fn.params)]
    for q in qs:
        if not q.node.op.startswith("variant:Ok"):
            continue
        g = G(r, q)
        took = q.node.args[0]
        nat = g.eq(asset, NAT)
        moved = [f for f in q.flows()]
        if match(took, 0):
            ctx.judge(r, q, "nothing taken", not moved, "a fee is taken but not reported", relevant=VALUE)
            ctx.judge(r, q, "fee refused", not (nat and g.some(S)), "the fee in the native asset is not collected", relevant=VALUE)
        else:
            ctx.judge(r, q, "taken", took is amount and len(moved) == 1 and moved[0].asset is asset and moved[0].src is src and moved[0].dst is not None and match(moved[0].dst, POT) and moved[0].amount is amount,
                      lambda: f"{show(took)[:80]} is reported as collected, which is not what moved to the pot", relevant=VALUE)
            ctx.judge(r, q, "native only", nat and g.some(S), "fees are collected in another asset or before staking is initialised")


# ------------------------------------------------------------------------------------------------------------ votes
CALC = "calculate_points_for_action"


@guarded
def votes(ctx):
    r, qs = fnpaths(ctx, PN, "process_votes", opaque=(CALC,))
    if r is None:
        return
    who, pid, pos = [r.arg(k) or mk("var", p[0][1]) for k, p in enumerate(r.fn.params)]
    V = F(ST("PositionVotes", pid), "votes")
    for q in qs:
        ws = q.writes("PositionVotes")
        ctx.judge(r, q, "votes kept", len(ws) == 1 and ws[0].args[0] is pid, "the position's votes are not updated")
        if not ws:
            continue
        v = fld(ws[-1].args[-1], "votes")
        i = loopinfo(r, str(v.args[1])) if v.op == "retained" else None
        if i is None or not match(v.args[0], V) or "keep" not in i:
            ctx.undecided(r, "votes kept", "not a retain over the stored votes")
            continue
        el = tonode_(i["seq"].elem)
        ref, vote = mk("fld", el, "0"), mk("fld", el, "1")
        fin = X("ReferendumInfo.is_referendum_finished", ref)
        for x in i["ends"]:
            keep = tonode_(r.runs.it.force(x.store[i["keep"]], x))
            done = [p for n, p in x.facts if match(n, fin)]
            if not done:
                if match(keep, ("not", fin)):
                    continue
                ctx.judge(r, q, "finished referenda", False, "votes are processed without regard to whether their referendum is finished", relevant=VALUE)
                continue
            ws2 = [d for d in flatten(x.eff[len(i["pre"].eff):]) if d.kind in ("write", "set") and d.name == "ProcessedVotes"]
            if not done[-1]:
                ctx.judge(r, q, "open referendum", isT(keep) and not ws2, "a vote of an unfinished referendum is dropped or counted", relevant=VALUE)
            else:
                ctx.judge(r, q, "finished referendum", isF(keep), "a processed vote stays and is counted again", relevant=VALUE)
                ok = any(w.args[0] is who and w.args[1] is ref and (w.args[2] is vote) for w in ws2)
                ctx.judge(r, q, "processed vote recorded", ok, "a processed vote is not recorded under its voter and referendum", relevant=VALUE)
            for k, sl in enumerate(i["slots"]):
                if sl == i["keep"] or tonode_(i["init"][k]) is not pos:
                    continue
                old, new = tonode_(i["phi"][k]), tonode_(r.runs.it.force(x.store[sl], x))
                if not done[-1]:
                    ctx.judge(r, q, "open referendum", new is old, "points are given for a vote in an unfinished referendum", relevant=VALUE)
                    continue
                ap = fld(new, "action_points")
                inner = ap.args[0] if ap.op == "sat" else ap
                ok = LIN((1, F(old, "action_points")), (1, C(CALC, ("variant:DemocracyVote",), vote, maxvote(pos, old))))(inner)
                ctx.judge(r, q, "points", ok, lambda: f"the action points become {show(ap)[:260]}", relevant=VALUE)
                d = fields(new)
                for f, y in d.items():
                    if f != "action_points":
                        ctx.judge(r, q, "other fields", match(y, F(old, f)), f"processing votes changes {f} of the position", relevant=VALUE)


def maxvote(*poss):
    """stake times the largest conviction"""
    def ok(n):
        return any(has(n, lambda z: match(z, F(p, "stake"))) for p in poss) and has(n, lambda z: match(z, 6 * 10 ** 18) or match(z, 6)) and not has(n, lambda z: z.op == "fld" and z.args[1] != "stake")
    return ok


@guarded
def hooks(ctx):
    UP = "get_user_position_id"
    EX = dict(opaque=("process_votes", UP, CALC))
    r, qs = fnpaths(ctx, PN, "on_vote", **EX)
    for q in qs:
        who, ref, vote = [r.arg(k) or mk("var", p[0][1]) for k, p in enumerate(r.fn.params)]
        g = G(r, q)
        pid = PL(PL(C(UP, who)))
        pos = PL(ST("Positions", pid))
        ws = q.writes("PositionVotes")
        if q.node.op.startswith("variant:Err"):
            continue
        if not ws:
            ok = g.none(PL(C(UP, who))) or g.none(ST("Positions", pid))
            ctx.judge(r, q, "vote recorded", ok, "a vote of a staker is not recorded")
            continue
        e = ws[-1]
        ctx.judge(r, q, "position", match(e.args[0], pid), "the vote is recorded for another position", eff=e, relevant=VALUE)
        ctx.judge(r, q, "earlier votes processed", any(x.kind == "call" and x.name.endswith("::process_votes") for x in q.eff), "earlier finished votes are not processed before a new vote", relevant=())
        v = fld(e.args[-1], "votes")
        rec = None
        V = F(ST("PositionVotes", pid), "votes")
        BS = lambda n: n.op == "m" and n.args[0] == "binary_search_by_key" and match(n.args[1], V) and n.args[2] is ref
        if v.op == "upd" and match(v.args[0], V):
            ctx.judge(r, q, "place", match(v.args[1], PL(BS)), "the vote replaces another referendum's vote", eff=e, relevant=VALUE)
            rec = v.args[2]
        elif v.op == "mut" and str(v.args[0]) in ("try_insert", "insert") and match(v.args[1], V):
            ctx.judge(r, q, "place", match(v.args[2], ("errof", BS)), "the votes are no longer sorted by referendum", eff=e, relevant=VALUE)
            rec = v.args[3]
        if rec is None or rec.op != "tuple":
            ctx.undecided(r, "vote", "recorded vote not built here")
            continue
        ctx.judge(r, q, "referendum", rec.args[0] is ref, "the vote is recorded for another referendum", eff=e, relevant=VALUE)
        am = fld(rec.args[1], "amount")
        parts = []

        def leaves(n):
            if n.op == "min":
                for a in n.args:
                    leaves(a)
            else:
                parts.append(n)
        leaves(am)
        bal = any(match(n, ("m", "balance", vote)) for n in parts)
        stk = any(match(n, F(pos, "stake")) for n in parts)
        free = any(subs(n, X("Currency.free_balance", NAT, who), [X("Vesting.locked", who), F(pos, "accumulated_locked_rewards")]) for n in parts)
        ctx.judge(r, q, "vote amount", bal and stk and free, lambda: f"the vote counts with {show(am)[:300]}, not the least of the vote, the stake and the balance that is neither vested nor locked rewards", eff=e, relevant=VALUE)
        cv = fld(rec.args[1], "conviction")
        sel = [str(n.args[1]) for n, p in q.facts if n.op == "is" and p and n.args[0].op == "fld" and n.args[0].args[1] == "conviction"]
        std = [p for n, p in q.facts if n.op == "is" and n.args[0] is vote and n.args[1] == "Standard"]
        if std and std[0] and len(sel) == 1:
            ctx.judge(r, q, "conviction", cv.op == "variant:" + sel[0], lambda: f"a vote with conviction {sel[0]} is recorded as {show(cv)}", eff=e, relevant=VALUE)
        elif std and not std[0]:
            ctx.judge(r, q, "conviction", cv.op in ("variant:None", "default"), lambda: f"a vote without conviction is recorded as {show(cv)}", eff=e, relevant=VALUE)
    r, qs = fnpaths(ctx, PN, "on_remove_vote", **EX)
    for q in qs:
        who, ref, fin = [r.arg(k) or mk("var", p[0][1]) for k, p in enumerate(r.fn.params)]
        g = G(r, q)
        pid = PL(PL(C(UP, who)))
        pos = PL(ST("Positions", pid))
        PV = ST("ProcessedVotes", who, ref)
        has_pos = g.some(PL(C(UP, who)))
        pw = [e for e in q.writes("ProcessedVotes")]
        if has_pos:
            ctx.judge(r, q, "processed vote forgotten", any(e.args[0] is who and e.args[1] is ref and e.args[-1].op == "removed" for e in pw) or g.none(PV), "a removed vote stays recorded as processed: the position stays blocked", relevant=())
        ws = q.writes("Positions")
        vs = q.writes("PositionVotes")
        if g.some(PV):
            ctx.judge(r, q, "counted once", not ws and not vs, "a vote that was already counted is counted again", relevant=VALUE)
            continue
        for e in ws:
            new = e.args[-1]
            ok = g.some(fin) and g.y(lambda n: n.op == "payload" and n.args[0] is fin)
            ctx.judge(r, q, "finished only", ok, "points are given for a vote withdrawn before its referendum finished", eff=e)
            ap = fld(new, "action_points")
            inner = ap.args[0] if ap.op == "sat" else ap
            vt = lambda n: n.op == "fld" and n.args[1] == "1" and n.args[0].op == "idx" and match(n.args[0].args[0], F(ST("PositionVotes", pid), "votes"))
            ctx.judge(r, q, "points", LIN((1, F(pos, "action_points")), (1, C(CALC, ("variant:DemocracyVote",), vt, maxvotep(pos))))(inner), lambda: f"the action points become {show(ap)[:260]}", eff=e, relevant=VALUE)
            for f, y in fields(new).items():
                if f != "action_points":
                    ctx.judge(r, q, "other fields", match(y, F(pos, f)), f"removing a vote changes {f} of the position", eff=e, relevant=VALUE)
        if g.y(("is", lambda n: n.op == "position" and match(n.args[0], F(ST("PositionVotes", pid), "votes")), "Some")) and g.some(ST("Positions", pid)):
            ok = any(match(e.args[0], pid) and (lambda v: v.op == "mut" and str(v.args[0]) == "remove" and match(v.args[1], F(ST("PositionVotes", pid), "votes")) and v.args[2].op == "position")(fld(e.args[-1], "votes")) for e in vs)
            ctx.judge(r, q, "vote removed", ok, "a removed vote stays recorded and is counted later")
            fs = [n for n, p in q.facts if n.op == "is" and p and n.args[0].op == "position"]
            ok = any(has(n.args[0].args[1], lambda z: z.op == "eq" and ref in z.args) for n in fs)
            ctx.judge(r, q, "the vote's referendum", ok, "another referendum's vote is removed", relevant=VALUE)
            if g.some(fin) and g.y(lambda n: n.op == "payload" and n.args[0] is fin):
                ctx.judge(r, q, "points given", bool(ws), "a vote in a finished referendum gives no points when it is removed")
    r, qs = fnpaths(ctx, PN, "remove_vote_locks_if_needed", **EX)
    for q in qs:
        if q.node.op == "variant:None":
            continue
        who, ref = [r.arg(k) or mk("var", p[0][1]) for k, p in enumerate(r.fn.params)]
        g = G(r, q)
        pid = PL(PL(C(UP, who)))
        PV = PL(ST("ProcessedVotes", who, ref))
        V = F(ST("PositionVotes", pid), "votes")
        x = q.node.args[0] if q.node.op == "variant:Some" else mk("payload", q.node)
        ctx.judge(r, q, "read only", not q.writes(), "asking for the balance to keep locked changes what is stored", relevant=VALUE)
        ok = match(x, F(PV, "amount")) or match(x, F(("idx", V, lambda n: n.op == "position" and match(n.args[0], V) and has(n.args[1], lambda z: z.op == "eq" and ref in z.args)), "1", "amount"))
        ctx.judge(r, q, "lock kept", ok, lambda: f"the balance that stays locked is {show(x)[:200]}, not the amount of the vote", relevant=VALUE)


def maxvotep(pos):
    return lambda n: has(n, lambda z: match(z, F(pos, "stake"))) and has(n, lambda z: match(z, 6 * 10 ** 18) or match(z, 6))


def subs(n, base, gone):
    """base minus (saturating or not) each of gone"""
    gone = list(gone)
    while n.op in ("satsub", "sub") and len(n.args) == 2:
        y = n.args[1]
        for p in list(gone):
            if match(y, p):
                gone.remove(p)
                break
        else:
            z = y.args[0] if y.op == "sat" else y
            if len(gone) == 2 and LIN((1, gone[0]), (1, gone[1]))(z):
                gone = []
            else:
                return False
        n = n.args[0]
    return not gone and match(n, base)


@guarded
def actionpoints(ctx):
    r, qs = fnpaths(ctx, PN, CALC)
    if r is None:
        return
    a, d, m = [r.arg(k) or mk("var", p[0][1]) for k, p in enumerate(r.fn.params)]
    for q in qs:
        n = q.node
        ok = n.op == "div" and n.args[1] is m
        num_ = n.args[0] if ok else n
        calls = find(num_, lambda z: z.op in ("m", "ext", "call") and str(z.args[0]).split(".")[-1].split("::")[-1] in ("amount", "conviction")) + find(num_, lambda z: z.op == "fld" and z.args[1] in ("amount", "conviction"))
        if not calls and not ok:
            ctx.undecided(r, "points", f"form {show(n)[:120]}")
            continue
        kinds = {str(z.args[0]).split(".")[-1].split("::")[-1] if z.op != "fld" else z.args[1] for z in calls}
        ctx.judge(r, q, "points", ok and kinds >= {"amount", "conviction"} and has(num_, lambda z: z.op == "ext" and str(z.args[0]) == "MaxPointsPerAction.get" and z.args[1] is a), lambda: f"the points of an action are {show(n)[:260]}", relevant=VALUE)


@guarded
def convictions(ctx):
    r, qs = fnpaths(ctx, PN, "multiplier")
    names = ["None"] + [f"Locked{k}x" for k in range(1, 7)]
    for q in qs:
        left = [x for x in names if not any(n.op == "is" and not p and str(n.args[1]) == x for n, p in q.facts)]
        on = [str(n.args[1]) for n, p in q.facts if n.op == "is" and p] or (left if len(left) == 1 else [])
        v = num(q.node)
        if len(on) != 1 or on[0] not in names or v is None:
            ctx.undecided(r, "conviction", "not a value per conviction")
            continue
        k = names.index(on[0])
        want = 10 ** 17 if k == 0 else k * 10 ** 18
        ctx.judge(r, q, "weight of " + on[0], v == want, f"a vote with conviction {on[0]} weighs {v / 10 ** 18:g}, not {want / 10 ** 18:g}", relevant=VALUE)
    r, qs = fnpaths(ctx, PN, "max_multiplier")
    for q in qs:
        ctx.judge(r, q, "largest weight", num(q.node) == 6 * 10 ** 18 if num(q.node) is not None else None, "the largest weight of a vote is not that of the longest lock", relevant=VALUE)
    r, qs = fnpaths(ctx, PN, "get_points")
    for q in qs:
        if len(r.fn.params) != 3 or q.node.op == "variant:None":
            continue
        pos, cur, cre = [r.arg(k) or mk("var", p[0][1]) for k, p in enumerate(r.fn.params)]
        x = q.node.args[0] if q.node.op == "variant:Some" else mk("payload", q.node)
        ctx.judge(r, q, "points", match(x, points(pos, cur, cre)), lambda: f"the points of a position are {show(q.node)[:240]}", relevant=VALUE)


def staking(pid, tier):
    ctx = Ctx(pid, tier, known=("ProcessedVotes.contains_prefix", "Conviction::default") + tuple(f"pallets/staking::Pallet::{x}" for x in OP + (CALC, "get_user_position_id")))
    for f in (claim, increase, stake, unstake, locks, init, rewards, fees, votes, hooks, actionpoints, convictions):
        f(ctx)
    return ctx.done(RULE)
