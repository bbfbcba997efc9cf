"""Liquidity mining farms: rewards kept in the pot match what farms owe, stakes follow deposits, entries record when and with how much they joined."""
from rules.p_small import *
from vt.terms import ONE

RULE = ("Every success path of the farm functions of the liquidity mining pallet (with the synchronisation of global and yield farm evaluated in place) is compared, field by field, with the specified "
        "transition of the global farm, the yield farm, the deposit entry and the currency movements; amounts are compared as linear forms over what was stored before and over the results of the "
        "reward formulas.")
PN = "liquidity-mining"
GONLY = ("owner", "reward_currency", "yield_per_period", "planned_yielding_periods", "blocks_per_period", "incentivized_asset", "max_reward_per_period", "min_deposit", "id")
GALL = GONLY + ("updated_at", "total_shares_z", "accumulated_rpz", "pending_rewards", "accumulated_paid_rewards", "live_yield_farms_count", "total_yield_farms_count", "price_adjustment", "state")
YALL = ("id", "updated_at", "total_shares", "total_valued_shares", "accumulated_rpvs", "accumulated_rpz", "loyalty_curve", "multiplier", "state", "entries_count", "left_to_distribute", "total_stopped")
STATES = ("Active", "Stopped", "Terminated")
POT = PL(("m", "try_into_account", CFG("PalletId")))


def fld(v, f):
    """field of a value, looking through functional updates"""
    while v.op.count(":") == 2 and v.op.startswith("struct:"):
        ks = v.op.split(":")[2].split(",")
        if f in ks:
            return v.args[ks.index(f)]
        if len(v.args) <= len(ks):
            break
        v = v.args[len(ks)]
    return mk("fld", v, f)


def pool(q, f):
    """all nodes of the path satisfying f"""
    k = getattr(q, "_pool", None)
    if k is None:
        k = q._pool = {}
        todo = [n for n, p in q.facts] + [a for e in q.eff for a in e.args if isinstance(a, Node)]
        if q.val is not None:
            todo.append(tonode_(q.val))
        while todo:
            x = todo.pop()
            if x.id in k:
                continue
            k[x.id] = x
            todo += [a for a in x.args if isinstance(a, Node)]
    return [x for x in k.values() if f(x)]


def calls(q, name):
    out = []
    for x in pool(q, lambda n: n.op == "call" and str(n.args[0]).endswith("::" + name)):
        if not any(strip(x) is strip(y) for y in out):
            out.append(x)
    return out


def state(q, n, want):
    """is the farm state known to be (True) or known not to be (False) the wanted one?"""
    if n.op.startswith("variant:"):
        return n.op.split(":")[1] == want
    no = set()
    s = strip(n)
    for f, p in q.facts:
        if f.op == "is" and strip(f.args[0]) is s:
            if p:
                return str(f.args[1]) == want
            no.add(str(f.args[1]))
        if f.op == "eq" and any(strip(a) is s for a in f.args):
            o = next((a for a in f.args if a.op.startswith("variant:")), None)
            if o is not None:
                if p:
                    return o.op.split(":")[1] == want
                no.add(o.op.split(":")[1])
    if want in no:
        return False
    return True if len(no) == 2 else None


def sl(n):
    """linear form without read epochs"""
    return lin(strip(n)) if isinstance(n, Node) else n


class Bad(Exception):
    pass


class Lm:
    def __init__(self, ctx, r, q, gid=None, ykey=None):
        self.ctx, self.r, self.q, self.g = ctx, r, q, G(r, q)
        self.gw = q.writes("GlobalFarm")
        self.yw = q.writes("YieldFarm")
        if gid is not None:
            self.gid = gid
            self.G0 = mk("payload", mk("st", "GlobalFarm", gid))
            self.G1 = self.last(self.gw, (gid,), self.G0)
            self.NOW = ("div", lambda n: match(n, X("BlockNumberProvider.current_block_number")), F(strip(self.G0), "blocks_per_period"))
            self.now = next((x for x in pool(q, lambda n: match(n, self.NOW))), None)
        if ykey is not None:
            self.ykey = ykey
            self.Y0 = mk("payload", mk("st", "YieldFarm", *ykey))
            self.Y1 = self.last(self.yw, ykey, self.Y0)
        self.want_g, self.want_y = {}, {}
        self.flows = []

    def last(self, ws, key, old):
        mine = [e for e in ws if len(e.args) == len(key) + 1 and all(strip(a) is strip(b) or self.q.same(a, b) for a, b in zip(e.args, key))]
        for e in ws:
            if e not in mine:
                self.ctx.judge(self.r, self.q, "other farms", False, f"another farm is changed ({e.name} at {', '.join(show(a)[:60] for a in e.args[:-1])})", eff=e, relevant=VALUE)
        return mine[-1].args[-1] if mine else old

    def judge(self, label, ok, msg, rel=VALUE, eff=None):
        return self.ctx.judge(self.r, self.q, label, ok, msg, relevant=rel, eff=eff)

    def equal(self, a, b):
        """values a and b (nodes) or a linear form b are equal on this path"""
        if isinstance(b, Node) and isinstance(a, Node) and strip(a) is strip(b):
            return True
        return self.eql(sl(a), sl(b) if isinstance(b, Node) else b)

    def eql(self, a, b):
        if self.q.leq(a, b):
            return True
        d = lsub(a, b)
        d = {k: v for k, v in d.items() if k is None or not (k.op == "default" or self.g.eq(0, k))}
        return not d

    # ------------------------------------------------------------------------------------------------ synchronisation
    def is_now(self, n):
        return self.now is not None and strip(n) is strip(self.now) or match(n, self.NOW)

    def sync_global(self):
        q, g, G0 = self.q, self.g, self.G0
        self.R = None
        self.rpz = mk("fld", G0, "accumulated_rpz")
        self.PA = [mk("fld", G0, "price_adjustment")]
        self.G_updated = None
        if state(q, mk("fld", G0, "state"), "Active") is False or g.eq(F(strip(G0), "updated_at"), self.NOW):
            return True
        if g.eq(0, F(strip(G0), "total_shares_z")):
            self.G_updated = self.now
            return True
        cs = calls(q, "calculate_global_farm_rewards")
        if not cs:
            self.judge("global farm synchronised", False, "rewards of the global farm since its last update are not collected before its state changes")
            return False
        if len(cs) > 1:
            self.judge("global farm synchronised", None, "several reward computations")
            return False
        c = cs[0]
        if any(f.op == "is" and f.args[1] == "Ok" and p and f.args[0].op == "ext" and str(f.args[0].args[0]) == "PriceAdjustment.get" for f, p in q.facts):
            self.PA = [PL(X("PriceAdjustment.get", strip(G0)))]
        s = strip(G0)
        ok = match(c, C("calculate_global_farm_rewards", F(s, "total_shares_z"), self.PA[0], F(s, "yield_per_period"), F(s, "max_reward_per_period"),
                        lambda n: self.eql(sl(n), lsub(sl(self.now), sl(mk("fld", G0, "updated_at"))) if self.now is not None else {})))
        self.judge("global farm rewards", ok, lambda: f"the rewards of the global farm are {show(c)[:400]}, not those of its stake, price adjustment, yield, cap and the periods since its last update")
        acc = self.farm()
        lim = lambda n: n.op == "satsub" and match(n.args[0], X("MultiCurrency.free_balance", F(s, "reward_currency"), acc)) and match(n.args[1], X("AssetRegistry.get", F(s, "reward_currency")))
        rs = [n for n in pool(q, lambda n: n.op == "min" and len(n.args) == 2) if any(strip(a) is strip(mk("payload", c)) for a in n.args)]
        good = [n for n in rs if any(lim(a) for a in n.args)]
        if not good:
            odd = any(has(n, lambda z: z.op in ("m", "loopout", "apply", "fold") and z.args[0] not in ("try_into_sub_account", "into_sub_account_truncating")) for n in rs for n in n.args if strip(n) is not strip(mk("payload", c)))
            self.judge("rewards within the balance", None if odd else False, "the rewards moved to the pot are not limited to what the farm's account holds above the existential deposit")
            return False
        self.R = good[0]
        self.G_updated = self.now
        if not g.eq(0, self.R):
            ps = [c for c in calls(q, "calculate_accumulated_rps") if match(c, C("calculate_accumulated_rps", F(s, "accumulated_rpz"), F(s, "total_shares_z"), strip(self.R)))]
            self.judge("global rewards per share", bool(ps), "the collected rewards are not added to the accumulated rewards per share")
            if not ps:
                return False
            self.rpz = mk("payload", ps[0])
        self.move("rewards collected", acc, POT, sl(self.R))
        return True

    def farm(self):
        return PL(("m", "try_into_sub_account", CFG("PalletId"), [F(strip(self.G0), "id"), strip(self.gid)]))

    def move(self, what, src, dst, amount):
        self.flows.append((what, src, dst, amount))

    def sync_yield(self):
        q, g = self.q, self.g
        s = strip(self.Y0)
        self.r_ = None
        self.rpvs = sl(mk("fld", self.Y0, "accumulated_rpvs"))
        self.Y_rpz = mk("fld", self.Y0, "accumulated_rpz")
        self.Y_updated = mk("fld", self.Y0, "updated_at")
        if state(q, mk("fld", self.Y0, "state"), "Active") is False or g.eq(F(s, "updated_at"), self.NOW):
            return True
        if g.eq(0, F(s, "total_valued_shares")):
            self.Y_rpz, self.Y_updated = self.rpz, self.now
            return True
        cs = calls(q, "calculate_yield_farm_rewards")
        if not cs:
            self.judge("yield farm synchronised", False, "rewards of the yield farm since its last update are not taken before its state changes")
            return False
        if len(cs) > 1:
            self.judge("yield farm synchronised", None, "several reward computations")
            return False
        c = cs[0]
        ok = match(c, C("calculate_yield_farm_rewards", F(s, "accumulated_rpz"), lambda n: self.equal(n, self.rpz), F(s, "multiplier"), F(s, "total_valued_shares")))
        self.judge("yield farm rewards", ok, lambda: f"the rewards of the yield farm are {show(c)[:400]}, not those of its stored multiplier, stake and the global farm's accumulated rewards since its last update")
        if not ok:
            return False
        p = mk("payload", c)
        self.r_ = mk("fld", p, "1")
        self.rpvs = ladd(self.rpvs, sl(mk("fld", p, "0")))
        self.Y_rpz, self.Y_updated = self.rpz, self.now
        return True

    # ------------------------------------------------------------------------------------------------ comparisons
    def global_after(self, **want):
        """fields of the global farm afterwards; unspecified ones are as synchronised"""
        if self.G1.op == "removed":
            return
        d = {k: sl(mk("fld", self.G0, k)) for k in GALL}
        if self.R is not None and not self.g.eq(0, self.R):
            d["pending_rewards"] = ladd(d["pending_rewards"], sl(self.R))
        if getattr(self, "r_", None) is not None:
            d["pending_rewards"] = lsub(d["pending_rewards"], sl(self.r_))
            d["accumulated_paid_rewards"] = ladd(d["accumulated_paid_rewards"], sl(self.r_))
        d["accumulated_rpz"] = self.rpz
        if self.G_updated is not None:
            d["updated_at"] = self.G_updated
        d["price_adjustment"] = lambda n: any(match(n, strip(p) if isinstance(p, Node) else p) for p in self.PA)
        self.cmp("global farm", self.G1, d, want)

    def yield_after(self, **want):
        if self.Y1.op == "removed":
            return
        d = {k: sl(mk("fld", self.Y0, k)) for k in YALL}
        if getattr(self, "r_", None) is not None:
            d["left_to_distribute"] = ladd(d["left_to_distribute"], sl(self.r_))
        d["accumulated_rpvs"] = self.rpvs
        d["accumulated_rpz"] = self.Y_rpz
        d["updated_at"] = self.Y_updated
        self.cmp("yield farm", self.Y1, d, want)

    def cmp(self, what, v, d, want):
        for k, w in want.items():
            if isinstance(w, tuple) and w[0] == "+":
                d[k] = ladd(d[k] if isinstance(d[k], dict) else sl(d[k]), w[1])
            else:
                d[k] = w
        for k, w in d.items():
            x = fld(v, k)
            if w is None:
                continue
            ok = w(x) if callable(w) else self.equal(x, w)
            self.judge(f"{what}: {k}", ok, lambda: f"{k} of the {what} becomes {show(strip(x))[:300]}; it must be {w if callable(w) else (show(strip(w))[:200] if isinstance(w, Node) else fmt(w)[:300])}")

    def moves(self, extra_ok=()):
        """currency movements are exactly the expected ones, all in the reward currency"""
        q = self.q
        fl = q.flows()
        if any(f.amount is None for f in fl):
            self.ctx.undecided(self.r, "movements", "unmodelled currency movement")
            return
        q.allcertain(self.ctx, self.r)
        rest = list(fl)
        for what, src, dst, amount in self.flows:
            mine = [f for f in rest if f.src is not None and f.dst is not None and match(f.src, src) and match(f.dst, dst)]
            rest = [f for f in rest if f not in mine]
            d = {}
            for f in mine:
                d = ladd(d, sl(f.amount))
                self.judge("reward currency", match(f.asset, F(strip(self.G0), "reward_currency")) or extra_ok and match(f.asset, extra_ok), lambda: f"{what}: moved in {show(f.asset)[:100]}", eff=f.eff)
            self.judge(what, self.eql(d, amount), lambda: f"{what}: {fmt(d)[:300]} is moved, {fmt(amount)[:300]} is due", eff=mine[0].eff if mine else None)
        for f in rest:
            self.judge("movements", self.g.eq(0, f.amount), lambda: f"unexpected {f.how} of {show(f.amount)[:120]} from {show(f.src)[:80] if f.src else 'nothing'} to {show(f.dst)[:80] if f.dst else 'nothing'}", eff=f.eff)

    def only(self, *items):
        for e in self.q.writes():
            self.judge("writes", e.name in items, lambda: f"unexpected write of {e.name}", eff=e)

    def owner(self, who):
        s = strip(self.G0)
        self.judge("owner", self.g.eq(F(s, "owner"), who), "someone else than the owner of the global farm can do this", rel=())

    def exists(self):
        self.judge("global farm exists", self.g.some(strip(self.G0.args[0])), "the global farm need not exist", rel=())

    def active(self, n, label, want="Active"):
        self.judge(label, bool(state(self.q, n, want)), f"{label} is not required", rel=())

    def share(self, v, m):
        """stake in the global farm of valued shares v at multiplier m (patterns)"""
        for c in calls(self.q, "calculate_global_farm_shares"):
            if match(c, C("calculate_global_farm_shares", v, m)):
                return sl(mk("payload", c))
        return None


def each(ctx, fname, body):
    r = ctx.fn(PN, fname)
    if r is None:
        return
    for q in r.paths:
        one(ctx, r, q, body)


@guarded
def one(ctx, r, q, body):
    body(ctx, r, q)


def VAR(name):
    return lambda n: n.op.startswith("variant:" + name)


def NUL(n):
    return n.op == "default" or n.op == "const" and n.args[0] == 0 or n.op == "call" and str(n.args[0]).endswith("default")


# ---------------------------------------------------------------------------------------------------------- functions
def create_global(ctx, r, q):
    a = lambda k: strip(r.argn(*k))
    total, planned, bpp, inc, rc, owner, ypp, mind, pa = (strip(r.argn(n, i)) for i, n in enumerate(
        ("total_rewards", "planned_yielding_periods", "blocks_per_period", "incentivized_asset", "reward_currency", "owner", "yield_per_period", "min_deposit", "price_adjustment")))
    L = Lm(ctx, r, q)
    g = L.g
    J = lambda l, ok, m: L.judge(l, ok, m, rel=())
    J("minimum deposit", g.le(1000, mind), "a global farm may accept deposits below the pallet's minimum")
    J("price adjustment", g.ne(0, pa), "a price adjustment of zero is accepted")
    J("total rewards", g.le(CFG("MinTotalFarmRewards"), total), "rewards below the minimum are accepted")
    J("planned periods", g.le(CFG("MinPlannedYieldingPeriods"), planned), "fewer planned periods than the minimum are accepted")
    J("blocks per period", g.ne(0, bpp), "zero blocks per period are accepted")
    J("yield per period", g.ne(0, ypp), "a yield of zero is accepted")
    J("reward currency registered", g.y(X("AssetRegistry.exists", rc)), "an unregistered reward currency is accepted")
    J("incentivised asset registered", g.y(X("AssetRegistry.exists", inc)), "an unregistered incentivised asset is accepted")
    ws = L.gw
    nid = LIN((1, ST("FarmSequencer")), (1, lambda n: False)) if False else (lambda n: matchlin(sl(n), [(1, ST("FarmSequencer"))]) is False and sl(n) == {strip(mk("st", "FarmSequencer")): 1, None: 1})
    wrote(ctx, r, q, g, "FarmSequencer", (), nid, "farm id", "the farm id is not the next one")
    if not L.judge("farm stored", len(ws) == 1 and nid(ws[0].args[0]), "the global farm is not stored under the next id"):
        return
    v = ws[0].args[1]
    mrp = [n for n in pool(q, lambda n: n.op == "div" and strip(n.args[0]) is total and strip(n.args[1]) is planned)]
    now = ("div", X("BlockNumberProvider.current_block_number"), bpp)
    want = dict(id=nid, updated_at=now, reward_currency=rc, yield_per_period=ypp, planned_yielding_periods=planned, blocks_per_period=bpp, owner=owner, incentivized_asset=inc,
                max_reward_per_period=("div", total, planned), min_deposit=mind, price_adjustment=pa, state=VAR("Active"), total_shares_z=NUL, accumulated_rpz=NUL, pending_rewards=NUL,
                accumulated_paid_rewards=NUL, live_yield_farms_count=NUL, total_yield_farms_count=NUL)
    for k, w in want.items():
        x = fld(v, k)
        L.judge("new global farm: " + k, match(x, w), lambda: f"{k} of a new global farm is {show(strip(x))[:200]}", eff=ws[0])
    settle(ctx, r, q, g, [("rewards funded", rc, owner, PL(("m", "try_into_sub_account", CFG("PalletId"), nid)), total)])
    L.judge("account kept", any(e.name == "NonDustableWhitelistHandler.add_account" and match(e.args[0], PL(("m", "try_into_sub_account", CFG("PalletId"), nid))) for e in q.ext("add_account")),
            "the account of the farm is not protected from dusting")
    L.only("GlobalFarm", "FarmSequencer")


def update_price(ctx, r, q):
    who, gid, pa = r.argn("who", 0), r.argn("global_farm_id", 1), r.argn("price_adjustment", 2)
    L = Lm(ctx, r, q, gid)
    L.exists(), L.owner(who), L.active(mk("fld", L.G0, "state"), "global farm active")
    L.judge("price adjustment", L.g.ne(0, pa), "a price adjustment of zero is accepted", rel=())
    if not L.sync_global():
        return
    L.global_after(price_adjustment=pa)
    L.moves(), L.only("GlobalFarm")


def terminate_global(ctx, r, q):
    who, gid = r.argn("who", 0), r.argn("farm_id", 1)
    L = Lm(ctx, r, q, gid)
    L.R, L.G_updated, L.rpz, L.PA = None, None, mk("fld", L.G0, "accumulated_rpz"), [mk("fld", L.G0, "price_adjustment")]
    L.exists(), L.owner(who), L.active(mk("fld", L.G0, "state"), "global farm active")
    s = strip(L.G0)
    L.judge("no live farms", L.g.eq(0, F(s, "live_yield_farms_count")) or L.g.le(F(s, "live_yield_farms_count"), 0), "a global farm with live yield farms can be terminated", rel=())
    bal = next((n for n in pool(q, lambda n: match(n, X("MultiCurrency.free_balance", F(s, "reward_currency"), L.farm())))), None)
    if bal is None:
        L.judge("undistributed rewards", False, "the undistributed rewards are not returned to the owner")
        return
    L.move("undistributed rewards", L.farm(), lambda n: n is who or match(n, F(s, "owner")), sl(bal))
    if L.G1.op == "removed":
        L.judge("farm removed", L.g.eq(0, F(s, "total_yield_farms_count")) or L.g.le(F(s, "total_yield_farms_count"), 0), "a global farm that still has yield farms is removed", rel=())
    else:
        L.judge("farm kept", not L.g.eq(0, F(s, "total_yield_farms_count")), "a terminated global farm without yield farms is kept", rel=())
        L.global_after(state=VAR("Terminated"))
    L.judge("account released", any(match(e.args[0], L.farm()) for e in q.ext("remove_account")), "the account of the farm stays protected from dusting")
    L.moves(), L.only("GlobalFarm")


NEXT = lambda n: sl(n) == {strip(mk("st", "FarmSequencer")): 1, None: 1}


def create_yield(ctx, r, q):
    who, gid, mult, curve, pid, assets = (r.argn(n, i) for i, n in enumerate(("who", "global_farm_id", "multiplier", "loyalty_curve", "amm_pool_id", "assets")))
    L = Lm(ctx, r, q, gid)
    g, s = L.g, strip(L.G0)
    for e in L.yw:
        pass
    L.exists(), L.owner(who), L.active(mk("fld", L.G0, "state"), "global farm active")
    L.judge("multiplier", g.le(10**15, mult), "a multiplier below the minimum is accepted", rel=())
    L.judge("initial reward", g.none(strip(curve)) or g.lt(F(PL(strip(curve)), "initial_reward_percentage"), 10**18), "a loyalty curve that starts at the full reward is accepted", rel=())
    L.judge("farm not full", g.lt(F(s, "total_yield_farms_count"), CFG("MaxYieldFarmsPerGlobalFarm")), "more yield farms than allowed can be created", rel=())
    L.judge("incentivised asset", any(p and n.op in ("m", "any", "in", "contains") and has(n, lambda z: z is assets) and has(n, lambda z: match(z, F(s, "incentivized_asset"))) for n, p in q.facts),
            "a yield farm for a pool without the incentivised asset is accepted", rel=(assets,))
    L.judge("one active farm", g.none(ST("ActiveYieldFarm", pid, gid)), "two active yield farms for one pool are accepted", rel=())
    if not L.sync_global():
        return
    one_ = {None: 1}
    L.global_after(live_yield_farms_count=("+", one_), total_yield_farms_count=("+", one_))
    wrote(ctx, r, q, g, "FarmSequencer", (), NEXT, "farm id", "the farm id is not the next one")
    wrote(ctx, r, q, g, "ActiveYieldFarm", (pid, gid), NEXT, "active farm", "the new farm is not the active one of the pool")
    mine = [e for e in q.writes("YieldFarm")]
    if not L.judge("farm stored", len(mine) == 1 and len(mine[0].args) == 4 and mine[0].args[0] is pid and mine[0].args[1] is gid and NEXT(mine[0].args[2]), "the yield farm is not stored under the pool, the global farm and the next id"):
        return
    v = mine[0].args[3]
    want = dict(id=NEXT, updated_at=L.is_now, loyalty_curve=lambda n: n is curve or match(n, ("variant:Some", PL(curve))) or NUL(n) and g.none(strip(curve)) or n.op == "variant:None" and g.none(strip(curve)),
                multiplier=mult, accumulated_rpz=lambda n: L.equal(n, L.rpz), state=VAR("Active"), accumulated_rpvs=NUL, total_shares=NUL,
                total_valued_shares=NUL, entries_count=NUL, left_to_distribute=NUL, total_stopped=NUL)
    for k, w in want.items():
        x = fld(v, k)
        L.judge("new yield farm: " + k, match(x, w), lambda: f"{k} of a new yield farm is {show(strip(x))[:200]}" + ("; rewards accumulated before it existed do not belong to it" if k == "accumulated_rpz" else ""),
                eff=mine[0])
    L.moves(), L.only("GlobalFarm", "YieldFarm", "ActiveYieldFarm", "FarmSequencer")


def update_multiplier(ctx, r, q):
    who, gid, pid, mult = (r.argn(n, i) for i, n in enumerate(("who", "global_farm_id", "amm_pool_id", "multiplier")))
    yid = mk("payload", mk("st", "ActiveYieldFarm", pid, gid))
    L = Lm(ctx, r, q, gid, (pid, gid, yid))
    g, s = L.g, strip(L.Y0)
    L.exists(), L.owner(who)
    L.active(mk("fld", L.Y0, "state"), "yield farm active")
    L.judge("multiplier", g.le(10**15, mult), "a multiplier below the minimum is accepted", rel=())
    if not L.sync_global() or not L.sync_yield():
        return
    old, new = L.share(F(s, "total_valued_shares"), F(s, "multiplier")), L.share(F(s, "total_valued_shares"), mult)
    if old is None or new is None:
        L.judge("stake", False, "the stake of the farm in the global farm is not recomputed for the new multiplier")
        return
    L.global_after(total_shares_z=("+", lsub(new, old)))
    L.yield_after(multiplier=mult)
    L.moves(), L.only("GlobalFarm", "YieldFarm")


def stop(ctx, r, q):
    who, gid, pid = (r.argn(n, i) for i, n in enumerate(("who", "global_farm_id", "amm_pool_id")))
    yid = mk("payload", mk("st", "ActiveYieldFarm", pid, gid))
    L = Lm(ctx, r, q, gid, (pid, gid, yid))
    g, s = L.g, strip(L.Y0)
    L.exists(), L.owner(who)
    L.active(mk("fld", L.Y0, "state"), "yield farm active")
    if not L.sync_global() or not L.sync_yield():
        return
    old = L.share(F(s, "total_valued_shares"), F(s, "multiplier"))
    if old is None:
        L.judge("stake", False, "the stake of the stopped farm is not taken out of the global farm")
        return
    L.global_after(total_shares_z=("+", {k: -c for k, c in old.items()}))
    L.yield_after(state=VAR("Stopped"), multiplier=NUL)
    wrote(ctx, r, q, g, "ActiveYieldFarm", (pid, gid), None, "active farm", "the stopped farm stays the active one")
    L.moves(), L.only("GlobalFarm", "YieldFarm", "ActiveYieldFarm")


def resume(ctx, r, q):
    who, gid, yid, pid, mult = (r.argn(n, i) for i, n in enumerate(("who", "global_farm_id", "yield_farm_id", "amm_pool_id", "multiplier")))
    L = Lm(ctx, r, q, gid, (pid, gid, yid))
    g, s = L.g, strip(L.Y0)
    L.exists(), L.owner(who)
    L.active(mk("fld", L.Y0, "state"), "yield farm stopped", "Stopped")
    L.judge("multiplier", g.le(10**15, mult), "a multiplier below the minimum is accepted", rel=())
    L.judge("one active farm", g.none(ST("ActiveYieldFarm", pid, gid)), "two active yield farms for one pool are accepted", rel=())
    if not L.sync_global():
        return
    L.sync_yield()
    new = L.share(F(s, "total_valued_shares"), mult)
    if new is None:
        L.judge("stake", False, "the stake of the resumed farm is not added to the global farm")
        return
    L.global_after(total_shares_z=("+", new))
    L.yield_after(state=VAR("Active"), multiplier=mult, accumulated_rpz=L.rpz, updated_at=L.is_now,
                  total_stopped=("+", lsub(sl(L.now), sl(mk("fld", L.Y0, "updated_at"))) if L.now is not None else {}))
    wrote(ctx, r, q, g, "ActiveYieldFarm", (pid, gid), lambda n: match(n, F(s, "id")) or n is yid, "active farm", "the resumed farm is not the active one")
    L.moves(), L.only("GlobalFarm", "YieldFarm", "ActiveYieldFarm")


def nosync(L):
    L.R, L.G_updated, L.rpz, L.PA = None, None, mk("fld", L.G0, "accumulated_rpz"), [mk("fld", L.G0, "price_adjustment")]
    L.r_, L.rpvs, L.Y_rpz, L.Y_updated = None, mk("fld", L.Y0, "accumulated_rpvs"), mk("fld", L.Y0, "accumulated_rpz"), mk("fld", L.Y0, "updated_at")


def removal(L, entries, tot, label="yield farm"):
    """the yield farm goes exactly when it is terminated and without entries; returns the change of the total count"""
    if L.Y1.op == "removed":
        L.judge("farm removed", L.eql(entries, {}), "a yield farm that still has deposits is removed", rel=())
        return {None: -1}
    return {}


def terminate_yield(ctx, r, q):
    who, gid, yid, pid = (r.argn(n, i) for i, n in enumerate(("who", "global_farm_id", "yield_farm_id", "amm_pool_id")))
    L = Lm(ctx, r, q, gid, (pid, gid, yid))
    g, s = L.g, strip(L.Y0)
    L.exists(), L.owner(who)
    L.active(mk("fld", L.Y0, "state"), "yield farm stopped", "Stopped")
    nosync(L)
    left = sl(mk("fld", L.Y0, "left_to_distribute"))
    L.move("unpaid rewards", POT, L.farm(), left)
    ent = sl(mk("fld", L.Y0, "entries_count"))
    d = removal(L, ent, None)
    if not d:
        L.judge("farm kept", not g.eq(0, F(s, "entries_count")), "a terminated yield farm without deposits is kept", rel=())
    L.global_after(accumulated_paid_rewards=("+", {k: -c for k, c in left.items()}), live_yield_farms_count=("+", {None: -1}), total_yield_farms_count=("+", d))
    L.yield_after(state=VAR("Terminated"), left_to_distribute={})
    L.moves(), L.only("GlobalFarm", "YieldFarm")


def position(D, yid):
    ent = F(strip(D), "yield_farm_entries")
    return ("position", ent, lambda n: n.op == "eq" and any(strip(a) is strip(yid) for a in n.args) and any(a.op == "fld" and str(a.args[1]) == "yield_farm_id" and match(a.args[0], ("idx", ent, "_")) for a in n.args))


def entry(L, q, D, yid, taken=False):
    """the entry of the yield farm among those of the deposit: the key of the global farm that is written comes from it"""
    ent = F(strip(D), "yield_farm_entries")
    pos = position(D, yid)
    pats = [("idx", ent, pos), PL(("idx", ent, pos))]
    if taken:
        pats += [("ret", "swap_remove", ent, pos), ("ret", "remove", ent, pos)]
    for n in pool(q, lambda n: n.op == "st" and n.args[0] == "GlobalFarm"):
        k = n.args[1]
        if k.op == "fld" and str(k.args[1]) == "global_farm_id":
            if match(k.args[0], pats):
                return k.args[0]
            L.judge("entry", False if not has(k.args[0], lambda z: match(z, ("position", "_", "_"))) and not any(z in show(k) for z in ("find", "iter", "search")) else None,
                    lambda: f"the farm is looked up by {show(k)[:160]}, not by the deposit's entry for the yield farm")
            return None
        L.judge("entry", None, f"the farm is looked up by {show(k)[:160]}")
        return None
    L.judge("entry", None, "no farm is written")
    return None


def deposited(ctx, r, q, L, shares, pid, gid, yid, oldents, v):
    g, s, S = L.g, strip(L.Y0), strip(L.G0)
    L.exists()
    L.judge("yield farm exists", g.some(strip(L.Y0.args[0])), "the yield farm need not exist")
    L.active(mk("fld", L.Y0, "state"), "yield farm active")
    L.active(mk("fld", L.G0, "state"), "global farm active")
    L.judge("minimum deposit", g.le(F(S, "min_deposit"), strip(shares)), "shares below the minimum deposit are accepted")
    if not L.sync_global() or not L.sync_yield():
        return
    val = pool(q, lambda n: n.op == "payload" and n.args[0].op == "apply")
    ap = val
    val = [n for n in val if match(n.args[0], ("apply", "_", F(S, "incentivized_asset"), strip(pid), strip(shares)))]
    if not val:
        L.judge("valued shares", False if ap else None, "the deposit is not valued as the deposited shares of the pool in the incentivised asset")
        return
    val = val[0]
    L.judge("minimum value", g.le(F(S, "min_deposit"), strip(val)), "shares worth less than the minimum deposit are accepted")
    st = L.share(strip(val), F(s, "multiplier"))
    if st is None:
        L.judge("stake", False, "the stake of the deposit is not computed from its value and the multiplier of the yield farm")
        return
    L.global_after(total_shares_z=("+", st))
    L.yield_after(total_shares=("+", sl(shares)), total_valued_shares=("+", sl(val)), entries_count=("+", {None: 1}))
    if v.op == "removed":
        L.judge("entry", False, "the deposit is removed")
        return
    ents = fld(v, "yield_farm_entries")
    e = None
    if ents.op == "mut" and ents.args[0] in ("try_push", "push", "force_push", "try_insert", "insert"):
        e = ents.args[-1]
        L.judge("other entries", match(ents.args[1], oldents), "the other entries of the deposit change")
    if e is None:
        L.judge("entry", None if any(x.op in ("m", "call", "ret") for x in find(ents, lambda z: True)) else False, lambda: f"the entries become {show(ents)[:200]}")
        return
    want = dict(global_farm_id=[F(S, "id"), strip(gid)], yield_farm_id=[F(s, "id"), strip(yid)], valued_shares=strip(val), accumulated_rpvs=lambda n: L.eql(sl(n), L.rpvs),
                entered_at=L.is_now, updated_at=L.is_now, stopped_at_creation=F(s, "total_stopped"), accumulated_claimed_rewards=NUL)
    for k, w in want.items():
        x = fld(e, k)
        L.judge("entry: " + k, match(x, w), lambda: f"{k} of the new entry is {show(strip(x))[:240]}")
    L.moves()


def deposit(ctx, r, q):
    gid, yid, pid, shares = (r.argn(n, i) for i, n in enumerate(("global_farm_id", "yield_farm_id", "amm_pool_id", "shares_amount")))
    L = Lm(ctx, r, q, gid, (pid, gid, yid))
    nid = lambda n: sl(n) == {strip(mk("st", "DepositSequencer")): 1, None: 1}
    wrote(ctx, r, q, L.g, "DepositSequencer", (), nid, "deposit id", "the deposit id is not the next one")
    ws = q.writes("Deposit")
    if not L.judge("deposit stored", len(ws) == 1 and nid(ws[0].args[0]), "the deposit is not stored under the next id"):
        return
    v = ws[0].args[1]
    L.judge("deposit: shares", strip(fld(v, "shares")) is strip(shares), "the deposit records other shares than were deposited")
    L.judge("deposit: pool", strip(fld(v, "amm_pool_id")) is strip(pid), "the deposit records another pool")
    deposited(ctx, r, q, L, shares, pid, gid, yid, lambda n: n.op in ("empty", "default") or n.op == "call" and str(n.args[0]).endswith(("default", "new")), v)
    L.only("GlobalFarm", "YieldFarm", "Deposit", "DepositSequencer")
    L.judge("id returned", nid(payload_ok(q)), "the id returned is not the deposit's")


def payload_ok(q):
    n = tonode_(q.val)
    return n.args[0] if n.op.startswith("variant:Ok") and n.args else n


def redeposit(ctx, r, q):
    gid, yid, did = (r.argn(n, i) for i, n in enumerate(("global_farm_id", "yield_farm_id", "deposit_id")))
    D = mk("payload", mk("st", "Deposit", did))
    shares, pid = mk("fld", D, "shares"), mk("fld", D, "amm_pool_id")
    L = Lm(ctx, r, q, gid, (pid, gid, yid))
    L.judge("no double lock", L.none_pos(D, yid) if hasattr(L, "none_pos") else L.g.none(position(D, yid)), "the same shares can be locked twice in one yield farm", rel=())
    ws = [e for e in q.writes("Deposit") if strip(e.args[0]) is strip(did)]
    for e in q.writes("Deposit"):
        if e not in ws:
            L.judge("other deposits", False, "another deposit is changed", eff=e)
    if not ws:
        L.judge("deposit stored", False, "the new entry is not stored")
        return
    v = ws[-1].args[1]
    if v.op != "removed":
        L.judge("deposit: shares", match(fld(v, "shares"), F(strip(D), "shares")), "the shares of the deposit change")
        L.judge("deposit: pool", match(fld(v, "amm_pool_id"), F(strip(D), "amm_pool_id")), "the pool of the deposit changes")
    deposited(ctx, r, q, L, shares, pid, gid, yid, F(strip(D), "yield_farm_entries"), v)
    L.only("GlobalFarm", "YieldFarm", "Deposit")
    x = payload_ok(q)
    L.judge("result", match(x, ("tuple", F(strip(D), "shares"), F(strip(D), "amm_pool_id"))), lambda: f"the result is {show(x)[:200]}, not the shares and pool of the deposit")


def claim(ctx, r, q):
    who, did, yid, dbl = (r.argn(n, i) for i, n in enumerate(("who", "deposit_id", "yield_farm_id", "fail_on_doubleclaim")))
    D = mk("payload", mk("st", "Deposit", did))
    L0 = Lm(ctx, r, q)
    E = entry(L0, q, D, yid)
    if E is None:
        return
    gid = mk("fld", E, "global_farm_id")
    L = Lm(ctx, r, q, gid, (mk("fld", D, "amm_pool_id"), gid, yid))
    g, s, S, e = L.g, strip(L.Y0), strip(L.G0), strip(E)
    t = state(q, mk("fld", L.Y0, "state"), "Terminated")
    L.judge("not terminated", bool(t is False or state(q, mk("fld", L.Y0, "state"), "Active") or state(q, mk("fld", L.Y0, "state"), "Stopped")), "rewards of a terminated farm can be claimed", rel=())
    L.judge("no double claim", g.n(strip(dbl)) or g.ne(F(e, "updated_at"), L.NOW), "rewards can be claimed twice in one period although that is to be refused", rel=())
    if not L.sync_global() or not L.sync_yield():
        return
    # rewards
    Yr, Yu = L.rpvs, L.Y_updated
    want_p = lsub(lsub(lsub(sl(Yu) if Yu is not None else {}, sl(mk("fld", E, "entered_at"))), sl(mk("fld", L.Y0, "total_stopped"))), {k: -c for k, c in sl(mk("fld", E, "stopped_at_creation")).items()})
    curve = F(s, "loyalty_curve")

    def loyal(n):
        if g.none(curve):
            return n.op == "const" and n.args[0] == 10**18 or "1e18" in show(n)
        return match(n, PL(C("calculate_loyalty_multiplier", lambda p: L.eql(sl(p), want_p), F(PL(curve), "initial_reward_percentage"), F(PL(curve), "scale_coef"))))
    cs = calls(q, "calculate_user_reward")
    if len(cs) != 1:
        L.judge("reward", False if not cs else None, "the reward is not computed")
        return
    c = cs[0]
    parts = [("accumulated rewards at entry", F(e, "accumulated_rpvs")), ("valued shares", F(e, "valued_shares")), ("rewards already claimed", F(e, "accumulated_claimed_rewards")),
             ("accumulated rewards now", lambda n: L.eql(sl(n), Yr if isinstance(Yr, dict) else sl(Yr))), ("loyalty multiplier", loyal)]
    for (l, p), x in zip(parts, [a for a in c.args[1:] if not (isinstance(a, Node) and a.op == "at")]):
        L.judge("reward: " + l, match(x, p), lambda: f"the reward uses {show(strip(x))[:260]} as {l}")
    if not g.none(curve):
        lm = next((a for a in pool(q, lambda n: n.op == "payload" and n.args[0].op == "call" and str(n.args[0].args[0]).endswith("calculate_loyalty_multiplier"))), None)
        L.judge("loyalty at most one", lm is not None and g.le(lm, 10**18), "a loyalty multiplier above one is accepted", rel=())
    p = mk("payload", c)
    rew, uncl = mk("fld", p, "0"), mk("fld", p, "1")
    zero = g.eq(0, strip(rew))
    # who is paid: the caller, unless reward and balance are both below the existential deposit
    ed = lambda n: has(n, lambda z: match(z, X("AssetRegistry.existential_deposit", F(S, "reward_currency"))))
    small = any(pl and n.op == "lt" and strip(n.args[0]) is strip(rew) and ed(n.args[1]) for n, pl in q.facts)
    poor = any(pl and n.op == "lt" and match(n.args[0], X("MultiCurrency.free_balance", F(S, "reward_currency"), who)) and ed(n.args[1]) for n, pl in q.facts)
    tre = small and poor
    fl = [f for f in q.flows() if f.amount is not None and f.src is not None and match(f.src, POT)]
    for f in fl:
        if match(f.dst, CFG("TreasuryAccountId")):
            L.judge("treasury", tre, "rewards go to the treasury although the user could receive them", eff=f.eff)
    L.move("reward paid", POT, CFG("TreasuryAccountId") if tre else (lambda n: n is who), {} if zero else sl(rew))
    L.global_after()
    neg = {} if zero else {k: -c_ for k, c_ in sl(rew).items()}
    L.yield_after(left_to_distribute=("+", neg))
    ws = [x for x in q.writes("Deposit") if strip(x.args[0]) is strip(did)]
    for x in q.writes("Deposit"):
        if x not in ws:
            L.judge("other deposits", False, "another deposit is changed", eff=x)
    if not zero:
        v = ws[-1].args[1] if ws else None
        ents = fld(v, "yield_farm_entries") if v is not None and v.op != "removed" else None
        ne = None
        if ents is not None and ents.op == "upd" and match(ents.args[0], F(strip(D), "yield_farm_entries")) and match(ents.args[1], position(D, yid)):
            ne = ents.args[2]
        if ne is None:
            bad = v is None or v.op == "removed" or ents is not None and match(ents, F(strip(D), "yield_farm_entries"))
            L.judge("entry updated", False if bad else None, "the claimed rewards are not recorded in the entry")
        else:
            keep = {k: F(e, k) for k in ("global_farm_id", "yield_farm_id", "valued_shares", "accumulated_rpvs", "entered_at", "stopped_at_creation")}
            keep["updated_at"] = L.is_now
            keep["accumulated_claimed_rewards"] = lambda n: L.eql(sl(n), ladd(sl(mk("fld", E, "accumulated_claimed_rewards")), sl(rew)))
            for k, w in keep.items():
                x = fld(ne, k)
                L.judge("entry: " + k, match(x, w), lambda: f"{k} of the entry becomes {show(strip(x))[:240]}")
            for k in ("shares", "amm_pool_id"):
                L.judge("deposit: " + k, match(fld(v, k), F(strip(D), k)), f"{k} of the deposit changes")
    L.moves(), L.only("GlobalFarm", "YieldFarm", "Deposit")
    x = payload_ok(q)
    sent = (lambda n: NUL(n)) if tre else (lambda n: L.equal(n, rew))
    ok = match(x, ("tuple", [F(S, "id"), strip(gid)], F(S, "reward_currency"), sent, lambda n: L.equal(n, uncl)))
    L.judge("result", ok, lambda: f"the result is {show(x)[:300]}, not farm, currency, reward received and unclaimable reward")


def withdraw(ctx, r, q):
    did, yid, uncl = (r.argn(n, i) for i, n in enumerate(("deposit_id", "yield_farm_id", "unclaimable_rewards")))
    D = mk("payload", mk("st", "Deposit", did))
    L0 = Lm(ctx, r, q)
    E = entry(L0, q, D, yid, taken=True)
    if E is None:
        return
    gid = mk("fld", E, "global_farm_id")
    L = Lm(ctx, r, q, gid, (mk("fld", D, "amm_pool_id"), gid, yid))
    nosync(L)
    g, s, S, e = L.g, strip(L.Y0), strip(L.G0), strip(E)
    Yst = mk("fld", L.Y0, "state")
    act = state(q, Yst, "Active")
    zero = g.eq(0, strip(uncl))
    neg = {} if zero else {k: -c for k, c in sl(uncl).items()}
    L.judge("nothing unclaimable of a terminated farm", bool(zero or state(q, Yst, "Terminated") is False or state(q, Yst, "Active")), "rewards are taken back from a terminated farm, which has none left", rel=())
    L.move("unclaimable rewards", POT, L.farm(), {} if zero else sl(uncl))
    stake = {}
    if act is not False:
        st = L.share(F(e, "valued_shares"), F(s, "multiplier"))
        if st is None or act is None:
            L.judge("stake", False, "the stake of a withdrawn deposit of an active farm is not taken out of the global farm")
            return
        stake = {k: -c for k, c in st.items()}
    ent = lsub(sl(mk("fld", L.Y0, "entries_count")), {None: 1})
    d = removal(L, ent, None)
    if d:
        L.judge("farm removed", bool(state(q, Yst, "Terminated")), "a yield farm that is not terminated is removed", rel=())
    else:
        L.judge("farm kept", not (state(q, Yst, "Terminated") and L.eql(ent, {})), "a terminated yield farm without deposits is kept", rel=())
    if L.G1.op == "removed":
        L.judge("global farm removed", bool(state(q, mk("fld", L.G0, "state"), "Terminated")), "a global farm that is not terminated is removed", rel=())
        L.judge("global farm removed", L.eql(ladd(sl(mk("fld", L.G0, "total_yield_farms_count")), d), {}), "a global farm that still has yield farms is removed", rel=())
    L.global_after(total_shares_z=("+", stake), accumulated_paid_rewards=("+", neg), total_yield_farms_count=("+", d))
    L.yield_after(total_shares=("+", {k: -c for k, c in sl(mk("fld", D, "shares")).items()}), total_valued_shares=("+", {k: -c for k, c in sl(mk("fld", E, "valued_shares")).items()}),
                  left_to_distribute=("+", neg), entries_count=("+", {None: -1}))
    ws = [x for x in q.writes("Deposit") if strip(x.args[0]) is strip(did)]
    for x in q.writes("Deposit"):
        if x not in ws:
            L.judge("other deposits", False, "another deposit is changed", eff=x)
    if not ws:
        L.judge("entry removed", False, "the withdrawn entry stays in the deposit")
        return
    v = ws[-1].args[1]
    rest = ("mut", ["swap_remove", "remove"], F(strip(D), "yield_farm_entries"), position(D, yid))
    if v.op == "removed":
        L.judge("deposit removed", any(p and has(n, lambda z: z.op == "mut") and (n.op == "m" and n.args[0] == "is_empty" or n.op == "eq") for n, p in q.facts), "a deposit that is still in other farms is removed", rel=())
    else:
        x = fld(v, "yield_farm_entries")
        L.judge("entry removed", match(x, rest) or (None if not match(x, F(strip(D), "yield_farm_entries")) else False), "the withdrawn entry stays in the deposit")
        for k in ("shares", "amm_pool_id"):
            L.judge("deposit: " + k, match(fld(v, k), F(strip(D), k)), f"{k} of the deposit changes")
    L.moves(), L.only("GlobalFarm", "YieldFarm", "Deposit")
    x = payload_ok(q)
    ok = match(x, ("tuple", [strip(gid), F(S, "id")], F(strip(D), "shares"), isT if v.op == "removed" else isF))
    L.judge("result", ok, lambda: f"the result is {show(x)[:300]}, not the global farm, the shares and whether the deposit is gone")


TABLE = [("create_global_farm", create_global), ("update_global_farm_price_adjustment", update_price), ("terminate_global_farm", terminate_global), ("create_yield_farm", create_yield),
         ("update_yield_farm_multiplier", update_multiplier), ("stop_yield_farm", stop), ("resume_yield_farm", resume), ("terminate_yield_farm", terminate_yield),
         ("deposit_lp_shares", deposit), ("redeposit_lp_shares", redeposit), ("claim_rewards", claim), ("withdraw_lp_shares", withdraw)]


def farms(pid, tier):
    ctx = Ctx(pid, tier, known=())
    for f, b in TABLE:
        each(ctx, f, b)
    return ctx.done(RULE, ["the callers of the pallet check the owner of the deposit's NFT and claim before withdrawing (their own properties)",
                           "a formula of the math crate is taken as the function it is; its own properties are decided separately"])
