"""Referrals: codes, links, shares issued for trading fees, and rewards claimed for shares."""
from rules.p_lmcalls import acts
from rules.p_small import *

RULE = ("Every success path of the referrals dispatchables, of the fee processing and of the idle hook is compared with the specified transfers and storage updates; share and reward amounts "
        "are compared as linear forms over floored products, the conversion loop by its iterations, and the referral levels by the thresholds known to be reached.")
PN = "referrals"
POT = [("m", "into_account_truncating", CFG("PalletId")), PL(("m", "try_into_account", CFG("PalletId")))]
REWARD = CFG("RewardAsset")
MILLION = 1_000_000


def slin(n):
    """linear form, saturating sums taken as sums"""
    out = {}

    def go(x, k):
        if x.op == "sat":
            go(x.args[0], k)
        elif x.op == "add":
            for a in x.args:
                go(a, k)
        elif x.op == "const" and isinstance(x.args[0], int):
            out[None] = out.get(None, 0) + k * x.args[0]
        elif x.op == "satsub" or x.op == "sub" and len(x.args) == 2:
            go(x.args[0], k)
            go(x.args[1], -k)
        else:
            out[x] = out.get(x, 0) + k
    go(n, 1)
    return {a: c for a, c in out.items() if c}


def sums(n, *spec):
    return isinstance(n, Node) and matchlin(slin(n), list(spec))


def floorof(amount, part):
    """floor(amount * part / 1e6)"""
    return lambda n: match(n, [("div", ("mul", amount, part), MILLION), ("div", ("mul", part, amount), MILLION), ("m", "mul_floor", part, amount)])


def scaled(x, price):
    """floor(x * n / d)"""
    N_, D_ = F(price, "n"), F(price, "d")
    return lambda n: n.op == "div" and match(n, [("div", ("mul", x, N_), D_), ("div", ("mul", N_, x), D_)])


def optional(g, x):
    return True if g.some(x) else False if g.none(x) else None


@guarded
def fee(ctx):
    r = ctx.fn(PN, "process_trade_fee")
    if r is None:
        return
    src, trader, asset, amount = (r.arg(k) for k in range(4))
    for q in r.paths:
        feepath(ctx, r, q, src, trader, asset, amount)


@guarded
def feepath(ctx, r, q, src, trader, asset, amount):
    g = G(r, q)
    val = tonode_(q.val)
    val = val.args[0] if val.op == "variant:Ok" else val
    P_ = X("get_price", REWARD, asset)
    price = PL(P_)
    link = ST("LinkedAccounts", trader)
    acc = PL(link)
    linked = optional(g, link)
    known = optional(g, ST("Referrer", acc)) if linked else None
    if optional(g, P_) is False or linked and known is False:
        acts(ctx, r, q, [])
        ctx.judge(r, q, "nothing taken", num(val) == 0, lambda: f"{show(val)[:100]} is reported although nothing can be taken", relevant=VALUE)
        return
    if optional(g, P_) is None or linked is None or linked and known is None:
        ctx.judge(r, q, "price and referrer known", False if q.ext("Currency.transfer") else None, "a part of the fee is taken without asking for the price, the trader's link or the referrer's level", relevant=VALUE)
        return
    level = F(PL(ST("Referrer", acc)), "0") if linked else ("variant:None",)
    own = ST("AssetRewards", asset, level)
    hasown = optional(g, own)
    if hasown is None:
        ctx.judge(r, q, "percentages known", False if q.ext("Currency.transfer") else None, "a part of the fee is taken without asking for the percentages of the asset and level", relevant=VALUE)
        return
    rates = PL(own) if hasown else F(X("LevelVolumeAndRewardPercentages.get", level), "1")
    ea = CFG("ExternalAccount")
    ext = optional(g, ea)
    if ext is None:
        ctx.judge(r, q, "external account known", None, "external account is not decided on the path")
        return
    parts = ([("referrer", acc, "ReferrerShares")] if linked else []) + [("trader", trader, "TraderShares")] + ([("external", PL(ea), "TraderShares")] if ext else [])
    part = {k: floorof(amount, F(rates, k)) for k, w, s in parts}
    tr = q.ext("Currency.transfer")
    taken = [(1, part[k]) for k, w, s in parts]
    ok = len(tr) == 1 and match(tr[0].args[0], asset) and tr[0].args[1] is src and match(tr[0].args[2], POT)
    ctx.judge(r, q, "moved to the pot", ok, "the part of the fee is not moved from the source to the pot", relevant=VALUE)
    if tr:
        ctx.judge(r, q, "part of the fee", sums(tr[0].args[3], *taken), lambda: f"{fmt(slin(tr[0].args[3]))} of the fee is taken", relevant=VALUE, eff=tr[0])
        ctx.judge(r, q, "transfer required", q.certain(tr[0]), "shares are issued although the transfer may fail", relevant=VALUE, eff=tr[0])
        ctx.judge(r, q, "not more than the fee", q.le(tr[0].args[3], amount), "more than the fee can be taken", relevant=VALUE, eff=tr[0])
    ctx.judge(r, q, "reported", sums(val, *taken), lambda: f"{fmt(slin(val))} is reported as taken", relevant=VALUE)
    share = {k: scaled(part[k], price) for k, w, s in parts}
    ws = [e for e in q.acts() if e.kind in ("write", "set")]
    tot = [e for e in ws if e.name == "TotalShares"]
    ctx.judge(r, q, "total shares", len(tot) == 1 and sums(tot[0].args[-1], (1, ST("TotalShares")), *[(1, share[k]) for k, w, s in parts]),
              lambda: f"total shares become {fmt(slin(tot[-1].args[-1])) if tot else 'unchanged'}", relevant=VALUE)
    rest = [e for e in ws if e.name not in ("TotalShares", "PendingConversions")]
    for k, w, s in parts:
        m = [e for e in rest if e.name == s and match(e.args[0], w)]
        if not m:
            zero = any(p and n.op == "eq" and any(num(x) == 0 for x in n.args) and any(share[k](x) for x in n.args) for n, p in q.facts)
            ctx.judge(r, q, f"shares of the {k}", zero, f"the {k} gets no shares", relevant=VALUE)
            continue
        rest.remove(m[0])
        ctx.judge(r, q, f"shares of the {k}", sums(m[0].args[-1], (1, ST(s, w)), (1, share[k])), lambda: f"shares of the {k} become {fmt(slin(m[0].args[-1]))}", relevant=VALUE, eff=m[0])
    for e in rest:
        ctx.judge(r, q, "nobody else", False, lambda: f"unexpected {e!r}", relevant=VALUE, eff=e)
    pend = [e for e in ws if e.name == "PendingConversions"]
    if g.eq(asset, REWARD):
        ctx.judge(r, q, "conversion", not pend, "the reward asset is to be converted into itself", relevant=VALUE)
    else:
        ctx.judge(r, q, "conversion", len(pend) == 1 and pend[0].args[0] is asset and pend[0].args[-1].op != "removed", "fees taken in another asset are not put on the list for conversion", relevant=VALUE)


@guarded
def codes(ctx):
    r = ctx.fn(PN, "register_code")
    for q in (r.paths if r is not None else []):
        registered(ctx, r, q)
    r = ctx.fn(PN, "link_code")
    for q in (r.paths if r is not None else []):
        linkpath(ctx, r, q)


def normal(code):
    """the upper-cased code"""
    up = ("lam", 1, [("m", "to_ascii_uppercase", ("lamarg", 0, 0)), C("to_ascii_uppercase", ("lamarg", 0, 0)), C("char::to_ascii_uppercase", ("lamarg", 0, 0))])
    return lambda n: bool(find(n, lambda x: match(x, ("m", "map", code, up)))) and not find(n, lambda x: x.op == "m" and x.args[0] not in ("map", "to_ascii_uppercase", "collect"))


@guarded
def registered(ctx, r, q):
    g = G(r, q)
    who, code = g.who, r.arg(0)
    ctx.judge(r, q, "signed", who is not None, "a code is registered without a signature")
    if who is None:
        return
    up = normal(code)
    ctx.judge(r, q, "one code per account", g.none(ST("ReferralAccounts", who)), "an account can register another code", relevant=(who,))
    ctx.judge(r, q, "length", g.le(CFG("MinCodeLength"), ("len", code)), "a code can be shorter than the minimum", relevant=VALUE)
    al = ("lam", 1, C("is_alphanumeric", ("lamarg", 0, 0)))
    each = g.y(("m", "all", code, al)) or g.y(lambda n: n.op == "m" and n.args[0] == "all" and bool(find(n, lambda x: x.op in ("call", "m") and "alphanumeric" in str(x.args[0]))))
    ctx.judge(r, q, "alphanumeric", each, "a code can hold other characters", relevant=(code,))
    ws = [e for e in q.writes("ReferralCodes")]
    if len(ws) == 1 and not up(ws[0].args[0]) and not find(ws[0].args[0], lambda x: x.op in ("m", "call", "apply", "loopout")):
        ctx.judge(r, q, "upper-cased", False, "a code is recorded as given, so it can be registered again in other case", relevant=VALUE, eff=ws[0])
        return
    low = [x for x in find(ws[0].args[0], lambda x: x.op == "lam") if x.args[1].op == "lamarg" or x.args[1].op in ("m", "call") and "to_ascii_lowercase" in str(x.args[1].args[0])] if len(ws) == 1 else []
    if low and not up(ws[0].args[0]):
        ctx.judge(r, q, "upper-cased", False, lambda: f"a code is recorded as {show(ws[0].args[0])[:150]}", relevant=VALUE, eff=ws[0])
        return
    if len(ws) == 1 and not up(ws[0].args[0]):
        ctx.judge(r, q, "upper-cased", None, "the form of the recorded code is not understood")
        return
    ctx.judge(r, q, "code free", g.none(ST("ReferralCodes", up)), "a taken code is registered again", relevant=VALUE)
    rf = CFG("RegistrationFee")
    acts(ctx, r, q, [("fee paid", "ext", "Currency.transfer", (F(rf, "0"), who, F(rf, "2"), F(rf, "1"), ("variant:Preserve",))),
                     ("referrer starts", "write", "Referrer", (who, ("tuple", ("variant:Tier0",), 0))),
                     ("code of the account", "write", "ReferralAccounts", (who, up)), ("account of the code", "write", "ReferralCodes", (up, who))])
    for e in q.ext("Currency.transfer"):
        ctx.judge(r, q, "fee required", q.certain(e), "a code is registered although the fee may not be paid", relevant=VALUE, eff=e)


@guarded
def linkpath(ctx, r, q):
    g = G(r, q)
    who, code = g.who, r.arg(0)
    ctx.judge(r, q, "signed", who is not None, "an account is linked without a signature")
    if who is None:
        return
    ws = q.writes("LinkedAccounts")
    up = normal(code)
    if ws and not find(ws[0].args[-1], lambda n: up(n) and n.op != "payload" and n.op != "st"):
        if find(ws[0].args[-1], lambda x: x.op in ("call", "apply", "loopout")):
            ctx.judge(r, q, "linked to the code's account", None, "the form of the code is not understood")
            return
    acct = PL(ST("ReferralCodes", up))
    ctx.judge(r, q, "not linked before", g.none(ST("LinkedAccounts", who)), "an account can change its referrer", relevant=VALUE)
    ctx.judge(r, q, "not to itself", g.ne(who, acct), "an account can refer itself", relevant=VALUE)
    acts(ctx, r, q, [("linked to the code's account", "write", "LinkedAccounts", (who, acct))])


def conv(asset):
    return X("Convert.convert", POT, asset, REWARD, X("balance", asset, POT))


@guarded
def conversion(ctx):
    r = ctx.fn(PN, "convert")
    for q in (r.paths if r is not None else []):
        g = G(r, q)
        asset = r.arg(0)
        ctx.judge(r, q, "signed", g.who is not None, "rewards are converted without a signature")
        ctx.judge(r, q, "something to convert", g.lt(0, X("balance", asset, POT)), "nothing is converted", relevant=VALUE)
        acts(ctx, r, q, [("whole balance of the pot", "ext", "Convert.convert", (POT, asset, REWARD, X("balance", asset, POT))),
                         ("off the list", "write", "PendingConversions", (asset, lambda n: n.op == "removed"))])
        for e in q.ext("Convert.convert"):
            ctx.judge(r, q, "conversion required", q.certain(e), "a failed conversion is dropped from the list", relevant=VALUE, eff=e)


@guarded
def rounds(ctx, r, q, claim):
    """the conversion loop: every asset of the list is converted whole and taken off the list"""
    for i in r.runs.it.loops_seen if claim else []:
        if i.get("ends") and any(e.name == "PendingConversions" for x in i["ends"] for e in flatten(x.eff) if e.kind in ("write", "set")):
            for x in i["ends"]:
                fx = flatten(x.eff)
                ctx.judge(r, q, "whole list converted", any(e.name == "PendingConversions" and e.kind in ("write", "set") for e in fx), "the claim goes on although an asset of the list stays unconverted", relevant=VALUE)
    effs = [e for e in q.eff if e.loop and (e.kind in ("write", "set") and e.name == "PendingConversions" or e.kind == "ext" and e.name == "Convert.convert")]
    if not effs:
        ctx.judge(r, q, "list converted", None if claim else None, "no conversion loop recognised")
        return
    for e in effs:
        if e.kind == "ext":
            a = e.args[1]
            ctx.judge(r, q, "whole balance of the pot", match(e.args[0], POT) and match(e.args[2], REWARD) and match(e.args[3], X("balance", a, POT)) and has(a, lambda x: x.op == "stiter" and "PendingConversions" in map(str, x.args)),
                      lambda: f"the loop converts {e!r}", relevant=VALUE, eff=e)
        else:
            a = e.args[0]
            ctx.judge(r, q, "off the list", e.args[-1].op == "removed" and has(a, lambda x: x.op == "stiter" and "PendingConversions" in map(str, x.args)), lambda: f"the loop writes {e!r}", relevant=VALUE, eff=e)
            if claim:
                cs = [(n, p) for n, p in e.facts if n.op == "is" and match(n.args[0], conv(a))]
                done = any(p == (n.args[1] == "Ok") for n, p in cs)
                skip = any(p and n.op == "is" and n.args[0].op == "errof" and n.args[1] in ("ConversionMinTradingAmountNotReached", "ConversionZeroAmountReceived") for n, p in e.facts) or any(p and n.op == "eq" and any(has(x, lambda z: z.op.startswith("variant:Conversion")) for x in n.args) for n, p in e.facts)
                ctx.judge(r, q, "failed conversions stop the claim", done or skip, "an asset whose conversion failed for another reason than its small amount is taken off the list and its value is lost to the claim", relevant=VALUE, eff=e)


@guarded
def claiming(ctx):
    r = ctx.fn(PN, "claim_rewards", opaque=("increase",))
    for q in (r.paths if r is not None else []):
        claimpath(ctx, r, q)


def some_of(v):
    while v.op in ("part:Option", "variant:Some") and v.args:
        v = v.args[0]
    return v


def same(v, old, some):
    """writing back what is stored (nothing where nothing is stored)"""
    return match(v, old) or some is False and (v.op in ("removed", "variant:None", "none") or v.op == "part:Option" and match(some_of(v), old))


@guarded
def claimpath(ctx, r, q):
    g = G(r, q)
    who = g.who
    ctx.judge(r, q, "signed", who is not None, "rewards are claimed without a signature")
    if who is None:
        return
    if any(e.loop for e in q.eff):
        rounds(ctx, r, q, True)
    rs, ts = ST("ReferrerShares", who), ST("TraderShares", who)
    for s in ("ReferrerShares", "TraderShares"):
        ws = q.writes(s)
        ctx.judge(r, q, "shares used up", bool(ws) and all(e.args[0] is who for e in ws) and (ws[-1].args[-1].op == "removed" or num(ws[-1].args[-1]) == 0), f"{s} can be claimed again", relevant=VALUE)
    tr = q.ext("Currency.transfer")
    if not tr:
        none = any(p and n.op == "eq" and any(num(x) == 0 for x in n.args) and any(sums(x, (1, rs), (1, ts)) for x in n.args) for n, p in q.facts) or \
            g.eq(rs, 0) and g.eq(ts, 0)
        ctx.judge(r, q, "nothing to claim", none and not q.writes("TotalShares"), "shares are used up without reward", relevant=VALUE)
        return
    bal = X("balance", REWARD, POT)
    reserve = [("satsub", bal, CFG("SeedNativeAmount")), ("sub", bal, CFG("SeedNativeAmount"))]
    iss = ST("TotalShares")

    def worth(s):
        return lambda n: n.op == "div" and match(n, [("div", ("mul", s, reserve), iss), ("div", ("mul", reserve, s), iss)])
    t = tr[0]
    ctx.judge(r, q, "one payment", len(tr) == 1 and match(t.args[0], REWARD) and match(t.args[1], POT) and t.args[2] is who, lambda: f"rewards are paid by {t!r}", relevant=VALUE, eff=t)
    ctx.judge(r, q, "share of the pot", sums(t.args[3], (1, worth(rs)), (1, worth(ts))), lambda: f"the claim pays {show(t.args[3])[:250]}", relevant=VALUE, eff=t)
    ctx.judge(r, q, "payment required", q.certain(t), "shares are used up although the payment may fail", relevant=VALUE, eff=t)
    if len(t.args) > 4 and t.args[4].op == "variant:Expendable":
        last = any(p and n.op == "eq" and any(match(x, iss) for x in n.args) and any(sums(x, (1, rs), (1, ts)) for x in n.args) for n, p in q.facts)
        ctx.judge(r, q, "pot kept alive", last, "the pot can be emptied while others hold shares", relevant=VALUE, eff=t)
    if any(e.loop for e in q.eff):
        le = max(e.ep for e in q.eff if e.loop)
        for n in find(t.args[3], lambda x: match(x, bal)):
            at = [z.args[0] for z in n.args if isinstance(z, Node) and z.op == "at"]
            ctx.judge(r, q, "after the conversions", all(a > le for a in at) if at else True, "rewards are computed before pending fees are converted", relevant=VALUE)
    w = q.writes("TotalShares")
    ctx.judge(r, q, "total shares", len(w) == 1 and sums(w[0].args[-1], (1, iss), (-1, rs), (-1, ts)), lambda: f"total shares become {show(w[-1].args[-1])[:150] if w else 'unchanged'}", relevant=VALUE)
    ref = ST("Referrer", who)
    w = [e for e in q.writes("Referrer") if not same(e.args[-1], ref, optional(g, ref))]
    some = optional(g, ref)
    if some is False:
        ctx.judge(r, q, "no referrer", not w, "an account without code becomes a referrer", relevant=VALUE)
    elif some:
        lvl, had = F(PL(ref), "0"), F(PL(ref), "1")
        if not w:
            ctx.judge(r, q, "referrer's total", False, "the referrer's rewards are not counted", relevant=VALUE)
            return
        v = some_of(w[-1].args[-1])
        ok = w[-1].args[0] is who and v.op == "tuple" and len(v.args) == 2 and sums(v.args[1], (1, had), (1, worth(rs)))
        ctx.judge(r, q, "referrer's total", ok, lambda: f"the referrer's record becomes {show(v)[:250]}", relevant=VALUE, eff=w[-1])
        if ok:
            inc = C("Level::increase", lvl, lambda n: sums(n, (1, had), (1, worth(rs))))
            lv = match(v.args[0], inc) or match(v.args[0], lvl) and g.eq(lvl, inc)
            ctx.judge(r, q, "referrer's level", lv, lambda: f"the referrer's level becomes {show(v.args[0])[:150]}", relevant=VALUE, eff=w[-1])
    for e in q.writes():
        ctx.judge(r, q, "nothing else", e.name in ("ReferrerShares", "TraderShares", "TotalShares", "Referrer", "PendingConversions"), lambda: f"unexpected write of {e.name}", relevant=VALUE, eff=e)


TIERS = ["Tier0", "Tier1", "Tier2", "Tier3", "Tier4"]


@guarded
def levels(ctx):
    r, qs = fnpaths(ctx, PN, "increase")
    for q in qs:
        level(ctx, r, q)


@guarded
def level(ctx, r, q):
    g = G(r, q)
    me = next((n.args[0] for n, p in q.facts if n.op == "is" and n.args[1] in TIERS + ["None"]), None)
    amount = mk("var", r.fn.params[1][0][1]) if r.fn.params[0][1][0] == "tself" else mk("var", r.fn.params[-1][0][1])
    v = q.node
    start = next((n.args[1] for n, p in q.facts if n.op == "is" and p and n.args[0] is me), None)
    if start is None:
        no = {n.args[1] for n, p in q.facts if n.op == "is" and not p and n.args[0] is me}
        left = [t for t in TIERS + ["None"] if t not in no]
        start = left[0] if len(left) == 1 else None
    if start == "None" or start is None and "None" not in [n.args[1] for n, p in q.facts if n.op == "is" and p]:
        if start is None:
            ctx.judge(r, q, "level", None, "the level before is not known on the path")
        return
    need = lambda t: F(X("LevelVolumeAndRewardPercentages.get", ("variant:" + t,)), "0")
    rec = v.op == "rec"
    out = v.args[1] if rec else v
    out = start if out is me else out.op.split(":")[1] if out.op.startswith("variant:") else None
    if out not in TIERS:
        ctx.judge(r, q, "level", None, f"level {show(v)[:100]}")
        return
    i, j = TIERS.index(start), TIERS.index(out)
    ctx.judge(r, q, "never lower", j >= i, f"{start} becomes {out}", relevant=VALUE)
    for t in TIERS[i + 1:j + 1]:
        ctx.judge(r, q, "thresholds reached", g.le(need(t), amount), f"{start} becomes {out} without the rewards of {t}", relevant=VALUE)
    if rec:
        ctx.judge(r, q, "same rewards", v.args[2] is amount, "the rewards change between levels", relevant=VALUE)
    elif j < 4:
        ctx.judge(r, q, "next threshold not reached", g.lt(amount, need(TIERS[j + 1])), f"{start} stays at {out} although the rewards of {TIERS[j + 1]} may be reached", relevant=VALUE)


@guarded
def percentages(ctx):
    r = ctx.fn(PN, "set_reward_percentage")
    for q in (r.paths if r is not None else []):
        g = G(r, q)
        asset, lvl, rates = (r.arg(k) for k in range(3))
        ctx.judge(r, q, "privileged", "AuthorityOrigin" in q.origins(), "reward percentages are set without the privileged origin")
        three = [(1, F(rates, k)) for k in ("referrer", "trader", "external")]
        fits = any(p and n.op == "fits" and sums(n.args[0], *three) for n, p in q.facts) or any(p == (n.op == "le") and n.op in ("le", "lt") and any(sums(x, *three) for x in n.args) for n, p in q.facts)
        ctx.judge(r, q, "at most the whole fee", fits, "the percentages can exceed the whole fee", relevant=VALUE)
        acts(ctx, r, q, [("recorded for the asset and level", "write", "AssetRewards", (asset, lvl, rates))])


@guarded
def idle(ctx):
    r = ctx.fn(PN, "on_idle")
    for q in (r.paths if r is not None else []):
        if any(e.loop for e in q.eff):
            rounds(ctx, r, q, False)


def referrals(pid, tier):
    ctx = Ctx(pid, tier)
    fee(ctx)
    codes(ctx)
    conversion(ctx)
    claiming(ctx)
    levels(ctx)
    percentages(ctx)
    idle(ctx)
    return ctx.done(RULE, ["saturating sums of shares and rewards do not reach the largest balance"])
