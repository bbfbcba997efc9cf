"""The exponential-moving-average price oracle: what is recorded per block, how entries advance, what is answered."""
from rules.p_small import *
from vt.front import tyname
from fractions import Fraction as Fr

RULE = ("Every path of the oracle's hooks, end-of-block update and queries is evaluated over the parsed source; the entries recorded, advanced and answered must be, field by field, those stated.")
NOW = X("BlockNumberProvider.current_block_number")
PARENT = lambda n: n.op == "satsub" and match(n.args[0], NOW) and num(n.args[1]) == 1
VOL = ("a_in", "b_out", "a_out", "b_in")
PERIODS = {"Short": 9, "TenMinutes": 100, "Hour": 600, "Day": 14400, "Week": 100800}


def getf(n, *fs):
    for f in fs:
        if n.op == "tuple" and str(f).isdigit() and int(f) < len(n.args):
            n = n.args[int(f)]
            continue
        if n.op.startswith("struct:"):
            ks = n.op.split(":")[2].split(",")
            if f in ks:
                n = n.args[ks.index(f)]
                continue
            if len(n.args) > len(ks):
                n = n.args[-1]
        n = mk("fld", n, str(f))
    return n


def S_(n):
    return strip(n)


def same(a, b):
    return S_(a) is S_(b)


def volume(n):
    return {f: getf(n, f) for f in VOL}


def swapvol(v):
    return dict(a_in=v["b_in"], b_in=v["a_in"], a_out=v["b_out"], b_out=v["a_out"])


def samevol(a, b):
    return all(same(a[f], b[f]) for f in VOL)


def zerovol(a):
    return all(num(a[f]) == 0 for f in VOL)


def samedict(a, b):
    return set(a) == set(b) and all(same(a[k], b[k]) for k in a)


def impl_fn(ctx, pn, name, selfty):
    """a trait method implemented for a given type"""
    try:
        p = ctx.pallet(pn)
    except KeyError:
        return None, []
    fs = [f for f in p.c.by_name.get(name, []) if f.impl is not None and tyname(f.impl["self"]) == selfty and f.impl["trait"] is not None]
    if len(fs) != 1:
        ctx.c["missing"] += 1
        ctx.und.append(f"{pn}::{selfty}::{name}: not found")
        return None, []
    return fnpaths(ctx, pn, name, fn=fs[0])


def inverted(n, x):
    return n.op in ("call", "m") and str(n.args[0]).split("::")[-1] == "inverted" and same(n.args[1], x)


@guarded
def record(ctx):
    for fn, trade in (("on_trade", True), ("on_liquidity_changed", False)):
        r, qs = impl_fn(ctx, "ema-oracle", fn, "OnActivityHandler")
        for q in qs:
            g = G(r, q)
            src, a, b, na, nb, la, lb, price = [r.arg(k) for k in range(8)]
            if q.node.op == "variant:Err":
                if trade and (g.eq(la, 0) or g.eq(lb, 0)):
                    ctx.judge(r, q, "zero liquidity", not q.writes(), "a trade with zero liquidity is recorded")
                continue
            if trade:
                ctx.judge(r, q, "zero liquidity", g.ne(la, 0) and g.ne(lb, 0), "a trade with zero liquidity is accepted", relevant=(la, lb))
            swap = g.lt(b, a)
            if not swap and not g.le(a, b):
                ctx.undecided(r, "recorded pair", "order of the assets not established")
                continue
            x, y, lx, ly = (b, a, lb, la) if swap else (a, b, la, lb)
            listed = g.y(("ext", "OracleWhitelist.contains", lambda n: n is mk("tuple", src, x, y)))
            ws = q.writes("Accumulator")
            setsonly(ctx, r, q, "Accumulator")
            if not listed:
                unl = g.n(("ext", "OracleWhitelist.contains", lambda n: n is mk("tuple", src, x, y)))
                ctx.judge(r, q, "whitelisted pairs", unl and not ws, "a pair that is not whitelisted is recorded, or a whitelisted one is not", relevant=())
                continue
            if len(ws) != 1:
                ctx.judge(r, q, "recorded", False, f"{len(ws)} entries are recorded for one event")
                continue
            v = ws[0].args[-1]
            base, key, e = (v.args[0], v.args[1], v.args[2]) if v.op == "upd" else (v.args[1], v.args[2], v.args[3]) if v.op == "mut" and v.args[0] in ("insert", "try_insert") and len(v.args) == 4 else (None,) * 3
            if base is None or base.op != "st":
                ctx.undecided(r, "recorded", "record not followed")
                continue
            W = ws[0]
            ctx.judge(r, q, "recorded pair", key is mk("tuple", src, mk("tuple", x, y)), lambda: f"the event is recorded under {show(key)[:120]}, not its source and ordered pair", eff=W, relevant=VALUE)
            old = mk("payload", mk("m", "get", base, key))
            had = any(n.op == "is" and match(n.args[0], ("m", "get", "_", lambda z: z is key)) and (n.args[1] == "Some") == p for n, p in q.facts)
            hadno = any(n.op == "is" and match(n.args[0], ("m", "get", "_", lambda z: z is key)) and (n.args[1] == "Some") != p for n, p in q.facts)
            if not had and not hadno:
                ctx.undecided(r, "recorded", "whether an entry exists is not established")
                continue
            p = getf(e, "price")
            ctx.judge(r, q, "price", inverted(p, price) if swap else same(p, price), lambda: f"the price recorded is {show(p)[:120]}", eff=W, relevant=VALUE)
            ctx.judge(r, q, "liquidity", same(getf(e, "liquidity", "a"), lx) and same(getf(e, "liquidity", "b"), ly), lambda: f"the liquidity recorded is {show(getf(e, 'liquidity'))[:120]}", eff=W, relevant=VALUE)
            ctx.judge(r, q, "block", match(getf(e, "updated_at"), NOW), "the event is not stamped with the current block", eff=W, relevant=VALUE)
            z = mk("const", 0)
            inc = dict.fromkeys(VOL, z)
            if trade:
                inc.update(dict(a_out=nb, b_in=na) if swap else dict(a_in=na, b_out=nb))
            got = volume(getf(e, "volume"))
            for f in VOL:
                o = getf(old, "volume", f)
                n = got[f]
                if had:
                    ok = same(n, o) if num(inc[f]) == 0 else (n.op == "sat" and matchlin(lin(n.args[0]), [(1, lambda k: same(k, o)), (1, inc[f])]) or matchlin(lin(n), [(1, lambda k: same(k, o)), (1, inc[f])]))
                else:
                    ok = same(n, inc[f]) or num(inc[f]) == 0 and num(n) == 0
                ctx.judge(r, q, "volume", ok, lambda: f"the volume {f} recorded is {show(n)[:120]}", eff=W, relevant=VALUE)


def smoothing_of(facts, period):
    """the period's name established by the path"""
    if period.op.startswith("variant:"):
        return period.op.split(":")[1]
    for n, p in facts:
        if p and n.op == "is" and same(n.args[0], period):
            return str(n.args[1])
    no = {str(n.args[1]) for n, p in facts if not p and n.op == "is" and same(n.args[0], period)}
    rest = ({"LastBlock"} | set(PERIODS)) - no
    return rest.pop() if len(rest) == 1 else None


def smooth_ok(n, name):
    v = num(n)
    if v is None:
        return None
    return abs(Fr(v, 2**127) - Fr(2, PERIODS[name] + 1)) < Fr(1, 10**7) * Fr(2, PERIODS[name] + 1)


class Entry:
    """price, volume, liquidity, update block of an entry node"""

    def __init__(self, n=None, **kw):
        self.n = n
        self.price = kw.get("price") or getf(n, "price")
        self.vol = kw.get("vol") or volume(getf(n, "volume"))
        self.a, self.b = kw.get("a") or getf(n, "liquidity", "a"), kw.get("b") or getf(n, "liquidity", "b")
        self.at = kw.get("at") or getf(n, "updated_at")

    def same(self, o):
        return same(self.price, o.price) and samevol(self.vol, o.vol) and same(self.a, o.a) and same(self.b, o.b) and same(self.at, o.at)


def calls(n, name):
    return find(n, lambda z: z.op == "call" and str(z.args[0]).split("::")[-1] == name)


def israw(n, e):
    """(price, volume, liquidity) of an entry"""
    if n.op != "tuple" or len(n.args) != 3:
        return False
    v, l = n.args[1], n.args[2]
    v_ok = samevol(volume(v), e.vol) or v.op == "tuple" and all(same(x, e.vol[f]) for f, x in zip(VOL, v.args))
    l_ok = same(getf(l, "a"), e.a) and same(getf(l, "b"), e.b) or l.op == "tuple" and same(l.args[0], e.a) and same(l.args[1], e.b)
    return same(n.args[0], e.price) and v_ok and l_ok


def outof(c, at):
    return Entry(price=getf(c, "0"), vol={f: getf(c, "1", str(k)) for k, f in enumerate(VOL)}, a=getf(c, "2", "0"), b=getf(c, "2", "1"), at=at)


def outdated(facts, at):
    """is an update block known to be before the parent block: True, False, None (not followed) or "bad" (established for another block, or not asked)"""
    asked = False
    for n, p in facts:
        if n.op not in ("lt", "eq"):
            continue
        d = {}
        for x, c in ((n.args[0], 1), (n.args[1], -1)):
            for k, v in lin(x).items():
                if k is not None and PARENT(k):
                    d["now"] = d.get("now", 0) + c * v
                    d[None] = d.get(None, 0) - c * v
                elif k is not None and match(k, NOW):
                    d["now"] = d.get("now", 0) + c * v
                elif k is not None and same(k, at):
                    d["at"] = d.get("at", 0) + c * v
                else:
                    d[k] = d.get(k, 0) + c * v
        d = {k: v for k, v in d.items() if v}
        if not {"at", "now"} <= set(d):
            continue
        if set(d) - {"at", "now", None} or d["at"] != -d["now"] or abs(d["at"]) != 1:
            return None
        c = d.get(None, 0)
        if n.op == "eq":
            if p and d["at"] * c == 1:
                return False
            return None
        asked = True
        # lt: at - now + c < 0 (or the reverse); integers
        lo = d["at"] == 1
        if not p:
            lo, c = not lo, -c
            # not(at - now + c < 0)  ->  now - at - c <= 0  ->  now - at - c - 1 < 0
            c -= 1
        # lo: at - now + c < 0 <=> at < now - c;  else: now - at + c < 0 <=> at > now + c
        if lo and c == 1:
            return True
        if not lo and c == -2:
            return False
    return "bad" if asked else "unasked"


def advanced(ctx, r, q, P, LB, period, facts, v):
    """the stored entry P brought to the parent block (None: unknown), judging the update call found in v"""
    out = outdated(facts, P.at)
    if out in ("bad", "unasked"):
        ctx.judge(r, q, "outdated", False, "whether an entry must be advanced is not decided by its being older than the parent block", relevant=VALUE)
        return None
    if out:
        par = next((z for n, p in facts for z in find(n, PARENT)), None) or mk("satsub", mk("ext", "BlockNumberProvider.current_block_number"), mk("const", 1))
        eqp = any(p and n.op == "eq" and any(PARENT(x) for x in n.args) and any(same(x, LB.at) for x in n.args) for n, p in facts)
        to = LB.at if eqp else par
        name = smoothing_of(facts, period)
        z = mk("const", 0)
        if name == "LastBlock":
            e = Entry(price=LB.price, vol=dict.fromkeys(VOL, z), a=LB.a, b=LB.b, at=to)
            if eqp:
                e.vol = LB.vol
            return e
        cs = [c for c in calls(v, "update_outdated_to_current") if same(c.args[2].args[0] if c.args[2].op == "tuple" else c.args[2], P.price)]
        if name is None or len(cs) != 1:
            return None
        c = cs[0]
        # satsub(x, 1) and x - 1 count the same blocks here
        it = matchlin(lin(c.args[1]), [(1, lambda k: same(k, to)), (-1, lambda k: same(k, P.at))])
        ctx.judge(r, q, "blocks passed", it, lambda: f"an entry is advanced by {show(c.args[1])[:140]} blocks", relevant=VALUE)
        ctx.judge(r, q, "advanced from", israw(c.args[2], P), "an outdated entry is not advanced from its own values", relevant=VALUE)
        w = c.args[3]
        ok = w.op == "tuple" and same(w.args[0], LB.price) and (same(getf(w.args[1], "a"), LB.a) and same(getf(w.args[1], "b"), LB.b) or w.args[1].op == "tuple" and same(w.args[1].args[0], LB.a) and same(w.args[1].args[1], LB.b))
        ctx.judge(r, q, "advanced with", ok, "an outdated entry is not advanced with the last recorded block's price and liquidity", relevant=VALUE)
        so = smooth_ok(c.args[4], name)
        ctx.judge(r, q, "smoothing", so, lambda: f"the smoothing of the {name} oracle is {show(c.args[4])[:60]}", relevant=VALUE)
        return outof(c, to)
    if out is False:
        return P
    return None


@guarded
def advance(ctx):
    r, qs = fnpaths(ctx, "ema-oracle", "on_finalize")
    for q in qs:
        ws = q.writes("Accumulator")
        ctx.judge(r, q, "accumulator emptied", len(ws) == 1 and ws[0].args[-1].op == "removed", "the recorded block data is counted again in the next block", relevant=VALUE)
        seen = set()
        for e in q.writes("Oracles"):
            if not e.loop or len(e.args) != 4:
                ctx.undecided(r, "oracle update", "write not followed")
                continue
            src, pair, period, v = e.args
            E = src.args[0].args[0] if src.op == "fld" and src.args[0].op == "fld" else None
            if E is None or not (E.op == "idx" and E.args[0].op == "st" and str(E.args[0].args[0]) == "Accumulator") or v.op != "tuple" or len(v.args) != 2:
                ctx.undecided(r, "oracle update", "write not followed")
                continue
            seen.add("LastBlock" if period.op == "variant:LastBlock" else "others" if has(period, lambda z: match(z, CFG("SupportedPeriods"))) else "?")
            if period.op != "variant:LastBlock":
                apart = has(period, lambda z: z.op == "m" and z.args[0] in ("filter", "filter_map")) or any(not p and n.op in ("is", "eq") and any(same(z, period) for z in n.args if isinstance(z, Node)) for n, p in e.facts)
                ctx.judge(r, q, "last block last", apart, "the last-block oracle is updated along with the others, which still need its previous value", eff=e, relevant=VALUE)
            K = mk("fld", E, "0")
            ctx.judge(r, q, "updated key", same(src, mk("fld", K, "0")) and same(pair, mk("fld", K, "1")), "block data of one source and pair updates another's oracle", eff=e, relevant=VALUE)
            inc = Entry(mk("fld", E, "1"))
            S = ("st", "Oracles", lambda z: same(z, src), lambda z: same(z, pair), lambda z: same(z, period))
            facts = e.facts
            has_ = next((n.args[0] for n, p in facts if n.op == "is" and match(n.args[0], S) and (n.args[1] == "Some") == p), None)
            no = any(n.op == "is" and match(n.args[0], S) and (n.args[1] == "Some") != p for n, p in facts)
            if no:
                ctx.judge(r, q, "first entry", same(v.args[0], inc.n) and match(v.args[1], NOW), "the first entry of an oracle is not the block's data from the current block", eff=e, relevant=VALUE)
                continue
            if has_ is None:
                ctx.undecided(r, "oracle update", "whether the entry exists is not established")
                continue
            P = Entry(mk("fld", mk("payload", has_), "0"))
            init = mk("fld", mk("payload", has_), "1")
            L = next((n.args[0] for n, p in facts if n.op == "is" and n.args[0].op == "st" and str(n.args[0].args[0]) == "Oracles" and n.args[0].args[3].op == "variant:LastBlock"), None)
            ctx.judge(r, q, "oracle age kept", same(v.args[1], init), "the starting block of an oracle changes", eff=e, relevant=VALUE)
            if L is None and period.op != "variant:LastBlock" and outdated(facts, P.at) is True:
                # the last block's data was overwritten before the other periods read it, or is not looked up
                ctx.judge(r, q, "last block read first", False, "an outdated oracle is advanced without the data of the last recorded block", eff=e, relevant=VALUE)
                continue
            if L is not None and any(n.op == "is" and n.args[0] is L and (n.args[1] == "Some") != p for n, p in facts):
                continue                     # cannot happen: defaults to the previous value
            LB = Entry(mk("fld", mk("payload", L if L is not None else has_), "0"))
            s1 = advanced(ctx, r, q, P, LB, period, facts, v)
            if s1 is None:
                ctx.undecided(r, "oracle update", "advance to the parent block not followed")
                continue
            one = any(p and n.op == "eq" and any(num(x) == 1 for x in n.args) and any(matchlin(lin(x), [(1, lambda k: same(k, inc.at)), (-1, lambda k: same(k, s1.at))]) for x in n.args) for n, p in facts)
            notone = any(not p and n.op == "eq" and any(num(x) == 1 for x in n.args) and any(matchlin(lin(x), [(1, lambda k: same(k, inc.at)), (-1, lambda k: same(k, s1.at))]) for x in n.args) or p and n.op == "lt" and same(n.args[0], inc.at) and same(n.args[1], s1.at) for n, p in facts)
            got = Entry(v.args[0])
            name = smoothing_of(facts, period)
            if notone:
                ctx.judge(r, q, "not a block ahead", got.same(s1), "block data that is not one block ahead changes the oracle", eff=e, relevant=VALUE)
            elif name == "LastBlock":
                ctx.judge(r, q, "last block", one and got.same(inc), "the last-block oracle does not become the block's data", eff=e, relevant=VALUE)
            else:
                cs = [c for c in calls(v.args[0], "calculate_new_by_integrating_incoming")]
                if not one or name is None or len(cs) != 1:
                    ctx.judge(r, q, "integrated", False if not cs and one and name else None, "the block's data is not integrated", eff=e, relevant=VALUE)
                    continue
                c = cs[0]
                ctx.judge(r, q, "integrated into", israw(c.args[1], s1), "the block's data is not integrated into the entry as of the parent block", eff=e, relevant=VALUE)
                ctx.judge(r, q, "integrated data", israw(c.args[2], inc), "what is integrated into an oracle is not the block's data", eff=e, relevant=VALUE)
                ctx.judge(r, q, "smoothing", smooth_ok(c.args[3], name), lambda: f"the smoothing of the {name} oracle is {show(c.args[3])[:60]}", eff=e, relevant=VALUE)
                ctx.judge(r, q, "new entry", got.same(outof(c, inc.at)), "the new entry is not the integrated one at the block's own number", eff=e, relevant=VALUE)
        ctx.judge(r, q, "every period", {"LastBlock", "others"} <= seen, "not every supported period (and the last block) is updated", relevant=VALUE)
        setsonly(ctx, r, q, "Accumulator", "Oracles")


@guarded
def answer(ctx):
    r, qs = fnpaths(ctx, "ema-oracle", "get_entry")
    for q in qs:
        g = G(r, q)
        a, b, period, src = [r.arg(k) for k in range(4)]
        ctx.judge(r, q, "read only", not q.writes(), "a query changes the oracle")
        if not q.node.op == "variant:Ok":
            continue
        ctx.judge(r, q, "different assets", g.ne(a, b), "a price of an asset in itself is answered", relevant=(a, b))
        swap = g.lt(b, a)
        x, y = (b, a) if swap else (a, b)
        if not swap and not g.le(a, b):
            ctx.undecided(r, "answer", "order of the assets not established")
            continue
        facts = q.facts
        K = mk("tuple", x, y)
        st = lambda per: next((n.args[0] for n, p in facts if n.op == "is" and match(n.args[0], ("st", "Oracles", src, K, per)) and (n.args[1] == "Some") == p), None)
        L = st(lambda n: n.op == "variant:LastBlock")
        if L is None:
            ctx.judge(r, q, "answer source", False, "an answer does not come from the oracle of the asked source and ordered pair", relevant=(K, src))
            continue
        LB = Entry(mk("fld", mk("payload", L), "0"))
        f = fields(q.node.args[0])
        if set(f) != {"price", "volume", "liquidity", "oracle_age"}:
            ctx.undecided(r, "answer", "answer not built field by field")
            continue
        par = next((z for n, p in facts for z in find(n, PARENT)), None)
        eqp = any(p and n.op == "eq" and any(PARENT(z) for z in n.args) and any(same(z, LB.at) for z in n.args) for n, p in facts)
        nep = any(not p and n.op == "eq" and any(PARENT(z) for z in n.args) and any(same(z, LB.at) for z in n.args) for n, p in facts)
        z0 = mk("const", 0)
        if not eqp and not nep:
            ctx.judge(r, q, "as of the parent block", False if par is None else None, "an answer is not brought to the parent block", relevant=())
            continue
        lb = LB if eqp else Entry(price=LB.price, vol=dict.fromkeys(VOL, z0), a=LB.a, b=LB.b, at=par)
        if g.y(("is", period, "LastBlock")):
            want, init = lb, mk("fld", mk("payload", L), "1")
        else:
            O = st(lambda n: n is period)
            if O is None:
                ctx.judge(r, q, "asked period", False, "an answer does not come from the oracle of the asked period", relevant=(period,))
                continue
            P = Entry(mk("fld", mk("payload", O), "0"))
            init = mk("fld", mk("payload", O), "1")
            want = advanced(ctx, r, q, P, LB, period, facts, q.node)
            if want is None:
                ctx.undecided(r, "answer", "advance to the parent block not followed")
                continue
        vol = volume(f["volume"])
        ok = (inverted(f["price"], want.price) if swap else same(f["price"], want.price))
        ctx.judge(r, q, "price", ok, lambda: f"the price answered is {show(f['price'])[:160]}", relevant=VALUE)
        ctx.judge(r, q, "volume", samevol(vol, swapvol(want.vol) if swap else want.vol) or zerovol(vol) and zerovol(want.vol), lambda: f"the volume answered is {show(f['volume'])[:160]}", relevant=VALUE)
        la, lb_ = getf(f["liquidity"], "a"), getf(f["liquidity"], "b")
        ctx.judge(r, q, "liquidity", same(la, want.b) and same(lb_, want.a) if swap else same(la, want.a) and same(lb_, want.b), lambda: f"the liquidity answered is {show(f['liquidity'])[:160]}", relevant=VALUE)
        age = f["oracle_age"]
        ctx.judge(r, q, "age", age.op == "satsub" and same(age.args[0], want.at) and same(age.args[1], init), lambda: f"the age answered is {show(age)[:160]}", relevant=VALUE)


@guarded
def listing(ctx):
    for fn, op in (("add_oracle", ("insert", "try_insert")), ("remove_oracle", ("remove",))):
        r = ctx.fn("ema-oracle", fn)
        for q in (r.paths if r is not None else ()):
            g = G(r, q)
            src, t = g.a(0), g.a(1)
            a, b = mk("fld", t, "0"), mk("fld", t, "1")
            swap = g.lt(b, a)
            if not swap and not g.le(a, b):
                ctx.undecided(r, "listed pair", "order of the assets not established")
                continue
            okpair = lambda n: n is mk("tuple", b, a) if swap else n is t or n is mk("tuple", a, b)
            key = lambda n: n.op == "tuple" and len(n.args) == 2 and n.args[0] is src and okpair(n.args[1])
            ws = q.writes("WhitelistedAssets")
            v = ws[0].args[-1] if len(ws) == 1 else None
            ok = v is not None and v.op == "mut" and v.args[0] in op and key(v.args[-1])
            ctx.judge(r, q, "listed pair", ok, "the whitelist change is not that of the given source and ordered pair")
            if fn == "remove_oracle":
                ctx.judge(r, q, "was listed", any(p and n.op == "ret" and n.args[0] == "remove" and key(n.args[-1]) for n, p in q.facts), "an oracle that is not listed can be removed", relevant=(src, t))
                for e in q.writes("Oracles"):
                    ok = e.args[0] is src and okpair(e.args[1]) and e.args[-1].op == "removed" and has(e.args[2], lambda z: match(z, CFG("SupportedPeriods")))
                    ctx.judge(r, q, "entries removed", ok and bool(e.loop), "removing an oracle does not remove its own entries of every period", eff=e)
                ctx.judge(r, q, "entries removed", bool(q.writes("Oracles")), "removing an oracle leaves its entries")
                acc = [e for e in q.writes("Accumulator") if e.args[-1].op == "mut" and e.args[-1].args[0] == "remove" and key(e.args[-1].args[-1])]
                ctx.judge(r, q, "block data removed", len(acc) == len(q.writes("Accumulator")) > 0, "removing an oracle leaves its data of the current block")
            setsonly(ctx, r, q, "WhitelistedAssets", *(("Oracles", "Accumulator") if fn == "remove_oracle" else ()))


def oracle(pid, tier):
    ctx = Ctx(pid, tier)
    record(ctx)
    advance(ctx)
    answer(ctx)
    listing(ctx)
    return ctx.done(RULE)
