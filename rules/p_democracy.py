"""Democracy: what a vote counts for, what recasting and removing take out, locks, and when a referendum passes."""
from rules.p_evmfee import called
from rules.p_small import *
from rules.plib import lin as _lin
from vt.pallet import tyname
from vt.terms import const

VALUE = ("free_balance",)
PN = "democracy"
RULE = ("Every path of the tally's, conviction's and locks' own functions is evaluated and its exact result compared with the specification, case by case; on every path that casts or removes a vote the new tally is compared, as a linear expression, "
        "with the old one and the contributions of the votes; the scope, lock, hook and scheduling required on a path are read off its effects.")


def fns(ctx, name, self):
    return [f for f in ctx.pallet(PN).c.by_name.get(name, []) if f.impl and tyname(f.impl["self"]) == self and "tests" not in f.mod.path]


def paths(ctx, name, self, outs=True, opaque=(), pick=0):
    fs = fns(ctx, name, self)
    if not fs:
        ctx.c["missing"] += 1
        ctx.und.append(f"{self}::{name}: not found")
        return None, []
    return fnpaths(ctx, PN, name, fn=fs[pick], outs=outs, opaque=opaque)


def S(n):
    """without saturation"""
    if not isinstance(n, Node):
        return n
    n = strip(n)
    if n.op == "sat":
        return S(n.args[0])
    if n.op == "satsub":
        return mk("sub", S(n.args[0]), S(n.args[1]))
    if n.op == "mul":
        return mk("mul", *sorted([S(x) for x in n.args], key=lambda x: x.id))
    if n.op in ("add", "sub", "max", "min"):
        return mk(n.op, *[S(x) for x in n.args])
    if n.op == "fld" and n.args[0].op in ("m", "call") and str(n.args[0].args[0]).split("::")[-1] == "votes":
        v = n.args[0].args
        return S(v[2]) if n.args[1] == "capital" else mk("V", strip(v[1]), S(v[2])) if n.args[1] == "votes" else n
    return n


def eqn(a, b):
    a, b = S(a), S(b)
    return a is b or _lin(a) == _lin(b)


def pol(q, f):
    for x, p in q.facts:
        if x is f or strip(x) is f:
            return p
    return None


def kind(q, v):
    """(standard?, aye?) of a vote as known on the path; None when inconsistent or unknown"""
    std = q.holds(mk("is", v, "Standard"))
    spl = q.holds(mk("is", v, "Split"))
    s = std if std is not None else None if spl is None else not spl
    asn = [p for x, p in q.facts if x.op == "is" and x.args[1] == "Some" and called_(x.args[0], "as_standard") and strip(x.args[0].args[1]) is v]
    if s is None and asn:
        s = asn[0]
    if s is None or asn and asn[0] != s:
        return None, None
    aye = pol(q, mk("fld", mk("vfld", v, "Standard", "vote"), "aye"))
    pay = [p for x, p in q.facts if x.op == "payload" and called_(x.args[0], "as_standard") and strip(x.args[0].args[1]) is v]
    if pay and aye is not None and pay[0] != aye:
        return None, None
    return s, aye if aye is not None else pay[0] if pay else None


def called_(n, name):
    return n.op in ("m", "call", "ext") and str(n.args[0]).replace(".", "::").split("::")[-1] == name


NONE = mk("variant:None")


def contrib(q, v, dele):
    """what a vote adds to (ayes, nays, turnout)"""
    s, aye = kind(q, v)
    z = const(0)
    if s is None:
        return None
    if s:
        if aye is None:
            return None
        c, b = mk("fld", mk("vfld", v, "Standard", "vote"), "conviction"), mk("vfld", v, "Standard", "balance")
        n, t = mk("V", c, b), b
        if dele is not None:
            n, t = mk("add", n, mk("fld", dele, "votes")), mk("add", t, mk("fld", dele, "capital"))
        return (n, z, t) if aye else (z, n, t)
    a, b = mk("vfld", v, "Split", "aye"), mk("vfld", v, "Split", "nay")
    return mk("V", NONE, a), mk("V", NONE, b), mk("add", a, b)


def members(n, names):
    n = strip(n)
    if n.op.startswith("struct:") or n.op.startswith("variant:") and ":" in n.op[8:]:
        d = dict(zip(n.op.split(":")[2].split(","), n.args))
        return [d.get(k) for k in names]
    return [mk("fld", n, k) for k in names]


T3 = ("ayes", "nays", "turnout")


def democracy(pid, tier):
    ctx = Ctx(pid, tier)
    for g in (_conviction, _codec, _tally, _vote, _prior, _try_vote, _try_remove, _delegate, _lock, _threshold, _bake):
        guarded(g)(ctx)
    return ctx.done(RULE, ["the votes of an account are sorted by referendum (kept by the insertions)", "changes made inside the stored voting record through nested references are not modelled"])


def _conviction(ctx):
    want = {"None": (0, 0), "Locked1x": (1, 1), "Locked2x": (2, 2), "Locked3x": (4, 3), "Locked4x": (8, 4), "Locked5x": (16, 5), "Locked6x": (32, 6)}
    for name, self, col in (("lock_periods", "Conviction", 0), ("from", "u8", 1)):
        r, qs = paths(ctx, name, self)
        for q in qs:
            on = [f.args[1] for f, p in q.facts if p and f.op == "is" and strip(f.args[0]) is r.arg(0)]
            off = {f.args[1] for f, p in q.facts if not p and f.op == "is" and strip(f.args[0]) is r.arg(0)}
            for k in (on or [k for k in want if k not in off]):
                v = num(q.node)
                ctx.judge(r, q, f"{'lock periods' if not col else 'votes'} of {k}", None if k not in want or v is None else v == want[k][col], lambda: f"{k} gives {show(q.node)[:40]}", relevant=VALUE)
    r, qs = paths(ctx, "try_from", "Conviction")
    for q in qs:
        k = [num(strip(x)) for f, p in q.facts if p and f.op == "eq" for x in f.args if num(strip(x)) is not None]
        n = strip(q.node)
        if n.op == "variant:Ok":
            v = strip(n.args[0]).op.split(":")[-1]
            ctx.judge(r, q, "decoded conviction", None if len(k) != 1 or v not in want else want[v][1] == k[0], lambda: f"{k} decodes to {v}", relevant=VALUE)
    r, qs = paths(ctx, "votes", "Conviction")
    for q in qs:
        d = strip(q.node)
        v, c = members(d, ("votes", "capital"))
        cap = r.arg(1)
        ctx.judge(r, q, "capital", strip(c) is strip(cap), lambda: f"capital {show(c)[:60]}", relevant=VALUE)
        none = q.holds(mk("is", r.arg(0), "None"))
        if none is None:
            ctx.judge(r, q, "votes", None, "case not known")
        elif none:
            ok = v.op in ("div", "fdiv") and strip(v.args[0]) is strip(cap) and num(v.args[1]) == 10 or num(v) == 0 and False
            ctx.judge(r, q, "votes without conviction", ok, lambda: f"counts {show(v)[:60]}", relevant=VALUE)
        else:
            top = called_(v, "max_value")
            ctx.judge(r, q, "votes with conviction", True if top else v.op == "mul" and {strip(x) for x in v.args} == {strip(r.arg(0)), strip(cap)}, lambda: f"counts {show(v)[:60]}", relevant=VALUE)


def _codec(ctx):
    r, qs = paths(ctx, "decode", "Vote", outs=False)
    for q in qs:
        n = strip(q.node)
        if n.op != "variant:Ok":
            continue
        aye, conv = members(n.args[0], ("aye", "conviction"))
        bits = lambda z: {num(x) for x in z.args} if z.op == "op&" else set()
        if aye.op == "eq":
            m = [x for x in aye.args if x.op == "op&"]
            k = [num(x) for x in aye.args if num(x) is not None]
            ctx.judge(r, q, "aye bit", None if len(m) != 1 or len(k) != 1 else 128 in bits(m[0]) and k[0] == 128, lambda: f"aye is {show(aye)[:60]}", relevant=VALUE)
        else:
            ctx.judge(r, q, "aye bit", None, show(aye)[:60])
        ks = [(f, p) for f, p in q.facts if p and f.op == "eq" and any(x.op == "op&" for x in f.args)]
        if len(ks) == 1:
            m = next(x for x in ks[0][0].args if x.op == "op&")
            ctx.judge(r, q, "conviction bits", 127 in bits(m), lambda: f"conviction from {show(m)[:60]}", relevant=VALUE)
    r, qs = paths(ctx, "encode_to", "Vote", outs=False)
    for q in qs:
        es = [e for e in q.eff if str(e.name).split("::")[-1] in ("push_byte",)]
        if len(es) != 1:
            ctx.judge(r, q, "one byte", None, "encoding not understood")
            continue
        b = strip(es[0].args[-1])
        aye = pol(q, mk("fld", r.arg(0), "aye"))
        ks = [num(x) for x in b.args if num(x) is not None] if b.op == "op|" else [0]
        ctx.judge(r, q, "aye bit", None if aye is None or len(ks) != 1 else ks[0] == (128 if aye else 0), lambda: f"encodes {show(b)[:60]} for {'aye' if aye else 'nay'}", relevant=VALUE)


def _tally(ctx):
    for name, sign in (("add", 1), ("remove", -1)):
        r, qs = paths(ctx, name, "Tally", opaque=("votes",))
        for q in qs:
            if not q.p.ok:
                continue
            c = contrib(q, r.arg(1), None)
            o = q.p.out(0)
            if c is None or o is None:
                ctx.judge(r, q, name, None, "case not known")
                continue
            shift(ctx, r, q, name, r.arg(0), o, [(sign, c)])
    for name, sign in (("increase", 1), ("reduce", -1)):
        r, qs = paths(ctx, name, "Tally")
        for q in qs:
            o, aye, d = q.p.out(0), pol(q, r.arg(1)), r.arg(2)
            if aye is None or o is None:
                ctx.judge(r, q, name, None, "case not known")
                continue
            v, z, t = mk("fld", d, "votes"), const(0), mk("fld", d, "capital")
            shift(ctx, r, q, name, r.arg(0), o, [(sign, (v, z, t) if aye else (z, v, t))])


def shift(ctx, r, q, title, old, new, terms, eff=None):
    for k, (a, b) in enumerate(zip(members(old, T3), members(new, T3))):
        w = S(a)
        for sg, c in terms:
            w = mk("add" if sg > 0 else "sub", w, S(c[k]))
        ok = None if b is None else eqn(b, w)
        ctx.judge(r, q, f"{title}: {T3[k]}", ok, lambda: f"{T3[k]} becomes {show(b)[:120]}", relevant=VALUE, eff=eff)


def _vote(ctx):
    r, qs = paths(ctx, "locked_if", "AccountVote", opaque=("lock_periods",))
    for q in qs:
        n = strip(q.node)
        v = r.arg(0)
        std = q.holds(mk("is", v, "Standard"))
        aye = mk("fld", mk("vfld", v, "Standard", "vote"), "aye")
        won = [p for f, p in q.facts if f.op == "eq" and {strip(x) for x in f.args} == {strip(r.arg(1)), aye}]
        if n.op == "variant:Some":
            ctx.judge(r, q, "locked", std is True and won == [True], "locked though the vote is not a standard vote of the winning side", relevant=VALUE)
            t = strip(n.args[0])
            a, b = (t.args[0], t.args[1]) if t.op == "tuple" else (None, None)
            ok = None if a is None else called_(a, "lock_periods") and strip(a.args[1]) is mk("fld", mk("vfld", v, "Standard", "vote"), "conviction") and strip(b) is mk("vfld", v, "Standard", "balance")
            ctx.judge(r, q, "locked for", ok, lambda: f"locks {show(t)[:100]}", relevant=VALUE)
        elif n.op == "variant:None":
            ctx.judge(r, q, "free", not (std is True and won == [True]), "a winning standard vote is not locked", relevant=VALUE)
    r, qs = paths(ctx, "balance", "AccountVote")
    for q in qs:
        v = r.arg(0)
        s = q.holds(mk("is", v, "Standard"))
        want = mk("vfld", v, "Standard", "balance") if s else mk("add", mk("vfld", v, "Split", "aye"), mk("vfld", v, "Split", "nay"))
        ctx.judge(r, q, "balance", None if s is None else eqn(q.node, want), lambda: f"balance {show(q.node)[:80]}", relevant=VALUE)
    r, qs = paths(ctx, "as_standard", "AccountVote")
    for q in qs:
        v, n = r.arg(0), strip(q.node)
        s = q.holds(mk("is", v, "Standard"))
        ok = None if s is None else (n.op == "variant:Some" and strip(n.args[0]) is mk("fld", mk("vfld", v, "Standard", "vote"), "aye")) if s else n.op == "variant:None"
        ctx.judge(r, q, "side", ok, lambda: f"side {show(n)[:80]}", relevant=VALUE)


def _prior(ctx):
    r, qs = paths(ctx, "accumulate", "PriorLock")
    for q in qs:
        a, b = members(q.p.out(0), ("0", "1"))
        for k, (x, y) in enumerate(((a, r.arg(1)), (b, r.arg(2)))):
            ok = x.op == "max" and {strip(z) for z in x.args} == {mk("fld", r.arg(0), str(k)), strip(y)}
            ctx.judge(r, q, ("until the later", "the larger amount")[k], ok, lambda: f"becomes {show(x)[:80]}", relevant=VALUE)
    r, qs = paths(ctx, "rejig", "PriorLock")
    for q in qs:
        o, me = q.p.out(0), r.arg(0)
        un = mk("fld", me, "0")
        early = [p if f.op == "lt" else not p for f, p in q.facts if f.op in ("lt",) and [strip(x) for x in f.args] == [strip(r.arg(1)), un]]
        early += [not p for f, p in q.facts if f.op == "le" and [strip(x) for x in f.args] == [un, strip(r.arg(1))]]
        zero = o is not None and o is not me and all(num(x) == 0 for x in members(o, ("0", "1")))
        other = [f for f, p in q.facts]
        ok = (None if not other else False) if not early else (o is me if early[0] else zero)
        ctx.judge(r, q, "released once due", ok, lambda: f"becomes {show(o)[:80]} when {[('+' if p else '-') + show(f)[:40] for f, p in q.facts]}", relevant=VALUE)
    r, qs = paths(ctx, "locked", "PriorLock")
    for q in qs:
        ctx.judge(r, q, "amount locked", strip(q.node) is mk("fld", r.arg(0), "1"), lambda: show(q.node)[:80], relevant=VALUE)
    r, qs = paths(ctx, "locked_balance", "Voting")
    for q in qs:
        v, n = r.arg(0), strip(q.node)
        if q.holds(mk("is", v, "Delegating")):
            ok = n.op == "max" and mk("vfld", v, "Delegating", "balance") in [strip(x) for x in n.args] and any(find(x, lambda z: z is mk("vfld", v, "Delegating", "prior")) for x in n.args)
            ctx.judge(r, q, "delegated balance locked", ok, lambda: f"locks {show(n)[:100]}", relevant=VALUE)
        elif q.holds(mk("is", v, "Direct")):
            if n.op != "fold":
                ctx.judge(r, q, "largest vote locked", None if n.op not in ("vfld", "m", "const", "min") else False, lambda: f"locks {show(n)[:100]}", relevant=VALUE)
                continue
            step = strip(n.args[2])
            ok = bool(find(n.args[0], lambda z: z is mk("vfld", v, "Direct", "votes"))) and bool(find(n.args[1], lambda z: z is mk("vfld", v, "Direct", "prior"))) and bool(find(n.args[0], lambda z: called_(z, "balance")))
            ctx.judge(r, q, "largest vote locked", (ok and step.op == "max") if step.op in ("max", "min", "add", "sat", "sub", "satsub") else None, lambda: f"locks {show(n)[:160]}", relevant=VALUE)


def info(r):
    return mk("payload", mk("st", "ReferendumInfoOf", r.arg(1)))


def oldvote(q):
    """the vote of the account stored for this referendum, if it is known to have one"""
    for f, p in q.facts:
        if f.op == "is" and f.args[1] == "Ok" and p and called_(f.args[0], "binary_search_by_key"):
            b = f.args[0]
            return mk("fld", mk("idx", b.args[1], mk("payload", b)), "1")
    return None


def hook(q, name):
    return [e for e in q.eff if e.kind == "ext" and str(e.name).replace(".", "::").split("::")[-1] == name]


def _try_vote(ctx):
    r = ctx.fn(PN, "try_vote", opaque=("votes", "balance"))
    if r is None:
        return
    who, ref, vote = (r.arg(k) for k in range(3))
    for p in r.runs.paths:
        q = PP(r, p)
        if not q.p.ok:
            continue
        if tonode_(p.val).op == "variant:Err":
            continue
        bal = lambda n: called_(strip(n), "balance") and strip(strip(n).args[1]) is strip(vote)
        fb = [p2 if f.op == "lt" else not p2 for f, p2 in q.facts if f.op in ("lt", "le") and any(called("free_balance")(strip(x)) for x in f.args) and any(bal(x) for x in f.args)]
        good = False
        for f, p2 in q.facts:
            if f.op == "lt" and not p2 and called("free_balance")(strip(f.args[0])) and bal(f.args[1]) or f.op == "le" and p2 and bal(f.args[0]) and called("free_balance")(strip(f.args[1])):
                good = any(strip(x) is strip(who) for x in find(f, lambda z: called("free_balance")(z)).pop().args[1:] if isinstance(x, Node)) if find(f, lambda z: called("free_balance")(z)) else False
        ctx.judge(r, q, "no more than the account has", good, "more may be voted with than the account has", relevant=VALUE)
        ex = hook(q, "extend_lock")
        ctx.judge(r, q, "locked", bool(ex) and strip(ex[0].args[1]) is strip(who) and bal(ex[0].args[2]), lambda: "the balance of the vote is not locked", relevant=VALUE)
        h = hook(q, "on_vote")
        ctx.judge(r, q, "hook told", len(h) == 1 and [strip(x) for x in h[0].args[:3]] == [strip(who), strip(ref), strip(vote)], "the hook is not told of the vote", relevant=VALUE)
        ws = [w for w in q.writes() if w.name == "ReferendumInfoOf"]
        if not ctx.judge(r, q, "tally stored", len(ws) == 1 and strip(ws[0].args[0]) is strip(ref), "the tally is not stored", relevant=VALUE):
            continue
        on = mk("vfld", info_(ref), "Ongoing", "0")
        ctx.judge(r, q, "ongoing", q.holds(mk("is", info_(ref), "Ongoing")) is True, "a vote on a referendum that is not ongoing", relevant=VALUE)
        v = strip(ws[0].args[-1])
        new = strip(v.args[0]) if v.op == "variant:Ongoing" else None
        if new is None:
            ctx.judge(r, q, "tally stored", None, "record not understood")
            continue
        keep(ctx, r, q, on, new, ws[0])
        dele = mk("vfld", mk("st", "VotingOf", who), "Direct", "delegations")
        c = contrib(q, vote, dele)
        old = oldvote(q)
        o = contrib(q, old, dele) if old is not None else None
        if c is None or old is not None and o is None:
            continue                                   # not a consistent case
        shift(ctx, r, q, "recast" if old is not None else "cast", members(on, ("tally",))[0], members(new, ("tally",))[0], ([(-1, o)] if old is not None else []) + [(1, c)], ws[0])


def info_(ref):
    return mk("payload", mk("st", "ReferendumInfoOf", ref))


def keep(ctx, r, q, old, new, w):
    for k, (a, b) in zip(("end", "delay", "proposal", "threshold"), zip(members(old, ("end", "delay", "proposal", "threshold")), members(new, ("end", "delay", "proposal", "threshold")))):
        ctx.judge(r, q, "rest of the referendum kept", b is not None and strip(a) is strip(b), lambda: f"{k} changes", relevant=VALUE, eff=w)


def _try_remove(ctx):
    r = ctx.fn(PN, "try_remove_vote", opaque=("votes", "accumulate", "locked_if", "lock_periods"))
    if r is None:
        return
    who, ref, scope = (r.arg(k) for k in range(3))
    i = info_(ref)
    for p in r.runs.paths:
        q = PP(r, p)
        if not q.p.ok or tonode_(p.val).op == "variant:Err":
            continue
        if q.holds(mk("is", mk("st", "VotingOf", who), "Direct")) is not True:
            continue
        anyscope = q.holds(mk("is", scope, "Any"))
        acc = [e for e in q.eff if str(e.name).split("::")[-1] == "accumulate"]
        h = hook(q, "on_remove_vote")
        J = lambda t, ok, msg, e=None: ctx.judge(r, q, t, ok, msg, relevant=VALUE, eff=e)
        old = oldvote(q)
        J("has a vote", old is not None, "removed without a vote")
        if old is None or not J("hook told", len(h) == 1 and [strip(x) for x in h[0].args[:2]] == [strip(who), strip(ref)], "the hook is not told of the removal"):
            continue
        fin = strip(h[0].args[2])
        if q.holds(mk("is", mk("st", "ReferendumInfoOf", ref), "Some")) is False:
            J("hook's case", fin.op == "variant:None", lambda: f"told {show(fin)} of a cancelled referendum", h[0])
        elif q.holds(mk("is", i, "Ongoing")):
            J("only by its owner while ongoing", anyscope is True, "anyone may remove a vote while the referendum is ongoing")
            J("hook's case", fin.op == "variant:Some" and isF(strip(fin.args[0])), lambda: f"told {show(fin)} of an ongoing referendum", h[0])
            ws = [w for w in q.writes() if w.name == "ReferendumInfoOf"]
            if not J("tally stored", len(ws) == 1 and strip(ws[0].args[0]) is strip(ref), "the tally is not stored"):
                continue
            v = strip(ws[0].args[-1])
            new = strip(v.args[0]) if v.op == "variant:Ongoing" else None
            if new is None:
                J("tally stored", None, "record not understood")
                continue
            on = mk("vfld", i, "Ongoing", "0")
            keep(ctx, r, q, on, new, ws[0])
            o = contrib(q, old, mk("vfld", mk("st", "VotingOf", who), "Direct", "delegations"))
            if o is not None:
                shift(ctx, r, q, "removed", members(on, ("tally",))[0], members(new, ("tally",))[0], [(-1, o)], ws[0])
        elif q.holds(mk("is", i, "Finished")):
            J("hook's case", fin.op == "variant:Some" and isT(strip(fin.args[0])), lambda: f"told {show(fin)} of a finished referendum", h[0])
            end, appr = mk("vfld", i, "Finished", "end"), mk("vfld", i, "Finished", "approved")
            li = [(f.args[0], p2) for f, p2 in q.facts if f.op == "is" and f.args[1] == "Some" and called_(f.args[0], "locked_if")]
            if len(li) != 1:
                J("lock of the winning side", None if not ctx.pallet(PN).c.by_name.get("locked_if") else False, "released without asking whether the vote won")
                continue
            n, won = li[0]
            J("judged by the outcome", strip(n.args[1]) is strip(old) and strip(n.args[2]) is appr, lambda: f"asks {show(n)[:100]}")
            if won:
                per, amt = mk("fld", mk("payload", n), "0"), mk("fld", mk("payload", n), "1")
            else:
                rl = hook(q, "remove_vote_locks_if_needed")
                J("staking asked", len(rl) == 1 and [strip(x) for x in rl[0].args[:2]] == [strip(who), strip(ref)], "a losing vote is released without asking what must stay locked")
                got = [(f.args[0], p2) for f, p2 in q.facts if f.op == "is" and f.args[1] == "Some" and called_(f.args[0], "remove_vote_locks_if_needed")]
                std = q.holds(mk("is", old, "Standard"))
                if not got or not got[0][1] or std is False:
                    J("nothing more locked", not acc, "locked though nothing requires it")
                    continue
                per, amt = None, mk("payload", got[0][0])
            due = [(f, p2) for f, p2 in q.facts if f.op in ("lt", "le") and any(called("block_number")(strip(x)) for x in f.args)]
            if len(due) != 1:
                J("until the lock ends", False if not due else None, "released without comparing with the end of the lock")
                continue
            f, p2 = due[0]
            a, b = strip(f.args[0]), strip(f.args[1])
            early = p2 if f.op == "lt" and called("block_number")(a) else (not p2 if f.op == "le" and called("block_number")(b) else None)
            until = b if called("block_number")(a) else a
            if early is None:
                J("until the lock ends", False, lambda: f"compares {show(f)[:100]}")
                continue
            lps = find(until, lambda z: called_(z, "lock_periods"))
            if per is None:
                cv = mk("fld", mk("vfld", old, "Standard", "vote"), "conviction")
                per = next((z for z in lps if strip(z.args[1]) is cv), mk("none"))
            want = mk("add", end, mk("mul", mk("cfg", "VoteLockingPeriod"), per))
            J("length of the lock", eqn(until, want), lambda: f"until {show(until)[:140]}")
            if early:
                J("only by its owner while locked", anyscope is True, "anyone may remove a vote that is still locked")
                J("stays locked", len(acc) == 1 and eqn(acc[0].args[-2], want) and strip(acc[0].args[-1]) is strip(amt), lambda: f"keeps locked {[show(x)[:60] for x in acc[0].args[-2:]] if acc else 'nothing'}")
            else:
                J("nothing more locked", not acc, "locked beyond the end of the lock")


def _delegate(ctx):
    ops = ("votes", "lock_periods", "accumulate", "increase_upstream_delegation", "reduce_upstream_delegation")
    for name in ("try_delegate", "try_undelegate"):
        r = ctx.fn(PN, name, opaque=ops)
        if r is None:
            continue
        who = r.arg(0)
        cur = mk("st", "VotingOf", who)
        for p in r.runs.paths:
            q = PP(r, p)
            if not q.p.ok or tonode_(p.val).op == "variant:Err":
                continue
            J = lambda t, ok, msg, e=None: ctx.judge(r, q, t, ok, msg, relevant=VALUE, eff=e)
            by = lambda n: [e for e in q.eff if str(e.name).replace(".", "::").split("::")[-1] == n]
            inc, red, acc = by("increase_upstream_delegation"), by("reduce_upstream_delegation"), by("accumulate")
            vt = lambda n, c, b: called_(strip(n), "votes") and strip(strip(n).args[1]) is strip(c) and strip(strip(n).args[2]) is strip(b)
            f = lambda k: mk("vfld", cur, "Delegating", k)
            was = q.holds(mk("is", cur, "Delegating"))
            if name == "try_undelegate":
                J("only a delegator", was is True, "nothing was delegated")
            if was:
                J("taken from the former target", len(red) == 1 and strip(red[0].args[0]) is f("target") and vt(red[0].args[1], f("conviction"), f("balance")), "the former delegation stays counted")
                ok = False
                if len(acc) == 1:
                    lp = next((z for z in find(acc[0].args[-2], lambda z: called_(z, "lock_periods")) if strip(z.args[1]) is f("conviction")), mk("none"))
                    bn = next(iter(find(acc[0].args[-2], lambda z: called("block_number")(z))), mk("none"))
                    ok = eqn(acc[0].args[-2], mk("add", bn, mk("mul", mk("cfg", "VoteLockingPeriod"), lp))) and strip(acc[0].args[-1]) is f("balance")
                J("former delegation stays locked", ok, lambda: f"keeps locked {[show(x)[:80] for x in acc[0].args[-2:]] if acc else 'nothing'}")
            if name == "try_delegate":
                tgt_, conv, bal = r.arg(1), r.arg(2), r.arg(3)
                if was is False:
                    J("no votes of its own", any(called_(strip(x), "is_empty") and p2 for x, p2 in q.facts), "delegates while having votes")
                J("not to itself", any(x.op == "eq" and not p2 and {strip(y) for y in x.args} == {strip(who), strip(tgt_)} for x, p2 in q.facts), "an account may delegate to itself")
                good = any(x.op == "lt" and not p2 and called("free_balance")(strip(x.args[0])) and strip(x.args[1]) is strip(bal) or x.op == "le" and p2 and strip(x.args[0]) is strip(bal) and called("free_balance")(strip(x.args[1])) for x, p2 in q.facts)
                J("no more than the account has", good, "more may be delegated than the account has")
                J("given to the target", len(inc) == 1 and strip(inc[0].args[0]) is strip(tgt_) and vt(inc[0].args[1], conv, bal), "the delegation is not counted")
                ex = hook(q, "extend_lock")
                J("locked", len(ex) == 1 and strip(ex[0].args[1]) is strip(who) and strip(ex[0].args[2]) is strip(bal), "the delegated balance is not locked")
    for name, op in (("increase_upstream_delegation", "increase"), ("reduce_upstream_delegation", "reduce")):
        r = ctx.fn(PN, name, opaque=("increase", "reduce"))
        if r is None:
            continue
        for p in r.runs.paths:
            q = PP(r, p)
            cur = mk("st", "VotingOf", r.arg(0))
            if q.holds(mk("is", cur, "Direct")) is not True:
                continue
            es = [e for e in q.eff if str(e.name).split("::")[-1] in ("increase", "reduce")]
            ok = len(es) == 1 and str(es[0].name).split("::")[-1] == op and strip(es[0].args[-1]) is strip(r.arg(1))
            v = find(es[0].args[-2], lambda z: z.op == "vfld" and z.args[1] == "Standard") if es else set()
            ctx.judge(r, q, "counted where the target voted", ok and es[0].args[-2].op == "fld" and es[0].args[-2].args[1] == "aye" and bool(v), lambda: f"{[show(x)[:60] for e in es for x in e.args]}", relevant=VALUE)


def _lock(ctx):
    r = ctx.fn(PN, "update_lock", opaque=("locked_balance",))
    if r is None:
        return
    for p in r.runs.paths:
        q = PP(r, p)
        s, m = hook(q, "set_lock"), hook(q, "remove_lock")
        lb = lambda n: called_(strip(n), "locked_balance")
        z = [p2 for f, p2 in q.facts if f.op == "eq" and any(num(x) == 0 for x in f.args) and any(lb(x) for x in f.args)]
        if not z:
            ctx.judge(r, q, "lock needed", None, "case not known")
            continue
        if z[0]:
            ctx.judge(r, q, "lock removed", len(m) == 1 and not s and strip(m[0].args[1]) is strip(r.arg(0)), "the lock stays though nothing needs it", relevant=VALUE)
        else:
            ctx.judge(r, q, "lock set", len(s) == 1 and not m and strip(s[0].args[1]) is strip(r.arg(0)) and lb(s[0].args[2]), lambda: f"locks {show(s[0].args[2])[:80] if s else 'nothing'}", relevant=VALUE)


def _threshold(ctx):
    r, qs = paths(ctx, "approved", "VoteThreshold", opaque=("compare_rationals",))
    for q in qs:
        n, t, el = strip(q.node), r.arg(1), r.arg(2)
        sq = lambda x: mk("isqrt", x)
        sv, se = sq(mk("fld", t, "turnout")), sq(el)
        ay, ny = mk("fld", t, "ayes"), mk("fld", t, "nays")
        if isF(n):
            ctx.judge(r, q, "refused only without turnout", any(f.op == "eq" and p and sv in f.args for f, p in q.facts), "refused whatever the votes", relevant=VALUE)
            continue
        none = any(f.op == "eq" and not p and sv in f.args for f, p in q.facts)
        k = next((f.args[1] for f, p in q.facts if f.op == "is" and p and strip(f.args[0]) is r.arg(0)), None)
        want = {"SuperMajorityApprove": [ny, sv, ay, se], "SuperMajorityAgainst": [ny, se, ay, sv]}.get(k)
        if want is not None:
            ok = [strip(x) for x in n.args[1:]] == want if called_(n, "compare_rationals") else (False if isT(n) else None)
        elif k == "SimpleMajority":
            ok = n.op == "lt" and [strip(x) for x in n.args] == [ny, ay]
        else:
            ok = None
        ctx.judge(r, q, f"passes by {k}", ok, lambda: f"passes if {show(n)[:100]}", relevant=VALUE)
        if k != "SimpleMajority":
            ctx.judge(r, q, "some turnout", none, "decided without turnout", relevant=VALUE)
    # the comparison of two fractions by their continued fractions
    fs = [f for f in ctx.pallet(PN).c.by_name.get("compare_rationals", []) if "tests" not in f.mod.path]
    if len(fs) != 1:
        return
    r, qs = fnpaths(ctx, PN, "compare_rationals", fn=fs[0])
    if r is None:
        return
    # the four numbers the loop carries, told apart by the argument each starts from; what is left after one step
    roles, ls = None, r.runs.it.loops_seen
    if len(ls) == 1:
        start = {}
        for ini, ph in zip(ls[0]["init"], ls[0]["phi"]):
            for k in range(4):
                if strip(tonode_(ini)) is r.arg(k):
                    start[k] = strip(tonode_(ph))
        if len(start) == 4:
            n1, d1, n2, d2 = (start[k] for k in range(4))
            roles = {"left": mk("div", n1, d1), "right": mk("div", n2, d2)}
            slot = {k: next(x for x, ini in zip(ls[0]["slots"], ls[0]["init"]) if strip(tonode_(ini)) is r.arg(k)) for k in range(4)}
            want = [d2, mk("rem", n2, d2), d1, mk("rem", n1, d1)]
            for st in ls[0]["ends"]:
                got = [strip(tonode_(st.store[slot[k]])) for k in range(4)]
                ctx.judge(r, qs[0], "what is left is compared next", True if got == want else False if all(x.op in ("phi", "rem") for x in got) else None, lambda: f"goes on with {[show(x)[:40] for x in got]}", relevant=VALUE)
    for q in qs or []:
        n = strip(q.node)
        quo = [(f, p) for f, p in q.facts if f.op == "lt" and all(strip(x).op in ("div", "fdiv") for x in f.args)]
        rem = [(f, p) for f, p in q.facts if f.op == "eq" and any(num(x) == 0 for x in f.args) and any(strip(x).op in ("mod", "rem") for x in f.args)]
        if not quo or not (isT(n) or isF(n)):
            ctx.judge(r, q, "order of fractions", None, show(n)[:60])
            continue
        if roles is None:
            ctx.judge(r, q, "order of fractions", None, "loop not understood")
            continue
        left, right = roles["left"], roles["right"]
        if any({strip(x) for x in f.args} != {left, right} for f, p in quo) and left.op == strip(quo[0][0].args[0]).op:
            ctx.judge(r, q, "order of fractions", False, lambda: f"compares {show(quo[0][0])[:100]}", relevant=VALUE)
            continue
        # every state the path's facts allow (order of the quotients, which remainder is zero) must call for the answer given
        states, odd = [], 0
        for c in (-1, 0, 1):
            for z1 in (True, False):
                for z2 in (True, False):
                    states.append((c, z1, z2))
        for f, p in q.facts:
            a = [strip(x) for x in f.args if isinstance(x, Node)]
            if f.op in ("lt", "eq") and len(a) == 2 and set(a) == {left, right}:
                keep = (lambda s: s[0] == 0) if f.op == "eq" else (lambda s: s[0] < 0) if a == [left, right] else (lambda s: s[0] > 0)
            elif (f, p) in rem:
                x = next(y for y in a if y.op in ("mod", "rem"))
                if list(x.args[:2]) == list(left.args[:2]):
                    keep = lambda s: s[1]
                elif list(x.args[:2]) == list(right.args[:2]):
                    keep = lambda s: s[2]
                else:
                    odd += 1
                    continue
            else:
                odd += 1
                continue
            states = [s for s in states if keep(s) == p]
        right_ = lambda s: s[0] < 0 if s[0] else (False if s[2] else True if s[1] else None)
        ok = all(right_(s) == isT(n) for s in states)
        ctx.judge(r, q, "order of fractions", None if odd and not ok else ok, lambda: f"answers {show(n)} under {[('+' if p else '-') + show(f)[:50] for f, p in q.facts]}")


def _bake(ctx):
    r = ctx.fn(PN, "bake_referendum", opaque=("approved",))
    if r is not None:
        for p in r.runs.paths:
            q = PP(r, p)
            now, idx, st = (r.arg(k) for k in range(3))
            ap = [(f, p2) for f, p2 in q.facts if called_(strip(f), "approved")]
            J = lambda t, ok, msg, e=None: ctx.judge(r, q, t, ok, msg, relevant=VALUE, eff=e)
            if not J("by its threshold", bool(ap), "decided without the threshold"):
                continue
            n, ok = strip(ap[0][0]), ap[0][1]
            J("by its tally and the issuance", strip(n.args[1]) is mk("fld", st, "threshold") and strip(n.args[2]) is mk("fld", st, "tally") and called("total_issuance")(strip(n.args[3])), lambda: f"judged by {show(n)[:100]}")
            v = strip(tonode_(p.val))
            J("outcome reported", v is n or (isT(v) if ok else isF(v)), lambda: f"reports {show(v)[:60]}")
            s = [e for e in q.eff if str(e.name).replace(".", "::").split("::")[-1] == "schedule_named"]
            if not ok:
                J("nothing enacted", not s, "a refused proposal is scheduled")
                continue
            if not J("enacted", len(s) == 1, "an approved proposal is not scheduled"):
                continue
            a = s[0].args
            J("the proposal, as root", strip(a[-1]) is mk("fld", st, "proposal") and strip(a[-2]).op == "variant:Root", lambda: f"schedules {show(a[-1])[:50]} as {show(a[-2])[:50]}", s[0])
            w = strip(a[1])
            t = S(w.args[-1]) if called_(w, "At") or w.op == "variant:At" else None
            d = mk("fld", st, "delay")
            ok2 = None
            if t is not None:
                ok2 = t.op == "add" and any(strip(x) is strip(now) for x in t.args) and any(strip(x).op == "max" and {num(y) if num(y) is not None else y for y in strip(x).args} == {1, d} for x in t.args)
            J("after its delay", ok2, lambda: f"scheduled {show(w)[:100]}", s[0])
    r = ctx.fn(PN, "begin_block", opaque=("bake_referendum", "launch_next", "maturing_referenda_at_inner"))
    if r is not None:
        for p in r.runs.paths:
            q = PP(r, p)
            for w in q.writes():
                if w.name == "ReferendumInfoOf":
                    v = strip(w.args[-1])
                    if not v.op.startswith("variant:Finished"):
                        ctx.judge(r, q, "closed", False if v.op.startswith("variant:") else None, lambda: f"records {show(v)[:60]}", relevant=VALUE, eff=w)
                        continue
                    end, ap = members(v, ("end", "approved"))
                    ctx.judge(r, q, "closed with its outcome", strip(end) is strip(r.arg(0)) and called_(strip(ap), "bake_referendum") and strip(strip(ap).args[2]) is strip(w.args[0]), lambda: f"records {show(v)[:120]}", relevant=VALUE, eff=w)
            m = [e for e in q.eff if str(e.name).split("::")[-1] == "maturing_referenda_at_inner"]
            if m:
                ctx.judge(r, q, "referenda ending now", strip(m[0].args[0]) is strip(r.arg(0)), lambda: f"closes those of {show(m[0].args[0])[:50]}", relevant=VALUE, eff=m[0])
