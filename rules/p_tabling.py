"""Which proposals democracy puts to the vote, and what becomes of their deposits."""
from rules.p_small import *
from rules.p_answers import answer, canon, equal, known, plainly, some
from rules.p_evmfee import called
from vt.terms import const

RULE = ("Every path that tables a proposal is evaluated to the referendum it stores, the queue it leaves behind and the deposits it gives back; each is compared with the "
        "waiting proposal, the order of turns and the periods configured.")
VALUE = ("free_balance",)
PN = "democracy"


def writes(q, name):
    return [e for e in q.eff if e.kind == "write" and str(e.name) == name]


def fields(n):
    """the fields of a struct node"""
    if not n.op.startswith("struct:"):
        return None
    ns = n.op.split(":")[-1].split(",")
    return dict(zip(ns, n.args)) if len(ns) == len(n.args) else None


def stored(q):
    """(index, fields of the status) of the referendum stored on the path"""
    out = []
    for e in writes(q, "ReferendumInfoOf"):
        a = [x for x in e.args if hasattr(x, "op")]
        if len(a) == 2 and a[1].op == "variant:Ongoing" and fields(a[1].args[0]) is not None:
            out.append((strip(a[0]), fields(a[1].args[0])))
        else:
            out.append((None, None))
    return out


def same(a, b):
    a, b = strip(a), strip(b)
    if a is b:
        return True
    if a.op == "sat":
        a = a.args[0]
    if b.op == "sat":
        b = b.args[0]
    return equal(a, b)


def referendum(ctx, r, q, what, proposal, threshold, end, delay):
    got = stored(q)
    if len(got) != 1 or got[0][1] is None:
        ctx.judge(r, q, f"{what}: a referendum is stored", False if not got and q.p.ok else None, "what is tabled is not put to the vote once", relevant=VALUE)
        return
    key, fs = got[0]
    count = mk("st", "ReferendumCount")
    ctx.judge(r, q, f"{what}: its index is the next one", same(key, count), lambda: f"stored under {show(key)[:100]}", relevant=VALUE)
    cs = [e.args[-1] for e in writes(q, "ReferendumCount")]
    ctx.judge(r, q, f"{what}: the index is used up", len(cs) == 1 and same(cs[0], mk("add", const(1), count)), "the count of referenda does not grow by one", relevant=VALUE)
    for f, want in (("proposal", proposal), ("threshold", threshold), ("end", end), ("delay", delay)):
        if want is None or f not in fs:
            continue
        ok = want(strip(fs[f])) if callable(want) else same(fs[f], want)
        ctx.judge(r, q, f"{what}: its {f}", ok, lambda f=f: f"it is {show(fs[f])[:140]}", relevant=VALUE)
    t = strip(fs["tally"]) if "tally" in fs else None
    if t is not None:
        g = fields(t)
        ok = called("default")(t) or (t.op in ("default",) or None)
        if g:
            ok = all(num(x) == 0 for x in g.values()) if all(num(x) is not None for x in g.values()) else None
        ctx.judge(r, q, f"{what}: nobody has voted yet", ok, lambda: f"the tally starts as {show(t)[:100]}", relevant=VALUE)


def public(q):
    """the queue as it is left and what was taken out of it"""
    ws = writes(q, "PublicProps")
    return ws[0].args[-1] if len(ws) == 1 else None


def later(r, k, period):
    return mk("add", r.arg(k), mk("cfg", period))


def external(ctx):
    r, qs = fnpaths(ctx, PN, "launch_external")
    nx = mk("st", "NextExternal")
    for q in qs:
        there = known(q, some(nx))
        if q.node.op == "variant:Err":
            ctx.judge(r, q, "a waiting external proposal is tabled", there is False or None if there is not True else False, "a waiting external proposal is not tabled", relevant=VALUE)
            continue
        if there is not True:
            ctx.judge(r, q, "only a waiting external proposal is tabled", False if there is False else None, "tabled without one waiting", relevant=VALUE)
            continue
        p = mk("payload", nx)
        referendum(ctx, r, q, "an external proposal", mk("fld", p, "0"), mk("fld", p, "1"), later(r, 0, "VotingPeriod"), mk("cfg", "EnactmentPeriod"))
        ws = writes(q, "NextExternal")
        ctx.judge(r, q, "an external proposal is tabled once", len(ws) == 1 and ws[0].args[-1].op == "removed" if ws else False, "it keeps waiting", relevant=VALUE)
        ts = writes(q, "LastTabledWasExternal")
        ctx.judge(r, q, "the turn is remembered", bool(ts) and isT(ts[-1].args[-1]) if not ts or isT(ts[-1].args[-1]) or isF(ts[-1].args[-1]) else None, "the next turn is not the public's", relevant=VALUE)
        metadata(ctx, r, q, "variant:External")


def metadata(ctx, r, q, owner):
    ms = [(strip(e.args[0]), e.args[-1]) for e in writes(q, "MetadataOf") if hasattr(e.args[0], "op")]
    old = [f for f, p in q.facts if p and f.op == "is" and f.args[0].op == "st" and f.args[0].args[0] == "MetadataOf" and strip(f.args[0].args[1]).op == owner]
    if not old:
        seen = ms or any(find(f, lambda z: z.op == "st" and z.args[0] == "MetadataOf") for f, _ in q.facts)
        odd = any(e.kind == "call" and "metadata" in str(e.name).lower() for e in q.eff)
        ctx.judge(r, q, "its metadata is looked for", True if seen else None if odd else False, "the metadata of what is tabled gets lost", relevant=VALUE)
        return
    new = [v for k, v in ms if k.op == "variant:Referendum" and strip(k.args[0]) is mk("st", "ReferendumCount")]
    ctx.judge(r, q, "its metadata goes along", False if not new else True if strip(new[-1]) is mk("payload", old[0].args[0]) or canon(new[-1]) is canon(mk("payload", old[0].args[0])) else None, "the metadata of what is tabled gets lost", relevant=VALUE)


def propose(ctx):
    r, qs = fnpaths(ctx, PN, "launch_public")
    for q in qs:
        none = [p for f, p in q.facts if f.op == "is" and f.args[1] == "Some" and find(f.args[0], lambda z: z is mk("st", "PublicProps")) and f.args[0].op == "m"]
        if q.node.op == "variant:Err":
            ctx.judge(r, q, "a waiting public proposal is tabled", none == [False] or None if True not in none else False, "a waiting public proposal is not tabled", relevant=VALUE)
            continue
        left = public(q)
        pick = [f.args[0] for f, p in q.facts if p and f.op == "is" and f.args[0].op == "m" and find(f.args[0], lambda z: z is mk("st", "PublicProps"))]
        if left is None:
            ctx.judge(r, q, "a public proposal is tabled once", False if not writes(q, "PublicProps") else None, "it stays in the queue", relevant=VALUE)
            continue
        gone = left.op in ("mut",) and str(left.args[0]) in ("swap_remove", "remove") or left.op.startswith("mut") and str(left.args[0]) in ("swap_remove", "remove")
        if not gone or len(pick) != 1:
            ctx.judge(r, q, "a public proposal is tabled once", None, f"the queue is left as {show(left)[:100]}", relevant=VALUE)
            continue
        at = strip(left.args[2])
        meth = str(pick[0].args[0])
        won = strip(at.args[0]) if at.op == "fld" and at.args[1] == "0" else None
        ctx.judge(r, q, "the best backed proposal is tabled", True if won is not None and won.op == "payload" and won.args[0] is pick[0] and meth == "max_by_key" else False if meth in ("min_by_key", "next", "last") or at.op == "const" else None,
                  lambda: f"chosen by {meth}, taken at {show(at)[:80]}", relevant=VALUE)
        out = mk("ret", left.args[0], *left.args[1:])
        prop = mk("fld", out, "0")
        deps = [f.args[0] for f, p in q.facts if p and f.op == "is" and f.args[0].op == "st" and f.args[0].args[0] == "DepositOf"]
        if not deps:
            continue
        rec = deps[0]
        ctx.judge(r, q, "the deposits given back are the proposal's", strip(rec.args[1]) is prop or (False if plainly(rec.args[1]) else None), lambda: f"those of {show(rec.args[1])[:100]}", relevant=VALUE)
        ds = writes(q, "DepositOf")
        ctx.judge(r, q, "deposits are given back once", len(ds) == 1 and ds[0].args[-1].op == "removed" if ds else False, "the record of the deposits stays", relevant=VALUE)
        un = [e for e in q.eff if e.kind == "ext" and str(e.name).endswith("Currency.unreserve")]
        if len(un) != 1:
            ctx.judge(r, q, "everyone who seconded gets the deposit back", False if not un and not [e for e in q.eff if e.kind == "ext" and "unreserve" in str(e.name)] else None, "nothing is given back", relevant=VALUE)
        else:
            who, amt = strip(un[0].args[-2]), strip(un[0].args[-1])
            d = mk("payload", rec)
            okw = True if who.op == "idx" and strip(who.args[0]) is mk("fld", d, "0") else False if who.op == "idx" and find(who.args[0], lambda z: z.op in ("seqop:take", "seqop:skip")) or who.op in ("param", "const") else None
            ctx.judge(r, q, "everyone who seconded gets the deposit back", okw, lambda: f"given to {show(who)[:100]}", relevant=VALUE)
            ctx.judge(r, q, "the deposit given back is the one taken", amt is mk("fld", d, "1") or (False if plainly(amt) or amt.op in ("div", "mul", "add", "sub", "satsub", "sat") else None), lambda: f"given back {show(amt)[:100]}", relevant=VALUE)
        referendum(ctx, r, q, "a public proposal", mk("fld", out, "1"), lambda n: n.op == "variant:SuperMajorityApprove" if n.op.startswith("variant:") else None,
                   later(r, 0, "VotingPeriod"), mk("cfg", "EnactmentPeriod"))
        metadata(ctx, r, q, "variant:Proposal")
    r, qs = fnpaths(ctx, PN, "backing_for")
    for q in qs:
        rec = mk("st", "DepositOf", r.arg(0))
        n = q.node
        if n.op == "variant:None":
            ctx.judge(r, q, "a proposal without deposits has no backing", known(q, some(rec)) is False or None, "no backing", relevant=VALUE)
            continue
        n = n.args[0] if n.op in ("part:Option", "variant:Some") else n
        d = mk("payload", rec)
        ctx.judge(r, q, "a proposal is backed by the deposit of everyone who seconded it", same(n, mk("mul", mk("fld", d, "1"), mk("len", mk("fld", d, "0")))), lambda: f"its backing is {show(n)[:120]}", relevant=VALUE)


def turns(ctx):
    r, qs = fnpaths(ctx, PN, "launch_next")
    nx, last = mk("st", "NextExternal"), mk("st", "LastTabledWasExternal")
    seen = set()
    for q in qs:
        turn = known(q, last)
        pub = [p for f, p in q.facts if f.op == "is" and f.args[1] == "Some" and f.args[0].op == "m" and find(f.args[0], lambda z: z is mk("st", "PublicProps"))]
        ext = known(q, some(nx))
        did = "public" if writes(q, "PublicProps") else "external" if stored(q) and ext else None
        if did is None:
            if q.node.op == "variant:Ok":
                ctx.judge(r, q, "turns: something is tabled", None, "nothing seems to be tabled", relevant=VALUE)
            else:
                ok = False if True in pub or ext is True else True if pub == [False] and ext is False else False if len(pub) + (ext is not None) == 1 and turn is not None else None
                ctx.judge(r, q, "turns: nothing is tabled only when nothing waits", ok, "a waiting proposal is passed over", relevant=VALUE)
            continue
        seen.add((turn, did))
        both = public(q) is not None and ext is True and len(stored(q)) > 1
        ctx.judge(r, q, "turns: one proposal at a time", not both, "both are tabled", relevant=VALUE)
        if turn is None:
            ctx.judge(r, q, "turns: they alternate", False if not any(find(f, lambda z: z is last) for f, _ in q.facts) else None, "whose turn it is makes no difference", relevant=VALUE)
            continue
        if did == "external":
            ok = True if turn is False else pub == [False] or (False if not pub else None)
        else:
            ok = True if turn is True else ext is False or (False if ext is None else None)
        ctx.judge(r, q, "turns: they alternate", ok, f"{did} is tabled out of turn while the other may be waiting", relevant=VALUE)
    if qs and not any(t is None for t, _ in seen):
        for turn in (True, False):
            for did in ("public", "external"):
                q = next((x for x in qs if known(x, last) is turn), qs[0])
                ctx.judge(r, q, f"turns: whoever waits is tabled ({did}, {'after' if turn else 'not after'} an external one)", (turn, did) in seen, f"a waiting {did} proposal is never tabled then", relevant=VALUE)
    r, qs = fnpaths(ctx, PN, "begin_block", opaque=("launch_next", "bake_referendum", "maturing_referenda_at_inner"))
    for q in qs:
        ls = [e for e in q.eff if e.kind == "call" and str(e.name).endswith("launch_next")] or find(q.node, called("launch_next")) or [f for f, _ in q.facts if find(f, called("launch_next"))]
        due = [p for f, p in q.facts if f.op == "eq" and any(num(a) == 0 for a in f.args) and any(a.op in ("mod", "rem") and a.args[-1] is mk("cfg", "LaunchPeriod") and strip(a.args[0]) is r.arg(0) for a in f.args)]
        if due == [True]:
            ctx.judge(r, q, "a proposal is tabled every launch period", bool(ls) or None, "none is", relevant=VALUE)
        elif ls:
            ctx.judge(r, q, "a proposal is tabled only at a launch period", False if due == [False] or not due and any(f.op == "eq" and any(a.op in ("mod", "rem") and a.args[-1].op == "cfg" for a in f.args) for f, _ in q.facts) else None, "one is tabled in between", relevant=VALUE)


def injected(ctx):
    r, qs = fnpaths(ctx, PN, "inject_referendum")
    for q in qs:
        referendum(ctx, r, q, "what is put to the vote", r.arg(1), r.arg(2), r.arg(0), r.arg(3))
        ctx.judge(r, q, "the referendum made is answered", same(q.node, mk("st", "ReferendumCount")), lambda: f"answers {show(q.node)[:80]}", relevant=VALUE)


def tabling(pid, tier):
    ctx = Ctx(pid, tier)
    for g in (external, propose, turns, injected):
        guarded(g)(ctx)
    return ctx.done(RULE)
