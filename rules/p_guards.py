"""What must have been checked before a dispatchable succeeds: tables of conditions that follow from every success path."""
from rules.plib import *

RULE = ("Every success path of each named dispatchable is evaluated over the parsed source; each condition of the table must be entailed by the comparisons and lookups made on that path "
        "(structurally, or by linear Farkas reasoning for orderings).")
WHO = lambda q: q.who
POOLACC = ("m", "into_account_truncating", "_")


class G:
    """one success path with the queries the tables use"""

    def __init__(self, r, q):
        self.r, self.q = r, q
        self.who = q.who

    def a(self, k):
        return self.r.arg(k)

    def y(self, pat):
        return any(p and match(n, pat) for n, p in self.q.facts)

    def n(self, pat):
        return any(not p and match(n, pat) for n, p in self.q.facts)

    def eq(self, a, b):
        return any(p and n.op == "eq" and (match(n.args[0], a) and match(n.args[1], b) or match(n.args[1], a) and match(n.args[0], b)) for n, p in self.q.facts)

    def ne(self, a, b):
        return any(not p and n.op == "eq" and (match(n.args[0], a) and match(n.args[1], b) or match(n.args[1], a) and match(n.args[0], b)) for n, p in self.q.facts) or self.lt(a, b) or self.lt(b, a)

    def nodes(self, pat):
        if isinstance(pat, Node) and not has(pat, lambda x: x.op == "_"):
            return [pat]
        k = id(pat)
        out = []
        for n, p in self.q.facts:
            for x in find(n, lambda z: match(z, pat)):
                if x not in out:
                    out.append(x)
        return out

    def le(self, a, b, plus=0):
        """a + plus <= b"""
        if isinstance(a, int):
            A = [{None: a}] if a else [{}]
        else:
            A = [lin(x) for x in self.nodes(a)]
        B = [{None: b}] if isinstance(b, int) else [lin(x) for x in self.nodes(b)]
        return any(self.q.lle(ladd(x, {None: plus}) if plus else x, y) for x in A for y in B)

    def lt(self, a, b):
        return self.le(a, b, 1)

    def flag(self, state, name):
        return self.y(("m", "contains", state, lambda f: f.op == "fn" and str(f.args[0]).endswith("Tradability::" + name)))

    def some(self, x):
        return self.y(("is", x, "Some")) or self.n(("is", x, "None")) or self.y(lambda n: n.op == "stexists" and match(mk("st", *n.args), x))

    def none(self, x):
        return self.n(("is", x, "Some")) or self.y(("is", x, "None")) or self.n(lambda n: n.op == "stexists" and match(mk("st", *n.args), x))

    def ok(self, x):
        return self.y(("is", x, "Ok")) or self.n(("is", x, "Err"))

    def owner(self, collection, item, who=None):
        o = X("owner", collection, item)
        w = who or self.who
        return any(p and n.op == "eq" and any(match(x, o) for x in n.args) and any(x.op == "variant:Some" and x.args[0] is w for x in n.args) for n, p in self.q.facts) or \
            any(p and n.op == "eq" and any(match(x, PL(o)) for x in n.args) and any(x is w for x in n.args) for n, p in self.q.facts)


def run(ctx, table):
    for pn, fname, conds in table:
        one(ctx, pn, fname, conds)


@guarded
def one(ctx, pn, fname, conds):
    names = fname if isinstance(fname, tuple) else (fname,)
    r = None
    for f in names:
        try:
            p = ctx.pallet(pn)
        except KeyError:
            break
        if p.calls.get(f) or p.fn(f):
            r = ctx.fn(pn, f)
            break
    else:
        ctx.fn(pn, names[0])
    if r is None:
        return
    for q in r.paths:
        g = G(r, q)
        for label, cond, rel, msg in conds:
            check(ctx, r, q, g, label, cond, rel, msg)


@guarded
def check(ctx, r, q, g, label, cond, rel, msg):
    v = cond(g)
    relevant = [x for x in (rel(g) if callable(rel) else [g.a(k) if isinstance(k, int) else k for k in rel])]
    ctx.judge(r, q, label, v, msg, relevant=tuple(x for x in relevant if x is not None))


# ---------------------------------------------------------------------------------------------------- settlements
def side(n, pat):
    return n is None if pat is None else n is not None and match(n, pat)


def matchlin(d, spec):
    """linear form == sum of coefficient*pattern, one to one"""
    d = dict(d)
    for c, p in spec:
        for k in list(d):
            if k is not None and d[k] == c and match(k, p):
                del d[k]
                break
        else:
            return False
    return not d


def fmt(d):
    return " + ".join((f"{c}*" if c != 1 else "") + (show(k)[:110] if k is not None else "1") for k, c in d.items()) or "nothing"


def settle(ctx, r, q, g, specs, extra=(), label="settlement"):
    """the movements of the path are exactly the specified ones: (what, asset, source, destination, [(coefficient, amount pattern)]), None for minting and burning"""
    fl = q.flows()
    if any(f.amount is None for f in fl):
        ctx.undecided(r, label, "unmodelled currency movement")
        return
    q.allcertain(ctx, r)
    rest = list(fl)
    for what, asset, src, dst, amount in specs:
        amount = amount if isinstance(amount, list) else [(1, amount)]
        mine = [f for f in rest if side(f.asset, asset) and side(f.src, src) and side(f.dst, dst)]
        rest = [f for f in rest if f not in mine]
        if not mine:
            zero = any(q.lle(lin(x), {}) for x in g.nodes(amount[0][1])) if len(amount) == 1 else False
            ctx.judge(r, q, what, zero, f"no movement for: {what}", relevant=())
            continue
        d = {}
        for f in mine:
            d = ladd(d, lin(f.amount))
        ctx.judge(r, q, what, matchlin(d, amount), lambda: f"{what}: the amount moved is {fmt(d)[:300]}", eff=mine[0].eff)
    for f in rest:
        if any(x(f) for x in extra):
            continue
        ctx.judge(r, q, label, False, lambda: f"unexpected {f.how} of {show(f.amount)[:80]} {show(f.asset)[:60] if f.asset else 'native'} from {show(f.src)[:60] if f.src else 'nothing'} to "
                  f"{show(f.dst)[:60] if f.dst else 'nothing'}", eff=f.eff)


def wrote(ctx, r, q, g, item, keys, value, label, msg, removed=False, only=True):
    """the last write of an entry has the specified value (pattern); value None: removed"""
    ws = [e for e in q.writes(item) if len(e.args) - 1 == len(keys) and all(match(a, k) for a, k in zip(e.args, keys))]
    if not ws:
        ctx.judge(r, q, label, False, msg + " (not written)")
        return None
    v = ws[-1].args[-1]
    ok = v.op == "removed" if value is None else v.op != "removed" and match(v, value)
    ctx.judge(r, q, label, ok, lambda: f"{msg}: {item} becomes {show(v)[:200]}", eff=ws[-1])
    return ws[-1]


def LIN(*spec):
    """pattern: node whose linear form is the sum of coefficient*pattern"""
    return lambda n: isinstance(n, Node) and matchlin(lin(n), list(spec))


def REC(**fs):
    """pattern: struct with these fields"""
    def ok(n):
        f = fields(n)
        return set(fs) <= set(f) and all(match(f[k], p) for k, p in fs.items())
    return ok
