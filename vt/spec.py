"""Specification checker: compares the value graph of a function's results with declared formulas, rounding
directions, accuracy, guards and totality."""
from .terms import *
from . import prove as P
from . import ratfun as R
from . import lin
from .ratfun import Poly
from fractions import Fraction as Fr
from .interp import Interp, St, tonode_, Budget
from .ratfun import rf, RF, Poly, Split, Undecided, TooBig, INF

SCALE = {"Permill": 10**6, "Perbill": 10**9, "Perquintill": 10**18, "Percent": 100, "FixedU128": 10**18,
         "Fraction": 2**127, "U1F127": 2**127, "U32F96": 2**96}


class Finding:
    def __init__(self, rule, fn, file, line, msg, key):
        self.rule, self.fn, self.file, self.line, self.msg, self.key = rule, fn, file, line, msg, key

    def __repr__(self):
        return f"[{self.rule}] {self.fn} ({self.file}:{self.line}): {self.msg}"


class EnvV:
    """attribute access to a symbolic argument inside formulas; numeric leaves become rational functions in natural
    units (fixed-point and per-thing types are scaled)"""

    def __init__(self, val, ck):
        object.__setattr__(self, "_v", val)
        object.__setattr__(self, "_ck", ck)

    def __getattr__(self, k):
        v = self._v
        if isinstance(v, Struct):
            if k.startswith("f") and k[1:].isdigit() and k not in v.f:
                k = k[1:]
            return self._ck.wrap(v.f[k])
        if isinstance(v, Part):
            p = self._ck.present(v)
            if p is False:
                return NoneV()
            return getattr(EnvV(v.v, self._ck), k)
        if isinstance(v, Tup):
            return self._ck.wrap(v.xs[int(k[1:])])
        if isinstance(v, Num):
            return self._ck.wrap(Num(mk("fld", v.n, k), None))
        raise AttributeError(k)


class NX:
    """graph expressions in formulas (exact semantics)"""

    def __init__(self, n):
        self.n = n if isinstance(n, Node) else const(n)

    def __add__(s, o):
        return NX(add(s.n, nx(o)))

    __radd__ = __add__

    def __sub__(s, o):
        return NX(sub(s.n, nx(o)))

    def __mul__(s, o):
        return NX(mul(s.n, nx(o)))

    __rmul__ = __mul__

    def __truediv__(s, o):
        return NX(div(s.n, nx(o)))

    def __getattr__(s, k):
        return NX(mk("fld", s.n, k))

    def __getitem__(s, i):
        return NX(mk("idx", s.n, nx(i)))


def nx(x):
    return x.n if isinstance(x, NX) else x if isinstance(x, Node) else const(x)


def cdivx(a, b):
    """a / b rounded up"""
    return NX(cdiv(nx(a), nx(b)))


def fncall(qual, *args):
    """the result of a summarised (separately specified) function"""
    return NX(mk("sum", qual, *[nx(a) for a in args]))


def fnsome(qual, *args):
    return NX(mk("payload", fncall(qual, *args).n))


def seqmap(dom, elem, *filt):
    """{ elem(x, i) | i in dom, filt(i) }"""
    i = mk("bv", "i?")
    x = NX(mk("idx", nx(dom), i))
    e = nx(elem(x, NX(i)))
    fs = [f(NX(i)) for f in filt]
    k = max([bvlevel(e)] + [bvlevel(c) for c in fs])
    B = bvi(k)
    e = subst(e, {i: B})
    return NX(mkb(k, "seq", nx(dom), e, *[subst(c, {i: B}) for c in fs]))


def ite(c, a, b):
    ws = [mk("when", c, nx(a)), mk("when", nnot(c), nx(b))]
    return NX(mk("gcases", *sorted(ws, key=lambda n: n.id)))


class NoneV:
    """an absent optional argument"""


def opt(x, f, default=0):
    """f applied to an optional argument, or the default when it is absent on this path"""
    return rf(default) if isinstance(x, NoneV) else rf(f(x))


class Check:
    """one function's evaluation against its specs"""

    def __init__(self, fs, fn, results, args, it):
        self.fs, self.fn, self.results, self.args, self.it = fs, fn, results, args, it

    def present(self, part):
        """is the Option argument present on this path?  True/False/None"""
        r = True
        for c, p in part.conds:
            d = None
            for f, fp in self.ctx.facts:
                if f is c:
                    d = fp == p
            if d is None:
                raise Split(c)
            if not d:
                return False
        return r

    def wrap(self, v):
        if isinstance(v, Part):
            if self.present(v) is False:
                return NoneV()
            return self.wrap(v.v)
        if isinstance(v, Num):
            e = self.ctx.q(v.n).E
            k = v.ty[0] if v.ty else None
            if k in SCALE:
                e = e / SCALE[k]
            return e
        return EnvV(v, self)


def select(v, path):
    """component of a result value"""
    if path:
        for k in path.split("."):
            if isinstance(v, (Var, Part)):
                u = unwrap_ok(v)
                v = u[0] if u else v
            if isinstance(v, Struct) and k in v.f:
                v = v.f[k]
            elif isinstance(v, Tup) and k.isdigit():
                v = v.xs[int(k)]
            elif isinstance(v, Num):
                v = Num(mk("fld", v.n, k), None)
            elif isinstance(v, ListV) and k.isdigit():
                v = v.xs[int(k)]
            else:
                return None
    return v


def unwrap_ok(v):
    """(payload, conds) of an Ok/Some value; None for an error exit"""
    conds = []
    while True:
        if isinstance(v, Var) and v.name in ("Ok", "Some") and len(v.xs) == 1:
            v = v.xs[0]
        elif isinstance(v, Var) and v.name in ("Err", "None"):
            return None
        elif isinstance(v, Part):
            conds += v.conds
            v = v.v
        else:
            return v, conds


class FnSpec:
    """spec of one function.

    params : names for the arguments, by position
    out    : {component: Out}
    requires: list of (text, lambda e: RF) - RF >= 0 must hold on every successful exit that is not degenerate
    allows : list of (text, lambda e: RF) - conditions RF >= 0 whose failure may reject an input
    """

    def __init__(self, qual, params, out, requires=(), allows=(), reject="closed", summaries=(), lets=None, mags=None,
                 default_mag=2.0**80, tymap=None, degenerate=True, mono=None, assume=(), consts=None, only_if=None, budget=4000, pick=None, domain=None):
        self.qual, self.params, self.out = qual, params, out
        self.requires, self.allows, self.reject = requires, allows, reject
        self.summaries = set(summaries)
        self.lets = lets or {}
        self.mags = mags or {}
        self.default_mag = default_mag
        self.tymap = tymap
        self.degenerate = degenerate
        self.assume = assume
        self.only_if = only_if
        self.budget = budget
        self.pick = pick
        self.domain = domain  # names -> facts (node, polarity) of arguments that must be accepted


class Out:
    """formula: lambda e -> RF (natural units); rnd: 'down' (never above), 'up' (never below), 'near', 'exact';
    acc: maximal accumulated rounding, in units of the last place at the reference magnitudes;
    variant: expected enum constructor around the number"""

    def __init__(self, formula, rnd, acc=2.0, variant=None, when=None, cap=None, leg=None, signed=False, last=None):
        self.formula, self.rnd, self.acc, self.variant, self.when, self.cap = formula, rnd, acc, variant, when, cap
        self.leg = leg
        self.signed = signed
        self.last = last   # 'up': the final division must not be rounded down


class Env:
    def __init__(self, ck, names, vals, lets):
        self._ck, self._n, self._lets = ck, dict(zip(names, vals)), lets

    def __getattr__(self, k):
        if k in self._n:
            return self._ck.wrap(self._n[k])
        if k in self._lets:
            return self._lets[k](self)
        if k in self._ck.legs:
            return self._ck.legs[k]
        raise AttributeError(k)

    def raw(self, k):
        return self._n[k]

    def nx(self, k):
        return NX(tonode_(self._n[k]))

    def call(self, qual, *nodes, ty=None):
        n = mk("sum", qual, *nodes)
        return self._ck.ctx.q(n).E

    def node(self, n, scale=1):
        return self._ck.ctx.q(n).E / scale

    def ctx(self):
        return self._ck.ctx

    def holds(self, c):
        """is the condition (a graph node) a fact of this path?"""
        pol = True
        while c.op == "not":
            c, pol = c.args[0], not pol
        for f, p in self._ck.st.facts:
            if f is c:
                return p == pol
        raise Split(c)

    def isv(self, name, variant):
        """the enum argument is known to be this variant on this path"""
        n = tonode_(self._n[name])
        for f, p in self._ck.st.facts:
            if f.op == "is" and f.args[0] is n:
                if p:
                    return f.args[1] == variant
                if f.args[1] == variant:
                    return False
        return None

    def le(self, a, b):
        """a <= b on this path?  True / False / None"""
        ck = self._ck
        cs = ge0s(ck.ctx, ck.st)
        d = rf(b) - rf(a)
        if implied(d, cs):
            return True
        if implied(-d, cs):
            return False
        self.order(a, b)

    def lt(self, a, b):
        """a < b on this path?"""
        ck = self._ck
        d = rf(b) - rf(a)
        for c, p in ck.st.facts:
            if c.op == "rfge0" and not p and implied(d, [-RFC[c.id]]):
                return True
            if c.op == "lt":
                try:
                    k = ck.ctx.cond(c, p)
                except (Undecided, TooBig, Split):
                    continue
                if k[0] == "gt" or k[0] == "ge0" and p:
                    x = k[1] if k[0] == "gt" else RF(k[1]) + 1
                    if implied(d, [x]):
                        return True
        if implied(-d, ge0s(ck.ctx, ck.st)):
            return False
        self.order(b, a)

    def pos(self, name):
        """max(name, 1) of an integer argument"""
        n = tonode_(self._n[name])
        return rf(1) if self.holds(eq(ZERO, n)) else rf(getattr(self, name))

    def order(self, a, b):
        """split the path on a <= b"""
        d = rf(b) - rf(a)
        n = mk("rfge0", repr(d))
        RFC[n.id] = d
        raise Split(n)

    def min(self, a, b):
        r = self.le(a, b)
        if r is None:
            self.order(a, b)
        return rf(a) if r else rf(b)

    def max(self, a, b):
        r = self.le(a, b)
        if r is None:
            self.order(a, b)
        return rf(b) if r else rf(a)


def run_fn(world, fs, model=None):
    crate = world.crate(fs.qual.split("::")[0] if not getattr(fs, "crate", None) else fs.crate)
    fn = crate.fn(fs.qual) or crate.fn(fs.qual.split("::", 1)[1])
    if fs.pick is not None:
        c = [f for f in crate.fns if (f.qual == fs.qual or f.qual.split("::")[1:2] == fs.qual.split("::")[1:2] and f.qual.split("::")[-2:] == fs.qual.split("::")[-2:]) and fs.pick(f)]
        fn = c[0] if len(c) == 1 else None
    if fn is None:
        return None
    it = Interp(world, model=model, max_states=fs.budget)
    it.merge_errs = True
    it.summaries = fs.summaries
    fr = it.frame_for(fn, None, fs.tymap)
    args = []
    names = []
    for i, (p, t) in enumerate(fn.params):
        nm = fs.params[i] if i < len(fs.params) else f"arg{i}"
        names.append(nm)
        args.append(it.sym(mk("var", nm), it.T(t, fr)))
    st = St()
    for a in fs.assume:
        for node, pol in a(dict(zip(names, args))):
            st = it.assume(st, node, pol)
    res = it.run(fn, args=args, st=st, tymap=fs.tymap)
    return fn, it, names, args, res


def splits(facts):
    """the first unresolved disjunction among the facts"""
    for f, p in facts:
        if p and f.op == "or" or (not p and f.op == "and"):
            a, b = f.args
            d = [None, None]
            for i, x in enumerate((a, b)):
                y, pol = x, p
                while y.op == "not":
                    y, pol = y.args[0], not pol
                for g, gp in facts:
                    if g is y and gp == pol:
                        d[i] = True
            if d == [None, None]:
                return (a, b, p)
    return None


class SpecRun:
    def __init__(self, world, prop):
        self.world, self.prop = world, prop
        self.findings = []
        self.undecided = []
        self.stats = {"functions": 0, "exits": 0, "obligations": 0, "proved": 0, "undecided": 0, "missing": 0}

    def finding(self, rule, fn, msg, key=None, line=None):
        self.findings.append(Finding(rule, fn.qual, fn.mod.file, line or fn.item.get("line", 0), msg, key or f"{rule}|{fn.qual}"))

    def check(self, fs):
        try:
            r = run_fn(self.world, fs)
        except Budget as e:
            self.undecided.append(f"{fs.qual}: {e}")
            self.stats["undecided"] += 1
            return
        if r is None:
            self.stats["missing"] += 1
            self.undecided.append(f"{fs.qual}: function not found")
            return
        fn, it, names, args, res = r
        self.stats["functions"] += 1
        oks = []
        for st, v in res:
            u = unwrap_ok(it.force(v, st) if not isinstance(v, (Part, Var)) else v)
            if u is None:
                continue
            v, conds = u
            s2 = it.assume_all(st, conds)
            if s2 is None:
                continue
            oks.append((s2, v, conds))
        self.stats["exits"] += len(oks)
        ctx = R.Ctx(mag={}, default_mag=fs.default_mag)
        ck = Check(fs, fn, res, args, it)
        ck.ctx = ctx
        ck.legs = {}
        env = Env(ck, names, args, fs.lets)
        for path, m in fs.mags.items():
            if path.startswith("sum:"):
                ctx.mags[path] = float(m)
                continue
            # magnitude of an argument leaf
            parts = path.split(".")
            v = dict(zip(names, args)).get(parts[0])
            if v is None:
                continue
            for k in parts[1:]:
                if isinstance(v, Part):
                    v = v.v
                v = v.xs[int(k.lstrip('f'))] if isinstance(v, Tup) else v.f[k]
            if isinstance(v, Part):
                v = v.v
            ctx.mags[v.n] = float(m)
        self.env, self.ck = env, ck
        nontrivial = 0
        self.cases = set()
        for st, v, conds in oks:
            nontrivial += self.exit(fs, fn, it, env, ck, st, v, 0)
        self.reachable(fs, fn, ck, oks, res)
        self.allcases(fs, fn)
        if (fs.reject == "closed" or fs.domain is not None) and oks:
            self.rejects(fs, fn, it, env, ck, oks)
        return oks

    def allcases(self, fs, fn):
        """every case of the specification has a successful exit"""
        if not self.cases:
            return
        for comp, outs in fs.out.items():
            if isinstance(outs, list):
                for i, o in enumerate(outs):
                    if (comp, i) not in self.cases:
                        self.finding("unreachable", fn, f"never succeeds in case {i + 1} of {len(outs)} for {comp or 'the result'}", f"unreachable|{fs.qual}|{comp}|{i}")

    def reachable(self, fs, fn, ck, oks, res):
        """some successful exit must be open to ordinary (non-zero, unequal) inputs"""
        if not oks:
            if res:
                self.stats["obligations"] += 1
                self.finding("unreachable", fn, "never succeeds", f"unreachable|{fs.qual}")
            return
        self.stats["obligations"] += 1
        why = None
        for st, v, conds in oks:
            try:
                if infeasible(ck.ctx, st):
                    continue
                cs = ge0s(ck.ctx, st)
            except (Undecided, TooBig, Split, AttributeError, KeyError):
                cs = []
            b = [c for c in cs if not c.iszero() and c.d.nonneg() and c.n.neg().nonneg() and not c.isc()]
            if not b:
                self.stats["proved"] += 1
                return
            why = why or b[0]
        self.finding("unreachable", fn, "can only succeed in degenerate cases" + (f": every successful path needs conditions like {why!r} >= 0" if why is not None else "")[:300], f"unreachable|{fs.qual}")

    # -- one successful exit ------------------------------------------------------------------
    def exit(self, fs, fn, it, env, ck, st, v, depth):
        ctx = ck.ctx
        if infeasible(ctx, st):
            return 0
        ctx.set_facts(st.facts)
        snap, nund = dict(self.stats), len(self.undecided)
        try:
            bad = self.exit_once(fs, fn, env, ck, st, v)
        except Split as s:
            self.stats = snap
            del self.undecided[nund:]
            if depth > 16:
                self.undecided.append(f"{fs.qual}: too many case splits")
                return 0
            n = 0
            for pol in (True, False):
                s2 = it.assume(st, s.node, pol)
                if s2 is not None and not infeasible(ctx, s2):
                    n += self.exit(fs, fn, it, env, ck, s2, v, depth + 1)
            return n
        except (Undecided, TooBig) as e:
            self.undecided.append(f"{fs.qual}: {e}")
            self.stats["undecided"] += 1
            return 0
        if bad:
            # mismatch: resolve pending disjunctions before reporting
            sp = splits(st.facts) if depth < 9 else None
            if sp is not None:
                self.stats = snap
                a, b, p = sp
                n = 0
                s1 = it.assume(st, a, p)
                if s1 is not None and not infeasible(ctx, s1):
                    n += self.exit(fs, fn, it, env, ck, s1, v, depth + 1)
                s2 = it.assume(st, a, not p)
                s2 = it.assume(s2, b, p) if s2 is not None else None
                if s2 is not None and not infeasible(ctx, s2):
                    n += self.exit(fs, fn, it, env, ck, s2, v, depth + 1)
                return n
            for rule, msg, key in bad:
                self.finding(rule, fn, msg + self.pathtext(st), key)
            return 1
        return 1

    def pathtext(self, st):
        fs = [("" if p else "not ") + show(f)[:80] for f, p in st.facts if f.op in ("lt", "eq", "is")]
        return (" on the path where " + " and ".join(fs[:5])) if fs else ""

    def exit_once(self, fs, fn, env, ck, st, v):
        ctx = ck.ctx
        bad = []
        degenerate = fs.degenerate and any(p and f.op == "eq" and (f.args[0] is ZERO or f.args[1] is ZERO) and
                                           (f.args[0].op in R.ATOMIC or f.args[1].op in R.ATOMIC) for f, p in st.facts)
        ck.legs = {}
        ck.st = st
        ck.exitv = v
        ctx.leg_reset()
        alltriv = True
        if fs.only_if is not None and fs.only_if(env, ctx, st) is False:
            return bad
        for comp, outs in fs.out.items():
            outs_ = outs if isinstance(outs, list) else [outs]
            ratio = None
            if "/" in comp:
                x, ratio = (select(v, c) for c in comp.split("/"))
            else:
                x = select(v, comp)
            o = None
            for cand in outs_:
                if cand.when is None or cand.when(env, ctx, st):
                    o = cand
                    break
            if o is None:
                continue
            self.cases.add((comp, outs_.index(o)))
            self.stats["obligations"] += 1
            if x is None:
                self.undecided.append(f"{fs.qual}: component {comp!r} not found")
                self.stats["undecided"] += 1
                continue
            var = None
            x = self.it_force(ck, x, st)
            if o.rnd == "graph":
                self.graph(fs, comp, o, env, ctx, st, x, bad)
                continue
            if isinstance(x, Var) and len(x.xs) == 1:
                var = x.name
                x = x.xs[0]
            if isinstance(x, Part):
                u = unwrap_ok(x)
                x = u[0] if u else x
            if not isinstance(x, Num):
                self.undecided.append(f"{fs.qual}: component {comp!r} is not a number")
                self.stats["undecided"] += 1
                continue
            q = ctx.q(x.n)
            k = x.ty[0] if x.ty else None
            if ratio is not None:
                if ratio.n is ZERO:
                    bad.append(("formula", f"{comp} has denominator zero", f"formula|{fs.qual}|{comp}"))
                    continue
                qd = ctx.q(ratio.n)
                va, vb = ctx.val(q.E), ctx.val(qd.E)
                q = R.Q(q.E / qd.E, q.lo / vb + va / vb * qd.hi / vb, q.hi / vb + va / vb * qd.lo / vb)
            E = q.E / SCALE[k] if k in SCALE else q.E
            if o.leg:
                lo, hi = q.lo, q.hi
                ck.legs[o.leg] = ctx.leg(x.n, o.leg, q) / SCALE.get(k, 1)
            if var is not None and o.variant is not None and var != o.variant and not E.iszero():
                bad.append(("direction", f"{comp or 'result'} is {var} where {o.variant} is required", f"direction|{fs.qual}|{comp}"))
                continue
            if degenerate and E.iszero():
                self.stats["proved"] += 1
                continue
            try:
                F = o.formula(env)
                F = ctx.q(F.n).E if isinstance(F, NX) else rf(F)
                if o.signed and var == "Decrease":
                    F = -F
            except R.DivZero:
                # the exact value is undefined here: nothing to compare
                self.stats["undefined"] = self.stats.get("undefined", 0) + 1
                self.stats["obligations"] -= 1
                continue
            lo, hi = q.lo, q.hi
            same = E.same(F)
            if not same:
                D = E - F
                if D.isc():
                    c = D.cv() * SCALE.get(k, 1)
                    if 0 < c <= lo or 0 < -c <= hi:
                        same = True
                        lo, hi = (lo - c, hi + c)
                        lo, hi = float(lo), float(hi)
            if not same:
                if not R.understood(x.n):
                    bad_ = [y.op for y in walk(x.n) if not R.understood1(y)]
                    self.undecided.append(f"{fs.qual}: {comp or 'result'} uses constructs outside the model: {sorted(set(bad_))}"[:300])
                    self.stats["undecided"] += 1
                    continue
                if E.iszero() and implied(-F, ge0s(ctx, st)):
                    # saturated at zero exactly where the exact value is not positive
                    self.stats["proved"] += 1
                    continue
                cs = ge0s(ctx, st)
                if implied(E - F, cs) and implied(F - E, cs):
                    self.stats["proved"] += 1     # equal on this (boundary) path
                    continue
                if o.cap is not None and self.capped(o, env, E, F):
                    self.stats["proved"] += 1
                    continue
                for c, p in st.facts:
                    if c.op in ("lt", "eq"):
                        try:
                            for y in c.args:     # a condition that needs a further case split: split before judging
                                if R.isnum(y):
                                    ctx.q(y)
                        except (Undecided, TooBig):
                            pass
                bad.append(("formula", f"{comp or 'result'} computes {E!r} where {F!r} is required"[:700], f"formula|{fs.qual}|{comp}"))
                continue
            alltriv = False
            if o.rnd in ("down", "exact") and hi > 0:
                bad.append(("rounding", f"{comp or 'result'} may exceed the exact value {F!r} (rounding up by at most {float(hi):.3g})"[:600],
                            f"rounding|{fs.qual}|{comp}"))
                continue
            if o.rnd in ("up", "exact") and lo > 0:
                bad.append(("rounding", f"{comp or 'result'} may fall below the exact value {F!r} (rounding down by at most {float(lo):.3g})"[:600],
                            f"rounding|{fs.qual}|{comp}"))
                continue
            if max(lo, hi) > o.acc:
                bad.append(("accuracy", f"{comp or 'result'} loses up to {float(max(lo, hi)):.3g} units against the exact value {F!r} (allowed {o.acc})"[:600],
                            f"accuracy|{fs.qual}|{comp}"))
                continue
            if o.last == "up" and (x.n.op == "div" or x.n.op == "sub" and x.n.args[0].op == "div"):
                bad.append(("rounding", f"the final division of {comp or 'result'} rounds down where up is required"[:600], f"rounding|{fs.qual}|{comp}|last"))
                continue
            self.stats["proved"] += 1
        if not degenerate:
            conds = None
            for text, req in fs.requires:
                self.stats["obligations"] += 1
                try:
                    r = rf(req(env))
                except Undecided:
                    continue
                if conds is None:
                    conds = ge0s(ctx, st)
                if not implied(r, conds):
                    bad.append(("guard", f"succeeds without ensuring {text}", f"guard|{fs.qual}|{text}"))
                else:
                    self.stats["proved"] += 1
        return bad

    def graph(self, fs, comp, o, env, ctx, st, x, bad):
        """the component is an enum constant (str), an ordering by the sign of an expression (RF) or a given graph (NX)"""
        F = o.formula(env)
        n = tonode_(x)
        if isinstance(F, str):
            ok = isinstance(x, Var) and not x.xs and x.name == F
            if not ok and not isinstance(x, Var):
                ok = None
            want = F
        elif isinstance(F, NX):
            if F.n in (TRUE, FALSE) and n not in (TRUE, FALSE) and n.op in BOOLOPS:
                n = TRUE if env.holds(n) else FALSE
            ok = n is F.n
            want = F.n
            if not ok and not all(R.understood1(y) or y.op == "sum" for y in walk(n)):
                ok = None
        else:
            F = rf(F)
            want = f"an ordering by the sign of {F!r}"
            ok = None
            if n.op == "cmp":
                d = ctx.q(n.args[0]).E - ctx.q(n.args[1]).E
                if d.iszero() or F.iszero():
                    ok = d.iszero() and F.iszero()
                else:
                    m = d / F
                    ok = m.n.nonneg() and m.d.nonneg() or m.n.neg().nonneg() and m.d.neg().nonneg()
            elif isinstance(x, Var):
                s = {"Less": -1, "Equal": 0, "Greater": 1}.get(x.name)
                cs = ge0s(ctx, st)
                if s is not None:
                    ok = implied(F * s - 1, cs) or s >= 0 and implied(F, cs) and implied(-F * (1 - s), cs)
        if ok is None:
            self.undecided.append(f"{fs.qual}: {comp or 'result'} not comparable")
            self.stats["undecided"] += 1
        elif ok:
            self.stats["proved"] += 1
        else:
            bad.append(("value", f"{comp or 'result'} is {show(n)} where {want if isinstance(want, str) else show(want)} is required"[:700], f"value|{fs.qual}|{comp}"))

    def capped(self, o, env, E, F):
        try:
            return E.same(o.cap(env))
        except Undecided:
            return False

    def it_force(self, ck, x, st):
        try:
            return ck.it.force(x, st) if not isinstance(x, (Var, Part)) else x
        except Exception:
            return x

    def input_atoms(self, ck):
        r = set()
        for a, n in ck.ctx.A.defs.items():
            if n.op in ("var", "fld", "payload", "vfld", "idx", "len"):
                r.add(a)
        return r

    # -- rejecting conditions -----------------------------------------------------------------
    def rejects(self, fs, fn, it, env, ck, oks):
        ctx = ck.ctx
        alls = [{(n.id, p) for n, p in st.facts} for st, v, c in oks]
        seen = set()
        for (st, v, conds), fset in zip(oks, alls):
            if trivial(v):
                continue
            if fs.reject != "closed" and fs.domain is None:
                continue
            for c, p in list(st.facts):
                if (c.id, p) in seen:
                    continue
                if any((c.id, not p) in s for s in alls):
                    continue
                seen.add((c.id, p))
                ctx.set_facts([f for f in st.facts if f[0] is not c])
                before = self.stats["obligations"], self.stats["proved"], len(self.findings)
                try:
                    if fs.domain is not None and c.op in ("lt", "eq"):
                        self.indomain(fs, fn, env, ck, ctx, st, c, p)
                        continue
                    if fs.reject == "closed":
                        self.reject1(fs, fn, env, ck, ctx, st, v, c, p)
                except (Split, Undecided, TooBig, AttributeError, KeyError):
                    pass
                if self.stats["obligations"] > before[0] and self.stats["proved"] == before[1] and len(self.findings) == before[2]:
                    self.stats["rejections_not_judged"] = self.stats.get("rejections_not_judged", 0) + 1
                    self.stats["obligations"] -= 1

    def indomain(self, fs, fn, env, ck, ctx, st, c, p):
        """a comparison every success needs, about the domain's own quantities, must follow from the domain"""
        from .lin import farkas
        if c.op == "eq" and not p and ZERO in c.args and not any(a.op == "var" for a in c.args):
            return  # a divisor
        dom = fs.domain(lambda k: tonode_(env.raw(k)))
        if (c, p) in dom or c.op == "eq" and (mk("eq", c.args[1], c.args[0]), p) in dom:
            self.stats["obligations"] += 1
            self.stats["proved"] += 1
            return
        own = set()
        ge = []
        for d, q in dom:
            k = ctx.cond(d, q)
            if k[0] == "ge0":
                own |= set(k[1].atoms())
                ge.append(k[1])
            elif k[0] == "eq0":
                own |= set(k[1].atoms())
                ge += [k[1], k[1].neg()]
            elif k[0] == "ne0":
                own |= set(k[1].atoms())
        k = ctx.cond(c, p)
        if k[0] not in ("ge0", "eq0", "ne0") or not set(k[1].atoms()) or not set(k[1].atoms()) <= own:
            return
        self.stats["obligations"] += 1
        for d, q in st.facts:
            if d is not c:
                try:
                    x = ctx.cond(d, q)
                except (Split, Undecided, TooBig):
                    continue
                if x[0] == "ge0" and set(x[1].atoms()) <= own:
                    ge.append(x[1])
        ent = lambda g: farkas(dict(g.t), [dict(x.t) for x in ge])
        if k[0] == "ge0":
            ok = ent(k[1])
        elif k[0] == "eq0":
            ok = ent(k[1]) and ent(k[1].neg())
        else:
            one = Poly.c(1)
            ok = ent(k[1] - one) or ent(k[1].neg() - one)
        if ok:
            self.stats["proved"] += 1
        else:
            self.finding("rejects", fn, f"refuses arguments that must be accepted: every success needs {'' if p else 'not '}{show(c)}"[:400], f"rejects|{fs.qual}|{show(c)}|{p}"[:200])

    def reject1(self, fs, fn, env, ck, ctx, st, v, c, p):
        if c.op == "fits" and p:
            self.stats["obligations"] += 1
            q = ctx.q(c.args[0])
            w = c.args[1] if isinstance(c.args[1], int) else 128
            if any(ctx.A.defs.get(a) is not None and ctx.A.defs[a].op not in ("var", "fld", "payload", "sum", "vfld", "idx") for a in q.E.atoms()):
                return
            if ctx.val(q.E) >= 2.0**w * 16:
                self.finding("range", fn, f"rejects ordinary inputs: intermediate {q.E!r} must fit {w} bits"[:400], f"range|{fs.qual}")
            else:
                self.stats["proved"] += 1
            return
        if c.op == "lt":
            k = ctx.cond(c, p)
            if k[0] in ("gt", "ge"):
                x = k[1]
                if x.d.nonneg() and x.n.neg().nonneg() and not x.isc() and not x.iszero():
                    self.stats["obligations"] += 1
                    self.finding("rejects", fn, f"refuses all but degenerate inputs: requires {x!r} >= 0"[:400], f"rejects|{fs.qual}|{x!r}"[:200])
            if k[0] != "ge0":
                return
            poly = k[1]
            self.stats["obligations"] += 1
            known = self.input_atoms(ck)
            if any(a not in known for a in poly.atoms()):
                return
            if poly.nonneg():
                self.stats["proved"] += 1
                return
            al = [rf(f(env)) for _, f in list(fs.allows) + list(fs.requires)]
            al = [a.n for a in al if a.poly()]
            # no-underflow conditions of subtractions in the result
            for x in walk(tonode_(v)):
                if x.op == "sub":
                    qa, qb = ctx.q(x.args[0]), ctx.q(x.args[1])
                    d = qa.E - qb.E
                    if d.poly():
                        al.append(d.n)
                    d = d / 1
            for a in al:
                if (poly - a).nonneg():
                    self.stats["proved"] += 1
                    return
            self.finding("rejects", fn, f"rejects inputs that must be accepted: requires {poly!r} >= 0"[:400], f"rejects|{fs.qual}|{poly!r}"[:200])


def trivial(v):
    return isinstance(v, Num) and isc(v.n)


RFC = {}


def ge0s(ctx, st):
    r = []
    nes = []
    for c, p in st.facts:
        if c.op == "rfge0":
            r.append(RFC[c.id] if p else -RFC[c.id])
        if c.op == "fits" and not p and isinstance(c.args[1], int):
            try:
                q = ctx.q(c.args[0])
                if q.hi < 4:
                    r.append(q.E - (2**c.args[1] - 4))
            except (Undecided, TooBig, Split):
                pass
        if c.op in ("lt", "eq"):
            try:
                k = ctx.cond(c, p)
            except (Undecided, TooBig, Split):
                continue
            if k[0] == "ge0":
                r.append(RF(k[1]))
            elif k[0] in ("gt", "ge"):
                r.append(k[1])
            elif k[0] == "ne0" and k[1].nonneg():
                r.append(RF(k[1]) - 1)
            elif k[0] == "eq0":
                r.append(RF(k[1]))
                r.append(-RF(k[1]))
            elif k[0] == "ne0":
                nes.append(RF(k[1]))
    for x in nes:
        for y in (x, -x):
            if any((y - c).n.nonneg() and (y - c).poly() for c in r if c.poly()):
                r.append(y - 1)
    return r


def implied(r, conds):
    """r >= 0 follows from one of conds (>= 0) plus non-negativity of the atoms"""
    if r.d.isc() and r.n.nonneg():
        return True
    for c in conds:
        d = r - c
        if d.d.nonneg() and d.n.nonneg():
            return True
        if not c.iszero():
            if r.poly() and c.poly():
                ks = {r.n.t[k] / c.n.t[k] for k in r.n.t if k and k in c.n.t}
                for k in ks:
                    if k > 0 and (r - c * k).n.nonneg():
                        return True
            m = r / c
            if m.n.nonneg() and m.d.nonneg() or m.n.neg().nonneg() and m.d.neg().nonneg():
                return True
    for i, c in enumerate(conds):
        for c2 in conds[i + 1:]:
            d = r - c - c2
            if d.d.nonneg() and d.n.nonneg():
                return True
    return linear(r, conds)


def linear(r, conds):
    """r >= 0 as a non-negative combination of the conditions and the atoms"""
    dens = []
    for x in [r] + list(conds):
        if not x.d.isc() and x.d.nonneg() and not any(x.d == y for y in dens):
            dens.append(x.d)
    if len(dens) > 3:
        return False
    com = Poly.c(1)
    for d in dens:
        com = com * d
    def num(x):
        if x.d.isc():
            v = x.d.t.get((), Fr(1))
            return (x.n * com).t if v > 0 else None
        for d in dens:
            if x.d == d:
                m = x.n
                for o in dens:
                    if o is not d:
                        m = m * o
                return m.t
        return None
    t = num(r)
    if t is None:
        return False
    return lin.farkas(t, [y for y in map(num, conds) if y])


def infeasible(ctx, st):
    """cheap contradiction check: p >= 0 and -p - c >= 0 with c > 0 among the comparisons"""
    ctx.set_facts(st.facts)
    cs = ge0s(ctx, st)
    for i, a in enumerate(cs):
        if a.d.isc() and not a.n.zero() and a.n.neg().nonneg() and a.n.t.get((), 0) < 0:
            return True
        for b in cs[i + 1:]:
            s = a + b
            if s.d.isc() and not s.n.zero() and s.n.neg().nonneg() and s.n.t.get((), 0) < 0:
                return True
    return any(c.op == "rfge0" for c, p in st.facts) and linear(RF(Poly.c(-Fr(1, 10**60))), cs)


class IterSpec(FnSpec):
    """a fixed-point iteration: x0 = init, x' = step(x) until |x' - x| <= tol or the iterations are used up"""

    def __init__(self, qual, params, init, step, rnd, acc, tol=1, bias=0, **kw):
        FnSpec.__init__(self, qual, params, {}, **kw)
        self.init, self.step, self.rnd, self.acc, self.tol, self.bias = init, step, rnd, acc, tol, bias


def seq_helpers():
    def sum_(self, dom, f=lambda v: v):
        ck = self._ck
        n = self._n[dom].n if isinstance(dom, str) else dom
        x = mk("idx", n, BV0)
        return ck.ctx.sumatom(ck.ctx.domkey(n), rf(f(ck.elem(n, BV0))), ck.ctx.atom(BV0))

    def count(self, dom):
        n = self._n[dom].n if isinstance(dom, str) else dom
        return self._ck.ctx.q(mk("len", n)).E

    def fold(self, dom, init, f):
        ck = self._ck
        n = self._n[dom].n if isinstance(dom, str) else dom
        ctx = ck.ctx
        if ctx.emptydom(n):
            return rf(init)
        A = bva(0)
        st = rf(f(RF(Poly.atom(ctx.atom(A))), ck.elem(n, BV0)))
        key = ctx.canon(st, {ctx.atom(A): "acc"}, BV0)
        a = ctx.uatom("fold", (ctx.domkey(n),), [rf(init), key])
        return RF(Poly.atom(a))

    def fold_node(self, dom, init, f):
        return fold(self, nx(dom), init, f)

    Env.sum, Env.count, Env.fold, Env.fold_node = sum_, count, fold, fold_node

    def elem(self, n, i):
        return self.ctx.q(mk("idx", n, i)).E
    Check.elem = elem


seq_helpers()


def check_iter(self, fs):
    """decide an IterSpec"""
    try:
        r = run_fn(self.world, fs)
    except Budget as e:
        self.undecided.append(f"{fs.qual}: {e}")
        return
    if r is None:
        self.stats["missing"] += 1
        self.undecided.append(f"{fs.qual}: function not found")
        return
    fn, it, names, args, res = r
    self.stats["functions"] += 1
    ctx = R.Ctx(mag={}, default_mag=fs.default_mag)
    ctx.mags.update(fs.mags)
    ck = Check(fs, fn, res, args, it)
    ck.ctx = ctx
    ck.legs = {}
    env = Env(ck, names, args, fs.lets)
    seen = 0
    for st, v in res:
        u = unwrap_ok(v)
        if u is None:
            continue
        v, conds = u
        st = it.assume_all(st, conds)
        if st is None or not isinstance(v, Num) or infeasible(ctx, st):
            continue
        if any(p and f.op == "eq" and (f.args[0] is ZERO and f.args[1].op == "len" or f.args[1] is ZERO and f.args[0].op == "len") for f, p in st.facts):
            continue
        self.stats["exits"] += 1
        ctx.set_facts(st.facts)
        ck.st = st
        try:
            seen += self.iter_exit(fs, fn, it, env, ck, st, v)
        except (Split, Undecided, TooBig) as e:
            self.undecided.append(f"{fs.qual}: {type(e).__name__} {e}")
            self.stats["undecided"] += 1
    if not seen:
        self.undecided.append(f"{fs.qual}: no iteration recognised")
    ctx.set_facts(())


def iter_exit(self, fs, fn, it, env, ck, st, v):
    ctx = ck.ctx
    n = v.n
    phis = [x for x in walk(n) if x.op == "phi"]
    if n.op == "fold" and n.args[0].op == "range":
        B, A = binders(n)
        body, init, var = n.args[2], n.args[1], A
        conv = False
    elif phis:
        var = phis[0]
        body, conv = n, True
        init = None
        for i in it.loops_seen:
            if i["lid"] == var.args[0]:
                init = tonode_(i["init"][var.args[1]])
        if any(x is not var for x in phis) or init is None:
            self.undecided.append(f"{fs.qual}: iteration with several variables")
            return 0
    else:
        # no iteration on this exit: must be the initial value or zero
        q = ctx.q(n)
        if q.E.iszero() or q.E.same(rf(fs.init(env))):
            return 0
        self.stats["obligations"] += 1
        if all(a in self.input_atoms(ck) for a in q.E.atoms()):
            self.finding("iteration", fn, f"returns {q.E!r} without iterating" + self.pathtext(st), f"iteration|{fs.qual}|noiter")
        return 0
    x = RF(Poly.atom(ctx.atom(var)))
    ck.legs = {"x": x}
    self.stats["obligations"] += 2
    I = ctx.q(init).E
    F0 = rf(fs.init(env))
    if not I.same(F0):
        if all(a in F0.atoms() | self.input_atoms(ck) for a in I.atoms()):
            self.finding("iteration", fn, f"iteration starts from {I!r} where {F0!r} is required", f"iteration|{fs.qual}|init")
        else:
            self.undecided.append(f"{fs.qual}: start value {I!r}")
    else:
        self.stats["proved"] += 1
    q = ctx.q(body)
    F = rf(fs.step(env))
    lo, hi = q.lo, q.hi
    E = q.E
    if not E.same(F):
        D = E - F
        if D.isc() and abs(D.cv()) <= 8:
            c = float(D.cv())
            lo, hi = lo - c, hi + c
            if fs.rnd == "up" and lo > 0 or fs.rnd == "down" and hi > 0:
                self.finding("rounding", fn, f"iteration step deviates from {F!r} by {c:+g} against the rounding direction"[:500], f"rounding|{fs.qual}|step")
                return 1
        else:
            if all(a in F.atoms() | self.input_atoms(ck) for a in E.atoms()):
                self.finding("formula", fn, f"iteration step computes {E!r} where {F!r} is required"[:700], f"formula|{fs.qual}|step")
            else:
                self.undecided.append(f"{fs.qual}: step {E!r}"[:300])
                self.stats["undecided"] += 1
            return 1
    if max(abs(lo), abs(hi)) > fs.acc:
        self.finding("accuracy", fn, f"iteration step loses up to {max(abs(lo), abs(hi)):.3g} units (allowed {fs.acc})", f"accuracy|{fs.qual}|step")
        return 1
    bias = float((E - F).cv()) if (E - F).isc() else 0.0
    b2 = bias if bias else (hi - 1 if lo == 0 and hi >= 1 else 0)
    if fs.bias is not None and not E.same(F) and bias < fs.bias:
        self.finding("rounding", fn, f"iteration step adds {bias:g} where {fs.bias} is required", f"rounding|{fs.qual}|bias")
        return 1
    self.stats["proved"] += 1
    if conv:
        # the exit must be guarded by convergence
        self.stats["obligations"] += 1
        ok = False
        cs = []
        for c, p in st.facts:
            if c.op in ("lt", "eq"):
                for y in walk(c):
                    if y is var:
                        cs.append((c, p))
                        break
        up = down = False
        new = n
        for c, p in cs:
            if c.op == "lt" and not p:
                # not (tol < x) : x <= tol
                a, b = c.args
                if isc(a) and cval(a) <= fs.tol and b.op in ("sub", "absdiff") and {b.args[0], b.args[1]} == {new, var}:
                    ok = True
            elif c.op == "lt" and p:
                a, b = c.args
                if isc(b) and cval(b) <= fs.tol + 1 and a.op in ("sub", "absdiff") and {a.args[0], a.args[1]} == {new, var}:
                    ok = True
            elif c.op == "eq" and p:
                a, b = c.args
                for y, z in ((a, b), (b, a)):
                    if isc(y) and cval(y) <= fs.tol and z.op in ("sub", "absdiff") and {z.args[0], z.args[1]} == {new, var}:
                        ok = True
                    if y is new and z is var:
                        ok = True
        if ok:
            self.stats["proved"] += 1
        elif any(c.op in ("lt", "eq") for c, p in cs):
            self.finding("iteration", fn, "stops iterating before consecutive values are within %d" % fs.tol + self.pathtext(st), f"iteration|{fs.qual}|conv")
        else:
            self.finding("iteration", fn, "stops iterating without any convergence test", f"iteration|{fs.qual}|conv")
    return 1


class LoopSpec(FnSpec):
    """a loop with several carried variables: start values and the update of one pass, in raw units"""

    def __init__(self, qual, params, init, step, low=None, passes=None, **kw):
        FnSpec.__init__(self, qual, params, {}, **kw)
        self.init, self.step, self.low, self.passes = init, step, low, passes


def check_loop(self, fs):
    import itertools
    try:
        r = run_fn(self.world, fs)
    except Budget as e:
        self.undecided.append(f"{fs.qual}: {e}")
        return
    if r is None:
        self.stats["missing"] += 1
        self.undecided.append(f"{fs.qual}: function not found")
        return
    fn, it, names, args, res = r
    self.stats["functions"] += 1
    ctx = R.Ctx(mag={}, default_mag=fs.default_mag)
    ck = Check(fs, fn, res, args, it)
    ck.ctx, ck.legs = ctx, {}
    env = Env(ck, names, args, fs.lets)
    want0 = [rf(f) for f in fs.init(env)]
    nv = len(want0)
    seen = False
    for info in it.loops_seen:
        phi, init = list(info["phi"]), list(info["init"])
        if "acc" in info:
            phi.append(info["acc"])
            init.append(info["accinit"])
        ends = []
        for x in info["ends"]:
            ends.append((x[0], list(x[1:])) if isinstance(x, tuple) else (x, []))
        if len(phi) != nv or not all(isinstance(x, Num) for x in phi + init) or not ends:
            continue
        seen = True
        seq = info.get("seq")
        bv = seq.bv if seq is not None and hasattr(seq, "bv") else None
        I = ctx_try(ctx, [x.n for x in init])
        if I is None:
            continue
        known = lambda: self.input_atoms(ck) | {ctx.atom(p.n) for p in phi} | ({ctx.atom(bv)} if bv is not None else set())
        best = None
        for perm in itertools.permutations(range(nv)):
            ok0 = all(I[perm[k]].same(want0[k]) for k in range(nv))
            bad = [] if ok0 else ["start values " + ", ".join(repr(I[perm[k]]) for k in range(nv)) + " where " + ", ".join(map(repr, want0)) + " are required"]
            und = not ok0 and any(a not in known() for x in I for a in x.atoms())
            v = [RF(Poly.atom(ctx.atom(phi[perm[k]].n))) for k in range(nv)]
            i = RF(Poly.atom(ctx.atom(bv))) if bv is not None else None
            for s, w in ends:
                vals = [it.force(s.store[sl], s) for sl in info["slots"]] + list(w)
                if not all(isinstance(x, Num) for x in vals):
                    und = True
                    continue
                ck.st = s
                ctx.set_facts(s.facts)
                try:
                    got = [ctx.q(vals[perm[k]].n).E for k in range(nv)]
                    alts = fs.step(env, v, i, bv)
                except (Split, Undecided, TooBig):
                    und = True
                    continue
                if not any(all(g.same(rf(a)) for g, a in zip(got, alt)) for alt in alts):
                    if any(a not in known() for g in got for a in g.atoms()):
                        und = True
                    bad.append("one pass gives " + ", ".join(repr(g) for g in got) + " where " + " or ".join(", ".join(repr(rf(a)) for a in alt) for alt in alts) + " is required")
            c = (len(bad), und, bad)
            if best is None or c[:2] < best[:2]:
                best = c
        ctx.set_facts(())
        self.stats["obligations"] += 2
        if best[0] == 0 and not best[1]:
            self.stats["proved"] += 2
        elif best[0] and not best[1]:
            self.finding("iteration", fn, best[2][0][:700], f"loop|{fs.qual}")
        else:
            self.stats["undecided"] += 1
            self.undecided.append(f"{fs.qual}: {best[2][:1]}"[:300])
        if fs.passes is not None and seq is not None and seq.dom.op == "range":
            a, b, inc = seq.dom.args
            self.stats["obligations"] += 1
            lo, mn = fs.passes(env)
            if isc(a) and cval(a) != lo or isc(b) and mn is not None and cval(b) < mn:
                self.finding("iteration", fn, f"passes run over {show(seq.dom)}, at least {lo}..{mn} is required", f"passes|{fs.qual}")
            else:
                self.stats["proved"] += 1
        break
    if not seen:
        self.undecided.append(f"{fs.qual}: no matching loop recognised")


def ctx_try(ctx, ns):
    try:
        return [ctx.q(n).E for n in ns]
    except (Split, Undecided, TooBig):
        return None


SpecRun.check_loop = check_loop
SpecRun.check_iter = check_iter
SpecRun.iter_exit = iter_exit


class NodeSpec(FnSpec):
    """judge(names, st, node) -> [(label, True | False | None, message)] on every success path"""

    def __init__(self, qual, params, judge, **kw):
        FnSpec.__init__(self, qual, params, {}, **kw)
        self.judge = judge


def check_node(self, fs):
    try:
        r = run_fn(self.world, fs)
    except Budget as e:
        self.undecided.append(f"{fs.qual}: {e}")
        self.stats["undecided"] += 1
        return
    if r is None:
        self.stats["missing"] += 1
        self.undecided.append(f"{fs.qual}: function not found")
        return
    fn, it, names, args, res = r
    self.stats["functions"] += 1
    exits = []
    for st, v in res:
        u = unwrap_ok(it.force(v, st) if not isinstance(v, (Part, Var)) else v)
        if u is None:
            continue
        s2 = it.assume_all(st, u[1])
        if s2 is not None:
            exits.append((s2, it.force(u[0], s2)))
    # Option returns of another call stay as (value, conditions)
    for st, v in exits:
        self.stats["exits"] += 1
        for label, ok, msg in fs.judge(dict(zip(names, args)), st, tonode_(v)):
            self.stats["obligations"] += 1
            if ok is True:
                self.stats["proved"] += 1
            elif ok is False:
                self.finding("value", fn, f"{label}: {msg}", f"node|{fs.qual}|{label}")
            else:
                self.stats["undecided"] += 1
                self.undecided.append(f"{fs.qual}: {label}: {msg}"[:400])


SpecRun.check_node = check_node
