"""Exact rational-function semantics of a value graph, with directional rounding analysis.

approx(node) = Q(E, lo, hi):  E - lo <= value <= E + hi, where E is the rational function the graph denotes when
every division is exact, and lo/hi bound the accumulated rounding.  lo/hi are evaluated at declared reference
magnitudes of the inputs, but are exactly zero only if no rounding in that direction is possible at all.
"""
from fractions import Fraction as Fr
from .terms import *
from . import prove as P

INF = float("inf")
MAXTERMS = 6000


class TooBig(Exception):
    pass


class Undecided(Exception):
    pass


class DivZero(Undecided):
    pass


class Split(Exception):
    def __init__(self, node):
        self.node = node


# ---- polynomials ---------------------------------------------------------------------------
class Poly:
    __slots__ = ("t",)

    def __init__(self, t=None):
        self.t = t or {}

    @staticmethod
    def c(v):
        return Poly({(): Fr(v)} if v else {})

    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fr(1)})

    def __add__(s, o):
        t = dict(s.t)
        for k, v in o.t.items():
            r = t.get(k, 0) + v
            if r:
                t[k] = r
            else:
                t.pop(k, None)
        return Poly(t)

    def neg(s):
        return Poly({k: -v for k, v in s.t.items()})

    def __sub__(s, o):
        return s + o.neg()

    def __mul__(s, o):
        if len(s.t) * len(o.t) > MAXTERMS * 8:
            raise TooBig()
        t = {}
        for k1, v1 in s.t.items():
            for k2, v2 in o.t.items():
                k = _mm(k1, k2)
                r = t.get(k, 0) + v1 * v2
                if r:
                    t[k] = r
                else:
                    t.pop(k, None)
        if len(t) > MAXTERMS:
            raise TooBig()
        return Poly(t)

    def zero(s):
        return not s.t

    def isc(s):
        return all(k == () for k in s.t)

    def cv(s):
        return s.t.get((), Fr(0))

    def lead(s):
        return max(s.t, key=_ordkey)

    def atoms(s):
        return {a for k in s.t for a, _ in k}

    def integral(s):
        return all(v.denominator == 1 for v in s.t.values())

    def nonneg(s):
        return all(v >= 0 for v in s.t.values())

    def __eq__(s, o):
        return s.t == o.t

    def __repr__(s):
        if not s.t:
            return "0"
        out = []
        for k, v in sorted(s.t.items(), key=lambda kv: _ordkey(kv[0]), reverse=True):
            m = "*".join(_aname(a) + (f"^{e}" if e > 1 else "") for a, e in k)
            c = _cstr(v)
            out.append(m if c == "1" and m else (c + ("*" + m if m else "")))
        return " + ".join(out)


def _cstr(v):
    if v.denominator == 1:
        n = abs(v.numerator)
        if n >= 10**6:
            e = len(str(n)) - 1
            if n == 10**e:
                return ("-" if v < 0 else "") + f"1e{e}"
        return str(v.numerator)
    return str(v)


_names = {}


def _aname(a):
    return _names.get(a, f"a{a}")


def _ordkey(k):
    return (sum(e for _, e in k), k)


def _mm(a, b):
    if not a:
        return b
    if not b:
        return a
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, 0) + e
    return tuple(sorted(d.items()))


def _mdiv(a, b):
    d = dict(a)
    for x, e in b:
        r = d.get(x, 0) - e
        if r < 0:
            return None
        if r:
            d[x] = r
        else:
            del d[x]
    return tuple(sorted(d.items()))


def pdiv(a, b):
    """exact quotient a/b or None"""
    if b.zero():
        return None
    if b.isc():
        c = b.cv()
        return Poly({k: v / c for k, v in a.t.items()})
    # graded order with a fixed lead: multivariate long division with exactness check
    lb_ = b.lead()
    cb = b.t[lb_]
    r = Poly(dict(a.t))
    q = {}
    n = 0
    while r.t:
        lr = r.lead()
        m = _mdiv(lr, lb_)
        if m is None:
            return None
        c = r.t[lr] / cb
        q[m] = c
        r = r - Poly({_mm(m, k): v * c for k, v in b.t.items()})
        n += 1
        if n > 400:
            return None
    return Poly(q)


class RF:
    __slots__ = ("n", "d")

    def __init__(self, n, d=None):
        if d is None:
            d = ONEP
        if n.zero():
            d = ONEP
        elif not d.isc():
            # cancel: exact division and monomial content
            q = pdiv(n, d)
            if q is not None:
                n, d = q, ONEP
            else:
                q = pdiv(d, n) if len(n.t) <= len(d.t) else None
                if q is not None:
                    n, d = ONEP, q
                else:
                    g = _mcontent(n, d)
                    if g:
                        n = Poly({_mdiv(k, g): v for k, v in n.t.items()})
                        d = Poly({_mdiv(k, g): v for k, v in d.t.items()})
        if d.isc():
            c = d.cv()
            if c == 0:
                raise DivZero("division by zero")
            if c != 1:
                n = Poly({k: v / c for k, v in n.t.items()})
                d = ONEP
        else:
            c = d.t[d.lead()]
            if c != 1:
                n = Poly({k: v / c for k, v in n.t.items()})
                d = Poly({k: v / c for k, v in d.t.items()})
        self.n, self.d = n, d

    def __add__(s, o):
        o = rf(o)
        if s.d == o.d:
            return RF(s.n + o.n, s.d)
        q = pdiv(s.d, o.d)
        if q is not None:
            return RF(s.n + o.n * q, s.d)
        q = pdiv(o.d, s.d)
        if q is not None:
            return RF(s.n * q + o.n, o.d)
        return RF(s.n * o.d + o.n * s.d, s.d * o.d)

    __radd__ = __add__

    def __neg__(s):
        return RF(s.n.neg(), s.d)

    def __sub__(s, o):
        return s + (-rf(o))

    def __rsub__(s, o):
        return rf(o) + (-s)

    def __mul__(s, o):
        o = rf(o)
        # cross-cancel
        a, b, c, d = s.n, s.d, o.n, o.d
        q = pdiv(a, d) if not d.isc() else None
        if q is not None:
            a, d = q, ONEP
        q = pdiv(c, b) if not b.isc() else None
        if q is not None:
            c, b = q, ONEP
        return RF(a * c, b * d)

    __rmul__ = __mul__

    def inv(s):
        if s.n.zero():
            raise DivZero("division by zero")
        return RF(s.d, s.n)

    def __truediv__(s, o):
        return s * rf(o).inv()

    def __rtruediv__(s, o):
        return rf(o) * s.inv()

    def __pow__(s, k):
        r = rf(1)
        for _ in range(k):
            r = r * s
        return r

    def same(s, o):
        o = rf(o)
        if s.n == o.n and s.d == o.d:
            return True
        return (s.n * o.d - o.n * s.d).zero()

    def isc(s):
        return s.n.isc() and s.d.isc()

    def cv(s):
        return s.n.cv() / s.d.cv()

    def iszero(s):
        return s.n.zero()

    def atoms(s):
        return s.n.atoms() | s.d.atoms()

    def poly(s):
        return s.d.isc()

    def __repr__(s):
        if s.d.isc():
            return f"{s.n!r}"
        return f"({s.n!r})/({s.d!r})"


def _mcontent(n, d):
    ks = list(n.t) + list(d.t)
    g = dict(ks[0])
    for k in ks[1:]:
        if not g:
            return ()
        dk = dict(k)
        g = {a: min(e, dk[a]) for a, e in g.items() if a in dk}
    return tuple(sorted(g.items()))


ONEP = Poly({(): Fr(1)})


def rf(x):
    if isinstance(x, RF):
        return x
    return RF(Poly.c(x))


class Q:
    __slots__ = ("E", "lo", "hi", "int")

    def __init__(self, E, lo=0, hi=0, isint=True):
        self.E, self.lo, self.hi, self.int = E, lo, hi, isint

    @property
    def exact(self):
        return self.lo == 0 and self.hi == 0

    def __repr__(self):
        return f"{self.E} [-{float(self.lo):.3g},+{float(self.hi):.3g}]"


class Atoms:
    """atoms of the rational functions.  Atoms for uninterpreted nodes are identified up to equality of their
    arguments as rational functions."""

    def __init__(self):
        self.byname = {}
        self.mag = {}
        self.keys = {}       # op signature -> [(args, atom id)]
        self.defs = {}       # atom -> Node
        self.next = 0
        self.int = {}

    def fresh(self, name, mag=None):
        self.next += 1
        a = self.next
        _names[a] = name
        self.mag[a] = mag
        self.int[a] = True
        return a


class Ctx:
    """evaluation context: atoms, magnitudes, facts of a path"""

    def __init__(self, atoms=None, mag=None, default_mag=2.0**80, sums=None):
        self.A = atoms or Atoms()
        self.memo = {}
        self.facts = ()
        self.subs = {}        # atom -> RF  (equality facts)
        self.default_mag = default_mag
        self.mags = mag or {}       # node -> magnitude
        self.nodeatoms = {}
        self.noted = []
        self.bvs = []
        self.legs = {}
        self.legatoms = {}
        self.canonatoms = {}

    def set_facts(self, facts):
        self.facts = tuple(facts)
        self.memo = {}
        self.subs = {}
        for f, p in self.facts:
            if p and f.op == "eq":
                a, b = f.args
                for x, y in ((a, b), (b, a)):
                    if isc(y) and x.op in ATOMIC:
                        self.subs[x.id] = rf(cval(y))
                if a.op in ATOMIC and b.op in ATOMIC and not isc(a) and not isc(b):
                    x, y = (a, b) if a.id > b.id else (b, a)
                    if x.id not in self.subs:
                        self.subs[x.id] = self.subs.get(y.id) or RF(Poly.atom(self.atom(y)))

    def leg_reset(self):
        if self.legs:
            self.legs = {}
            self.memo = {}

    def leg(self, n, name, q):
        """treat the integer actually produced for node n as an exact quantity from here on"""
        if q.E.isc() and q.exact or n.op in ATOMIC or isc(n):
            return q.E
        a = self.legatoms.get(name)
        if a is None:
            a = self.legatoms[name] = self.A.fresh("<" + name + ">", None)
            self.A.defs[a] = mk("var", "<" + name + ">")
        self.A.mag[a] = self.val(q.E)
        r = RF(Poly.atom(a))
        self.legs[n.id] = r
        self.memo = {}
        return r

    # -- atoms --
    def atom(self, n):
        a = self.nodeatoms.get(n.id)
        if a is None:
            name = show(n)
            a = self.A.fresh(name if len(name) < 60 else name[:57] + "…", self.magnitude(n))
            self.A.defs[a] = n
            self.nodeatoms[n.id] = a
        return a

    def magnitude(self, n):
        m = self.mags.get(n)
        if m is not None:
            return m
        u = P._leafbits.get(n.id)
        if u is not None and u < 2**100:
            return float(u) / 16 if u > 64 else float(u)
        return self.default_mag

    def uatom(self, op, extra, args):
        """uninterpreted function atom, up to RF equality of args"""
        key = (op,) + tuple(extra) + (len(args),)
        lst = self.A.keys.setdefault(key, [])
        for as_, a in lst:
            if all(x.same(y) for x, y in zip(as_, args)):
                return a
        nm = extra[1].split("::")[-1] if op == "sum" and extra and extra[0] == "sum" and len(extra) > 1 and isinstance(extra[1], str) else op
        if op == "sum" and nm == "sum":
            nm = "Σ"
        inner = ", ".join(map(repr, args))
        a = self.A.fresh(f"{nm}#{len(self.A.mag)}({inner if len(inner) < 40 else inner[:37] + '…'})", None)
        self.A.mag[a] = self.default_mag
        lst.append((args, a))
        return a

    def val(self, E):
        """E at the reference magnitudes"""
        return abs(self.pv(E.n)) / max(abs(self.pv(E.d)), 1e-300)

    def pv(self, p):
        s = 0.0
        neg = 0.0
        for k, v in p.t.items():
            x = float(v)
            for a, e in k:
                m = self.A.mag.get(a)
                x *= (m if m is not None else self.default_mag) ** e
            if x >= 0:
                s += x
            else:
                neg -= x
        # difference of like magnitudes: keep the order of magnitude
        r = s - neg
        big = max(s, neg)
        if big and abs(r) < big / 4:
            r = big / 4
        return r

    # -- order --
    def le(self, a, b):
        r = P.decide(self.facts, lt(b, a))
        if r is False:
            return True
        if P.le(self.facts, a, b):
            return True
        r = P.decide(self.facts, lt(a, b))
        if r is False:
            # b <= a
            return False if P.decide(self.facts, eq(a, b)) is not True else True
        return None

    def choose_le(self, a, b):
        """a <= b ? decided, or split"""
        r = self.le(a, b)
        if r is None:
            raise Split(lt(b, a))
        return r

    # -- evaluation --
    def q(self, n):
        r = self.memo.get(n.id)
        if r is None:
            r = self._q(n)
            self.memo[n.id] = r
        return r

    def _q(self, n):
        s = self.subs.get(n.id)
        if s is not None:
            return Q(s)
        s = self.legs.get(n.id)
        if s is not None:
            return Q(s)
        op = n.op
        f = getattr(self, "o_" + op, None)
        if f is not None:
            return f(n)
        return self.opaque(n)

    def o_const(self, n):
        if isinstance(n.args[0], int):
            return Q(rf(n.args[0]))
        return self.opaque(n)

    def o_add(self, n):
        a, b = self.q(n.args[0]), self.q(n.args[1])
        # x + c with x rounded down by at least c: a round-up of the same exact value
        for x, y in ((a, b), (b, a)):
            if y.exact and y.E.isc() and x.lo != INF and 0 < y.E.cv() <= x.lo:
                c = y.E.cv()
                return Q(x.E, x.lo - float(c) if x.lo != c else 0, x.hi + float(c))
        return Q(a.E + b.E, a.lo + b.lo, a.hi + b.hi)

    def o_sub(self, n):
        a, b = self.q(n.args[0]), self.q(n.args[1])
        if b.exact and b.E.isc() and a.hi != INF and 0 < b.E.cv() <= a.hi:
            c = b.E.cv()
            return Q(a.E, a.lo + float(c), a.hi - float(c) if a.hi != c else 0)
        return Q(a.E - b.E, a.lo + b.hi, a.hi + b.lo)

    def o_neg(self, n):
        a = self.q(n.args[0])
        return Q(-a.E, a.hi, a.lo)

    def bound(self, n):
        return bool(freebv(n))

    def o_satsub(self, n):
        x, y = n.args
        if self.bound(n):
            return self.opaque(n)
        if self.choose_le(y, x):
            return self.q(mk("sub", x, y))
        return Q(rf(0))

    def o_absdiff(self, n):
        x, y = n.args
        if self.bound(n):
            return self.opaque(n)
        if self.choose_le(y, x):
            return self.q(mk("sub", x, y))
        return self.q(mk("sub", y, x))

    def o_min(self, n):
        x, y = n.args
        if self.bound(n):
            return self.opaque(n)
        return self.q(x if self.choose_le(x, y) else y)

    def o_max(self, n):
        x, y = n.args
        if self.bound(n):
            return self.opaque(n)
        return self.q(y if self.choose_le(x, y) else x)

    def o_mul(self, n):
        a, b = self.q(n.args[0]), self.q(n.args[1])
        if a.exact and b.exact:
            return Q(a.E * b.E)
        va, vb = self.val(a.E), self.val(b.E)
        return Q(a.E * b.E, _m(va, b.lo) + _m(vb, a.lo), _m(va, b.hi) + _m(vb, a.hi) + _m(a.hi, b.hi))

    def o_div(self, n, kind="div"):
        x, y = n.args
        a, b = self.q(x), self.q(y)
        if b.E.iszero():
            raise DivZero("division by zero")
        E = a.E / b.E
        if a.exact and b.exact and E.poly() and E.n.integral():
            return Q(E)
        lo = hi = 0
        if not (a.exact and b.exact):
            vb = self.val(b.E) or 1.0
            v = self.val(E)
            lo = (a.lo + _m(v, b.hi)) / vb
            if b.lo >= vb:
                hi = INF if b.lo or a.hi else 0
            else:
                hi = (a.hi + _m(v, b.lo)) / (vb - b.lo)
        if kind == "div":
            lo = lo + 1
        elif kind == "cdiv":
            hi = hi + 1
        else:
            lo, hi = lo + 0.5, hi + 0.5
        return Q(E, lo, hi)

    def o_cdiv(self, n):
        return self.o_div(n, "cdiv")

    def o_rdiv(self, n):
        return self.o_div(n, "rdiv")

    def o_sat(self, n):
        x = n.args[0]
        w = n.args[1] or 128
        a = self.q(x)
        if self.fitsmag(x, a, w):
            return a
        return Q(a.E, INF, a.hi)

    def o_trunc(self, n):
        x = n.args[0]
        w = n.args[1] or 128
        a = self.q(x)
        if isinstance(w, int) and self.fitsmag(x, a, w):
            return a
        return Q(a.E, INF, INF)

    def fitsmag(self, x, a, w):
        if not isinstance(w, int):
            w = 128
        if P.le_const(self.facts, x, 2**w - 1):
            return True
        for f, p in self.facts:
            if p and f.op == "fits" and f.args[0] is x:
                return True
        return self.val(a.E) < 2.0**w / 16

    def o_shl(self, n):
        if isc(n.args[1]):
            a = self.q(n.args[0])
            k = 2 ** cval(n.args[1])
            return Q(a.E * k, a.lo * k, a.hi * k)
        return self.opaque(n)

    def o_shr(self, n):
        if isc(n.args[1]):
            return self.q(mk("div", n.args[0], const(2 ** cval(n.args[1]))))
        return self.opaque(n)

    def o_nzget(self, n):
        return self.q(n.args[0])

    def o_powi(self, n):
        b, e = n.args[0], n.args[1]
        if len(n.args) < 3 or n.args[2] not in ("FixedU128",):
            if isc(e) and cval(e) < 12:
                r = ONE
                for _ in range(cval(e)):
                    r = mul(r, b)
                return self.q(r)
            x = self.q(e)
            if x.exact and x.E.iszero():
                return Q(rf(1))
            q = self.opaque(n)
            if isc(b) and q.exact:
                for a in q.E.atoms():
                    self.A.mag[a] = 1e6
            return q
        return self.opaque(n)

    def o_conv(self, n):
        return self.q(n.args[0])

    def o_cases(self, n):
        qs = [self.q(a) for a in n.args]
        if all(q.E.same(qs[0].E) for q in qs[1:]):
            return Q(qs[0].E, max(q.lo for q in qs), max(q.hi for q in qs))
        return self.opaque(n)

    def o_fold(self, n):
        dom, init, step = n.args[:3]
        filt = n.args[3:]
        i = self.q(init)
        if self.emptydom(dom):
            return i
        d = self.domkey(dom)
        if filt:
            d = d + tuple(self.condkey(f) for f in filt)
        B, A = binders(n)
        s = self.q(step)
        aa = self.atom(A)
        g = s.E - RF(Poly.atom(aa))
        if aa not in g.atoms():
            S = self.sumatom(d, g, self.atom(B))
            return Q(i.E + S, i.lo + s.lo * 4, i.hi + s.hi * 4)
        # key independent of nesting depth
        key = self.canon(s.E, {aa: 'acc'}, B)
        a = self.uatom("fold", (d,), [i.E, key])
        m = self.val(i.E)
        self.A.mag[a] = max(m, 1.0)
        return Q(RF(Poly.atom(a)), i.lo + s.lo * 4, i.hi + s.hi * 4)

    def canon(self, E, names, B):
        """rename bound atoms canonically"""
        sub = {}
        for a, nm in names.items():
            c = self.canonatoms.get(nm)
            if c is None:
                c = self.canonatoms[nm] = self.A.fresh(nm)
            sub[a] = c
        for a in E.atoms():
            d = self.A.defs.get(a)
            if d is not None and a not in sub and (d is B or B.id in freebv(d)):
                key = subst(d, {B: mk("bv", "elem")})
                c = self.canonatoms.get(key.id)
                if c is None:
                    c = self.canonatoms[key.id] = self.A.fresh(show(key), self.A.mag.get(a))
                sub[a] = c
        return RF(_ren(E.n, sub), _ren(E.d, sub))

    def emptydom(self, dom):
        for f, p in self.facts:
            if p and f.op == "eq":
                for x, y in (f.args, f.args[::-1]):
                    if x is ZERO and y.op == "len" and strip(y.args[0]) is strip(dom):
                        return True
        return False

    def fulldom(self, s):
        """filtered sequence s known to have the length of its base"""
        for f, p in self.facts:
            if p and f.op == "eq":
                x, y = f.args
                if x.op == "len" and y.op == "len":
                    if x.args[0] is s and y.args[0] is s.args[0] or y.args[0] is s and x.args[0] is s.args[0]:
                        return True
        return False

    def o_len(self, n):
        d = n.args[0]
        if self.emptydom(d):
            return Q(rf(0))
        a = self.uatom("count", (self.domkey(d),), [])
        self.A.mag[a] = 4.0
        return Q(RF(Poly.atom(a)))

    def o_idx(self, n):
        d, i = n.args
        d = strip(d) if i.op == "bv" else d
        while d.op == "seq" and (len(d.args) == 2 or i.op == "bv" and self.fulldom(d)):
            return self.q(subst(d.args[1], {binders(d)[0]: i}))
        if d is not n.args[0]:
            n = mk("idx", d, i)
        m = self.mags.get("elem")
        if m is not None:
            self.mags[n] = m
        a = self.subs.get(n.id)
        if a is not None:
            return Q(a)
        return Q(RF(Poly.atom(self.atom(n))))

    def sumatom(self, d, g, bv=None):
        """sum over d of g, linear: quantities that do not depend on the bound index are pulled out"""
        B = self.A.defs.get(bv, BV0)
        g = self.canon(g, {}, B)
        el = set(self.canonatoms.values())
        for key, lst in self.A.keys.items():
            for args, a in lst:
                if any(x.atoms() & el for x in args):
                    el.add(a)
        if not (g.d.atoms() & el):
            tot = rf(0)
            for k, v in g.n.t.items():
                inner = tuple((a, e) for a, e in k if a in el)
                outer = tuple((a, e) for a, e in k if a not in el)
                if not inner:
                    ca = self.uatom("count", (d,), [])
                    self.A.mag[ca] = 4.0
                    base = RF(Poly.atom(ca))
                else:
                    base = RF(Poly.atom(self.uatom("sum", (d,), [RF(Poly({inner: Fr(1)}))])))
                tot = tot + base * RF(Poly({outer: v}))
            return tot / RF(g.d)
        return RF(Poly.atom(self.uatom("sum", (d,), [g])))

    def domkey(self, dom):
        dom = strip(dom)
        if dom.op == "seq":
            if len(dom.args) == 2 or self.fulldom(dom):
                return self.domkey(dom.args[0])
            return self.domkey(dom.args[0]) + tuple(self.condkey(f) for f in dom.args[2:])
        return (self.nkey(dom),)

    def nkey(self, n):
        """canonical key of a non-numeric node: structure with numeric parts up to equality as rational functions"""
        if not isinstance(n, Node):
            return n
        if n.op in ("var", "const"):
            return ("n", n.id)
        if n.op == "bv":
            return ("bv", n.args[0])
        if n.op in NUMOPS or n.op in ATOMIC or n.op == "gcases" and isnum(n):
            e = self.q(n).E
            return ("rf", self.uatom("id", (), [e]))
        if n.op == "seq":
            if len(n.args) == 2 or self.fulldom(n):
                d = ()
            else:
                d = n.args[2:]
            B = binders(n)[0]
            EL = mk("bv", "elem")
            fs = sorted((self.nkey(subst(c, {B: EL})) for c in d), key=repr)
            return ("seq", self.domkey(n.args[0]), self.nkey(subst(n.args[1], {B: EL})), tuple(fs))
        if n.op in ("gcases", "and", "or", "eq"):
            return (n.op, tuple(sorted((self.nkey(a) for a in n.args), key=repr)))
        if n.op in ("sort", "rev"):
            return self.nkey(n.args[0])
        return (n.op,) + tuple(self.nkey(a) for a in n.args)

    def condkey(self, n):
        return self.nkey(n)

    def o_payload(self, n):
        x = n.args[0]
        if x.op == "sum":
            return self.opaque(x)
        return Q(RF(Poly.atom(self.atom(n))))

    def o_fld(self, n):
        x = n.args[0]
        if x.op == "sum" and x.args[0].split("::")[-1] in ("round_to_rational", "round_u512_to_rational") and len(x.args) == 3 \
                and n.args[1] in ("0", "1", "n", "d"):
            # scaled-down numerator / denominator of the same fraction
            v = x.args[2].op.split(":")[1] if x.args[2].op.startswith("variant:") else "?"
            fi = "0" if n.args[1] in "0n" else "1"
            c = self.q(x.args[1].args[int(fi)] if x.args[1].op == "tuple" else mk("fld", x.args[1], fi))
            ka = self.nodeatoms.get(("k", x.id))
            if ka is None:
                ka = self.nodeatoms[("k", x.id)] = self.A.fresh("scale", 1.0)
                self.A.defs[ka] = x
            k = RF(Poly.atom(ka))
            up = (v == "Up") == (fi == "0")
            if v == "?":
                return Q(c.E * k, c.lo + 1, c.hi + 1)
            if v == "Nearest":
                return Q(c.E * k, c.lo + 1, c.hi)
            return Q(c.E * k, c.lo + (0 if up else 1), c.hi + (1 if up else 0))
        # a field of an element of a sequence: canonical element
        x = n.args[0]
        if x.op == "gcases":
            y = fldof(x, n.args[1])
            if y.op != "fld" or y.args[0] is not x:
                return self.q(y)
        if x.op == "idx" and x.args[1].op == "bv":
            d = strip(x.args[0])
            while d.op == "seq" and (len(d.args) == 2 or self.fulldom(d)):
                e = subst(d.args[1], {binders(d)[0]: x.args[1]})
                if e.op == "idx":
                    x = e
                    d = strip(e.args[0])
                else:
                    return self.q(fldof(e, n.args[1]))
            if d is not x.args[0]:
                x = mk("idx", d, x.args[1])
            n = mk("fld", x, n.args[1])
        s = self.subs.get(n.id)
        if s is not None:
            return Q(s)
        return Q(RF(Poly.atom(self.atom(n))))

    def o_gcases(self, n):
        if not all(w.op == "when" for w in n.args):
            return self.opaque(n)
        ws = sorted(((self.nkey(c), self.q(v)) for c, v in whens(n)), key=lambda w: repr(w[0]))
        if all(q.E.same(ws[0][1].E) for _, q in ws):
            return Q(ws[0][1].E, max(q.lo for _, q in ws), max(q.hi for _, q in ws))
        a = self.uatom("gcases", tuple(k for k, _ in ws), [q.E for _, q in ws])
        self.A.defs.setdefault(a, n)
        self.A.mag[a] = max(self.val(q.E) for _, q in ws) or 1.0
        return Q(RF(Poly.atom(a)), max(q.lo for _, q in ws), max(q.hi for _, q in ws))

    def o_bv(self, n):
        return Q(RF(Poly.atom(self.atom(n))))

    def opaque(self, n):
        if n.op in ATOMIC or not any(isinstance(a, Node) for a in n.args):
            return Q(RF(Poly.atom(self.atom(n))))
        # function of its arguments
        extra = [n.op]
        nums = []
        lo = hi = 0
        for a in n.args:
            if isinstance(a, Node) and isnum(a):
                q = self.q(a)
                nums.append(q.E)
                if n.op == "sum":   # only the direction of the rounding inside an argument is kept
                    extra.append("~" + ("d" if q.lo and not q.hi else "u" if q.hi and not q.lo else "n" if q.lo else "e"))
            else:
                extra.append(self.nkey(a))
        if n.op in ("absdiff", "min", "max"):
            nums.sort(key=repr)
        a = self.uatom(n.op, tuple(extra), nums)
        self.A.defs.setdefault(a, n)
        m = self.mags.get(n)
        if m is None:
            m = self.mags.get(n.op)
        if m is None and n.op == "sum":
            m = self.mags.get("sum:" + n.args[0].split("::")[-1])
        if m is not None:
            self.A.mag[a] = m
        return Q(RF(Poly.atom(a)))

    # -- conditions --------------------------------------------------------------------------
    def cond(self, n, pol=True):
        """canonical form of a comparison:  ("ge0", poly) meaning poly >= 0 over the integers, ("eq0", poly),
        ("ne0", poly) or an opaque key.  Only when both sides are exact."""
        while n.op == "not":
            n, pol = n.args[0], not pol
        if n.op in ("lt", "eq") and all(a.op in NUMOPS or a.op in ATOMIC or isc(a) for a in n.args):
            try:
                a, b = self.q(n.args[0]), self.q(n.args[1])
            except Split:
                return ("op", n.id, pol)
            if n.op == "lt":
                # a < b  <=>  b - a - 1 >= 0 ;  not: a - b >= 0
                d = (b.E - a.E) if pol else (a.E - b.E)
                ex = a.exact and b.exact and d.poly() and d.n.integral()
                if ex:
                    return ("ge0", (d - 1).n if pol else d.n)
                return ("gt" if pol else "ge", d, a, b)
            d = a.E - b.E
            if d.poly():
                p = d.n
                if p.t and p.t[p.lead()] < 0:
                    p = p.neg()
                return ("eq0" if pol else "ne0", p)
            return ("eq0" if pol else "ne0", d.n)
        return ("op", self.nkey(n), pol)


def conjuncts(c):
    if c.op == "and":
        return [x for a in c.args for x in conjuncts(a)]
    return [c]


def whens(n):
    """the (condition, value) alternatives of a guarded choice; with two alternatives, one of which holds, a literal
    that is negated in the other decides"""
    ws = [(w.args[0], w.args[1]) for w in n.args]
    if len(ws) == 2:
        a, b = (conjuncts(c) for c, _ in ws)
        for l in a:
            m = nnot(l)
            if any(x is m for x in b):
                return [(l, ws[0][1]), (m, ws[1][1])]
    return ws


def fldof(e, f):
    if e.op == "gcases" and all(w.op == "when" for w in e.args):
        ws = [(c, fldof(v, f)) for c, v in whens(e)]
        if all(v is ws[0][1] for _, v in ws):
            return ws[0][1]
        return mk("gcases", *sorted((mk("when", c, v) for c, v in ws), key=lambda n: n.id))
    if e.op.startswith("struct:"):
        ks = e.op.split(":")[2].split(",")
        if f in ks:
            return e.args[ks.index(f)]
    if e.op == "tuple" and str(f).isdigit():
        return e.args[int(f)]
    return mk("fld", e, f)


def isnum(n):
    if n.op == "gcases":
        return all(w.op == "when" and isnum(w.args[1]) for w in n.args)
    return n.op in NUMOPS or n.op in ATOMIC or isc(n)


def understood(n, ok=()):
    """the graph of n uses only constructs whose meaning the analysis knows"""
    return all(understood1(x) for x in walk(n))


def understood1(x):
    for x in (x,):
        o = x.op
        if o in NUMOPS or o in ("var", "fld", "payload", "vfld", "bv", "const", "seq", "gcases", "when", "eq", "lt", "not", "and", "or",
                                "tuple", "list", "is", "range", "sort", "rev", "fits", "bits", "payload", "errof") or o.startswith(("variant:", "struct:")):
            if o == "cases":
                return False
            continue
        return False
    return True


def strip(d):
    while d.op in ("sort", "rev"):
        d = d.args[0]
    return d


def contains_fold_acc(n):
    return False


def _ren(p, sub):
    t = {}
    for k, v in p.t.items():
        k2 = tuple(sorted((sub.get(a, a), e) for a, e in k))
        t[k2] = t.get(k2, 0) + v
    return Poly(t)


def _m(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


BV = BV0
ATOMIC = {"var", "fld", "payload", "vfld", "bv", "phi", "loopout", "constitem", "default", "errof"}
NUMOPS = {"add", "sub", "mul", "div", "cdiv", "rdiv", "min", "max", "absdiff", "satsub", "sat", "trunc", "shl", "shr", "powi",
          "neg", "rem", "fold", "sum", "nzget", "isqrt", "cases", "conv", "idx", "len"}
