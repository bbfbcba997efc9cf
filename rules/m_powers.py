"""Logarithm, exponential and powers over fixed-point numbers."""
from vt.spec import *

T_ = "math::transcendental::"
W = 2**96
TM = {"S": ("U32F96",), "D": ("U32F96",), "T": ("U32F96",)}
SUM = {T_ + x for x in ("log2_inner", "log2", "ln", "exp", "powi_near_one", "saturating_pow", "rs")}


def bitset(e, i, bv):
    """(1 << i) & exp is nonzero on this pass: True / False / None"""
    ex = tonode_(e.raw("n"))
    for c, p in e._ck.st.facts:
        for x in walk(c):
            if x.op == "shl" and x.args[1] is bv and isc(x.args[0]) and cval(x.args[0]) != 1:
                return "wrong"
        if c.op in ("lt", "eq") and any(x.op == "op&" for x in walk(c)) and any(x is bv for x in walk(c)) and any(x is ex for x in walk(c)):
            if c.op == "lt" and c.args[0] is ZERO:
                return p
            if c.op == "eq" and (c.args[0] is ZERO or c.args[1] is ZERO):
                return not p
    return None


def specs():
    k = dict(tymap=TM, summaries=SUM, reject="open", degenerate=False)
    exact = lambda f, **kw: Out(f, "exact", 0, **kw)
    zero = lambda nm: (lambda e, c, st: e.holds(eq(ZERO, tonode_(e.raw(nm)))))
    is1 = lambda nm, w=W: (lambda e, c, st: e.holds(eq(const(w), tonode_(e.raw(nm)))))
    below1 = lambda e, c, st: e.lt(e.x, 1) or not e.le(1, e.x)
    log = fncall(T_ + "ln", NX(mk("var", "x")))
    lnf = lambda i: NX(mk("fld", mk("payload", log.n), i))
    fx = lambda e, q, *a: E(e, fncall(T_ + q, *a), W)

    def ex_step(e, v, i, bv):
        x = E(e, e.nx("x"))
        t = v[1] * x / (W * i)
        return [(v[0] + t, t)]

    def sp_step(e, v, i, bv):
        b = bitset(e, i, bv)
        sq = v[1] * v[1] / W
        alt = {True: [(v[0] * v[1] / W, sq)], False: [(v[0], sq)], None: [(v[0] * v[1] / W, sq), (v[0], sq)]}
        return alt.get(b, [])

    def pn_step(e, v, i, bv):
        x = E(e, e.nx("x"))
        t = v[2] * (W - x) * (E(e, e.nx("n")) - i + 1) / (i * W)
        return [(v[0] + t, v[1], t), (v[0], v[1] + t, t)]

    R_ = mk("payload", log.n)
    return [
        FnSpec(T_ + "log2", ["x"], {
            "0": [Out(lambda e: fx(e, "log2_inner", NX(div(const(W * W), tonode_(e.raw("x"))))), "exact", 0, when=lambda e, c, st: lt1(e)), exact(lambda e: fx(e, "log2_inner", e.nx("x")))],
            "1": [Out(lambda e: NX(TRUE), "graph", when=lambda e, c, st: lt1(e)), Out(lambda e: NX(FALSE), "graph")]}, **k),
        FnSpec(T_ + "ln", ["x"], {
            "0": Out(lambda e: E(e, fnfld(e, "log2", "0"), W) / E(e, NX(mk("var", "fixed::consts::LOG2_E")), W), "near", 4),
            "1": Out(lambda e: fnfld(e, "log2", "1"), "graph")}, **k),
        FnSpec(T_ + "pow", ["x", "y"], {"": [
            exact(lambda e: 0, when=zero("x")), exact(lambda e: 1, when=zero("y")), exact(lambda e: e.x, when=is1("y")),
            Out(lambda e: E(e, NX(mk("payload", fncall(T_ + "exp", NX(div(mul(tonode_(e.raw("y")), lnx(e, "0").n), const(W))), lnx(e, "1")).n)), W), "near", 4)]}, **k),
        FnSpec(T_ + "powi", ["x", "n"], {"": [
            exact(lambda e: 0, when=zero("x")), exact(lambda e: 1, when=zero("n")), exact(lambda e: e.x, when=is1("n", 1)),
            Out(lambda e: e.fold_node(mk("range", ONE, tonode_(e.raw("n")), False), E(e, e.nx("x")), lambda acc, i: acc * e.x) / W, "near", 4)]}, **k),
        FnSpec(T_ + "saturating_powi_high_precision", ["x", "n"], {"": [
            exact(lambda e: 0, when=zero("x")), exact(lambda e: 1, when=zero("n")), exact(lambda e: e.x, when=is1("n", 1)),
            Out(lambda e: anyof(e), "exact", 0)]}, **k),
        FnSpec(T_ + "exp", ["x", "neg"], {"": [exact(lambda e: 1, when=zero("x")),
                                                Out(lambda e: E(e, NX(mk("var", "fixed::consts::E")), W), "exact", 0, when=lambda e, c, st: noiter(e, c)),
                                                Out(lambda e: taylor(e), "near", 4)]}, **k),
        FnSpec(T_ + "saturating_pow", ["x", "n"], {"": [exact(lambda e: 1, when=zero("n")), Out(lambda e: loopres(e), "exact", 0)]}, **k),
        FnSpec(T_ + "powi_near_one", ["x", "n"], {"": [exact(lambda e: 1, when=zero("n")), exact(lambda e: e.x, when=is1("n", 1)), Out(lambda e: E(e, NX(result(e)), W), "near", 4)]}, **k),
        LoopSpec(T_ + "exp", ["x", "neg"], lambda e: [E(e, e.nx("x")) + W, E(e, e.nx("x"))], ex_step, passes=lambda e: (2, 100), **k),
        LoopSpec(T_ + "saturating_pow", ["x", "n"], lambda e: [W, E(e, e.nx("x"))], sp_step, passes=lambda e: (0, None), **k),
        LoopSpec(T_ + "powi_near_one", ["x", "n"], lambda e: [W, 0, W], pn_step, passes=lambda e: (1, None), **k),
    ]


def lt1(e):
    return e.holds(lt(tonode_(e.raw("x")), const(W)))


def fnfld(e, q, i):
    return NX(mk("fld", mk("payload", fncall(T_ + q, e.nx("x")).n), i))


def lnx(e, i):
    return fnfld(e, "ln", i)


def anyof(e):
    """the two power algorithms, each applied to the same operand and exponent"""
    a = fncall(T_ + "saturating_pow", e.nx("x"), e.nx("n"))
    b = mk("payload", fncall(T_ + "powi_near_one", e.nx("x"), e.nx("n")).n)
    nears = [c for c, p in e._ck.st.facts if p and any(x.op == "sum" and x.args[0].endswith("powi_near_one") for x in walk(c))]
    return E(e, NX(b) if nears else a, W)


def E(e, n, k=1):
    return e.node(nx(n), k)


def result(e):
    v = e._ck.exitv
    v = unwrap_ok(v)
    return tonode_(v[0]) if v else None


def noiter(e, c):
    """operand is one and the sign is positive"""
    return e.holds(eq(const(W), tonode_(e.raw("x")))) and not e.holds(tonode_(e.raw("neg")))


def taylor(e):
    n = result(e)
    f = [x for x in walk(n) if x.op == "foldx"]
    if not f:
        return rf(1)
    v = E(e, NX(f[0]), W)
    return 1 / v if e.holds(tonode_(e.raw("neg"))) else v


def loopres(e):
    n = result(e)
    f = [x for x in walk(n) if x.op == "loopout"]
    return E(e, NX(f[0]), W) if f else E(e, e.nx("x"), W)
