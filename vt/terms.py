"""Hash-consed value-dependence graph (value numbering) and the values of the abstract evaluator."""

_table = {}
_next = [0]


class Node:
    __slots__ = ("op", "args", "id", "_h")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(("n", a.id) if isinstance(a, Node) else a for a in args)
    n = _table.get(key)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = _next[0]
        _next[0] += 1
        _table[key] = n
    return n


_INF = {"add": "+", "sub": "-", "mul": "*", "div": "/", "lt": "<", "eq": "==", "and": "&&", "or": "||", "rem": "%"}


def show(n, d=0):
    if not isinstance(n, Node):
        return str(n)
    if n.op == "const":
        v = n.args[0]
        if isinstance(v, int) and v > 10**9:
            for b in (18, 12, 6):
                if v == 10**b:
                    return f"1e{b}"
            if v & (v - 1) == 0:
                return f"2^{v.bit_length()-1}"
        return str(v)
    if n.op in ("var", "bv"):
        return str(n.args[0])
    if d > 7:
        return "…"
    if n.op in _INF and len(n.args) == 2:
        return f"({show(n.args[0], d+1)} {_INF[n.op]} {show(n.args[1], d+1)})"
    return f"{n.op}({', '.join(show(a, d+1) for a in n.args)})"


def const(v):
    return mk("const", v)


ZERO = const(0)
ONE = const(1)
TRUE = mk("const", "true")
FALSE = mk("const", "false")
UNIT = mk("const", "()")


def isc(n):
    return n.op == "const" and isinstance(n.args[0], int)


def cval(n):
    return n.args[0]


def add(a, b):
    if isc(a) and isc(b):
        return const(cval(a) + cval(b))
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("add", a, b)


def sub(a, b):
    if isc(a) and isc(b) and cval(a) >= cval(b):
        return const(cval(a) - cval(b))
    if b is ZERO:
        return a
    if a is b:
        return ZERO
    return mk("sub", a, b)


def mul(a, b):
    if isc(a) and isc(b):
        return const(cval(a) * cval(b))
    if a is ZERO or b is ZERO:
        return ZERO
    if a is ONE:
        return b
    if b is ONE:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("mul", a, b)


def div(a, b):
    if isc(b) and cval(b) != 0:
        if isc(a):
            return const(cval(a) // cval(b))
        if b is ONE:
            return a
    return mk("div", a, b)


def cdiv(a, b):
    if isc(b) and cval(b) != 0 and isc(a):
        return const(-(-cval(a) // cval(b)))
    return mk("cdiv", a, b)


def rdiv(a, b):  # rounded to nearest
    return mk("rdiv", a, b)


def nmin(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return const(min(cval(a), cval(b)))
    if a.id > b.id:
        a, b = b, a
    return mk("min", a, b)


def nmax(a, b):
    if a is b:
        return a
    if isc(a) and isc(b):
        return const(max(cval(a), cval(b)))
    if a.id > b.id:
        a, b = b, a
    return mk("max", a, b)


def absdiff(a, b):
    if a.id > b.id:
        a, b = b, a
    return mk("absdiff", a, b)


def lt(a, b):
    if isc(a) and isc(b):
        return TRUE if cval(a) < cval(b) else FALSE
    if a is b:
        return FALSE
    if b is ZERO:
        return FALSE
    if b is ONE:
        return eq(a, ZERO)
    return mk("lt", a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "const" and b.op == "const":
        return TRUE if a.args == b.args else FALSE
    if a.op.startswith("variant:") and b.op.startswith("variant:") and not a.args and not b.args:
        return FALSE
    if a.op == b.op and len(a.args) == len(b.args) and a.args and (a.op == "tuple" or a.op.startswith("struct:")) and all(isinstance(x, Node) for x in a.args + b.args):
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = nand(r, eq(x, y))
        return r
    if a.id > b.id:
        a, b = b, a
    # x == true / x == false
    for x, y in ((a, b), (b, a)):
        if x is TRUE and y.op in BOOLOPS:
            return y
        if x is FALSE and y.op in BOOLOPS:
            return nnot(y)
    return mk("eq", a, b)


BOOLOPS = {"lt", "eq", "and", "or", "not", "is", "fits"}


def nnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    return mk("not", a)


def nand(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("and", a, b)


def nor(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("or", a, b)


def walk(n, seen=None):
    """all distinct sub-nodes"""
    if seen is None:
        seen = set()
    st = [n]
    while st:
        x = st.pop()
        if not isinstance(x, Node) or x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(a for a in x.args if isinstance(a, Node))


def contains(n, m):
    return any(x is m for x in walk(n))


def subst(n, mp, memo=None):
    """replace nodes (by identity) using mp: {node: node}; rebuilds with the smart constructors"""
    if memo is None:
        memo = {}
    if not isinstance(n, Node):
        return n
    if n in mp:
        return mp[n]
    r = memo.get(n.id)
    if r is not None:
        return r
    if not any(isinstance(a, Node) for a in n.args):
        memo[n.id] = n
        return n
    args = [subst(a, mp, memo) for a in n.args]
    if all(x is y for x, y in zip(args, n.args)):
        r = n
    else:
        f = _SMART.get(n.op)
        r = f(*args) if f else mk(n.op, *args)
        if n.id in BLEV:
            BLEV[r.id] = BLEV[n.id]
    memo[n.id] = r
    return r


def idx(n, i):
    """element of a sequence; reversal is resolved at both ends"""
    if n.op == "list" and i.op == "const" and isinstance(i.args[0], int) and i.args[0] < len(n.args):
        return n.args[i.args[0]]
    if n.op == "rev":
        x = n.args[0]
        if i is ZERO:
            return mk("idx", x, sub(mk("len", x), const(1)))
        if i is sub(mk("len", x), const(1)):
            return mk("idx", x, ZERO)
    return mk("idx", n, i)


_SMART = {
    "idx": idx,
    "add": add, "sub": sub, "mul": mul, "div": div, "cdiv": cdiv, "min": nmin, "max": nmax,
    "absdiff": absdiff, "lt": lt, "eq": eq, "not": nnot, "and": nand, "or": nor,
}

# ---- bound variables (de Bruijn levels, innermost = 0) ----
_bvlev = {}
_lev_memo = {}


def bvi(k):
    n = mk("bv", "i" if k == 0 else f"i#{k}")
    _bvlev[n.id] = k
    return n


def bva(k):
    n = mk("bv", "acc" if k == 0 else f"acc#{k}")
    _bvlev[n.id] = k
    return n


def bvlevel(n):
    """1 + the highest binder level used inside n (0: none)"""
    if not isinstance(n, Node):
        return 0
    r = _lev_memo.get(n.id)
    if r is not None:
        return r
    if n.op == "bv":
        r = _bvlev[n.id] + 1 if n.id in _bvlev else 0
    else:
        r = 0
        for a in n.args:
            if isinstance(a, Node):
                x = bvlevel(a)
                if x > r:
                    r = x
    _lev_memo[n.id] = r
    return r


def binders(n):
    """the (index, accumulator) variables bound by a seq or fold node"""
    k = BLEV.get(n.id)
    if k is None:
        body = n.args[1:] if n.op == "seq" else n.args[2:]
        k = max([bvlevel(a) for a in body] + [1]) - 1
    return bvi(k), bva(k)


_free = {}


def freebv(n):
    """bound variables free in n"""
    r = _free.get(n.id)
    if r is not None:
        return r
    if n.op == "bv":
        r = frozenset([n.id])
    elif n.op in ("seq", "fold"):
        k = 1 if n.op == "seq" else 2
        r = frozenset()
        for a in n.args[k:]:
            if isinstance(a, Node):
                r |= freebv(a)
        B, A = binders(n)
        r -= {B.id, A.id}
        for a in n.args[:k]:
            r |= freebv(a)
    else:
        r = frozenset()
        for a in n.args:
            if isinstance(a, Node):
                r |= freebv(a)
    _free[n.id] = r
    return r


BLEV = {}


def mkb(k, *args):
    n = mk(*args)
    BLEV[n.id] = k
    return n


BV0 = bvi(0)

# ---- values -------------------------------------------------------------------------------


class Val:
    __slots__ = ()


class Num(Val):
    """a scalar or opaque value: graph node + static type (tuple) or None"""
    __slots__ = ("n", "ty")

    def __init__(self, n, ty=None):
        self.n = n
        self.ty = ty

    def __repr__(self):
        return f"{self.n!r}:{self.ty}"


class Tup(Val):
    __slots__ = ("xs",)

    def __init__(self, xs):
        self.xs = list(xs)

    def __repr__(self):
        return f"({', '.join(map(repr, self.xs))})"


class Struct(Val):
    __slots__ = ("name", "f", "base")

    def __init__(self, name, f, base=None):
        self.name = name
        self.f = dict(f)
        self.base = base  # opaque remainder (..rest), a Val or None

    def __repr__(self):
        return f"{self.name}{{{', '.join(f'{k}: {v!r}' for k, v in self.f.items())}}}"


class Var(Val):
    """enum variant with payload"""
    __slots__ = ("name", "xs", "f", "enum")

    def __init__(self, name, xs=(), f=None, enum=None):
        self.name = name
        self.xs = list(xs)
        self.f = f
        self.enum = enum

    def __repr__(self):
        return f"{self.name}({', '.join(map(repr, self.xs))})" if self.xs else self.name


class Part(Val):
    """Option/Result that is Some/Ok(payload) iff all conds hold. conds: [(node, polarity)]"""
    __slots__ = ("v", "conds", "kind", "err")

    def __init__(self, v, conds, kind="Option", err=None):
        self.v = v
        self.conds = list(conds)
        self.kind = kind
        self.err = err

    def __repr__(self):
        return f"{self.kind}?[{self.v!r} if {self.conds}]"


class Clo(Val):
    __slots__ = ("params", "body", "scope", "fctx", "ret")

    def __init__(self, params, body, scope, fctx, ret=None):
        self.params = params
        self.body = body
        self.scope = scope
        self.fctx = fctx
        self.ret = ret


class FnV(Val):
    """a function or constructor used as a value"""
    __slots__ = ("path", "item", "qself")

    def __init__(self, path, item=None, qself=None):
        self.path = path
        self.item = item
        self.qself = qself


class Key:
    """a map entry as a step of a place"""
    __slots__ = ("node",)

    def __init__(self, node):
        self.node = node

    def __eq__(self, o):
        return isinstance(o, Key) and o.node is self.node

    def __hash__(self):
        return hash(self.node)


class Idx(Key):
    """an element of a sequence as a step of a place"""
    __slots__ = ()


class MutRef(Val):
    __slots__ = ("slot", "path")

    def __init__(self, slot, path=()):
        self.slot = slot
        self.path = tuple(path)


class ListV(Val):
    """array / vec literal with known elements"""
    __slots__ = ("xs", "ty")

    def __init__(self, xs, ty=None):
        self.xs = list(xs)
        self.ty = ty

    def __repr__(self):
        return f"[{', '.join(map(repr, self.xs))}]"


UNITV = Tup([])


def tonode(v):
    if isinstance(v, Num):
        return v.n
    if isinstance(v, Tup):
        if not v.xs:
            return UNIT
        xs = [tonode(x) for x in v.xs]
        if len(xs) > 1 and all(x.op == "fld" and x.args[1] == str(i) and x.args[0] is xs[0].args[0] for i, x in enumerate(xs)):
            return xs[0].args[0]
        return mk("tuple", *xs)
    if isinstance(v, ListV):
        return mk("list", *[tonode(x) for x in v.xs])
    if isinstance(v, Struct):
        ks = sorted(v.f)
        extra = [tonode(v.base)] if v.base is not None else []
        if extra and all(f.op == "fld" and f.args[0] is extra[0] and f.args[1] == k for k, f in ((k, tonode(v.f[k])) for k in ks)):
            return extra[0]
        return mk("struct:" + v.name + ":" + ",".join(ks), *[tonode(v.f[k]) for k in ks], *extra)
    if isinstance(v, Var):
        if v.f:
            ks = sorted(v.f)
            return mk("variant:" + v.name + ":" + ",".join(ks), *[tonode(v.f[k]) for k in ks])
        return mk("variant:" + v.name, *[tonode(x) for x in v.xs])
    if isinstance(v, Part):
        return mk("part:" + v.kind, tonode(v.v), *[(c if p else nnot(c)) for c, p in v.conds])
    if isinstance(v, Clo):
        return mk("closure", id(v.body))
    if isinstance(v, FnV):
        return mk("fn", "::".join(v.path))
    if isinstance(v, MutRef):
        return mk("mutref", v.slot, *map(str, v.path))
    if isinstance(v, Node):
        return v
    return mk("opaque", repr(v))
