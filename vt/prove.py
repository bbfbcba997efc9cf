"""Order / interval reasoning over the value graph, driven by the facts that hold on a path."""
from .terms import *

_leafbits = {}
_ub_memo = {}

TW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 32, "U128": 128, "U256": 256, "U512": 512,
      "FixedU128": 128, "Fraction": 128, "U1F127": 128, "U32F96": 128, "NonZeroU128": 128, "Balance": 128,
      "NonZeroU16": 16, "NonZeroU32": 32, "i128": 127}
TMAX = {"Permill": 10**6, "Perbill": 10**9, "Perquintill": 10**18, "Percent": 100}


def leaf(node, ty):
    """register the type-implied upper bound of a leaf"""
    if not ty:
        return
    if ty[0] == "Into" and len(ty) > 1:
        return leaf(node, ty[1])
    k = ty[0]
    m = TMAX.get(k)
    if m is None and k in TW:
        m = 2 ** TW[k] - 1
    if m is not None:
        _leafbits.setdefault(node.id, m)


def ub(node, facts=(), d=0):
    """an upper bound of the node's value or None"""
    r = _ub(node, facts, d)
    if facts:
        for f, p in facts:
            b = None
            if f.op == "lt":
                x, y = f.args
                if p and x is node:
                    b = ub(y, (), d + 1)
                    if b is not None:
                        b -= 1
                elif not p and y is node:
                    b = ub(x, (), d + 1)
            elif f.op == "eq" and p:
                if f.args[0] is node and isc(f.args[1]):
                    b = cval(f.args[1])
                elif f.args[1] is node and isc(f.args[0]):
                    b = cval(f.args[0])
            elif f.op == "fits" and p and f.args[0] is node and (isinstance(f.args[1], int) or f.args[1] == "?"):
                b = 2 ** (f.args[1] if isinstance(f.args[1], int) else 128) - 1
            elif not p and f.op == "eq" and f.args[0].op == "shrz":
                pass
            if b is not None and (r is None or b < r):
                r = b
    return r


def _ub(n, facts, d):
    if d > 60:
        return None
    if not facts:
        k = n.id
        if k in _ub_memo:
            return _ub_memo[k]
        r = _ub0(n, facts, d)
        _ub_memo[k] = r
        return r
    return _ub0(n, facts, d)


def _ub0(n, facts, d):
    op = n.op
    if op == "const":
        return n.args[0] if isinstance(n.args[0], int) else None
    lb_ = _leafbits.get(n.id)
    r = None
    if op in ("add", "mul", "max", "absdiff"):
        a, b = ub(n.args[0], facts, d + 1), ub(n.args[1], facts, d + 1)
        if a is not None and b is not None:
            r = {"add": lambda: a + b, "mul": lambda: a * b, "max": lambda: max(a, b), "absdiff": lambda: max(a, b)}[op]()
    elif op == "min":
        a, b = ub(n.args[0], facts, d + 1), ub(n.args[1], facts, d + 1)
        r = a if b is None else b if a is None else min(a, b)
    elif op in ("sub", "satsub"):
        r = ub(n.args[0], facts, d + 1)
        if r is not None:
            l = lb(n.args[1], facts)
            if l and r >= l:
                r -= l
    elif op in ("div", "cdiv", "rdiv"):
        a = ub(n.args[0], facts, d + 1)
        if a is not None:
            l = max(1, lb(n.args[1], facts))
            r = a // l if op == "div" else -(-a // l)
        # floor(x*y / z) with y <= z
        if op == "div" and n.args[0].op == "mul":
            for i in (0, 1):
                p, q = n.args[0].args[i], n.args[0].args[1 - i]
                if le(facts, q, n.args[1], 4):
                    u = ub(p, facts, d + 1)
                    if u is not None and (r is None or u < r):
                        r = u
    elif op == "rem":
        a, b = ub(n.args[0], facts, d + 1), ub(n.args[1], facts, d + 1)
        if b is not None:
            b = max(0, b - 1)
        r = a if b is None else b if a is None else min(a, b)
    elif op in ("trunc", "sat"):
        w = n.args[1]
        a = ub(n.args[0], facts, d + 1)
        r = a
        if w:
            m = 2 ** w - 1
            r = m if a is None else min(a, m)
    elif op == "cases":
        us = [ub(a, facts, d + 1) for a in n.args]
        r = max(us) if all(u is not None for u in us) else None
    elif op == "shr":
        r = ub(n.args[0], facts, d + 1)
    if lb_ is not None:
        r = lb_ if r is None else min(r, lb_)
    return r


def lb(n, facts=(), d=0):
    """a lower bound of the node's value (>= 0)"""
    r = 0
    if d > 12:
        return 0
    op = n.op
    if op == "const":
        return n.args[0] if isinstance(n.args[0], int) and n.args[0] > 0 else 0
    if op == "add":
        r = lb(n.args[0], facts, d + 1) + lb(n.args[1], facts, d + 1)
    elif op == "mul":
        r = lb(n.args[0], facts, d + 1) * lb(n.args[1], facts, d + 1)
    elif op == "max":
        r = max(lb(n.args[0], facts, d + 1), lb(n.args[1], facts, d + 1))
    elif op == "min":
        r = min(lb(n.args[0], facts, d + 1), lb(n.args[1], facts, d + 1))
    elif op == "nzget":
        r = 1
    elif op in ("powi", "powsat") and lb(n.args[0], facts, d + 1) >= 1:
        r = 1
    elif op in ("div", "cdiv"):
        a = lb(n.args[0], facts, d + 1)
        u = ub(n.args[1], facts)
        if a and u:
            r = a // u if op == "div" else -(-a // u)
    elif op in ("sub", "satsub"):
        a = lb(n.args[0], facts, d + 1)
        u = ub(n.args[1], facts) if a else None
        if a and u is not None and a > u:
            r = a - u
    for f, p in facts:
        if f.op == "lt":
            x, y = f.args
            if p and y is n:
                r = max(r, lb(x, (), d + 1) + 1)
            elif not p and x is n:
                r = max(r, lb(y, (), d + 1))
        elif f.op == "eq":
            if p:
                if f.args[0] is n and isc(f.args[1]):
                    r = max(r, cval(f.args[1]))
                elif f.args[1] is n and isc(f.args[0]):
                    r = max(r, cval(f.args[0]))
            elif r == 0 and ((f.args[0] is n and f.args[1] is ZERO) or (f.args[1] is n and f.args[0] is ZERO)):
                r = 1
    return r


def bits(node):
    u = ub(node)
    return None if u is None else u.bit_length()


def le_const(facts, node, c):
    u = ub(node, facts)
    return u is not None and u <= c


def _eqs(facts, n):
    for f, p in facts:
        if p and f.op == "eq":
            if f.args[0] is n:
                yield f.args[1]
            elif f.args[1] is n:
                yield f.args[0]


def le(facts, a, b, d=0):
    """a <= b provable"""
    if a is b or a is ZERO:
        return True
    if d > 7:
        return False
    if isc(a) and isc(b):
        return cval(a) <= cval(b)
    if isc(a) and lb(b, facts) >= cval(a):
        return True
    if isc(b):
        u = ub(a, facts)
        if u is not None and u <= cval(b):
            return True
    for f, p in facts:
        if f.op == "lt":
            x, y = f.args
            if not p and x is b and y is a:
                return True
            if p and x is a and y is b:
                return True
        elif f.op == "eq" and p:
            if (f.args[0] is a and f.args[1] is b) or (f.args[0] is b and f.args[1] is a):
                return True
    op, bo = a.op, b.op
    if op == "min" and (le(facts, a.args[0], b, d + 1) or le(facts, a.args[1], b, d + 1)):
        return True
    if bo == "max" and (le(facts, a, b.args[0], d + 1) or le(facts, a, b.args[1], d + 1)):
        return True
    if op == "max" and le(facts, a.args[0], b, d + 1) and le(facts, a.args[1], b, d + 1):
        return True
    if bo == "min" and le(facts, a, b.args[0], d + 1) and le(facts, a, b.args[1], d + 1):
        return True
    if op in ("sub", "satsub") and le(facts, a.args[0], b, d + 1):
        return True
    if op in ("sub", "satsub") and bo in ("sub", "satsub") and le(facts, a.args[0], b.args[0], d + 1) and le(facts, b.args[1], a.args[1], d + 1):
        return True
    if op in ("trunc", "sat") and le(facts, a.args[0], b, d + 1):
        return True
    if op == "absdiff" and le(facts, a.args[0], b, d + 1) and le(facts, a.args[1], b, d + 1):
        return True
    if op == "rem" and le(facts, a.args[0], b, d + 1):
        return True
    if op in ("div", "cdiv", "rdiv"):
        x, y = a.args
        if lb(y, facts) >= 1 or True:  # division is only reached with a non-zero divisor
            if le(facts, x, b, d + 1):
                return True
        if x.op == "mul":
            for i in (0, 1):
                p, q = x.args[i], x.args[1 - i]
                if le(facts, q, y, d + 1) and le(facts, p, b, d + 1):
                    return True
        if bo in ("div", "cdiv", "rdiv") and op == "div":
            if b.args[1] is y and le(facts, x, b.args[0], d + 1):
                return True
    if op in ("div", "cdiv") and bo == op and a.args[1] is b.args[1] and le(facts, a.args[0], b.args[0], d + 1):
        return True
    if op == "div" and bo == "div" and a.args[0] is b.args[0] and le(facts, b.args[1], a.args[1], d + 1):
        return True
    if bo == "add":
        if le(facts, a, b.args[0], d + 1) or le(facts, a, b.args[1], d + 1):
            return True
        if op == "add":
            for i in (0, 1):
                if le(facts, a.args[i], b.args[0], d + 1) and le(facts, a.args[1 - i], b.args[1], d + 1):
                    return True
        # a = y - x.. ; a <= p + q with a = (r - s), r <= p + q + s handled by sub rule
    if op == "add":
        # x + y <= b  if b = p and  y <= p - x  known
        for i in (0, 1):
            x, y = a.args[i], a.args[1 - i]
            if y.op == "sub" and y.args[1] is x and le(facts, y.args[0], b, d + 1):
                return True
            if y.op == "sub" and le(facts, x, y.args[1], d + 1) and le(facts, y.args[0], b, d + 1):
                return True
    if bo == "sub":
        # a <= p - q  from  a + q <= p
        s = add(a, b.args[1])
        if not (s.op == "add" and s is a) and d < 4 and _fact_le(facts, s, b.args[0]):
            return True
    if bo == "mul":
        for i in (0, 1):
            if lb(b.args[1 - i], facts) >= 1 and le(facts, a, b.args[i], d + 1):
                return True
        if op == "mul":
            for i in (0, 1):
                if le(facts, a.args[i], b.args[0], d + 1) and le(facts, a.args[1 - i], b.args[1], d + 1):
                    return True
    if bo == "cdiv" and b.args[0].op == "mul":
        for i in (0, 1):
            if le(facts, b.args[1], b.args[0].args[i], d + 1) and le(facts, a, b.args[0].args[1 - i], d + 1):
                return True
    if bo == "div" and b.args[0].op == "mul":
        for i in (0, 1):
            if le(facts, b.args[1], b.args[0].args[i], d + 1) and le(facts, a, b.args[0].args[1 - i], d + 1):
                return True
    # transitivity through facts
    if d < 4:
        for f, p in facts:
            if f.op == "lt":
                x, y = f.args
                c = None
                if p and x is a:
                    c = y
                elif not p and y is a:
                    c = x
                if c is not None and c is not b and le(facts, c, b, d + 3):
                    return True
                c = None
                if p and y is b:
                    c = x
                elif not p and x is b:
                    c = y
                if c is not None and c is not a and le(facts, a, c, d + 3):
                    return True
        for c in _eqs(facts, a):
            if c is not b and le(facts, c, b, d + 3):
                return True
        for c in _eqs(facts, b):
            if c is not a and le(facts, a, c, d + 3):
                return True
    return False


def _fact_le(facts, a, b):
    for f, p in facts:
        if f.op == "lt":
            if (not p and f.args[0] is b and f.args[1] is a) or (p and f.args[0] is a and f.args[1] is b):
                return True
    return False


def lt_(facts, a, b, d=0):
    if a is b or d > 6:
        return False
    if isc(a) and isc(b):
        return cval(a) < cval(b)
    if isc(a) and lb(b, facts) > cval(a):
        return True
    if isc(b):
        u = ub(a, facts)
        if u is not None and u < cval(b):
            return True
    for f, p in facts:
        if f.op == "lt" and p and f.args[0] is a and f.args[1] is b:
            return True
    # a <= b and a != b
    for f, p in facts:
        if f.op == "eq" and not p and ((f.args[0] is a and f.args[1] is b) or (f.args[0] is b and f.args[1] is a)):
            if le(facts, a, b):
                return True
    if a.op == "rem" and a.args[1] is b:
        return True
    if b.op == "add":
        for i in (0, 1):
            if lb(b.args[i], facts) >= 1 and le(facts, a, b.args[1 - i], d + 2):
                return True
            if lt_(facts, a, b.args[i], d + 2):
                return True
    if a.op == "sub" and lb(a.args[1], facts) >= 1 and le(facts, a.args[0], b, d + 2):
        return True
    if a.op in ("div",) and isc(a.args[1]) and cval(a.args[1]) > 1 and lb(b, facts) >= 1 and le(facts, a.args[0], b, d + 2):
        return True
    if a.op == "min" and (lt_(facts, a.args[0], b, d + 1) or lt_(facts, a.args[1], b, d + 1)):
        return True
    if b.op == "max" and (lt_(facts, a, b.args[0], d + 1) or lt_(facts, a, b.args[1], d + 1)):
        return True
    if b.op == "sub":
        s = add(a, b.args[1])
        for f, p in facts:
            if f.op == "lt" and p and f.args[0] is s and f.args[1] is b.args[0]:
                return True
    if d < 3:
        for f, p in facts:
            if f.op == "lt":
                x, y = f.args
                if p and x is a and y is not b and le(facts, y, b, d + 3):
                    return True
                if p and y is b and x is not a and le(facts, a, x, d + 3):
                    return True
                if not p and y is a and x is not b and lt_(facts, x, b, d + 2):
                    return True
        for c in _eqs(facts, a):
            if c is not b and lt_(facts, c, b, d + 3):
                return True
    return False


def nonzero(facts, n, d=0):
    if lb(n, facts) >= 1:
        return True
    if d > 8:
        return False
    op = n.op
    for f, p in facts:
        if f.op == "lt":
            if p and f.args[1] is n:
                return True
            if not p and f.args[0] is n and nonzero(facts, f.args[1], d + 4):
                return True
        elif f.op == "eq":
            if not p:
                for i in (0, 1):
                    if f.args[i] is n and f.args[1 - i] is ZERO:
                        return True
                    # a product (or floor) known non-zero has non-zero factors
                    if f.args[1 - i] is ZERO and implies_nonzero(f.args[i], n):
                        return True
            else:
                for i in (0, 1):
                    if f.args[i] is n and f.args[1 - i] is not n and nonzero(facts, f.args[1 - i], d + 4):
                        return True
    if op == "add":
        return any(nonzero(facts, a, d + 1) for a in n.args)
    if op == "mul":
        return all(nonzero(facts, a, d + 1) for a in n.args)
    if op == "max":
        return any(nonzero(facts, a, d + 1) for a in n.args)
    if op == "min":
        return all(nonzero(facts, a, d + 1) for a in n.args)
    if op == "cdiv":
        return nonzero(facts, n.args[0], d + 1)
    if op == "div":
        return nonzero(facts, n.args[1], d + 1) and le(facts, n.args[1], n.args[0], 3)
    if op in ("sub", "satsub"):
        return lt_(facts, n.args[1], n.args[0])
    if op == "absdiff":
        return lt_(facts, n.args[1], n.args[0]) or lt_(facts, n.args[0], n.args[1]) or any(
            f.op == "eq" and not p and {f.args[0].id, f.args[1].id} == {n.args[0].id, n.args[1].id} for f, p in facts)
    if op in ("trunc",):
        return False
    if op == "sat":
        return nonzero(facts, n.args[0], d + 1)
    if op == "cases":
        return all(nonzero(facts, a, d + 1) for a in n.args)
    if op == "repeat_ne":
        return True
    return False


def implies_nonzero(big, n, d=0):
    """big != 0 implies n != 0"""
    if big is n:
        return True
    if d > 5:
        return False
    if big.op == "mul":
        return any(implies_nonzero(a, n, d + 1) for a in big.args)
    if big.op in ("div", "cdiv", "sub", "satsub", "sat", "trunc"):
        return implies_nonzero(big.args[0], n, d + 1)
    if big.op == "min":
        return any(implies_nonzero(a, n, d + 1) for a in big.args)
    return False


def decide(facts, n, d=0):
    if n is TRUE:
        return True
    if n is FALSE:
        return False
    for f, p in facts:
        if f is n:
            return p
    if n.op == "not":
        r = decide(facts, n.args[0], d + 1)
        return None if r is None else not r
    if n.op == "and":
        a, b = decide(facts, n.args[0], d + 1), decide(facts, n.args[1], d + 1)
        if a is False or b is False:
            return False
        return True if a and b else None
    if n.op == "or":
        a, b = decide(facts, n.args[0], d + 1), decide(facts, n.args[1], d + 1)
        if a or b:
            return True
        return False if a is False and b is False else None
    if n.op == "lt":
        if lt_(facts, *n.args):
            return True
        if le(facts, n.args[1], n.args[0]):
            return False
    if n.op == "eq":
        a, b = n.args
        for x, y in ((a, b), (b, a)):
            if y is ZERO:
                if nonzero(facts, x):
                    return False
                u = ub(x, facts)
                if u == 0:
                    return True
        if a.op == "const" and b.op == "const":
            return a is b
        num = all(isc(x) or x.id in _leafbits or x.op in ("add", "sub", "mul", "div", "cdiv", "min", "max", "satsub", "absdiff") for x in (a, b))
        if num:
            if lt_(facts, a, b) or lt_(facts, b, a):
                return False
            if le(facts, a, b) and le(facts, b, a):
                return True
    return None
