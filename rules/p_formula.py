"""Expressions compared as exact rational functions of their leaves (rounding and saturation set aside)."""
from vt.ratfun import RF, Poly, rf, _names
from vt.terms import *
from rules.plib import strip

_atoms = {}


def ratio(n, leaf=None):
    """the rational function an arithmetic expression computes; None when a leaf is refused"""
    if n.op == "const" and isinstance(n.args[0], int):
        return rf(n.args[0])
    if n.op == "sat":
        return ratio(n.args[0], leaf)
    if n.op in ("add", "mul"):
        out = None
        for x in n.args:
            v = ratio(x, leaf)
            if v is None:
                return None
            out = v if out is None else out + v if n.op == "add" else out * v
        return out
    if n.op in ("sub", "div", "cdiv", "satsub"):
        a, b = ratio(n.args[0], leaf), ratio(n.args[1], leaf)
        if a is None or b is None:
            return None
        if n.op in ("sub", "satsub"):
            return a - b
        return None if b.iszero() else a / b
    if leaf is not None and not leaf(n):
        return None
    k = strip(n)
    if k not in _atoms:
        _atoms[k] = 10**7 + len(_atoms)
        _names[_atoms[k]] = show(k)[:40]
    return RF(Poly.atom(_atoms[k]))


def same(a, b, leaf=None):
    """do two expressions compute the same rational function (None: not comparable)?"""
    x, y = ratio(a, leaf), ratio(b, leaf)
    return None if x is None or y is None else x.same(y)
