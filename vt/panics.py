"""Arithmetic and panic obligations: proved from the path facts, or shown reachable when everything about them is a
linear statement over the function's own arguments; anything else stays undecided."""
from .spec import *
from .interp import WIDTH
from . import prove as P


def isinput(n):
    while n.op in ("fld", "payload", "vfld"):
        n = n.args[0]
    return n.op == "var" and "::" not in str(n.args[0])


def pure(ctx, poly):
    return all(ctx.A.defs.get(a) is not None and isinput(ctx.A.defs[a]) for a in poly.atoms())


def atoms_of(ctx, st):
    """(conditions as RF >= 0, atoms of each, complete) for the facts of a path"""
    out = []
    for c, p in st:
        try:
            k = ctx.cond(c, p)
        except (Undecided, TooBig, Split):
            out.append((None, c, p))
            continue
        if k[0] == "ge0":
            out.append((RF(k[1]), c, p))
        elif k[0] in ("gt", "ge"):
            out.append((k[1], c, p))
        elif k[0] == "eq0":
            out.append((("eq", RF(k[1])), c, p))
        elif k[0] == "ne0":
            out.append((("ne", RF(k[1])), c, p))
        else:
            out.append((None, c, p))
    return out


def atomset(ctx, r):
    return set(r.atoms())


def leaves(n):
    return {x for x in walk(n) if x.op in ("var", "fld", "payload", "vfld")}


def relevant(ctx, conds, goal_nodes):
    """facts that share an argument with the goal, transitively; None when one of them is outside the domain"""
    S = set()
    for g in goal_nodes:
        S |= {x for x in leaves(g) if isinput(x)}
    todo = list(conds)
    rel = []
    ch = True
    while ch:
        ch = False
        for t in list(todo):
            r, c, p = t
            L = {x for x in leaves(c) if isinput(x)}
            if L & S:
                todo.remove(t)
                if c.op == "is":
                    continue
                rel.append(t)
                S |= L
                ch = True
    return rel


def deg1(r):
    return r.d.isc() and all(sum(e for _, e in m) <= 1 for m in r.n.t)


def linear_only(r):
    return r.d.isc() and all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in r.n.t)


def refuted_ge0(ctx, facts, goal, nodes):
    """the linear goal >= 0 fails for some argument values allowed by the (linear) facts"""
    if not linear_only(goal) or not pure(ctx, goal.n):
        return False
    rel = relevant(ctx, atoms_of(ctx, facts), nodes)
    cs = []
    for r, c, p in rel:
        if r is None:
            return False
        if isinstance(r, tuple):
            k, r = r
            if not linear_only(r) or not pure(ctx, r.n):
                return False
            if k == "eq":
                cs += [r, -r]
            continue  # a disequation removes no open set
        if not linear_only(r) or not pure(ctx, r.n):
            return False
        cs.append(r)
    return not linear(goal, cs) and not implied(goal, cs)


def refuted_fits(ctx, facts, node, W):
    """the value exceeds W bits for some argument values allowed by the facts"""
    q = ctx.q(node)
    E = q.E
    if E.n.zero() or not pure(ctx, E.n) or not pure(ctx, E.d):
        return False
    if any(v < 0 for v in E.n.t.values()) or not (len(E.d.t) == 1):
        return False
    num, den = set(E.n.atoms()), set(E.d.atoms())
    if num & den:
        return False
    # the facts may only give each atom an interval of its own
    for r, c, p in relevant(ctx, atoms_of(ctx, facts), [node]):
        if r is None:
            return False
        if isinstance(r, tuple):
            if r[0] == "ne" and len(set(r[1].n.atoms())) == 1:
                continue
            return False
        if not linear_only(r) or len(set(r.n.atoms())) != 1:
            return False
    val = Fr(0)
    for m, v in E.n.t.items():
        x = Fr(v)
        for a, e in m:
            u = P.ub(ctx.A.defs[a], facts)
            if u is None:
                return False
            x *= Fr(u) ** e
        val += x
    (m, v), = E.d.t.items()
    for a, e in m:
        l = max(P.lb(ctx.A.defs[a], facts), 1)
        v = v * Fr(l) ** e
    return val / v > 2 ** W * 2


def refuted_nonzero(ctx, facts, node):
    """the divisor is zero for some argument values allowed by the facts"""
    q = ctx.q(node)
    E = q.E
    if not pure(ctx, E.n) or not q.exact:
        return False
    t = E.n.t
    if any(v < 0 for v in t.values()) or () in t and t[()] != 0:
        return linear_only(E) and q.exact and refuted_ge0(ctx, facts, E - 1, [node]) and refuted_ge0(ctx, facts, -E - 1, [node]) and False
    at = set(E.n.atoms())
    for r, c, p in relevant(ctx, atoms_of(ctx, facts), [node]):
        if r is None:
            return False
        k = None
        if isinstance(r, tuple):
            k, r = r
        if not set(r.n.atoms()) <= at or not r.d.isc():
            return False
        c0 = r.n.t.get((), 0) / 1
        if k == "eq" and c0 != 0 or k == "ne" and c0 == 0 or k is None and c0 < 0:
            return False
    return True


def refuted_index(facts, n):
    """an argument indexes an argument sequence without, or against, a comparison with its length"""
    if n.op != "lt" or not isinput(n.args[0]) or n.args[1].op != "len" or not isinput(n.args[1].args[0]):
        return False
    i = n.args[0]
    for c, p in facts:
        if i not in leaves(c):
            continue
        if c.op == "eq" and not p and all(isinput(a) for a in c.args):
            continue
        if c is n and not p:
            continue
        return False
    return True


def width(desc):
    for w in ("u128", "u64", "u32", "u16", "u8", "usize", "U256", "FixedU128", "U32F96", "Fraction"):
        if desc.endswith("overflow " + w):
            return WIDTH.get(w, 128)
    if "from_rational" in desc or desc.startswith("as_u128"):
        return 128
    return None


def conj(n):
    return list(n.args) if n.op == "and*" else [n]


def definite(ctx, o):
    """is the obligation certainly violated for some arguments?"""
    ctx.set_facts(o.facts)
    n = o.node
    try:
        if o.kind == "underflow" and n is not None and n.op == "sub":
            qa, qb = ctx.q(n.args[0]), ctx.q(n.args[1])
            if not (qa.exact and qb.exact):
                return False
            return refuted_ge0(ctx, o.facts, qa.E - qb.E, [n])
        if o.kind == "overflow" and n is not None:
            w = width(o.desc)
            return w is not None and refuted_fits(ctx, o.facts, n, w)
        if o.kind == "index" and n is not None:
            return refuted_index(o.facts, n)
        if o.kind == "div0" and n is not None:
            return refuted_nonzero(ctx, o.facts, n)
        if o.kind == "unwrap" and n is not None:
            for c in conj(n):
                pol = True
                while c.op == "not":
                    c, pol = c.args[0], not pol
                if c.op == "fits" and pol and isinstance(c.args[1], int) and refuted_fits(ctx, o.facts, c.args[0], c.args[1]):
                    return True
                if c.op == "eq" and not pol:
                    z = c.args[1] if c.args[0] is ZERO else c.args[0] if c.args[1] is ZERO else None
                    if z is not None and refuted_nonzero(ctx, o.facts, z):
                        return True
                if c.op == "lt":
                    a, b = ctx.q(c.args[0]), ctx.q(c.args[1])
                    if a.exact and b.exact and refuted_ge0(ctx, o.facts, (b.E - a.E - 1) if pol else (a.E - b.E), [c]):
                        return True
            return False
        if o.kind in ("panic", "unwrap") and n is None:
            # reached at all: every fact is about arguments and linear
            rel = atoms_of(ctx, o.facts)
            for r, c, p in rel:
                if c.op == "is":
                    continue
                if r is None:
                    return False
                x = r[1] if isinstance(r, tuple) else r
                if not pure(ctx, x.n) or not linear_only(x):
                    return False
            cs = [x for r, c, p in rel if r is not None for x in ([r[1], -r[1]] if isinstance(r, tuple) and r[0] == "eq" else [] if isinstance(r, tuple) else [r])]
            return not linear(RF(Poly.c(-1)), cs)
    except (Split, Undecided, TooBig):
        return False
    return False
