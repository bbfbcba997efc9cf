"""Linear reasoning over monomials (all atoms non-negative): does r >= 0 follow from c_i >= 0 ?

r >= 0 follows when there are l_i >= 0 such that r - sum l_i c_i has only non-negative coefficients (Farkas); the
multipliers are found with an exact simplex over the rationals."""
from fractions import Fraction as Fr


def feasible(rows, rhs, nv):
    """exists x >= 0 with rows x <= rhs ?"""
    m = len(rows)
    art = []
    T = []
    basis = []
    for i in range(m):
        row = [Fr(v) for v in rows[i]] + [Fr(0)] * m
        b = Fr(rhs[i])
        row[nv + i] = Fr(1)
        if b < 0:
            row = [-v for v in row]
            b = -b
            art.append(i)
            basis.append(None)
        else:
            basis.append(nv + i)
        T.append(row + [b])
    if not art:
        return True
    n = nv + m
    for k, i in enumerate(art):
        for j in range(m):
            T[j].insert(n + k, Fr(1) if j == i else Fr(0))
        basis[i] = n + k
    N = n + len(art)
    cost = [Fr(0)] * (N + 1)
    for i in art:
        for j in range(N + 1):
            cost[j] -= T[i][j]
    for k in range(len(art)):
        cost[n + k] = Fr(0)
    for _ in range(400):
        e = next((j for j in range(n) if cost[j] < 0), None)
        if e is None:
            break
        best = None
        for i in range(m):
            if T[i][e] > 0:
                q = T[i][N] / T[i][e]
                if best is None or q < best[0] or q == best[0] and basis[i] < basis[best[1]]:
                    best = (q, i)
        if best is None:
            return False
        i = best[1]
        p = T[i][e]
        T[i] = [v / p for v in T[i]]
        for j in range(m):
            if j != i and T[j][e]:
                f = T[j][e]
                T[j] = [a - f * b for a, b in zip(T[j], T[i])]
        f = cost[e]
        cost = [a - f * b for a, b in zip(cost, T[i])]
        basis[i] = e
    return cost[N] == 0


def farkas(r, conds):
    """polynomials as {monomial: coefficient}"""
    conds = [c for c in conds if c]
    keys = set(r)
    for c in conds:
        keys |= set(c)
    if len(keys) > 120 or len(conds) > 40:
        return False
    rows, rhs = [], []
    for k in keys:
        row = [c.get(k, 0) for c in conds]
        b = r.get(k, 0)
        if b >= 0 and all(v <= 0 for v in row):
            continue
        rows.append(row)
        rhs.append(b)
    if not conds:
        return all(v >= 0 for v in r.values())
    return feasible(rows, rhs, len(conds))
