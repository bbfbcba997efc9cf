"""Meaning of the standard-library / substrate methods used on scalars, options, results and sequences."""
from .terms import *
from . import prove as P


def checked_sub_parts(rv):
    if not (isinstance(rv, Part) and len(rv.conds) == 1 and isinstance(rv.v, Num)):
        return None
    c, p = rv.conds[0]
    if c.op == "lt" and not p and sub(c.args[0], c.args[1]) is rv.v.n:
        return c.args
    if c.op == "eq" and not p and ZERO in c.args:
        x = c.args[1] if c.args[0] is ZERO else c.args[0]
        if sub(x, ONE) is rv.v.n:
            return x, ONE
    return None


def zero_alt(it, name, vs, st, fr, line):
    if name == "unwrap_or_default":
        return True
    if name == "unwrap_or":
        d = it.force(vs[0], st)
        return isinstance(d, Num) and d.n is ZERO
    if name == "unwrap_or_else":
        r = it.apply(it.force(vs[0], st), [], st, fr, line)
        return len(r) == 1 and isinstance(r[0][1], Num) and r[0][1].n is ZERO
    return False


def method(it, rv, name, tf, vs, st, fr, line, ex):
    from . import interp as I
    WIDTH, SCALE, PERTHING = I.WIDTH, I.SCALE, I.PERTHING
    if name in I.IDENT_METHODS and not vs:
        if isinstance(rv, Num) and rv.n.op == "range":
            return [(st, rv)]
        return [(st, rv)]
    if isinstance(rv, Part) or (isinstance(rv, Var) and rv.name in ("Some", "None", "Ok", "Err")):
        r = option(it, rv, name, tf, vs, st, fr, line, ex)
        if r is not None:
            return r
    elif isinstance(rv, Num) and rv.ty and rv.ty[0] == "Option":
        p = Part(Num(mk("payload", rv.n), rv.ty[1] if len(rv.ty) > 1 else None), [(mk("is", rv.n, "Some"), True)], "Option", Num(mk("errof", rv.n)))
        r = option(it, p, name, tf, vs, st, fr, line, ex)
        if r is not None:
            return r
    elif isinstance(rv, Num) and rv.ty is None and name in OPT_ONLY:
        good = "Ok" if name in ("map_err", "is_ok", "is_err", "ok", "err") else ("Some" if name in ("ok_or", "ok_or_else", "is_some", "is_none") else "Ok")
        if any(f.op == "is" and f.args[0] is rv.n and f.args[1] in ("Some", "None") for f, _ in st.facts):
            good = "Some"
        p = Part(Num(mk("payload", rv.n)), [(mk("is", rv.n, good), True)], "Option" if good == "Some" else "Result", Num(mk("errof", rv.n)))
        r = option(it, p, name, tf, vs, st, fr, line, ex)
        if r is not None:
            return r
    if name in ("then", "then_some") and isinstance(rv, Num) and len(vs) == 1:
        T = it.assume(st, rv.n, True)
        F = it.assume(st, rv.n, False)
        out = []
        if T:
            if name == "then":
                out += [(s, Var("Some", [v])) for s, v in it.apply(it.force(vs[0], T), [], T, fr, line)]
            else:
                out.append((T, Var("Some", [vs[0]])))
        if F:
            out.append((F, Var("None")))
        return out
    r = sequence(it, rv, name, tf, vs, st, fr, line, ex)
    if r is not None:
        return r
    if isinstance(rv, (Num,)):
        return scalar(it, rv, name, tf, vs, st, fr, line, ex)
    if name in ("into", "try_into") and not vs:
        if name == "into":
            return [(st, it.coerce(rv, ex) if ex else rv)]
    if name in ("eq", "ne") and len(vs) == 1:
        n = eq(I.tonode_(rv), I.tonode_(it.force(vs[0], st)))
        return [(st, Num(n if name == "eq" else nnot(n), ("bool",)))]
    return None


OPT_ONLY = {"ok_or", "ok_or_else", "map_err", "and_then", "is_some", "is_none", "is_ok", "is_err", "ok", "unwrap_or_default",
            "unwrap_or", "or", "or_else", "unwrap_or_else", "unwrap", "expect", "map_or", "map_or_else"}


def split(it, rv, st):
    """[(state, True, payload) | (state, False, err)]"""
    if isinstance(rv, Var):
        if rv.name in ("Some", "Ok"):
            return [(st, True, rv.xs[0] if rv.xs else UNITV)]
        return [(st, False, rv.xs[0] if rv.xs else None)]
    out = []
    g = it.assume_all(st, rv.conds)
    if g is not None:
        out.append((g, True, rv.v))
    for b in it.assume_not(st, rv.conds):
        from .interp import tonode_
        out.append((b, False, rv.err if rv.err is not None else (Num(mk("errof", tonode_(rv.v))) if rv.kind == "Result" else None)))
    return out


def kindof(rv):
    if isinstance(rv, Part):
        return rv.kind
    return "Option" if rv.name in ("Some", "None") else "Result"


def option(it, rv, name, tf, vs, st, fr, line, ex):
    from .interp import tonode_
    kind = kindof(rv)
    good, bad = ("Some", "None") if kind == "Option" else ("Ok", "Err")

    def mkgood(v, k=None):
        return Var({"Option": "Some", "Result": "Ok"}[k or kind], [v])

    def mkbad(e, k=None):
        k = k or kind
        return Var("None") if k == "Option" else Var("Err", [e if e is not None else Num(mk("err"))])

    f = it.force(vs[0], st) if vs else None
    if name in ("ok_or", "ok_or_else"):
        if isinstance(rv, Part):
            e = f
            if name == "ok_or_else":
                r = it.apply(f, [], st, fr, line)
                e = r[0][1] if r else Num(mk("err"))
            return [(st, Part(rv.v, rv.conds, "Result", e))]
        if rv.name == "Some":
            return [(st, Var("Ok", rv.xs))]
        e = f
        if name == "ok_or_else":
            return [(s, Var("Err", [v])) for s, v in it.apply(f, [], st, fr, line)]
        return [(st, Var("Err", [e]))]
    if name == "ok":
        if isinstance(rv, Part):
            return [(st, Part(rv.v, rv.conds, "Option"))]
        return [(st, Var("Some", rv.xs) if rv.name == "Ok" else Var("None"))]
    if name == "err":
        return [(s, Var("None") if g else Var("Some", [v or Num(mk("err"))])) for s, g, v in split(it, rv, st)]
    if name == "map_err":
        if isinstance(rv, Part):
            e = Num(mk("err"))
            r = it.apply(f, [rv.err if rv.err is not None else Num(mk("errof", tonode_(rv.v)))], st, fr, line)
            if len(r) == 1:
                e = r[0][1]
                return [(st, Part(rv.v, rv.conds, "Result", e))]
            return [(st, Part(rv.v, rv.conds, "Result", e))]
        if rv.name == "Ok":
            return [(st, rv)]
        return [(s, Var("Err", [v])) for s, v in it.apply(f, [rv.xs[0]], st, fr, line)]
    if name in ("map", "and_then", "map_or", "map_or_else", "is_some_and", "is_ok_and", "filter"):
        out = []
        if name in ("map_or", "map_or_else"):
            f = it.force(vs[1], st)
        parts = split(it, rv, st)
        goods = []
        for s, g, v in parts:
            if g:
                for s2, v2 in it.apply(f, [v], s, fr, line):
                    goods.append((s, s2, v2))
        if isinstance(rv, Part) and len(goods) == 1 and name in ("map", "and_then") and goods[0][1].facts == goods[0][0].facts and goods[0][1].eff == st.eff and same_store(goods[0][1], st):
            v2 = it.force(goods[0][2], goods[0][1])
            if name == "map":
                return [(st, Part(v2, rv.conds, kind, rv.err))]
            if isinstance(v2, Part):
                return [(st, Part(v2.v, rv.conds + v2.conds, v2.kind, v2.err or rv.err))]
            if isinstance(v2, Var) and v2.name in ("Some", "Ok"):
                return [(st, Part(v2.xs[0], rv.conds, kind, rv.err))]
        for s, s2, v2 in goods:
            v2 = it.force(v2, s2)
            if name == "map":
                out.append((s2, mkgood(v2)))
            elif name == "filter":
                n = tonode_(v2)
                a, b = it.assume(s2, n, True), it.assume(s2, n, False)
                pv = [p for q, g, p in parts if q is s][0]
                if a:
                    out.append((a, mkgood(pv)))
                if b:
                    out.append((b, Var("None")))
            else:
                out.append((s2, v2))
        for s, g, e in parts:
            if not g:
                if name in ("map", "and_then", "filter"):
                    out.append((s, mkbad(e)))
                elif name == "map_or":
                    out.append((s, vs[0]))
                elif name == "map_or_else":
                    out += it.apply(it.force(vs[0], s), [e] if kind == "Result" else [], s, fr, line)
                else:
                    out.append((s, Num(FALSE, ("bool",))))
        return out
    if name in ("unwrap_or", "unwrap_or_default", "unwrap_or_else", "unwrap_or_revert"):
        out = []
        ss = checked_sub_parts(rv)
        if ss is not None and zero_alt(it, name, vs, st, fr, line):
            # checked_sub(a, b) with the alternative zero is saturating_sub(a, b)
            return [(st, Num(it.ssub(ss[0], ss[1], st), rv.v.ty))]
        for s, g, v in split(it, rv, st):
            if g:
                out.append((s, v))
            elif name == "unwrap_or":
                pv = rv.v if isinstance(rv, Part) else None
                d = it.force(vs[0], s)
                if isinstance(pv, Num) and pv.ty:
                    d = it.coerce(d, pv.ty)
                out.append((s, d))
            elif name == "unwrap_or_default":
                pv = rv.v if isinstance(rv, Part) else None
                ty = pv.ty if isinstance(pv, Num) else ex
                out.append((s, it.default(ty)))
            else:
                out += it.apply(it.force(vs[0], s), [v] if kind == "Result" else [], s, fr, line)
        return out
    if name in ("is_some", "is_ok", "is_none", "is_err"):
        pos = name in ("is_some", "is_ok")
        if isinstance(rv, Var):
            return [(st, Num(TRUE if (rv.name in ("Some", "Ok")) == pos else FALSE, ("bool",)))]
        c = TRUE
        for n, p in rv.conds:
            c = nand(c, n if p else nnot(n))
        return [(st, Num(c if pos else nnot(c), ("bool",)))]
    if name in ("unwrap", "expect", "unwrap_err", "expect_err"):
        out = []
        if name in ("unwrap_err", "expect_err"):
            return [(s, v or Num(mk("err"))) for s, g, v in split(it, rv, st) if not g]
        if isinstance(rv, Var):
            ok = rv.name in ("Some", "Ok")
            it.obl("unwrap", line, fr, f"{name} of {rv.name}", ok, st)
            return [(st, rv.xs[0])] if ok else []
        ok = True
        cur = st
        for c, p in rv.conds:
            d = P.decide(cur.facts, c) if cur is not None else None
            if d != p and not (c.op == "fits" and p and isinstance(c.args[1], int) and P.le_const(cur.facts, c.args[0], 2 ** c.args[1] - 1)):
                ok = False
            cur = it.assume(cur, c, p) if cur is not None else None
            if cur is None:
                break
        desc = " and ".join((show(c) if p else f"not {show(c)}") for c, p in rv.conds)
        it.obl("unwrap", line, fr, f"{name} needs {desc}", ok, st, mk("and*", *[c if p else nnot(c) for c, p in rv.conds]))
        return [(cur, rv.v)] if cur is not None else []
    if name in ("or", "or_else"):
        out = []
        for s, g, v in split(it, rv, st):
            if g:
                out.append((s, mkgood(v)))
            elif name == "or":
                out.append((s, vs[0]))
            else:
                out += it.apply(it.force(vs[0], s), [v] if kind == "Result" else [], s, fr, line)
        return out
    if name == "and":
        return [(s, vs[0] if g else mkbad(v)) for s, g, v in split(it, rv, st)]
    if name in ("iter", "into_iter", "cloned", "copied", "as_deref", "as_mut", "as_ref"):
        return [(st, rv)]
    if name in ("xor", "zip", "transpose", "flatten", "inspect_err", "inspect"):
        if name == "flatten":
            out = []
            for s, g, v in split(it, rv, st):
                out.append((s, v) if g else (s, mkbad(v)))
            return out
        if name.startswith("inspect"):
            return [(st, rv)]
        return None
    if name in ("eq", "ne") and len(vs) == 1:
        n = it.cmp("==" if name == "eq" else "!=", rv, it.force(vs[0], st))
        return [(st, Num(n, ("bool",)))]
    if name in ("into", "try_into", "map_into"):
        return [(st, rv)]
    if name in ("checked_add", "checked_sub"):
        return None
    return None


def same_store(a, b):
    return all(a.store.get(k) is v for k, v in b.store.items())


SEQ = {"enumerate", "map", "filter", "filter_map", "collect", "fold", "try_fold", "sum", "product", "position", "any", "all", "zip", "len",
       "get", "is_empty", "contains", "first", "last", "rev", "find", "for_each", "try_for_each", "count", "flat_map", "chain", "skip", "take",
       "max_by", "min_by", "map_while", "skip_while", "take_while", "next", "windows", "flatten", "split_first", "split_last", "join", "peekable", "try_collect", "step_by", "find_map"}


def sequence(it, rv, name, tf, vs, st, fr, line, ex):
    from .interp import Clo
    caps = set()
    for v in vs:
        v = it.force(v, st)
        if isinstance(v, Clo):
            x = st.copy()
            x.scope = dict(v.scope)
            caps |= set(it.assigned(v.body, x))
    caps = sorted(k for k in caps if k in st.store)
    if not caps:
        return sequence_(it, rv, name, tf, vs, st, fr, line, ex)
    # the closure changes captured locals: they take an unknown value during and after the iteration
    it.loopc += 1
    lid = f"C{it.loopc}"
    info = {"line": line, "lid": lid, "slots": caps, "init": [st.store[k] for k in caps], "ends": [], "captured": True}
    h = it.havoc(st, caps, lid)
    info["phi"] = [h.store[k] for k in caps]
    r = sequence_(it, rv, name, tf, vs, h, fr, line, ex, info)
    if r is None:
        return None
    it.loops_seen.append(info)
    out = []
    for s, v in r:
        s = s.copy()
        for k, sl in enumerate(caps):
            s.store[sl] = it.phi(st.store[sl], mk("loopout", lid, k), s)
        out.append((s, v))
    return out


def sequence_(it, rv, name, tf, vs, st, fr, line, ex, cap=None):
    from .interp import Seq, tonode_, Clo, FnV
    isseq = isinstance(rv, (ListV, Seq)) or (isinstance(rv, Num) and ((rv.ty and rv.ty[0] in ("Vec", "Array")) or rv.n.op in ("range", "empty")))
    if not isseq and not (isinstance(rv, Num) and name in ("enumerate", "filter_map", "fold", "try_fold", "collect") and rv.ty is None):
        return None
    if name not in SEQ:
        return None
    if name == "len" or name == "count":
        return [(st, Num(it.length(rv), ("usize",)))]
    if name == "is_empty":
        return [(st, Num(eq(it.length(rv), ZERO), ("bool",)))]
    if name == "get" and len(vs) == 1:
        i = it.force(vs[0], st)
        v, ln = it.index(rv, i, st)
        c = lt(tonode_(i), ln)
        return [(st, Part(v, [] if P.decide(st.facts, c) is True else [(c, True)]))]
    if name in ("first", "last", "next") and not vs:
        ln = it.length(rv)
        i = ZERO if name != "last" else sub(ln, ONE)
        v, _ = it.index(rv, Num(i, ("usize",)), st)
        c = eq(ln, ZERO)
        return [(st, Part(v, [] if P.decide(st.facts, c) is False else [(c, False)]))]
    if name == "rev":
        if isinstance(rv, ListV):
            return [(st, ListV(rv.xs[::-1], rv.ty))]
        if isinstance(rv, Num) and rv.n.op == "rev":
            return [(st, Num(rv.n.args[0], rv.ty))]
        if isinstance(rv, Seq) and rv.dom.op != "range" and not rv.filt:
            # the element depends on the index only through the domain's element: the reversed domain gives the reversed sequence
            nd = rv.dom.args[0] if rv.dom.op == "rev" else mk("rev", rv.dom)
            hole = mk("bv", "rev#")
            e = vsub(rv.elem, {mk("idx", rv.dom, rv.bv): hole})
            if not contains(tonode_(e), rv.bv):
                return [(st, Seq(nd, vsub(e, {hole: it.idxnode(nd, rv.bv)}), rv.bv, []))]
        return [(st, Num(mk("rev", tonode_(rv)), rv.ty if isinstance(rv, Num) else None))]
    if isinstance(rv, ListV) and len(rv.xs) <= 8 and name in ("map", "collect", "enumerate", "sum"):
        if name == "collect":
            return [(st, rv)]
        if name == "enumerate":
            return [(st, ListV([Tup([Num(const(i), ("usize",)), x]) for i, x in enumerate(rv.xs)]))]
        if name == "map":
            cur = [(st, [])]
            for x in rv.xs:
                cur = [(s2, acc + [v]) for s, acc in cur for s2, v in it.apply(it.force(vs[0], s), [x], s, fr, line)]
            return [(s, ListV(xs)) for s, xs in cur]
    if name == "contains" and len(vs) == 1:
        return [(st, Num(mk("contains", tonode_(rv), tonode_(it.force(vs[0], st))), ("bool",)))]
    if name == "collect" or name == "try_collect":
        if isinstance(rv, Seq) and isinstance(rv.elem, Part):
            c = mk("all", rv.dom, *[subst(c if p else nnot(c), {rv.bv: I_BV()}) for c, p in rv.elem.conds])
            return [(st, Part(Seq(rv.dom, rv.elem.v, rv.bv, rv.filt), [(c, True)], rv.elem.kind, rv.elem.err))]
        return [(st, rv)]
    if name == "zip":
        b = it.force(vs[0], st)
        if isinstance(rv, ListV) and isinstance(b, ListV):
            return [(st, ListV([Tup([x, y]) for x, y in zip(rv.xs, b.xs)]))]
        a = it.seq_of(rv, st)
        b = it.seq_of(it.force(vs[0], st), st)
        if a.filt and a.dom.op != "range" or b.filt and b.dom.op != "range":
            return None
        e = vsub(b.elem, {b.bv: a.bv})
        return [(st, Seq(a.dom, Tup([a.elem, e]), a.bv, a.filt))]
    if name == "enumerate":
        a = it.seq_of(rv, st)
        return [(st, Seq(a.dom, Tup([Num(a.bv, ("usize",)), a.elem]), a.bv, a.filt))]
    if name in ("map", "filter", "filter_map", "for_each", "try_for_each", "any", "all", "position", "find", "find_map"):
        a = it.seq_of(rv, st)
        s1 = it.assume_all(st, a.filt)
        if s1 is None:
            return [(st, Num(mk("empty"), ("Vec", None)))]
        base = len(s1.facts)
        lid = f"I{it.loopc}"
        rs = it.apply(it.force(vs[0], st), [a.elem], s1, fr, line)
        eff = []
        for s2, _ in rs:
            d = s2.eff[len(st.eff):]
            if d and d not in eff:
                eff.append(d)
        s0 = st
        if eff:
            s0 = st.copy()
            s0.eff = st.eff + (("loop", lid, tuple(eff), None, fr.mod.file, line, fr.fn.qual if fr.fn else "?", st.facts, None),)
        s0 = captured(it, vs[0], s0, st, lid)
        if name == "map":
            if len(rs) == 1 and len(rs[0][0].facts) == base:
                return [(s0, Seq(a.dom, it.force(rs[0][1], rs[0][0]), a.bv, a.filt))]
            # several cases: keep as guarded cases; results that are fallible become a fallible element
            gs, bad = [], []
            kind = None
            err = None
            for s2, v in rs:
                v = it.force(v, s2)
                if isinstance(v, Var) and v.name in ("Some", "Ok"):
                    gs.append((s2, v.xs[0]))
                    kind = "Option" if v.name == "Some" else "Result"
                elif isinstance(v, Var) and v.name in ("None", "Err"):
                    bad.append((s2, v))
                    kind = kind or ("Option" if v.name == "None" else "Result")
                    if v.name == "Err":
                        err = v.xs[0]
                elif isinstance(v, Part):
                    gs.append((s2, v))
                    kind = kind or v.kind
                else:
                    gs.append((s2, v))
            if kind is not None and len(gs) == 1:
                s2, v = gs[0]
                conds = [f for f in s2.facts[base:]]
                if isinstance(v, Part):
                    conds = conds + v.conds
                    v = v.v
                return [(s0, Seq(a.dom, Part(v, conds, kind, err), a.bv, a.filt))]
            el = guarded(it, gs, base)
            if kind is not None:
                return [(s0, Seq(a.dom, Part(el, [(mk("caseok", tonode_(el)), True)], kind, err), a.bv, a.filt))]
            return [(s0, Seq(a.dom, el, a.bv, a.filt))]
        if name == "filter":
            c = boolcases(it, rs, base)
            if c is None:
                return None
            return [(s0, Seq(a.dom, a.elem, a.bv, a.filt + [(c, True)]))]
        if name in ("any", "all", "position", "find"):
            c = boolcases(it, rs, base)
            if c is None:
                return None
            n = mk(name, tonode_(rv), subst(c, {a.bv: I_BV()}))
            if name in ("any", "all"):
                return [(s0, Num(n, ("bool",)))]
            if name == "position":
                P.leaf(n, ("usize",))
                return [(s0, Part(Num(n, ("usize",)), [(mk("is", n, "Some"), True)]))]
            return [(s0, Part(vsub(a.elem, {a.bv: n}), [(mk("is", n, "Some"), True)]))]
        if name == "for_each":
            return [(s0, UNITV)]
        if name == "try_for_each":
            n = mk("try_for_each", tonode_(rv), line)
            return [(s0, Part(UNITV, [(mk("is", n, "Ok"), True)], "Result"))]
        if name in ("filter_map", "find_map"):
            el = []
            for s2, v in rs:
                v = it.force(v, s2)
                if isinstance(v, Var) and v.name == "Some":
                    el.append((s2.facts[base:], v.xs[0]))
                elif isinstance(v, Part):
                    el.append((s2.facts[base:] + tuple(v.conds), v.v))
            if len(el) == 1 and name == "filter_map":
                return [(s0, Seq(a.dom, el[0][1], a.bv, a.filt + list(el[0][0])))]
            return [(s0, Num(mk(name, tonode_(rv), *[tonode_(x) for _, x in el]), ("Vec", None)))]
    if name in ("fold", "try_fold") and len(vs) == 2:
        a = it.seq_of(rv, st)
        it.loopc += 1
        init = it.force(vs[0], st)
        acc = it.phi(init, mk("phi", f"F{it.loopc}", 0), st)
        s1 = it.assume_all(st, a.filt)
        if s1 is None:
            return [(st, Part(init, [], "Option") if name == "try_fold" else init)]
        rs = it.apply(it.force(vs[1], st), [acc, a.elem], s1, fr, line)
        goods = []
        kind = None
        if cap is not None:
            cap.update(acc=acc, accinit=init, seq=a)
        for s2, v in rs:
            v = it.force(v, s2)
            if cap is not None:
                w = v.v if isinstance(v, Part) else v.xs[0] if isinstance(v, Var) and v.name in ("Some", "Ok") else None if isinstance(v, Var) and name == "try_fold" else v
                if w is not None:
                    cap["ends"].append((s2, w))
            if name == "try_fold":
                if isinstance(v, Part):
                    goods.append((s2, v.v, v.conds))
                    kind = v.kind
                elif isinstance(v, Var) and v.name in ("Some", "Ok"):
                    goods.append((s2, v.xs[0], []))
                    kind = kind or ("Option" if v.name == "Some" else "Result")
                elif isinstance(v, Var):
                    kind = kind or ("Option" if v.name == "None" else "Result")
                else:
                    return None
            else:
                goods.append((s2, v, []))
        ids = {tonode_(v).id for _, v, _ in goods}
        if cap is not None:
            n = mk("foldx", tonode_(rv), tonode_(init), mk("captured", cap["lid"]))
            val = it.phi(init, n, st)
        elif len(ids) != 1:
            n = mk("foldx", tonode_(rv), tonode_(init), *sorted([tonode_(v) for _, v, _ in goods], key=lambda q: q.id))
            val = it.phi(init, n, st)
        else:
            v = goods[0][1]
            if isinstance(v, Num) and isinstance(acc, Num):
                val = Num(it.foldnode(a, tonode_(init), v.n, acc.n), v.ty or (init.ty if isinstance(init, Num) else None))
                P.leaf(val.n, val.ty)
            else:
                val = it.phi(init, mk("foldx", tonode_(rv), tonode_(init), tonode_(v)), st)
        if name == "try_fold":
            n = tonode_(val)
            return [(st, Part(val, [(mk("foldok", n), True)], kind or "Option"))]
        return [(st, val)]
    if name in ("sum", "product"):
        a = it.seq_of(rv, st)
        acc = mk("phi", f"S{it.loopc}", 0)
        e = tonode_(a.elem)
        n = it.foldnode(a, ZERO if name == "sum" else ONE, (add if name == "sum" else mul)(acc, e), acc)
        ty = a.elem.ty if isinstance(a.elem, Num) else None
        return [(st, Num(n, ty))]
    n = mk("seqop:" + name, tonode_(rv), *[tonode_(it.force(v, st)) for v in vs])
    it.note_opaque("sequence method ." + name)
    return [(st, Num(n, rv.ty if isinstance(rv, Num) and name in ("skip", "take", "chain", "step_by") else None))]


def I_BV():
    from .terms import BV0
    return BV0


def vsub(v, mp):
    from .interp import vsubst
    return vsubst(v, mp)


def guarded(it, gs, base):
    from .interp import tonode_
    xs = []
    for s2, v in gs:
        c = TRUE
        for n, p in s2.facts[base:]:
            c = nand(c, n if p else nnot(n))
        xs.append(mk("when", c, tonode_(v)))
    return Num(mk("gcases", *sorted(xs, key=lambda n: n.id)), gs[0][1].ty if gs and isinstance(gs[0][1], Num) else None)


def captured(it, f, s0, st, lid):
    """variables a closure assigns are unknown after it ran for an unknown number of elements"""
    from .interp import Clo
    f = it.force(f, st)
    if not isinstance(f, Clo):
        return s0
    t = st.copy()
    t.scope = dict(f.scope)
    slots = [x for x in it.assigned(f.body, t) if x in st.store]
    return it.havoc(s0, slots, lid) if slots else s0


def boolcases(it, rs, base):
    """disjunction over the paths of a boolean closure"""
    from .interp import tonode_
    if len(rs) == 1:
        return tonode_(it.force(rs[0][1], rs[0][0]))
    out = FALSE
    for s2, v in rs:
        c = tonode_(it.force(v, s2))
        for n, p in s2.facts[base:]:
            c = nand(c, n if p else nnot(n))
        out = nor(out, c)
    return out


def fcond(it, n, W, st):
    """[(cond, True)] that n fits W bits, unless provable"""
    if W is None:
        return [(mk("fits", n, "?"), True)]
    if P.le_const(st.facts, n, 2 ** W - 1):
        return []
    return [(mk("fits", n, W), True)]


def scalar(it, rv, name, tf, vs, st, fr, line, ex):
    from . import interp as I
    WIDTH, SCALE, PERTHING, FIXEDCRATE, INTS = I.WIDTH, I.SCALE, I.PERTHING, I.FIXEDCRATE, I.INTS
    if rv.ty and rv.ty[0] == "Into":
        o = it.force(vs[0], st) if vs else None
        if isinstance(o, Num) and o.ty and o.ty[0] in SCALE and name.startswith(("saturating_", "checked_", "max", "min", "clamp")):
            rv = it.coerce(rv, o.ty)
        elif name == "into_clamped_perthing":
            rv = it.coerce(rv, ("FixedU128",))
    ty = rv.ty
    x = rv.n
    if ty and ty[0] == "Into":
        ty = ty[1]
    k = ty[0] if ty else None
    if ty and ty[0] in ("S", "E") and it.w.crates[ty[2]].by_method.get((ty[1], name)):
        return None
    W = WIDTH.get(k)
    S = SCALE.get(k)

    def arg(i=0, t="same"):
        v = it.force(vs[i], st)
        if t == "same" and isinstance(v, Num):
            v = it.coerce(v, ty) if ty else v
        return v

    def an(i=0):
        return I.tonode_(arg(i))

    def num(n, t=ty):
        return [(st, Num(n, t))]

    def part(n, conds, t=ty, kind="Option"):
        return [(st, Part(Num(n, t), conds, kind))]

    numeric = k in WIDTH or k in SCALE or k == "int"
    unk = ty is None or k in ("tp", "T", "B", "proj", "u", "BlockNumberFor", "Weight") or (k is not None and len(k) <= 2 and k.isupper())
    if name == "is_zero" and not vs:
        return num(eq(x, ZERO), ("bool",))
    if name == "is_one" and not vs:
        return num(eq(x, const(SCALE.get(k, 1))), ("bool",))
    if name in ("eq", "ne", "lt", "le", "gt", "ge") and len(vs) == 1:
        op = {"eq": "==", "ne": "!=", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}[name]
        return num(it.cmp(op, rv, arg()), ("bool",))
    if name in ("cmp", "partial_cmp") and len(vs) == 1:
        c = Num(mk("cmp", x, an()), ("Ordering",))
        return [(st, c if name == "cmp" else Var("Some", [c]))]
    if name in ("is_lt", "is_gt", "is_le", "is_ge", "is_eq", "is_ne") and x.op == "cmp":
        op = {"is_eq": "==", "is_ne": "!=", "is_lt": "<", "is_le": "<=", "is_gt": ">", "is_ge": ">="}[name]
        return num(it.cmp(op, Num(x.args[0]), Num(x.args[1])), ("bool",))
    if name == "into_clamped_perthing" and k == "FixedU128":
        pt = it.T(tf[0], fr) if tf else ex
        if pt and pt[0] in PERTHING:
            return num(mk("min", div(x, const(10**18 // SCALE[pt[0]])), const(SCALE[pt[0]])), pt)
    if name == "into" and not vs:
        if ex and (ex[0] in WIDTH or ex[0] in SCALE):
            return [(st, it.coerce(Num(x, ("Into", ty)), ex))]
        return num(x, ("Into", ty) if ty else None)
    if name in ("try_into",) and not vs:
        t = ex[1] if ex and ex[0] in ("Result", "Option") and len(ex) > 1 else None
        if t and t[0] in WIDTH:
            return part(x, fcond(it, x, WIDTH[t[0]], st), t, "Result")
        return part(x, [(mk("fits", x, "?"), True)], None, "Result")
    if name in ("saturated_into", "unique_saturated_into", "lossy_into", "to_num", "lossless_try_into", "to_fixed") and not vs:
        t = ex
        if tf:
            t = it.T(tf[0], fr)
        if t and t[0] in WIDTH and k in SCALE and SCALE.get(t[0]) is None:
            return num(div(x, const(S)), t)
        if name == "lossless_try_into":
            return part(x, [(mk("fits", x, "?"), True)], None)
        if t and (t[0] in SCALE) and k in SCALE:
            return num(it.conv(x, ty, t), t)
        if t and t[0] in WIDTH and k not in SCALE:
            n = x if P.le_const(st.facts, x, 2 ** WIDTH[t[0]] - 1) else it.sat(x, WIDTH[t[0]])
            return num(n, t)
        return num(x, ("Into", ty) if ty else None)
    if name in ("into_inner", "to_bits", "deconstruct", "as_bits", "get") and not vs:
        if k in ("NonZeroU128", "NonZeroU16", "NonZeroU32", "NonZeroU64"):
            return num(mk("nzget", x), (k[7:].lower(),))
        if k in SCALE or name == "deconstruct":
            t = ("u128",) if k not in ("Permill", "Perbill", "Percent") else ("u32",)
            return num(x, t)
        if name in ("to_bits", "into_inner"):
            return num(x, ("u128",))
        return num(mk("m", name, x), None)
    if name in ("low_u128", "as_u128") and not vs:
        if name == "as_u128":
            it.obl("overflow", line, fr, f"as_u128 of {show(x)}", P.le_const(st.facts, x, 2**128 - 1), st, x)
        return num(x if P.le_const(st.facts, x, 2**128 - 1) else mk("trunc", x, 128), ("u128",))
    if name in ("low_u64",) and not vs:
        return num(x if P.le_const(st.facts, x, 2**64 - 1) else mk("trunc", x, 64), ("u64",))
    if name == "full_mul" and len(vs) == 1:
        return num(mul(x, an()), ({"U128": "U256", "U256": "U512"}.get(k, "U512"),))
    if name == "bits" and not vs:
        return num(mk("bits", x), ("usize",))
    if name in ("min", "max") and len(vs) == 1:
        a = arg()
        return num((nmin if name == "min" else nmax)(x, I.tonode_(a)), ty or (a.ty if isinstance(a, Num) else None))
    if name == "clamp" and len(vs) == 2:
        lo, hi = an(0), an(1)
        it.obl("assert", line, fr, f"clamp({show(lo)}, {show(hi)}) panics when min > max", P.le(st.facts, lo, hi), st, nnot(lt(hi, lo)))
        return num(nmin(nmax(x, lo), hi))
    if name == "abs_diff" and len(vs) == 1:
        y = an()
        if P.le(st.facts, y, x):
            return num(sub(x, y))
        if P.le(st.facts, x, y):
            return num(sub(y, x))
        return num(absdiff(x, y))
    if name in ("integer_sqrt", "integer_sqrt_checked", "sqrt", "isqrt") and not vs:
        n = mk("isqrt", x)
        u = P.ub(x)
        if u is not None:
            import math
            P._leafbits.setdefault(n.id, math.isqrt(u))
        return num(n)
    if not numeric and not unk:
        return None
    if name in ("checked_add", "saturating_add", "add", "wrapping_add", "overflowing_add") and len(vs) == 1:
        a = arg()
        if unk and isinstance(a, Num) and a.ty and k is None:
            ty, W, S = a.ty, WIDTH.get(a.ty[0]), SCALE.get(a.ty[0])
        n = add(x, I.tonode_(a))
        if name == "checked_add":
            return part(n, fcond(it, n, W, st), ty)
        if name == "saturating_add":
            if k in PERTHING:
                return num(nmin(n, const(S)))
            return num(n if W and P.le_const(st.facts, n, 2 ** W - 1) else it.sat(n, W or 128), ty)
        if name == "add":
            return [(st, it.arith("+", rv, a, line, st, fr))]
        return num(mk("trunc", n, W or 128), ty)
    if name in ("checked_sub", "saturating_sub", "sub", "wrapping_sub") and len(vs) == 1:
        a = arg()
        y = I.tonode_(a)
        if ty is None and isinstance(a, Num):
            ty = a.ty
        if name == "checked_sub":
            if P.le(st.facts, y, x):
                return part(sub(x, y), [], ty)
            return part(sub(x, y), [(lt(x, y), False)], ty)
        if name == "saturating_sub":
            return num(it.ssub(x, y, st), ty)
        if name == "sub":
            return [(st, it.arith("-", rv, a, line, st, fr))]
        return num(mk("wsub", x, y), ty)
    if name in ("checked_mul", "saturating_mul", "mul", "wrapping_mul") and len(vs) == 1:
        a = arg()
        y = I.tonode_(a)
        if isinstance(a, Num) and a.ty and (ty is None or k not in WIDTH and k not in SCALE and k not in PERTHING and a.ty[0] in SCALE):
            ty, W, S = a.ty, WIDTH.get(a.ty[0]), SCALE.get(a.ty[0])
        if name == "mul":
            return [(st, it.arith("*", rv, a, line, st, fr))]
        if k in PERTHING:
            n = rdiv(mul(x, y), const(S)) if not (isinstance(a, Num) and a.ty and a.ty[0] not in SCALE) else mul(x, y)
            if name == "checked_mul":
                return part(n, [])
            return num(n)
        n = mul(x, y)
        if S:
            n = div(n, const(S))
        if name == "checked_mul":
            return part(n, fcond(it, n, W, st), ty)
        if name == "saturating_mul":
            return num(n if W and P.le_const(st.facts, n, 2 ** W - 1) else it.sat(n, W or 128), ty)
        return num(mk("trunc", n, W or 128), ty)
    if name in ("checked_div", "saturating_div", "div") and len(vs) == 1:
        a = arg()
        y = I.tonode_(a)
        if ty is None and isinstance(a, Num) and a.ty:
            ty, W, S = a.ty, WIDTH.get(a.ty[0]), SCALE.get(a.ty[0])
        if name == "div":
            return [(st, it.arith("/", rv, a, line, st, fr))]
        n = div(mul(x, const(S)), y) if S else div(x, y)
        conds = [] if P.nonzero(st.facts, y) else [(eq(y, ZERO), False)]
        if name == "checked_div":
            if S and k not in PERTHING:
                conds = conds + fcond(it, n, W, st)
            return part(n, conds, ty)
        it.obl("div0", line, fr, f"saturating_div by {show(y)}", not conds, st, y)
        return num(n if W and P.le_const(st.facts, n, 2 ** W - 1) else it.sat(n, W or 128), ty)
    if name in ("div_ceil", "checked_next_multiple_of") and len(vs) == 1:
        y = an()
        it.obl("div0", line, fr, f"{name} by {show(y)}", P.nonzero(st.facts, y), st, y)
        return num(cdiv(x, y))
    if name in ("checked_rem", "rem") and len(vs) == 1:
        y = an()
        if name == "rem":
            return [(st, it.arith("%", rv, arg(), line, st, fr))]
        return part(mk("rem", x, y), [] if P.nonzero(st.facts, y) else [(eq(y, ZERO), False)])
    if name == "overflowing_to_num" and not vs and k in FIXEDCRATE:
        return [(st, I.Tup([rv, Num(FALSE, ("bool",))]))]
    if name in ("checked_mul_int", "checked_div_int") and len(vs) == 1 and k in FIXEDCRATE:
        y = I.tonode_(it.force(vs[0], st))
        if name == "checked_mul_int":
            n = mul(x, y)
            return part(n, fcond(it, n, W, st), ty)
        return part(div(x, y), [] if P.nonzero(st.facts, y) else [(eq(y, ZERO), False)], ty)
    if name in ("checked_mul_int", "saturating_mul_int") and len(vs) == 1 and S:
        a = it.force(vs[0], st)
        t = a.ty if isinstance(a, Num) and a.ty and a.ty[0] != "int" else ("u128",)
        n = div(mul(x, I.tonode_(a)), const(S))
        w = WIDTH.get(t[0], 128)
        if name == "checked_mul_int":
            return part(n, fcond(it, n, w, st), t)
        return num(it.sat(n, w), t)
    if name in ("checked_div_int", "saturating_div_int") and len(vs) == 1 and S:
        a = it.force(vs[0], st)
        y = I.tonode_(a)
        t = a.ty if isinstance(a, Num) and a.ty and a.ty[0] != "int" else ("u128",)
        n = div(div(x, y), const(S))
        conds = [] if P.nonzero(st.facts, y) else [(eq(y, ZERO), False)]
        if name == "checked_div_int":
            return part(n, conds, t)
        return num(n, t)
    if name in ("mul_floor", "mul_ceil", "saturating_mul_floor") and len(vs) == 1 and S:
        a = it.force(vs[0], st)
        t = a.ty if isinstance(a, Num) else ("u128",)
        n = (cdiv if name == "mul_ceil" else div)(mul(x, I.tonode_(a)), const(S))
        return num(n, t)
    if name in ("saturating_reciprocal_mul_floor",) and S:
        return num(mk("recip", x, an()), None)
    if name == "left_from_one" and S:
        return num(sub(const(S), x))
    if name in ("reciprocal",) and not vs and S:
        conds = [] if P.nonzero(st.facts, x) else [(eq(x, ZERO), False)]
        n = div(const(S * S), x)
        return part(n, conds + fcond(it, n, W, st))
    if name in ("saturating_pow", "checked_pow", "pow", "powi", "saturating_powi") and len(vs) == 1:
        a = it.force(vs[0], st)
        y = I.tonode_(a)
        if isc(y) and cval(y) <= 8:
            n = const(S or 1) if cval(y) == 0 else x
            for _ in range(max(0, cval(y) - 1)):
                n = mul(n, x)
                if S:
                    n = div(n, const(S))
        else:
            n = mk("powi", x, y, k or "?")
            P.leaf(n, ty)
        if name == "pow":
            it.obl("overflow", line, fr, f"{show(x)}.pow({show(y)})", W is not None and P.le_const(st.facts, n, 2**W - 1) and isc(y), st, n)
            return num(n)
        if name == "checked_pow":
            return part(n, [(mk("fits", n, W or "?"), True)])
        return num(it.sat(n, W or 128) if isc(y) else n)
    if name in ("to_float", "to_f64", "to_fraction"):
        it.note_opaque("float")
        return num(mk("float", x), ("f64",))
    if name == "leading_zeros" and not vs:
        n = mk("lz", x)
        P._leafbits.setdefault(n.id, W or 512)
        return num(n, ("u32",))
    if name in ("trailing_zeros", "count_ones") and not vs:
        n = mk(name, x)
        P._leafbits.setdefault(n.id, W or 512)
        return num(n, ("u32",))
    if name == "to_le_bytes" or name == "to_be_bytes":
        return num(mk(name, x), ("Vec", ("u8",)))
    return None
