"""Path-sensitive abstract evaluator: builds a value-dependence graph for every path of a function,
with the branch facts that hold on the path, the effects performed and the panic obligations met."""
from .terms import *
from .front import tyname, tystr, Fn, Module
from . import prove as P

WIDTH = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 32, "U128": 128, "U256": 256,
         "U512": 512, "FixedU128": 128, "Fraction": 128, "U1F127": 128, "U32F96": 128, "i128": 127, "i32": 31, "i64": 63,
         "NonZeroU128": 128}
SCALE = {"FixedU128": 10**18, "Permill": 10**6, "Perbill": 10**9, "Perquintill": 10**18, "Percent": 100,
         "Fraction": 2**127, "U1F127": 2**127, "U32F96": 2**96}
PERTHING = {"Permill", "Perbill", "Perquintill", "Percent"}
INTS = {"u8", "u16", "u32", "u64", "u128", "usize", "U128", "U256", "U512", "i128", "i64", "i32"}
FIXEDCRATE = {"Fraction", "U1F127", "U32F96"}
IDENT_METHODS = {"clone", "to_owned", "iter", "into_iter", "iter_mut", "as_ref", "as_mut", "borrow", "borrow_mut", "cloned", "copied",
                 "to_vec", "by_ref", "as_slice", "deref", "to_fixed", "into_inner_ref", "drain_all", "into_boxed"}


class Budget(Exception):
    pass


class St:
    __slots__ = ("scope", "store", "facts", "eff", "tags")

    def __init__(self):
        self.scope = {}
        self.store = {}
        self.facts = ()
        self.eff = ()
        self.tags = ()

    def copy(self):
        s = St()
        s.scope = dict(self.scope)
        s.store = dict(self.store)
        s.facts = self.facts
        s.eff = self.eff
        s.tags = self.tags
        return s


class Obl:
    __slots__ = ("kind", "file", "line", "fn", "desc", "ok", "facts", "node")

    def __init__(self, kind, file, line, fn, desc, ok, facts, node=None):
        self.kind, self.file, self.line, self.fn, self.desc, self.ok, self.facts, self.node = (
            kind, file, line, fn, desc, ok, facts, node)


class Frame:
    def __init__(self, fn, mod, selfty, depth, tymap=None):
        self.fn = fn
        self.mod = mod
        self.selfty = selfty
        self.rets = []     # (st, val, kind)
        self.loops = []
        self.depth = depth
        self.tymap = tymap or {}
        self.retty = None


class Loop:
    def __init__(self, label):
        self.label = label
        self.breaks = []
        self.conts = []


def vsubst(v, mp):
    if isinstance(v, Num):
        return Num(subst(v.n, mp), v.ty)
    if isinstance(v, Tup):
        return Tup([vsubst(x, mp) for x in v.xs])
    if isinstance(v, ListV):
        return ListV([vsubst(x, mp) for x in v.xs], v.ty)
    if isinstance(v, Struct):
        return Struct(v.name, {k: vsubst(x, mp) for k, x in v.f.items()}, vsubst(v.base, mp) if v.base is not None else None)
    if isinstance(v, Var):
        return Var(v.name, [vsubst(x, mp) for x in v.xs], {k: vsubst(x, mp) for k, x in v.f.items()} if v.f else v.f, v.enum)
    if isinstance(v, Part):
        return Part(vsubst(v.v, mp), [(subst(c, mp), p) for c, p in v.conds], v.kind, v.err)
    if isinstance(v, Seq):
        return Seq(subst(v.dom, mp), vsubst(v.elem, mp), v.bv, [(subst(c, mp), p) for c, p in v.filt])
    return v


class Seq(Val):
    """sequence: { elem(i) | i in dom, filt(i) }, with bound index bv"""
    __slots__ = ("dom", "elem", "bv", "filt")

    def __init__(self, dom, elem, bv, filt=()):
        self.dom, self.elem, self.bv, self.filt = dom, elem, bv, list(filt)

    def node(self):
        e = tonode_(self.elem)
        # identity sequence over dom
        if not self.filt and e.op == "idx" and e.args[0] is self.dom and e.args[1] is self.bv:
            return self.dom
        fs = [c if p else nnot(c) for c, p in self.filt]
        k = max([bvlevel(e)] + [bvlevel(c) for c in fs])
        B = bvi(k)
        return mkb(k, "seq", self.dom, subst(e, {self.bv: B}), *[subst(c, {self.bv: B}) for c in fs])

    def __repr__(self):
        return f"Seq({self.dom!r}; {self.elem!r} | {self.filt})"




def tonode_(v):
    if isinstance(v, Seq):
        return v.node()
    if isinstance(v, Num):
        return v.n
    if isinstance(v, Tup):
        xs = [tonode_(x) for x in v.xs]
        if len(xs) > 1 and all(x.op == "fld" and x.args[1] == str(i) and x.args[0] is xs[0].args[0] for i, x in enumerate(xs)):
            return xs[0].args[0]
        return mk("tuple", *xs) if xs else UNIT
    if isinstance(v, ListV):
        return mk("list", *[tonode_(x) for x in v.xs])
    if isinstance(v, Struct):
        ks = sorted(v.f)
        extra = [tonode_(v.base)] if v.base is not None else []
        if extra and all(f.op == "fld" and f.args[0] is extra[0] and f.args[1] == k for k, f in ((k, tonode_(v.f[k])) for k in ks)):
            return extra[0]
        return mk("struct:" + v.name + ":" + ",".join(ks), *[tonode_(v.f[k]) for k in ks], *extra)
    if isinstance(v, Var):
        if v.f:
            ks = sorted(v.f)
            return mk("variant:" + v.name + ":" + ",".join(ks), *[tonode_(v.f[k]) for k in ks])
        return mk("variant:" + v.name, *[tonode_(x) for x in v.xs])
    if isinstance(v, Part):
        n = tonode_(v.v)
        if n.op == "payload" and len(v.conds) == 1 and v.conds[0] == (mk("is", n.args[0], "Some" if v.kind == "Option" else "Ok"), True):
            return n.args[0]
        return mk("part:" + v.kind, n, *[(c if p else nnot(c)) for c, p in v.conds])
    return tonode(v)


def local_name(e):
    while e[0] in ("paren", "group"):
        e = e[-1]
    return e[2][0][0] if e[0] == "path" and e[3] is None and len(e[2]) == 1 and not e[2][0][1] else None


def walk_ast(e):
    if isinstance(e, list):
        yield e
        for x in e:
            yield from walk_ast(x)


def mentions(e, name):
    return any(len(x) == 4 and x[0] == "path" and isinstance(x[2], list) and len(x[2]) == 1 and x[2][0][:1] == [name] for x in walk_ast(e)) or \
        any(isinstance(y, str) and " " in y and name in y for x in walk_ast(e) for y in x)


def contains_kind(e, kind):
    return any(len(x) > 1 and x[0] == kind and isinstance(x[1], int) for x in walk_ast(e))


def names_in(e):
    return {x[2][0][0] for x in walk_ast(e) if len(x) == 4 and x[0] == "path" and isinstance(x[2], list) and len(x[2]) == 1}


def is_increment(e, i):
    def one(x):
        return x[0] == "lit" and x[2] == "int" and str(x[3]) == "1"
    if e[0] == "opassign":
        return e[2] == "+" and local_name(e[3]) == i and one(e[4])
    if e[0] == "assign" and local_name(e[2]) == i:
        r = e[3]
        if r[0] == "bin" and r[2] == "+":
            return local_name(r[3]) == i and one(r[4]) or local_name(r[4]) == i and one(r[3])
        if r[0] == "mcall" and r[3] in ("saturating_add", "wrapping_add") and len(r[5]) == 1:
            return local_name(r[2]) == i and one(r[5][0])
    return False


READ_ONLY = {"len", "is_empty", "iter", "into_iter", "get", "clone", "first", "last", "contains", "is_zero", "into", "unwrap", "ok_or", "checked_add", "checked_sub",
             "checked_mul", "checked_div", "saturating_add", "saturating_sub", "saturating_mul", "saturating_div", "to_vec", "as_ref", "copied", "cloned", "min", "max", "abs_diff"}


def mutated_names(e):
    out = set()

    def root(x):
        while x[0] in ("field", "index", "un", "ref", "mcall", "try"):
            x = x[3] if x[0] in ("un", "ref") else x[2]
        n = local_name(x)
        if n:
            out.add(n)
    for x in walk_ast(e):
        if len(x) > 2 and isinstance(x[0], str) and isinstance(x[1], int):
            if x[0] == "assign":
                root(x[2])
            elif x[0] == "opassign":
                root(x[3])
            elif x[0] == "ref" and x[2] is True:
                root(x[3])
            elif x[0] == "mcall" and x[3] not in READ_ONLY:
                root(x[2])
    return out


def named(fs, names):
    """types of one name in several modules: the one the path names"""
    if not fs or len(fs) < 2 or len(names) < 3:
        return fs
    return [x for x in fs if x.mod.path and x.mod.path[-1] == names[-3]] or fs


class Interp:
    def __init__(self, world, model=None, max_states=4000):
        self.w = world
        self.model = model
        self.max_states = max_states
        self.obls = {}
        self.obl_open = []
        self.slotc = 0
        self.loopc = 0
        self.depth = 0
        self.stack = []
        self.bvd = 0
        self.altnames = set()       # names selecting alternatives in a match: a single such name is a variant, not a struct
        self.nstates = 0
        self.opaque = {}   # construct -> count (things not modelled)
        self.loops_seen = []
        self.fns_seen = set()
        self.callsites = 0
        self.merge_errs = False   # keep one error exit per distinct error value
        self.errfacts = {}
        self.summaries = set()    # functions left uninterpreted

    # ---- types --------------------------------------------------------------------------
    def T(self, t, fr):
        if t is None:
            return ("tup",)
        k = t[0]
        if k == "tref":
            return self.T(t[2], fr)
        if k == "ttup":
            return ("tup",) + tuple(self.T(x, fr) for x in t[1])
        if k in ("tslice",):
            return ("Vec", self.T(t[1], fr))
        if k == "tarr":
            return ("Vec", self.T(t[1], fr))
        if k == "tself":
            return fr.selfty or ("Self",)
        if k == "tp":
            segs = t[2]
            name = segs[-1][0]
            args = [self.T(x, fr) for x in segs[-1][1] if x[0] not in ("tother", "tconst", "tassoc")]
            if t[1] is not None:
                q = tystr(t[1][0])
                return ("proj", q, name)
            if name == "Self" and len(segs) == 1:
                return fr.selfty or ("Self",)
            if len(segs) == 1 and name in fr.tymap:
                return fr.tymap[name]
            if name in ("Vec", "BoundedVec", "WeakBoundedVec", "BTreeSet", "BoundedBTreeSet"):
                return ("Vec", args[0] if args else None)
            if name in ("Box", "Cow"):
                return args[0] if args else None
            if name == "Option":
                return ("Option", args[0] if args else None)
            if name == "Result":
                return ("Result", args[0] if args else None, args[1] if len(args) > 1 else None)
            if name == "DispatchResultWithPostInfo":
                return ("Result", ("PostDispatchInfo",), ("DispatchErrorWithPostInfo",))
            if name == "DispatchResult":
                return ("Result", ("tup",), ("DispatchError",))
            if name in WIDTH or name in SCALE or name in ("bool",):
                return (name,)
            if name == "U1F127":
                return ("Fraction",)
            if len(segs) == 2 and segs[0][0] == "Self" and fr.fn is not None and fr.fn.impl is not None:
                for x in fr.fn.impl["items"]:
                    if x["k"] == "type" and x["name"] == name:
                        return self.T(x["ty"], fr)
            if len(segs) >= 2 and segs[0][0] in ("T", "Self", "Config") or segs[0][0].startswith("Balance") and len(segs) > 1:
                if name in ("Balance",):
                    return ("u128",)
                return ("proj", segs[0][0], name)
            r = self.w.resolve(fr.mod, [s[0] for s in segs])
            if r and r[0] == "type":
                it = r[1]
                g = [x[0] for x in it["generics"][0]]
                sub = Frame(None, it["_mod"], fr.selfty, 0, dict(zip(g, args)))
                return self.T(it["ty"], sub)
            if r and r[0] == "struct":
                return ("S", name, r[1]["_mod"].crate.name) + tuple(args)
            if r and r[0] == "enum":
                return ("E", name, r[1]["_mod"].crate.name) + tuple(args)
            if name in ("Balance", "BalanceOf"):
                return ("u128",)
            if name in ("S", "E"):
                return ("G:" + name,)
            return (name,) + tuple(args)
        return None

    def struct_item(self, ty):
        if ty and ty[0] == "S":
            return self.w.crates[ty[2]].structs.get(ty[1])
        return None

    def sym(self, node, ty, d=0):
        """symbolic value of a type, rooted at node"""
        if ty is None:
            return Num(node, None)
        k = ty[0]
        if k == "Cell":
            return Struct("Cell", {"0": self.sym(mk("fld", node, "0"), ty[1] if len(ty) > 1 else None, d + 1)})
        if k == "tup":
            if len(ty) == 1:
                return Num(node, ty)
            return Tup([self.sym(mk("fld", node, str(i)), t, d + 1) for i, t in enumerate(ty[1:])])
        if k == "Option":
            return Part(self.sym(mk("payload", node), ty[1], d + 1), [(mk("is", node, "Some"), True)], "Option")
        if k == "Result":
            return Part(self.sym(mk("payload", node), ty[1], d + 1), [(mk("is", node, "Ok"), True)], "Result",
                        Num(mk("errof", node), ty[2] if len(ty) > 2 else None))
        if k == "S" and d < 4:
            it = self.struct_item(ty)
            if it is not None and it["fields"]:
                g = [x[0] for x in it["generics"][0]]
                tm = dict(zip(g, ty[3:]))
                for x in g:
                    if x not in tm:
                        tm[x] = ("u128",) if x == "Balance" else (x,)
                fr = Frame(None, it["_mod"], ty, 0, tm)
                if it["name"] in self.opaque_structs:
                    P.leaf(node, ty)
                    return Num(node, ty)
                return Struct(it["name"], {f[0]: self.sym(mk("fld", node, f[0]), self.T(f[1], fr), d + 1) for f in it["fields"]},
                              Num(node, ty))
        P.leaf(node, ty)
        return Num(node, ty)

    opaque_structs = set()

    # ---- running functions ----------------------------------------------------------------
    def run(self, fn, args=None, selfty=None, st=None, tymap=None):
        st = st or St()
        fr = self.frame_for(fn, selfty, tymap)
        vals = []
        for i, (p, t) in enumerate(fn.params):
            if args is not None and i < len(args) and args[i] is not None:
                vals.append(args[i])
            else:
                nm = p[1] if p[0] == "pid" else f"arg{i}"
                ty = self.T(t, fr)
                v = self.sym(mk("var", nm), ty)
                if getattr(self, "outs", False) and (t[0] == "tref" and t[1] is True or t[0] == "tself" and t[1:] == [True, True]):
                    # what the function leaves in the place it was given
                    self.newslot(st, f"__out{i}", v)
                    v = MutRef(st.scope[f"__out{i}"], ())
                    self.outslots = {**getattr(self, "outslots", {}), i: v.slot}
                vals.append(v)
        return self.call_fn(fn, vals, st, selfty=selfty, tymap=tymap)

    def frame_for(self, fn, selfty=None, tymap=None):
        fr = Frame(fn, fn.mod, selfty, self.depth, tymap)
        if fn.impl is not None and selfty is None:
            tm = {}
            for g, b in fn.impl["generics"][0]:
                if g == "Balance" or g == "B":
                    tm[g] = ("u128",)
            tm.update(fr.tymap)
            fr.tymap = tm
            fr.selfty = self.T(fn.impl["self"], Frame(fn, fn.mod, None, 0, tm))
        return fr

    def call_fn(self, fn, vals, st, selfty=None, tymap=None, outer=None):
        """inline a function; returns [(st, val, kind)] where kind is 'ok' (incl. Err values) """
        self.fns_seen.add(fn.qual)
        gs = {g[0] for g in fn.item["generics"][0]}
        if gs and not tymap:
            tymap = {}
            for (p, t), v in zip(fn.params, vals):
                if t and t[0] == "tp" and t[1] is None and len(t[2]) == 1 and t[2][0][0] in gs and isinstance(v, Num) \
                        and v.ty and v.ty[0] not in ("int", "Into"):
                    tymap.setdefault(t[2][0][0], v.ty)
            for g in gs - set(tymap):
                # not determined by the arguments: a helper's parameter of the caller's name and bound
                t = (outer or {}).get(g)
                if t and t[0] in FIXEDCRATE:
                    tymap[g] = t
        fr = self.frame_for(fn, selfty, tymap)
        if self.stack.count(fn.qual) > 1 or len(self.stack) > 40:
            n = mk("rec", fn.qual, *[tonode_(v) for v in vals])
            return [(st, self.sym(n, self.T(fn.item["ret"], fr)))]
        self.stack.append(fn.qual)
        saved = st.scope
        s = st.copy()
        s.scope = {}
        ret = self.T(fn.item["ret"], fr)
        fr.retty = ret
        states = [s]
        for (p, t), v in zip(fn.params, vals):
            ty = self.T(t, fr)
            v = self.coerce(v, ty)
            nxt = []
            for x in states:
                m, _ = self.bind(p, v, x, fr, irrefutable=True)
                nxt += m
            states = nxt
        for x in states:
            outs = self.block_stmts(fn.body[2], x, fr, ret)
            for (s2, v) in outs:
                fr.rets.append((s2, v, "ret"))
        self.stack.pop()
        res = []
        seen = set()
        for (s2, v, kind) in fr.rets:
            if self.merge_errs and isinstance(v, Var) and v.name in ("None", "Err"):
                k = tonode_(v).id
                self.errfacts.setdefault(fn.qual, []).append(s2.facts)
                if k in seen:
                    continue
                seen.add(k)
            s3 = s2.copy()
            s3.scope = saved
            res.append((s3, self.coerce(v, ret)))
        return self.limit(res)

    def limit(self, res):
        self.nstates += len(res)
        if len(res) > 1:
            res = self.dedup(res)
        if len(res) > self.max_states:
            raise Budget(f"too many paths: {len(res)}")
        return res

    def dedup(self, res):
        seen = {}
        out = []
        for t in res:
            st, v = t[0], t[1]
            k = (tonode_(v).id, tuple(sorted((n.id, p) for n, p in st.facts)), tuple(id(e) for e in st.eff), len(st.store))
            if k in seen:
                continue
            seen[k] = 1
            out.append(t)
        return out

    # ---- facts ----------------------------------------------------------------------------
    def assume(self, st, node, pol):
        """returns st with the fact added, or None when contradictory"""
        if node is TRUE:
            return st if pol else None
        if node is FALSE:
            return None if pol else st
        if node.op == "not":
            return self.assume(st, node.args[0], not pol)
        if node.op == "and" and pol:
            s = self.assume(st, node.args[0], True)
            return self.assume(s, node.args[1], True) if s else None
        if node.op == "or" and not pol:
            s = self.assume(st, node.args[0], False)
            return self.assume(s, node.args[1], False) if s else None
        for n, p in st.facts:
            if n is node:
                return st if p == pol else None
        if node.op == "is" and pol:
            for n, p in st.facts:
                if p and n.op == "is" and n.args[0] is node.args[0] and n.args[1] != node.args[1]:
                    return None
        if node.op in ("lt", "eq"):
            r = P.decide(st.facts, node)
            if r is not None and r != pol:
                return None
        if node.op == "eq" and pol:
            for n, p in st.facts:
                if p and n.op == "eq":
                    for i in (0, 1):
                        for j in (0, 1):
                            if n.args[i] is node.args[j] and n.args[1 - i].op == "const" and node.args[1 - j].op == "const" and n.args[1 - i] is not node.args[1 - j]:
                                return None
        s = st.copy()
        s.facts = st.facts + ((node, pol),)
        return s

    def assume_all(self, st, conds):
        for c, p in conds:
            st = self.assume(st, c, p)
            if st is None:
                return None
        return st

    def assume_not(self, st, conds):
        """list of states where the conjunction of conds fails"""
        if not conds:
            return []
        if len(conds) == 1:
            s = self.assume(st, conds[0][0], not conds[0][1])
            return [s] if s else []
        # split on the first failing condition
        out = []
        cur = st
        for c, p in conds:
            s = self.assume(cur, c, not p)
            if s:
                out.append(s)
            cur = self.assume(cur, c, p)
            if cur is None:
                break
        return out

    # ---- obligations ----------------------------------------------------------------------
    def obl(self, kind, line, fr, desc, ok, st, node=None):
        ok = ok or desc.endswith("overflow big")
        fn = fr.fn.qual if fr.fn else "?"
        file = fr.mod.file
        key = (kind, file, line, desc if not ok else None)
        o = Obl(kind, file, line, fn, desc, ok, st.facts, node)
        if not ok and len(self.obl_open) < 400:
            self.obl_open.append(o)
        k2 = (kind, file, line)
        cur = self.obls.get(k2)
        if cur is None or (cur.ok and not ok):
            self.obls[k2] = o

    def note_opaque(self, what):
        self.opaque[what] = self.opaque.get(what, 0) + 1

    # ---- coercions ------------------------------------------------------------------------
    def conv(self, node, src, dst):
        s = SCALE.get(src[0], 1) if src else 1
        d = SCALE.get(dst[0], 1) if dst else 1
        if s == d:
            return node
        if src and src[0] not in SCALE and src[0] not in WIDTH and src[0] != "bool":
            if dst and dst[0] in SCALE:
                if isc(node) and src[0] == "int":
                    return const(cval(node) * d)
                return mk("conv", node, "/".join(map(str, src)), dst[0])
            return node
        if d % s == 0:
            return mul(node, const(d // s))
        if s % d == 0:
            return div(node, const(s // d))
        return mk("conv", node, src[0], dst[0])

    def convert_from(self, v, ty):
        """conversion through the one From impl of the repository that accepts the shape of v"""
        if self.model is None or ty[2] not in self.w.crates:
            return None
        cands = []
        for c in list(self.w.crates.values()):
            for f in c.by_name.get("from", []):
                if f.impl is None or len(f.params) != 1:
                    continue
                if tyname(f.impl["self"]) == ty[1] or self.T(f.impl["self"], self.frame_for(f))[:2] == ty[:2]:
                    pt = self.T(f.params[0][1], self.frame_for(f))
                    if isinstance(v, Tup) and pt[0] == "tup" and len(pt) == len(v.xs) + 1 or isinstance(v, Struct) and pt[0] == "S" and pt[1] == v.name:
                        cands.append(f)
        for f in cands[:1]:
            st = St()
            st.scope, st.store = {}, {}
            try:
                outs = self.call_fn(f, [v], st, selfty=ty)
            except Exception:
                return None
            if len(outs) == 1:
                return outs[0][1]
        return None

    def coerce(self, v, ty):
        if ty is None or v is None:
            return v
        if isinstance(v, Num):
            if v.ty is not None and v.ty[0] == "Into":
                if ty[0] in WIDTH or ty[0] in SCALE:
                    return Num(self.conv(v.n, v.ty[1], ty), ty)
                if ty[0] == "tup" and len(ty) > 1 and v.ty[1] and v.ty[1][0] == "S":
                    return v
                return Num(v.n, ty)
            if v.ty is None or v.ty == ("int",):
                if ty[0] == "Option" and v.n.op != "call":
                    return v
                return Num(v.n, ty)
            return v
        if isinstance(v, Part):
            if ty[0] in ("Option", "Result") and len(ty) > 1:
                conds = v.conds
                t = ty[1]
                nv = self.coerce(v.v, t)
                if t and t[0] in WIDTH and any(c.op == "fits" and c.args[1] == "?" for c, _ in conds):
                    conds = [(self.fits(c.args[0], t[0]) if c.op == "fits" and c.args[1] == "?" else c, p) for c, p in conds]
                    conds = [(c, p) for c, p in conds if not (c is TRUE and p)]
                return Part(nv, conds, v.kind, v.err)
            return v
        if ty[0] == "S" and (isinstance(v, Tup) or isinstance(v, Struct) and v.name != ty[1] and v.name != "?"):
            r = self.convert_from(v, ty)
            if r is not None:
                return r
        if isinstance(v, Tup) and ty[0] == "tup" and len(ty) == len(v.xs) + 1:
            return Tup([self.coerce(x, t) for x, t in zip(v.xs, ty[1:])])
        if isinstance(v, Var) and v.name in ("Some", "Ok") and ty[0] in ("Option", "Result") and len(ty) > 1 and v.xs:
            return Var(v.name, [self.coerce(v.xs[0], ty[1])])
        return v

    def fits(self, node, tyname_):
        w = WIDTH.get(tyname_)
        if w is None:
            return mk("fits", node, tyname_)
        b = P.bits(node)
        if b is not None and b <= w:
            return TRUE
        return mk("fits", node, w)

    # ---- patterns -------------------------------------------------------------------------
    def newslot(self, st, name, val):
        self.slotc += 1
        st.scope[name] = self.slotc
        st.store[self.slotc] = val

    def resolve_variant(self, segs, fr, bare=False):
        """(variant name, enum item or None) if the path is an enum variant / unit const"""
        names = [s[0] for s in segs]
        if names == ["None"] or names == ["Some"] or names == ["Ok"] or names == ["Err"]:
            return names[0], None
        if names[0] == "Self" and fr.selfty and len(names) > 1 and fr.selfty[0] == "E":
            names = [fr.selfty[1]] + names[1:]
            r = ("variant", (None, [names[1]]))
            return names[-1], None
        r = self.w.resolve(fr.mod, names)
        if r and r[0] == "variant":
            return r[1][1][0], r[1][0]
        if r and r[0] == "struct":
            return None, None
        if r and r[0] == "const":
            return None, None
        if len(names) >= 2 and names[-1][:1].isupper():
            return names[-1], None
        if len(names) >= 2 and names[-2] in ("Call", "RuntimeCall") and r is None:
            return names[-1], None      # the enum of calls a pallet macro generates; its variants are named like functions
        if r is None and bare and names[-1][:1].isupper():
            return names[-1], None      # brought into scope by a glob import of an enum defined elsewhere
        return None, None

    def bind(self, p, v, st, fr, irrefutable=False):
        """match value v against pattern p; returns ([matching states], [non-matching states])"""
        k = p[0]
        if k == "pwild" or k == "prest":
            return [st], []
        if k == "pid":
            name = p[1]
            if p[4] is None and name[:1].isupper():
                vn, en = self.resolve_variant([[name, []]], fr, bare=True)
                if vn:
                    return self.match_variant(vn, en, [], v, st, fr)
                r = self.w.resolve(fr.mod, [name])
                if r and r[0] == "const":
                    c = self.const_val(r[1], fr)
                    return self.match_eq(v, c, st)
                if name in ("None",):
                    return self.match_variant("None", None, [], v, st, fr)
            if p[4] is not None:
                m, n = self.bind(p[4], v, st, fr)
                out = []
                for s in m:
                    s = s.copy()
                    self.newslot(s, name, v)
                    out.append(s)
                return out, n
            s = st.copy()
            self.newslot(s, name, v)
            return [s], []
        if k == "ptyped":
            return self.bind(p[1], self.coerce(v, self.T(p[2], fr)), st, fr, irrefutable)
        if k == "ptup":
            v0 = v
            v = self.force(v, st)
            pats = p[1]
            if isinstance(v0, MutRef) and self.model is not None:
                xs = [MutRef(v0.slot, v0.path + (str(i),)) for i in range(len(v.xs) if isinstance(v, Tup) else len(pats))]
            elif isinstance(v, Tup):
                xs = v.xs
            elif isinstance(v, Num):
                tys = v.ty[1:] if v.ty and v.ty[0] == "tup" else ()
                xs = [self.sym(self.fldnode(v.n, str(i)), tys[i] if i < len(tys) else None) for i in range(len(pats))]
            else:
                xs = [Num(mk("fld", tonode_(v), str(i))) for i in range(len(pats))]
            if any(q[0] == "prest" for q in pats):
                i = [q[0] for q in pats].index("prest")
                tail = len(pats) - i - 1
                pairs = list(zip(pats[:i], xs[:i])) + (list(zip(pats[i + 1:], xs[len(xs) - tail:])) if tail else [])
            else:
                pairs = list(zip(pats, xs))
            return self.bind_all(pairs, st, fr)
        if k == "pts":
            vn, en = self.resolve_variant(p[1], fr, bare=True)
            if vn:
                return self.match_variant(vn, en, p[2], v, st, fr)
            name = p[1][-1][0]
            if len(p[1]) > 1 and name[:1].islower() and p[1][-2][0][:1].isupper():
                return self.match_variant(name, None, p[2], v, st, fr)  # variants named after pallets
            v = self.force(v, st)
            if isinstance(v, Struct):
                return self.bind_all([(q, v.f.get(str(i), Num(mk("fld", tonode_(v), str(i))))) for i, q in enumerate(p[2])], st, fr)
            return self.bind_all([(q, Num(mk("fld", tonode_(v), str(i)))) for i, q in enumerate(p[2])], st, fr)
        if k == "pstruct":
            vn, en = self.resolve_variant(p[1], fr, bare=len(p[1]) == 1 and p[1][0][0] in self.altnames)
            v0 = v
            v = self.force(v, st)
            if isinstance(v0, MutRef) and self.model is not None and not vn:
                return self.bind_all([(q, MutRef(v0.slot, v0.path + (f,))) for f, q in p[2]], st, fr)
            if vn:
                if isinstance(v, Var):
                    if v.name != vn:
                        return [], [st]
                    return self.bind_all([(q, (v.f or {}).get(f, Num(mk("fld", tonode_(v), f)))) for f, q in p[2]], st, fr)
                c = mk("is", tonode_(v), vn)
                ys = self.assume(st, c, True)
                no = self.assume(st, c, False)
                m, n = ([], [])
                if ys:
                    m, n = self.bind_all([(q, Num(mk("vfld", tonode_(v), vn, f))) for f, q in p[2]], ys, fr)
                return m, n + ([no] if no else [])
            return self.bind_all([(q, self.field(v, f)) for f, q in p[2]], st, fr)
        if k == "plit":
            lv = self.eval(p[1], st, fr)
            return self.match_eq(v, lv[0][1], st)
        if k == "ppath":
            vn, en = self.resolve_variant(p[1], fr)
            if vn:
                return self.match_variant(vn, en, [], v, st, fr)
            r = self.w.resolve(fr.mod, [s[0] for s in p[1]])
            if r and r[0] == "const":
                return self.match_eq(v, self.const_val(r[1], fr), st)
            return self.match_eq(v, Num(mk("path", "::".join(s[0] for s in p[1]))), st)
        if k == "por":
            heads = set(pathead(p))
            if len(heads) > 1:
                self.altnames |= heads
            m, rest = [], [st]
            for q in p[1]:
                nr = []
                for s in rest:
                    a, b = self.bind(q, v, s, fr)
                    m += a
                    nr += b
                rest = nr
            return m, rest
        if k == "pslice":
            v = self.force(v, st)
            if isinstance(v, ListV) and not any(q[0] == "prest" for q in p[1]):
                if len(v.xs) != len(p[1]):
                    return [], [st]
                return self.bind_all(list(zip(p[1], v.xs)), st, fr)
            n = tonode_(v)
            c = mk("slicepat", n, len(p[1]))
            ys, no = self.assume(st, c, True), self.assume(st, c, False)
            m = []
            if ys:
                ety = v.ty[1] if isinstance(v, Num) and v.ty and v.ty[0] == "Vec" and len(v.ty) > 1 else None
                m, _ = self.bind_all([(q, self.sym(mk("idx", n, const(i)), ety)) for i, q in enumerate(p[1])], ys, fr)
            return m, [no] if no else []
        if k == "prange":
            n = tonode_(v)
            c = mk("inrange", n, repr(p[1:]))
            ys, no = self.assume(st, c, True), self.assume(st, c, False)
            return [ys] if ys else [], [no] if no else []
        c = mk("pat", tonode_(v), repr(p)[:80])
        ys, no = self.assume(st, c, True), self.assume(st, c, False)
        return [ys] if ys else [], [no] if no else []

    def bind_all(self, pairs, st, fr):
        cur, no = [st], []
        for q, x in pairs:
            nxt = []
            for s in cur:
                a, b = self.bind(q, x, s, fr)
                nxt += a
                no += b
            cur = nxt
        return cur, no

    def match_eq(self, v, c, st):
        v = self.force(v, st)
        a, b = tonode_(v), tonode_(self.coerce(c, v.ty) if isinstance(v, Num) else c)
        flip = False
        if b is TRUE or b is FALSE or a is TRUE or a is FALSE:
            n, k = (a, b) if b is TRUE or b is FALSE else (b, a)
            flip = k is FALSE
        else:
            n = eq(a, b)
        d = P.decide(st.facts, n)
        if d is None:
            ys, no = self.assume(st, n, not flip), self.assume(st, n, flip)
        else:
            ys, no = (st, None) if d is not flip else (None, st)
        return [ys] if ys else [], [no] if no else []

    def match_variant(self, vn, en, pats, v, st, fr):
        if isinstance(v, MutRef) and self.model is not None and vn in ("Some", "Ok") and len(pats) == 1:
            w = self.force(v, st)
            m, n = self.match_variant(vn, en, [["pwild"]], w, st, fr)
            out = []
            for x in m:
                a, b = self.bind(pats[0], MutRef(v.slot, v.path + ("?",)), x, fr)
                out += a
                n = n + b
            return out, n
        v = self.force(v, st)
        if isinstance(v, Var):
            if v.name != vn:
                return [], [st]
            return self.bind_all(list(zip(pats, v.xs)), st, fr)
        if isinstance(v, Part):
            good = "Some" if v.kind == "Option" else "Ok"
            if vn == good:
                ys = self.assume_all(st, v.conds)
                no = self.assume_not(st, v.conds)
                if ys is None:
                    return [], no
                m, n = self.bind_all(list(zip(pats, [v.v])), ys, fr)
                return m, n + no
            if vn in ("None", "Err"):
                no = self.assume_not(st, v.conds)
                ys = self.assume_all(st, v.conds)
                e = v.err if v.err is not None else Num(mk("errof", tonode_(v.v)))
                m = []
                n2 = []
                for s in no:
                    a, b = self.bind_all(list(zip(pats, [e])), s, fr)
                    m += a
                    n2 += b
                return m, n2 + ([ys] if ys else [])
        n = tonode_(v)
        c = mk("is", n, vn)
        if n.op == "cmp" and vn in ("Less", "Equal", "Greater"):
            x, y = n.args
            c = {"Less": lt(x, y), "Equal": eq(x, y), "Greater": lt(y, x)}[vn]
            d = P.decide(st.facts, c)
            ys = self.assume(st, c, True) if d is not False else None
            no = self.assume(st, c, False) if d is not True else None
            return [ys] if ys else [], [no] if no else []
        # a unit-only comparison and `==` on the same variant should coincide
        ys, no = self.assume(st, c, True), self.assume(st, c, False)
        m, nn = [], []
        if ys:
            xs = []
            for i, q in enumerate(pats):
                ty = None
                if en is not None:
                    var = [x for x in en["variants"] if x[0] == vn]
                    if var and i < len(var[0][1]):
                        ty = self.T(var[0][1][i][1], Frame(None, en["_mod"], None, 0))
                if vn in ("Some", "Ok"):
                    ty = v.ty[1] if isinstance(v, Num) and v.ty and v.ty[0] in ("Option", "Result") and len(v.ty) > 1 else ty
                    xs.append(self.sym(mk("payload", n), ty))
                elif vn == "Err":
                    xs.append(Num(mk("errof", n)))
                else:
                    xs.append(self.sym(mk("vfld", n, vn, str(i)), ty))
            m, nn = self.bind_all(list(zip(pats, xs)), ys, fr)
        # exhaustive enums: if every other variant is excluded the last must hold
        if no is not None and en is not None:
            names = [x[0] for x in en["variants"]]
            excluded = {f.args[1] for f, p in no.facts if not p and f.op == "is" and f.args[0] is n}
            if set(names) <= excluded:
                no = None
        return m, nn + ([no] if no else [])

    def fldnode(self, n, f):
        if n.op == "tuple" and f.isdigit() and int(f) < len(n.args):
            return n.args[int(f)]
        if n.op.startswith("struct:"):
            ks = n.op.split(":")[2].split(",")
            if f in ks:
                return n.args[ks.index(f)]
        return mk("fld", n, f)

    def force(self, v, st):
        if isinstance(v, MutRef):
            return self.readref(v, st)
        return v

    def readref(self, r, st):
        v = st.store[r.slot]
        for f in r.path:
            v = self.field(self.force(v, st), f)
        return v

    def field(self, v, f):
        if isinstance(f, Idx):
            n = tonode_(v)
            if n.op == "upd" and n.args[1] is f.node:
                x = n.args[2]
                if x.op.startswith("struct:"):
                    ks = x.op.split(":")[2].split(",")
                    return Struct(x.op.split(":")[1], {k: Num(y) for k, y in zip(ks, x.args)}, Num(x.args[len(ks)]) if len(x.args) > len(ks) else None)
                return Num(x)
            return self.index(v, Num(f.node), None)[0]
        if isinstance(f, Key):
            n = tonode_(v)
            if n.op == "upd" and n.args[1] is f.node:
                x = n.args[2]
                if x.op.startswith("struct:"):
                    ks = x.op.split(":")[2].split(",")
                    return Struct(x.op.split(":")[1], {k: Num(y) for k, y in zip(ks, x.args)}, Num(x.args[len(ks)]) if len(x.args) > len(ks) else None)
                return Num(x)
            ty = v.ty[2] if isinstance(v, Num) and v.ty and v.ty[0] in ("BTreeMap", "BoundedBTreeMap") and len(v.ty) > 2 else None
            return self.sym(mk("payload", mk("m", "get", n, f.node)), ty)
        if f == "?":
            if isinstance(v, Part):
                return v.v
            if isinstance(v, Var) and v.xs:
                return v.xs[0]
            if isinstance(v, Num):
                return self.sym(mk("payload", v.n), v.ty[1] if v.ty and v.ty[0] in ("Option", "Result") and len(v.ty) > 1 else None)
        if isinstance(v, Tup):
            if f.isdigit() and int(f) < len(v.xs):
                return v.xs[int(f)]
        if isinstance(v, Struct):
            if f in v.f:
                return v.f[f]
            if v.base is not None:
                return self.field(v.base, f)
            return Num(mk("fld", tonode_(v), f))
        if isinstance(v, Var) and v.xs and f.isdigit() and int(f) < len(v.xs):
            return v.xs[int(f)]
        if isinstance(v, Var) and v.f and f in v.f:
            return v.f[f]
        if isinstance(v, Num):
            ty = None
            it = self.struct_item(v.ty) if v.ty else None
            if it is not None:
                for x in it["fields"]:
                    if x[0] == f:
                        g = [y[0] for y in it["generics"][0]]
                        ty = self.T(x[1], Frame(None, it["_mod"], v.ty, 0, dict(zip(g, v.ty[3:]))))
            elif v.ty and v.ty[0] == "tup" and f.isdigit() and int(f) + 1 < len(v.ty):
                ty = v.ty[int(f) + 1]
            return self.sym(self.fldnode(v.n, f), ty)
        return Num(mk("fld", tonode_(v), f))

    # ---- statements -----------------------------------------------------------------------
    def block(self, b, st, fr, ex=None):
        """b = ["block", line, stmts, label]"""
        saved = st.scope
        lab = b[3]
        s = st.copy()
        if lab is not None:
            lp = Loop(lab)
            lp.blocklabel = True
            fr.loops.append(lp)
        outs = self.block_stmts(b[2], s, fr, ex)
        if lab is not None:
            fr.loops.pop()
            outs = outs + [(x, v) for x, v in lp.breaks]
        res = []
        for s2, v in outs:
            if s2.scope is not saved:
                s2 = s2.copy()
                s2.scope = saved
            res.append((s2, v))
        return res

    def block_stmts(self, sts, st, fr, ex=None):
        cur = [st]
        n = len(sts)
        last = None
        for i, x in enumerate(sts):
            nxt = []
            k = x[0]
            final = i == n - 1
            if k == "item":
                it = x[2]
                for s in cur:
                    s2 = s.copy()
                    if it["k"] == "fn":
                        self.newslot(s2, it["name"], FnV((it["name"],), Fn(it["name"], fr.mod, it)))
                    elif it["k"] in ("const", "static"):
                        r = self.eval(it["expr"], s2, fr)
                        self.newslot(s2, it["name"], self.coerce(r[0][1], self.T(it["ty"], fr)))
                    elif it["k"] == "use":
                        for nm, path in it["uses"]:
                            if nm not in fr.mod.uses and nm != "*":
                                fr.mod.uses[nm] = path
                    nxt.append(s2)
                cur = nxt
                if final:
                    return [(s, UNITV) for s in cur]
                continue
            if k == "local":
                _, line, p, ty, init, els = x
                t = self.T(ty, fr) if ty is not None else None
                for s in cur:
                    if init is None:
                        s2 = s.copy()
                        if p[0] == "pid":
                            self.newslot(s2, p[1], Num(mk("uninit", p[1]), t))
                        nxt.append(s2)
                        continue
                    for s2, v in self.eval(init, s, fr, t):
                        v = self.coerce(v, t)
                        m, no = self.bind(p, v, s2, fr)
                        im = init
                        while im[0] == "mcall" and im[3] in ("into_iter", "by_ref") and not im[5]:
                            im = im[2]
                        if p[0] == "pid" and im[0] == "mcall" and im[3] == "iter_mut":
                            for x2 in m:
                                x2.store[("itm", x2.scope[p[1]])] = im
                        nxt += m
                        if els is not None:
                            for s3 in no:
                                self.eval(els, s3, fr)
                cur = self.cap(nxt)
                if final:
                    return [(s, UNITV) for s in cur]
                continue
            if k == "expr":
                e, semi = x[2], x[3]
                outs = []
                for s in cur:
                    outs += self.eval(e, s, fr, ex if (final and not semi) else None)
                if final and not semi:
                    return outs
                cur = self.cap([s for s, _ in outs])
                if final:
                    return [(s, UNITV) for s in cur]
        return [(s, UNITV) for s in cur]

    def cap(self, sts):
        if len(sts) > self.max_states:
            raise Budget(f"too many states: {len(sts)}")
        return sts

    # ---- expressions ------------------------------------------------------------------------
    def eval(self, e, st, fr, expect=None):
        self.nstates += 1
        m = getattr(self, "e_" + e[0], None)
        if m is None:
            self.note_opaque("expr " + e[0])
            return [(st, Num(mk("opaque", e[0], fr.mod.file, e[1])))]
        return m(e, st, fr, expect)

    def evals(self, es, st, fr):
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.eval(e, s, fr):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_lit(self, e, st, fr, ex):
        k, v, suf = e[2], e[3], e[4]
        if k == "int":
            ty = (suf,) if suf else ("int",)
            return [(st, Num(const(int(v)), ty))]
        if k == "bool":
            return [(st, Num(TRUE if v else FALSE, ("bool",)))]
        if k == "bstr":
            return [(st, Num(mk("const", "b" + repr(v)), ("bytes",)))]
        return [(st, Num(mk("const", str(v)), (k,)))]

    def const_val(self, it, fr):
        key = id(it)
        c = getattr(self, "_constc", None)
        if c is None:
            c = self._constc = {}
        if key in c:
            return c[key]
        f2 = Frame(None, it["_mod"] if "_mod" in it else fr.mod, None, 0)
        c[key] = Num(mk("constitem", it["name"]), None)
        ty = self.T(it["ty"], f2)
        try:
            r = self.eval(it["expr"], St(), f2)
            v = self.coerce(r[0][1], ty)
            if isinstance(v, Num) and not isc(v.n) and v.n.op not in ("const",):
                pass
        except Budget:
            raise
        c[key] = v
        return v

    def e_path(self, e, st, fr, ex):
        segs = e[2]
        names = [s[0] for s in segs]
        if e[3] is None and len(names) == 1:
            nm = names[0]
            if nm in st.scope:
                return [(st, st.store[st.scope[nm]])]
        return [(st, self.path_val(e, st, fr))]

    def path_val(self, e, st, fr):
        segs = e[2]
        names = [s[0] for s in segs]
        if self.model is not None:
            r = self.model.path(self, names, e, st, fr)
            if r is not None:
                return r
        if e[3] is None:
            if len(names) == 1 and names[0] == "None":
                return Var("None")
            if len(names) == 1 and names[0] in fr.tymap and isinstance(fr.tymap[names[0]], Val):
                return fr.tymap[names[0]]
            if len(names) == 1 and fr.fn is not None:
                for g, b in fr.fn.item["generics"][0]:
                    if g == names[0] and b == "const":
                        return Num(mk("var", g), ("int",))
            if names[0] == "Self" and len(names) == 2 and fr.fn is not None and fr.fn.impl is not None:
                sn = tyname(fr.fn.impl["self"])
                cs = fr.mod.crate.consts.get((sn, names[1]))
                if cs:
                    it = dict(cs[0][1])
                    it["_mod"] = cs[0][0]
                    return self.const_val(it, fr)
            r = self.w.resolve(fr.mod, names)
            if r:
                if r[0] == "const":
                    return self.const_val(r[1], fr)
                if r[0] == "variant":
                    if r[1][1][1]:
                        return FnV(tuple(names), ("variant", r[1]))
                    return Var(r[1][1][0], enum=r[1][0]["name"])
                if r[0] == "fn":
                    return FnV(tuple(names), r[1])
                if r[0] == "struct":
                    return FnV(tuple(names), ("struct", r[1]))
            if len(names) >= 2:
                t = self.T(["tp", None, segs[:-1]], fr)
                v = self.assoc_const(t, names[-1])
                if v is not None:
                    return v
                vn, en = self.resolve_variant(segs, fr)
                if vn and (names[0] == "Self" and fr.selfty and fr.selfty[0] == "E"):
                    it = self.w.crates[fr.selfty[2]].enums.get(fr.selfty[1])
                    if it:
                        var = [x for x in it["variants"] if x[0] == vn]
                        if var and not var[0][1]:
                            return Var(vn, enum=it["name"])
                        if var:
                            return FnV(tuple(names), ("variant", (it, var[0])))
                nm = names[-1]
                if nm[:1].isupper() and any(ch.islower() for ch in nm) and names[-2][:1].isupper() and names[-2] not in ("T", "Self"):
                    return Var(nm, enum=names[-2])
        else:
            t = self.T(e[3][0], fr)
            v = self.assoc_const(t, names[-1])
            if v is not None:
                return v
        q = e[3][0] if e[3] else None
        if names[:2] == ["fixed", "consts"]:
            n = mk("var", "::".join(names))
            P.leaf(n, ("U32F96",))
            return Num(n, ("U32F96",))
        return FnV(tuple(names), None, tystr(q) if q else None)

    def assoc_const(self, t, name):
        if not t:
            return None
        k = t[0]
        if name in ("MAX", "max_value"):
            if k in INTS:
                return Num(const(2**{"usize": 32}.get(k, WIDTH[k]) - 1), t) if k != "usize" else Num(const(2**32 - 1), t)
        if name == "DIV" and k in SCALE:
            return Num(const(SCALE[k]), ("u128",))
        if name == "ONE" and k in SCALE:
            return Num(const(SCALE[k]), t)
        if name in ("ZERO", "MIN") and (k in SCALE or k in INTS):
            return Num(ZERO, t)
        if name == "FRAC_NBITS" and k in FIXEDCRATE:
            return Num(const({"Fraction": 127, "U1F127": 127, "U32F96": 96}[k]), ("u32",))
        if name == "BITS" and k in WIDTH:
            return Num(const(WIDTH[k]), ("u32",))
        return None

    def e_tuple(self, e, st, fr, ex):
        return [(s, Tup(vs)) for s, vs in self.evals(e[2], st, fr)]

    def e_array(self, e, st, fr, ex):
        return [(s, ListV(vs)) for s, vs in self.evals(e[2], st, fr)]

    def e_repeat(self, e, st, fr, ex):
        out = []
        for s, (a, n) in [(s, vs) for s, vs in self.evals([e[2], e[3]], st, fr)]:
            out.append((s, Num(mk("repeat", tonode_(a), tonode_(n)), ("Vec", a.ty if isinstance(a, Num) else None))))
        return out

    def iscell(self, e, st):
        if e[0] == "path" and e[3] is None and len(e[2]) == 1 and e[2][0][0] in st.scope:
            v = st.store.get(st.scope[e[2][0][0]])
            if isinstance(v, MutRef):
                v = self.force(v, st)
            return isinstance(v, Struct) and v.name == "Cell"
        return False

    def e_ref(self, e, st, fr, ex):
        if e[2] or self.iscell(e[3], st):
            lv = self.lvalue(e[3], st, fr)
            if lv is not None:
                base = st.store.get(lv[0])
                if isinstance(base, MutRef) and not lv[1]:
                    return [(st, base)]
                path = []
                for f in lv[1]:
                    if isinstance(f, tuple):
                        rs = self.eval(f[1], st, fr)
                        if len(rs) != 1:
                            return self.eval(e[3], st, fr, ex)
                        f = Idx(tonode_(self.force(rs[0][1], st)))
                    path.append(f)
                return [(st, MutRef(lv[0], tuple(path)))]
        return self.eval(e[3], st, fr, ex)

    def lvalue(self, e, st, fr):
        """(slot, path) of an assignable expression rooted at a local, or None"""
        k = e[0]
        if k == "path" and e[3] is None and len(e[2]) == 1 and e[2][0][0] in st.scope:
            slot = st.scope[e[2][0][0]]
            v = st.store.get(slot)
            if isinstance(v, MutRef):
                return v.slot, v.path
            return slot, ()
        if k == "field":
            b = self.lvalue(e[2], st, fr)
            if b is None:
                return None
            cur = st.store.get(b[0])
            # follow a MutRef stored in a field chain (rare): ignore
            return b[0], tuple(b[1]) + (e[3],)
        if k == "un" and e[2] == "*":
            return self.lvalue(e[3], st, fr)
        if k == "ref":
            return self.lvalue(e[3], st, fr)
        if k == "index":
            b = self.lvalue(e[2], st, fr)
            if b is None:
                return None
            return b[0], tuple(b[1]) + (("[]", e[3]),)
        return None

    def store_lv(self, lv, val, st, fr):
        slot, path = lv
        s = st.copy()
        s.store[slot] = self._upd(s.store.get(slot), path, val, s, fr)
        return s

    def _upd(self, cur, path, val, st, fr):
        if not path:
            if isinstance(cur, Num) and cur.ty is not None:
                return self.coerce(val, cur.ty)
            return val
        f = path[0]
        if isinstance(f, tuple):
            idx = tonode_(self.eval(f[1], st, fr)[0][1])
            n = mk("upd", tonode_(cur), idx, tonode_(val) if len(path) == 1 else mk("opaque", "upd"))
            return Num(n, cur.ty if isinstance(cur, Num) else None)
        old = self.field(cur, f) if cur is not None else None
        new = self._upd(old, path[1:], val, st, fr)
        if isinstance(f, Key):
            cn = tonode_(cur)
            if cn.op == "upd" and cn.args[1] is f.node:
                cn = cn.args[0]
            return Num(mk("upd", cn, f.node, tonode_(new)), cur.ty if isinstance(cur, Num) else None)
        if f == "?":
            if isinstance(cur, Part):
                return Part(new, cur.conds, cur.kind, cur.err)
            if isinstance(cur, Var):
                return Var(cur.name, [new])
            return Part(new, [(mk("is", tonode_(cur), "Some"), True)], "Option")
        if isinstance(cur, Tup) and f.isdigit():
            xs = list(cur.xs)
            if int(f) < len(xs):
                xs[int(f)] = new
                return Tup(xs)
        if isinstance(cur, Struct):
            d = dict(cur.f)
            d[f] = new
            return Struct(cur.name, d, cur.base)
        if isinstance(cur, Num):
            nm = cur.ty[1] if cur.ty and cur.ty[0] == "S" else (tystr_ty(cur.ty) if cur.ty else "?")
            return Struct(nm, {f: new}, cur)
        return Struct("?", {f: new}, cur)

    def e_assign(self, e, st, fr, ex):
        out = []
        for s, v in self.eval(e[3], st, fr):
            if e[2][0] in ("tuple",):
                for i, t in enumerate(e[2][2]):
                    lv = self.lvalue(t, s, fr)
                    if lv:
                        s = self.store_lv(lv, self.field(v, str(i)), s, fr)
                out.append((s, UNITV))
                continue
            lv = self.lvalue(e[2], s, fr)
            if lv is None:
                self.note_opaque("assign target")
                s = self.eff(s, fr, e[1], "assign", "?", [], None)
            else:
                s = self.store_lv(lv, v, s, fr)
            out.append((s, UNITV))
        return out

    def e_opassign(self, e, st, fr, ex):
        out = []
        for s, v in self.eval(e[4], st, fr):
            lv = self.lvalue(e[3], s, fr)
            for s2, cur in self.eval(e[3], s, fr):
                cur = self.force(cur, s2)
                r = self.arith(e[2], cur, v, e[1], s2, fr)
                if lv is not None:
                    s2 = self.store_lv(lv, r, s2, fr)
                else:
                    self.note_opaque("assign target")
                out.append((s2, UNITV))
        return out

    def eff(self, st, fr, line, kind, name, args, recv, extra=None):
        s = st.copy()
        s.eff = st.eff + ((kind, name, tuple(args), recv, fr.mod.file, line, fr.fn.qual if fr.fn else "?", st.facts, extra),)
        return s

    # -- operators
    def e_un(self, e, st, fr, ex):
        op = e[2]
        if op == "*":
            return [(s, self.deref(self.force(v, s))) for s, v in self.eval(e[3], st, fr)]
        if op == "!":
            return [(s, Num(nnot(self.boolnode(v)), ("bool",))) for s, v in self.eval(e[3], st, fr)]
        return [(s, Num(mk("neg", tonode_(v)), v.ty if isinstance(v, Num) else None)) for s, v in self.eval(e[3], st, fr)]

    def deref(self, v):
        return v

    def boolnode(self, v):
        return tonode_(v)

    def e_bin(self, e, st, fr, ex):
        op = e[2]
        if op in ("&&", "||"):
            t, f = self.cond(e, st, fr)
            # as a value: keep paths separate
            return [(s, Num(TRUE, ("bool",))) for s in t] + [(s, Num(FALSE, ("bool",))) for s in f]
        out = []
        for s, (a, b) in [(s, vs) for s, vs in self.evals([e[3], e[4]], st, fr)]:
            a, b = self.force(a, s), self.force(b, s)
            if op in ("+", "-", "*", "/") and self.model is None:
                f = self.user_op_fn(op, a, b, fr)
                if f is not None:
                    out += self.call_fn(f, [a, b], s)
                    continue
            out.append((s, self.binop(op, a, b, e[1], s, fr)))
        return out

    def binop(self, op, a, b, line, st, fr):
        if op in ("==", "!=", "<", ">", "<=", ">="):
            if isinstance(a, Num) and isinstance(b, Num):
                if b.ty and a.ty and b.ty[0] == "Into":
                    b = self.coerce(b, a.ty)
                elif a.ty and b.ty and a.ty[0] == "Into":
                    a = self.coerce(a, b.ty)
            n = self.cmp(op, a, b)
            return Num(n, ("bool",))
        return self.arith(op, a, b, line, st, fr)

    def cmp(self, op, a, b):
        # Option comparisons against Some(x)/None
        if op in ("==", "!="):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Part) and isinstance(y, Var):
                    if y.name in ("None",):
                        c = TRUE
                        for cc, p in x.conds:
                            c = nand(c, cc if p else nnot(cc))
                        return nnot(c) if op == "==" else c
                    if y.name in ("Some", "Ok"):
                        c = eq(tonode_(x.v), tonode_(y.xs[0]))
                        for cc, p in x.conds:
                            c = nand(c, cc if p else nnot(cc))
                        return c if op == "==" else nnot(c)
                if isinstance(x, Num) and isinstance(y, Var) and not y.xs and not y.f:
                    c = mk("is", x.n, y.name)
                    return c if op == "==" else nnot(c)
        x, y = tonode_(a), tonode_(b)
        for va, vb in ((a, b),):
            if isinstance(va, Tup) or isinstance(vb, Tup) or isinstance(va, Struct):
                break
        if op == "==":
            return eq(x, y)
        if op == "!=":
            return nnot(eq(x, y))
        if isinstance(a, Struct) or isinstance(b, Struct):
            # user-defined ordering (Ratio): keep opaque but antisymmetric
            pass
        if op == "<":
            return lt(x, y)
        if op == ">":
            return lt(y, x)
        if op == "<=":
            return nnot(lt(y, x))
        if op == ">=":
            return nnot(lt(x, y))

    def ty_of(self, a, b):
        for v in (a, b):
            if isinstance(v, Num) and v.ty and v.ty[0] not in ("int", "Into"):
                return v.ty
        for v in (a, b):
            if isinstance(v, Num) and v.ty:
                return v.ty
        return None

    def arith(self, op, a, b, line, st, fr):
        ty = self.ty_of(a, b)
        if self.model is not None:
            r = self.model.arith(self, op, a, b, ty, line, st, fr)
            if r is not None:
                return r
        if isinstance(a, (Struct, Var, Tup)) or isinstance(b, (Struct, Var)) or (ty and ty[0] in ("S", "E")):
            return self.user_op(op, a, b, line, st, fr)
        if ty is not None:
            if isinstance(a, Num) and a.ty and a.ty[0] == "Into":
                a = self.coerce(a, ty)
            if isinstance(b, Num) and b.ty and b.ty[0] == "Into":
                b = self.coerce(b, ty)
        x, y = tonode_(a), tonode_(b)
        tn = ty[0] if ty else None
        if op in ("&", "|", "^") and (tn == "bool" or x.op in BOOLOPS):
            return Num({"&": nand, "|": nor}.get(op, lambda p, q: mk("xor", p, q))(x, y), ("bool",))
        if tn == "int":
            tn = "i32"
        W = WIDTH.get(tn)
        known = tn in WIDTH
        if tn in PERTHING and isinstance(a, Num) and isinstance(b, Num):
            S = const(SCALE[tn])
            bt = b.ty[0] if b.ty else None
            if op == "*":
                if bt == tn and a.ty and a.ty[0] == tn:
                    return Num(rdiv(mul(x, y), S), ty)
                other = b if a.ty and a.ty[0] == tn else a
                return Num(rdiv(mul(x, y), S), other.ty)
            if op == "+":
                return Num(nmin(add(x, y), S), ty)
            if op == "-":
                return Num(self.ssub(x, y, st), ty)
            return Num(mk("op" + op, x, y), ty)
        if op == "+":
            n = add(x, y)
            ok = known and P.le_const(st.facts, n, 2**W - 1)
            self.obl("overflow", line, fr, f"{show(x)} + {show(y)} may overflow {tn}", ok, st, n)
            return Num(n, ty)
        if op == "-":
            n = sub(x, y)
            ok = P.le(st.facts, y, x)
            self.obl("underflow", line, fr, f"{show(x)} - {show(y)} may underflow", ok, st, n)
            return Num(n, ty)
        if op == "*":
            if tn in SCALE:
                n = div(mul(x, y), const(SCALE[tn]))
            else:
                n = mul(x, y)
            ok = known and P.le_const(st.facts, n, 2**W - 1)
            self.obl("overflow", line, fr, f"{show(x)} * {show(y)} may overflow {tn}", ok, st, n)
            return Num(n, ty)
        if op in ("/", "%"):
            ok = P.nonzero(st.facts, y)
            self.obl("div0", line, fr, f"{show(x)} {op} {show(y)}: divisor may be zero", ok, st, y)
            if op == "%":
                return Num(mk("rem", x, y), ty)
            if tn in SCALE:
                bt = b.ty[0] if isinstance(b, Num) and b.ty else None
                if bt in SCALE or bt is None:
                    n = div(mul(x, const(SCALE[tn])), y)
                    if tn in FIXEDCRATE or tn == "FixedU128":
                        w2 = P.le_const(st.facts, n, 2**W - 1)
                        self.obl("overflow", line, fr, f"{show(x)} / {show(y)} may overflow {tn}", w2, st, n)
                    return Num(n, ty)
                return Num(div(x, y), ty)
            return Num(div(x, y), ty)
        if op in ("<<", ">>"):
            ta = a.ty if isinstance(a, Num) else None
            tn = ta[0] if ta else None
            W = WIDTH.get(tn)
            if isc(y):
                k = cval(y)
                if tn not in ("U256", "U512", "U128") and W is not None and tn != "int":
                    self.obl("shift", line, fr, f"shift by {k}", k < W, st)
                if op == "<<":
                    return Num(mul(x, const(2**k)) if isc(x) else mk("shl", x, y), ta)
                return Num(div(x, const(2**k)), ta)
            return Num(mk("shl" if op == "<<" else "shr", x, y), ta)
        return Num(mk("op" + op, x, y), ty)

    def user_op_fn(self, op, a, b, fr):
        """the user-defined operator for these operands"""
        ty = self.ty_of(a, b)
        if not (isinstance(a, (Struct, Var)) or isinstance(b, (Struct, Var)) or (ty and ty[0] in ("S", "E")) or (isinstance(a, Num) and a.ty and a.ty[0] in ("S", "E"))):
            return None
        name = {"+": "add", "-": "sub", "*": "mul", "/": "div"}.get(op)
        crate = fr.mod.crate
        tn = a.name if isinstance(a, Struct) else (a.enum if isinstance(a, Var) else (a.ty[1] if isinstance(a, Num) and a.ty and len(a.ty) > 1 else None))
        cands = crate.by_method.get((tn, name), []) if name and tn else []
        pick = None
        for f in cands:
            ar = f.impl["trait"][-1][1] if f.impl["trait"] else []
            rhs_self = (not ar) or tyname(ar[0]) == "Self"
            b_is_self = isinstance(b, (Var, Struct)) or (isinstance(b, Num) and b.ty and b.ty[0] in ("E", "S"))
            if rhs_self == b_is_self:
                pick = f
        return pick

    def user_op(self, op, a, b, line, st, fr):
        pick = self.user_op_fn(op, a, b, fr)
        tn = a.name if isinstance(a, Struct) else "?"
        if pick is not None:
            r = self.call_fn(pick, [a, b], st)
            # operators cannot fork in this position: merge as cases
            if len(r) == 1:
                return r[0][1]
            cases = [(s, v) for s, v in r]
            vs = [tonode_(v) for _, v in cases]
            if all(isinstance(v, Part) for _, v in cases):
                return Part(Num(mk("cases", *[tonode_(v.v) for _, v in cases])), [(mk("casesok", *vs), True)])
            return Num(mk("cases", *vs))
        self.note_opaque(f"operator {op} on {tn}")
        return Num(mk("op" + op, tonode_(a), tonode_(b)))

    def ssub(self, x, y, st):
        if P.le(st.facts, y, x):
            return sub(x, y)
        if isc(x) and isc(y):
            return const(max(0, cval(x) - cval(y)))
        if P.le(st.facts, x, y):
            return ZERO
        return mk("satsub", x, y)

    def sat(self, n, W):
        b = P.bits(n)
        if b is not None and W is not None and b <= W:
            return n
        if isc(n) and W is not None:
            return const(min(cval(n), 2**W - 1))
        return mk("sat", n, W if W else 0)

    def e_cast(self, e, st, fr, ex):
        t = self.T(e[3], fr)
        out = []
        for s, v in self.eval(e[2], st, fr):
            v = self.force(v, s)
            n = tonode_(v)
            w = WIDTH.get(t[0]) if t else None
            sw = WIDTH.get(v.ty[0]) if isinstance(v, Num) and v.ty else None
            b = P.bits(n)
            if w is not None and (b is None or b > w) and not (sw is not None and sw <= w) and not P.le_const(s.facts, n, 2**w - 1):
                if not (b is None and sw is None):
                    n = mk("trunc", n, w)
            if t and t[0] in ("f64", "f32"):
                self.note_opaque("float")
            out.append((s, Num(n, t)))
        return out

    def e_paren(self, e, st, fr, ex):
        return self.eval(e[2], st, fr, ex)

    # -- control flow
    def cond(self, e, st, fr):
        """evaluate a boolean condition; returns (true states, false states)"""
        k = e[0]
        if k == "bin" and e[2] == "&&":
            t1, f1 = self.cond(e[3], st, fr)
            T, F = [], list(f1)
            for s in t1:
                a, b = self.cond(e[4], s, fr)
                T += a
                F += b
            return T, F
        if k == "bin" and e[2] == "||":
            t1, f1 = self.cond(e[3], st, fr)
            T, F = list(t1), []
            for s in f1:
                a, b = self.cond(e[4], s, fr)
                T += a
                F += b
            return T, F
        if k == "un" and e[2] == "!":
            a, b = self.cond(e[3], st, fr)
            return b, a
        if k == "let":
            T, F = [], []
            for s, v in self.eval(e[3], st, fr):
                a, b = self.bind(e[2], v, s, fr)
                T += a
                F += b
            return T, F
        if k == "matches":
            T, F = [], []
            for s, v in self.eval(e[2], st, fr):
                a, b = self.bind(e[3], v, s, fr)
                F += b
                for x in a:
                    if e[4] is not None:
                        p, q = self.cond(e[4], x, fr)
                        T += p
                        F += q
                    else:
                        T.append(x)
            return T, F
        T, F = [], []
        for s, v in self.eval(e, st, fr):
            v = self.force(v, s)
            n = self.boolnode(v)
            d = P.decide(s.facts, n)
            if d is True:
                T.append(s)
                continue
            if d is False:
                F.append(s)
                continue
            a = self.assume(s, n, True)
            b = self.assume(s, n, False)
            if a:
                T.append(a)
            if b:
                F.append(b)
        return T, F

    def e_matches(self, e, st, fr, ex):
        t, f = self.cond(e, st, fr)
        return [(self.unscope(s, st), Num(TRUE, ("bool",))) for s in t] + [(self.unscope(s, st), Num(FALSE, ("bool",))) for s in f]

    def unscope(self, s, st):
        s = s.copy()
        s.scope = st.scope
        return s

    def e_let(self, e, st, fr, ex):
        return self.e_matches(e, st, fr, ex)

    def e_if(self, e, st, fr, ex):
        T, F = self.cond(e[2], st, fr)
        out = []
        for s in T:
            out += [(self.unscope(x, st), v) for x, v in self.eval(e[3], s, fr, ex)]
        for s in F:
            s = self.unscope(s, st)
            if e[4] is None:
                out.append((s, UNITV))
            else:
                out += self.eval(e[4], s, fr, ex)
        return self.merge(out)

    def merge(self, outs):
        return outs

    def e_match(self, e, st, fr, ex):
        out = []
        heads = {h for p, g, b in e[3] for h in pathead(p)}
        if len(heads) > 1:
            self.altnames |= heads
        lv = self.lvalue(e[2], st, fr) if self.model is not None and refmut([a[0] for a in e[3]]) else None
        for s, v in ([(st, MutRef(*lv))] if lv is not None else self.eval(e[2], st, fr)):
            if self.model is None:
                v = self.force(v, s)
            rest = [s]
            for p, g, body in e[3]:
                nr = []
                for r in rest:
                    m, no = self.bind(p, v, r, fr)
                    nr += no
                    for x in m:
                        if g is not None:
                            T, F = self.cond(g, x, fr)
                            nr += [self.unscope(y, st) for y in F]
                        else:
                            T = [x]
                        for y in T:
                            out += [(self.unscope(z, st), w) for z, w in self.eval(body, y, fr, ex)]
                rest = nr
                if not rest:
                    break
        return self.merge(out)

    def e_block(self, e, st, fr, ex):
        return self.block(e, st, fr, ex)

    e_unsafe = e_block

    def e_return(self, e, st, fr, ex):
        if e[2] is None:
            fr.rets.append((st, UNITV, "ret"))
        else:
            for s, v in self.eval(e[2], st, fr, fr.retty):
                fr.rets.append((s, v, "ret"))
        return []

    def e_break(self, e, st, fr, ex):
        lp = self.find_loop(e[2], fr)
        outs = self.eval(e[3], st, fr) if e[3] is not None else [(st, UNITV)]
        if lp is not None:
            lp.breaks += outs
        return []

    def e_continue(self, e, st, fr, ex):
        lp = self.find_loop(e[2], fr)
        if lp is not None:
            lp.conts.append(st)
        return []

    def find_loop(self, label, fr):
        for l in reversed(fr.loops):
            if label is None:
                if not getattr(l, "blocklabel", False):
                    return l
            elif l.label == label:
                return l
        return None

    def e_try(self, e, st, fr, ex):
        out = []
        for s, v in self.eval(e[2], st, fr):
            v = self.force(v, s)
            out += self.q(v, s, fr, e[1])
        return out

    def q(self, v, s, fr, line):
        """the ? operator: continue with the payload, record the error exits"""
        if isinstance(v, Var):
            if v.name in ("Some", "Ok"):
                return [(s, v.xs[0] if v.xs else UNITV)]
            if v.name in ("None", "Err"):
                fr.rets.append((s, v, "err"))
                return []
        if isinstance(v, Part):
            for b in self.assume_not(s, v.conds):
                fr.rets.append((b, Var("None") if v.kind == "Option" else Var("Err", [v.err if v.err is not None else Num(mk("errof", tonode_(v.v)))]), "err"))
            g = self.assume_all(s, v.conds)
            return [(g, v.v)] if g else []
        n = tonode_(v)
        ty = v.ty if isinstance(v, Num) else None
        c = mk("is", n, "Ok")
        b = self.assume(s, c, False)
        if b:
            fr.rets.append((b, Var("Err", [Num(mk("errof", n))]), "err"))
        g = self.assume(s, c, True)
        pt = ty[1] if ty and ty[0] in ("Option", "Result") and len(ty) > 1 else None
        return [(g, self.sym(mk("payload", n), pt))] if g else []

    # -- loops
    def assigned(self, e, st):
        """slots of locals (visible now) that the expression may assign"""
        out = set()

        def root(x):
            while x[0] in ("field", "index", "un", "ref", "mcall", "try"):
                x = x[3] if x[0] in ("un", "ref") else x[2]
            if x[0] == "path" and x[3] is None and len(x[2]) == 1:
                nm = x[2][0][0]
                if nm in st.scope:
                    sl = st.scope[nm]
                    v = st.store.get(sl)
                    out.add(v.slot if isinstance(v, MutRef) else sl)

        def go(x):
            if isinstance(x, list):
                if x and isinstance(x[0], str):
                    if x[0] == "assign" and len(x) > 2:
                        if x[2][0] == "tuple":
                            for y in x[2][2]:
                                root(y)
                        else:
                            root(x[2])
                    elif x[0] == "opassign":
                        root(x[3])
                    elif x[0] == "ref" and len(x) > 3 and x[2] is True:
                        root(x[3])
                    elif x[0] == "mcall" and x[3] in MUTATING:
                        root(x[2])
                    elif x[0] == "path" and len(x) > 3 and self.iscell(x, st):
                        root(x)
                    elif x[0] == "call" and len(x) > 3 and isinstance(x[3], list):
                        # passing a MutRef local by name
                        for a in x[3]:
                            if a[0] == "path" and a[3] is None and len(a[2]) == 1 and a[2][0][0] in st.scope:
                                v = st.store.get(st.scope[a[2][0][0]])
                                if isinstance(v, MutRef):
                                    out.add(v.slot)
                for y in x:
                    go(y)
            elif isinstance(x, dict):
                go(x.get("body"))

        go(e)
        return sorted(out)

    def havoc(self, st, slots, lid):
        s = st.copy()
        for k, sl in enumerate(slots):
            old = st.store[sl]
            s.store[sl] = self.phi(old, mk("phi", lid, k), st)
        return s

    def phi(self, old, node, st):
        old = self.force(old, st)
        if isinstance(old, Num):
            t = old.ty
            P.leaf(node, t)
            return Num(node, t)
        if isinstance(old, Tup) and old.xs:
            return Tup([self.phi(x, mk("fld", node, str(i)), st) for i, x in enumerate(old.xs)])
        if isinstance(old, Struct):
            return Struct(old.name, {k: self.phi(x, mk("fld", node, k), st) for k, x in old.f.items()},
                          Num(node, old.base.ty) if isinstance(old.base, Num) else None)
        if isinstance(old, (Part,)):
            return Part(self.phi(old.v, mk("payload", node), st), [(mk("is", node, "Some" if old.kind == "Option" else "Ok"), True)], old.kind)
        if isinstance(old, Var) and old.name in ("None", "Some"):
            return Part(Num(mk("payload", node)), [(mk("is", node, "Some"), True)], "Option")
        if isinstance(old, ListV):
            return Num(node, ("Vec", old.ty))
        if isinstance(old, Seq):
            t = old.elem.ty if isinstance(old.elem, Num) else None
            return Num(node, ("Vec", t))
        return Num(node, None)

    def seq_of(self, v, st):
        """view a value as a Seq with a fresh bound variable"""
        v = self.force(v, st)
        self.bvd += 1
        bv = mk("bv", f"i{self.bvd}")
        if isinstance(v, Seq):
            mp = {v.bv: bv}
            return Seq(v.dom, vsubst(v.elem, mp), bv, [(subst(c, mp), p) for c, p in v.filt])
        if isinstance(v, Num):
            n = v.n
            if n.op == "range":
                a, b, inc = n.args
                P.leaf(bv, v.ty[1] if v.ty and len(v.ty) > 1 else None)
                ety = v.ty[1] if v.ty and v.ty[0] == "Vec" and len(v.ty) > 1 else ("int",)
                filt = [(lt(bv, a), False)] if a is not ZERO else []
                return Seq(n, Num(bv, ety), bv, filt + [((lt(bv, b), True) if not inc else (lt(b, bv), False))])
            ety = v.ty[1] if v.ty and v.ty[0] == "Vec" and len(v.ty) > 1 else None
            return Seq(n, self.sym(self.idxnode(n, bv), ety), bv, [])
        n = tonode_(v)
        return Seq(n, Num(mk("idx", n, bv)), bv, [])

    def idxnode(self, n, i):
        if n.op == "seq" and len(n.args) == 2:
            return subst(n.args[1], {binders(n)[0]: i})
        if n.op == "list" and isc(i) and cval(i) < len(n.args):
            return n.args[cval(i)]
        if n.op == "rev":
            x = n.args[0]
            if i is ZERO:
                return self.idxnode(x, sub(self.lennode(x), const(1)))
            if i is sub(self.lennode(x), const(1)):
                return self.idxnode(x, ZERO)
        return mk("idx", n, i)

    def e_for(self, e, st, fr, ex):
        _, line, p, it, body, label = e
        out = []
        for s, v in self.eval(it, st, fr):
            v = self.force(v, s)
            if isinstance(v, ListV) and len(v.xs) <= 8:
                cur = [s]
                lp = Loop(label)
                fr.loops.append(lp)
                done = []
                for x in v.xs:
                    nxt = []
                    lp.conts = []
                    for c in cur:
                        m, _ = self.bind(p, x, c, fr)
                        for y in m:
                            nxt += [z for z, _ in self.eval(body, y, fr)]
                    nxt += lp.conts
                    cur = self.cap([self.unscope(z, s) for z in nxt])
                fr.loops.pop()
                done = cur + [self.unscope(z, s) for z, _ in lp.breaks]
                out += [(z, UNITV) for z in done]
                continue
            sq = self.seq_of(v, s)
            bounds = ()
            if sq.dom.op == "range" and sq.dom.args[0] is ZERO and not sq.dom.args[2] and sq.dom.args[1].op == "len":
                # indices of a sequence: the loop runs over that sequence
                bounds = sq.filt
                sq = Seq(sq.dom.args[1].args[0], sq.elem, sq.bv, [])
            src = it[2] if it[0] == "mcall" and it[3] == "iter_mut" else it[3] if it[0] == "ref" and it[2] is True else None
            src = self.lvalue(src, s, fr) if src is not None else None
            res = self.loop(e, s, fr, body, label, seq=sq, pat=p, bounds=bounds)
            if src is not None:
                new = self.mutated_elems(sq, p, s, res)
                if new is not None:
                    res = [(self.store_lv(src, new, z, fr), r) for z, r in res]
            out += res
            self.bvd -= 1
        return out

    def mutated_elems(self, sq, p, st, res):
        """the sequence after a loop over `iter_mut()` that assigned to its elements"""
        info = self.loops_seen[-1]
        if info["pre"] is not st or p[0] != "pid":
            return None
        old = tonode_(sq.elem)
        steps = []
        for x in info["ends"]:
            sl = x.scope.get(p[1])
            v = self.force(x.store[sl], x) if sl in x.store else sq.elem
            n = tonode_(v)
            extra = [f for f in x.facts if f not in st.facts and f not in sq.filt and f[0].op != "fits"]
            steps.append((extra, n))
        if all(n is old for _, n in steps) and not info["breaks"]:
            return None
        el = None
        if not info["breaks"]:
            if len(steps) == 1 or len({n.id for _, n in steps}) == 1:
                el = steps[0][1]
            elif len(steps) == 2 and len(steps[0][0]) == len(steps[1][0]) == 1 and steps[0][0][0][0] is steps[1][0][0][0]:
                a, b = steps if steps[0][0][0][1] else steps[::-1]
                el = mk("ite", a[0][0][0], a[1], b[1])
        if el is None:
            el = mk("elemof", *[mk("case", n, *[mk("pol", c, p_) for c, p_ in ex_]) for ex_, n in steps])
        return Seq(sq.dom, Num(el, None), sq.bv, list(sq.filt))

    def as_for(self, e, st, fr, ex):
        """a while loop that draws from an iterator, or counts a local up to a bound, is the for loop over it"""
        _, line, c, body, label = e[:5]
        if c[0] == "let" and c[2][0] == "pts" and c[2][1][-1][0] == "Some" and len(c[2][2]) == 1:
            m = c[3]
            if m[0] == "mcall" and m[3] == "next" and not m[5] and local_name(m[2]) in st.scope and not mentions(body, local_name(m[2])):
                x = local_name(m[2])
                out = []
                lv = self.lvalue(m[2], st, fr)
                src = st.store.get(("itm", st.scope[x])) or m[2]
                for s, v in self.e_for(["for", line, c[2][2][0], src, body, label], st, fr, ex):
                    if lv is not None:
                        self.loopc += 1
                        s = self.store_lv(lv, Num(mk("consumed", self.loopc), None), s, fr)
                    out.append((s, v))
                return out
            return None
        if c[0] != "bin" or c[2] not in ("<", "<=", ">", ">=") or body[0] != "block" or not body[2]:
            return None
        a, b, op = (c[3], c[4], c[2]) if c[2] in ("<", "<=") else (c[4], c[3], c[2].replace(">", "<"))
        i = local_name(a)
        if i is None or i not in st.scope or contains_kind(body, "continue"):
            return None
        last = body[2][-1]
        inc = last[2] if last[0] == "expr" else None
        if inc is None or not is_increment(inc, i):
            return None
        body2 = ["block", body[1], body[2][:-1]] + body[3:]
        i0 = self.force(st.store[st.scope[i]], st)
        if not isinstance(i0, Num) or mutated_names(body2) & ({i} | names_in(b)) or contains_kind(b, "try"):
            return None
        lv = self.lvalue(a, st, fr)
        out = []
        for s0, bv in self.eval(b, st, fr):
            bv = self.force(bv, s0)
            ty = self.ty_of(bv, i0)
            rng = Num(mk("range", i0.n, tonode_(bv), op == "<="), ("Vec", ty))
            slot = self.tmpslot(s0, rng)
            nm = f"__range{slot}"
            s0 = s0.copy()
            s0.scope = dict(s0.scope)
            s0.scope[nm] = slot
            brk = contains_kind(body2, "break")
            for s, v in self.e_for(["for", line, ["pid", i, False, False, None], ["path", line, [[nm, []]], None], body2, label], s0, fr, ex):
                self.loopc += 1
                end = tonode_(bv) if op == "<" else add(tonode_(bv), ONE)
                if brk or op == "<=":
                    end = mk("phi", f"W{self.loopc}", 0)
                    P.leaf(end, ty)
                elif not P.le(s.facts, i0.n, end):
                    end = nmax(i0.n, end)
                s = self.unscope(s, st)
                out.append((self.store_lv(lv, Num(end, ty), s, fr), UNITV))
        return out

    def tmpslot(self, st, v):
        self.slotc += 1
        st.store[self.slotc] = v
        return self.slotc

    def e_while(self, e, st, fr, ex):
        r = self.as_for(e, st, fr, ex)
        if r is not None:
            return r
        return self.loop(e, st, fr, e[3], e[4], cond=e[2])

    def e_loop(self, e, st, fr, ex):
        return self.loop(e, st, fr, e[2], e[3], infinite=True)

    def loop(self, e, st, fr, body, label, seq=None, pat=None, cond=None, infinite=False, bounds=()):
        line = e[1]
        self.loopc += 1
        lid = f"L{self.loopc}"
        slots = self.assigned(e, st)
        s = self.havoc(st, slots, lid)
        base_eff = s.eff
        lp = Loop(label)
        fr.loops.append(lp)
        starts = []
        exits = []
        if seq is not None:
            s1 = self.assume_all(s, list(seq.filt) + list(bounds))
            if s1 is not None:
                m, no = self.bind(pat, seq.elem, s1, fr)
                starts = m
        elif cond is not None:
            T, F = self.cond(cond, s, fr)
            starts, exits = T, F
        else:
            starts = [s]
        ends = []
        for x in starts:
            ends += [z for z, _ in self.eval(body, x, fr)]
        ends += lp.conts
        fr.loops.pop()
        self.cap(ends)
        info = {"line": line, "file": fr.mod.file, "fn": fr.fn.qual if fr.fn else "?", "lid": lid, "slots": slots,
                "ends": ends, "init": [st.store[x] for x in slots], "seq": seq, "breaks": lp.breaks, "pre": st, "phi": [s.store[x] for x in slots]}
        self.loops_seen.append(info)
        # effects of an arbitrary iteration
        effs = []
        for x in ends + [b for b, _ in lp.breaks]:
            d = x.eff[len(base_eff):]
            if d:
                effs.append(d)
        loopeff = ()
        if effs:
            uniq = []
            for d in effs:
                if d not in uniq:
                    uniq.append(d)
            loopeff = (("loop", lid, tuple(uniq), None, fr.mod.file, line, fr.fn.qual if fr.fn else "?", st.facts, None),)
        outs = []
        if seq is not None:
            a = st.copy()
            for k, sl in enumerate(slots):
                a.store[sl] = self.loop_out(k, sl, info, seq, st, fr)
            a.eff = st.eff + loopeff
            if self.model is not None and ends and not lp.breaks:
                a.facts = a.facts + self.forall(ends, seq, s, [tonode_(s.store[x]) for x in slots])
            if ends or not lp.breaks:
                outs.append((a, UNITV))
        else:
            for x in exits:
                x = self.unscope(x, st)
                x.eff = st.eff + loopeff + x.eff[len(base_eff):]
                outs.append((x, UNITV))
        for b, v in lp.breaks:
            x = self.unscope(b, st)
            x.eff = st.eff + loopeff + b.eff[len(base_eff):]
            outs.append((x, v))
        return outs

    def forall(self, ends, seq, s, phis):
        """what every iteration that did not leave the function has checked"""
        old = set(s.facts) | set(seq.filt)
        com = [f for f in ends[0].facts if f not in old and all(f in x.facts for x in ends[1:])]
        out = []
        for c, p in com:
            if c.op == "fits" or any(contains(c, ph) for ph in phis if ph.op == "phi"):
                continue
            c = subst(c if p else nnot(c), {seq.bv: BV0})
            out.append((mk("all", seq.dom, c), True))
        return tuple(out) if isinstance(s.facts, tuple) else out

    def loop_out(self, k, slot, info, seq, st, fr):
        """value of an assigned variable after a for loop"""
        init = info["init"][k]
        phiv = info["phi"][k]
        ends = info["ends"]
        phin = tonode_(phiv)
        lid = info["lid"]
        if info["breaks"]:
            return self.phi(init, mk("loopout", lid, k), st)
        steps = []
        for x in ends:
            v = self.force(x.store[slot], x)
            extra = [f for f in x.facts if f not in st.facts and f not in seq.filt]
            steps.append((extra, v))
        if not steps:
            return init
        if all(tonode_(v) is phin for _, v in steps):
            return init
        if len(steps) == 1:
            v = steps[0][1]
            return self.mkfold(init, phiv, v, seq, st, info, k)
        # all paths give the same value
        ns = {tonode_(v).id for _, v in steps}
        if len(ns) == 1:
            return self.mkfold(init, phiv, steps[0][1], seq, st, info, k)
        # conditional push: push on some paths, unchanged on the others
        ch = [(f, v) for f, v in steps if tonode_(v) is not phin]
        if ch and all(self.is_push(tonode_(v), phin) for _, v in ch) and len({tonode_(v).id for _, v in ch}) == 1 and self.empty(init):
            cond = self.common(ch, steps, phin)
            if cond is not None:
                el = tonode_(ch[0][1]).args[1]
                return Seq(seq.dom, Num(el, self.eltype(init)), seq.bv, list(cond))
        # assigned on exactly one index: i == K
        if ch and len({tonode_(v).id for _, v in ch}) == 1 and not contains(tonode_(ch[0][1]), phin):
            cond = self.common(ch, steps, phin)
            if cond is not None and len(cond) == 1 and cond[0][1] and cond[0][0].op == "eq":
                a, b = cond[0][0].args
                K = b if a is seq.bv else (a if b is seq.bv else None)
                if K is not None:
                    v = vsubst(ch[0][1], {seq.bv: K})
                    if isinstance(v, Num) and isinstance(init, Num):
                        v = Num(v.n, init.ty or v.ty)
                    return v
            # assigned on every index but one: the last of the others
            if cond is not None and len(cond) == 1 and not cond[0][1] and cond[0][0].op == "eq" and not seq.filt and isinstance(ch[0][1], Num):
                a, b = cond[0][0].args
                K = b if a is seq.bv else (a if b is seq.bv else None)
                if K is not None:
                    # an index that is not K, of a list of at least two
                    v = vsubst(ch[0][1], {seq.bv: mk("vfld", K, "other", "0")})
                    return Num(v.n, v.ty)
        return self.phi(init, mk("loopout", lid, k), st)

    def common(self, ch, steps, phin):
        """the single condition that separates changing from unchanged paths, if recognisable"""
        fs = None
        for f, v in ch:
            s = {(n, p) for n, p in f if n.op in ("eq", "is", "lt")}
            fs = s if fs is None else fs & s
        other = [f for f, v in steps if tonode_(v) is phin]
        cands = []
        for c in fs or ():
            if all((c[0], not c[1]) in f for f in other):
                cands.append(c)
        return cands if len(cands) == 1 else None

    def empty(self, v):
        n = tonode_(v)
        return n.op == "empty" or (isinstance(v, ListV) and not v.xs)

    def eltype(self, v):
        if isinstance(v, Num) and v.ty and v.ty[0] == "Vec" and len(v.ty) > 1:
            return v.ty[1]
        if isinstance(v, ListV):
            return v.ty
        return None

    def is_push(self, n, phin):
        return n.op == "push" and n.args[0] is phin

    def mkfold(self, init, phiv, v, seq, st, info, k):
        phin = tonode_(phiv)
        n = tonode_(v)
        if self.is_push(n, phin) and self.empty(init) and not contains(n.args[1], phin):
            return Seq(seq.dom, Num(n.args[1], self.eltype(init)), seq.bv, list(seq.filt) if seq.dom.op != "range" else [])
        # depends on other loop variables?
        others = [tonode_(x) for j, x in enumerate(info["phi"]) if j != k]
        if any(contains(n, o) for o in others):
            return self.phi(init, mk("loopout", info["lid"], k), st)
        if isinstance(v, Num):
            return Num(self.foldnode(seq, tonode_(init), n, phin), v.ty or (init.ty if isinstance(init, Num) else None))
        return self.phi(init, mk("loopout", info["lid"], k), st)

    def foldnode(self, seq, init, step, acc):
        fs = [c if p else nnot(c) for c, p in seq.filt] if seq.dom.op != "range" else []
        k = max([bvlevel(step)] + [bvlevel(c) for c in fs])
        A = bva(k)
        B = bvi(k)
        step = subst(step, {acc: A, seq.bv: B})
        dom = seq.dom
        filt = [subst(c, {seq.bv: B}) for c in fs]
        # 0..len(v) with only v[i] used: iterate v itself
        if dom.op == "range" and dom.args[0] is ZERO and not dom.args[2]:
            b = dom.args[1]
            if b.op == "len":
                dom = b.args[0]
        n = mkb(k, "fold", dom, init, step, *filt)
        return n

    def e_range(self, e, st, fr, ex):
        out = []
        es = [x for x in (e[2], e[3]) if x is not None]
        for s, vs in self.evals(es, st, fr):
            vs = [self.force(v, s) for v in vs]
            i = 0
            if e[2] is not None:
                a = vs[0]
                i = 1
            else:
                a = Num(ZERO, ("int",))
            b = vs[i] if e[3] is not None else Num(mk("inf"), None)
            ty = self.ty_of(b, a)
            out.append((s, Num(mk("range", tonode_(a), tonode_(b), bool(e[4])), ("Vec", ty))))
        return out

    # -- struct / closures / fields / index
    def e_struct(self, e, st, fr, ex):
        segs, fields, rest = e[2], e[3], e[4]
        names = [s[0] for s in segs]
        vn, en = self.resolve_variant(segs, fr)
        sname = names[-1]
        it = None
        if names == ["Self"] and fr.selfty:
            sname = fr.selfty[1] if len(fr.selfty) > 1 else fr.selfty[0]
            it = self.struct_item(fr.selfty)
        else:
            r = self.w.resolve(fr.mod, names)
            if r and r[0] == "struct":
                it = r[1]
            elif r and r[0] == "type":
                t = self.T(["tp", None, segs], fr)
                it = self.struct_item(t)
                if it:
                    sname = it["name"]
            if it is None and names[0] == "Self" and vn:
                pass
        ftys = {}
        if it is not None:
            g = [y[0] for y in it["generics"][0]]
            tm = {x: fr.tymap.get(x, ("u128",) if x == "Balance" else (x,)) for x in g}
            f2 = Frame(None, it["_mod"], None, 0, tm)
            ftys = {f[0]: self.T(f[1], f2) for f in it["fields"]}
        out = []
        for s, vs in self.evals([x[1] for x in fields], st, fr):
            d = {}
            for (f, _), v in zip(fields, vs):
                d[f] = self.coerce(self.force(v, s), ftys.get(f))
            if rest is not None:
                for s2, rv in self.eval(rest, s, fr):
                    rv = self.force(rv, s2)
                    d2 = dict(d)
                    base = None
                    if isinstance(rv, Struct):
                        for k, x in rv.f.items():
                            d2.setdefault(k, x)
                        base = rv.base
                    elif isinstance(rv, Num) and rv.n.op == "default" and it is not None:
                        for f in it["fields"]:
                            if f[0] not in d2:
                                d2[f[0]] = self.default(ftys.get(f[0]))
                    else:
                        base = rv
                    out.append((s2, Struct(sname, d2, base)))
            elif vn and it is None:
                out.append((s, Var(vn, [], d, en["name"] if en else (names[-2] if len(names) > 1 else None))))
            else:
                out.append((s, Struct(sname, d)))
        return out

    def default(self, ty):
        if ty is None:
            return Num(mk("default"), None)
        k = ty[0]
        if k in WIDTH or k in SCALE:
            return Num(ZERO, ty)
        if k == "bool":
            return Num(FALSE, ty)
        if k == "Option":
            return Var("None")
        if k == "Vec":
            return Num(mk("empty"), ty)
        if k == "tup":
            return Tup([self.default(t) for t in ty[1:]])
        if k == "E" and ty[1] == "BalanceUpdate":
            return Var("Increase", [Num(ZERO, ("u128",))], enum="BalanceUpdate")
        it = self.struct_item(ty)
        if it is not None and any(a[0] == "derive" and "Default" in a[1] for a in it["attrs"]):
            g = [y[0] for y in it["generics"][0]]
            tm = dict(zip(g, ty[3:]))
            for x in g:
                tm.setdefault(x, ("u128",) if x == "Balance" else (x,))
            f2 = Frame(None, it["_mod"], ty, 0, tm)
            return Struct(it["name"], {f[0]: self.default(self.T(f[1], f2)) for f in it["fields"]})
        return Num(mk("default", repr(ty)), ty)

    def e_closure(self, e, st, fr, ex):
        return [(st, Clo(e[2], e[3], dict(st.scope), fr, e[4]))]

    def e_field(self, e, st, fr, ex):
        return [(s, self.field(self.force(v, s), e[3])) for s, v in self.eval(e[2], st, fr)]

    def e_index(self, e, st, fr, ex):
        out = []
        for s, (b, i) in [(s, vs) for s, vs in self.evals([e[2], e[3]], st, fr)]:
            b, i = self.force(b, s), self.force(i, s)
            if isinstance(i, Num) and i.n.op == "range":
                out.append((s, Num(mk("slice", tonode_(b), i.n), b.ty if isinstance(b, Num) else None)))
                self.obl("index", e[1], fr, f"slice {show(tonode_(b))}[{show(i.n)}]", False, s)
                continue
            v, ln = self.index(b, i, s)
            ok = P.lt_(s.facts, tonode_(i), ln)
            self.obl("index", e[1], fr, f"{show(tonode_(b))}[{show(tonode_(i))}] may be out of bounds", ok, s, lt(tonode_(i), ln) if ln is not None else None)
            out.append((s, v))
        return out

    def index(self, b, i, s):
        n = tonode_(i)
        if isinstance(b, ListV):
            if isc(n) and cval(n) < len(b.xs):
                return b.xs[cval(n)], const(len(b.xs))
            return Num(mk("idx", tonode_(b), n)), const(len(b.xs))
        if isinstance(b, Seq):
            if not b.filt:
                return vsubst(b.elem, {b.bv: n}), self.length(b)
            return Num(mk("idx", b.node(), n), b.elem.ty if isinstance(b.elem, Num) else None), self.length(b)
        ety = b.ty[1] if isinstance(b, Num) and b.ty and b.ty[0] == "Vec" and len(b.ty) > 1 else None
        bn = tonode_(b)
        return self.sym(self.idxnode(bn, n), ety), self.length(b)

    def length(self, v):
        if isinstance(v, ListV):
            return const(len(v.xs))
        if isinstance(v, Seq):
            if not v.filt:
                return self.lennode(v.dom)
            return mk("len", v.node())
        return self.lennode(tonode_(v))

    def lennode(self, n):
        if n.op == "seq" and len(n.args) == 2:
            return self.lennode(n.args[0])
        if n.op in ("sort", "rev", "upd"):
            return self.lennode(n.args[0])
        if n.op == "list":
            return const(len(n.args))
        if n.op == "empty":
            return ZERO
        if n.op == "range" and n.args[0] is ZERO and not n.args[2]:
            return n.args[1]
        r = mk("len", n)
        P.leaf(r, ("usize",))
        return r

    # -- macros
    def e_macro(self, e, st, fr, ex):
        name, args = e[2], e[3]
        if self.model is not None:
            r = self.model.macro(self, e, st, fr)
            if r is not None:
                return r
        if name in ("ensure", "fail", "require_transactional", "ensure_signed"):
            if name == "ensure":
                T, F = self.cond(args[0], st, fr)
                for s in F:
                    for s2, v in self.eval(args[1], s, fr):
                        fr.rets.append((s2, Var("Err", [v]), "err"))
                return [(self.unscope(s, st), UNITV) for s in T]
            if name == "fail":
                for s2, v in self.eval(args[0], st, fr):
                    fr.rets.append((s2, Var("Err", [v]), "err"))
                return []
        if name in ("debug_assert", "debug_assert_eq", "debug_assert_ne"):
            if args is None:
                return [(st, UNITV)]
            if name == "debug_assert":
                T, F = self.cond(args[0], st, fr)
                if F and self.stack and len(self.stack) > 1:
                    self.obl("debug_assert", e[1], fr, "debug assertion may fail", False, st)
                return [(self.unscope(s, st), UNITV) for s in T] or [(st, UNITV)]
            return [(st, UNITV)]
        if name in ("assert", "assert_eq", "assert_ne"):
            if name == "assert" and args:
                T, F = self.cond(args[0], st, fr)
                self.obl("assert", e[1], fr, "assertion may fail", not F, st)
                return [(self.unscope(s, st), UNITV) for s in T]
            self.obl("assert", e[1], fr, "assertion may fail", False, st)
            return [(st, UNITV)]
        if name in ("panic", "unreachable", "unimplemented", "todo"):
            self.obl("panic", e[1], fr, f"{name}!", False, st)
            return []
        if name == "cfg":
            t = repr(e[3:])
            off = [k for k in ("runtime-benchmarks", "try-runtime", "testing", "fuzz", "fuzzing", "proptest", "runtime-integration-tests") if f"'{k}'" in t or f'"{k}"' in t]
            if len(off) == 1 and "'all'" not in t and "'any'" not in t:     # features the shipped runtime does not have, as in the front end
                return [(st, Num(TRUE if "'not'" in t else FALSE, ("bool",)))]
        if name == "vec" or name == "bvec":
            if args is None:
                return [(st, Num(mk("opaque", "vec"), ("Vec", None)))]
            if not args:
                return [(st, Num(mk("empty"), ("Vec", None)))]
            return [(s, ListV(vs)) for s, vs in self.evals(args, st, fr)]
        if name == "vec_rep":
            return self.e_repeat(["repeat", e[1], args[0], args[1]], st, fr, ex)
        if name in ("log", "debug", "info", "warn", "error", "trace", "println", "eprintln", "dbg"):
            return [(st, UNITV)]
        if name in ("hex", "hex_literal"):
            t = args[0][3] if args and args[0][0] == "lit" and len(args[0]) > 3 else repr(args or e[4])
            return [(st, Num(mk("const", f"hex:{t}"), ("bytes",)))]
        if args is not None:
            out = []
            for s, vs in self.evals(args, st, fr):
                out.append((s, Num(mk("macro", name, *[tonode_(self.force(v, s)) for v in vs]))))
            return out
        return [(st, Num(mk("macro", name, fr.mod.file, e[1])))]

    # -- calls
    def apply(self, f, args, st, fr, line=0):
        """call a function value; returns [(st, val)]"""
        if isinstance(f, Clo):
            saved = st.scope
            s = st.copy()
            s.scope = dict(f.scope)
            f2 = Frame(f.fctx.fn, f.fctx.mod, f.fctx.selfty, self.depth, f.fctx.tymap)
            states = [s]
            for p, a in zip(f.params, args):
                nxt = []
                for x in states:
                    m, _ = self.bind(p, a, x, f2)
                    nxt += m
                states = nxt
            rt = self.T(f.ret, f2) if f.ret else None
            f2.retty = rt
            for x in states:
                for s2, v in self.eval(f.body, x, f2, rt):
                    f2.rets.append((s2, v, "ret"))
            out = []
            for s2, v, k in f2.rets:
                s3 = s2.copy()
                s3.scope = saved
                out.append((s3, self.coerce(v, rt) if rt else v))
            return out
        if isinstance(f, FnV):
            if isinstance(f.item, Fn):
                return self.call_fn(f.item, args, st)
            return self.call_path(f, list(f.path), None, args, st, fr, line)
        self.note_opaque("apply")
        return [(st, Num(mk("apply", tonode_(f), *[tonode_(a) for a in args])))]

    def e_call(self, e, st, fr, ex):
        self.callsites += 1
        fe = e[2]
        out = []
        for s, vs in self.evals(e[3], st, fr):
            if fe[0] == "path":
                names = [x[0] for x in fe[2]]
                if fe[3] is None and len(names) == 1 and names[0] in s.scope:
                    out += self.apply(self.force(s.store[s.scope[names[0]]], s), vs, s, fr, e[1])
                    continue
                out += self.call_path(None, names, fe, vs, s, fr, e[1], ex)
            else:
                for s2, f in self.eval(fe, s, fr):
                    out += self.apply(self.force(f, s2), vs, s2, fr, e[1])
        return out

    def call_path(self, fv, names, fe, vs, st, fr, line, ex=None):
        if self.model is not None:
            r = self.model.call(self, names, fe, vs, st, fr, line, ex)
            if r is not None:
                return r
        last = names[-1]
        if len(names) == 1:
            if last in ("Some", "Ok", "Err"):
                return [(st, Var(last, [self.force(v, st) if not isinstance(v, MutRef) else v for v in vs]))]
            if last == "drop":
                return [(st, UNITV)]
        if last in ("min", "max") and len(vs) == 2 and (len(names) == 1 or names[-2] in ("cmp",)):
            a, b = self.force(vs[0], st), self.force(vs[1], st)
            ty = self.ty_of(a, b)
            return [(st, Num((nmin if last == "min" else nmax)(tonode_(a), tonode_(b)), ty))]
        if names[-2:] == ["Into", "into"] and len(vs) == 1 and fe is not None and fe[3] is None and len(fe[2][-2]) > 1 and fe[2][-2][1]:
            t = self.T(fe[2][-2][1][0], fr)
            v = self.force(vs[0], st)
            if t is not None and t[0] in ("Result", "Option") and isinstance(v, Num):
                return [(st, self.sym(tonode_(v), t))]
        if len(names) == 3 and names[1] == "Bits" and last in ("from", "from_num") and len(vs) == 1:
            b = self.T(["tp", None, fe[2][:1]], fr) if fe is not None and fe[3] is None else None
            if b is not None and b[0] in FIXEDCRATE:
                return [(st, Num(tonode_(self.force(vs[0], st)), ("u128",)))]
        tyt = None
        if fe is not None and len(names) >= 2:
            if fe[3] is not None:
                q = fe[3][0]
                tyt = self.T(q, fr)
                if fe[3][1] == 0 and len(names) > 1:
                    pass
            else:
                tyt = self.T(["tp", None, fe[2][:-1]], fr)
        elif fv is not None and len(names) >= 2:
            tyt = self.T(["tp", None, [[n, []] for n in names[:-1]]], fr)
        if tyt is not None:
            r = self.assoc_call(tyt, last, vs, st, fr, line, ex, names)
            if r is not None:
                return r
        # functions known in the workspace
        if fe is None or fe[3] is None:
            if names[0] == "Self" and len(names) == 2 and fr.fn is not None:
                fs = self.self_methods(fr, last)
                if fs:
                    return self.inline(fs[0], vs, st, fr, line)
            r = self.w.resolve(fr.mod, names)
            if r and r[0] == "fn":
                return self.inline(r[1], vs, st, fr, line)
            if r and r[0] == "variant":
                return [(st, Var(r[1][1][0], [self.force(v, st) for v in vs], enum=r[1][0]["name"]))]
            if r and r[0] == "struct":
                return [(st, Struct(r[1]["name"], {str(i): v for i, v in enumerate(vs)}))]
            if r and r[0] == "assoc":
                cands = None
                for c in (fr.mod.crate, *self.w.crates.values()):
                    cands = c.by_method.get(r[1])
                    if cands:
                        break
                cands = named(cands, names)
                if cands:
                    return self.inline(cands[0], vs, st, fr, line)
        if names[-2:-1] == ["Either"] and last in ("Left", "Right") and len(vs) == 1:
            return [(st, Var(last, [self.force(vs[0], st)]))]
        if names[-2:] == ["Cell", "new"] and len(vs) == 1:
            return [(st, Struct("Cell", {"0": self.force(vs[0], st)}))]
        if last == "to_big_uint" and len(vs) == 1:
            return [(st, Num(tonode_(self.force(vs[0], st)), ("big",)))]
        if last == "multiply_by_rational_with_rounding" and len(vs) == 4:
            a, b, c, r = [self.force(v, st) for v in vs]
            num, c = mul(tonode_(a), tonode_(b)), tonode_(c)
            outs = []
            for rn, f in (("Down", div), ("Up", cdiv), ("NearestPrefUp", rdiv), ("NearestPrefDown", rdiv)):
                if isinstance(r, Var):
                    s2 = st if r.name == rn else None
                else:
                    s2 = self.assume(st, mk("is", tonode_(r), rn), True)
                if s2 is not None:
                    n = f(num, c)
                    conds = [] if P.nonzero(s2.facts, c) else [(eq(c, ZERO), False)]
                    k = self.fits(n, "u128")
                    if k is not TRUE and not P.le_const(s2.facts, n, 2**128 - 1):
                        conds.append((k, True))
                    outs.append((s2, Part(Num(n, ("u128",)), conds)))
            return outs
        if names[-2:] == ["Zero", "zero"] and not vs:
            return [(st, Num(ZERO, ex if ex and (ex[0] in WIDTH or ex[0] in SCALE) else ("int",)))]
        if names[-2:] in (["One", "one"], ["Default", "default"], ["Bounded", "max_value"], ["Bounded", "min_value"]) and not vs and ex is not None:
            if last == "default":
                return [(st, self.default(ex))]
            r = self.assoc_call(ex, last, vs, st, fr, line, ex, names)
            if r is not None:
                return r
        if len(names) == 2 and names[0] in UFCS_TRAITS and vs:
            r = self.method(self.force(vs[0], st), last, [], vs[1:], st, fr, line, ex)
            if r is not None:
                return r
        return self.opaque_call("::".join(names), vs, st, fr, line, fe)

    def self_methods(self, fr, name):
        c = fr.mod.crate
        if fr.fn.impl is not None:
            tn = tyname(fr.fn.impl["self"])
            fs = c.by_method.get((tn, name), [])
            same = [f for f in fs if f.impl is fr.fn.impl]
            inh = [f for f in fs if f.impl["trait"] is None]
            return same or inh or fs
        if fr.fn.trait is not None:
            return [f for f in c.by_name.get(name, []) if f.trait is fr.fn.trait]
        return []

    def inline(self, fn, vs, st, fr, line):
        if self.model is not None and not self.model.inline(self, fn, vs, st, fr):
            return self.opaque_call(fn.qual, vs, st, fr, line, None, fn)
        if fn.qual in self.summaries and len(self.stack) > 0:
            n = mk("sum", fn.qual, *[tonode_(self.force(v, st)) for v in vs])
            return [(st, self.sym(n, self.T(fn.item["ret"], self.frame_for(fn, None, {k: v for k, v in fr.tymap.items() if v and v[0] in FIXEDCRATE}))))]
        tm = {}
        if fr.fn is not None:
            # const generics pass through by name
            for g, b in fn.item["generics"][0]:
                if b == "const":
                    pass
        return self.call_fn(fn, vs, st, outer=fr.tymap)

    def opaque_call(self, name, vs, st, fr, line, fe, fn=None):
        self.note_opaque("call " + name)
        xs = [tonode_(self.force(v, st)) for v in vs]
        if self.model is not None and name.split("::")[-1] in ("free_balance", "total_issuance", "reducible_balance"):
            k = sum(1 for e in st.eff if e[0] in ("call", "ext", "loop") and str(e[1]).split("::")[-1] in MOVERS)
            if k:
                xs.append(mk("at", k))  # read again after funds moved: not the same balance
        n = mk("call", name, *xs)
        s = self.eff(st, fr, line, "call", name, [tonode_(self.force(v, st)) for v in vs], None)
        ty = None
        if fn is not None:
            ty = self.T(fn.item["ret"], self.frame_for(fn))
            return [(s, self.sym(n, ty))]
        return [(s, Num(n, ty))]

    # associated functions of builtin types, e.g. U256::from(x)
    def assoc_call(self, ty, f, vs, st, fr, line, ex, names):
        k = ty[0]
        raw = vs
        vs = [self.force(v, st) for v in vs]

        def one(n, t=ty):
            return [(st, Num(n, t))]

        if k == "Vec" and f in ("new", "with_capacity", "default"):
            return one(mk("empty"))
        if k in WIDTH or k in SCALE:
            isint = k in INTS
            if f in ("zero", "min_value"):
                return one(ZERO)
            if f == "one":
                return one(const(SCALE.get(k, 1)))
            if f == "max_value":
                return one(const(2**WIDTH[k] - 1 if k in WIDTH else SCALE[k]))
            if f == "default":
                return one(ZERO)
            if f in ("from", "from_num", "unique_saturated_from", "saturated_from") and len(vs) == 1:
                v = vs[0]
                if isinstance(v, Tup) and k in SCALE:  # From<(n, d)>
                    n, d = tonode_(v.xs[0]), tonode_(v.xs[1])
                    ok = P.nonzero(st.facts, d)
                    self.obl("div0", line, fr, f"{k}::from(({show(n)}, {show(d)}))", ok, st, d)
                    return one(div(mul(n, const(SCALE[k])), d))
                if isinstance(v, Num):
                    t = v.ty
                    if t and t[0] == "Into":
                        t = t[1]
                    if t and t[0] == "float" or (t and t[0] in ("f64",)):
                        return one(mk("float", v.n))
                    if isint and t and t[0] == "S":
                        fs = self.user_from(k, t, fr)
                        if fs:
                            return self.call_fn(fs, [v], st)
                    return one(self.conv(v.n, t, ty))
                if isinstance(v, Struct):
                    fs = self.user_from(k, ("S", v.name), fr)
                    if fs:
                        return self.call_fn(fs, [v], st)
                return one(mk("from", k, tonode_(v)))
            if f == "try_from" and len(vs) == 1:
                v = vs[0]
                n = tonode_(v)
                c = self.fits(n, k)
                return [(st, Part(Num(n, ty), [] if c is TRUE else [(c, True)], "Result"))]
            if f in ("from_inner", "from_bits", "from_raw", "from_parts") and len(vs) == 1:
                n = tonode_(vs[0])
                if f == "from_parts" and k in PERTHING:
                    n = nmin(n, const(SCALE[k]))
                return one(n)
            if f == "from_percent":
                return one(nmin(mul(tonode_(vs[0]), const(SCALE[k] // 100)), const(SCALE[k])) if k in PERTHING else one(None))
            if f == "checked_from_rational" and len(vs) == 2:
                a, b = tonode_(vs[0]), tonode_(vs[1])
                n = div(mul(a, const(SCALE[k])), b)
                conds = []
                if not P.nonzero(st.facts, b):
                    conds.append((eq(b, ZERO), False))
                c = self.fits(n, k)
                if c is not TRUE:
                    conds.append((c, True))
                return [(st, Part(Num(n, ty), conds))]
            if f in ("from_rational", "saturating_from_rational", "from_rational_approximation") and len(vs) == 2:
                a, b = tonode_(vs[0]), tonode_(vs[1])
                ok = P.nonzero(st.facts, b)
                if k == "FixedU128":
                    self.obl("div0", line, fr, f"{k}::{f}({show(a)}, {show(b)}) panics on a zero denominator", ok, st, b)
                    n = div(mul(a, const(SCALE[k])), b)
                    if f == "from_rational":
                        fit = self.fits(n, k)
                        self.obl("overflow", line, fr, f"{k}::from_rational({show(a)}, {show(b)}) panics when the quotient does not fit", fit is TRUE or P.le_const(st.facts, n, 2**128 - 1), st, n)
                        return one(n)
                    return one(self.sat(n, 128))
                n = nmin(div(mul(a, const(SCALE[k])), b), const(SCALE[k]))
                return one(n)
            if f in ("saturating_from_integer", "from_u32", "checked_from_integer", "from_integer") and len(vs) == 1:
                n = mul(tonode_(vs[0]), const(SCALE.get(k, 1)))
                if f == "checked_from_integer":
                    c = self.fits(n, k)
                    return [(st, Part(Num(n, ty), [] if c is TRUE else [(c, True)]))]
                return one(self.sat(n, WIDTH.get(k, 128)))
            if f == "from_float":
                return one(mk("float", tonode_(vs[0])))
            # UFCS: u128::checked_add(a, b)
            if vs:
                r = self.method(self.coerce(vs[0], ty), f, [], vs[1:], st, fr, line, ex)
                if r is not None:
                    return r
            return None
        if k in ("BalanceUpdate",) or (k == "E" and ty[1] == "BalanceUpdate"):
            if f == "default":
                return [(st, self.default(ty))]
        if k == "E" and f == "default":
            c = self.w.crates.get(ty[2])
            en = next((x for x in (c.enums.values() if c is not None and isinstance(getattr(c, "enums", None), dict) else ()) if x["name"] == ty[1]), None)
            if en is not None and not c.by_method.get((ty[1], "default")):
                vs_ = [v for v in en["variants"] if any("default" in str(a) for a in v[2])]
                if len(vs_) == 1 and not vs_[0][1]:
                    return one(mk("variant:" + vs_[0][0]))
            return None
        if f == "default" and not vs:
            if k == "S":
                return [(st, self.default(ty))]
            if ty == ("Default",) and ex:
                return [(st, self.default(ex))]
            if ty == ("Default",):
                return [(st, Num(mk("default"), None))]
        if k in ("S", "E"):
            c = self.w.crates[ty[2]]
            fs = named(c.by_method.get((ty[1], f), []), names)
            if fs:
                fs = self.pick_overload(fs, vs)
                return self.inline(fs[0], raw, st, fr, line)
        return None

    def pick_overload(self, fs, vs):
        if len(fs) > 1 and vs:
            v = vs[-1]
            want_tup = isinstance(v, Tup)
            r = [f for f in fs if f.params and (f.params[-1][1][0] == "ttup") == want_tup]
            if r:
                return r
        return fs

    def user_from(self, k, t, fr):
        for f in fr.mod.crate.by_name.get("from", []):
            if f.impl is not None and f.impl["trait"]:
                if tyname(f.impl["self"]) == k and tyname(f.params[0][1]) == t[1]:
                    return f
        return None

    def e_mcall(self, e, st, fr, ex):
        self.callsites += 1
        _, line, recv, name, tf, args = e
        if name.startswith("defensive_"):
            name = name[10:]
        elif name == "defensive":
            return self.eval(recv, st, fr, ex)
        out = []
        if name in ("for_each", "retain") and len(args) == 1:
            r = self.closure_loop(e, st, fr)
            if r is not None:
                return r
        # in-place mutation of a local
        if name in MUTATING:
            r = self.mutcall(e, st, fr)
            if r is not None:
                return r
        for s, rv in self.eval(recv, st, fr):
            rv0 = rv
            rv = self.force(rv, s)
            if isinstance(rv, Struct) and rv.name == "Cell" and name in ("get", "set", "replace", "take"):
                lv = (rv0.slot, tuple(rv0.path) + ("0",)) if isinstance(rv0, MutRef) else None
                if lv is None:
                    b = self.lvalue(recv, s, fr)
                    v0 = s.store.get(b[0]) if b is not None else None
                    lv = None if b is None else (v0.slot, tuple(v0.path) + tuple(b[1]) + ("0",)) if isinstance(v0, MutRef) else (b[0], tuple(b[1]) + ("0",))
                old = rv.f["0"]
                if name == "get" and not args:
                    out.append((s, old))
                    continue
                if lv is not None and name in ("set", "replace") and len(args) == 1:
                    for s2, vs in self.evals(args, s, fr):
                        out.append((self.store_lv(lv, self.force(vs[0], s2), s2, fr), UNITV if name == "set" else old))
                    continue
            if name == "next" and not args and recv[0] == "mcall" and recv[3] == "iter_mut" and not recv[5] and self.model is not None:
                lv = self.lvalue(recv[2], s, fr)
                if lv is not None and not any(isinstance(x, tuple) for x in lv[1]):
                    base = [v for _, v in self.eval(recv[2], s, fr)]
                    if len(base) == 1:
                        n = mk("m", "next", tonode_(self.force(base[0], s)))
                        k = mk("fld", mk("payload", n), "0")
                        out.append((s, Part(Tup([Num(k), MutRef(lv[0], tuple(lv[1]) + (Key(k),))]), [(mk("is", n, "Some"), True)], "Option")))
                        continue
            if name in ("as_mut", "as_deref_mut") and not args and self.model is not None:
                lv = (rv0.slot, rv0.path) if isinstance(rv0, MutRef) else self.lvalue(recv, s, fr)
                if lv is not None and not any(isinstance(x, tuple) for x in lv[1]):
                    r = MutRef(lv[0], tuple(lv[1]) + ("?",))
                    if isinstance(rv, Part):
                        out.append((s, Part(r, rv.conds, rv.kind, rv.err)))
                        continue
                    if isinstance(rv, Var) and rv.name in ("Some", "None"):
                        out.append((s, Var("Some", [r]) if rv.name == "Some" else rv))
                        continue
                    if isinstance(rv, Num) and (rv.ty is None or rv.ty[0] == "Option"):
                        out.append((s, Part(r, [(mk("is", rv.n, "Some"), True)], "Option")))
                        continue
            for s2, vs in self.evals(args, s, fr):
                r = self.method(rv, name, tf, vs, s2, fr, line, ex, rv0, recv)
                if r is None:
                    r = self.method_fallback(rv, name, tf, vs, s2, fr, line, rv0, recv)
                out += r
        return out

    def closure_loop(self, e, st, fr):
        """xs.for_each(|p| body) and v.retain(|p| body) as the loop they are; None when the closure is not spelled out here"""
        _, line, recv, name, tf, args = e
        f = args[0]
        if f[0] != "closure" or len(f[2]) != 1 or leaves(f[3]):
            return None
        if name == "for_each":
            return self.e_for(["for", line, f[2][0], recv, f[3], None], st, fr, None)
        lv = self.lvalue(recv, st, fr)
        if lv is None or any(isinstance(x, tuple) for x in lv[1]):
            return None
        pre = st.copy()
        self.keepc = getattr(self, "keepc", 0) + 1
        kn = f"__keep{self.keepc}"
        s = pre
        self.newslot(s, kn, Num(mk("const", "true"), ("bool",)))
        old = tonode_(self.force(self.readref(MutRef(lv[0], lv[1]), s), s))
        body = ["assign", line, ["path", line, [[kn, []]], None], f[3]]
        out = []
        for z, _ in self.e_for(["for", line, f[2][0], ["mcall", line, recv, "iter", None, []], body, None], s, fr, None):
            z = self.unscope(z, st)
            lid = self.loops_seen[-1]["lid"]
            self.loops_seen[-1]["keep"] = s.scope[kn]
            out.append((self.store_lv(lv, Num(mk("retained", old, lid), ("Vec", None)), z, fr), UNITV))
        return out

    def mutcall(self, e, st, fr):
        _, line, recv, name, tf, args = e
        lv = self.lvalue(recv, st, fr)
        if lv is None:
            return None
        out = []
        for s, vs in self.evals(args, st, fr):
            cur = self.readref(MutRef(lv[0], lv[1]), s) if not any(isinstance(x, tuple) for x in lv[1]) else None
            if cur is None:
                return None
            cur = self.force(cur, s)
            if name in ("sort", "sort_unstable", "sort_by", "sort_by_key", "dedup"):
                n = tonode_(cur)
                ty = cur.ty if isinstance(cur, Num) else None
                if isinstance(cur, Seq):
                    ty = ("Vec", cur.elem.ty if isinstance(cur.elem, Num) else None)
                new = Num(mk("sort" if name != "dedup" else "dedup", n), ty)
                out.append((self.store_lv(lv, new, s, fr), UNITV))
            elif name == "push":
                if isinstance(cur, ListV):
                    new = ListV(cur.xs + [self.force(vs[0], s)], cur.ty)
                elif isinstance(cur, Num) and cur.n.op == "empty":
                    new = ListV([self.force(vs[0], s)], cur.ty[1] if cur.ty and len(cur.ty) > 1 else None)
                else:
                    new = Num(mk("push", tonode_(cur), tonode_(self.force(vs[0], s))), cur.ty if isinstance(cur, Num) else None)
                out.append((self.store_lv(lv, new, s, fr), UNITV))
            else:
                return None
        return out

    def method_fallback(self, rv, name, tf, vs, st, fr, line, rv0, recv):
        t = rv.name if isinstance(rv, Struct) else rv.ty[1] if isinstance(rv, Num) and rv.ty and rv.ty[0] in ("S", "E") else None
        mine = t is not None and name in MUTATING and bool(fr.mod.crate.by_method.get((t, name)))
        if self.model is not None and not mine:
            r = self.model.method(self, rv, name, tf, vs, st, fr, line, rv0, recv)
            if r is not None:
                return r
        # methods defined in the workspace for the receiver's type
        tn = None
        crate = fr.mod.crate.name
        if isinstance(rv, Struct):
            tn = rv.name
            if rv.base is not None and isinstance(rv.base, Num) and rv.base.ty and rv.base.ty[0] == "S":
                crate = rv.base.ty[2]
        elif isinstance(rv, Var):
            tn = rv.enum
        elif isinstance(rv, Num) and rv.ty and rv.ty[0] in ("S", "E"):
            tn, crate = rv.ty[1], rv.ty[2]
        elif isinstance(rv, Num) and rv.ty and rv.ty[0] in WIDTH:
            tn = rv.ty[0]
        if tn:
            own = [x for c in self.w.crates.values() for x in c.by_method.get((tn, name), [])] if isinstance(rv, Struct) else []
            for cn in (crate, fr.mod.crate.name) + ((own[0].mod.crate.name,) if len(own) == 1 else ()):
                c = self.w.crates.get(cn)
                if c is None:
                    continue
                fs = c.by_method.get((tn, name), [])
                if fs:
                    a0 = rv
                    if fs[0].params and fs[0].params[0][1][0] == "tself" and fs[0].params[0][1][2] and isinstance(rv0, MutRef):
                        a0 = rv0
                    elif fs[0].params and fs[0].params[0][1][0] == "tself" and fs[0].params[0][1][2]:
                        lv = self.lvalue(recv, st, fr) if recv is not None else None
                        if lv is not None:
                            a0 = MutRef(*lv)
                    return self.inline(fs[0], [a0] + vs, st, fr, line)
        self.note_opaque("method ." + name)
        args = [self.lamnode(self.force(v, st), st, fr, line) for v in vs]
        n = mk("m", name, tonode_(rv), *args)
        s = self.eff(st, fr, line, "method", name, args, tonode_(rv))
        return [(s, Num(n, None))]

    def lamnode(self, v, st, fr, line):
        """a function value as a node: by its result when it has only one and does nothing else"""
        if isinstance(v, Clo) and v.params and self.model is not None:
            d = getattr(self, "lamdepth", 0)
            self.lamdepth = d + 1
            try:
                rs = self.apply(v, [Num(mk("lamarg", d, i)) for i in range(len(v.params))], st, fr, line)
                if len(rs) == 1 and len(rs[0][0].facts) == len(st.facts) and all(e[0] in ("method", "call", "read") for e in rs[0][0].eff[len(st.eff):]):
                    return mk("lam", len(v.params), tonode_(self.force(rs[0][1], rs[0][0])))
            except Budget:
                raise
            except Exception:
                pass
            finally:
                self.lamdepth = d
        return tonode_(v)

    def method(self, rv, name, tf, vs, st, fr, line, ex, rv0=None, recv=None):
        from . import methods
        return methods.method(self, rv, name, tf, vs, st, fr, line, ex)


def refmut(x):
    """does a pattern bind by mutable reference"""
    if isinstance(x, list):
        if len(x) > 4 and x[0] == "pid" and x[2] and x[3]:
            return True
        return any(refmut(y) for y in x)
    return False


def leaves(x):
    """does a closure body return early"""
    if isinstance(x, list):
        if x and x[0] in ("return", "try", "break", "continue"):
            return True
        if x and x[0] == "closure":
            return False
        return any(leaves(y) for y in x)
    if isinstance(x, dict):
        return any(leaves(y) for y in x.values())
    return False


def pathead(p):
    """the names a pattern may select a value by"""
    if p[0] == "por":
        return [h for q in p[1] for h in pathead(q)]
    if p[0] == "pid" and p[4] is None and p[1][:1].isupper():
        return [p[1]]
    if p[0] in ("pts", "pstruct", "ppath") and len(p[1]) == 1:
        return [p[1][0][0]]
    return []


UFCS_TRAITS = {"TryInto", "Into", "CheckedAdd", "CheckedSub", "CheckedMul", "CheckedDiv", "Saturating", "Zero", "One", "Clone", "PartialOrd",
               "Ord", "PartialEq", "Iterator", "Option", "Result", "SaturatedConversion", "UniqueSaturatedInto", "FixedPointNumber"}

MOVERS = {"sell", "buy", "transfer", "withdraw", "deposit", "swap", "mint_into", "burn_from", "dispatch", "execute"}
MUTATING = {"push", "sort", "sort_unstable", "sort_by", "sort_by_key", "dedup", "insert", "try_push", "extend", "remove",
            "retain", "pop", "truncate", "clear", "append", "try_insert", "swap_remove", "drain", "take", "replace", "push_back",
            "saturating_inc", "saturating_accrue", "extend_from_slice", "copy_from_slice", "saturating_reduce", "try_append", "resize", "reverse", "get_or_insert_with", "add_assign"}


def tystr_ty(t):
    return t[1] if len(t) > 1 and t[0] in ("S", "E") else t[0]
