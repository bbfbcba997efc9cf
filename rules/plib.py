"""Rules over the success paths of dispatchables: requirements on facts, effects and their order."""
import time
from rules.common import Result
from vt.front import tyname
from vt.front import World
from vt.pallet import Pallet, Model, Path, Runs, foreign
from vt.interp import *
from vt.interp import Interp, Budget, tonode_
from vt.terms import Node, mk, show, subst
from vt.spec import Finding
import vt.prove as PR

# methods without effect whose result stays uninterpreted on the unmodified tree: they do not make a path "unknown"
KNOWN_M = {"next", "next_back", "balance", "into_account_truncating", "into_sub_account_truncating", "try_into_account", "try_into_sub_account", "contains", "delta_update", "merge", "price", "weight_cap", "is_safe_withdrawal",
           "hash", "lock_periods", "as_standard", "using_encoded", "votes", "extend_from_slice", "binary_search", "binary_search_by_key", "peek", "locked", "locked_if", "all", "is_empty",
           "into_version", "first", "get_call_metadata", "as_bytes", "inner", "sort_by_cached_key", "sort", "sort_by_key", "sort_by", "flat_map", "reads", "reads_writes", "ok_or", "ok_or_else", "map_err", "unwrap_or", "unwrap_or_default", "unwrap_or_else", "as_ref", "into", "clone"}
ALLOWED_CALL = ("hydra_dx_math", "math::", "PalletId", "pallet_uniques", "pallet_otc", "NonZeroU", "sp_std", "sp_io", "Box", "WithdrawReasons", "EvmAddress", "H160", "H256",
                "keccak", "secp256k1", "AccountId32", "BoundedName", "BoundedVec::try_from")
_cache = {}
_worlds = {}


def world(*names):
    k = tuple(sorted(names))
    if k not in _worlds:
        _worlds[k] = World(only=[n + "/" for n in names] + ["traits/", "primitives/", "math/"])
    return _worlds[k]


def has(n, f):
    """does the graph contain a node satisfying f (or the node f itself)?"""
    t = f if callable(f) else (lambda x: x is f)
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if t(x):
            return True
        todo += [a for a in x.args if isinstance(a, Node)]
    return False


def touches(n, leaf):
    """like has, but an account derived from the origin does not count as the origin"""
    seen, todo = set(), [n]
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x is leaf:
            return True
        if x.op not in ("signer", "at", "origin"):
            todo += [a for a in x.args if isinstance(a, Node)]
    return False


def find(n, f):
    seen, todo, out = set(), [n], []
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if f(x):
            out.append(x)
        todo += [a for a in x.args if isinstance(a, Node)]
    return out


def lin(n):
    """{atom: coefficient} over integer nodes, constants under None"""
    out = {}

    def go(x, k):
        if x.op == "const" and isinstance(x.args[0], int):
            out[None] = out.get(None, 0) + k * x.args[0]
        elif x.op == "add":
            for a in x.args:
                go(a, k)
        elif x.op == "sub" and len(x.args) == 2:
            go(x.args[0], k)
            go(x.args[1], -k)
        elif x.op == "mul" and len(x.args) == 2 and x.args[0].op == "const":
            go(x.args[1], k * x.args[0].args[0])
        elif x.op == "mul" and len(x.args) == 2 and x.args[1].op == "const" and isinstance(x.args[1].args[0], int):
            go(x.args[0], k * x.args[1].args[0])
        else:
            out[x] = out.get(x, 0) + k
    go(n, 1)
    return {a: c for a, c in out.items() if c}


def lsub(a, b):
    r = dict(a)
    for k, c in b.items():
        r[k] = r.get(k, 0) - c
    return {k: c for k, c in r.items() if c}


def ladd(a, b):
    return lsub(a, {k: -c for k, c in b.items()})


def total(ns):
    r = {}
    for n in ns:
        r = ladd(r, lin(n))
    return r


class Flow:
    def __init__(self, asset, src, dst, amount, eff, how):
        self.asset, self.src, self.dst, self.amount, self.eff, self.how = asset, src, dst, amount, eff, how


class Eff:
    """one effect: storage write, external call, event, opaque call"""

    def __init__(self, e, i):
        self.kind, self.name, self.args, self.recv, self.file, self.line, self.fn, self.facts = e[:8]
        self.extra = e[8] if len(e) > 8 else None
        self.i = i
        self.raw = e

    def __repr__(self):
        return f"{self.kind} {self.name}({', '.join(show(a)[:60] for a in self.args if isinstance(a, Node))})"


def strip(n, _m={}):
    """the node without the read epochs"""
    if n.id in _m:
        return _m[n.id]
    r = mk(n.op, *[strip(a) if isinstance(a, Node) else a for a in n.args if not (isinstance(a, Node) and a.op == "at")])
    _m[n.id] = r
    return r


def match(n, pat):
    """structural match modulo read epochs: pattern = Node | (op, *patterns) | "_" | predicate | python constant; `...` stands for any remaining arguments;
    for call patterns the first argument matches the end of the path"""
    if isinstance(pat, Node):
        return isinstance(n, Node) and strip(n) is strip(pat)
    if pat == "_":
        return True
    if callable(pat):
        return bool(pat(n))
    if isinstance(pat, list):
        return any(match(n, p) for p in pat)
    if isinstance(pat, tuple):
        if not isinstance(n, Node) or n.op != pat[0]:
            return False
        args = [a for a in n.args if not (isinstance(a, Node) and a.op == "at")]
        ps = list(pat[1:])
        if ps and ps[-1] is ...:
            ps = ps[:-1]
            if len(args) < len(ps):
                return False
            args = args[:len(ps)]
        if len(args) != len(ps):
            return False
        for k, (a, q) in enumerate(zip(args, ps)):
            if k == 0 and n.op in ("call", "ext") and isinstance(q, str):
                if not (str(a) == q or str(a).endswith("::" + q) or str(a).endswith("." + q)) and q != "_":
                    return False
            elif not match(a, q):
                return False
        return True
    if isinstance(n, Node):
        return n.op == "const" and n.args[0] == pat
    return str(n) == str(pat)


def X(name, *a):
    return ("ext", name) + a


def C(name, *a):
    return ("call", name) + a


def F(n, *fs):
    for f in fs:
        n = ("fld", n, f)
    return n


def PL(n):
    return ("payload", n)


def ST(item, *keys):
    return ("st", item) + keys


def CFG(n):
    return ("cfg", n)


def fields(n):
    """named fields of a struct or struct-like variant node"""
    if n.op.count(":") != 2 or not n.op.startswith(("struct:", "variant:")):
        return {}
    names = n.op.split(":")[2].split(",")
    if len(n.args) not in (len(names), len(names) + 1):
        return {}                       # a further argument is the functional-update base
    return dict(zip(names, n.args))


def epochs(n):
    return [x.args[0] for x in find(n, lambda x: x.op == "at" and isinstance(x.args[0], int))]


def flatten(eff, out=None, loop=None):
    """the effects in order; .ep is the epoch of the effect: reads with a larger epoch happen after it, others before (a loop counts as one step)"""
    out = [] if out is None else out
    ep = 0
    for e in eff:
        if e[0] == "loop":
            for d in e[2]:
                flatten(d, out, ep if loop is None else loop)
            ep += 1
        else:
            x = Eff(e, len(out))
            x.loop = loop is not None
            x.ep = ep if loop is None else loop
            out.append(x)
            if e[0] == "ext" or foreign(e):
                ep += 1
    return out


def settled(n, facts):
    """an optional or fallible value whose conditions the path has settled"""
    if not (isinstance(n, Node) and n.op in ("part:Option", "part:Result")):
        return n
    known = {f.id: p for f, p in facts}
    rest = []
    for c in n.args[1:]:
        k, neg = (c.args[0], True) if c.op == "not" else (c, False)
        if k.id in known:
            if known[k.id] == neg:
                return mk("variant:None") if n.op == "part:Option" else n
            continue
        rest.append(c)
    return mk(n.op, n.args[0], *rest) if rest else n.args[0]


class PP:
    """a success path with convenient queries"""

    def __init__(self, run, path):
        self.run, self.p = run, path
        self.facts = path.facts
        self.eff = flatten(path.eff)
        self.val = path.val
        for e in self.eff:
            if any(isinstance(a, Node) and a.op.startswith("part:") for a in e.args):
                e.args = type(e.args)(settled(a, self.facts) for a in e.args)

    # ---- who --------------------------------------------------------------------------------
    def origins(self, facts=None):
        return {f.args[0] for f, p in (facts if facts is not None else self.facts) if f.op == "origin" and p}

    @property
    def who(self):
        """the signed caller"""
        for f, p in self.facts:
            if f.op == "origin" and p and f.args[0] == "signed":
                return mk("signer", "signed", f.args[1])
        return None

    def arg(self, k):
        return self.run.arg(k)

    # ---- effects ----------------------------------------------------------------------------
    def ext(self, *names, kind="ext"):
        return [e for e in self.eff if e.kind == kind and (e.name in names or e.name.split(".")[-1] in names)]

    def writes(self, *names):
        return [e for e in self.eff if e.kind in ("write", "set") and (not names or e.name in names)]

    def events(self, *names):
        return [e for e in self.eff if e.kind == "event" and (not names or e.name in names)]

    def acts(self):
        return [e for e in self.eff if e.kind in ("write", "set", "ext", "event")]

    # ---- facts ------------------------------------------------------------------------------
    def le(self, a, b):
        return PR.le(self.facts, a, b)

    def lt(self, a, b):
        return PR.lt_(self.facts, a, b)

    def conds(self):
        """linear facts c >= 0 of the path"""
        if getattr(self, "_conds", None) is None:
            cs = []
            for f, p in self.facts:
                if f.op == "lt":
                    a, b = lin(f.args[0]), lin(f.args[1])
                    cs.append(lsub(lsub(b, a), {None: 1}) if p else lsub(a, b))
                elif f.op == "eq" and p:
                    a, b = lin(f.args[0]), lin(f.args[1])
                    cs += [lsub(a, b), lsub(b, a)]
                elif f.op == "eq" and any(x.op == "const" and x.args[0] == 0 and x.args[0] is not False for x in f.args):
                    x = next(x for x in f.args if not (x.op == "const" and x.args[0] == 0))
                    cs.append(lsub(lin(x), {None: 1}))        # unsigned and not zero
            self._conds = [{k if k is not None else (): c for k, c in d.items()} for d in cs]
        return self._conds

    def lle(self, a, b):
        """linear form a <= linear form b on this path (atoms non-negative)"""
        r = lsub(b, a)
        if not r or all(c >= 0 for c in r.values()):
            return True
        from vt.lin import farkas
        r2 = {k if k is not None else (): c for k, c in r.items()}
        want = set(r2)
        cs = []
        rest = list(self.conds())
        ch = True
        while ch and len(cs) < 30:
            ch = False
            for c in list(rest):
                if set(c) - {()} & want or (set(c) & want) - {()}:
                    cs.append(c)
                    rest.remove(c)
                    want |= set(c)
                    ch = True
        return bool(farkas(r2, cs[:38]))

    def leq(self, a, b):
        """two linear forms are equal on this path"""
        return not lsub(a, b) or self.lle(a, b) and self.lle(b, a)

    def flows(self, pre=("Currency", "MultiCurrency", "Currencies", "NativeCurrency", "Asset", "MC", "Fungibles")):
        """currency movements of the path in order"""
        out = []
        for e in self.eff:
            if e.kind != "ext" or "." not in e.name:
                continue
            c, m = e.name.split(".")
            if c not in pre:
                continue
            a = e.args
            if m in ("set_lock", "remove_lock", "extend_lock") or self.failed(e):
                continue
            if m == "transfer" and len(a) in (4, 5) and c != "NativeCurrency":
                out.append(Flow(a[0], a[1], a[2], a[3], e, m))
            elif m == "transfer" and len(a) in (3, 4):
                out.append(Flow(None, a[0], a[1], a[2], e, m))
            elif m in ("withdraw", "burn_from", "slash") and len(a) >= 3:
                out.append(Flow(a[0], a[1], None, a[2], e, m))
            elif m in ("deposit", "mint_into") and len(a) >= 3:
                out.append(Flow(a[0], None, a[1], a[2], e, m))
            elif m in ("withdraw", "slash") and len(a) == 2:
                out.append(Flow(None, a[0], None, a[1], e, m))
            elif m in ("deposit", "deposit_creating", "deposit_into_existing") and len(a) == 2:
                out.append(Flow(None, None, a[0], a[1], e, m))
            else:
                out.append(Flow(None, None, None, None, e, m))
        return out

    def failed(self, e):
        """did this path tolerate the failure of the external call?"""
        if getattr(self, "_failed", None) is None:
            self._failed = [x.args[0] for x, p in self.facts if x.op == "is" and x.args[0].op == "ext" and (x.args[1] == "Ok" and not p or x.args[1] == "Err" and p)]
        for x in self._failed:
            if str(x.args[0]) == e.name and [a for a in x.args[1:] if a.op != "at"] == [a for a in e.args if isinstance(a, Node) and a.op != "at"]:
                return True
        return False

    def certain(self, e, any_=False):
        """did the path require the success of the external call (or is there nothing to require)?"""
        if e.loop or not any_ and e.name.split(".")[-1] not in ("transfer", "withdraw", "deposit", "burn_from", "mint_into", "reserve_named", "repatriate_reserved_named"):
            return True
        if getattr(self, "_oks", None) is None:
            self._oks = {x.args[0] for x, p in self.facts if x.op == "is" and x.args[0].op == "ext" and (x.args[1] == "Ok" and p or x.args[1] == "Err" and not p)}
        return any(str(x.args[0]) == e.name and [a for a in x.args[1:] if a.op != "at"] == [a for a in e.args if isinstance(a, Node) and a.op != "at"] for x in self._oks)

    def net(self, who, asset, amt=lambda n: n):
        """(credits, debits) of an account in one asset as linear forms, over the path's movements"""
        cr, db = {}, {}
        for f in self.flows():
            if f.amount is None or not (f.asset is asset or f.asset is not None and self.same(f.asset, asset)):
                continue
            if f.dst is who:
                cr = ladd(cr, lin(amt(f.amount)))
            if f.src is who:
                db = ladd(db, lin(amt(f.amount)))
        return cr, db

    def holds(self, n, pol=True):
        while n.op == "not":
            n, pol = n.args[0], not pol
        for f, p in self.facts:
            if f is n:
                return p == pol
        d = PR.decide(self.facts, n)
        if d is None:
            return None
        return d == pol

    def same(self, a, b):
        if a is b:
            return True
        for f, p in self.facts:
            if p and f.op == "eq" and set(map(id, f.args)) == {id(a), id(b)}:
                return True
        return bool(self.le(a, b) and self.le(b, a))

    def fact(self, f):
        """first fact (node, polarity) satisfying the predicate"""
        for n, p in self.facts:
            if f(n, p):
                return n, p
        return None

    def allcertain(self, ctx, run):
        """every currency movement of the path is required to have succeeded"""
        for f in self.flows():
            if not self.certain(f.eff):
                ctx.judge(run, self, "movement required", False, f"the failure of {f.eff.name} is ignored", relevant=(f.amount,) if f.amount is not None else (), eff=f.eff)

    # ---- unknowns -----------------------------------------------------------------------------
    def unknown(self, *nodes):
        """a construct the evaluator does not model that involves one of the nodes: the requirement may be enforced there"""
        base = self.run.ctx.known

        def odd(x):
            if x.op == "m":
                return x.args[0] not in KNOWN_M
            if x.op in ("macro", "apply", "loopout", "fnptr"):
                return True
            if x.op == "call":
                nm = str(x.args[0])
                return not nm.startswith(ALLOWED_CALL) and nm not in base and nm.split("::")[-1] not in ("default", "zero", "one") and not nm.endswith(("BTreeMap::new", "BTreeSet::new", "Vec::new", "Vec::with_capacity"))
            return False

        def rel(x):
            return not nodes or any(touches(x, n) for n in nodes if n is not None)
        for f, p in self.facts:
            for o in find(f, odd):
                if rel(o) or o.op in ("apply", "loopout", "fnptr") and rel(f):
                    return show(o)[:120]
        for e in self.eff:
            if e.kind == "call" and not str(e.name).startswith(ALLOWED_CALL) and e.name not in base:
                if any(isinstance(a, Node) and rel(a) for a in e.args):
                    return f"call {e.name}"
            if e.kind == "method" and e.name not in KNOWN_M:
                if any(isinstance(a, Node) and rel(a) for a in e.args):
                    return f"method {e.name}"
        return None

    def show(self, k=6):
        return "; ".join(("" if p else "not ") + show(f)[:90] for f, p in self.facts[-k:])


class Run:
    def __init__(self, ctx, pallet, runs):
        self.ctx, self.pallet, self.runs, self.fn = ctx, pallet, runs, runs.fn
        self.paths = [PP(self, p) for p in runs.okpaths]
        self.errs = runs.errpaths
        self.name = f"{pallet.name.split('/')[-1]}::{self.fn.name}"

    def arg(self, k):
        """parameter k counted after the origin (0 = first argument)"""
        ps = [p for p, t in self.fn.params]
        i = k + (1 if ps and self.is_call else 0)
        if i >= len(ps):
            return None
        p = ps[i]
        return mk("var", p[1] if p[0] == "pid" else f"arg{i}")

    @property
    def is_call(self):
        return self.pallet.calls.get(self.fn.name) is self.fn

    def argn(self, name, k=None):
        """parameter by name, or by position if it was renamed"""
        for i, (p, t) in enumerate(self.fn.params):
            if p[0] == "pid" and p[1] == name:
                return mk("var", name)
        return self.arg(k) if k is not None else None


class Ctx:
    """collects the verdicts of one property"""

    def __init__(self, pid, tier="quick", known=()):
        self.pid, self.tier = pid, tier
        self.res = Result()
        self.c = dict(functions=0, paths=0, obligations=0, proved=0, undecided=0, missing=0)
        self.und = []
        self.known = set(known)
        self.analysed = []

    def pallet(self, name, extra=()):
        k = (name, tuple(extra))
        if k not in _cache:
            path = name if "/" in name or name in ("math", "traits", "primitives") else "pallets/" + name
            w = world(path, *extra)
            _cache[k] = Pallet(w, path, extra)
        return _cache[k]

    def fn(self, pname, fname, budget=4000, extra=(), fn=None, **kw):
        """evaluate a function; None (counted) when it is missing or beyond the budget"""
        try:
            p = self.pallet(pname, extra)
        except KeyError:
            self.c["missing"] += 1
            self.und.append(f"{pname}: pallet not found")
            return None
        f = fn or p.calls.get(fname) or p.fn(fname)
        if f is None:
            self.c["missing"] += 1
            self.und.append(f"{pname}::{fname}: not found")
            return None
        key = (pname, extra, f.qual, f.line, repr(sorted(kw.items())))
        if key not in _cache:
            try:
                _cache[key] = p.run(fname, fn=f, budget=budget, **kw)
            except Budget as e:
                _cache[key] = str(e)
            except RecursionError:
                _cache[key] = "recursion"
            except Exception as e:
                _cache[key] = f"{type(e).__name__}: {e}"
        r = _cache[key]
        if isinstance(r, str):
            self.c["undecided"] += 1
            self.und.append(f"{pname}::{fname}: {r}"[:300])
            return None
        run = Run(self, p, r)
        who = run.name if f.impl is None or not f.impl.get("self") or f.impl["trait"] is None else f"{run.name} ({tyname(f.impl['self'])})"
        if who not in self.analysed:
            self.analysed.append(who)
            self.c["functions"] += 1
            self.c["paths"] += len(run.paths)
        return run

    def find(self, run, label, msg, line=None, file=None, key=None):
        fn = run.fn
        key = key or f"{run.name}|{label}"
        if any(f.key == key for f in self.res.findings):
            return
        self.res.findings.append(Finding(label, run.name, file or fn.mod.file, line or fn.line, msg, key))

    def undecided(self, run, label, why):
        self.c["undecided"] += 1
        t = f"{run.name}: {label}: {why}"[:300]
        if t not in self.und:
            self.und.append(t)

    def judge(self, run, p, label, ok, msg, relevant=(), eff=None, key=None):
        """one obligation on one path: True proved, False violated unless something unknown touches the values, None undecided"""
        self.c["obligations"] += 1
        if ok:
            self.c["proved"] += 1
            return True
        if ok is None:
            self.undecided(run, label, msg if isinstance(msg, str) else msg())
            return None
        u = p.unknown(*relevant) if p is not None else None
        if u is not None:
            self.undecided(run, label, "may be enforced in " + u)
            return None
        self.find(run, label, msg if isinstance(msg, str) else msg(), line=eff.line if eff else None, file=eff.file if eff else None, key=key)
        return False

    def done(self, rule, assumptions=()):
        self.res.coverage.update(self.c)
        self.res.coverage["explanation"] = rule
        self.res.coverage["analysed"] = self.analysed
        self.res.coverage["undecided_items"] = self.und[:60]
        self.res.assumptions = ["an error returned by a dispatchable rolls back its storage writes (FRAME's transactional dispatch)",
                                "external pallets behind the Config honour their trait's documented contract"] + list(assumptions)
        return self.res


def guarded(f):
    """a rule that crashes on unfamiliar code is undecided, never an alarm or a broken check"""
    import functools

    @functools.wraps(f)
    def g(ctx, *a, **k):
        try:
            return f(ctx, *a, **k)
        except Exception as e:
            import os
            if os.environ.get("VDBG"):
                raise
            ctx.c["undecided"] += 1
            ctx.und.append(f"{f.__name__}{a[:2]}: {type(e).__name__}: {e}"[:300])
    return g
