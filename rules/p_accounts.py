"""Where pools and farms keep their assets: derivation of their accounts, and which pools may be created."""
from rules.p_evmfee import called, handler
from rules.p_small import *

from vt.pallet import tyname
from vt.terms import const

VALUE = ("free_balance",)
RT = "runtime/hydradx"
RULE = ("Every path of the account constructors is evaluated; the bytes hashed are compared as a sequence (identifier, then assets) and, for a pair, the order of the two assets with the comparison assumed on the path. "
        "Every path of the pool-creation conditions is compared with the specified condition.")
SAME = ("to_vec", "as_bytes", "as_ref", "as_slice", "clone", "into", "to_owned", "as_mut_slice", "iter", "copied", "cloned", "collect", "into_iter")


def segs(n):
    """the bytes of a buffer as a sequence of parts; None when unknown"""
    n = strip(n)
    if n.op in ("mut", "m") and n.args[0] in ("extend_from_slice", "extend", "append", "push_slice") and len(n.args) == 3:
        a, b = segs(n.args[1]), segs(n.args[2])
        return None if a is None or b is None else a + b
    if n.op == "empty":
        return []
    if n.op == "slice" and n.args[1].op == "range" and num(n.args[1].args[0]) == 0 and n.args[1].args[1].op == "inf":
        return segs(n.args[0])
    if n.op == "m" and n.args[0] in SAME:
        return segs(n.args[1])
    if n.op == "m" and n.args[0] == "concat" and n.args[1].op in ("tuple", "arr", "array", "vec"):
        out = []
        for x in n.args[1].args:
            s = segs(x)
            if s is None:
                return None
            out += s
        return out
    if n.op in ("to_le_bytes", "to_be_bytes", "encode") or n.op == "m" and n.args[0] in ("to_le_bytes", "to_be_bytes", "encode"):
        return [("num", strip(n.args[-1]))]
    if n.op in ("arg", "param", "var", "payload", "const") or n.op == "fld":
        return [("raw", n)]
    if n.op == "call" and str(n.args[0]).split("::")[-1] in ("from", "to_vec"):
        return segs(n.args[1])
    return None


def hashed(n):
    """the argument of hash in unchecked_from(hash(x))"""
    n = strip(n)
    if not called("unchecked_from")(n):
        return None
    h = [x for x in n.args[1:] if isinstance(x, Node) and called("hash")(strip(x))]
    return segs(strip(h[0]).args[1]) if h else None


def pair(ctx):
    r, qs = handler(ctx, RT, "from_assets", "AssetPairAccountId")
    if not qs:
        return
    a, b, i = r.arg(0), r.arg(1), r.arg(2)
    orders = set()
    for q in qs:
        s = hashed(q.node)
        if s is None:
            ctx.judge(r, q, "account of a pair", None, "hash not recognised")
            continue
        ids = [x for k, x in s if k == "raw"]
        nums = [x for k, x in s if k == "num"]
        ctx.judge(r, q, "identifier included once", len(ids) == 1 and ids[0] is i and s[0] == ("raw", i), lambda: f"account derived from {s}"[:160], relevant=VALUE)
        ext = [x for x in nums if x.op in ("min", "max") and {*x.args} == {a, b}]
        if len(nums) == 2 and len(ext) == 2 and {x.op for x in ext} == {"min", "max"}:
            orders.add("up" if nums[0].op == "min" else "down")
            continue
        if not ctx.judge(r, q, "both assets included", len(nums) == 2 and {*nums} == {a, b}, lambda: f"account derived from {[show(x) for x in nums]}", relevant=VALUE):
            continue
        lt, gt = q.holds(mk("lt", a, b)), q.holds(mk("lt", b, a))
        eq = q.holds(mk("eq", a, b)) or q.holds(mk("eq", b, a))
        if eq is True:
            continue
        if lt is None and gt is None:
            ctx.judge(r, q, "same account in either order", False, "the account depends on the order in which the assets are given", relevant=VALUE)
            continue
        up = lt is True or gt is False
        orders.add("up" if (nums[0] is a) == up else "down")
    if qs:
        ctx.judge(r, qs[0], "same account in either order", len(orders) <= 1, "the account depends on the order in which the assets are given", relevant=VALUE)


def share(ctx):
    r, qs = handler(ctx, RT, "from_assets", "StableswapAccountIdConstructor")
    for q in qs or []:
        s = hashed(q.node)
        idn, a = r.arg(1), r.arg(0)
        some = q.holds(mk("is", idn, "Some"))
        if s is not None and some is None:
            ctx.judge(r, q, "account of a stable pool", any(find(x, lambda z: z is idn) for _, x in s), "the identifier is not part of the account's derivation", relevant=VALUE)
            continue
        if s is None or some is None:
            ctx.judge(r, q, "account of a stable pool", None, "hash not recognised")
            continue
        want = ([("raw", mk("payload", idn))] if some else []) + [("num", a)]
        ctx.judge(r, q, "account of a stable pool", s == want, lambda: f"account derived from {s}"[:160], relevant=VALUE)


def text(n):
    n = strip(n)
    if n.op == "variant:Some":
        return text(n.args[0])
    if n.op != "const":
        return None
    v = str(n.args[0])
    if v.startswith("b["):
        return bytes(int(x) for x in v[2:-1].split(",") if x.strip()).decode("latin1")
    return v


def kinds(ctx):
    """each kind of pool uses its own identifier, the same one everywhere"""
    seen = {}
    for pn, ctor, fns in (("xyk", "from_assets", ("pair_account_from_assets", "get_pair_id")), ("lbp", "from_assets", ("pair_account_from_assets", "get_pair_id")), ("stableswap", "from_assets", ("pool_account",))):
        for f in fns:
            r, qs = fnpaths(ctx, pn, f)
            for q in qs or []:
                n = strip(q.node)
                if not called(ctor)(n):
                    ctx.judge(r, q, "pool account", None, "constructor not recognised")
                    continue
                xs = [x for x in n.args[1:] if isinstance(x, Node) and x.op != "at"]
                idt = text(xs[-1])
                if strip(xs[-1]).op == "variant:None":
                    ctx.judge(r, q, "own identifier", False, "the account is derived without an identifier", relevant=VALUE)
                    continue
                if idt is None:
                    ctx.judge(r, q, "pool account", None, "identifier not constant")
                    continue
                prev = {v: k for k, v in seen.items()}.get(idt)
                ctx.judge(r, q, "own identifier", seen.setdefault(pn, idt) == idt and prev in (None, pn), f"identifier {idt} of pallet {pn} is also used by {prev}, or {pn} uses another one elsewhere", relevant=VALUE)
                args = [strip(x) for x in xs[:-1]]
                p0 = r.arg(0)
                ps = [p0] if pn == "stableswap" else [r.arg(0), r.arg(1)] if f.startswith("pair_") else [mk("fld", p0, "asset_in"), mk("fld", p0, "asset_out")]
                ctx.judge(r, q, "account of the named assets", {*args} == {*ps} and len(args) == len(ps), lambda: f"account of {[show(x) for x in args]}", relevant=VALUE)


def farm(ctx):
    r, qs = fnpaths(ctx, "liquidity-mining", "farm_account_id")
    for q in qs or []:
        if q.p.ok is False or not q.node.op.startswith("variant:Ok"):
            continue
        i = r.arg(0)
        v = strip(q.node.args[0])
        while v.op == "payload":
            v = strip(v.args[0])
        sub = v.op in ("m", "call", "ext") and "sub_account" in str(v.args[0])
        ctx.judge(r, q, "farm account from its id", bool(sub and any(x is i for x in v.args if isinstance(x, Node)) and find(v, lambda z: z.op == "cfg" and z.args[0] == "PalletId")) if sub else None, lambda: f"account {show(v)[:90]}", relevant=VALUE)
        nz = q.holds(mk("eq", const(0), i))
        if nz is None:
            nz = q.holds(mk("eq", i, const(0)))
        ctx.judge(r, q, "no farm zero", nz is False or num_pos(q, i), "an account is given to farm 0", relevant=VALUE)


def num_pos(q, i):
    return q.holds(mk("lt", const(0), i)) is True


def creation(ctx):
    r, qs = handler(ctx, "runtime/adapters", "can_create", "AllowPoolCreation")
    for q in qs or []:
        a, b = r.arg(0), r.arg(1)
        n = strip(q.node)

        def known(x):
            """'yes' registered and not a share, 'no' otherwise, None unknown"""
            reg = kind = None
            for f, p in q.facts:
                if f.op == "is" and called("asset_type")(strip(f.args[0])) and strip(f.args[0]).args[1] is x:
                    reg = p if f.args[1] == "Some" else (not p if f.args[1] == "None" else reg)
                if f.op in ("eq", "is") and find(f, lambda z: called("asset_type")(z) and z.args[1] is x) and "XYK" in show(f):
                    kind = p
                if f.op == "ne" and find(f, lambda z: called("asset_type")(z) and z.args[1] is x) and "XYK" in show(f):
                    kind = not p
            return reg, kind
        ka, kb = known(a), known(b)
        bad = ka[0] is False or kb[0] is False or ka[1] or kb[1]
        lbp = lambda z: called("can_create")(z) and {*[x for x in z.args[1:] if isinstance(x, Node) and x.op != "at"]} == {a, b}
        sale = next((p for f, p in q.facts if lbp(strip(f))), None)
        if isF(n):
            ctx.judge(r, q, "pool creation", bool(bad or sale is False), "a pool of ordinary assets without a sale cannot be created", relevant=VALUE)
            continue
        good = ka == (True, False) and kb == (True, False)
        if ctx.judge(r, q, "no pools of unregistered assets or shares", good, f"a pool may be created though the assets are {ka} {kb} (registered, share)", relevant=VALUE):
            ctx.judge(r, q, "no pool during a sale", bool(lbp(n) or isT(n) and sale is True), lambda: f"allowed if {show(n)[:100]}", relevant=VALUE)
    r, qs = handler(ctx, "lbp", "can_create", "DisallowWhenLBPPoolRunning")
    for q in qs or []:
        a, b = r.arg(0), r.arg(1)
        n = strip(q.node)
        pools = {z for f, _ in list(q.facts) + [(n, 1)] for z in find(f, lambda z: z.op == "st" and z.args[0] == "PoolData")}
        for z in pools:
            k = strip(z.args[1])
            ctx.judge(r, q, "sale of the pair", called("from_assets")(k) and {*[x for x in k.args[1:3]]} == {a, b}, lambda: f"sale looked up at {show(k)[:80]}", relevant=VALUE)
        ex = next((p if f.args[1] in ("Some", "Ok") else not p for f, p in q.facts if f.op == "is" and f.args[0] in pools), None)
        cx = next((p for f, p in q.facts if f.op in ("has", "contains", "exists") and f in pools), None)
        ex = cx if ex is None else ex
        endn = [z for f, _ in list(q.facts) + [(n, 1)] for z in find(f, lambda z: z.op == "fld" and z.args[1] == "end")]
        end = next((p if f.args[1] == "Some" else not p for f, p in q.facts if f.op == "is" and f.args[0] in endn), None)
        if ex is False:
            ctx.judge(r, q, "no sale", isT(n), "a pool cannot be created although there is no sale", relevant=VALUE)
        elif ex is None:
            ctx.judge(r, q, "no sale", None, "existence of the sale not decided on the path")
        elif end is False:
            ctx.judge(r, q, "sale not yet ended", isF(n), "a pool may be created while a sale without end is open", relevant=VALUE)
        elif endn:
            e = mk("payload", endn[0])
            now = mk("ext", "BlockNumberProvider.current_block_number")
            c = mk("lt", e, now)
            ok = n is c or isT(n) and q.holds(c) is True or isF(n) and q.holds(c) is False or n.op == "not" and strip(n.args[0]) is mk("le", now, e)
            if not ok and isT(n) and q.holds(mk("le", now, e)) is False or isF(n) and q.holds(mk("le", now, e)) is True:
                ok = True
            ctx.judge(r, q, "sale ended before this block", ok, lambda: f"a pool may be created if {show(n)[:120]}", relevant=VALUE)


def accounts(pid, tier):
    ctx = Ctx(pid, tier)
    g = guarded(lambda c, f: f(c))
    for f in (pair, share, kinds, farm, creation):
        g(ctx, f)
    return ctx.done(RULE, ["the hash is assumed to be collision free"])
