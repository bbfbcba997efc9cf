"""Currencies as ERC20 tokens: addresses, the precompile table, and what each function does."""
from rules.p_small import *
from rules.p_permit import last, bare, same

RULE = ("The address codec is evaluated byte by byte over symbolic bytes; the table of precompiles is decided on one address for every cell of the arrangement of constants it compares against; "
        "every path of the token interface is evaluated and its ledger calls, their arguments and its answer are judged by the selector under which it is taken.")
RT = "runtime/hydradx"
WRAP = ("from", "from_slice", "into", "as_ref", "clone", "to_vec", "as_bytes", "as_fixed_bytes", "to_fixed_bytes", "H160", "EvmAddress", "Address", "as_mut", "as_bytes_mut", "to_owned", "unwrap")


def idxval(n, env):
    if n.op == "const" and isinstance(n.args[0], int):
        return n.args[0]
    if n.op == "bv":
        v = env.get(n.args[0])
        return v if isinstance(v, int) else None
    if n.op == "sat":
        return idxval(n.args[0], env)
    xs = [idxval(a, env) for a in n.args if isinstance(a, Node)] if n.op in ("add", "sub", "mul") else []
    if len(xs) == 2 and None not in xs:
        return {"add": xs[0] + xs[1], "sub": xs[0] - xs[1], "mul": xs[0] * xs[1]}[n.op]
    return None


def rng(n, env):
    if n.op == "range":
        a, b = idxval(n.args[0], env), idxval(n.args[1], env) if isinstance(n.args[1], Node) else None
        return (a, b + 1 if n.args[2] and b is not None else b) if a is not None else None
    return None


def arr(n, env, leaf):
    """a byte array as a list of ints and (node, k), k counting from the most significant byte; leaf: node -> length"""
    if leaf(n):
        return [(n, k) for k in range(leaf(n))]
    if n.op == "bv":
        v = env.get(n.args[0])
        return v if isinstance(v, list) else None
    if n.op == "const" and str(n.args[0]).startswith("hex:"):
        return list(bytes.fromhex(n.args[0][4:]))
    if n.op in ("call", "m") and len(n.args) == 2 and isinstance(n.args[1], Node) and last(n) in WRAP or n.op.startswith("struct:") and len(n.args) == 1 or n.op == "fld" and n.args[1] == "0":
        return arr([a for a in n.args if isinstance(a, Node)][0], env, leaf)
    if n.op == "repeat":
        v, c = idxval(n.args[0], env), idxval(n.args[1], env)
        return [v] * c if v is not None and c is not None and c <= 64 else None
    if n.op == "list":
        xs = [cell(a, env, leaf) for a in n.args]
        return xs if None not in xs else None
    if n.op in ("to_le_bytes", "to_be_bytes"):
        x = n.args[0]
        if leaf(x):
            w = [(x, k) for k in range(leaf(x))]
        elif idxval(x, env) is not None:
            w = list(idxval(x, env).to_bytes(8, "big"))
        else:
            return None
        return w[::-1] if n.op == "to_le_bytes" else w
    if n.op in ("slice", "idx") and isinstance(n.args[1], Node) and rng(n.args[1], env):
        b, (lo, hi) = arr(n.args[0], env, leaf), rng(n.args[1], env)
        return b[lo:hi] if b is not None else None
    if n.op == "upd":
        b = arr(n.args[0], env, leaf)
        if b is None:
            return None
        r = rng(n.args[1], env)
        if r:
            v = arr(n.args[2], env, leaf)
            hi = len(b) if r[1] is None else r[1]
            return b[:r[0]] + v + b[hi:] if v is not None and len(v) == hi - r[0] and hi <= len(b) else None
        k, v = idxval(n.args[1], env), cell(n.args[2], env, leaf)
        return b[:k] + [v] + b[k + 1:] if k is not None and v is not None and 0 <= k < len(b) else None
    if n.op == "fold" and len(n.args) == 3:
        return fold(n, env, leaf, arr)
    return None


def cell(n, env, leaf):
    if idxval(n, env) is not None:
        return idxval(n, env)
    if n.op == "sat":
        return cell(n.args[0], env, leaf)
    if n.op in ("idx",):
        b, k = arr(n.args[0], env, leaf), idxval(n.args[1], env)
        return b[k] if b is not None and k is not None and 0 <= k < len(b) else None
    return None


def fold(n, env, leaf, ev):
    seq, acc, body = n.args
    r = rng(seq, env)
    ids = list(range(*r)) if r and r[1] is not None else None
    if ids is None:
        a = arr(seq, env, leaf)
        ids = list(range(len(a))) if a is not None else None
    acc = ev(acc, env, leaf)
    for i in ids if ids is not None and len(ids) <= 64 else ():
        if acc is None:
            return None
        acc = ev(body, {**env, "acc": acc, "i": i}, leaf)
    return acc if ids is not None else None


def bits(v, n):
    return [v >> k & 1 for k in reversed(range(n))]


def word(n, env, leaf):
    """a 32 bit number, bit by bit from the most significant: 0, 1 or (node, byte, bit)"""
    if n.op == "bv":
        v = env.get(n.args[0])
        return v if isinstance(v, list) else bits(v, 32) if isinstance(v, int) else None
    if n.op == "const" and isinstance(n.args[0], int):
        return bits(n.args[0] & 0xffffffff, 32)
    if n.op == "sat":
        return word(n.args[0], env, leaf)
    if n.op == "shl" or n.op == "mul" and any(num(a) == 256 for a in n.args if isinstance(a, Node)):
        k = num(n.args[1]) if n.op == "shl" else 8
        x = word(n.args[0] if n.op == "shl" else [a for a in n.args if num(a) != 256][0], env, leaf)
        return (x + [0] * k)[-32:] if x is not None and k is not None and 0 <= k < 32 else None
    if n.op in ("op|", "op^", "add", "op+"):
        x, y = word(n.args[0], env, leaf), word(n.args[1], env, leaf)
        if x is None or y is None:
            return None
        out = [b if a == 0 else a if b == 0 else ("mix", a, b) for a, b in zip(x, y)]
        return out
    if n.op == "idx":
        c = cell(n, env, leaf)
        return [0] * 24 + spread(c) if c is not None else None
    if n.op in ("from_be_bytes", "from_le_bytes") or n.op in ("call", "m") and last(n) in ("from_be_bytes", "from_le_bytes", "from_big_endian"):
        x = arr([a for a in n.args if isinstance(a, Node)][-1], env, leaf)
        if x is None or len(x) != 4:
            return None
        return [b for c in (x[::-1] if "le_bytes" in (n.op + last(n)) else x) for b in spread(c)]
    if n.op == "fold" and len(n.args) == 3:
        return fold(n, env, leaf, word)
    return None


def spread(c):
    return bits(c, 8) if isinstance(c, int) else [(c[0], c[1], k) for k in range(8)]


PREFIX = [0] * 15 + [1]


def subst(c, addr):
    """an asset address's known bytes"""
    def one(x):
        if isinstance(x, tuple) and x[0] == "mix":
            a, b = one(x[1]), one(x[2])
            return b if a == 0 else a if b == 0 else 1 if a == b == 1 else x
        return bits(PREFIX[x[1]], 8)[x[2]] if isinstance(x, tuple) and x[0] is addr and x[1] < 16 else x
    return [one(x) for x in c]


def picked(ctx, name, fn, **kw):
    if fn is None:
        ctx.c["missing"] += 1
        ctx.und.append(f"{RT}::{name}: not found")
        return None, []
    return fnpaths(ctx, RT, name, fn=fn, **kw)


@guarded
def codec(ctx):
    """asset ids and their addresses"""
    r, qs = fnpaths(ctx, RT, "encode_evm_address")
    for q in qs:
        a = r.arg(0)
        n = q.node.args[0] if q.node.op == "variant:Some" else None
        c = arr(n, {}, lambda z: 4 if z is a else 0) if n is not None else None
        ctx.judge(r, q, "encoded address", None if c is None else c == PREFIX + [(a, k) for k in range(4)], lambda: f"the address of an asset is {['..' if isinstance(x, tuple) else x for x in c]}: not the prefix followed by the id's four bytes", relevant=VALUE)
        if n is None and q.node.op == "variant:None":
            ctx.judge(r, q, "encoded address", False, "an asset has no address", relevant=VALUE)
    r, qs = fnpaths(ctx, RT, "decode_evm_address")
    for q in qs:
        a = r.arg(0)
        p = prefixed(q, a)
        if q.node.op == "variant:Some":
            ctx.judge(r, q, "only asset addresses", p, "an address without the prefix is taken for an asset's", relevant=VALUE)
            decoded(ctx, r, q, q.node.args[0], a)
        elif q.node.op == "variant:None":
            ctx.judge(r, q, "every asset address", False if p else True if p is False else None, "an address with the prefix is not taken for an asset's", relevant=VALUE)


def decoded(ctx, r, q, n, a):
    w = word(n, {}, lambda z: 20 if z is a else 0)
    w = subst(w, a) if w is not None else None
    ctx.judge(r, q, "decoded id", None if w is None else w == [b for k in range(4) for b in spread((a, 16 + k))], "the id of a token's address is not its last four bytes", relevant=VALUE)


def isprefix(n, a):
    """the fact that the first sixteen bytes of an address are the prefix; None for another fact"""
    if n.op != "eq":
        return None
    cs = [arr(x, {}, lambda z: 20 if z is a else 0) for x in n.args]
    if None in cs:
        return None
    mine = [(a, k) for k in range(16)]
    return True if mine in cs and PREFIX in cs else False if any(isinstance(x, tuple) for c in cs for x in c) else None


def prefixed(q, a):
    known = [(p, isprefix(n, a)) for n, p in q.facts]
    if any(v and p for p, v in known):
        return True
    if any(v and not p for p, v in known):
        return False
    return False if any(v is False for p, v in known) else None if any(has(n, lambda z: z is a) for n, p in q.facts) else False


# ---------------------------------------------------------------------------------------------------- the table
ASSET = int.from_bytes(bytes(PREFIX) + b"\0\0\0\0", "big")
TABLE = {1: "ECRecover", 2: "Sha256", 3: "Ripemd160", 4: "Identity", 5: "Modexp", 6: "Bn128Add", 7: "Bn128Mul", 8: "Bn128Pairing", 9: "Blake2F", 0x80a: "CallPermitPrecompile", 0x401: "Dispatch"}


def addrconst(n):
    c = arr(n, {}, lambda z: 0)
    if c is not None and len(c) == 20 and all(isinstance(x, int) for x in c):
        return int.from_bytes(bytes(c), "big")
    return num(n)


def holds(n, a, v, delegate):
    """a fact on a given address; None when it says something else"""
    if n.op == "eq" and a in n.args:
        o = [x for x in n.args if x is not a]
        if len(o) == 1 and o[0].op == "fld" and o[0].args[1] == "address":
            return not delegate
        k = addrconst(o[0]) if len(o) == 1 else None
        return None if k is None else v == k
    if n.op in ("lt", "le") and a in n.args:
        x, y = [v if z is a else addrconst(z) for z in n.args]
        return None if x is None or y is None else x < y if n.op == "lt" else x <= y
    p = isprefix(n, a)
    if p is not None:
        return v >> 32 == ASSET >> 32 if p else None
    if n.op in ("call", "m") and last(n) == "is_zero" and n.args[1] is a:
        return v == 0
    return None


def decide(ctx, r, qs, a, label, want, msg, delegates=(False, True)):
    consts = {0, ASSET, (1 << 160) - 1} | set(TABLE)
    for q in qs:
        for n, p in q.facts:
            for z in find(n, lambda z: z.op in ("call", "const")):
                k = addrconst(z)
                if k is not None:
                    consts.add(k)
    pts = sorted({x for k in consts for x in (k - 1, k, k + 1) if 0 <= x < 1 << 160} | {ASSET + 5, ASSET + (1 << 32) - 1, ASSET + (1 << 32), ASSET + (1 << 40)})
    for v in pts:
        for d in delegates:
            sel, odd = [], False
            for q in qs:
                vals = [(holds(n, a, v, d), p) for n, p in q.facts]
                if any(x is not None and x != p for x, p in vals):
                    continue
                odd |= any(x is None for x, p in vals)
                sel.append(q)
            q = sel[0] if sel else None
            if q is None:
                continue
            for q in sel:
                ok = want(q, v, d)
                ctx.judge(r, q, label, ok if not odd or ok else None, lambda: msg(v, d), relevant=VALUE, key=f"{r.name}|{label}|{hex(v)}" if v in consts else None)


@guarded
def table(ctx):
    """which code runs at which address"""
    r, qs = picked(ctx, "execute", pick(ctx, "execute", "precompiles/mod.rs"), opaque=("execute",))
    if r is not None:
        a = mk("m", "code_address", r.arg(1))

        def want(q, v, d):
            n = q.node
            if v > 9 and d:
                return n.op == "variant:Some" and n.args[0].op == "variant:Err"
            name = TABLE.get(v) or ("MultiCurrencyPrecompile" if v >> 32 == ASSET >> 32 else None)
            if name is None:
                return n.op == "variant:None" or (None if n.op != "variant:Some" else False)
            c = n.args[0] if n.op == "variant:Some" else n
            return c.op == "call" and str(c.args[0]).split("::")[-2:] == [name, "execute"]
        decide(ctx, r, qs, a, "precompile at an address", want, lambda v, d: f"address {hex(v)}{' called by delegation' if d else ''} does not run {TABLE.get(v) or ('its currency' if v >> 32 == ASSET >> 32 else 'ordinary code only')}{' or is not refused' if d else ''}")
    r, qs = picked(ctx, "is_precompile", pick(ctx, "is_precompile", "precompiles/mod.rs"))
    if r is not None:
        a = r.arg(1)

        def want(q, v, d):
            ans = [x for x in q.node.args if isinstance(x, Node) and (isT(x) or isF(x))]
            if v == 0x80a:
                return True
            if len(ans) != 1:
                f = [x for x in q.node.args if isinstance(x, Node) and holds(x, a, v, d) is not None]
                return holds(f[0], a, v, d) == (v in TABLE or v >> 32 == ASSET >> 32) if len(f) == 1 else None
            return isT(ans[0]) == (v in TABLE or v >> 32 == ASSET >> 32)
        decide(ctx, r, qs, a, "addresses of precompiles", want, lambda v, d: f"address {hex(v)} is wrongly {'not ' if v in TABLE or v >> 32 == ASSET >> 32 else ''}declared a precompile", delegates=(False,))


def pick(ctx, name, file, self=None):
    p = ctx.pallet(RT)
    fs = [f for f in p.c.by_name.get(name, []) if f.mod.file.endswith(file) and "tests" not in f.mod.path and (self is None or f.impl and self in str(f.impl["self"]))]
    return fs[0] if len(fs) == 1 else None


# ---------------------------------------------------------------------------------------------------- the functions
KINDS = {"Name": ("asset_name", "Bytes"), "Symbol": ("asset_symbol", "Bytes"), "Decimals": ("decimals", "Uint"), "TotalSupply": ("total_issuance", "Uint"), "BalanceOf": ("free_balance", "Uint")}
MOVES = {"transfer", "deposit", "withdraw", "slash", "reserve", "unreserve", "mint_into", "burn_from", "transfer_all", "update_balance", "repatriate_reserved", "set_lock", "extend_lock", "remove_lock", "transfer_from", "approve"}


def account(n, of):
    n = bare(n)
    return n.op in ("call", "m") and last(n) == "account_id" and of(bare(n.args[-1]))


def input_(n, k, h):
    """the k-th argument of the call"""
    n = bare(n)
    if n.op != "payload" or n.args[0].op != "m" or last(n.args[0]) != "read":
        return False
    x = n.args[0].args[1]
    for _ in range(k):
        if x.op != "mut" or x.args[0] != "read":
            return False
        x = x.args[1]
    return x.op == "payload" and x.args[0].op == "m" and last(x.args[0]) == "read_input" and x.args[0].args[1] is h


@guarded
def functions(ctx):
    """what the functions of the token interface do"""
    r, qs = picked(ctx, "execute", pick(ctx, "execute", "precompiles/multicurrency.rs"))
    if r is None:
        return
    h = r.arg(0)
    addr = mk("m", "code_address", h)
    sel = None
    for q in qs:
        for n, p in q.facts:
            if n.op == "is" and n.args[0].op == "m" and last(n.args[0]) == "read_selector":
                sel = mk("payload", n.args[0])
    seen = set()
    for q in qs:
        calls = [e for e in q.eff if e.kind in ("call", "method", "ext")]
        moves = [e for e in calls if e.name.split("::")[-1].split(".")[-1] in MOVES]
        is_ = [n.args[1] for n, p in q.facts if n.op == "is" and n.args[0] is sel and p]
        not_ = {n.args[1] for n, p in q.facts if n.op == "is" and n.args[0] is sel and not p}
        v = is_[0] if len(is_) == 1 else None
        mod = [n.args[0].args[2].op.split(":")[-1] for n, p in q.facts if n.op == "is" and p and n.args[1] == "Ok" and n.args[0].op == "m" and last(n.args[0]) == "check_function_modifier"]
        for e in moves:
            ctx.judge(r, q, "only a transfer moves tokens", v == "Transfer" if is_ else None if sel is None else False, lambda: f"{e.name} is called for {v}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "not in a static context", "NonPayable" in mod, "tokens are moved without the check for a static or paying call", eff=e, relevant=VALUE)
        if moves or q.p.ok:
            ctx.judge(r, q, "not payable", bool(mod) and "Payable" not in mod, "a call carrying value is accepted", relevant=VALUE)
        if not q.p.ok:
            continue
        ctx.judge(r, q, "currency address", prefixed(q, addr), "an address that is not a currency's is answered", relevant=VALUE)
        ctx.judge(r, q, "gas is charged", any(n.op == "is" and p and n.args[1] == "Ok" and last(n.args[0]) == "record_cost" for n, p in q.facts), "the read of storage is not charged", relevant=VALUE)
        if v is None:
            ctx.judge(r, q, "selector", None, "the path does not say which function was called", relevant=VALUE)
            continue
        seen.add(v)
        if v == "Transfer":
            ts = [e for e in moves if e.name.split("::")[-1].split(".")[-1] == "transfer"]
            ctx.judge(r, q, "one transfer", len(ts) == 1 and len(moves) == 1, f"{len(ts)} transfers are made", relevant=VALUE)
            if len(ts) != 1:
                continue
            e = ts[0]
            xs = [x for x in e.args if isinstance(x, Node)]
            if len(xs) == 4:
                asset(ctx, r, q, xs[0], addr)
                ctx.judge(r, q, "from the caller", account(xs[1], lambda z: z.op == "fld" and z.args[1] == "caller" and z.args[0].op == "m" and last(z.args[0]) == "context"), lambda: f"the tokens are taken from {show(xs[1])[:70]}", eff=e, relevant=VALUE)
                ctx.judge(r, q, "to the recipient", account(xs[2], lambda z: input_(z, 0, h)), lambda: f"the tokens go to {show(xs[2])[:70]}", eff=e, relevant=VALUE)
                ctx.judge(r, q, "the amount", input_(xs[3], 1, h), lambda: f"{show(xs[3])[:70]} is moved", eff=e, relevant=VALUE)
            ctx.judge(r, q, "success only when moved", any(n.op == "is" and p and n.args[1] == "Ok" and n.args[0].op in ("call", "ext", "m") and last(n.args[0]).split(".")[-1] == "transfer" for n, p in q.facts), "success is reported although the transfer may have failed", relevant=VALUE)
            continue
        k = KINDS.get(v)
        if k is None:
            ctx.judge(r, q, "unsupported", False, f"{v} reports success without doing anything", relevant=VALUE)
            continue
        out = find(q.node, lambda z: z.op in ("call", "m") and last(z) in ("Uint", "Bytes"))
        val = None
        if len(out) == 1:
            val = bare(out[0].args[-1])
            if val.op == "payload":
                val = val.args[0]
        ok = None if val is None else val.op in ("call", "m", "ext") and last(val).split(".")[-1] == k[0] and last(out[0]) == k[1]
        ctx.judge(r, q, f"answer of {v}", ok, lambda: f"{v} answers {show(val)[:70]}", relevant=VALUE)
        if ok:
            xs = [x for x in val.args[1:] if isinstance(x, Node)]
            asset(ctx, r, q, xs[0], addr)
            if v == "BalanceOf":
                ctx.judge(r, q, "balance of the given owner", account(xs[1], lambda z: input_(z, 0, h)) if len(xs) == 2 else None, lambda: f"the balance of {show(xs[1])[:60]} is given", relevant=VALUE)
    if seen:
        for v in sorted(set(KINDS) | {"Transfer"}):
            if v not in seen:
                ctx.judge(r, None, f"{v} available", False, f"{v} cannot succeed", key=f"{r.name}|{v} available")


def asset(ctx, r, q, n, addr):
    decoded(ctx, r, q, strip(n), addr)


@guarded
def modifiers(ctx):
    """static and paying calls"""
    r, qs = picked(ctx, "check_function_modifier", free(ctx, "check_function_modifier"))
    for q in qs:
        if r is None or not q.p.ok:
            continue
        c, st, m = r.arg(0), r.arg(1), r.arg(2)
        view = any(n.op == "is" and n.args[0] is m and n.args[1] == "View" and p for n, p in q.facts)
        pay = any(n.op == "is" and n.args[0] is m and n.args[1] == "Payable" and p for n, p in q.facts)
        val = mk("fld", c, "apparent_value")
        none = any(n.op == "lt" and not p and n.args[1] is val and num(n.args[0]) == 0 or n.op == "eq" and p and val in n.args and any(num(x) == 0 for x in n.args) for n, p in q.facts)
        ctx.judge(r, q, "static calls only view", view or any(n is st and not p for n, p in q.facts), "a function that changes state is allowed in a static call", relevant=VALUE)
        ctx.judge(r, q, "value only to payable functions", pay or none, "value is accepted by a function that is not payable", relevant=VALUE)


def free(ctx, name):
    fs = [f for f in ctx.pallet(RT).c.by_name.get(name, []) if f.impl is None and "tests" not in f.mod.path]
    return fs[0] if len(fs) == 1 else None


@guarded
def reader(ctx):
    """arguments are read word by word"""
    r, qs = picked(ctx, "read", pick(ctx, "read", "precompiles/handle.rs", "'Address'"))
    for q in qs:
        if r is None or not q.p.ok:
            continue
        rd = r.arg(0)
        inp, cur = mk("fld", rd, "input"), mk("fld", rd, "cursor")
        n = bare(q.node.args[0])
        ok = None
        if n.op in ("slice", "idx") and n.args[1].op == "range" and n.args[0].op in ("slice", "idx"):
            w = n.args[0]
            ok = num(n.args[1].args[0]) == 12 and num(n.args[1].args[1]) in (32, None) and not n.args[1].args[2] and w.args[0] is inp and w.args[1].op == "range" and w.args[1].args[0] is cur
        ctx.judge(r, q, "address argument", ok, lambda: f"an address is read as {show(n)[:80]}", relevant=VALUE)
    r, qs = picked(ctx, "move_cursor", pick(ctx, "move_cursor", "precompiles/handle.rs"), outs=True)
    for q in qs:
        if r is None or not q.p.ok:
            continue
        me = mk("fld", r.arg(0), "cursor")
        n = q.node.args[0]
        ok = n.op == "range" and n.args[0] is me and not n.args[2] and lsub(lin(n.args[1]), lin(me)) == lin(r.arg(1)) if n.op == "range" else None
        ctx.judge(r, q, "next bytes", ok, lambda: f"the bytes read are {show(n)[:60]}", relevant=VALUE)
        o = q.p.out(0)
        now = o if o is None else [x for x, k in zip(o.args, o.op.split(":")[2].split(",")) if k == "cursor"][0] if o.op.startswith("struct:") and "cursor" in o.op else o.args[2] if o.op == "upd" and o.args[1] == "cursor" else mk("fld", o, "cursor")
        ctx.judge(r, q, "each argument once", None if now is None else lsub(lin(now), lin(me)) == lin(r.arg(1)), lambda: f"after reading, the reader is at {show(now)[:60]}", relevant=VALUE)
    r, qs = picked(ctx, "new_skip_selector", pick(ctx, "new_skip_selector", "precompiles/handle.rs"))
    for q in qs:
        if r is None or not q.p.ok:
            continue
        n = q.node.args[0]
        f = dict(zip(n.op.split(":")[2].split(","), n.args)) if n.op.startswith("struct:") else {}
        i = f.get("input")
        ok = num(f["cursor"]) == 0 and i.op in ("slice", "idx") and i.args[0] is r.arg(0) and i.args[1].op == "range" and num(i.args[1].args[0]) == 4 and i.args[1].args[1].op == "inf" if i is not None and "cursor" in f and isinstance(i.args[-1], Node) else None
        ctx.judge(r, q, "arguments follow the selector", ok, lambda: f"the arguments are read from {show(n)[:60]}", relevant=VALUE)
    r, qs = picked(ctx, "expect_arguments", pick(ctx, "expect_arguments", "precompiles/handle.rs"))
    for q in qs:
        if r is None or not q.p.ok:
            continue
        need = ladd(lin(mk("fld", r.arg(0), "cursor")), lin(mk("mul", r.arg(1), mk("const", 32))))
        have = lambda n: n.op == "len" and n.args[0] is mk("fld", r.arg(0), "input")
        ok = any(n.op == "lt" and (not p and have(n.args[0]) and lin(n.args[1]) == need) for n, p in q.facts) or any(n.op == "le" and p and have(n.args[1]) and lin(n.args[0]) == need for n, p in q.facts)
        ctx.judge(r, q, "enough arguments", ok, "fewer words than the function takes are accepted", relevant=VALUE)


def erc20(pid, tier):
    ctx = Ctx(pid, tier)
    codec(ctx)
    table(ctx)
    functions(ctx)
    modifiers(ctx)
    reader(ctx)
    return ctx.done(RULE, ["the EVM calls the precompile set with the code address and context of the call", "account_id maps an address to its account (P12)", "the ledger's own functions do what P27 says"])
