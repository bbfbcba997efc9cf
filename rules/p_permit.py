"""EVM permits: what makes a permit valid, and that each is used once."""
from rules.p_oracle import tyname
from rules.p_small import *

RULE = ("Every path of the permit precompile and of the runtime's permit handler is evaluated: the deadline and signature conditions must follow from the path, the signed digest must cover every field and the current nonce, "
        "and the nonce must be written, once and one higher, before the call is handed to the EVM.")
PRE = "precompiles/call-permit"
RT = "runtime/hydradx"
NONCES = "NoncesStorage"


def last(n):
    return str(n.args[0]).split("::")[-1] if n.op in ("call", "m", "ext") and n.args else ""


def bare(n):
    """a value without conversions"""
    while n.op in ("call", "m") and len(n.args) == 2 and isinstance(n.args[1], Node) and last(n) in ("from", "into", "clone", "Address", "from_slice", "to_vec", "as_bytes", "as_slice", "as_ref", "unique_saturated_into") or n.op == "sat":
        n = n.args[0] if n.op == "sat" else n.args[1]
    return n


def same(n, x):
    return strip(bare(n)) is strip(x)


def keccak(n, of):
    n = bare(n)
    return n.op == "call" and last(n) == "keccak_256" and len(n.args) == 2 and of(bare(n.args[1]))


def intime(q, deadline):
    """the permit has not expired, in seconds"""
    now = lambda n: n.op == "div" and num(n.args[1]) == 1000 and has(bare(n.args[0]), lambda z: last(z) == "now")
    for n, p in q.facts:
        if n.op == "lt" and not p and n.args[0] is deadline and now(bare(n.args[1])):
            return True
        if n.op == "lt" and p and n.args[1] is deadline and now(bare(n.args[0])):
            return True
        if n.op == "le" and p and n.args[1] is deadline and now(bare(n.args[0])):
            return True
    odd = [n for n, p in q.facts if n.op not in ("lt", "le", "eq") and has(n, lambda z: z is deadline) and not has(n, lambda z: last(z) == "secp256k1_ecdsa_recover")]
    return None if odd else False


def signature(n, v, r, s):
    """r ++ s ++ v"""
    parts = {}
    while n.op == "upd" and len(n.args) == 3:
        k, x = n.args[1], n.args[2]
        key = tuple(num(a) if isinstance(a, Node) else a for a in k.args) if k.op == "range" else num(k)
        parts.setdefault(key, x)
        n = n.args[0]
    R = [x for k, x in parts.items() if isinstance(k, tuple) and k[:2] == (0, 32)]
    S = [x for k, x in parts.items() if isinstance(k, tuple) and k[:2] == (32, 64)]
    return (len(R) == len(S) == 1 and same(R[0], r) and same(S[0], s) and 64 in parts and same(parts[64], v) and len(parts) == 3) if parts else None


TYPEHASH = "CallPermit(address from,address to,uint256 value,bytes data,uint64 gaslimit,uint256 nonce,uint256 deadline)"


def message(n, a, nonce):
    """the digest of the permit's fields, separated by the domain"""
    n = bare(n)
    if n.op == "call" and last(n) == "generate_permit":
        xs = n.args[2:]
        want = [a["from"], a["to"], a["value"], a["data"], a["gas"], nonce, a["deadline"]]
        return len(xs) == len(want) and all(same(x, w) for x, w in zip(xs, want))
    enc = [z for z in find(n, lambda z: last(z) == "encode_arguments" and z.args[1].op == "tuple" and len(z.args[1].args) == 8)]
    if not enc:
        return None
    t = enc[0].args[1].args
    hash_ = keccak(t[4], lambda z: same(z, a["data"]))
    ok = hash_ and same(t[1], a["from"]) and same(t[2], a["to"]) and same(t[3], a["value"]) and same(t[5], a["gas"]) and same(t[6], nonce) and same(t[7], a["deadline"])
    return ok and has(t[0], lambda z: any(TYPEHASH == str(x).replace("\"", "") for x in z.args) or TYPEHASH in str(z.op))


@guarded
def digest(ctx):
    """the digest and its domain"""
    r, qs = fnpaths(ctx, PRE, "generate_permit")
    for q in qs:
        a = {"from": r.arg(1), "to": r.arg(2), "value": r.arg(3), "data": r.arg(4), "gas": r.arg(5), "deadline": r.arg(7)}
        ctx.judge(r, q, "all fields signed", message(q.node, a, r.arg(6)), "the signed digest does not cover the permit's fields in their places", relevant=VALUE)
        n = q.node
        ok = None
        if n.op == "call" and last(n) == "keccak_256":
            xs, b = [], n.args[1]
            while b.op == "mut" and b.args[0] == "extend_from_slice" and len(b.args) == 3:
                xs.insert(0, b.args[2])
                b = b.args[1]
            if len(xs) == 3:
                pre = cells(xs[0], 2)
                ok = (pre is None or list(pre) == [0x19, 1]) and domain(xs[1], r.arg(0)) and last(xs[2]) == "keccak_256"
        ctx.judge(r, q, "separated by domain", ok, "the digest is not the prefixed pair of domain separator and hashed fields", relevant=VALUE)


def domain(n, address):
    enc = find(n, lambda z: last(z) == "encode_arguments" and z.args[1].op == "tuple" and len(z.args[1].args) == 5)
    if not enc:
        return None
    t = enc[0].args[1].args
    return has(t[3], lambda z: last(z) in ("get", "chain_id") or "ChainId" in str(z.args)) and same(t[4], address)


def valid(ctx, r, q, a):
    """what must hold before a permit is used"""
    g = G(r, q)
    nonce = next((n for x, p in q.facts for n in find(x, lambda z: z.op == "st" and z.args[0] == NONCES)), None)
    nonce = mk("st", NONCES, a["from"])
    rec = [n.args[0] for n, p in q.facts if n.op == "is" and n.args[1] == "Ok" and p and last(n.args[0]) == "secp256k1_ecdsa_recover"]
    t = intime(q, a["deadline"])
    ctx.judge(r, q, "not expired", t, "a permit is accepted without its deadline having been compared with the time in seconds", relevant=VALUE)
    if len(rec) != 1:
        ctx.judge(r, q, "signature recovered", False, "a permit is accepted without recovering its signer", relevant=VALUE)
        return
    rec = rec[0]
    ctx.judge(r, q, "signature", signature(rec.args[1], a["v"], a["r"], a["s"]), "the signature checked is not r, s and v", relevant=VALUE)
    ctx.judge(r, q, "fields signed", message(rec.args[2], a, nonce), "the digest checked does not cover the fields of the permit and the signer's current nonce", relevant=VALUE)
    signer = lambda n: same_signer(n, rec)
    eqs = [(n, p) for n, p in q.facts if n.op == "eq" and any(signer(x) for x in n.args)]
    ctx.judge(r, q, "signed by the payer", any(p and any(same(x, a["from"]) for x in n.args) for n, p in eqs), "a permit signed by someone else is accepted", relevant=VALUE)
    ctx.judge(r, q, "recovered signer", any(not p and any(num(x) == 0 for x in n.args) for n, p in eqs) or nonzero(q, eqs, a), "a permit for the zero address is accepted", relevant=VALUE)


def nonzero(q, eqs, a):
    return any(n.op == "eq" and not p and any(num(x) == 0 for x in n.args) and any(same(x, a["from"]) for x in n.args) for n, p in q.facts)


def same_signer(n, rec):
    n = bare(n)
    return n.op == "call" and last(n) == "keccak_256" and strip(n.args[1]) is strip(mk("payload", rec))


def spent(ctx, r, q, who, run, failed):
    """the nonce is used up before the call"""
    nonce = mk("st", NONCES, who)
    order = [e for e in q.eff if e is run or e.kind in ("write", "set") and e.name == NONCES]
    k = order.index(run)
    before, after = order[:k], order[k + 1:]
    inc = lambda e: match(e.args[0], who) and match(e.args[-1], [("add", 1, nonce), ("add", nonce, 1)])
    ctx.judge(r, q, "used before the call", len(before) == 1 and inc(before[0]), "the permit's nonce is not used up before the call runs, so that the called contract can use the permit again", relevant=VALUE, eff=run, key=f"{r.name}|used before the call")
    ok = not after or failed and len(after) == 1 and match(after[0].args[0], who) and match(after[0].args[-1], nonce)
    ctx.judge(r, q, "stays used", ok, "the nonce is written again after the call", relevant=VALUE, eff=after[0] if after else run)


@guarded
def precompile(ctx):
    r, qs = fnpaths(ctx, PRE, "dispatch")
    for q in qs:
        a = {k: r.arg(i + 1) for i, k in enumerate(("from", "to", "value", "data", "gas", "deadline", "v", "r", "s"))}
        runs = [e for e in q.eff if e.kind == "method" and e.name == "call"]
        ws = q.writes()
        other = [w for w in ws if w.name != NONCES]
        ctx.judge(r, q, "only the nonce", not other, lambda: f"unexpected {other[0]!r}", relevant=VALUE)
        if not runs:
            ctx.judge(r, q, "refused permits stay unused", not ws, "the nonce of a refused permit is used up", relevant=VALUE)
            ctx.judge(r, q, "refused", not q.p.ok or None, "a permit succeeds without its call being made", relevant=VALUE)
            continue
        ctx.judge(r, q, "executed once", len(runs) == 1, "the call of a permit is made twice", relevant=VALUE)
        e = runs[0]
        valid(ctx, r, q, a)
        spent(ctx, r, q, a["from"], e, False)
        call(ctx, r, q, e, a)


def call(ctx, r, q, e, a):
    xs = [x for x in e.args if isinstance(x, Node)]
    if len(xs) != 6:
        ctx.judge(r, q, "call as signed", None, "unfamiliar call")
        return
    zero = any(p and n.op == "eq" and any(num(x) == 0 for x in n.args) and a["value"] in n.args for n, p in q.facts)
    t = fields(xs[1].args[0]) if xs[1].op == "variant:Some" else None
    moved = xs[1].op == "variant:None" and zero or bool(t) and same(t["source"], a["from"]) and same(t["target"], a["to"]) and same(t["value"], a["value"])
    c = fields(xs[5]) or {}
    ctxok = bool(c) and same(c["caller"], a["from"]) and same(c["address"], a["to"]) and same(c["apparent_value"], a["value"])
    ctx.judge(r, q, "call as signed", same(xs[0], a["to"]) and same(xs[2], a["data"]) and match(xs[3], ("variant:Some", a["gas"])) and isF(xs[4]), lambda: f"the call made is {[show(x)[:60] for x in xs]}", relevant=VALUE, eff=e)
    ctx.judge(r, q, "value as signed", moved, lambda: f"the value moved is {show(xs[1])[:120]}", relevant=VALUE, eff=e)
    ctx.judge(r, q, "caller is the signer", ctxok, lambda: f"the call's context is {show(xs[5])[:120]}", relevant=VALUE, eff=e)
    result = [p for n, p in q.facts if n.op == "is" and n.args[1] == "Succeed"]
    fails = any(p for n, p in q.facts if n.op == "is" and n.args[1] in ("Revert", "Error", "Fatal"))
    if q.p.ok:
        ctx.judge(r, q, "success only when the call succeeds", not fails and (True if True in result else None), "a permit succeeds although its call failed", relevant=VALUE)
    cost = [n for n, p in q.facts if n.op == "lt" and not p and last(n.args[0]) == "remaining_gas" and has(n.args[1], lambda z: z is a["gas"])]
    odd = [n for n, p in q.facts if n not in cost and has(n, lambda z: last(z) == "remaining_gas")]
    ctx.judge(r, q, "gas available", bool(cost) or (None if odd else False), "the call is made without the gas it asks for being available", relevant=VALUE, eff=e)


@guarded
def handler(ctx):
    r, qs = fnpaths(ctx, RT, "validate_permit", extra=(PRE,))
    names = ("from", "to", "data", "value", "gas", "deadline", "v", "r", "s")
    for q in qs:
        ws = [e for e in q.acts() if e.kind in ("write", "set")]
        ctx.judge(r, q, "validation changes nothing", not ws, lambda: f"unexpected {ws[0]!r}", relevant=VALUE)
        if q.p.ok:
            valid(ctx, r, q, {k: r.arg(i) for i, k in enumerate(names)})
    r, qs = fnpaths(ctx, RT, "dispatch_permit", extra=(PRE,))
    for q in qs:
        a = {k: r.arg(i) for i, k in enumerate(("from", "to", "data", "value", "gas"))}
        runs = [e for e in q.eff if e.kind in ("call", "ext") and e.name.split("::")[-2:] == ["Runner", "call"] or e.name == "Runner.call"]
        if len(runs) != 1:
            ctx.judge(r, q, "executed once", False if len(runs) > 1 else None, f"the call of a permit is made {len(runs)} times", relevant=VALUE)
            continue
        e = runs[0]
        xs = [x for x in e.args if isinstance(x, Node)]
        node = [n.args[0] for n, p in q.facts if n.op == "is" and n.args[0].op in ("call", "ext") and str(n.args[0].args[0]).replace(".", "::").endswith("Runner::call")]
        failed = any(n.op == "is" and n.args[0] in node and n.args[1] in ("Ok", "Err") and p == (n.args[1] == "Err") for n, p in q.facts)
        spent(ctx, r, q, a["from"], e, failed)
        ok = len(xs) == 14 and same(xs[0], a["from"]) and same(xs[1], a["to"]) and same(xs[2], a["data"]) and same(xs[3], a["value"]) and same(xs[4], a["gas"]) and match(xs[5], ("variant:Some", r.arg(5)))
        ctx.judge(r, q, "call as signed", ok if len(xs) == 14 else None, lambda: f"the call made is {[show(x)[:50] for x in xs]}", relevant=VALUE, eff=e)
        if len(xs) == 14:
            ctx.judge(r, q, "atomic and validated", isT(xs[9]) and isT(xs[10]), "the call is not executed atomically, or without validation", relevant=VALUE, eff=e)
        done = [p for n, p in q.facts if n.op == "is" and n.args[1] == "Succeed" and has(n, lambda z: z in node)]
        bad = any(p for n, p in q.facts if n.op == "is" and n.args[1] in ("Revert", "Error", "Fatal") and has(n, lambda z: z in node))
        if q.p.ok:
            ctx.judge(r, q, "success only when the call succeeds", not failed and not bad and (True if True in done else None if not done else False), "a permit succeeds although its call failed", relevant=VALUE)
        else:
            err = find(q.node, lambda z: z.op in ("variant:EvmPermitRunnerError", "variant:EvmPermitCallExecutionError"))
            ctx.judge(r, q, "kind of failure", (err[0].op.endswith("RunnerError") == failed) if len(err) == 1 else None, "a failure of the EVM itself and one of the called contract are confused", relevant=VALUE)
    r, qs = fnpaths(ctx, RT, "permit_nonce", extra=(PRE,))
    for q in qs:
        ctx.judge(r, q, "nonce reported", match(q.node, ST(NONCES, r.arg(0))), lambda: f"{show(q.node)[:80]} is reported as the nonce", relevant=VALUE)
    r, qs = fnpaths(ctx, PRE, "nonces")
    for q in qs:
        if q.p.ok:
            ctx.judge(r, q, "nonce reported", match(q.node, [("variant:Ok", ST(NONCES, r.arg(1)))]) or q.node.op == "variant:Ok" and q.node.args[0].op == "st" and q.node.args[0].args[0] == NONCES and same(q.node.args[0].args[1], r.arg(1)), lambda: f"{show(q.node)[:80]} is reported as the nonce", relevant=VALUE)


def permit(pid, tier):
    ctx = Ctx(pid, tier)
    digest(ctx)
    precompile(ctx)
    handler(ctx)
    return ctx.done(RULE, ["secp256k1 recovery and keccak are collision resistant", "the EVM runner reverts what a failed call did"])
