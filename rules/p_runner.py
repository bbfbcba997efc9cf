"""Admission of EVM transactions: what is checked of a call or creation before it runs, and that it runs as asked."""
from rules.p_evmfee import account, called, handler, same
from rules.p_small import *
from vt.terms import const

RULE = ("Every path of the EVM runner is evaluated: where validation was asked for, the transaction checked must be the caller's own, against its account's nonce and its balance in WETH, and refused when a check fails; "
        "what is handed to the underlying runner must be exactly what was asked.")
RT = "runtime/hydradx"
VALUE = ("free_balance",)
STEPS = ("validate_in_block_for", "with_base_fee", "with_balance_for")
# positions: (source, target or None, input, value, gas, max fee, max priority fee, nonce, access list, transactional, validate, weight limit, proof size, config)
AT = {"validate": (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, None, 10, 11, 12),
      "call": (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13),
      "create": (0, None, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12),
      "create2": (0, None, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13)}
N = {"validate": 13, "call": 14, "create": 13, "create2": 14}


def steps(q):
    """check name -> (its outcome on the path, the call)"""
    out = {}
    for f, p in q.facts:
        if f.op == "is" and f.args[1] in ("Ok", "Err") and f.args[0].op == "m" and f.args[0].args[0] in STEPS:
            out[f.args[0].args[0]] = (p == (f.args[1] == "Ok"), f.args[0])
    return out


def flds(n):
    if n.op.startswith(("variant:", "struct:")):
        p = n.op.split(":")
        return dict(zip(p[-1].split(","), n.args))
    return {}


def some(n):
    return n.args[0] if n.op == "variant:Some" else None


def optional(ctx, n, want):
    """`want` handed on as the option it is"""
    return n is want or (n.op == "variant:Some" and n.args[0].op == "payload" and n.args[0].args[0] is want)


def checked(ctx, r, q, pos):
    a = [None if i is None else r.arg(i) for i in pos]
    source, target, inp, value, gas, mf, mp, nonce, al, istx, _, wl, psb, cfg = a
    st = steps(q)
    txs = {x for f, p in q.facts for x in find(f, called("new")) if "CheckEvmTransaction" in str(x.args[0])} | {x for x in find(q.node, called("new")) if "CheckEvmTransaction" in str(x.args[0])}
    if q.p.ok:
        ctx.judge(r, q, "all checks passed", all(st.get(s, (False,))[0] for s in STEPS) if txs else False,
                  lambda: "runs without passing " + ", ".join(s for s in STEPS if not st.get(s, (False,))[0]), key="checks", relevant=VALUE)
    for t in txs:
        g = [x for x in t.args[1:] if isinstance(x, Node) and x.op != "at"]
        if len(g) != 4:
            ctx.judge(r, q, "transaction checked", None, "construction not understood", relevant=VALUE)
            continue
        c, i = flds(g[0]), flds(g[1])
        if not {"base_fee", "block_gas_limit", "chain_id", "evm_config", "is_transactional"} <= set(c) or not {"to", "input", "nonce", "gas_limit", "value", "access_list", "chain_id", "max_fee_per_gas", "max_priority_fee_per_gas", "gas_price"} <= set(i):
            ctx.judge(r, q, "transaction checked", None, "construction not understood", relevant=VALUE)
            continue
        chain = lambda n: n.op == "cfg" and n.args[0] == "ChainId"
        bf = c["base_fee"]
        checks = {
            "base fee": bf.op == "fld" and bf.args[1] == "0" and called("min_gas_price")(bf.args[0]),
            "block gas limit": c["block_gas_limit"].op == "cfg" and c["block_gas_limit"].args[0] == "BlockGasLimit",
            "own chain": chain(c["chain_id"]), "chain of transaction": some(i["chain_id"]) is not None and chain(some(i["chain_id"])),
            "configuration": c["evm_config"] is cfg, "transactional": c["is_transactional"] is istx,
            "target": (i["to"] is target or some(i["to"]) is target) if target is not None else i["to"].op == "variant:None",
            "input": strip(i["input"]) is inp, "gas limit": strip(i["gas_limit"]) is gas, "value": strip(i["value"]) is value, "access list": strip(i["access_list"]) is al,
            "max fee": optional(ctx, i["max_fee_per_gas"], mf), "max priority fee": optional(ctx, i["max_priority_fee_per_gas"], mp), "no gas price": i["gas_price"].op == "variant:None",
            "weight limit": optional(ctx, g[2], wl), "proof size": optional(ctx, g[3], psb)}
        for k, ok in checks.items():
            ctx.judge(r, q, k, ok, f"checked against another {k}", key=k, relevant=VALUE)
        n = strip(i["nonce"])
        gave = q.holds(mk("is", nonce, "Some"))
        ctx.judge(r, q, "nonce", (n.op == "payload" and n.args[0] is nonce) if gave else current(n, source) if gave is False else (n.op == "unwrap_or" and n.args[0] is nonce and current(strip(n.args[1]), source)) or (False if current(n, source) or n is nonce else None),
                  "the nonce checked is not the one given, nor without one the account's", key="nonce", relevant=VALUE)
    for s, (_, call) in st.items():
        for acc in [x for x in call.args[1:] if flds(x).keys() >= {"balance", "nonce"}]:
            f = flds(acc)
            ctx.judge(r, q, "account nonce", current(strip(f["nonce"]), source), "checked against another account's nonce", key="acc nonce", relevant=VALUE)
            ctx.judge(r, q, "balance in WETH", inweth(strip(f["balance"]), source), "the balance checked is not the sender's in WETH", key="acc balance", relevant=VALUE)
    if not q.p.ok and st and all(v[0] for v in st.values()) and len(st) == 3 and not find(q.node, lambda n: n.op == "errof"):
        ctx.judge(r, q, "passing transaction refused", None, "refused for another reason", relevant=VALUE)
    return st


def current(n, source):
    return called("account_nonce")(n) and any(account(x, source) for x in n.args if isinstance(x, Node))


def inweth(n, source):
    if n.op != "fld" or n.args[1] != "0" or not called("get_balance_in_currency")(n.args[0]):
        return False
    g = [x for x in n.args[0].args[1:] if isinstance(x, Node) and x.op != "at"]
    return len(g) == 2 and weth(strip(g[0])) and account(strip(g[1]), source)


def weth(n):
    if n.op == "cfg":
        return "Weth" in n.args[0]
    return n.op == "payload" and called("location_to_asset")(n.args[0]) or n.op == "payload" and called("next_asset_id")(n.args[0]) or num(n) == 2**32 - 1 or called("get")(n)


def runner(name):
    def go(ctx):
        r, qs = handler(ctx, RT, name, "WrapRunner")
        if r is None:
            return
        pos = AT[name]
        if r.arg(N[name] - 1) is None:
            ctx.und.append(f"{name}: arguments changed")
            return
        v = None if pos[10] is None else r.arg(pos[10])
        for q in qs:
            fwd = {x for y in [f for f, p in q.facts] + [q.node] + [a for e in q.eff for a in e.args if isinstance(a, Node)] for x in find(y, lambda n: n.op in ("call", "ext") and str(n.args[0]).replace(".", "::") == "R::" + name)}
            fwd |= {e for e in q.eff if e.kind in ("call", "ext") and str(e.name).replace(".", "::") == "R::" + name}
            asked = True if v is None else q.holds(v)
            if asked is None and (fwd or q.p.ok):
                ctx.judge(r, q, "validated when asked", False, "runs without looking at whether to validate", key="asked", relevant=VALUE)
                continue
            st = checked(ctx, r, q, pos) if asked or steps(q) else {}
            if asked is False:
                ctx.judge(r, q, "validated only when asked", not st, "validated although not asked to", key="asked", relevant=VALUE)
            if v is None:
                ctx.judge(r, q, "validation has no effect", not q.writes() and not q.flows(), "validation changes state", key="pure", relevant=VALUE)
                continue
            failed = [s for s, x in st.items() if not x[0]]
            ctx.judge(r, q, "refused when a check fails", not failed or (not fwd and not q.p.ok), lambda: f"runs although {failed} failed", key="refused", relevant=VALUE)
            if failed:
                continue
            if not fwd:
                ctx.judge(r, q, "handed on", False if q.p.ok else None, "succeeds without running", key="handed", relevant=VALUE)
                continue
            for x in fwd:
                g = [y for y in (x.args[1:] if isinstance(x, Node) else x.args) if isinstance(y, Node) and y.op != "at"]
                ok = len(g) == N[name] and all(strip(g[k]) is r.arg(k) if k != pos[10] else isF(g[k]) for k in range(N[name]))
                ctx.judge(r, q, "handed on as asked", ok, lambda: "handed on: " + "; ".join(show(y)[:40] for y in g), key="handed", relevant=VALUE)
            n = q.node
            ctx.judge(r, q, "result returned", bool(find(n, lambda z: z in fwd)), "the outcome is not the runner's", key="result", relevant=VALUE)
    return go


def wethid(ctx):
    r, qs = handler(ctx, RT, "get", "WethAssetId")
    for q in qs or []:
        look = [(f, p) for f, p in q.facts if f.op == "is" and f.args[1] == "Some" and called("location_to_asset")(f.args[0])]
        n = strip(q.node)
        if not look:
            ctx.judge(r, q, "looked up", None if n.op == "opaque" else False, "not the asset registered at a location", relevant=VALUE)
            continue
        f, p = look[0]
        ctx.judge(r, q, "asset at the location", n.op == "payload" and n.args[0] is f.args[0] if p else not find(n, lambda z: z is f.args[0]) and (n.op == "const" or bool(find(n, called("next_asset_id")))), lambda: "gives " + show(n)[:100], relevant=VALUE)


def nonceprovider(ctx):
    r, qs = handler(ctx, RT, "get_nonce", "EvmNonceProvider")
    for q in qs or []:
        n = strip(q.node)
        ok = n.op == "fld" and n.args[1] == "nonce" and n.args[0].op == "fld" and n.args[0].args[1] == "0" and called("account_basic")(n.args[0].args[0]) and any(strip(x) is r.arg(0) for x in n.args[0].args[0].args if isinstance(x, Node))
        ctx.judge(r, q, "nonce of the address", ok if not find(n, lambda z: z.op == "opaque") else None, lambda: "gives " + show(n)[:100], relevant=VALUE)


def evm(pid, tier):
    ctx = Ctx(pid, tier)
    g = guarded(lambda c, f: f(c))
    for nm in AT:
        g(ctx, runner(nm))
    g(ctx, wethid)
    g(ctx, nonceprovider)
    return ctx.done(RULE, ["the checks of CheckEvmTransaction and the wrapped runner do what Frontier documents"])
