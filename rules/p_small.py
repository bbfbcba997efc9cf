"""Smaller pallets: EVM account binding, claims, dusting, transaction pause, XCM rate limiting, collator rewards."""
from rules.p_guards import *
from vt.interp import tonode_

RULE = ("Every path of the named functions is evaluated over the parsed source; the required conditions, storage writes, currency movements and results must be exactly those stated.")


def fnpaths(ctx, pn, f, **kw):
    """all paths of a function, with their value as a node"""
    r = ctx.fn(pn, f, **kw)
    out = []
    if r is not None:
        for p in r.runs.paths:
            q = PP(r, p)
            q.node = tonode_(p.val)
            out.append(q)
    return r, out


def setsonly(ctx, r, q, *items):
    """no other storage item is written"""
    for e in q.writes():
        ctx.judge(r, q, "writes", e.name in items, lambda: f"unexpected write of {e.name}", eff=e)


def wantflows(ctx, r, q, g, specs, **kw):
    settle(ctx, r, q, g, specs, **kw)


# for a comparison of values: no condition elsewhere on the path can repair it
VALUE = (mk("const", "none"),)


def isT(n):
    return n.op == "const" and str(n.args[0]).lower() == "true"


def isF(n):
    return n.op == "const" and str(n.args[0]).lower() == "false"


# ------------------------------------------------------------------------------------------------------- EVM accounts
def num(n):
    return n.args[0] if n.op == "const" and isinstance(n.args[0], int) else None


def cells(n, length):
    """byte layout of a value: list of ints (constant bytes) or (node, index); None when unknown"""
    if n.op in ("call", "m") and len(n.args) >= 2 and str(n.args[0]).split("::")[-1] in ("from", "from_slice", "into", "as_ref", "clone", "to_vec", "as_bytes", "as_fixed_bytes", "to_fixed_bytes"):
        return cells(n.args[1], length)
    if n.op == "struct:H160:0" or n.op.startswith("struct:") and n.op.endswith(":0") and len(n.args) == 1:
        return cells(n.args[0], length)
    if n.op == "fld" and n.args[1] == "0":
        return cells(n.args[0], length)
    if n.op == "const" and str(n.args[0]).startswith("b["):
        return [int(x) for x in str(n.args[0])[2:-1].split(",") if x.strip()]
    if n.op == "repeat":
        v, c = num(n.args[0]), num(n.args[1])
        return [v] * c if v is not None and c is not None else None
    if n.op == "bytes":
        return list(n.args[0])
    if n.op == "b":
        return [num(x) if isinstance(x, Node) else x for x in n.args]
    if n.op in ("slice", "idx") and isinstance(n.args[1], Node) and n.args[1].op == "range":
        a, b = num(n.args[1].args[0]), num(n.args[1].args[1])
        if n.args[1].args[2] and b is not None:
            b += 1
        if a is None:
            return None
        base = cells(n.args[0], b if b is not None else (a + length if length is not None else None))
        return base[a:b] if base is not None else None
    if n.op == "upd" and n.args[1].op == "range":
        base = cells(n.args[0], length)
        if base is None:
            return None
        a, b = num(n.args[1].args[0]), num(n.args[1].args[1])
        if n.args[1].args[2] and b is not None:
            b += 1
        b = len(base) if b is None else b
        if a is None:
            return None
        v = cells(n.args[2], b - a)
        if v is None or len(v) < b - a:
            return None
        return base[:a] + v[:b - a] + base[b:]
    if n.op == "mut" and n.args[0] in ("copy_from_slice", "clone_from_slice"):
        return cells(n.args[2], length)
    if n.op in ("var", "signer", "payload", "arg", "st", "fld", "ext") and length is not None:
        return [(n, k) for k in range(length)]
    return None


def literal(n):
    c = cells(n, None)
    return c if c is not None and all(isinstance(x, int) for x in c) else None


@guarded
def evm_layout(ctx):
    r, qs = fnpaths(ctx, "evm-accounts", "evm_address")
    for q in qs:
        a = r.arg(0)
        c = cells(q.node, 20)
        ok = None if c is None else c == [(a, k) for k in range(20)]
        ctx.judge(r, q, "address of an account", ok, "the EVM address of an account is not its first 20 bytes")
    r, qs = fnpaths(ctx, "evm-accounts", "truncated_account_id")
    for q in qs:
        a = r.arg(0)
        c = cells(q.node, 32)
        ok = None if c is None else c == [69, 84, 72, 0] + [(a, k) for k in range(20)] + [0] * 8
        ctx.judge(r, q, "truncated account", ok, "the account of an unbound EVM address is not 'ETH\\0', the address and eight zero bytes")
    r, qs = fnpaths(ctx, "evm-accounts", "bound_account_id")
    for q in qs:
        a = r.arg(0)
        g = G(r, q)
        S = ST("AccountExtension", a)
        if g.some(S):
            n = q.node.args[0] if q.node.op == "variant:Some" else None
            c = cells(n, 32) if n is not None else None
            x = c[20] if c is not None and len(c) == 32 else None
            ok = None if c is None else len(c) == 32 and c[:20] == [(a, k) for k in range(20)] and isinstance(x, tuple) and match(x[0], PL(S)) and c[20:] == [(x[0], k) for k in range(12)]
            ctx.judge(r, q, "bound account", ok, "the account bound to an EVM address is not the address followed by the 12 bytes stored for it")
        else:
            ctx.judge(r, q, "unbound address", q.node.op == "variant:None", "an account is reported as bound to an address that is not bound")
    r, qs = fnpaths(ctx, "evm-accounts", "account_id")
    r2, bs = fnpaths(ctx, "evm-accounts", "bound_account_id")
    r3, ts = fnpaths(ctx, "evm-accounts", "truncated_account_id")
    if r is None or r2 is None or r3 is None:
        return
    bound = {q.node.args[0] for q in bs if q.node.op == "variant:Some"}
    trunc = {q.node for q in ts}
    for q in qs:
        g = G(r, q)
        b = g.some(ST("AccountExtension", r.arg(0)))
        ctx.judge(r, q, "account of an address", q.node in (bound if b else trunc), "the account of an EVM address is not the bound one if bound and the truncated one otherwise")
    r, qs = fnpaths(ctx, "evm-accounts", "is_evm_account")
    for q in qs:
        a = r.arg(0)
        if not isT(q.node) and not isF(q.node):
            ctx.undecided(r, "recognised accounts", "answer not decided by comparisons")
            continue
        yes = isT(q.node)
        eqs = []
        for n, p in q.facts:
            if n.op == "eq" and p:
                x, y = n.args
                lx, ly = literal(x), literal(y)
                s, l = (y, lx) if lx is not None else (x, ly)
                c = cells(s, len(l)) if l is not None else None
                if c is None:
                    continue
                eqs += [(k[1], v) for k, v in zip(c, l) if isinstance(k, tuple) and k[0] is a]
        want = {(k, v) for k, v in enumerate([69, 84, 72, 0])} | {(k, 0) for k in range(24, 32)}
        if yes:
            ctx.judge(r, q, "recognised accounts", set(eqs) == want, "an account that is not a truncated EVM account is recognised as one (or not all of its marker bytes are compared)")
        else:
            ctx.judge(r, q, "recognised accounts", set(eqs) != want, "a truncated EVM account is not recognised")


@guarded
def evm_bind(ctx):
    r = ctx.fn("evm-accounts", "bind_evm_address")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        ws = q.writes("AccountExtension")
        ctx.judge(r, q, "binding stored", len(ws) == 1, f"{len(ws)} bindings are stored")
        for e in ws:
            k, v = e.args[0], e.args[-1]
            ck, cv = cells(k, 20), cells(v, 12)
            ctx.judge(r, q, "bound address", None if ck is None else ck == [(g.who, i) for i in range(20)], lambda: f"the address bound is {show(k)[:120]}", eff=e)
            ctx.judge(r, q, "bound bytes", None if cv is None else cv == [(g.who, i) for i in range(20, 32)], lambda: f"the bytes stored for the address are {show(v)[:120]}, not the caller's last 12", eff=e)
            ctx.judge(r, q, "not bound yet", g.none(lambda n: n.op == "st" and strip(n) is strip(mk("st", "AccountExtension", k))), "an address can be bound again", relevant=(k,))
            ctx.judge(r, q, "unused address", g.eq(0, X("EvmNonceProvider.get_nonce", k)), "an address that has already been used can be bound", relevant=(k,))
        setsonly(ctx, r, q, "AccountExtension")
    for f, own in (("add_contract_deployer", False), ("remove_contract_deployer", False), ("renounce_contract_deployer", True)):
        r = ctx.fn("evm-accounts", f)
        for q in (r.paths if r is not None else ()):
            g = G(r, q)
            ws = q.writes("ContractDeployer")
            ctx.judge(r, q, "deployer stored", len(ws) == 1, f"{len(ws)} deployer entries change")
            for e in ws:
                k, v = e.args[0], e.args[-1]
                if own:
                    c = cells(k, 20)
                    ctx.judge(r, q, "own address", None if c is None else c == [(g.who, i) for i in range(20)], "someone else's permission is renounced", eff=e)
                else:
                    ctx.judge(r, q, "given address", k is g.a(0), "the permission of another address changes", eff=e)
                ctx.judge(r, q, "permission", (v.op == "removed") == (f != "add_contract_deployer"), f"{f} {'removes' if v.op == 'removed' else 'sets'} the permission", eff=e)
            setsonly(ctx, r, q, "ContractDeployer")
    r, qs = fnpaths(ctx, "evm-accounts", "can_deploy_contracts")
    S = ST("ContractDeployer", r.arg(0)) if r is not None else None
    for q in qs:
        g = G(r, q)
        ok = match(q.node, ("is", S, "Some")) or isT(q.node) and g.some(S) or isF(q.node) and g.none(S)
        ctx.judge(r, q, "may deploy", ok, "an address may deploy contracts although it is not in the list (or the reverse)")


def evm(pid, tier):
    ctx = Ctx(pid, tier)
    evm_layout(ctx)
    evm_bind(ctx)
    return ctx.done(RULE)


# ------------------------------------------------------------------------------------------------------------- claims
@guarded
def claim(ctx):
    r = ctx.fn("claims", "claim")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        pays = [e for e in q.eff if e.kind == "ext" and e.name.startswith("Currency.deposit")]
        ctx.judge(r, q, "paid once", len(pays) == 1 and len([f for f in q.flows() if f.eff.name != "Currency.zero"]) == 1, f"{len(pays)} payments are made")
        for e in pays:
            st = e.args[-1]
            ctx.judge(r, q, "payee", e.args[0] is g.who, "the claim is paid to someone else", eff=e)
            ok = st.op == "st" and str(st.args[0]) == "Claims"
            ctx.judge(r, q, "amount", ok, lambda: f"the amount paid is {show(st)[:120]}, not the recorded claim", eff=e)
            if not ok:
                continue
            key = st.args[1]
            rec = find(key, lambda z: z.op == "call" and "secp256k1_ecdsa_recover" in str(z.args[0]))
            ctx.judge(r, q, "signer", bool(rec) and all(has(z.args[1], g.a(0)) for z in rec), "the claimed address is not recovered from the signature", eff=e)
            for z in rec:
                msg = z.args[2] if len(z.args) > 2 else None
                if msg is not None:
                    ctx.judge(r, q, "signed message", touches(msg, mk("cfg", "Prefix")), "the signed message does not contain the configured prefix", eff=e)
            ws = q.writes("Claims")
            ctx.judge(r, q, "claim cleared", any(w.args[0] is key and (w.args[-1].op == "removed" or num(w.args[-1]) == 0) for w in ws) and ws[-1].args[0] is key, "the paid claim stays recorded", eff=e)
            ctx.judge(r, q, "claim exists", q.fact(lambda n, p: n.op == "eq" and not p and any(strip(x) is strip(st) for x in n.args) and any(num(x) == 0 for x in n.args)) is not None, "an empty claim can be claimed", relevant=(st,))
        setsonly(ctx, r, q, "Claims")


def claims(pid, tier):
    ctx = Ctx(pid, tier)
    claim(ctx)
    return ctx.done(RULE)


# ------------------------------------------------------------------------------------------------------------- duster
@guarded
def dust(ctx):
    r = ctx.fn("duster", "dust_account")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        a, c = g.a(0), g.a(1)
        T = X("MultiCurrency.total_balance", c, a)
        ctx.judge(r, q, "not exempt", g.none(ST("AccountBlacklist", a)), "an account exempt from dusting can be dusted", relevant=(a,))
        ctx.judge(r, q, "below the deposit", g.lt(T, X("MinCurrencyDeposits.get", c)), "an account with at least the existential deposit can be dusted", relevant=(a,))
        D = PL(ST("DustAccount"))
        fl = q.flows()
        mine = [f for f in fl if f.src is a]
        ctx.judge(r, q, "dust moved", len(mine) == 1, f"{len(mine)} movements from the dusted account")
        for f in mine:
            ok = (f.asset is c) and match(f.amount, T) and f.dst is not None and match(f.dst, D)
            ctx.judge(r, q, "dust movement", ok, lambda: f"{show(f.amount)[:80]} of {show(f.asset)[:40]} moves from the dusted account to {show(f.dst)[:60] if f.dst else 'nothing'}", eff=f.eff)
            ctx.judge(r, q, "dust required", q.certain(f.eff), "the dusting succeeds although nothing was moved", eff=f.eff)
        for f in fl:
            if f in mine:
                continue
            ok = f.src is not None and match(f.src, PL(ST("RewardAccount"))) and f.dst is g.who and match(f.asset, CFG("NativeCurrencyId")) and match(f.amount, CFG("Reward"))
            ctx.judge(r, q, "reward", ok, lambda: f"unexpected movement of {show(f.amount)[:60]} from {show(f.src)[:60] if f.src else 'nothing'}", eff=f.eff)
        setsonly(ctx, r, q)
    for f, v in (("add_nondustable_account", False), ("remove_nondustable_account", True)):
        r = ctx.fn("duster", f)
        for q in (r.paths if r is not None else ()):
            g = G(r, q)
            ws = q.writes("AccountBlacklist")
            ctx.judge(r, q, "exemption", len(ws) == 1 and ws[0].args[0] is g.a(0) and (ws[0].args[-1].op == "removed") == v, f"{f} does not {'remove' if v else 'add'} the given account's exemption")
            if v:
                ctx.judge(r, q, "was exempt", g.some(ST("AccountBlacklist", g.a(0))), "an exemption that does not exist can be removed", relevant=(g.a(0),))
            setsonly(ctx, r, q, "AccountBlacklist")
    r, qs = fnpaths(ctx, "duster", "on_dust")
    for q in qs:
        for f in q.flows():
            # (who, currency_id, amount)
            a, c, n = [mk("var", p[1]) for p, t in r.fn.params[:3]]
            ok = f.src is a and f.asset is c and f.amount is n and f.dst is not None and match(f.dst, PL(ST("DustAccount")))
            ctx.judge(r, q, "dust of a reaped account", ok, "the dust of an account is not moved to the dust account", eff=f.eff)


def duster(pid, tier):
    ctx = Ctx(pid, tier)
    dust(ctx)
    return ctx.done(RULE)


# -------------------------------------------------------------------------------------------------------------- pause
@guarded
def pause(ctx):
    name = lambda x: PL(("call", "_", x))

    def key(g):
        return lambda n: n.op == "tuple" and len(n.args) == 2 and has(n.args[0], g.a(0)) and has(n.args[1], g.a(1)) and not has(n.args[0], g.a(1)) and not has(n.args[1], g.a(0))
    r = ctx.fn("transaction-pause", "pause_transaction")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        own = any(not p and n.op == "eq" and any(has(x, g.a(0)) for x in n.args) and any(has(x, lambda z: "name" in str(z.args[:1]) and z.op in ("call", "ext", "m", "fn")) and not has(x, g.a(0)) for x in n.args) for n, p in q.facts)
        ctx.judge(r, q, "own calls", own, "the calls of the pause pallet itself can be paused", relevant=(g.a(0),))
        ws = q.writes("PausedTransactions")
        known = any(n.op == "is" and n.args[0].op == "st" and str(n.args[0].args[0]) == "PausedTransactions" and (n.args[1] == "Some") == p for n, p in q.facts)
        ctx.judge(r, q, "paused", known or len(ws) == 1 and key(g)(ws[0].args[0]) and ws[0].args[-1].op != "removed", "the call is not recorded as paused under its pallet and function name", relevant=VALUE)
        setsonly(ctx, r, q, "PausedTransactions")
    r = ctx.fn("transaction-pause", "unpause_transaction")
    for q in (r.paths if r is not None else ()):
        g = G(r, q)
        ws = q.writes("PausedTransactions")
        gone = any(n.op == "is" and n.args[0].op == "st" and str(n.args[0].args[0]) == "PausedTransactions" and (n.args[1] == "Some") != p for n, p in q.facts)
        ctx.judge(r, q, "unpaused", gone and not ws or len(ws) == 1 and key(g)(ws[0].args[0]) and ws[0].args[-1].op == "removed", "the call stays paused", relevant=VALUE)
        setsonly(ctx, r, q, "PausedTransactions")
    r, qs = fnpaths(ctx, "transaction-pause", "contains")
    for q in qs:
        c = r.arg(0)

        def k(n):
            return n.op == "tuple" and len(n.args) == 2 and all(has(n.args[i], lambda z: z.op == "fld" and z.args[1] == f and has(z.args[0], c)) for i, f in ((0, "pallet_name"), (1, "function_name")))
        g = G(r, q)
        S = ("st", "PausedTransactions", k)
        short = any(n.op == "is" and n.args[0].op in ("call", "m") and (n.args[1] == "Ok" and not p or n.args[1] == "Err" and p) for n, p in q.facts)
        ok = match(q.node, ("is", S, "Some")) or q.node.op == "stexists" and match(mk("st", *q.node.args), S) or isT(q.node) and g.some(S) or isF(q.node) and (g.none(S) or short)
        ctx.judge(r, q, "filter", ok, lambda: f"the filter answers {show(q.node)[:160]}, not whether the call's pallet and function are paused")


def tx_pause(pid, tier):
    ctx = Ctx(pid, tier)
    pause(ctx)
    return ctx.done(RULE)


# -------------------------------------------------------------------------------------------------------- XCM limiter
def loopinfo(r, lid):
    return next((x for x in r.runs.it.loops_seen if x["lid"] == lid), None)


def loopsteps(r, n):
    """(phi node, [node after one iteration]) of a loop-carried value loopout(L, k)"""
    i = loopinfo(r, str(n.args[0]))
    if i is None:
        return None
    k = n.args[1]
    sl = i["slots"][k]
    return tonode_(i["phi"][k]), [(x, tonode_(r.runs.it.force(x.store[sl], x))) for x in i["ends"]], tonode_(i["init"][k])


@guarded
def xcm(ctx):
    r, qs = fnpaths(ctx, "xcm-rate-limiter", "deferred_by")
    for q in qs:
        g = G(r, q)
        out = q.node.args[1] if q.node.op == "tuple" else None
        ver = [n for n, p in q.facts if n.op == "is" and n.args[0].op == "m" and n.args[0].args[0] == "into_version"]
        if any((n, True) not in q.facts and n.args[1] == "Ok" or (n, True) in q.facts and n.args[1] == "Err" for n in ver):
            ctx.judge(r, q, "unknown version", out is not None and out.op == "variant:Some" and match(out.args[0], CFG("MaxDeferDuration")), "a message of an unknown version is not deferred for the maximum duration")
            ctx.judge(r, q, "writes", not q.writes(), "a message of an unknown version changes the accumulated amounts")
            continue
        ws = q.writes("AccumulatedAmounts")
        for e in ws:
            loc, v = e.args[0], fields(e.args[-1])
            if set(v) != {"amount", "last_updated"}:
                ctx.undecided(r, "record", "record not built field by field")
                continue
            old = ST("AccumulatedAmounts", loc)
            now = X("RelayBlockNumberProvider.current_block_number")
            asset = PL(X("CurrencyIdConvert.convert", loc))
            lim = PL(X("RateLimitFor.get", asset))
            amt = loc.args[0] if loc.op == "fld" else None
            A = mk("fld", amt, "1") if amt is not None else "_"
            upd = lambda n: n is mk("fld", amt, "1") if amt is not None else True
            # the evaluator keeps time - last as satsub or, where ordered, as a difference
            diff = lambda n: n.op in ("satsub", "sub") and match(n.args[0], now) and match(n.args[1], F(old, "last_updated")) or matchlin(lin(n), [(1, now), (-1, F(old, "last_updated"))]) or num(n) == 0
            ok = match(v["amount"], C("calculate_new_accumulated_amount", CFG("DeferDuration"), lim, lambda n: n.op == "fld" and (amt is None or n.args[0] is amt), F(old, "amount"), diff))
            ctx.judge(r, q, "accumulated amount", ok, lambda: f"the accumulated amount becomes {show(v['amount'])[:200]}", eff=e, relevant=VALUE)
            ctx.judge(r, q, "update time", match(v["last_updated"], now), "the accumulated amount is not stamped with the current relay chain block", eff=e, relevant=VALUE)
        # the deferral covers every asset: the carried duration only grows and takes in each computed one
        los = {x for n, p in q.facts for x in find(n, lambda z: z.op == "loopout")} | set(find(out, lambda z: z.op == "loopout") if out is not None else [])
        for lo in los:
            s = loopsteps(r, lo)
            if s is None or not any(has(n, lambda z: z.op == "call" and "calculate_deferred_duration" in str(z.args[0])) for x, n in s[1]):
                continue
            phi, steps, init = s
            ctx.judge(r, q, "starts at nothing", num(init) == 0, "a message is deferred without reason", relevant=VALUE)
            for x, n in steps:
                wr = [d for d in flatten(x.eff) if d.kind in ("write", "set") and d.name == "AccumulatedAmounts"]
                # was this asset's deferral computed in this iteration?
                own = [w for w in wr if any(str(z) for z in [w])]
                if n is phi:
                    lim_missing = any(y.op == "is" and not p and y.args[1] == "Some" and y.args[0].op == "ext" and str(y.args[0].args[0]) in ("CurrencyIdConvert.convert", "RateLimitFor.get") or
                                      y.op == "is" and p and y.args[1] == "None" for y, p in x.facts)
                    ctx.judge(r, q, "skipped only without limit", lim_missing, "an asset with a rate limit is not counted", relevant=VALUE)
                    continue
                ok = n.op == "max" and phi in n.args and any(match(z, C("calculate_deferred_duration", CFG("DeferDuration"), PL(X("RateLimitFor.get", "_")), C("calculate_new_accumulated_amount", ...))) for z in n.args) and len(n.args) == 2
                ctx.judge(r, q, "deferral", ok, lambda: f"the deferral after one more asset is {show(n)[:200]}, not the larger of the two", relevant=VALUE)
            pos = g.lt(0, lo)
            if pos:
                ok = out is not None and out.op == "variant:Some" and out.args[0].op == "min" and len(out.args[0].args) == 2 and lo in out.args[0].args and any(match(z, CFG("MaxDeferDuration")) for z in out.args[0].args)
                ctx.judge(r, q, "result", ok, lambda: f"the message is deferred by {show(out)[:160]}, not by the computed duration capped at the maximum", relevant=VALUE)
            else:
                ctx.judge(r, q, "result", out is not None and out.op == "variant:None", "a message is deferred although no limit is exceeded", relevant=VALUE)


@guarded
def xcm_assets(ctx):
    r, qs = fnpaths(ctx, "xcm-rate-limiter", "get_locations_and_amounts")
    if r is None:
        return
    covered = set()
    KINDS = {"ReserveAssetDeposited", "ReceiveTeleportedAsset"}
    for q in qs:
        kinds = {str(n.args[1]) for n, p in q.facts if n.op == "is" and p} & KINDS
        empty = q.node.op == "empty" or q.node.op == "call" and str(q.node.args[0]).endswith("Vec::new")
        if kinds:
            ctx.judge(r, q, "arriving assets", not empty, "the assets of an arriving transfer are not rate limited")
        if not empty:
            covered |= kinds
    if qs:
        ctx.judge(r, qs[0], "both ways of arriving", covered == KINDS, lambda: f"assets arriving by {', '.join(sorted(KINDS - covered))} are not rate limited", relevant=VALUE)


def xcm_limit(pid, tier):
    ctx = Ctx(pid, tier)
    xcm(ctx)
    xcm_assets(ctx)
    return ctx.done(RULE)


# -------------------------------------------------------------------------------------------------------- collators
@guarded
def collators(ctx):
    r, qs = fnpaths(ctx, "collator-rewards", "end_session")
    for q in qs:
        idx = r.arg(0) or mk("var", r.fn.params[0][0][1])
        C_ = ST("Collators", idx)
        ws = q.writes("Collators")
        ctx.judge(r, q, "session consumed", len(ws) == 1 and ws[0].args[0] is idx and ws[0].args[-1].op == "removed", "the collators of a session can be rewarded again")
        ctx.judge(r, q, "manager told", any(e.args[0] is idx for e in q.ext("SessionManager.end_session")), "the wrapped session manager is not told of the end of the session")
        ds = [f for f in q.flows()]
        ctx.judge(r, q, "rewards paid", bool(ds) and all(f.eff.loop for f in ds), "collators are not each rewarded")
        for f in ds:
            ok = f.src is None and match(f.asset, CFG("RewardCurrencyId")) and match(f.amount, CFG("RewardPerCollator")) and f.dst is not None and match(f.dst, ("idx", C_, "_"))
            ctx.judge(r, q, "reward", ok, lambda: f"a reward of {show(f.amount)[:60]} {show(f.asset)[:60]} goes to {show(f.dst)[:80] if f.dst is not None else 'nothing'}", eff=f.eff)
            if f.dst is not None:
                ex = any(not p and n.op == "m" and n.args[0] == "contains" and f.dst in n.args and match(n.args[1], CFG("ExcludedCollators")) for n, p in f.eff.facts) or \
                    any(p and n.op == "not" and match(n.args[0], ("m", "contains", CFG("ExcludedCollators"), f.dst)) for n, p in f.eff.facts) or any(not p and match(n, X("ExcludedCollators.contains", f.dst)) for n, p in f.eff.facts)
                ctx.judge(r, q, "excluded", ex, "an excluded collator is rewarded", relevant=(), eff=f.eff)
    r, qs = fnpaths(ctx, "collator-rewards", "new_session")
    for q in qs:
        idx = mk("var", r.fn.params[0][0][1])
        M = X("SessionManager.new_session", idx)
        g = G(r, q)
        ws = q.writes("Collators")
        if q.node.op == "variant:None":
            ctx.judge(r, q, "recorded", not ws, "collators of a session that does not start are recorded")
            continue
        ctx.judge(r, q, "manager's choice", match(q.node, M) or q.node.op == "variant:Some" and match(q.node.args[0], PL(M)), "the collators of the session are not those the session manager chose")
        if g.some(M) or q.node.op == "variant:Some":
            ctx.judge(r, q, "recorded", len(ws) == 1 and ws[0].args[0] is idx and has(ws[0].args[-1], lambda z: match(z, M)), "the collators of the new session are not recorded for their reward")
        else:
            ctx.judge(r, q, "recorded", not ws, "collators are recorded for a session without new collators")


def collator_rewards(pid, tier):
    ctx = Ctx(pid, tier)
    collators(ctx)
    return ctx.done(RULE)
