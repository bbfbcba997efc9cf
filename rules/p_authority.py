"""Who the runtime lets act with more than a signature: scheduled calls, payouts, vesting, self-contained calls, exemptions."""
from rules.p_evmfee import called, handler
from rules.p_small import *
from vt.pallet import tyname

VALUE = ("free_balance",)
RT = "runtime/hydradx"
RULE = ("Every path of the functions is evaluated; the condition under which each result is given (root, council members, Ethereum call, listed account) and the account, amount and origin used are compared with the specification.")


def nonempty(ctx, r, qs, title, ok, msg):
    if qs:
        ctx.judge(r, qs[0], title, ok, msg, relevant=VALUE)


def privilege(ctx):
    r, qs = handler(ctx, RT, "cmp_privilege", "OriginPrivilegeCmp")
    if not qs:
        return
    a, b = r.arg(0), r.arg(1)
    seen = set()
    for q in qs:
        n = q.node
        same = q.holds(mk("eq", a, b)) or q.holds(mk("eq", b, a))
        if n.op != "variant:Some":
            continue
        v = strip(n.args[0])
        root = {x for x in (a, b) for f, p in q.facts if p and f.op == "is" and f.args[1] == "Root" and find(f, lambda z: z is x)}
        sysm = {x for x in (a, b) for f, p in q.facts if p and f.op == "is" and f.args[1] == "system" and f.args[0] is x}
        if v.op == "variant:Equal":
            seen.add("Equal")
            ctx.judge(r, q, "equal only if the same", bool(same) or root == {a, b} == sysm, "different origins are taken for equal", relevant=VALUE)
        elif v.op == "variant:Greater":
            seen.add("Greater")
            ctx.judge(r, q, "only root is above others", a in root and a in sysm, "an origin other than root is taken for more privileged", relevant=VALUE)
        elif v.op == "variant:Less":
            ctx.judge(r, q, "only root is above others", b in root and b in sysm, "an origin is taken for less privileged than one other than root", relevant=VALUE)
        elif v.op == "cmp":
            mem = {x for x in (a, b) for f, p in q.facts if p and f.op == "is" and f.args[1] == "Members" and find(f, lambda z: z.op == "vfld" and z.args[1] == "Council" and z.args[0] is x)}
            part = lambda x, i: mk("vfld", mk("vfld", x, "Council", "0"), "Members", i)
            l, g = [lin(strip(x)) for x in v.args]
            ctx.judge(r, q, "council members only", mem == {a, b}, "origins other than the council's members are compared by votes", relevant=VALUE)
            m = lambda x, y: {frozenset((part(x, "0"), part(y, "1")))}
            p1, p2 = [frozenset(strip(x).args) if strip(x).op == "mul" else None for x in v.args]
            ok = p1 == frozenset((part(a, "0"), part(b, "1"))) and p2 == frozenset((part(b, "0"), part(a, "1")))
            ctx.judge(r, q, "share of yes votes", ok, lambda: f"compared by {show(v)[:150]}", relevant=VALUE)
            seen.add("votes")
        else:
            ctx.judge(r, q, "ordering", None, lambda: f"result {show(v)[:100]}")
    nonempty(ctx, r, qs, "same origin, root and larger council share suffice", seen >= {"Equal", "Greater", "votes"}, f"only {sorted(seen)} results are possible")


def payout(ctx):
    r, qs = handler(ctx, RT, "pay", "PayFromTreasuryAccount")
    for q in qs or []:
        moves = [e for e in q.eff if e.kind in ("call", "ext", "xcall") and str(e.name).replace(".", "::").split("::")[-1] in ("transfer", "withdraw", "deposit", "mint_into", "burn_from", "slash", "set_balance")]
        if q.node.op == "variant:Err":
            continue
        if not ctx.judge(r, q, "one payment", len(moves) == 1 and moves[0].name.endswith("transfer"), lambda: f"pays by {[e.name for e in moves]}", relevant=VALUE):
            continue
        e = moves[0]
        xs = [strip(x) for x in e.args if isinstance(x, Node)]
        ctx.judge(r, q, "paid by the treasury", called("get")(xs[0]) and str(xs[0].args[0]).startswith("TreasuryAccount"), lambda: f"paid by {show(xs[0])[:80]}", relevant=VALUE, eff=e)
        ctx.judge(r, q, "paid to the beneficiary", xs[1] is r.arg(0), lambda: f"paid to {show(xs[1])[:80]}", relevant=VALUE, eff=e)
        ctx.judge(r, q, "the amount granted", xs[2] is r.arg(2), lambda: f"pays {show(xs[2])[:80]}", relevant=VALUE, eff=e)
        done = any(f.op == "is" and f.args[0].op in ("call", "ext", "m") and str(f.args[0].args[0]).endswith("transfer") and p == (f.args[1] == "Ok") for f, p in q.facts)
        ctx.judge(r, q, "reported only if paid", done or called("transfer")(strip(q.node)), "the payout is reported as made although the transfer failed", relevant=VALUE)


def vesting(ctx):
    r, qs = handler(ctx, RT, "try_origin", "RootAsVestingPallet")
    if not qs:
        return
    o = r.arg(0)
    root = lambda q: next((p for f, p in q.facts if f.op == "is" and f.args[1] == "Root" and find(f, lambda z: z is o)), None)
    for q in qs:
        if q.node.op == "variant:Ok":
            ctx.judge(r, q, "root only", root(q) is True, "an origin other than root may grant vested transfers", relevant=VALUE)
            v = strip(q.node.args[0])
            ctx.judge(r, q, "from the vesting account", "into_account_truncating" in show(v) and bool(find(v, lambda z: z.op == "call" and "VestingPalletId" in str(z.args[0]))), lambda: f"vested from {show(v)[:90]}", relevant=VALUE)
    nonempty(ctx, r, qs, "root may", any(q.node.op == "variant:Ok" for q in qs), "root may not grant vested transfers")


def contained(ctx):
    for name in ("is_self_contained", "check_self_contained", "validate_self_contained", "pre_dispatch_self_contained", "apply_self_contained"):
        r, qs = handler(ctx, RT, name, "RuntimeCall")
        if not qs:
            continue
        me = r.arg(0)
        rest = [r.arg(k) for k in range(1, len(r.fn.params))]
        inner = mk("vfld", me, "Ethereum", "0")
        some = False
        for q in qs:
            eth = q.holds(mk("is", me, "Ethereum"))
            n = strip(q.node)
            if n.op == "variant:None" or isF(n):
                if eth is True and name != "apply_self_contained":
                    ctx.judge(r, q, "Ethereum calls", False, "an Ethereum call is not handled as one", relevant=VALUE)
                continue
            if not ctx.judge(r, q, "Ethereum calls only", eth is True, f"{name} accepts a call other than an Ethereum one", relevant=VALUE):
                continue
            some = True
            if name == "apply_self_contained":
                tr = q.holds(mk("is", inner, "transact"))
                ctx.judge(r, q, "transactions only", tr is True, "an Ethereum call other than a transaction is executed unsigned", relevant=VALUE)
                ds = [e for e in q.eff if e.kind == "method" and e.name == "dispatch"]
                if len(ds) != 1:
                    ctx.judge(r, q, "executed once", None, "dispatch not recognised")
                    continue
                d = find(n, lambda z: z.op == "m" and z.args[0] == "dispatch")
                ok = d and d[0].args[1] is me
                o = find(d[0], lambda z: called("EthereumTransaction")(z) or z.op == "variant:EthereumTransaction") if d else []
                ctx.judge(r, q, "executed as the signer of the transaction", bool(ok and o and any(strip(x) is rest[0] for x in o[0].args if isinstance(x, Node))), lambda: f"executed as {show(n)[:140]}", relevant=VALUE)
            else:
                while n.op in ("payload", "errof", "variant:Ok", "variant:Err", "variant:Some"):
                    n = strip(n.args[0])
                ok = n.op in ("m", "call", "ext") and str(n.args[0]).split("::")[-1] == name
                asked = ok or any(str(e.name).split("::")[-1] == name for e in q.eff)
                ctx.judge(r, q, "checked by the Ethereum pallet", False if not asked else None if not ok and num(n) is None and not isT(n) else ok and [strip(x) for x in n.args[1:] if isinstance(x, Node)] == [inner] + rest, lambda: f"{name} gives {show(n)[:120]}", relevant=VALUE)
        nonempty(ctx, r, qs, "Ethereum calls", some, f"{name} accepts no call")


def exempt(ctx):
    for me, sides in (("OracleWhitelist", ("pallet_asset_registry::OracleWhitelist", "pallet_ema_oracle::OracleWhitelist")), ("DustRemovalWhitelist", ("list", "DusterWhitelist"))):
        r, qs = handler(ctx, RT, "contains", me)
        for q in qs or []:
            x = r.arg(0)
            n = strip(q.node)
            st = dict.fromkeys(sides)

            def side(f):
                f = strip(f)
                for s in sides:
                    if s == "list" and f.op == "contains" and f.args[0].op == "list" and f.args[1] is x:
                        need = ("TreasuryPalletId", "VestingPalletId", "ReferralsPalletId", "BondsPalletId")
                        miss = [k for k in need if k not in show(f.args[0])]
                        ctx.judge(r, q, "module accounts", not miss, f"accounts of {miss} are not spared", relevant=VALUE)
                        return s
                    if s != "list" and called("contains")(f) and s in str(f.args[0]) and any(strip(y) is x for y in f.args[1:] if isinstance(y, Node)):
                        return s
                return None
            for f, p in list(q.facts):
                s = side(f)
                if s:
                    st[s] = p
            flat = [n] if n.op != "or" else list(n.args)
            if isT(n):
                ctx.judge(r, q, "listed", any(v is True for v in st.values()), f"{me}: an account or pair on no list is exempted", relevant=VALUE)
            elif isF(n):
                ctx.judge(r, q, "listed", all(v is False for v in st.values()), f"{me}: a listed account or pair is not exempted", relevant=VALUE)
            else:
                got = [side(y) for y in flat]
                left = {s for s in sides if st[s] is not False}
                ctx.judge(r, q, "listed", None if None in got else {*got} == left, lambda: f"{me}: exempted if {show(n)[:120]}", relevant=VALUE)


def authority(pid, tier):
    ctx = Ctx(pid, tier)
    g = guarded(lambda c, f: f(c))
    for f in (privilege, payout, vesting, contained, exempt):
        g(ctx, f)
    return ctx.done(RULE, ["paths giving no ordering are kept once: that root or a larger share always suffices is decided only as possible"])
