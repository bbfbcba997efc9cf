"""Asset locations, account locations and reserves as other chains name them."""
from rules.p_evmfee import called, handler, same
from rules.p_small import *
from vt.pallet import tyname

VALUE = ("free_balance",)
RT = "runtime/hydradx"
RULE = ("Every path of the conversions is evaluated: which location an asset is given, which asset a location is taken for, which account an Ethereum-style location owns, and which reserves are trusted are compared with the "
        "specification.")


def impls(ctx, name, me, first):
    """the impl of a method for a type, by the type of its argument"""
    out = []
    for f in ctx.pallet(RT).c.by_name.get(name, []):
        if f.impl and f.impl["trait"] and tyname(f.impl["self"]) == me and "xcm.rs" in f.mod.file:
            if first is None or repr(f.impl["trait"]).find(first) >= 0:
                out.append(f)
    return out


def here(n):
    return bool(find(n, lambda z: z.op in ("call", "ext") and "ParachainInfo" in str(z.args[0])))


def junction(n, kind):
    n = strip(n)
    return n.op in ("call", "ext") and str(n.args[0]).split("::")[-1] == kind or n.op.startswith("variant:" + kind)


def body(n):
    return [x for x in n.args if isinstance(x, Node) and x.op != "at"]


def own(n):
    """is this the location of the native asset as seen from the relay chain"""
    n = strip(n)
    if not n.op.startswith("struct:Location"):
        return None
    d = dict(zip(n.op.split(":")[-1].split(","), n.args))
    if set(d) != {"parents", "interior"}:
        return None
    i = strip(d["interior"])
    if i.op not in ("list", "tuple"):
        return None
    return num(d["parents"]) == 1 and len(i.args) == 2 and junction(i.args[0], "Parachain") and here(i.args[0]) and junction(i.args[1], "GeneralIndex")


def place(ctx):
    seen = set()
    for f in impls(ctx, "convert", "CurrencyIdConvert", None):
        try:
            of = f.impl["trait"][-1][1][0][2][-1][0]
        except (IndexError, TypeError):
            continue
        r, qs = fnpaths(ctx, RT, "convert", fn=f)
        if r is None:
            continue
        {"AssetId": where, "Location": which, "Asset": whole}.get(of, lambda *a: None)(ctx, r, qs, r.arg(0))
        seen.add(of)
    for k in {"AssetId", "Location"} - seen:
        ctx.und.append(f"conversion of {k} not found")


def whole(ctx, r, qs, a):
    for q in qs:
        rest = find(q.node, lambda z: z.op == "fld" and z.args[0] is a and z.args[1] != "id")
        ctx.judge(r, q, "asset known by its location", not rest, "an asset is told from its amount", relevant=VALUE)


def where(ctx, r, qs, a):
    for q in qs:
        core = next((p for f, p in q.facts if f.op == "eq" and any(x is a for x in map(strip, f.args)) and any(num(x) == 0 for x in f.args)), None)
        n = strip(q.node)
        if core:
            got = n.args[0] if n.op == "variant:Some" else n
            v = own(got)
            if v:
                d = dict(zip(strip(got).op.split(":")[-1].split(","), strip(got).args))
                ix = body(strip(d["interior"]).args[1])
                v = bool(ix) and (strip(ix[-1]) is a or num(ix[-1]) == 0)
            ctx.judge(r, q, "the native asset's location", v, lambda: f"native asset at {show(n)[:130]}", relevant=VALUE)
            continue
        lk = find(n, called("asset_to_location"))
        ok = all(any(strip(x) is a for x in z.args[1:] if isinstance(x, Node)) for z in lk)
        if n.op == "variant:None":
            miss = any(f.op == "is" and called("asset_to_location")(strip(f.args[0])) and any(strip(x) is a for x in strip(f.args[0]).args[1:] if isinstance(x, Node)) and (p is False) == (f.args[1] in ("Some", "Ok")) for f, p in q.facts)
            ctx.judge(r, q, "registered location", miss, "a registered asset is given no location", relevant=VALUE)
        else:
            ctx.judge(r, q, "registered location", bool(lk) and ok if lk else (False if n.op == "variant:Some" else None), lambda: f"asset at {show(n)[:110]}", relevant=VALUE)
        if core is None:
            ctx.judge(r, q, "the native asset's location", False, "the native asset is looked up like any other", relevant=VALUE)


def which(ctx, r, qs, a):
    for q in qs:
        k = dict()
        odd = []
        parents = set(range(256))
        ups = lambda x: strip(x).op == "fld" and strip(x).args[1] == "parents" and strip(x).args[0] is a
        for f, p in q.facts:
            if f.op == "is" and strip(f.args[0]).op == "fld" and strip(f.args[0]).args[1] == "interior" and f.args[1] in ("X1", "X2"):
                k[f.args[1]] = p
            elif f.op in ("eq", "lt", "le") and any(ups(x) for x in f.args) and any(num(x) is not None for x in f.args):
                v = lambda x, h: h if ups(x) else num(x)
                t = {"eq": lambda x, y: x == y, "lt": lambda x, y: x < y, "le": lambda x, y: x <= y}[f.op]
                parents = {h for h in parents if t(v(f.args[0], h), v(f.args[1], h)) == p}
            elif f.op == "m" and f.args[0] == "contains":
                j = f.args[2]
                w = "X2" if find(f.args[1], lambda z: z.op == "vfld" and z.args[1] == "X2") else "X1"
                if junction(j, "GeneralIndex") and body(strip(j)) and num(body(strip(j))[-1]) == 0:
                    k["index", w] = p
                elif junction(j, "GeneralIndex") and body(strip(j)) and num(body(strip(j))[-1]) is not None:
                    pass
                elif junction(j, "Parachain") and here(j):
                    k["chain", w] = p
                else:
                    odd.append(f)
            elif f.op == "fits" or f.op == "is" and called("location_to_asset")(strip(f.args[0])):
                pass
            elif f.op == "eq" and any(own(x) is not None for x in f.args):
                w = next(x for x in f.args if own(x) is not None)
                ix = body(strip(dict(zip(strip(w).op.split(":")[-1].split(","), strip(w).args))["interior"]).args[1]) if own(w) else None
                if ix and num(ix[-1]) == 0:
                    k["whole"] = p
                else:
                    odd.append(f)
            elif find(f, lambda z: z is a):
                odd.append(f)
        relay = k.get("whole") or (k.get("X2") and parents == {1} and k.get(("index", "X2")) and k.get(("chain", "X2")))
        local = k.get("X1") and parents == {0} and k.get(("index", "X1"))
        n = strip(q.node)
        if n.op == "variant:Some" and num(n.args[0]) == 0:
            ctx.judge(r, q, "taken for the native asset", True if relay or local else None if odd else False, "a location that is not this chain's own native asset is taken for it", relevant=VALUE)
        elif n.op == "variant:None":
            bad = not any(f.op == "fits" and not p for f, p in q.facts) and not any(f.op == "is" and called("location_to_asset")(strip(f.args[0])) for f, p in q.facts)
            ctx.judge(r, q, "location known", None if odd and bad else not bad, "a location is not looked up", relevant=VALUE)
        else:
            lk = called("location_to_asset")(n) and n or next(iter(find(n, called("location_to_asset"))), None)
            args = [x for x in lk.args[1:] if isinstance(x, Node) and x.op != "at"] if lk is not None else []
            ok = lk is not None and any(find(x, lambda z: z is a) for x in args)
            ctx.judge(r, q, "looked up by the location", ok if lk is not None else (False if n.op == "variant:Some" else None), lambda: f"taken for {show(n)[:100]}", relevant=VALUE)
            ctx.judge(r, q, "native asset recognised", False if relay or local else True, "the native asset's own location is looked up in the registry", relevant=VALUE)


def reserve(ctx):
    r, qs = handler(ctx, RT, "contains", "IsForeignNativeAssetFrom")
    for q in qs or []:
        a, o = r.arg(0), r.arg(1)
        n = strip(q.node)
        fs = list(q.facts) + ([] if isT(n) or isF(n) else [(n, True)])
        if isF(n):
            continue
        org = any(p and f.op == "eq" and any(strip(x) is o for x in f.args) and any(called("get")(strip(x)) and "Origin" in str(strip(x).args[0]) for x in f.args) for f, p in flat(fs))
        par = any(p and f.op == "eq" and any(strip(x).op == "fld" and strip(x).args[1] == "parents" and find(x, lambda z: z is a) for x in f.args) and any(num(x) == 2 for x in f.args) for f, p in flat(fs))
        fun = any(p and f.op == "is" and f.args[1] == "Fungible" and find(f.args[0], lambda z: z is a) for f, p in flat(fs))
        for v, t in ((org, "reserve named by its own chain"), (par, "bridged asset"), (fun, "fungible")):
            ctx.judge(r, q, t, v, "assets are trusted from a chain that is not their reserve" if v is org else "assets other than bridged fungible ones are trusted", relevant=VALUE)
    if qs and not any(not isF(strip(q.node)) for q in qs):
        ctx.judge(r, qs[0], "reserve named by its own chain", False, "no asset is accepted", relevant=VALUE)


def flat(fs):
    for f, p in fs:
        if f.op == "and" and p:
            yield from flat([(x, True) for x in f.args])
        else:
            yield f, p


def account(ctx):
    r, qs = handler(ctx, RT, "convert_location", "EvmAddressConversion")
    for q in qs or []:
        loc = r.arg(0)
        n = strip(q.node)
        if n.op != "variant:Some":
            continue
        x1 = any(p and f.op == "is" and f.args[1] == "X1" and find(f.args[0], lambda z: z is loc) for f, p in q.facts)
        par = any(p and f.op == "eq" and any(strip(x).op == "fld" and strip(x).args[1] == "parents" for x in f.args) and any(num(x) == 0 for x in f.args) for f, p in q.facts)
        ctx.judge(r, q, "local accounts only", x1 and par, "an account of another chain is taken for a local one", relevant=VALUE)
        v = strip(n.args[0])
        key = find(v, lambda z: z.op == "fld" and z.args[1] == "key" and find(z, lambda y: y is loc))
        ok = v.op in ("call", "ext") and (called("account_id")(v) and "EVMAccounts" in str(v.args[0]) or called("into_account_id")(v) and "ExtendedAddressMapping" in str(v.args[0])) and bool(key)
        ctx.judge(r, q, "the account bound to the address", ok, lambda: f"owned by {show(v)[:110]}", relevant=VALUE)


def rerouted(ctx):
    r, qs = handler(ctx, RT, "contains", "OmnipoolProtocolAccount")
    for q in qs or []:
        a = r.arg(0)
        cur, acc = mk("fld", a, "0"), mk("fld", a, "1")
        n = strip(q.node)
        fs = list(flat(list(q.facts) + ([] if isT(n) or isF(n) else [(n, True)])))
        pool = next((p for f, p in fs if f.op == "eq" and any(strip(x) is acc for x in f.args) and any(called("protocol_account")(strip(x)) for x in f.args)), None)
        held = next((p for f, p in fs if called("exists")(f) and "Omnipool" in str(f.args[0]) and any(strip(x) is cur for x in f.args[1:] if isinstance(x, Node))), None)
        if isF(n):
            ctx.judge(r, q, "rerouted deposits", pool is False or held is False, "a deposit of a listed asset to the pool account is not rerouted", relevant=VALUE)
        else:
            ctx.judge(r, q, "rerouted deposits", bool(pool and held), "a deposit is rerouted though it is not of a listed asset to the pool account", relevant=VALUE)


def out(ctx):
    r, qs = handler(ctx, RT, "convert", "AccountIdToMultiLocation")
    for q in qs or []:
        n = strip(q.node)
        ids = find(n, lambda z: z.op.startswith("struct:AccountId32") or z.op.startswith("variant:AccountId32"))
        d = dict(zip(ids[0].op.split(":")[-1].split(","), ids[0].args)) if len(ids) == 1 else {}
        ctx.judge(r, q, "account named by its id", "id" in d and strip(d["id"]) is r.arg(0) if d else None, lambda: f"account named {show(n)[:100]}", relevant=VALUE)


def locations(pid, tier):
    ctx = Ctx(pid, tier)
    g = guarded(lambda c, f: f(c))
    for f in (place, reserve, account, rerouted, out):
        g(ctx, f)
    return ctx.done(RULE, ["an asset and its location are paired one to one in the registry (P22)", "which list member of a two-junction location holds which junction is not distinguished"])
