"""Asset registry: ids, names and locations of assets stay unique and in step with the records."""
from rules.p_small import *

RULE = ("Every success path of registration, update and banning is compared with the specified identifier, the guards on it, and the writes of the record "
        "and of the three lookup maps.")
PN = "asset-registry"
FIELDS = ["name", "asset_type", "existential_deposit", "xcm_rate_limit", "symbol", "decimals", "is_sufficient"]
MIN = CFG("MinStringLimit")
REG = mk("const", 1)


def some_of(v):
    while v.op in ("part:Option", "variant:Some") and v.args:
        v = v.args[0]
    return v


def length(x):
    return lambda n: n.op in ("len", "m", "call") and (n.op == "len" and match(n.args[0], x) or n.op == "m" and n.args[0] == "len" and match(n.args[1], x))


def longenough(g, x):
    return g.le(MIN, length(x))


def opt(g, x):
    return True if g.some(x) else False if g.none(x) else None


def given_(g, x):
    """is the optional value given, and what is it"""
    return (True, x.args[0]) if x.op == "variant:Some" else (opt(g, x), PL(x))


def sameopt(g, v, x):
    """the optional value x, as it is, rebuilt, or None where it is known to be None"""
    return match(v, x) or match(some_of(v), PL(x)) and (v.op != "payload" or True) or v.op in ("variant:None", "removed") and g.none(x)


def name_rules(ctx, r, q, g, name, id_, old):
    """name given: long enough, free, and mapped to this asset; the former name is released"""
    has_, nm = given_(g, name)
    ws = q.writes("AssetIds")
    if has_ is None:
        ctx.judge(r, q, "name", None if ws else True, "the name is used without knowing that there is one")
        return
    if has_ is False:
        ctx.judge(r, q, "no name", not ws, "the name index changes without a name", relevant=VALUE)
        return
    ctx.judge(r, q, "name length", longenough(g, nm), "a name shorter than the minimum is accepted", relevant=(name, nm))
    ctx.judge(r, q, "name free", g.none(ST("AssetIds", nm)), "a name of another asset is accepted", relevant=(name, nm))
    ins = [e for e in ws if e.args[-1].op != "removed"]
    rem = [e for e in ws if e.args[-1].op == "removed"]
    unchanged = old is not None and g.eq(old, lambda n: match(some_of(n), nm))
    ctx.judge(r, q, "name index", unchanged and not ins or len(ins) == 1 and match(ins[0].args[0], nm) and match(ins[0].args[-1], id_), "the name does not lead to the asset", relevant=VALUE)
    if old is None:
        ctx.judge(r, q, "name released", not rem, "a name is released on registration", relevant=VALUE)
    else:
        had = opt(g, old)
        if had:
            ctx.judge(r, q, "name released", any(match(e.args[0], PL(old)) for e in rem) and all(match(e.args[0], PL(old)) for e in rem) and (not ins or rem[0].i < ins[0].i or unchanged is False), "the former name still leads to the asset", relevant=VALUE)
        else:
            ctx.judge(r, q, "name released", not rem if had is False else None, "an unknown name is released", relevant=VALUE)


def location_rules(ctx, r, q, g, loc, id_, new):
    """location given: free, and mapped both ways; the former one is released"""
    has_, l = given_(g, loc)
    wa, wl = q.writes("AssetLocations"), q.writes("LocationAssets")
    if has_ is None and loc.op == "var" and new == "plain":
        has_, l = True, loc
    elif has_ is None:
        ctx.judge(r, q, "location", None if wa or wl else True, "the location is used without knowing that there is one")
        return
    elif has_ is False:
        ctx.judge(r, q, "no location", not wa and not wl, "locations change without a location", relevant=VALUE)
        return
    ctx.judge(r, q, "location free", g.none(ST("LocationAssets", l)), "a location of another asset is accepted", relevant=(loc, l))
    ins = [e for e in wl if e.args[-1].op != "removed"]
    rem = [e for e in wl if e.args[-1].op == "removed"]
    ctx.judge(r, q, "asset of location", len(ins) == 1 and match(ins[0].args[0], l) and match(ins[0].args[-1], id_), "the location does not lead to the asset", relevant=VALUE)
    ctx.judge(r, q, "location of asset", bool(wa) and match(wa[-1].args[0], id_) and match(wa[-1].args[-1], l) and all(match(e.args[0], id_) for e in wa), "the asset does not lead to its location", relevant=VALUE)
    before = ST("AssetLocations", id_)
    had = opt(g, before)
    if new is True:
        ctx.judge(r, q, "location released", not rem, "a location is released on registration", relevant=VALUE)
    elif had is False:
        ctx.judge(r, q, "location released", not rem, "an unknown location is released", relevant=VALUE)
    else:
        ok = bool(rem) and all(match(e.args[0], PL(before)) for e in rem) and (not ins or rem[0].i < ins[0].i)
        ctx.judge(r, q, "location released", ok, "the former location still leads to the asset", relevant=(before,) if had is None else VALUE)


def registration(ctx, r, q, sel, loc, want):
    """sel: optional identifier (None: always the next one); want: record, or patterns of its fields"""
    g = G(r, q)
    ws = q.writes("Assets")
    ctx.judge(r, q, "one record", len(ws) == 1, "not exactly one asset is recorded", relevant=VALUE)
    if len(ws) != 1:
        return
    id_, rec = ws[0].args[0], ws[0].args[-1]
    has_ = opt(g, sel) if sel is not None else False
    nx = q.writes("NextAssetId")
    start, nid = CFG("SequentialIdStartAt"), ST("NextAssetId")
    if has_:
        ctx.judge(r, q, "chosen id", match(id_, PL(sel)), lambda: f"the asset is recorded as {show(id_)[:120]}", relevant=VALUE)
        ctx.judge(r, q, "id below the sequence", g.lt(PL(sel), start), "a chosen id can collide with sequential ids", relevant=(sel, PL(sel)))
        ctx.judge(r, q, "id free", g.none(ST("Assets", PL(sel))), "an existing asset is overwritten", relevant=(sel, PL(sel)))
        ctx.judge(r, q, "sequence untouched", not nx, "a chosen id advances the sequence", relevant=VALUE)
    elif has_ is False:
        ctx.judge(r, q, "next id", match(id_, LIN((1, nid), (1, start))), lambda: f"the asset is recorded as {show(id_)[:120]}", relevant=VALUE)
        ctx.judge(r, q, "sequence advances", len(nx) == 1 and plusone(nx[0].args[-1], nid), "a sequential id can be given again", relevant=VALUE)
    else:
        ctx.judge(r, q, "id", None, "the id is used without knowing whether one was chosen")
    if isinstance(want, Node):
        nm, sym = mk("fld", want, "name"), mk("fld", want, "symbol")
        ctx.judge(r, q, "record", match(rec, want) or all(match(fields(rec).get(k), F(want, k)) for k in FIELDS if fields(rec)) and bool(fields(rec)), lambda: f"the asset is recorded as {show(rec)[:200]}", relevant=VALUE)
    else:
        fs = fields(rec)
        for k in FIELDS:
            ctx.judge(r, q, f"record: {k}", fs.get(k) is not None and want[k](g, fs[k]), lambda: f"{k} is recorded as {show(fs[k])[:150] if fs.get(k) is not None else 'unknown'}", relevant=VALUE)
        nm, sym = want["_name"], want["_symbol"]
    if nm is not None:
        name_rules(ctx, r, q, g, nm, id_, None)
    else:
        ctx.judge(r, q, "no name", not q.writes("AssetIds"), "the name index changes without a name", relevant=VALUE)
    if sym is not None:
        symbol_rules(ctx, r, q, g, sym)
    location_rules(ctx, r, q, g, loc, id_, True)
    for e in q.writes():
        ctx.judge(r, q, "nothing else", e.name in ("Assets", "NextAssetId", "AssetIds", "AssetLocations", "LocationAssets"), lambda: f"unexpected write of {e.name}", relevant=VALUE, eff=e)


def plusone(n, x):
    d = dict(lin(n))
    return d.pop(None, 0) == 1 and matchlin(d, [(1, x)]) or matchlin(lin(n), [(1, x), (1, lambda k: k.op == "ext" and k.args[0].endswith(".from") and num(k.args[1]) == 1)])


def symbol_rules(ctx, r, q, g, sym):
    """a symbol was validated: by the helper, or here"""
    done = any(e.kind == "call" and e.name.endswith("validate_symbol") and sameopt(g, e.args[0], sym) for e in q.eff) or g.none(sym)
    if not done and g.some(sym):
        s = PL(sym)
        done = longenough(g, s) and g.y(("m", "all", s, ...))
    ctx.judge(r, q, "symbol validated", done, "a symbol is recorded unvalidated", relevant=(sym, PL(sym)))


@guarded
def symbols(ctx):
    r = ctx.fn(PN, "validate_symbol")
    for q in (r.paths if r is not None else []):
        g = G(r, q)
        s = r.arg(0)
        if g.none(s):
            ctx.judge(r, q, "no symbol", True, "")
            continue
        ctx.judge(r, q, "symbol length", longenough(g, PL(s)), "a symbol shorter than the minimum is accepted", relevant=(s, PL(s)))
        nows = g.y(("m", "all", PL(s), lambda n: n.op == "lam" and any(x.op == "not" and match(x.args[0], C("is_whitespace", ...)) for x in n.args if isinstance(x, Node)))) or \
            g.n(("m", "any", PL(s), lambda n: n.op == "lam" and any(match(x, C("is_whitespace", ...)) for x in n.args if isinstance(x, Node))))
        ctx.judge(r, q, "no whitespace", nows, "a symbol with whitespace is accepted", relevant=VALUE if any(has(n, lambda z: z.op == "call" and "is_whitespace" in str(z.args[0])) for n, _ in q.facts) else (s, PL(s)))


OPQ = ("validate_symbol",)


def given(x):
    return lambda g, v: sameopt(g, v, x)


def exact(x):
    return lambda g, v: match(v, x)


def default(x, d):
    return lambda g, v: match(v, PL(x)) and True or g.none(x) and num(v) == d or match(v, ("ite", ("is", x, "Some"), PL(x), d))


def none_(g, v):
    return v.op in ("variant:None", "removed")


@guarded
def registering(ctx):
    r = ctx.fn(PN, "do_register_asset", opaque=OPQ)
    if r is not None:
        for q in r.paths:
            registration(ctx, r, q, r.arg(0), r.arg(2), r.arg(1))
    r = ctx.fn(PN, "register", opaque=OPQ)
    if r is not None:
        a = [None] + [r.arg(k) for k in range(9)]
        want = {"name": given(a[2]), "asset_type": exact(a[3]), "existential_deposit": default(a[4], 1), "symbol": given(a[5]), "decimals": given(a[6]), "xcm_rate_limit": given(a[8]),
                "is_sufficient": exact(a[9]), "_name": a[2], "_symbol": a[5]}
        for q in r.paths:
            registration(ctx, r, q, a[1], a[7], want)
    r = ctx.fn(PN, "register_external", opaque=OPQ)
    if r is not None:
        want = {"name": none_, "asset_type": lambda g, v: v.op == "variant:External" or v.op == "const" and str(v.args[0]).endswith("External"), "existential_deposit": lambda g, v: num(v) == 1, "symbol": none_,
                "decimals": none_, "xcm_rate_limit": none_, "is_sufficient": lambda g, v: isF(v), "_name": None, "_symbol": None}
        for q in r.paths:
            registration(ctx, r, q, None, mk("variant:Some", r.arg(0)), want)
    for f in ("register_asset", "get_or_register_asset"):
        r = ctx.fn(PN, f, opaque=OPQ)
        if r is None:
            continue
        o = 1 if f == "register_asset" else 0
        sel = r.arg(0) if o else None
        nm, kind, ed, sym, dec, loc, lim, suf = (r.arg(k + o) for k in range(8))
        want = {"name": given(nm) if o else (lambda g, v: match(some_of(v), nm)), "asset_type": lambda g, v: kindof(g, v, kind), "existential_deposit": default(ed, 1), "symbol": given(sym), "decimals": given(dec),
                "xcm_rate_limit": given(lim), "is_sufficient": exact(suf), "_name": nm if o else mk("variant:Some", nm), "_symbol": sym}
        for q in r.paths:
            if not o and not q.writes():
                g = G(r, q)
                v = tonode_(q.val)
                v = v.args[0] if v.op == "variant:Ok" else v
                ctx.judge(r, q, "known name", g.some(ST("AssetIds", nm)) and match(v, PL(ST("AssetIds", nm))), "an asset is returned that is not the one of this name", relevant=VALUE)
                continue
            registration(ctx, r, q, sel, loc, want)


KINDS = ["Token", "XYK", "StableSwap", "Bond", "External"]


def kindof(g, v, kind):
    """the asset type of the same name as the kind"""
    if v.op.startswith("variant:"):
        k = v.op.split(":")[1]
        return g.y(("is", kind, k)) or all(g.n(("is", kind, x)) for x in KINDS if x != k)
    return match(v, kind) or (None if find(v, lambda n: n is kind) else False)


@guarded
def kinds(ctx):
    """kinds and types of the same name correspond"""
    try:
        p = ctx.pallet(PN)
    except KeyError:
        return
    for f in p.c.by_name.get("from", []):
        if f.impl is None or f.impl["trait"] is None or "AssetKind" not in repr((f.impl["trait"], f.impl["self"])):
            continue
        r, qs = fnpaths(ctx, PN, "from", fn=f)
        for q in qs:
            v = q.node
            if v.op.startswith("variant:"):
                k = v.op.split(":")[1].split("::")[-1]
                g = G(r, q)
                ctx.judge(r, q, "kind and type", g.y(("is", "_", k)) or all(g.n(("is", "_", x)) for x in KINDS if x != k), lambda: f"the kind is translated to {k}", relevant=VALUE)


@guarded
def updating(ctx):
    r = ctx.fn(PN, "update", opaque=OPQ)
    if r is None:
        return
    id_, name, atype, ed, lim, suf, sym, dec, loc = (r.arg(k) for k in range(9))
    rec = ST("Assets", id_)
    old = PL(rec)
    for q in r.paths:
        g = G(r, q)
        ctx.judge(r, q, "asset exists", g.some(rec), "an unknown asset is updated", relevant=(id_,))
        ws = q.writes("Assets")
        ctx.judge(r, q, "one record", all(match(e.args[0], id_) for e in ws), "another asset's record changes", relevant=VALUE)
        name_rules(ctx, r, q, g, name, id_, F(old, "name"))
        location_rules(ctx, r, q, g, loc, id_, False)
        symbol_rules(ctx, r, q, g, sym)
        v = some_of(ws[-1].args[-1]) if ws else mk("payload", mk("st", "Assets", id_))
        fs = fields(v)
        get = lambda k: fs[k] if k in fs else mk("fld", v.args[-1] if fs or v.op.startswith("struct:") else v, k)
        for k, a, opts in (("name", name, True), ("asset_type", atype, False), ("existential_deposit", ed, False), ("xcm_rate_limit", lim, True), ("symbol", sym, True), ("decimals", dec, True), ("is_sufficient", suf, False)):
            x, o = get(k), F(old, k)
            has_ = opt(g, a)
            if match(x, o) or opts and match(some_of(x), PL(o)):
                same = has_ is False or g.eq(o, a) or g.eq(o, PL(a)) or g.eq(o, lambda n: match(some_of(n), PL(a)))
                ctx.judge(r, q, f"update: {k}", same if has_ is not None else any(n.op == "eq" and p and has(n, lambda z: z is a) for n, p in q.facts) or False, f"a given {k} is not recorded", relevant=VALUE)
                continue
            ok = match(some_of(x), PL(a)) or match(x, a) if opts else match(x, PL(a))
            whole = [mk("ite", mk("is", a, "Some"), PL(a), o)]
            if has_:
                ctx.judge(r, q, f"update: {k}", ok, lambda: f"{k} becomes {show(x)[:150]}", relevant=VALUE)
            elif has_ is False:
                ctx.judge(r, q, f"update: {k}", opts and match(o, lambda n: True) and x.op == "variant:None" and g.none(o), lambda: f"{k} becomes {show(x)[:150]} without a new value", relevant=VALUE)
            else:
                ctx.judge(r, q, f"update: {k}", g.none(o) or False if match(x, a) and opts else (True if any(match(x, w) for w in whole) else None), f"{k} not given is recorded", relevant=VALUE)
        x, o = get("is_sufficient"), F(old, "is_sufficient")
        if not match(x, o):
            kept = g.n(o) or g.eq(o, mk("const", "false")) or isT(x) or g.y(x) or g.eq(x, o)
            ctx.judge(r, q, "sufficient stays sufficient", kept, "a sufficient asset becomes insufficient", relevant=(o,))
        regs = q.origins()
        x, o = get("decimals"), F(old, "decimals")
        if not match(x, o) and opt(g, dec) is not False:
            ctx.judge(r, q, "decimals set once", "RegistryOrigin" in regs or g.none(o), "the update origin changes decimals already set", relevant=(o,))
        if q.writes("AssetLocations"):
            ctx.judge(r, q, "location by registry", "RegistryOrigin" in regs, "the update origin changes the location", relevant=())
        for e in q.writes():
            ctx.judge(r, q, "nothing else", e.name in ("Assets", "AssetIds", "AssetLocations", "LocationAssets"), lambda: f"unexpected write of {e.name}", relevant=VALUE, eff=e)


@guarded
def locating(ctx):
    r = ctx.fn(PN, "set_location")
    for q in (r.paths if r is not None else []):
        g = G(r, q)
        ctx.judge(r, q, "asset exists", g.some(ST("Assets", r.arg(0))), "an unknown asset gets a location", relevant=(r.arg(0),))
        location_rules(ctx, r, q, g, r.arg(1), r.arg(0), "plain")
        setsonly(ctx, r, q, "AssetLocations", "LocationAssets")


@guarded
def banning(ctx):
    for f, on in (("ban_asset", True), ("unban_asset", False)):
        r = ctx.fn(PN, f)
        for q in (r.paths if r is not None else []):
            g = G(r, q)
            id_ = r.arg(0)
            b = ST("BannedAssets", id_)
            if on:
                ctx.judge(r, q, "asset exists", g.some(ST("Assets", id_)), "an unknown asset is banned", relevant=(id_,))
                ctx.judge(r, q, "not banned yet", g.none(b), "a banned asset is banned again", relevant=(id_,))
            else:
                ctx.judge(r, q, "banned", g.some(b), "an asset is unbanned that was not banned", relevant=(id_,))
            ws = q.writes("BannedAssets")
            ctx.judge(r, q, "ban recorded", len(ws) == 1 and match(ws[0].args[0], id_) and (ws[0].args[-1].op != "removed") == on, "the ban is not recorded", relevant=VALUE)
            setsonly(ctx, r, q, "BannedAssets")


def answer(ctx, f, want, **kw):
    """every path of a query returns the specified value"""
    r, qs = fnpaths(ctx, PN, f, **kw)
    for q in qs:
        g = G(r, q)
        ok = want(g, r, q.node)
        ctx.judge(r, q, f"answer of {f}", ok, lambda: f"{f} answers {show(q.node)[:150]}", relevant=VALUE)


@guarded
def asking(ctx):
    def rec(r, k=0):
        return ST("Assets", r.arg(k))

    def unknown(fn):
        return lambda g, r, v: fn(g, r, v, PL(rec(r)), opt(g, rec(r)))
    answer(ctx, "is_sufficient", unknown(lambda g, r, v, d, k: match(v, F(d, "is_sufficient")) or isF(v) and (k is False or g.n(F(d, "is_sufficient"))) or isT(v) and k and g.y(F(d, "is_sufficient"))
                                         or match(v, ("and", ("is", rec(r), "Some"), F(d, "is_sufficient")))))
    answer(ctx, "existential_deposit", unknown(lambda g, r, v, d, k: match(some_of(v), F(d, "existential_deposit")) and k is not False or v.op == "variant:None" and k is False))
    answer(ctx, "decimals", unknown(lambda g, r, v, d, k: match(v, F(d, "decimals")) or match(some_of(v), PL(F(d, "decimals"))) or v.op == "variant:None" and (k is False or g.none(F(d, "decimals")))))
    for f, item in (("exists", "Assets"), ("is_banned", "BannedAssets")):
        answer(ctx, f, lambda g, r, v, item=item: v.op in ("is", "stexists") and (match(v, ("is", ST(item, r.arg(0)), "Some")) or match(v, ("stexists", item, r.arg(0)))) or isT(v) and g.some(ST(item, r.arg(0))) or isF(v) and g.none(ST(item, r.arg(0))))


def registry(pid, tier):
    ctx = Ctx(pid, tier)
    symbols(ctx)
    registering(ctx)
    updating(ctx)
    locating(ctx)
    banning(ctx)
    kinds(ctx)
    asking(ctx)
    return ctx.done(RULE, [])
