"""Trade fees that follow volume and liquidity."""
from rules.p_evmfee import handler, called, equal
from rules.p_small import *

RULE = ("Every path of the fee update is evaluated: what is returned and stored must be the old fees, or the fees recalculated each from its own previous value and parameters, the asset's volume and liquidity and the "
        "blocks since, exactly when the block differs and the oracle knows both.")
AD = "runtime/adapters"
ITEM = "AssetFee"


def zero(n):
    return num(n) == 0 or n.op in ("default", "call") and "default" in str(n.args[0]).split("::")[-1].lower() or n.op == "default"


def unsat(n):
    return n.args[0] if n.op == "sat" else n


def entrylike(n):
    """fields of the oracle data given to the recalculation"""
    g = fields(n)
    return g if set(g) == {"amount_in", "amount_out", "liquidity"} else None


@guarded
def update(ctx):
    r, qs = fnpaths(ctx, "dynamic-fees", "update_fee")
    reached = 0
    for q in qs:
        asset = r.arg(0)
        st = mk("st", ITEM, asset)
        had = next((p for f, p in q.facts if f.op == "is" and match(f.args[0], ST(ITEM, asset)) and f.args[1] == "Some"), None)
        if had is None or not q.p.ok or q.node.op != "tuple" or len(q.node.args) != 2:
            ctx.judge(r, q, "fees", None, show(q.node)[:80])
            continue
        PA, PP_ = ("cfg", "AssetFeeParameters"), ("cfg", "ProtocolFeeParameters")
        old = [PL(ST(ITEM, asset))] if had else None
        olda = F(PL(ST(ITEM, asset)), "asset_fee") if had else F(PA, "min_fee")
        oldp = F(PL(ST(ITEM, asset)), "protocol_fee") if had else F(PP_, "min_fee")
        oldt = F(PL(ST(ITEM, asset)), "timestamp")
        now = [x for f, p in q.facts for x in find(f, called("current_block_number"))]
        nw = now[0] if now else None
        # is this the block the fees were set in?
        same_ = None
        for f, p in q.facts:
            if nw is not None and f.op == "eq" and any(x is nw for x in f.args):
                o = f.args[1] if f.args[0] is nw else f.args[0]
                if match(o, oldt) if had else zero(o):
                    same_ = p
            # time does not run backwards
            if nw is not None and f.op == "lt" and f.args[1] is nw and (match(f.args[0], oldt) if had else zero(f.args[0])):
                same_ = not p
        known = {}
        for k in ("asset_volume", "asset_liquidity"):
            for f, p in q.facts:
                if f.op == "is" and called(k)(f.args[0]) and f.args[1] in ("Some", "Ok"):
                    known[k] = (f.args[0], p)
        a, b = q.node.args
        ws = q.writes()
        fresh = a.op == "call" or b.op == "call" or bool(ws)
        if not fresh:
            ctx.judge(r, q, "unchanged fees", match(a, olda) and match(b, oldp), lambda: f"the fees given are {show(a)[:60]} and {show(b)[:60]}", relevant=VALUE)
            missing = any(not p for _, p in known.values())
            ctx.judge(r, q, "unchanged only in the same block or without data", same_ is True or missing, "the fees are not updated", relevant=VALUE)
            ctx.judge(r, q, "nothing stored", not ws, "stored", relevant=VALUE)
            continue
        reached += 1
        ctx.judge(r, q, "once per block", same_ is False, "the fees are updated again in the same block", relevant=VALUE)
        ctx.judge(r, q, "data known", len(known) == 2 and all(p for _, p in known.values()), "the fees are updated without volume or liquidity", relevant=VALUE)
        if len(known) != 2:
            continue
        V, L = (mk("payload", known[k][0]) for k in ("asset_volume", "asset_liquidity"))
        for k, (x, _) in known.items():
            ctx.judge(r, q, "data of the asset", match([y for y in x.args[1:] if y.op != "at"][0], asset), lambda: f"the data is of {show(x)[:60]}", relevant=VALUE)
        for k, v, fn, prev, par in ((0, a, "recalculate_asset_fee", olda, PA), (1, b, "recalculate_protocol_fee", oldp, PP_)):
            what = ("asset", "protocol")[k] + " fee"
            if v.op != "call":
                ctx.judge(r, q, what, False if match(v, [olda, oldp]) else None, lambda: f"the {what} becomes {show(v)[:60]}", relevant=VALUE)
                continue
            ctx.judge(r, q, what, called(fn)(v), lambda: f"the {what} is computed by {str(v.args[0]).split('::')[-1]}", relevant=VALUE)
            x = [y for y in v.args[1:] if y.op != "at"]
            g = entrylike(x[0])
            if g is None or len(x) != 4:
                ctx.judge(r, q, what + " data", None, show(v)[:100])
                continue
            ok = all(called_m(g[m], m, V) for m in ("amount_in", "amount_out"))
            ctx.judge(r, q, what + " volume", ok, lambda: f"the volume used is {show(g['amount_in'])[:60]} in and {show(g['amount_out'])[:60]} out", relevant=VALUE)
            ctx.judge(r, q, what + " liquidity", match(g["liquidity"], L), lambda: f"the liquidity used is {show(g['liquidity'])[:60]}", relevant=VALUE)
            ctx.judge(r, q, "previous " + what, match(x[1], prev), lambda: f"the {what} follows {show(x[1])[:60]}", relevant=VALUE)
            d = unsat(x[2])
            okd = d.op in ("satsub", "sub") and d.args[0] is nw and (match(d.args[1], oldt) if had else zero(d.args[1])) or not had and d is nw
            ctx.judge(r, q, what + " blocks", okd, lambda: f"the blocks passed are {show(d)[:100]}", relevant=VALUE)
            pg = fields(x[3])
            okp = match(x[3], par) or (all(match(pg[y], F(par, y)) for y in pg) if pg else False)
            ctx.judge(r, q, what + " parameters", okp, lambda: f"the parameters are {show(x[3])[:60]}", relevant=VALUE)
        ctx.judge(r, q, "stored once", len(ws) == 1 and ws[0].name == ITEM, f"stored {len(ws)} times", relevant=VALUE)
        for w in ws:
            g = fields(w.args[-1])
            if not g:
                ctx.judge(r, q, "stored fees", None, show(w.args[-1])[:80], eff=w)
                continue
            ctx.judge(r, q, "stored fees", match(w.args[0], asset) and match(g["asset_fee"], a) and match(g["protocol_fee"], b), "other fees are stored than given", eff=w, relevant=VALUE)
            ctx.judge(r, q, "stored block", match(g["timestamp"], nw) if nw is not None else None, lambda: f"the fees are stored for block {show(g['timestamp'])[:60]}", eff=w, relevant=VALUE)
    if qs:
        ctx.judge(r, qs[-1], "updates", reached > 0 or None, "no path updates the fees")
    r, qs = handler(ctx, "dynamic-fees", "get", "UpdateAndRetrieveFees")
    for q in qs:
        ok = q.node.op == "tuple" and bool(find(q.node, lambda n: n.op in ("st", "cfg"))) or called("update_fee")(q.node) and match(q.node.args[1], r.arg(0))
        ctx.judge(r, q, "fees given are updated", ok or None, lambda: show(q.node)[:80])
        keys = {n.args[1] for n in find(mk("t", q.node, *[f for f, _ in q.facts]), lambda n: n.op == "st" and n.args[0] == ITEM)}
        ctx.judge(r, q, "of the asset asked for", all(match(k, r.arg(0)) for k in keys), lambda: f"the fees of {', '.join(show(k) for k in keys)} are given", relevant=VALUE)


def called_m(n, name, recv):
    """the method or field of the volume"""
    n = unsat(n)
    return n.op == "m" and n.args[0] == name and match(n.args[1], recv) or n.op == "ext" and str(n.args[0]).split(".")[-1] == name and match(n.args[1], recv) or match(n, F(recv, name))


@guarded
def data(ctx):
    """where volume and liquidity come from"""
    for name in ("asset_volume", "asset_liquidity"):
        r, qs = handler(ctx, AD, name, "OracleAssetVolumeProvider")
        for q in qs:
            if not q.p.ok or q.node.op != "variant:Some":
                continue
            v = q.node.args[0]
            es = find(v, called("get_entry"))
            if len(es) != 1:
                ctx.judge(r, q, "oracle entry", None, show(v)[:80])
                continue
            e = es[0]
            x = [y for y in e.args[1:] if y.op != "at"]
            hub = lambda n: called("get")(n) or n.op == "cfg"
            ctx.judge(r, q, "entry of the asset", len(x) == 4 and match(x[0], r.arg(0)) and hub(x[1]), lambda: f"the entry is {show(e)[:120]}", relevant=VALUE)
            ctx.judge(r, q, "entry of the omnipool", True if "omnipool" in show(x[3]).lower() or "omnipool" in cstr(x[3]) else None if x[3].op != "const" else False, lambda: f"the entry is of source {show(x[3])[:40]}", relevant=VALUE)
            P = mk("payload", e)
            if name == "asset_liquidity":
                ctx.judge(r, q, "liquidity of the asset", match(v, F(P, "liquidity", "a")), lambda: f"the liquidity is {show(v)[-60:]}", relevant=VALUE)
            else:
                ok = None if len(v.args) != 2 or not v.op.startswith(("struct:", "tuple")) else match(v.args[0], F(P, "volume", "a_in")) and match(v.args[1], F(P, "volume", "a_out"))
                ctx.judge(r, q, "volume of the asset", ok, lambda: f"the volume is {show(v)[-100:]}", relevant=VALUE)
    for name, k in (("amount_in", "0"), ("amount_out", "1")):
        r, qs = handler(ctx, AD, name, "OracleVolume")
        for q in qs:
            ctx.judge(r, q, name, match(q.node, mk("fld", r.arg(0), k)), lambda: f"{name} is {show(q.node)[:60]}", relevant=VALUE)


def cstr(n):
    s = str(n.args[0]) if n.op == "const" else ""
    if s.startswith("b["):
        s = "".join(chr(int(x)) for x in s[2:-1].split(",") if x.strip())
    return s


def fees(pid, tier):
    ctx = Ctx(pid, tier)
    update(ctx)
    data(ctx)
    return ctx.done(RULE, ["the recalculation formulas are those of M08"])
