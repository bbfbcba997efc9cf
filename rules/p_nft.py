"""NFTs: permissions of a collection, ownership of items, and the pallet's own records."""
from rules.p_evmfee import called
from rules.p_small import *
from vt.pallet import tyname
from vt.terms import const

VALUE = ("free_balance",)
RULE = ("Every path of the calls and of the interfaces other pallets use is evaluated; on each that creates, mints, moves, burns or destroys, the facts required of the permissions, the owner and the identifier must hold, and the arguments "
        "and stored records must be those of the item. The permissions are evaluated for every type of collection.")


def pick(ctx, name, trait):
    out = [f for f in ctx.pallet("nft").c.by_name.get(name, []) if f.impl and tyname(f.impl["self"]) == "Pallet" and "tests" not in f.mod.path and bool(f.impl["trait"]) == trait]
    if len(out) != 1:
        ctx.c["missing"] += 1
        ctx.und.append(f"nft {name}: not found")
        return None, []
    return fnpaths(ctx, "nft", name, fn=out[0])


def reserved(q, cid):
    """whether the identifier is known to lie in the reserved range"""
    for f, p in q.facts:
        if f.op not in ("lt", "le"):
            continue
        a, b = strip(f.args[0]), strip(f.args[1])
        c = lambda x: x.op == "cfg" and x.args[0] == "ReserveCollectionIdUpTo"
        if c(a) and b is strip(cid) and f.op == "lt":
            return not p
        if c(b) and a is strip(cid) and f.op == "le":
            return p
        if c(b) and a is strip(cid) and f.op == "lt" and p:
            return True
        if c(a) and b is strip(cid) and f.op == "le" and not p:
            return True
    return None


def permitted(q, name, typ):
    """polarity of a permission of the type on the path"""
    for f, p in q.facts:
        f = strip(f)
        if called(name)(f):
            a = [strip(x) for x in f.args[1:] if isinstance(x, Node) and x.op != "at"]
            if a and (a[0] is strip(typ)):
                return p
    return None


def uniq(q, name):
    return [e for e in q.eff if e.kind in ("call", "ext", "xcall") and str(e.name).replace(".", "::").endswith("::" + name) and "niques" in str(e.name)]


def isowner(q, who, owner, key):
    """the account is known to be the item's (collection's) owner"""
    who = strip(who)
    own = lambda n: n.op == "payload" and called(owner)(strip(n.args[0])) and [strip(x) for x in strip(n.args[0]).args[1:] if isinstance(x, Node) and x.op != "at"] == [strip(k) for k in key]
    if own(who):
        return True
    for f, p in q.facts:
        if f.op == "eq" and p:
            a, b = strip(f.args[0]), strip(f.args[1])
            if a is who and own(b) or b is who and own(a):
                return True
    return False


MOVES = ("do_create_collection", "do_mint", "do_transfer", "do_burn", "do_destroy_collection")


def nft(pid, tier):
    ctx = Ctx(pid, tier)
    for g in (_perm, _calls, _inspect, _reserved):
        guarded(g)(ctx)
    return ctx.done(RULE, ["pallet-uniques does what it is asked"])


def _perm(ctx):
    allow = {"can_create": {"Marketplace"}, "can_mint": {"Marketplace"}, "can_transfer": {"Marketplace", "LiquidityMining"}, "can_burn": {"Marketplace"}, "can_destroy": {"Marketplace"}, "has_deposit": {"Marketplace"}}
    for name, ok in allow.items():
        fs = [f for f in ctx.pallet("nft").c.by_name.get(name, []) if f.impl and tyname(f.impl["self"]) == "NftPermissions" and "tests" not in f.mod.path]
        if len(fs) != 1:
            ctx.c["missing"] += 1
            continue
        r, qs = fnpaths(ctx, "nft", name, fn=fs[0])
        typ = r.arg(0) if r else None
        for q in qs:
            n = q.node
            if isT(n) or isF(n):
                tested = {str(f.args[1]): p for f, p in q.facts if f.op == "is" and strip(f.args[0]) is typ}
                other = [f for f, p in q.facts if not (f.op == "is" and strip(f.args[0]) is typ)]
                on = [t for t, p in tested.items() if p]
                left = {"Marketplace", "LiquidityMining"} - {t for t, p in tested.items() if not p}
                kinds = set(on) if on else left
                for t in sorted(kinds):
                    want = t in ok
                    ctx.judge(r, q, name, None if other else isT(n) == want, lambda: f"{name} is {'granted' if isT(n) else 'refused'} for a {t} collection", relevant=VALUE)
            else:
                ctx.judge(r, q, name, None, lambda: f"value {show(n)[:80]}")


def _calls(ctx):
    ids = lambda r, k: r.arg(k)
    for name, move, perm, trait in (("create_collection", "do_create_collection", "can_create", False), ("mint", "do_mint", "can_mint", False), ("transfer", "do_transfer", "can_transfer", False), ("burn", "do_burn", "can_burn", False),
                                    ("destroy_collection", "do_destroy_collection", "can_destroy", False), ("mint_into", "do_mint", None, True), ("transfer", "do_transfer", None, True), ("burn", "do_burn", None, True),
                                    ("destroy", "do_destroy_collection", None, True), ("create_typed_collection", "do_create_collection", None, True)):
        r, qs = pick(ctx, name, trait)
        if r is None:
            continue
        for q in qs:
            if not q.p.ok:
                continue
            if q.node.op == "variant:Err":
                continue
            moved = [e for m in MOVES for e in uniq(q, m)]
            who = next((mk("signer", *f.args) for f, p in q.facts if f.op == "origin" and p), None) if not trait else None
            J = lambda t, ok, msg, e=None: ctx.judge(r, q, f"{name}: {t}", ok, msg, relevant=VALUE, eff=e)
            cid = r.arg(1) if trait and move == "do_create_collection" else r.arg(0)
            item = r.arg(1) if move in ("do_mint", "do_transfer", "do_burn") else None
            typ = r.arg(2) if trait else r.arg(1)
            if not trait and not J("signed", who is not None and who.args[0] == "signed", "not a signed account's call"):
                continue
            stored = mk("fld", mk("payload", mk("st", "Collections", cid)), "collection_type")
            if perm:
                t = typ if move == "do_create_collection" else stored
                J("permitted by the type", permitted(q, perm, t) is True, f"done without {perm} of the collection's type")
            if move == "do_transfer" and not moved:
                dest = r.arg(2)
                src = who
                eq = [f for f, p in q.facts if f.op == "eq" and p and (tgt(f, dest) if src is None else True)]
                J("moved", bool(eq), "nothing is moved though the accounts differ")
                continue
            if not J("one operation", len(moved) == 1 and str(moved[0].name).endswith(move), lambda: f"performs {[x.name for x in moved]}"):
                continue
            e = moved[0]
            a = [strip(x) if isinstance(x, Node) else x for x in e.args]
            J("the collection", a[0] is strip(cid), lambda: f"acts on collection {show(a[0])[:50]}", e)
            if item is not None:
                J("the item", a[1] is strip(item), lambda: f"acts on item {show(a[1])[:50]}", e)
            ws = [w for w in q.writes()]
            if move == "do_create_collection":
                owner = who if not trait else r.arg(0)
                J("owned by the creator", a[1] is strip(owner) and a[2] is strip(owner), lambda: f"owner {show(a[1])[:50]}, admin {show(a[2])[:50]}", e)
                if not trait:
                    J("identifier not reserved", reserved(q, cid) is False, "a reserved identifier may be taken")
                d = permitted(q, "has_deposit", typ)
                want = None if d is None else (a[3].op == "cfg" and a[3].args[0] == "CollectionDeposit" and isF(a[4])) if d else num(a[3]) == 0 and isT(a[4])
                J("deposit", want, lambda: f"deposit {show(a[3])[:40]}, free of it {show(a[4])[:20]}, has_deposit {d}", e)
                w = [x for x in ws if x.name == "Collections"]
                J("recorded", len(w) == 1 and w[0].args[0] is strip(cid) and w[0].args[-1].op.startswith("struct:CollectionInfo") and rec(w[0].args[-1], "collection_type") is strip(typ), "the collection is not recorded with its type")
            elif move == "do_mint":
                if not trait:
                    J("only the collection's owner", isowner(q, who, "collection_owner", [cid]), "minted by an account that does not own the collection")
                    J("owner", a[2] is who, lambda: f"minted to {show(a[2])[:50]}", e)
                else:
                    J("owner", a[2] is strip(r.arg(2)), lambda: f"minted to {show(a[2])[:50]}", e)
                known = q.holds(mk("is", mk("st", "Collections", cid), "Some"))
                J("known collection", known is True, "minted in a collection the pallet does not know")
                w = [x for x in ws if x.name == "Items"]
                J("recorded", len(w) == 1 and [strip(x) for x in w[0].args[:2]] == [strip(cid), strip(item)] and not w[0].args[-1].op.startswith("removed"), "the item is not recorded")
            elif move == "do_transfer":
                J("destination", a[2] is strip(r.arg(2)) or (a[2].op == "payload" and called("lookup")(strip(a[2].args[0])) and any(strip(x) is r.arg(2) for x in strip(a[2].args[0]).args[1:] if isinstance(x, Node))), lambda: f"moved to {show(a[2])[:60]}", e)
                if not trait:
                    J("only the item's owner", isowner(q, who, "owner", [cid, item]), "moved by an account that does not own the item")
            elif move == "do_burn":
                if not trait:
                    J("only the item's owner", isowner(q, who, "owner", [cid, item]), "burned by an account that does not own the item")
                else:
                    opt = r.arg(2)
                    if q.holds(mk("is", opt, "Some")) is not False:
                        J("only the given owner", isowner(q, mk("payload", opt), "owner", [cid, item]), "burned though the given account does not own the item")
                w = [x for x in ws if x.name == "Items"]
                J("record removed", len(w) == 1 and [strip(x) for x in w[0].args[:2]] == [strip(cid), strip(item)] and w[0].args[-1].op.startswith("removed"), "the record of the item stays")
            else:
                wit = strip(a[1])
                items = [f for f, p in q.facts if p and f.op == "eq" and any(num(x) == 0 for x in f.args) and any(strip(x).op == "fld" and strip(x).args[1] == "items" for x in f.args)]
                J("only an empty collection", bool(items), "a collection with items can be destroyed")
                owner = a[2]
                if owner.op == "variant:Some":
                    o = strip(owner.args[0])
                    ok = o is who if not trait else (o is strip(mk("payload", r.arg(2))) if q.holds(mk("is", r.arg(2), "Some")) is True else o.op == "payload" and called("collection_owner")(strip(o.args[0])))
                    J("only its owner", ok, lambda: f"checked against {show(o)[:60]}", e)
                else:
                    J("only its owner", False, "destroyed without checking the owner", e)
                w = [x for x in ws if x.name == "Collections"]
                J("record removed", len(w) == 1 and strip(w[0].args[0]) is strip(cid) and w[0].args[-1].op.startswith("removed"), "the record of the collection stays")


def tgt(f, dest):
    return any(strip(x) is strip(dest) for x in f.args)


def rec(n, k):
    names = n.op.split(":")[2].split(",")
    return strip(n.args[names.index(k)]) if k in names else None


def _inspect(ctx):
    r, qs = pick(ctx, "can_transfer", True)
    for q in qs:
        t = mk("fld", mk("payload", mk("st", "Collections", r.arg(0))), "collection_type")
        some = q.holds(mk("is", mk("st", "Collections", r.arg(0)), "Some"))
        n = strip(q.node)
        if some is False:
            ctx.judge(r, q, "unknown collection", isF(n), "items of an unknown collection may be moved", relevant=VALUE)
        elif some:
            p = permitted(q, "can_transfer", t)
            ok = called("can_transfer")(n) and strip(n.args[1]) is strip(t) or p is not None and (isT(n) if p else isF(n))
            ctx.judge(r, q, "its type's permission", ok, lambda: f"value {show(n)[:80]}", relevant=VALUE)


def _reserved(ctx):
    r, qs = pick(ctx, "is_id_reserved", True)
    for q in qs:
        n = q.node
        if isT(n) or isF(n):
            h = reserved(q, r.arg(0))
            ctx.judge(r, q, "reserved range", None if h is None else h == isT(n), "an identifier's reservation does not follow the range", relevant=VALUE)
        else:
            lt = n.args[0] if n.op == "not" else None
            ok = n.op == "le" and strip(n.args[0]) is r.arg(0) and strip(n.args[1]).op == "cfg" or lt is not None and lt.op == "lt" and strip(lt.args[1]) is r.arg(0) and strip(lt.args[0]).op == "cfg"
            bad = n.op in ("lt", "le") or lt is not None and lt.op in ("lt", "le")
            ctx.judge(r, q, "reserved range", True if ok else False if bad else None, lambda: f"value {show(n)[:80]}", relevant=VALUE)
