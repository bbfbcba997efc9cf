"""FRAME model for the evaluator: storage items, origins, external (Config) calls, events, transactions.

Every dispatchable is evaluated path by path; a path carries the facts that hold on it and the ordered trace of
effects: storage writes, calls through the Config's associated types or other crates, and deposited events."""
from .interp import *
from .interp import Interp, St, Frame, Budget
from .front import World, tyname, tystr, Fn, REPO

# methods of external traits that only read
READS = {"balance", "free_balance", "total_balance", "total_issuance", "minimum_balance", "reducible_balance", "reserved_balance", "reserved_balance_named",
         "ensure_can_withdraw", "can_withdraw", "can_deposit", "can_reserve", "can_slash", "current_block_number", "block_number", "exists", "is_trading_account",
         "get", "get_price", "get_entry", "get_liquidity", "get_volume", "entry", "account_id", "name", "decimals", "retrieve_asset", "retrieve_asset_type",
         "owner", "collection_owner", "get_pool_type", "get_route", "spot_price", "calculate_sell", "calculate_buy", "asset_price", "is_sufficient", "existential_deposit",
         "asset_name", "asset_type", "is_blacklisted", "is_banned", "contains", "weight", "convert", "convert_location", "into_sub_account_truncating", "into_account_truncating",
         "evm_address", "account_id_checked", "bound_account_id", "can_deploy_contracts", "get_fee", "price", "get_timestamp", "now", "unix_time", "sell_weight", "buy_weight",
         "is_frozen", "rate_limit_status", "pot_account_id", "farm_account_id", "shared_pot", "get_global_farm_id", "asset_to_location", "get_asset_id", "asset_exists",
         "range", "is_valid", "account_nonce", "block_hash", "amount", "reserved", "can_create", "pool_account", "get_trade_weight", "get_liquidity_depth",
         "asset_details", "pair_account_from", "assets", "trading_account", "default", "info", "status", "locks", "issuance", "limit", "get_pool_state", "calculate_spot_price_with_fee",
         "calculate_spot_price", "parent_hash", "events", "as_u64", "is_external_asset", "random", "iter", "count", "proposal", "peek", "maximum_balance", "max_balance", "hash", "using_encoded", "encode", "decode", "from", "try_from", "into", "saturated_from", "ref_time", "proof_size",
         "from_assets", "balance_of", "balance", "asset_id", "id", "is_root", "supply", "is_zero", "hash_of", "is_err", "is_ok", "len", "decode_with_depth_limit", "is_native", "try_get",
         "get_pair_id", "get_share_token", "get_pool_assets", "get_liquidity_behind_shares", "pot_account"}
STATEFUL_READ = {"free_balance", "total_balance", "total_issuance", "reducible_balance", "reserved_balance", "reserved_balance_named", "balance_of", "supply", "get_balance", "balance"}
RET = {"balance": ("u128",), "free_balance": ("u128",), "total_balance": ("u128",), "total_issuance": ("u128",), "minimum_balance": ("u128",), "reducible_balance": ("u128",),
       "reserved_balance": ("u128",), "reserved_balance_named": ("u128",), "transfer": ("Result", ("tup",), ("DispatchError",)), "deposit": ("Result", ("tup",), ("DispatchError",)),
       "withdraw": ("Result", ("tup",), ("DispatchError",)), "ensure_can_withdraw": ("Result", ("tup",), ("DispatchError",)), "exists": ("bool",),
       "existential_deposit": ("u128",)}
STORE_OPS = {"get", "insert", "put", "set", "remove", "kill", "take", "mutate", "try_mutate", "try_mutate_exists", "mutate_exists", "append", "try_append",
             "contains_key", "exists", "try_get", "iter", "iter_keys", "iter_values", "iter_prefix", "iter_prefix_values", "iter_key_prefix", "clear", "clear_prefix", "remove_prefix",
             "remove_all", "drain", "drain_prefix", "swap", "translate", "decode_len", "count", "mutate_extant", "iter_from", "initialize_counter", "hashed_key_for", "hashed_key", "storage_prefix",
             "storage_info", "final_prefix", "iter_from_key", "contains_prefix", "set_count", "decode_non_dedup_len", "get_or_default", "map_storage_version", "storage_version", "prefix_hash", "module_prefix"}
PURE_CALLS = {"into_account_truncating", "into_sub_account_truncating", "contains", "delta_update", "merge", "price", "weight_cap", "is_safe_withdrawal", "all", "any", "extend_from_slice"}
PURE_OPS = {"get", "contains_key", "exists", "try_get", "iter", "iter_keys", "iter_values", "iter_prefix", "iter_prefix_values", "iter_key_prefix", "decode_len", "count", "iter_from",
            "hashed_key_for", "hashed_key", "storage_prefix", "final_prefix", "iter_from_key", "contains_prefix", "get_or_default", "module_prefix", "prefix_hash", "storage_info"}


def foreign(e):
    """a call of another pallet's function whose body is not read: it may change anything"""
    return e[0] == "call" and "::Pallet::" in str(e[1])


class Storage:
    def __init__(self, name, kind, hashers, keys, value, query, mod, item):
        self.name, self.kind, self.hashers, self.keys, self.value, self.query, self.mod, self.item = name, kind, hashers, keys, value, query, mod, item


def has_attr(it, name):
    return any(a[0].replace(" ", "") == name for a in it.get("attrs", []))


def attr(it, name):
    for a in it.get("attrs", []):
        if a[0].replace(" ", "") == name:
            return a[1]
    return None


NMAP = {"StorageValue": 0, "CountedStorageMap": 1, "StorageMap": 1, "StorageDoubleMap": 2, "StorageNMap": -1, "CountedStorageNMap": -1}


class Pallet:
    """the parts of one pallet crate that the rules talk about"""

    def __init__(self, world, cname, also=()):
        self.w = world
        self.c = world.crates[cname]
        self.name = cname
        self.storage = {}
        self.getters = {}
        plain = not cname.startswith("pallets/")        # storage outside a pallet module is a plain alias
        for n, a in [(k, x[1]) for c in [self.c] + [world.crates[x] for x in also if x in world.crates] for m in c.modules for k, v in m.items.items() for x in v if x[0] == "type"]:
            if has_attr(a, "pallet::storage") or plain and a.get("ty") and a["ty"][0] == "tp" and a["ty"][2][-1][0] in NMAP:
                t = a["ty"]
                if t[0] != "tp":
                    continue
                kind = t[2][-1][0]
                raw = [x for x in t[2][-1][1]]
                args = raw[1:]
                nam = {x[1]: x[2] for x in raw if x[0] == "tassoc"}
                hs, ks, v, q = [], [], None, "OptionQuery"
                if nam:
                    if "Hasher" in nam:
                        hs, ks = [tyname(nam["Hasher"])], [nam["Key"]]
                    if "Hasher1" in nam:
                        hs, ks = [tyname(nam["Hasher1"]), tyname(nam["Hasher2"])], [nam["Key1"], nam["Key2"]]
                    v = nam.get("Value")
                    q = nam.get("QueryKind", q)
                elif kind == "StorageValue":
                    v = args[0] if args else None
                    q = args[1] if len(args) > 1 else q
                elif kind in ("StorageMap", "CountedStorageMap") and len(args) > 2:
                    hs, ks, v = [tyname(args[0])], [args[1]], args[2]
                    q = args[3] if len(args) > 3 else q
                elif kind == "StorageDoubleMap" and len(args) > 4:
                    hs, ks, v = [tyname(args[0]), tyname(args[2])], [args[1], args[3]], args[4]
                    q = args[5] if len(args) > 5 else q
                elif kind in ("StorageNMap", "CountedStorageNMap") and len(args) > 1:
                    ks_ = args[0][1] if args[0][0] == "ttup" else [args[0]]
                    for x in ks_:
                        if x[0] == "tp" and x[2][-1][0] == "NMapKey":
                            hs.append(tyname(x[2][-1][1][0]))
                            ks.append(x[2][-1][1][1])
                    v = args[1]
                    q = args[2] if len(args) > 2 else q
                if not isinstance(q, str):
                    q = tyname(q)
                g = attr(a, "pallet::getter")
                if g:
                    self.getters[g.replace("fn", "").strip()] = n
                self.storage[n] = Storage(n, kind, hs, ks, v, q, a["_mod"], a)
        self.calls = {}
        self.callitems = []
        self.hooks = {}
        for f in self.c.fns:
            if f.impl is None or "tests" in f.mod.path:
                continue
            if has_attr(f.impl, "pallet::call"):
                self.calls[f.name] = f
                self.callitems.append(f)
            elif f.impl["trait"] and (f.impl["trait"][-1][0] if isinstance(f.impl["trait"][-1], list) else f.impl["trait"]) == "Hooks":
                self.hooks[f.name] = f

    def model(self, **kw):
        return Model(self, **kw)

    def run(self, fname, budget=3000, fn=None, outs=False, **kw):
        f = fn or self.calls.get(fname) or self.fn(fname)
        m = self.model(**kw)
        it = Interp(self.w, m, max_states=budget)
        it.merge_errs = True
        it.deadline = __import__("time").time() + kw.get("time", 60)
        it.outs = outs
        res = it.run(f)
        return Runs(self, f, it, res)

    def fn(self, name):
        r = [f for f in self.c.by_name.get(name, []) if "tests" not in f.mod.path]
        inh = [f for f in r if f.impl is not None and f.impl["trait"] is None and tyname(f.impl["self"]) == "Pallet"]
        own = [f for f in r if f.impl is not None and tyname(f.impl["self"]) == "Pallet"]
        return (inh or own or r or [None])[0]


def ptype(m, it, t, mod, crate):
    fr = Frame(None, mod, None, 0)
    return it.T(t, fr)


class Model:
    def __init__(self, pallet, deep=(), opaque=()):
        self.p = pallet
        self.deep = set(deep)          # other crates to inline
        self.opaque = set(opaque)      # own functions left uninterpreted
        self.traits = pallet.w.crates.get("traits")

    # ---- hooks of the evaluator ----------------------------------------------------------
    def inline(self, it, fn, vs, st, fr):
        if fn.name in self.opaque or fn.qual in self.opaque:
            return False
        c = fn.mod.crate.name
        return c == self.p.name or c in self.deep or c in ("primitives", "traits")

    def path(self, it, names, e, st, fr):
        return None

    def arith(self, it, op, a, b, ty, line, st, fr):
        return None

    def macro(self, it, e, st, fr):
        name = e[2]
        if name in ("defensive",):
            return [(st, UNITV)]
        if name in ("vec", "ensure", "fail"):
            return None
        return None

    def storage_of(self, it, names, fe, fr):
        """Storage item addressed by a call path"""
        nm = None
        if fe is not None and fe[3] is not None:
            q = fe[3][0]
            if q[0] == "tp" and q[1] is None:
                nm = [s[0] for s in q[2]]
        elif len(names) >= 2:
            nm = names[:-1]
        if not nm:
            return None
        s = self.p.storage.get(nm[-1])
        if s is None or nm[0] in ("T", "Self") and len(nm) > 1:
            return None
        if len(nm) == 1 or nm[0] in ("crate", "super", "self", "pallet"):
            return s
        return None

    def call(self, it, names, fe, vs, st, fr, line, ex):
        self.gens = {g for g, b in fr.fn.impl["generics"][0]} if fr is not None and fr.fn is not None and fr.fn.impl is not None and fr.fn.impl.get("generics") else ()
        last = names[-1]
        s = self.storage_of(it, names, fe, fr)
        if s is not None and last in STORE_OPS:
            return self.storage_op(it, s, last, vs, st, fr, line)
        if len(names) == 2 and names[0] in ("Self", "Pallet") and last in self.p.getters and not any(f.impl is not None and f.impl["trait"] is None for f in it.self_methods(fr, last)):
            return self.storage_op(it, self.p.storage[self.p.getters[last]], "get", vs, st, fr, line)
        if len(names) == 2 and last in ("one", "zero") and not vs and names[0] not in ("Self",):
            t = it.T(["tp", None, fe[2][:-1]], fr) if fe is not None and fe[3] is None else None
            if t is None or t[0] not in SCALE:
                return [(st, Num(ONE if last == "one" else ZERO, t if t and t[0] in WIDTH else ("int",)))]
        if fe is not None and fe[3] is not None and fe[3][1] == 0 and fe[3][0][0] == "tp" and fe[3][0][2][-1][0] == "Pallet" and len(fe[3][0][2]) == 1:
            f = self.p.fn(last)
            if f is not None:
                return it.inline(f, vs, st, fr, line)
        f = self.trait_fn(it, names, fe, fr)
        if f is not None:
            return it.inline(f, vs, st, fr, line)
        if names in (["One", "one"], ["Zero", "zero"]) and not vs:
            return [(st, Num(ONE if last == "one" else ZERO, ("int",)))]
        if last in ("swap", "replace", "take") and len(names) >= 2 and names[-2] == "mem":
            lv = [(v.slot, v.path) if isinstance(v, MutRef) else None for v in vs]
            if lv[0] is not None and (last != "swap" or lv[1] is not None):
                old = it.readref(vs[0], st)
                if last == "swap":
                    b = it.readref(vs[1], st)
                    s1 = it.store_lv(lv[0], b, st, fr)
                    return [(it.store_lv(lv[1], old, s1, fr), UNITV)]
                new = it.force(vs[1], st) if last == "replace" else Num(mk("default"), getattr(old, "ty", None))
                return [(it.store_lv(lv[0], new, st, fr), old)]
        # origins
        if last in ("ensure_signed", "ensure_root", "ensure_none", "ensure_signed_or_root") and len(vs) == 1:
            return [(st, self.origin(it, last[7:], vs[0], st))]
        if last in ("ensure_origin", "try_origin", "ensure_origin_or_root") and vs:
            who = self.cfgname(names[:-1], fe)
            o = self.origin(it, who, vs[0], st)
            if last == "try_origin":
                o.err = it.force(vs[0], st)     # the origin is handed back
            return [(st, o)]
        if last == "with_transaction" or (last in ("with_storage_layer", "transactional", "with_transaction_result") and len(vs) == 1):
            return self.transaction(it, last, vs, st, fr, line)
        if last in ("Commit", "Rollback") and len(vs) == 1 and len(names) >= 2 and names[-2] == "TransactionOutcome":
            return [(st, Var(last, [it.force(vs[0], st)]))]
        if last == "deposit_event" and len(vs) == 1:
            s2 = it.eff(st, fr, line, "event", self.evname(vs[0]), [tonode_(it.force(vs[0], st))], None)
            return [(s2, UNITV)]
        c = self.cfgname(names[:-1], fe)
        if c is not None and not (len(names) == 2 and names[0] == "Self" and self.own(it, fr, last)):
            return self.external(it, c, last, vs, st, fr, line, ex)
        if len(names) >= 2 and names[0] == "frame_system" or (fe is not None and fe[3] is not None and "frame_system" in tystr(fe[3][0])):
            return self.external(it, "System", last, vs, st, fr, line, ex)
        if names[0] == "T" and len(names) == 2:
            return self.external(it, "T", last, vs, st, fr, line, ex)
        if last == "mutate" and len(names) >= 3 and names[0].startswith("pallet_") and names[-2][:1].isupper() and vs and type(vs[-1]).__name__ in ("Closure", "Clo", "Lam"):
            # an item of another pallet: what it held, changed by the closure, is what it holds
            base = "::".join(names[:-1])
            ks = [tonode_(it.force(v, st)) for v in vs[:-1]]
            it.slotc += 1
            slot = it.slotc
            s1 = st.copy()
            s1.store[slot] = Num(mk("call", base + "::get", *ks), ("int",))
            s1.store[("ty", slot)] = None
            outs = []
            for s2, v in it.apply(vs[-1], [MutRef(slot)], s1, fr, line):
                new = tonode_(it.force(s2.store[slot], s2))
                outs.append((it.eff(s2, fr, line, "call", base + "::set", ks + [new], None), it.force(v, s2)))
            return outs
        return None

    def trait_fn(self, it, names, fe, fr):
        """`<Self as Trait>::f`, `<Pallet<T> as Trait>::f`, and `Self::f` inside a default method of a trait"""
        tr = None
        if fe is not None and fe[3] is not None:
            q, pos = fe[3][0], fe[3][1]
            if tystr(q).split("<")[0] in ("Self", "Pallet", "crate::Pallet") and 0 < pos < len(fe[2]):
                tr = fe[2][pos - 1][0]
            if tr is None or pos != len(fe[2]) - 1:
                return None
        elif len(names) == 2 and names[0] == "Self" and fr.fn is not None and fr.fn.trait is not None:
            tr = fr.fn.trait["name"]
        elif len(names) == 2 and names[0] in self.p.w.crates.get("traits", self.p.c).traits and names[0] != "Config":
            tr = None
        if tr is None or tr == "Config":
            return None
        fs = [f for f in self.p.c.by_name.get(names[-1], []) if f.impl is not None and f.impl["trait"] and f.impl["trait"][-1][0] == tr and "tests" not in f.mod.path]
        own = "Pallet"
        if fe is not None and fe[3] is not None and tystr(fe[3][0]).split("<")[0] == "Self" and fr.fn is not None and fr.fn.impl is not None:
            own = tyname(fr.fn.impl["self"])
        for f in fs:
            if tyname(f.impl["self"]) == own:
                return f
        if fs:
            return fs[0]
        if self.traits is not None:
            for f in self.traits.by_name.get(names[-1], []):
                if f.trait is not None and f.trait["name"] == tr:
                    return f
        return None

    def own(self, it, fr, name):
        return bool(it.self_methods(fr, name)) if fr.fn is not None else False

    def cfgname(self, pre, fe):
        """name of the Config item behind `T::X`, `<T as Config>::X`, `<T::X as Trait>` or a generic parameter"""
        if fe is not None and fe[3] is not None:
            q, pos = fe[3][0], fe[3][1]
            if q[0] == "tp":
                qs = [s[0] for s in q[2]]
                if q[1] is not None:      # <<T as Config>::X as Trait>::f
                    return qs[-1]
                if qs[0] in ("T", "Self") and len(qs) == 2:
                    return qs[1]
                if qs == ["T"]:
                    rest = [s[0] for s in fe[2][pos:-1]]
                    if rest and pos > 1 and fe[2][0][0].startswith("pallet_") and rest[-1] in self.owncfg() and rest[-1] != "WeightInfo":
                        return rest[-1] + "@" + fe[2][0][0]      # another pallet's item of the same name
                    return rest[-1] if rest else None
                if qs == ["Self"]:
                    # <Self as Config>::X::f ; <Self as Trait>::f is resolved by the evaluator
                    rest = [s[0] for s in fe[2][pos:-1]]
                    return rest[-1] if rest else None
                if len(qs) == 1 and self.generic(qs[0]):
                    return qs[0]
            return None
        if len(pre) == 2 and pre[0] in ("T", "Self"):
            return pre[1]
        if len(pre) == 1 and self.generic(pre[0]):
            return pre[0]
        # module level alias of a Config item:  type X<T> = <T as Config>::X;
        if len(pre) == 1 and pre[0] in self.p.c.aliases and not has_attr(self.p.c.aliases[pre[0]], "pallet::storage"):
            t = self.p.c.aliases[pre[0]]["ty"]
            if t[0] == "tp" and (t[1] is not None and tystr(t[1][0]) in ("T",) or [s[0] for s in t[2]][:1] == ["T"]):
                return t[2][-1][0]
        return None

    def owncfg(self):
        if getattr(self, "_owncfg", None) is None:
            self._owncfg = {x["name"] for t in self.p.c.traits.values() if t["name"] == "Config" for x in t["items"] if x["k"] == "type"}
        return self._owncfg

    gens = ()

    def generic(self, n):
        if n in self.gens and n in ("AMM", "MC", "B", "Currency", "Trade", "Route", "Inner", "Lookup", "Oracle"):
            return True
        return n in ("AMM", "MC", "B", "Currency", "Trade", "Route", "Inner", "Lookup", "Oracle") and n not in self.p.c.structs and n not in self.p.storage

    def origin(self, it, kind, o, st):
        on = tonode_(it.force(o, st))
        P.leaf(mk("signer", kind, on), ("AccountId",))
        return Part(Num(mk("signer", kind, on), ("AccountId",)), [(mk("origin", kind, on), True)], "Result", Num(mk("const", "BadOrigin")))

    def evname(self, v):
        n = tonode_(v)
        return n.op.split(":")[1] if ":" in n.op else n.op

    def transaction(self, it, last, vs, st, fr, line):
        out = []
        before = {k: v for k, v in st.store.items() if isinstance(k, tuple)}
        for s, v in it.apply(vs[0], [], st, fr, line):
            v = it.force(v, s)
            if last == "with_transaction":
                if isinstance(v, Var) and v.name in ("Commit", "Rollback"):
                    roll = v.name == "Rollback"
                    v = v.xs[0]
                else:
                    it.note_opaque("transaction outcome")
                    roll = False
            else:
                roll = isinstance(v, Var) and v.name == "Err"
            if roll:
                s = s.copy()
                for k in [k for k in s.store if isinstance(k, tuple)]:
                    del s.store[k]
                s.store.update(before)
                undone = s.eff[len(st.eff):]
                s.eff = st.eff
                s = it.eff(s, fr, line, "rollback", last, [], None, undone)
            out.append((s, v))
        return out

    # ---- storage ----------------------------------------------------------------------------
    def version(self, s, st):
        return st.store.get(("ver", s.name))

    def base(self, it, s, keys, st):
        v = self.version(s, st)
        n = mk("st", s.name, *keys) if v is None else mk("st", s.name, *keys, mk("ver", v))
        fr = Frame(None, s.mod, None, 0)
        ty = it.T(s.value, fr) if s.value is not None else None
        if s.query == "ValueQuery":
            return it.sym(n, ty)
        return Part(it.sym(mk("payload", n), ty), [(mk("is", n, "Some"), True)], "Option")

    def key(self, s, keys):
        return ("stg", s.name, tuple(k.id for k in keys))

    def read(self, it, s, keys, st):
        """current value; ValueQuery items give the value, others an Option"""
        k = self.key(s, keys)
        if k in st.store:
            return st.store[k]
        st.store[("rd",) + tuple(k)] = st.store.get(("wc", s.name), 0)
        return self.base(it, s, keys, st)

    def default(self, it, s):
        ty = it.T(s.value, Frame(None, s.mod, None, 0))
        try:
            return it.default(ty)
        except Exception:
            return Num(mk("default", s.name), ty)

    def put(self, it, s, keys, val, st, fr, line, how="write"):
        st = it.eff(st, fr, line, how, s.name, list(keys) + [tonode_(val) if val is not None else mk("removed")], None,
                    (list(keys), val, st.store.get(("rd",) + tuple(self.key(s, keys))), st.store.get(("wc", s.name), 0)))
        st.store[("wc", s.name)] = st.store.get(("wc", s.name), 0) + 1
        if val is None:
            val = self.default(it, s) if s.query == "ValueQuery" else Var("None")
        elif s.query != "ValueQuery" and how == "write":
            val = Var("Some", [val])
        st.store[self.key(s, keys)] = val
        return st

    def clobber(self, s, st, why):
        st = st.copy()
        for k in [k for k in st.store if isinstance(k, tuple) and k[0] == "stg" and k[1] == s.name]:
            del st.store[k]
        st.store[("ver", s.name)] = why
        return st

    def keys(self, it, s, vs, st):
        ks = []
        n = NMAP.get(s.kind, 1)
        if n == -1:
            n = 1
        for v in vs[:n]:
            v = it.force(v, st)
            if isinstance(v, Tup) and s.kind in ("StorageNMap", "CountedStorageNMap"):
                ks += [tonode_(x) for x in v.xs]
            else:
                ks.append(tonode_(v))
        return ks, vs[n:]

    def storage_op(self, it, s, op, vs, st, fr, line):
        full = NMAP.get(s.kind, 1)
        if op in ("iter", "iter_keys", "iter_values", "iter_prefix", "iter_prefix_values", "iter_key_prefix", "iter_from", "iter_from_key"):
            ns = [tonode_(it.force(v, st)) for v in vs]
            ver = self.version(s, st)
            dirty = [k for k in st.store if isinstance(k, tuple) and k[0] == "stg" and k[1] == s.name]
            n = mk("stiter", op, s.name, *ns, *( [mk("ver", ver)] if ver else []), *([mk("dirty", len(dirty))] if dirty else []))
            f2 = Frame(None, s.mod, None, 0)
            vt = it.T(s.value, f2)
            kts = [it.T(k, f2) for k in s.keys]
            kt = kts[0] if len(kts) == 1 else (("tup",) + tuple(kts))
            el = {"iter": ("tup", kt, vt), "iter_keys": kt, "iter_values": vt, "iter_prefix_values": vt}.get(op)
            if op in ("iter_prefix", "iter_key_prefix") and len(kts) == 2:
                el = ("tup", kts[1], vt) if op == "iter_prefix" else kts[1]
            return [(st, Num(n, ("Vec", el)))]
        if op in ("clear", "clear_prefix", "remove_prefix", "remove_all", "drain", "drain_prefix", "translate", "swap"):
            ns = [tonode_(it.force(v, st)) for v in vs]
            st = it.eff(st, fr, line, "write", s.name, ns + [mk("cleared", op)], None, (ns, None))
            it.loopc += 1
            st = self.clobber(s, st, f"C{it.loopc}")
            return [(st, Num(mk("call", s.name + "." + op, *ns)))]
        if op in ("decode_len", "count", "hashed_key_for", "hashed_key", "storage_prefix", "contains_prefix", "initialize_counter", "storage_info", "final_prefix"):
            return [(st, Num(mk("call", s.name + "." + op, *[tonode_(it.force(v, st)) for v in vs])))]
        ks, rest = self.keys(it, s, vs, st)
        if op == "get" or op == "get_or_default":
            return [(st, self.read(it, s, ks, st))]
        if op == "try_get":
            v = self.read(it, s, ks, st)
            if isinstance(v, Part):
                return [(st, Part(v.v, v.conds, "Result", Num(UNIT)))]
            if isinstance(v, Var):
                return [(st, Var("Ok", v.xs) if v.name == "Some" else Var("Err", [UNITV]))]
            ver = self.version(s, st)
            n = mk("stexists", s.name, *ks, *([mk("ver", ver)] if ver else []))
            return [(st, Part(v, [(n, True)], "Result", Num(UNIT)))]
        if op in ("contains_key", "exists"):
            v = self.read(it, s, ks, st)
            if isinstance(v, Part):
                c = TRUE
                for n, p in v.conds:
                    c = mk("and", c, n if p else nnot(n)) if c is not TRUE else (n if p else nnot(n))
                return [(st, Num(c, ("bool",)))]
            if isinstance(v, Var) and v.name in ("Some", "None"):
                return [(st, Num(TRUE if v.name == "Some" else FALSE, ("bool",)))]
            if self.key(s, ks) in st.store:
                return [(st, Num(TRUE, ("bool",)))]
            ver = self.version(s, st)
            return [(st, Num(mk("stexists", s.name, *ks, *([mk("ver", ver)] if ver else [])), ("bool",)))]
        if op in ("insert", "put", "set"):
            v = it.force(rest[0], st)
            ty = it.T(s.value, Frame(None, s.mod, None, 0))
            if op == "set" and s.query != "ValueQuery":
                if isinstance(v, Var) and v.name == "None":
                    return [(self.put(it, s, ks, None, st, fr, line), UNITV)]
                if isinstance(v, Var) and v.name == "Some":
                    return [(self.put(it, s, ks, it.coerce(v.xs[0], ty), st, fr, line), UNITV)]
                return [(self.put(it, s, ks, v, st, fr, line, "set"), UNITV)]
            return [(self.put(it, s, ks, it.coerce(v, ty), st, fr, line), UNITV)]
        if op in ("remove", "kill"):
            return [(self.put(it, s, ks, None, st, fr, line), UNITV)]
        if op == "take":
            v = self.read(it, s, ks, st)
            return [(self.put(it, s, ks, None, st, fr, line), v)]
        if op in ("append", "try_append"):
            v = self.read(it, s, ks, st)
            x = tonode_(it.force(rest[0], st))
            n = mk("push", tonode_(v), x)
            s2 = self.put(it, s, ks, Num(n, v.ty if isinstance(v, Num) else None), st, fr, line)
            if op == "append":
                return [(s2, UNITV)]
            return [(s2, Part(UNITV, [(mk("fits", n), True)], "Result", Num(UNIT)))]
        if op in ("mutate", "try_mutate", "try_mutate_exists", "mutate_exists"):
            cur = self.read(it, s, ks, st)
            exists = op.endswith("_exists") and s.query == "ValueQuery"
            if exists:
                ver = self.version(s, st)
                if self.key(s, ks) in st.store:
                    cur = Var("Some", [cur])
                else:
                    cur = Part(cur, [(mk("stexists", s.name, *ks, *([mk("ver", ver)] if ver else [])), True)], "Option")
            it.slotc += 1
            slot = it.slotc
            s1 = st.copy()
            s1.store[slot] = cur
            s1.store[("ty", slot)] = None
            outs = []
            for s2, v in it.apply(rest[0], [MutRef(slot)], s1, fr, line):
                v = it.force(v, s2)
                new = it.force(s2.store[slot], s2)
                commit = True
                if op.startswith("try") and isinstance(v, Var) and v.name == "Err":
                    commit = False
                def store(s3, new=new):
                    if new is cur or tonode_(new) is tonode_(cur):
                        return s3
                    if exists:
                        if isinstance(new, Var) and new.name == "Some":
                            return self.put(it, s, ks, new.xs[0], s3, fr, line)
                        if isinstance(new, Var) and new.name == "None":
                            return self.put(it, s, ks, None, s3, fr, line)
                        if isinstance(new, Part):
                            return self.put(it, s, ks, new.v, s3, fr, line)
                        return self.put(it, s, ks, new, s3, fr, line)
                    if s.query == "ValueQuery":
                        return self.put(it, s, ks, new, s3, fr, line)
                    if isinstance(new, Var) and new.name == "Some":
                        return self.put(it, s, ks, new.xs[0], s3, fr, line)
                    if isinstance(new, Var) and new.name == "None":
                        return self.put(it, s, ks, None, s3, fr, line)
                    if isinstance(new, Part) and it.assume_all(s3, new.conds) is not None and not it.assume_not(s3, new.conds):
                        return self.put(it, s, ks, new.v, s3, fr, line)
                    return self.put(it, s, ks, new, s3, fr, line, "set")
                if op.startswith("try") and isinstance(v, (Part, Num)):
                    # undecided outcome: the write happens only on success
                    if isinstance(v, Part):
                        g = it.assume_all(s2, v.conds)
                        if g is not None:
                            outs.append((store(g), Var("Ok", [v.v])))
                        for b in it.assume_not(s2, v.conds):
                            outs.append((b, Var("Err", [v.err if v.err is not None else Num(mk("errof", tonode_(v.v)))])))
                    else:
                        n = tonode_(v)
                        c = mk("is", n, "Ok")
                        g = it.assume(s2, c, True)
                        if g is not None:
                            outs.append((store(g), Var("Ok", [Num(mk("payload", n))])))
                        b = it.assume(s2, c, False)
                        if b is not None:
                            outs.append((b, Var("Err", [Num(mk("errof", n))])))
                    continue
                outs.append((store(s2) if commit else s2, v))
            return outs
        it.note_opaque("storage op " + op)
        return [(st, Num(mk("call", s.name + "." + op, *ks)))]

    # ---- the outside world -------------------------------------------------------------------
    def epoch(self, st):
        return sum(1 for e in st.eff if e[0] == "ext" or e[0] == "loop" or foreign(e))

    def rettype(self, it, cfg, name):
        if name in RET:
            return RET[name]
        cands = []
        for tr in (self.traits, self.p.c):
            if tr is None:
                continue
            for t in tr.traits.values():
                if t["name"] == "Config":
                    continue
                for x in t["items"]:
                    if x["k"] == "fn" and x["name"] == name:
                        cands.append((t, x))
        if not cands:
            return None
        b = None
        for t in self.p.c.traits.values():
            if t["name"] == "Config":
                for x in t["items"]:
                    if x["k"] == "type" and x["name"] == cfg:
                        b = x.get("bounds", "")
        if b is not None:
            pick = [c for c in cands if c[0]["name"] in b.replace("<", " ").replace(":", " ").split()]
            if pick:
                cands = pick
        ts = {repr(x["ret"]) for t, x in cands}
        if len(ts) != 1:
            return None
        t, x = cands[0]
        fr = Frame(None, t["_mod"], ("Self",), 0)
        try:
            return it.T(x["ret"], fr)
        except Exception:
            return None

    def external(self, it, cfg, name, vs, st, fr, line, ex):
        fvs = [it.force(v, st) for v in vs]
        args = [tonode_(v) for v in fvs]
        nm = f"{cfg}.{name}"
        ty = self.rettype(it, cfg, name)
        if name == "get" and not args:
            n = mk("cfg", cfg)
            return [(st, Num(n, self.cfgtype(it, cfg)))]
        if name in READS and not (name == "convert" and len(args) > 2) or cfg == "WeightInfo" or (cfg == "System" and name not in ("inc_providers", "dec_providers", "inc_consumers", "dec_consumers", "inc_account_nonce", "deposit_event",
                                                                               "deposit_event_indexed", "inc_sufficients", "dec_sufficients", "remark", "set_block_number")):
            if name in STATEFUL_READ:
                n = mk("ext", nm, *args, mk("at", self.epoch(st)))
            else:
                n = mk("ext", nm, *args)
            P.leaf(n, ty)
            st2 = it.eff(st, fr, line, "read", nm, args, None) if name in ("calculate_sell", "calculate_buy") else st
            return [(st2, it.sym(n, ty))]
        n = mk("ext", nm, *args, mk("at", self.epoch(st)))
        s = it.eff(st, fr, line, "ext", nm, args, n, fvs)
        if ty is not None and ty[0] == "Result" and (ty[1] is None or ty[1] == ("tup",)):
            v = Part(UNITV, [(mk("is", n, "Ok"), True)], "Result", Num(mk("errof", n)))
        else:
            v = it.sym(n, ty)
        # closures handed to the outside may run: evaluate them for their effects
        for a in fvs:
            if isinstance(a, (Clo, FnV)):
                s = self.callback(it, a, n, nm, s, fr, line)
        for a in vs:
            if isinstance(a, MutRef):
                s = it.store_lv((a.slot, a.path), Num(mk("out", n, len(args))), s, fr)
        return [(s, v)]

    def callback(self, it, f, n, nm, st, fr, line):
        """a function handed to the outside: record what it returns (paths with their conditions and effects) when it is called with arguments unknown here"""
        it.note_opaque("closure passed to " + nm)
        try:
            if isinstance(f, Clo):
                k = len(f.params)
            else:
                g = f.item if isinstance(f.item, Fn) else self.p.fn(f.path[-1]) if len(f.path) == 1 or f.path[0] in ("Self", "Pallet") else None
                k = None if g is None else len([x for x in g.item["params"] if x])
            if k is None:
                return st
            ps = [Num(mk("cbarg", i)) for i in range(k)]
            res = []
            for s, v in it.apply(f, ps, st, fr, line):
                res.append((tuple(s.facts)[len(st.facts):] if tuple(s.facts)[:len(st.facts)] == tuple(st.facts) else tuple(s.facts), tonode_(it.force(v, s)), tuple(s.eff)[len(st.eff):]))
        except Budget:
            raise
        except Exception:
            return st
        return it.eff(st, fr, line, "callback", nm, [tonode_(f)], n, res)

    def cfgtype(self, it, cfg):
        for t in self.p.c.traits.values():
            if t["name"] == "Config":
                for x in t["items"]:
                    if x["k"] == "type" and x["name"] == cfg:
                        b = x.get("bounds", "").replace(" ", "")
                        if "Get<Balance>" in b or "Get<u128>" in b or "Get<BalanceOf" in b:
                            return ("u128",)
                        for k in ("u32", "u64", "FixedU128", "Permill", "Perbill", "u16", "u8", "Perquintill"):
                            if f"Get<{k}>" in b:
                                return (k,)
                        if "Get<Option<" in b:
                            return ("Option", None)
        return None

    def method(self, it, rv, name, tf, vs, st, fr, line, rv0, recv):
        # in-place mutation of something that the evaluator does not model
        from .interp import MUTATING
        if name == "get_mut" and len(vs) == 1 and not (isinstance(rv, Num) and rv.ty and rv.ty[0] == "Vec"):
            lv = (rv0.slot, rv0.path) if isinstance(rv0, MutRef) else (it.lvalue(recv, st, fr) if recv is not None else None)
            if lv is not None and not any(isinstance(x, tuple) for x in lv[1]):
                k = tonode_(it.force(vs[0], st))
                return [(st, Part(MutRef(lv[0], tuple(lv[1]) + (Key(k),)), [(mk("is", mk("m", "get", tonode_(rv), k), "Some"), True)], "Option"))]
        if name == "get_mut" and len(vs) == 1 and isinstance(rv, Num):
            lv = (rv0.slot, rv0.path) if isinstance(rv0, MutRef) else (it.lvalue(recv, st, fr) if recv is not None else None)
            if lv is not None and not any(isinstance(x, tuple) for x in lv[1]):
                k = tonode_(it.force(vs[0], st))
                return [(st, Part(MutRef(lv[0], tuple(lv[1]) + (Idx(k),)), [(lt(k, it.length(rv)), True)], "Option"))]
        if name in MUTATING | {"clone_from_slice", "get_mut", "entry", "force_push", "try_extend", "saturating_inc", "retain_mut", "try_from"}:
            lv = (rv0.slot, rv0.path) if isinstance(rv0, MutRef) else (it.lvalue(recv, st, fr) if recv is not None else None)
            if lv is not None and name in ("copy_from_slice", "clone_from_slice") and lv[1] and isinstance(lv[1][-1], tuple) and not any(isinstance(x, tuple) for x in lv[1][:-1]):
                return [(it.store_lv(lv, it.force(vs[0], st), st, fr), Num(mk("tuple"), None))]
            if lv is not None and not any(isinstance(x, tuple) for x in lv[1]):
                args = [tonode_(it.force(v, st)) for v in vs]
                old = tonode_(rv)
                new = Num(mk("mut", name, old, *args), rv.ty if isinstance(rv, Num) else None)
                s = it.store_lv(lv, new, st, fr)
                if name in ("try_push", "try_insert", "try_append", "try_extend"):
                    return [(s, Part(Num(mk("ret", name, old, *args)), [(mk("fits", new.n), True)], "Result", Num(UNIT)))]
                return [(s, Num(mk("ret", name, old, *args)))]
        if (name in ("next", "next_back", "read", "read_pointer", "read_till_end") and not vs or name == "read_raw_bytes") and isinstance(rv, Num):
            lv = (rv0.slot, rv0.path) if isinstance(rv0, MutRef) else (it.lvalue(recv, st, fr) if recv is not None else None)
            if lv is not None and not any(isinstance(x, tuple) for x in lv[1]):
                old = tonode_(rv)
                a = [tonode_(it.force(v, st)) for v in vs]
                return [(it.store_lv(lv, Num(mk("mut", name, old, *a), rv.ty), st, fr), Num(mk("m", name, old, *a), None))]
        if isinstance(rv, Num) and rv.n.op in ("signer",) and not vs and name in ("clone", "into", "as_ref"):
            return [(st, rv)]
        return None


class Path:
    """one exit of a function"""

    def __init__(self, st, val, it):
        self.st, self.val, self.it = st, val, it
        self.facts = st.facts
        self.eff = st.eff

    def out(self, i):
        """what the path leaves behind the i-th parameter, a mutable reference (runs with outs=True)"""
        sl = getattr(self.it, "outslots", {}).get(i)
        return tonode_(self.it.force(self.st.store[sl], self.st)) if sl is not None and sl in self.st.store else None

    @property
    def ok(self):
        v = self.val
        return not (isinstance(v, Var) and v.name in ("Err", "None"))


class Runs:
    def __init__(self, pallet, fn, it, res):
        self.pallet, self.fn, self.it = pallet, fn, it
        self.paths = []
        for st, v in res:
            v = it.force(v, st)
            if isinstance(v, Part) and v.kind == "Result":
                g = it.assume_all(st, v.conds)
                if g is not None:
                    self.paths.append(Path(g, Var("Ok", [v.v]), it))
                for b in it.assume_not(st, v.conds):
                    self.paths.append(Path(b, Var("Err", [v.err] if v.err is not None else []), it))
            elif isinstance(v, Num) and fn.item["ret"] is not None and "Result" in tystr(fn.item["ret"]):
                c = mk("is", v.n, "Ok")
                g = it.assume(st, c, True)
                if g is not None:
                    self.paths.append(Path(g, Var("Ok", [Num(mk("payload", v.n))]), it))
                b = it.assume(st, c, False)
                if b is not None:
                    self.paths.append(Path(b, Var("Err", [Num(mk("errof", v.n))]), it))
            else:
                self.paths.append(Path(st, v, it))
        self.okpaths = [p for p in self.paths if p.ok]
        self.errpaths = [p for p in self.paths if not p.ok]
