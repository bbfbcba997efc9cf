import os
"""EVM function selectors and keccak hashes."""
from rules.common import Result
from vt.front import World
from vt.interp import *
from vt.terms import Node as N
from vt.interp import Interp, Frame, St, tonode_, MutRef
from vt.spec import Finding


class HashModel:
    """Keccak256 as an uninterpreted function of the concatenated input"""

    def path(self, it, names, e, st, fr):
        return None

    def arith(self, it, op, a, b, ty, line, st, fr):
        return None

    def inline(self, it, fn, vs, st, fr):
        return True

    def macro(self, it, e, st, fr):
        return None

    def call(self, it, names, fe, vs, st, fr, line, ex):
        if len(names) >= 2 and names[-2] in ("Keccak256", "Sha3_256", "Keccak512", "Keccak224", "Keccak384", "Sha256"):
            a = (getattr(fr.mod, "uses", {}).get(names[-2]) or names[-2]).split("::")[-1]
            if names[-1] in ("new", "default"):
                return [(st, Num(mk("hst", a)))]
            if names[-1] == "digest" and len(vs) == 1:
                return [(st, Num(self.h(a, tonode_(it.force(vs[0], st)))))]
            if names[-1] == "new_with_prefix" and len(vs) == 1:
                return [(st, Num(mk("hst", a, tonode_(it.force(vs[0], st)))))]
        if len(names) == 2 and names[-1] in ("from_be_bytes", "from_le_bytes") and len(vs) == 1:
            return [(st, Num(mk(names[-1][5:7], names[0], self.first(it.force(vs[0], st)))))]
        return None

    def h(self, a, *xs):
        return mk("hash", a, *xs)

    def first(self, v):
        """the leading n bytes x[0..n] written as a slice or byte by byte"""
        n = tonode_(v)
        if isinstance(v, ListV):
            xs = [tonode_(x) for x in v.xs]
            if xs and all(x.op == "idx" and x.args[0] is xs[0].args[0] for x in xs):
                ix = [x.args[1].args[0] if x.args[1].op == "const" else None for x in xs]
                if ix == list(range(len(ix))):
                    return mk("head", xs[0].args[0], len(ix))
                return mk("bytesat", xs[0].args[0], *map(str, ix))
        return n

    def method(self, it, rv, name, tf, vs, st, fr, line, rv0, recv):
        n = tonode_(rv)
        if n.op == "hst" and name in ("update", "finalize", "finalize_reset", "chain", "chain_update"):
            if name in ("finalize", "finalize_reset"):
                return [(st, Num(self.h(*n.args)))]
            new = mk("hst", *n.args, tonode_(it.force(vs[0], st)))
            if name.startswith("chain"):
                return [(st, Num(new))]
            lv = (rv0.slot, rv0.path) if isinstance(rv0, MutRef) else it.lvalue(recv, st, fr)
            if lv is None:
                return None
            return [(it.store_lv(lv, Num(new), st, fr), UNITV)]
        if name in ("copy_from_slice", "clone_from_slice") and len(vs) == 1:
            lv = (rv0.slot, rv0.path) if isinstance(rv0, MutRef) else it.lvalue(recv, st, fr)
            if lv is None:
                return None
            src = it.force(vs[0], st)
            return [(it.store_lv(lv, Num(self.head(tonode_(src)), getattr(src, "ty", None)), st, fr), UNITV)]
        if name in ("as_bytes", "as_str", "to_vec", "as_slice", "into", "value", "try_into", "as_ref", "to_owned", "to_string") and not vs:
            if name == "try_into":
                return [(st, Var("Ok", [rv]))]
            if name == "value":
                return [(st, Num(mk("text", n)))]
            return [(st, rv)]
        return None

    def head(self, n):
        return n


RULE = ("Keccak256 is an uninterpreted function of its input; the hashing helpers and both selector macros are evaluated symbolically and every integer read from bytes "
        "must be the big-endian leading four bytes of the Keccak-256 hash of the signature text. Signature texts are folded from the source and compared with the ERC-20 interface and EIP-712 type strings.")
ERC20 = {
    "Name": "name()", "Symbol": "symbol()", "Decimals": "decimals()", "TotalSupply": "totalSupply()", "BalanceOf": "balanceOf(address)",
    "Allowance": "allowance(address,address)", "Transfer": "transfer(address,uint256)", "Approve": "approve(address,uint256)",
    "TransferFrom": "transferFrom(address,address,uint256)",
}
TYPES = {"PERMIT_TYPEHASH": "CallPermit(address from,address to,uint256 value,bytes data,uint64 gaslimit,uint256 nonce,uint256 deadline)",
         "PERMIT_DOMAIN": "EIP712Domain(string name,string version,uint256 chainId,address verifyingContract)"}


def hashof(n):
    """(algorithm, how many leading bytes) of a hash-derived byte string, or None"""
    if n.op == "hash":
        return n.args[0], 32
    if n.op == "slice" and isinstance(n.args[1], N) and n.args[1].op == "range":
        h = hashof(n.args[0])
        a = n.args[1].args
        lo, hi = a[0], a[1]
        lo = 0 if lo is None or getattr(lo, "op", "") == "none" else lo
        lo = lo.args[0] if isinstance(lo, N) and lo.op == "const" else lo
        hi = hi.args[0] if isinstance(hi, N) and hi.op == "const" else hi
        if isinstance(hi, N) and hi.op == "inf":
            hi = 32
        if h and isinstance(lo, int) and isinstance(hi, int):
            if len(a) > 2 and a[2] is True:
                hi += 1
            return (h[0], hi) if lo == 0 else (h[0], (lo, hi))
        return None
    if n.op == "head":
        h = hashof(n.args[0])
        return (h[0], n.args[1]) if h else None
    if n.op == "bytesat":
        h = hashof(n.args[0])
        return (h[0], tuple(n.args[1:])) if h else None
    return None


def subs(n, seen):
    if isinstance(n, N) and n not in seen:
        seen.add(n)
        for a in n.args:
            subs(a, seen)


def run(pid, tier):
    res = Result()
    crates = ["runtime/hydradx/src/evm/evm-utility", "precompiles/utils/macro", "precompiles/call-permit", "runtime/hydradx"]
    world = World(only=crates)
    c = dict(functions=0, hashes=0, decided=0, undecided=0)
    und = []

    def bad(fn, msg, key):
        res.findings.append(Finding("selector", fn.qual, fn.file, fn.line, msg, key))

    targets = []
    for cr in world.crates.values():
        for f in cr.fns:
            if "tests" in f.qual or "testing" in f.qual:
                continue
            txt = str(f.item.get("body"))
            if any(k in txt for k in ("Keccak256", "from_be_bytes", "from_le_bytes", "get_function_selector", "sha3_256", "'digest'", "Sha3")):
                if cr.name in ("module_evm_utility", "module_evm_utility_macro", "precompile_utils_macro") or "evm" in cr.name or "precompile" in cr.name:
                    targets.append(f)
    for f in targets:
        c["functions"] += 1
        it = Interp(world)
        it.model = HashModel()
        got = []
        orig = it.model.call
        omth = it.model.h

        def call(*a, _o=orig, **k):
            r = _o(*a, **k)
            if r:
                got.extend(tonode_(v) for _, v in r)
            return r
        it.model.call = call

        def h(*a, _o=omth):
            n = _o(*a)
            got.append(n)
            return n
        it.model.h = h
        try:
            outs = [v for _, v in it.run(f)]
        except Exception as e:
            c["undecided"] += 1
            und.append(f"{f.qual}: {type(e).__name__}")
            outs = []
        if os.environ.get('VDBG'):
            print(f.qual, got)
        for n in got:
            if n.op == "hash":
                c["hashes"] += 1
                c["decided"] += 1
                if n.args[0] != "Keccak256":
                    bad(f, f"hashes with {n.args[0]}, not Keccak256", f"{f.name}|alg")
            if n.op in ("be", "le"):
                hh = hashof(n.args[1])
                if hh is None:
                    c["undecided"] += 1
                    und.append(f"{f.qual}: {n}"[:160])
                    continue
                c["decided"] += 1
                if n.op == "le":
                    bad(f, "the selector is read little-endian", f"{f.name}|endian")
                elif hh[1] != 4:
                    bad(f, f"the selector is read from bytes {hh[1]} of the hash, not the first four", f"{f.name}|bytes")
        if f.name in ("sha3_256", "get_function_selector"):
            for o in outs:
                n = tonode_(o)
                hh = hashof(n.args[1]) if n.op == "be" else hashof(n)
                if hh is None:
                    c["undecided"] += 1
                    und.append(f"{f.qual}: result {n}"[:160])
                    continue
                c["decided"] += 1
                if hh != ("Keccak256", 4 if n.op == "be" else 32):
                    bad(f, f"the result is {hh}", f"{f.name}|result")
                hs = set()
                subs(n, hs)
                for x in hs:
                    if x.op == "hash" and (len(x.args) != 2 or str(x.args[1]) != "s"):
                        if all(isinstance(y, N) for y in x.args[1:]):
                            bad(f, f"the hash is taken of {[str(y)[:60] for y in x.args[1:]]}, not of the argument", f"{f.name}|input")
    # ERC-20 table
    rt = [cr for cr in world.crates.values() if any(f.file.endswith("precompiles/multicurrency.rs") for f in cr.fns)]
    tables = 0
    for cr in rt:
        es = [x["Action"] for x in [dict((n, i) for n, l in m.items.items() for k, i in l if k == "enum") for m in cr.modules if m.file.endswith("multicurrency.rs")] if "Action" in x]
        for e in es:
            tables += 1
            names = {}
            for v in e["variants"]:
                d = v[3]
                txt = d[3] if d and d[0] == "lit" and d[2] == "str" else None
                names[v[0]] = (txt, v[4])
            for k, want in ERC20.items():
                if k not in names:
                    c["undecided"] += 1
                    und.append("Action::" + k)
                    continue
                txt, line = names[k]
                if txt is None:
                    c["undecided"] += 1
                    und.append("Action::" + k)
                    continue
                c["decided"] += 1
                if txt.strip('"') != want:
                    res.findings.append(Finding("erc20", f"Action::{k}", "runtime/hydradx/src/evm/precompiles/multicurrency.rs", line, f"{k} is dispatched on the selector of {txt}, not of {want}", f"erc20|{k}"))
    for cr in world.crates.values():
        for k, want in TYPES.items():
            for m, x in cr.consts.get(k, []):
                e = x.get("expr") or x.get("val") or x.get("e")
                if not (e and e[0] == "macro"):
                    c["undecided"] += 1
                    und.append(k)
                    continue
                a = e[3]
                txt = a[0][3] if a and a[0][0] == "lit" else None
                if txt is None:
                    c["undecided"] += 1
                    continue
                c["decided"] += 1
                if txt.strip('"') != want:
                    res.findings.append(Finding("eip712", f"{k}", m.file, x.get("line", 0), f"{k} hashes {txt}, not {want}", f"type|{k}"))
    c["erc20_tables"] = tables
    res.coverage.update(c)
    res.coverage["explanation"] = RULE
    res.coverage["undecided_items"] = und
    res.assumptions = ["the hashing crate's Keccak256 is Keccak-256"]
    return res
