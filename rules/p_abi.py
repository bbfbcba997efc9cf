"""The Ethereum ABI of the precompiles: words, pointers, bytes and arrays read and written in bounds, selectors, function modifiers, log costs."""
from rules.p_evmfee import called
from rules.p_small import *
from rules.plib import lin as _lin
from vt.pallet import tyname
from vt.terms import const

VALUE = ("input", "data", "cursor")
RT, UT = "runtime/hydradx", "precompiles/utils"
WHERE = ((RT, "evm/precompiles/"), (UT, "precompiles/utils/src/"))
RULE = ("Every path of each reader and writer is evaluated and its result, what it leaves in the reader or writer, and the bound its facts establish before "
        "bytes are taken, are compared with the Ethereum ABI's layout; likewise the modifier check, selectors and log costs.")
UINTS = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128}


def fl(n, name):
    """field of a struct value"""
    n = strip(n)
    for _ in range(6):
        if n.op.startswith("struct:"):
            fs = n.op.split(":")[2].split(",")
            if name in fs:
                return strip(n.args[fs.index(name)])
            if len(n.args) > len(fs):
                n = strip(n.args[len(fs)])
                continue
        break
    return mk("fld", n, name)


def same_int(a, b):
    d = {}
    for x, k in ((a, 1), (b, -1)):
        for t, c in _lin(strip(x)).items():
            t = strip(t) if isinstance(t, Node) else t
            d[t] = d.get(t, 0) + k * c
    return not any(d.values())


def slen(n):
    n = strip(n)
    return n.args[0] if n.op == "len" else n.args[1] if n.op == "m" and n.args[0] == "len" else None


def is_len(n, of):
    x = slen(n)
    return x is not None and strip(x) is strip(of)


def rng(n):
    """(start, end or None) of a half open range"""
    n = strip(n)
    if n.op != "range" or str(n.args[2]).lower() == "true":
        return None
    e = strip(n.args[1])
    return strip(n.args[0]), None if e.op == "inf" else e


def span(n):
    """bytes taken out of `base`: (base, start, end, checked by get)"""
    n = strip(n)
    if n.op == "payload":
        m = strip(n.args[0])
        if m.op == "m" and m.args[0] == "get" and rng(m.args[2]):
            return (strip(m.args[1]),) + rng(m.args[2]) + (True,)
    if n.op in ("idx", "slice") and len(n.args) == 2 and rng(n.args[1]):
        return (strip(n.args[0]),) + rng(n.args[1]) + (n.op == "idx",)
    return None


def holds_ge(q, big, small):
    """facts say small <= big"""
    for f, p in q.facts:
        if f.op == "lt" and len(f.args) == 2:
            a, b = f.args
            la, lb = slen(a), slen(b)
            eq = lambda x, y: same_int(x, y) or (slen(x) is not None and slen(y) is not None and strip(slen(x)) is strip(slen(y)))
            if not p and eq(a, big) and eq(b, small):
                return True
            if p and eq(b, big) and eq(a, small):
                return True
    return False


def mentions_len(q):
    return any(slen(x) is not None for f, p in q.facts for x in f.args if isinstance(x, Node))


def unp(q):
    """the value inside Ok or Some"""
    n = strip(q.node)
    return strip(n.args[0]) if n.op.startswith("variant:") and n.op.split(":")[1] in ("Ok", "Some") and n.args else n


class Abi:
    def __init__(self, ctx, pn, where):
        self.ctx, self.pn, self.where, self.n = ctx, pn, where, 0

    def fns(self, name, self_=None, file=""):
        return [f for f in self.ctx.pallet(self.pn).c.by_name.get(name, []) if self.where in f.mod.file and file in f.mod.file and "tests" not in str(f.mod.path)
                and (self_ is None or (not f.impl if self_ == "" else f.impl and tyname(f.impl["self"]) == self_))]

    def run(self, f, opaque=()):
        r, qs = fnpaths(self.ctx, self.pn, f.name, fn=f, outs=True, opaque=opaque)
        return (r, qs) if r is not None else (None, [])

    def J(self, r, q, t, ok, msg, eff=None):
        self.ctx.judge(r, q, t, ok, msg, relevant=VALUE, eff=eff)

    # -- reading
    def word_read(self, ty, file):
        for f in self.fns("read", ty, file):
            r, qs = self.run(f)
            for q in qs:
                if not q.p.ok:
                    continue
                self.n += 1
                rd = r.arg(0)
                cur, inp = mk("fld", rd, "cursor"), mk("fld", rd, "input")
                v = unp(q)
                while v.op == "call" and str(v.args[0]).split("::")[-1] in ("from", "into") or v.op == "variant:Address":
                    v = strip(v.args[-1])
                nm = str(v.args[0]).split("::")[-1] if v.op == "call" else None
                want = "from_big_endian" if ty == "U256" else "from_slice"
                if nm not in ("from_big_endian", "from_slice", "from_little_endian"):
                    self.J(r, q, "a word is read", None, show(v)[:80])
                    continue
                d = strip(v.args[1])
                if ty == "Address":
                    s = span(d)
                    low = s is not None and num(s[1]) == 12 and (s[2] is None or num(s[2]) == 32)
                    self.J(r, q, "an address is the low 20 bytes", low, lambda: f"takes {show(d)[:80]}")
                    d = s[0] if s else d
                s = span(d)
                self.J(r, q, "a word is read at the cursor", nm == want and s is not None and s[0] is strip(inp) and same_int(s[1], cur) and s[2] is not None and same_int(s[2], mk("add", cur, const(32))),
                       lambda: f"reads {show(v)[:120]}")
                if s and s[2] is not None:
                    self.J(r, q, "a word is read in bounds", True if s[3] or holds_ge(q, mk("len", inp), s[2]) else None if mentions_len(q) else False, "bytes are taken without a bound")
                out = q.p.out(0)
                self.J(r, q, "the cursor moves by a word", out is not None and same_int(fl(out, "cursor"), mk("add", cur, const(32))) and fl(out, "input") is strip(inp),
                       lambda: f"leaves {show(out)[:100]}")

    def uint_read(self):
        for ty, bits in UINTS.items():
            for f in self.fns("read", ty):
                r, qs = self.run(f)
                for q in qs:
                    self.n += 1
                    rd = [e for e in q.eff if e.kind in ("ext", "call") and str(e.name).split(".")[-1].split("::")[-1] == "read"]
                    if len(rd) != 1 or strip(rd[0].args[0]) is not r.arg(0):
                        self.J(r, q, "an integer is read as one word", None if rd else False, "no word is read")
                        continue
                    v = unp(q)
                    raw = strip(v)
                    word = raw.op == "payload" and strip(raw.args[0]).op in ("ext", "call") and str(strip(raw.args[0]).args[0]).split(".")[-1].split("::")[-1] == "read"
                    fit = [(f2, p) for f2, p in q.facts if f2.op == "fits"]
                    if q.p.ok:
                        self.J(r, q, "an integer is the word's value", word, lambda: f"reads {show(raw)[:80]}")
                        self.J(r, q, f"a word too big for {ty} is refused", any(p and f2.args[1] == bits and strip(f2.args[0]) is raw for f2, p in fit),
                               "accepted without fitting the type")
                    else:
                        self.J(r, q, "only a word too big is refused", any(not p for f2, p in q.facts), "a fitting word is refused")

    def bool_read(self):
        for f in self.fns("read", "bool"):
            r, qs = self.run(f)
            for q in qs:
                if not q.p.ok:
                    continue
                self.n += 1
                v = unp(q)
                z = lambda x: x.op == "eq" and any(num(a) == 0 for a in x.args) and any(strip(a).op == "payload" for a in x.args)
                if isT(v) or isF(v):
                    fs = [p for f2, p in q.facts if z(strip(f2))]
                    ok = None if len(fs) != 1 else fs[0] == isF(v)
                else:
                    ok = True if v.op == "not" and z(strip(v.args[0])) else False if z(v) else None
                self.J(r, q, "true is any word but zero", ok, lambda: f"reads {show(v)[:80]}")

    def reader(self, ty):
        ctx = self.ctx
        for f in self.fns("move_cursor", ty):
            r, qs = self.run(f)
            for q in qs:
                if not q.p.ok:
                    continue
                self.n += 1
                me, n = r.arg(0), r.arg(1)
                cur = mk("fld", me, "cursor")
                end = mk("add", cur, n)
                g = rng(unp(q))
                self.J(r, q, "the cursor's span", g is not None and same_int(g[0], cur) and g[1] is not None and same_int(g[1], end), lambda: f"gives {show(unp(q))[:80]}")
                self.J(r, q, "the cursor moves over it", same_int(fl(q.p.out(0), "cursor"), end), lambda: f"cursor {show(fl(q.p.out(0), 'cursor'))[:80]}")
                self.J(r, q, "the cursor does not wrap", any(f2.op == "fits" and p and same_int(f2.args[0], end) for f2, p in q.facts), "the cursor may wrap")
        for f in self.fns("read_pointer", ty):
            r, qs = self.run(f)
            for q in qs:
                if not q.p.ok:
                    continue
                self.n += 1
                v = unp(q)
                s = span(fl(v, "input"))
                if s is None:
                    self.J(r, q, "a pointer", None, show(v)[:80])
                    continue
                off = s[1]
                self.J(r, q, "a pointer is the word read", strip(off).op == "payload" and contains_op(off, "read"), lambda: f"points at {show(off)[:80]}")
                self.J(r, q, "a pointer counts from the start of the input", s[0].op == "fld" and s[0].args[1] == "input" and s[2] is None and num(fl(v, "cursor")) == 0, lambda: f"reads {show(v)[:100]}")
                self.J(r, q, "a pointer is in bounds", True if s[3] or holds_ge(q, mk("len", s[0]), off) else None if len([1 for f2, p in q.facts if f2.op == "lt"]) > 1 else False, "points anywhere")
        for f in self.fns("new_skip_selector", ty):
            r, qs = self.run(f)
            for q in qs:
                if not q.p.ok:
                    continue
                self.n += 1
                v, a = unp(q), r.arg(0)
                s = span(fl(v, "input"))
                self.J(r, q, "arguments follow the selector", s is not None and s[0] is strip(a) and num(s[1]) == 4 and s[2] is None and num(fl(v, "cursor")) == 0, lambda: f"reads {show(v)[:100]}")
                self.J(r, q, "the selector is there", (s is not None and s[3]) or holds_ge(q, mk("len", a), const(4)), "input may be shorter")
        for f in self.fns("expect_arguments", ty):
            r, qs = self.run(f)
            for q in qs:
                self.n += 1
                me = r.arg(0)
                need = mk("add", mk("fld", me, "cursor"), mk("mul", r.arg(1), const(32)))
                L = mk("len", mk("fld", me, "input"))
                if q.p.ok:
                    self.J(r, q, "enough words are left", holds_ge(q, L, need), "accepted short")
                else:
                    short = any(f2.op == "lt" and p and slen(f2.args[0]) is not None and same_int(f2.args[1], need) for f2, p in q.facts)
                    self.J(r, q, "refused only when short", short, "exactly enough words are refused")
        for nm in ("read_raw_bytes", "read_till_end"):
            for f in self.fns(nm, ty):
                r, qs = self.run(f)
                for q in qs:
                    if not q.p.ok:
                        continue
                    self.n += 1
                    me = r.arg(0)
                    cur, inp = mk("fld", me, "cursor"), mk("fld", me, "input")
                    s = span(unp(q))
                    end = mk("add", cur, r.arg(1)) if nm == "read_raw_bytes" else None
                    if s is None:
                        self.J(r, q, "raw bytes", None, show(q.node)[:80])
                        continue
                    if end is None:
                        ok = s[2] is None or same_int(s[2], mk("len", inp))
                    else:
                        ok = s[2] is not None and same_int(s[2], end)
                    self.J(r, q, "raw bytes at the cursor", s[0] is strip(inp) and same_int(s[1], cur) and ok, lambda: f"takes {show(unp(q))[:100]}")
                    self.J(r, q, "raw bytes in bounds", True if s[3] else None if mentions_len(q) else False, "bytes are taken without a bound")
        for f in self.fns("read", ty):
            r, qs = self.run(f)
            for q in qs:
                self.n += 1
                rd = [e for e in q.eff if e.kind == "ext" and str(e.name).endswith(".read")]
                self.J(r, q, "read by the type asked for", len(rd) == 1 and strip(rd[0].args[0]) is r.arg(0), "not read by its type")

    def bytes_read(self, ty, bounded, array=False):
        for f in self.fns("read", ty):
            r, qs = self.run(f, opaque=("read_pointer", "move_cursor"))
            for q in qs:
                if not q.p.ok:
                    continue
                self.n += 1
                v = unp(q)
                if array:
                    d = v if not v.op.startswith("struct:") else fl(v, "inner")
                else:
                    d = fl(v, "data") if v.op.startswith("struct:") else strip(v.args[-1]) if v.args else v
                ptr = [n for n in walk(v) if n.op == "payload" and opn(n.args[0]) == "read_pointer"]
                lens = [f2 for f2, p in q.facts if f2.op == "fits" and p and strip(f2.args[0]).op == "payload" and opn(strip(f2.args[0]).args[0]) == "read"]
                if not ptr or len(lens) != 1:
                    self.J(r, q, "a dynamic value", None if ptr else False, "not found through a pointer")
                    continue
                L = strip(lens[0].args[0])
                self.J(r, q, "the length is the first word behind the pointer", any(x is strip(ptr[0]) for x in walk(L)), lambda: f"length {show(L)[:80]}")
                if bounded:
                    cap = any(f2.op == "lt" and not p and opn(f2.args[0]) == "get" and strip(f2.args[1]) is L or f2.op == "lt" and p and opn(f2.args[1]) == "get" and strip(f2.args[0]) is L for f2, p in q.facts)
                    self.J(r, q, "no longer than the type's bound", cap, "longer values are accepted")
                if array:
                    s = strip(d.args[0]) if d.op == "seq" else None
                    g = rng(s) if s is not None else None
                    self.J(r, q, "as many items as the length says", None if g is None else num(g[0]) == 0 and g[1] is L, lambda: f"reads {show(s)[:80]}")
                    base = [x for x in walk(d) if span(x) and num(span(x)[1]) is not None and span(x)[2] is None]
                    self.J(r, q, "items start after the length", None if not base else any(num(span(x)[1]) == 32 for x in base), lambda: f"items start at {[num(span(x)[1]) for x in base]}")
                    continue
                s = data_span(d)
                if s is None:
                    self.J(r, q, "the bytes behind the length", None, show(d)[:100])
                    continue
                m = s[1]
                ok = m.op == "payload" and opn(m.args[0]) == "move_cursor" and strip(strip(m.args[0]).args[-1]) is L and all(any(x is strip(ptr[0]) for x in walk(y)) for y in (s[0], strip(m.args[0]).args[1]))
                self.J(r, q, "the bytes behind the length", ok, lambda: f"takes {show(d)[:100]}")

    # -- writing
    def writes(self, file):
        def appended(out, w):
            d = fl(out, "data")
            return strip(d.args[2]) if d.op == "mut" and d.args[0] in ("extend_from_slice", "append", "extend") and strip(d.args[1]) is mk("fld", w, "data") else None
        for f in self.fns("write", "H256", file):
            r, qs = self.run(f)
            for q in qs:
                self.n += 1
                a = appended(q.p.out(0), r.arg(0))
                x = strip(a.args[1]) if a is not None and a.op == "m" and a.args[0] in ("as_bytes", "as_fixed_bytes", "to_fixed_bytes") else a
                self.J(r, q, "a word is appended as it is", a is not None and x is strip(r.arg(1)), lambda: f"leaves {show(q.p.out(0))[:100]}")
        for f in self.fns("write", "U256", file):
            r, qs = self.run(f)
            for q in qs:
                self.n += 1
                a = appended(q.p.out(0), r.arg(0))
                be = [e for e in q.eff if e.kind == "method" and str(e.name) == "to_big_endian" and strip(e.recv) is strip(r.arg(1))]
                le = [e for e in q.eff if e.kind == "method" and "little" in str(e.name)]
                ok = a is not None and len(be) == 1 and not le and strip(be[0].args[0]) is a and a.op == "repeat" and num(a.args[1]) == 32
                self.J(r, q, "an integer is appended as a big-endian word", ok if a is None or a.op == "repeat" or le else None, lambda: f"leaves {show(q.p.out(0))[:100]}")
        for ty in list(UINTS) + ["Address"]:
            for f in self.fns("write", ty, file):
                r, qs = self.run(f)
                for q in qs:
                    self.n += 1
                    w = [e for e in q.eff if e.kind in ("call", "ext") and str(e.name).split("::")[-1].split(".")[-1] == "write"]
                    v = strip(w[0].args[1]) if len(w) == 1 else None
                    want = strip(r.arg(1)) if ty != "Address" else mk("fld", r.arg(1), "0")
                    by = str(w[0].name).split("::")[0] if w else ""
                    self.J(r, q, "a small value is written as its word", v is not None and strip(w[0].args[0]) is r.arg(0) and (v is want or show(v) == show(want)) and by in (("H256",) if ty == "Address" else ("U256",)),
                           lambda: f"writes {[(e.name, show(e.args[-1])[:40]) for e in w]}")
        for f in self.fns("write", "bool", file):
            r, qs = self.run(f)
            for q in qs:
                self.n += 1
                a = appended(q.p.out(0), r.arg(0))
                fs = [p for f2, p in q.facts if strip(f2) is strip(r.arg(1))]
                if a is None or len(fs) != 1:
                    self.J(r, q, "a flag is a word of 0 or 1", None, show(q.p.out(0))[:80])
                    continue
                zero = lambda x: x.op == "repeat" and num(x.args[0]) == 0 and num(x.args[1]) == 32
                one = a.op == "upd" and zero(strip(a.args[0])) and num(a.args[1]) == 31 and num(a.args[2]) == 1
                self.J(r, q, "a flag is a word of 0 or 1", one if fs[0] else zero(a), lambda: f"appends {show(a)[:80]}")

    def dynamic_writes(self, ty):
        for f in self.fns("write", ty):
            r, qs = self.run(f, opaque=("build", "write_pointer"))
            for q in qs:
                self.n += 1
                ws = [e for e in q.eff if str(e.name).split("::")[-1] == "write_pointer"]
                if len(ws) != 1:
                    self.J(r, q, "bytes are written behind a pointer", False if not ws else None, "no pointer is written")
                    continue
                d = strip(ws[0].args[-1])
                w = next((x for x in walk(d) if x.op.startswith("struct:")), None)
                b = fl(w, "data") if w is not None else None
                lw = [e for e in q.eff if e.kind == "ext" and str(e.name).endswith(".write")]
                n = strip(lw[0].args[1]) if len(lw) == 1 else None
                v = strip(r.arg(1))
                own = slen(n) if n is not None else None
                self.J(r, q, "the length comes first", own is not None and (strip(own) is v or strip(own).op == "fld" and strip(strip(own).args[0]) is v and str(strip(own).args[1]) in ("0", "data")), lambda: f"first word {show(n)[:80] if n is not None else 'none'}")
                if b is None or b.op != "mut" or n is None:
                    self.J(r, q, "padded to whole words", None, "writer not understood")
                    continue
                c = strip(b.args[2])
                if c.op != "mut" or c.args[0] != "resize":
                    self.J(r, q, "padded to whole words", None if c.op == "mut" else False, lambda: f"appends {show(c)[:80]}")
                    continue
                self.J(r, q, "padded with zeros", num(c.args[3]) == 0, "padded with something else")
                bad = [k for k in range(130) if all(ev(f2, n, k) in (p, None) for f2, p in q.facts) and ev(c.args[2], n, k) not in (-(-k // 32) * 32, None)]
                dv = mk("div", n, const(32))
                up = lambda k: same_int(expand(c.args[2]), expand(mk("mul", const(32), mk("add", dv, const(k)) if k else dv)))
                self.J(r, q, "padded to whole words", False if bad else True if up(0) or up(1) else None, lambda: f"{bad[0]} bytes padded to {ev(c.args[2], n, bad[0])}")

    def writer(self, ty):
        for f in self.fns("write_pointer", ty):
            r, qs = self.run(f)
            for q in qs:
                self.n += 1
                me, o = r.arg(0), q.p.out(0)
                od = fl(o, "offset_data")
                c = strip(od.args[1]) if od.op == "push" else None
                if c is None or strip(od.args[0]) is not mk("fld", me, "offset_data"):
                    self.J(r, q, "a pointer is remembered", False if od is mk("fld", me, "offset_data") else None, "forgotten")
                    continue
                self.J(r, q, "a pointer sits where it was written", is_len(fl(c, "offset_position"), mk("fld", me, "data")), lambda: f"at {show(fl(c, 'offset_position'))[:60]}")
                self.J(r, q, "a pointer keeps its data", fl(c, "data") is strip(r.arg(1)) and num(fl(c, "offset_shift")) == 0, lambda: f"keeps {show(c)[:80]}")
                ph = [e for e in q.eff if str(e.name).split("::")[-1] == "write" and strip(e.args[0]) is me]
                self.J(r, q, "a pointer takes one word", len(ph) == 1 and str(ph[0].name).split("::")[0] in ("H256", "U256"), "no room for the pointer")
        for f in self.fns("write_raw_bytes", ty):
            r, qs = self.run(f)
            for q in qs:
                self.n += 1
                d = fl(q.node, "data")
                self.J(r, q, "raw bytes are appended", d.op == "mut" and d.args[0] in ("extend_from_slice", "append", "extend") and strip(d.args[1]) is mk("fld", r.arg(0), "data") and strip(d.args[2]) is strip(r.arg(1)), lambda: f"leaves {show(d)[:80]}")
        for f in self.fns("bake_offsets", ty):
            r, qs = self.run(f)
            if r is None or len(r.runs.it.loops_seen) != 1:
                continue
            l = r.runs.it.loops_seen[0]
            for q in qs:
                self.n += 1
                out, offs = r.arg(0), r.arg(1)
                be = [e for e in q.eff if e.kind == "method" and str(e.name) == "to_big_endian"]
                if len(be) != 1 or len(l["phi"]) != 1:
                    self.J(r, q, "pointers are filled in", False if not be and not any(e.kind == "method" for e in q.eff) else None, "pointers keep their placeholder")
                    continue
                acc, e = strip(tonode_(l["phi"][0])), be[0]
                s = span(strip(e.args[0]))
                it = next((x for y in (e.recv, e.args[0]) for x in walk(y) if x.op == "idx" and strip(x.args[0]) is strip(offs)), None)
                if s is None or it is None:
                    self.J(r, q, "pointers are filled in", None, "not understood")
                    continue
                pos, shift = mk("fld", it, "offset_position"), mk("fld", it, "offset_shift")
                self.J(r, q, "a pointer is written into its own word", s[0] is acc and same_int(s[1], pos) and s[2] is not None and same_int(s[2], mk("add", pos, const(32))), lambda: f"written to {show(e.args[0])[:100]}", e)
                dist = _lin(strip(e.recv))
                ln = [t for t in dist if t is not None and slen(t) is not None]
                ok = len(dist) == 2 and len(ln) == 1 and strip(slen(ln[0])) is acc and dist[ln[0]] == 1 and any(strip(t) is strip(shift) and c == -1 for t, c in dist.items() if t is not None and t is not ln[0])
                self.J(r, q, "a pointer is the distance to its data", ok, lambda: f"points at {show(e.recv)[:100]}", e)
                for st in l["ends"]:
                    v = strip(tonode_(st.store[l["slots"][0]]))
                    self.J(r, q, "pointed data is appended", v.op == "mut" and strip(v.args[1]) is acc and strip(v.args[2]).op == "fld" and strip(v.args[2]).args[1] == "data", lambda: f"leaves {show(v)[:80]}")
        for f in self.fns("build", ty):
            r, qs = self.run(f, opaque=("bake_offsets",))
            for q in qs:
                self.n += 1
                bk = [e for e in q.eff if str(e.name).split("::")[-1] == "bake_offsets"]
                self.J(r, q, "pointers are filled in on building", len(bk) == 1, "pointers are left unfilled")
                me, v = r.arg(0), strip(q.node)
                some = [p for f2, p in q.facts if f2.op == "is" and f2.args[1] == "Some" and strip(f2.args[0]).op == "fld" and strip(f2.args[0]).args[1] == "selector"]
                if len(some) != 1:
                    self.J(r, q, "the selector comes first", None, show(v)[:80])
                    continue
                isdata = lambda x: any(y.op == "fld" and y.args[1] == "data" for y in walk(x))
                head = lambda x: x.op == "to_be_bytes" or (x.op == "m" and x.args[0] == "to_be_bytes")
                if some[0]:
                    ok = v.op == "mut" and v.args[0] in ("append", "extend_from_slice", "extend") and head(strip(v.args[1])) and isdata(strip(v.args[2]))
                else:
                    ok = isdata(v) and not any(head(x) for x in walk(v))
                self.J(r, q, "the selector comes first", ok, lambda: f"builds {show(v)[:100]}")
        for f in self.fns("new", ty) + self.fns("new_with_selector", ty):
            r, qs = self.run(f)
            for q in qs:
                self.n += 1
                v = strip(q.node)
                s = fl(v, "selector")
                want = s.op == "variant:None" if f.name == "new" else s.op == "variant:Some" and strip(s.args[0]) is strip(r.arg(0))
                self.J(r, q, "a writer starts empty", fl(v, "data").op == "empty" and fl(v, "offset_data").op == "empty" and want, lambda: f"starts as {show(v)[:80]}")

    def static(self):
        dyn = {"Bytes", "BoundedBytesString", "Vec", "BoundedVec"}
        for f in self.fns("has_static_size"):
            if not f.impl:
                continue
            ty = tyname(f.impl["self"])
            r, qs = self.run(f)
            for q in qs:
                v = strip(q.node)
                if ty in dyn or ty in UINTS or ty in ("H256", "U256", "Address", "bool", "()"):
                    self.n += 1
                    self.J(r, q, "what takes a fixed space says so", isF(v) if ty in dyn else isT(v), lambda: f"{ty}: {show(v)[:40]}")

    def modifier(self):
        for f in self.fns("check_function_modifier"):
            r, qs = self.run(f)
            free = not f.impl
            for q in qs:
                self.n += 1
                mod = r.arg(2) if free else r.arg(1)
                stat = [p for f2, p in q.facts if (strip(f2) is strip(r.arg(1)) if free else opn(f2) == "is_static")]
                kind = lambda k: [p for f2, p in q.facts if f2.op == "is" and strip(f2.args[0]) is strip(mod) and f2.args[1] == k]
                paid = [p for f2, p in q.facts if f2.op == "lt" and num(f2.args[0]) == 0 and strip(f2.args[1]).op == "fld" and strip(f2.args[1]).args[1] == "apparent_value"] + \
                       [not p for f2, p in q.facts if f2.op == "eq" and any(num(x) == 0 for x in f2.args) and any(strip(x).op == "fld" and strip(x).args[1] == "apparent_value" for x in f2.args)]
                view, pay, non = kind("View"), kind("Payable"), kind("NonPayable")
                isview = True if True in view else False if False in view or True in pay or True in non else None
                ispay = True if True in pay else False if False in pay or True in view or True in non else None
                if q.p.ok:
                    self.J(r, q, "only a view runs in a static call", False in stat or isview is True, "a state-changing function runs in a static call")
                    self.J(r, q, "only a payable function takes value", ispay is True or False in paid, "value is accepted by a function not payable")
                else:
                    self.J(r, q, "nothing else is refused", (True in stat and isview is False) or (ispay is False and True in paid), "an allowed call is refused")

    def costs(self):
        for f in self.fns("log_costs"):
            r, qs = self.run(f)
            for q in qs:
                if not q.p.ok:
                    continue
                self.n += 1
                want = mk("add", const(375), mk("mul", const(375), r.arg(0)), mk("mul", const(8), r.arg(1)))
                self.J(r, q, "a log's gas", same_int(unp(q), want), lambda: f"charges {show(unp(q))[:80]}")
        for f in self.fns("record_log_costs_manual"):
            r, qs = self.run(f, opaque=("log_costs",))
            for q in qs:
                if not q.p.ok or not r.fn.impl:
                    continue
                self.n += 1
                rc = [e for e in q.eff if str(e.name).split("::")[-1].split(".")[-1] == "record_cost"]
                c = strip(rc[0].args[0]) if len(rc) == 1 else None
                ok = None
                if not rc:
                    ok = False
                elif c is not None and c.op == "payload":
                    a = [strip(x) for x in strip(c.args[0]).args[1:] if isinstance(x, Node)]
                    ok = [x for x in a if x in (strip(r.arg(1)), strip(r.arg(2)))] == [strip(r.arg(1)), strip(r.arg(2))]
                elif c is not None:
                    ok = False
                self.J(r, q, "a log is charged for", ok, lambda: f"records {[str(e) for e in rc]}")

    def select(self):
        for f in self.fns("read_selector", "EvmDataReader") + self.fns("selector", "", "codec"):
            r, qs = self.run(f)
            for q in qs:
                if not q.p.ok:
                    continue
                self.n += 1
                be = [x for x in walk(q.node) if x.op == "call" and str(x.args[0]).split("::")[-1] in ("from_be_bytes", "from_le_bytes", "from_ne_bytes")]
                if len({x for x in be}) != 1:
                    self.J(r, q, "the selector is the first four bytes", None, show(q.node)[:80])
                    continue
                x = strip(be[0])
                s = next((span(y) for y in walk(x) if span(y)), None)
                ok = str(x.args[0]).endswith("from_be_bytes") and s is not None and s[0] is strip(r.arg(0)) and num(s[1]) == 0 and s[2] is not None and num(s[2]) == 4
                self.J(r, q, "the selector is the first four bytes", ok, lambda: f"selects by {show(x)[:80]}")
                if s:
                    self.J(r, q, "the selector is there", s[3] or holds_ge(q, mk("len", r.arg(0)), const(4)), "input may be shorter")

    def tuples(self):
        for f in self.fns("write", "Tuple"):
            r, qs = self.run(f, opaque=("build", "write_pointer"))
            for q in qs:
                self.n += 1
                w = [e for e in q.eff if e.kind in ("call", "ext") and str(e.name).split("::")[-1].split(".")[-1] == "write"]
                k = [strip(e.args[1]).args[1] if strip(e.args[1]).op == "fld" else None for e in w]
                ptr = [e for e in q.eff if str(e.name).split("::")[-1] == "write_pointer"]
                st = [p for f2, p in q.facts if any(opn(x) == "has_static_size" for x in walk(f2))]
                self.J(r, q, "members are written in order", [str(x) for x in k] == [str(i) for i in range(len(k))] and len(k) > 1, lambda: f"writes members {k}")
                self.J(r, q, "a dynamic tuple goes behind a pointer", None if len(set(st)) != 1 else bool(ptr) != st[0], "the tuple's members are not where they belong")
        for f in self.fns("encode_arguments", ""):
            r, qs = self.run(f, opaque=("encode", "build"))
            for q in qs:
                self.n += 1
                ex = [p for f2, p in q.facts if opn(f2) == "is_explicit_tuple"]
                st = [p for f2, p in q.facts if opn(f2) == "has_static_size"]
                s = span(strip(q.node))
                strip_it = ex == [True] and st == [False]
                if s is not None:
                    self.J(r, q, "arguments of a call carry no outer pointer", strip_it and num(s[1]) == 32 and s[2] is None, lambda: f"encodes {show(q.node)[:80]}")
                else:
                    self.J(r, q, "arguments of a call carry no outer pointer", not strip_it and (ex == [False] or st == [True]), "the outer pointer stays")
        for f in self.fns("decode_arguments", ""):
            r, qs = self.run(f, opaque=("decode", "write_pointer", "build"))
            for q in qs:
                self.n += 1
                ex = [p for f2, p in q.facts if opn(f2) == "is_explicit_tuple"]
                st = [p for f2, p in q.facts if opn(f2) == "has_static_size"]
                dyn = ex == [True] and st == [False]
                wr = [e for e in q.eff if e.kind == "ext" and str(e.name).endswith(".write")]
                ok = len(wr) == 1 and num(wr[0].args[1]) == 32 if dyn else not wr
                self.J(r, q, "arguments of a call carry no outer pointer", ok if dyn or ex == [False] or st == [True] else None, "decoded as if they did")


def opn(n):
    """last name of a call, external call or method value"""
    n = strip(n)
    return str(n.args[0]).split("::")[-1].split(".")[-1] if n.op in ("call", "ext", "m") and n.args else None


def walk(n):
    seen, todo = set(), [strip(n)]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        todo += [strip(a) for a in x.args if isinstance(a, Node)]


def contains_op(n, name):
    return any(opn(x) == name for x in walk(n))


def data_span(d):
    """(base, range value) of input.get(range)"""
    d = strip(d)
    if d.op == "payload" and opn(d.args[0]) == "get":
        m = strip(d.args[0])
        return strip(m.args[1]), strip(m.args[2])
    if d.op in ("idx", "slice") and len(d.args) == 2:
        return strip(d.args[0]), strip(d.args[1])
    return None


def ev(t, n, k):
    """an integer or boolean term in n at n = k; None where another value matters"""
    t = strip(t)
    if t is n:
        return k
    if t.op == "const":
        return t.args[0]
    if t.op in ("add", "mul", "div", "rem", "sub", "eq", "lt", "le"):
        a = [ev(x, n, k) for x in t.args]
        if any(x is None for x in a) or (t.op in ("div", "rem") and not a[1]):
            return None
        out = a[0]
        for x in a[1:]:
            out = {"add": lambda: out + x, "mul": lambda: out * x, "div": lambda: out // x, "rem": lambda: out % x, "sub": lambda: out - x, "eq": lambda: out == x, "lt": lambda: out < x, "le": lambda: out <= x}[t.op]()
        return out
    return None


def expand(n):
    """products by constants multiplied out"""
    n = strip(n)
    if n.op == "mul":
        k, rest = 1, []
        for a in n.args:
            c = num(a)
            if isinstance(c, int):
                k *= c
            else:
                rest.append(strip(a))
        if len(rest) == 1 and rest[0].op == "add":
            return mk("add", *[expand(mk("mul", const(k), a)) for a in rest[0].args])
        if not rest:
            return const(k)
    return n


TOKENS = {"encode_bool": "Bool", "encode_uint": "Uint", "encode_bytes": "Bytes", "encode_fixed_bytes": "FixedBytes", "encode_address": "Address",
          "encode_uint_tuple": "Tuple", "encode_uint_array": "Array", "encode_address_tuple": "Tuple", "encode_address_array": "Array"}


def _tokens(ctx, a):
    for nm, tok in TOKENS.items():
        for f in a.fns(nm, "Output"):
            r, qs = a.run(f)
            for q in qs:
                a.n += 1
                n = [x for x in walk(q.node) if opn(x) in TOKENS.values() or (x.op.startswith("variant:") and x.op.split(":")[1] in TOKENS.values())]
                got = {opn(x) or x.op.split(":")[1] for x in n}
                outer = strip(q.node)
                enc = opn(outer) == "encode"
                a.J(r, q, f"answers are encoded as their type", (enc and tok in got) if got else None, lambda: f"{nm} encodes as {sorted(got)}")


SIG = {"H256": "bytes32", "Address": "address", "U256": "uint256", "BytesKind": "bytes", "StringKind": "string", "()": "()"}


def _signatures(ctx, a):
    for f in a.fns("signature"):
        ty = tyname(f.impl["self"]) if f.impl else None
        if ty not in SIG:
            continue
        r, qs = a.run(f)
        for q in qs:
            a.n += 1
            s = [str(x) for n in walk(q.node) for x in n.args if not isinstance(x, Node)]
            a.J(r, q, "a type is named as in Solidity", any(x == SIG[ty] for x in s), lambda: f"{ty} is named {s}")


def abi(pid, tier):
    ctx = Ctx(pid, tier)
    for pn, where in WHERE:
        a = Abi(ctx, pn, where)
        rt = pn == RT
        rd, wr = ("EvmDataReader", "EvmDataWriter") if rt else ("Reader", "Writer")
        steps = [lambda c, t=t: a.word_read(t, "") for t in ("U256", "H256", "Address")]
        steps += [lambda c: a.uint_read(), lambda c: a.bool_read(), lambda c: a.reader(rd), lambda c: a.writes(""), lambda c: a.writer(wr), lambda c: a.static(),
                  lambda c: a.modifier(), lambda c: a.costs(), lambda c: a.select()]
        if rt:
            steps += [lambda c: a.bytes_read("Bytes", False), lambda c: a.dynamic_writes("Bytes"), lambda c: _tokens(c, a)]
        else:
            steps += [lambda c: a.bytes_read("BoundedBytesString", True), lambda c: a.dynamic_writes("BoundedBytesString"), lambda c: a.bytes_read("BoundedVec", True, array=True),
                      lambda c: a.tuples(), lambda c: _signatures(c, a)]
        for k, g in enumerate(steps):
            g.__name__ = f"abi step {k}"
            guarded(g)(ctx)
    return ctx.done(RULE, ["reading or writing a generic member is what the member type's own impl does", "`to_big_endian` fills its whole buffer"])
