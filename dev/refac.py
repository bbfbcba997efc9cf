"""Behaviour-preserving rewrites of the parsed source, to find checks that judge how code is written.
usage: refac.py XFORM[,XFORM..]|all CHECK...|all      (development only; not used by any check)"""
import sys, os, copy, json, importlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vt import front

L0 = 0
CTR = [0]


def fresh(p="t"):
    CTR[0] += 1
    return f"__{p}{CTR[0]}"


def path(n, l=0):
    return ["path", l, [[n, []]], None]


def pid(n, mut=False):
    return ["pid", n, False, mut, None]


def pts(n, p):
    return ["pts", [[n, []]], [p]]


def blk(stmts, l=0):
    return ["block", l, stmts, None]


def st(e, semi=True, l=0):
    return ["expr", l, e, semi]


def let(n, e, l=0):
    return ["local", l, pid(n), None, e, None]


def err(e, l):
    return ["return", l, ["call", l, path("Err"), [["mcall", l, e, "into", [], []]]]]


def contains(x, kinds, into_closure=True):
    if isinstance(x, list):
        if x and isinstance(x[0], str) and x[0] in kinds and len(x) > 1:
            return True
        if x and x[0] == "closure" and not into_closure:
            return False
        return any(contains(y, kinds, into_closure) for y in x)
    return False


LITB = [["lit", 0, "bool", False, ""], ["lit", 0, "bool", True, ""]]


def RANGE(l, x):
    return ["range", l, ["lit", l, "int", "0", ""], ["mcall", l, x, "len", [], []], False]


class X:
    """one rewrite over a function body; ret = 'Result' | 'Option' | None for the innermost function or closure"""

    def __init__(self, name):
        self.name = name
        self.n = 0

    def fn(self, f):
        if f.get("body"):
            self.rt = rk(f["ret"])
            b = self.go(f["body"], self.rt)
            h = getattr(self, "body_" + self.name, None)
            if h:
                b = h(b, self.rt)
            f["body"] = b

    def go(self, e, rt):
        if not isinstance(e, list):
            return e
        if e and e[0] == "closure" and len(e) == 5 and isinstance(e[1], int):
            r2 = rk(e[4]) if e[4] else None
            e = ["closure", e[1], e[2], self.go(e[3], r2), e[4]]
        else:
            e = [self.go(x, rt) for x in e]
        if e and isinstance(e[0], str) and len(e) > 2 and isinstance(e[1], int):
            h = getattr(self, "x_" + self.name, None)
            if h:
                r = h(e, rt)
                if r is not None:
                    self.n += 1
                    return r
        return e

    # ---- rewrites
    def x_ensure_if(self, e, rt):
        if e[0] == "macro" and e[2] == "ensure" and len(e[3]) == 2 and rt in ("Result",):
            return ["if", e[1], ["un", e[1], "!", e[3][0]], blk([st(err(e[3][1], e[1]))]), None]

    def x_ensure_flip(self, e, rt):
        NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
        if e[0] == "macro" and e[2] == "ensure" and len(e[3]) == 2 and rt in ("Result",):
            c = e[3][0]
            if c[0] == "bin" and c[2] in NEG:
                return ["if", e[1], ["bin", c[1], NEG[c[2]], c[3], c[4]], blk([st(err(e[3][1], e[1]))]), None]

    def x_ensure_match(self, e, rt):
        if e[0] == "macro" and e[2] == "ensure" and len(e[3]) == 2 and rt in ("Result",):
            return ["match", e[1], e[3][0], [[["plit", ["lit", e[1], "bool", True, ""]], None, ["tuple", e[1], []]], [["pwild"], None, err(e[3][1], e[1])]]]

    def x_ensure_let(self, e, rt):
        if e[0] == "macro" and e[2] == "ensure" and len(e[3]) == 2:
            n = fresh("ok")
            return blk([let(n, e[3][0], e[1]), st(["macro", e[1], "ensure", [path(n), e[3][1]], None])], e[1])

    def x_ensure_and(self, e, rt):
        if e[0] == "macro" and e[2] == "ensure" and len(e[3]) == 2 and e[3][0][0] == "bin" and e[3][0][2] == "&&":
            c = e[3][0]
            return blk([st(["macro", e[1], "ensure", [c[3], e[3][1]], None]), st(["macro", e[1], "ensure", [c[4], e[3][1]], None])], e[1])

    def x_okor(self, e, rt):
        if e[0] == "try" and e[2][0] == "mcall" and e[2][3] in ("ok_or", "ok_or_else") and rt == "Result":
            a = e[2][5][0]
            if e[2][3] == "ok_or_else":
                if a[0] != "closure":
                    return None
                a = a[3]
            v = fresh("v")
            return ["match", e[1], e[2][2], [[pts("Some", pid(v)), None, path(v)], [["pid", "None", False, False, None], None, err(a, e[1])]]]

    def x_okor_letelse(self, e, rt):
        if e[0] == "local" and e[4] and e[4][0] == "try" and e[4][2][0] == "mcall" and e[4][2][3] == "ok_or" and e[3] is None and rt == "Result":
            m = e[4][2]
            return ["local", e[1], pts("Some", e[2]), None, m[2], blk([st(err(m[5][0], e[1]))])]

    def x_try(self, e, rt):
        if e[0] == "try" and rt in ("Result", "Option"):
            v, w = fresh("v"), fresh("e")
            if rt == "Result":
                return ["match", e[1], e[2], [[pts("Ok", pid(v)), None, path(v)], [pts("Err", pid(w)), None, err(path(w), e[1])]]]
            return ["match", e[1], e[2], [[pts("Some", pid(v)), None, path(v)], [["pid", "None", False, False, None], None, ["return", e[1], path("None")]]]]

    def x_ifnot(self, e, rt):
        if e[0] == "if" and e[4] is not None and not contains(e[2], ("let",)):
            el = e[4] if e[4][0] == "block" else blk([st(e[4], False)])
            return ["if", e[1], ["un", e[1], "!", e[2]], el, e[3]]

    def x_ifmatch(self, e, rt):
        if e[0] == "if" and e[4] is not None and not contains(e[2], ("let",)):
            return ["match", e[1], e[2], [[["plit", ["lit", e[1], "bool", True, ""]], None, e[3]], [["plit", ["lit", e[1], "bool", False, ""]], None, e[4]]]]

    def x_iflet(self, e, rt):
        if e[0] == "if" and e[2][0] == "let":
            return ["match", e[1], e[2][3], [[e[2][2], None, e[3]], [["pwild"], None, e[4] if e[4] is not None else ["tuple", e[1], []]]]]

    def x_iflet_issome(self, e, rt):
        if e[0] == "if" and e[2][0] == "let" and e[2][2][0] == "pts" and e[2][2][1][-1][0] == "Some" and e[2][2][2][0][0] == "pid" and e[2][3][0] == "path":
            x = e[2][3]
            return ["if", e[1], ["mcall", e[1], x, "is_some", [], []], blk([["local", e[1], e[2][2][2][0], None, ["mcall", e[1], ["mcall", e[1], x, "clone", [], []], "unwrap_or_default", [], []], None], st(e[3], False)]), e[4]]

    def x_cmpflip(self, e, rt):
        F = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
        if e[0] == "bin" and e[2] in F:
            return ["bin", e[1], F[e[2]], e[4], e[3]]

    def x_cmpnot(self, e, rt):
        NEG = {"<": ">=", ">": "<=", "<=": ">", ">=": "<", "==": "!=", "!=": "=="}
        if e[0] == "bin" and e[2] in NEG:
            return ["un", e[1], "!", ["bin", e[1], NEG[e[2]], e[3], e[4]]]

    def x_commute(self, e, rt):
        if e[0] == "bin" and e[2] in ("+", "*"):
            return ["bin", e[1], e[2], e[4], e[3]]

    def x_commute_checked(self, e, rt):
        if e[0] == "mcall" and e[3] in ("checked_add", "checked_mul", "saturating_add", "saturating_mul") and len(e[5]) == 1 and e[2][0] != "mcall" and not contains(e[5][0], ("mcall", "call")):
            a = e[5][0]
            r = a[3] if a[0] == "ref" else a
            return ["mcall", e[1], r, e[3], e[4], [["ref", e[1], False, e[2]] if a[0] == "ref" else e[2]]]

    def x_temp(self, e, rt):
        if e[0] == "call" and isinstance(e[3], list) and any(isinstance(a, list) and a and a[0] in ("call", "mcall", "field", "try", "bin") for a in e[3]):
            ls, args = [], []
            for a in e[3]:
                if a[0] in ("call", "mcall", "field", "try", "bin"):
                    n = fresh()
                    ls.append(let(n, a, e[1]))
                    args.append(path(n))
                else:
                    args.append(a)
            return blk(ls + [st(["call", e[1], e[2], args], False)], e[1])

    def x_letret(self, e, rt):
        return None

    def body_letret(self, b, rt):
        if b[0] == "block" and b[2] and b[2][-1][0] == "expr" and not b[2][-1][3]:
            n = fresh("r")
            self.n += 1
            return ["block", b[1], b[2][:-1] + [let(n, b[2][-1][2]), st(path(n), False)], b[3]]
        return b

    def body_tailreturn(self, b, rt):
        if b[0] == "block" and b[2] and b[2][-1][0] == "expr" and not b[2][-1][3]:
            self.n += 1
            return ["block", b[1], b[2][:-1] + [st(["return", b[1], b[2][-1][2]])], b[3]]
        return b

    def x_satsub(self, e, rt):
        if e[0] == "mcall" and e[3] == "saturating_sub" and len(e[5]) == 1:
            return ["mcall", e[1], ["mcall", e[1], e[2], "checked_sub", [], [e[5][0] if e[5][0][0] == "ref" else e[5][0]]], "unwrap_or_default", [], []]

    def x_checkedop(self, e, rt):
        """a.checked_sub(b).ok_or(E)?  ->  { ensure!(a >= b, E); a - b }"""
        if e[0] == "try" and e[2][0] == "mcall" and e[2][3] == "ok_or" and e[2][2][0] == "mcall" and e[2][2][3] == "checked_sub" and rt == "Result":
            m = e[2][2]
            a, b = m[2], m[5][0]
            b = b[3] if b[0] == "ref" else b
            if contains(a, ("call", "mcall", "try")) or contains(b, ("call", "mcall", "try")):
                return None
            return blk([st(["macro", e[1], "ensure", [["bin", e[1], ">=", a, b], e[2][5][0]], None]), st(["bin", e[1], "-", a, b], False)], e[1])

    def x_foreach(self, e, rt):
        if e[0] == "for" and not contains(e[4], ("return", "try", "break", "continue")):
            return ["mcall", e[1], ["mcall", e[1], e[3], "into_iter", [], []], "for_each", [], [["closure", e[1], [e[2]], e[4], None]]]

    def x_forwhile(self, e, rt):
        if e[0] == "for" and e[3][0] != "range":
            it = fresh("it")
            return blk([["local", e[1], pid(it, True), None, ["mcall", e[1], e[3], "into_iter", [], []], None],
                        st(["while", e[1], ["let", e[1], pts("Some", e[2]), ["mcall", e[1], path(it), "next", [], []]], e[4], None])], e[1])

    def x_rangewhile(self, e, rt):
        if e[0] == "for" and e[3][0] == "range" and not contains(e[4], ("continue",)) and e[2][0] == "pid" and len(e[3]) > 3:
            lo, hi = [x for x in e[3] if isinstance(x, list)][:2]
            n, h = e[2][1], fresh("end")
            b = e[4][2]
            if b and b[-1][0] == "expr" and b[-1][3] is False:
                b = b[:-1] + [st(b[-1][2])]
            return blk([["local", e[1], pid(n, True), None, lo, None], let(h, hi),
                        st(["while", e[1], ["bin", e[1], "<", path(n), path(h)], ["block", e[1], b + [st(["opassign", e[1], "+", path(n), ["lit", e[1], "int", "1", ""]])], None], None])], e[1])

    def x_foldfor(self, e, rt):
        if e[0] == "mcall" and e[3] == "fold" and len(e[5]) == 2 and e[5][1][0] == "closure":
            c = e[5][1]
            acc = c[2][0]
            if acc[0] != "pid":
                return None
            r = fresh("acc")
            return blk([["local", e[1], pid(r, True), None, e[5][0], None],
                        st(["for", e[1], c[2][1], e[2], blk([let(acc[1], path(r)), st(["assign", e[1], path(r), c[3]])], e[1]), None]),
                        st(path(r), False)], e[1])

    def x_tryfoldfor(self, e, rt):
        if e[0] == "try" and e[2][0] == "mcall" and e[2][3] == "try_fold" and e[2][5][1][0] == "closure" or \
                e[0] == "try" and e[2][0] == "mcall" and e[2][3] in ("ok_or", "map_err") and e[2][2][0] == "mcall" and e[2][2][3] == "try_fold" and e[2][2][5][1][0] == "closure":
            m = e[2] if e[2][3] == "try_fold" else e[2][2]
            c = m[5][1]
            acc = c[2][0]
            if acc[0] != "pid" or contains(c[3], ("try", "return")) and m is not e[2]:
                return None
            r = fresh("acc")
            step = c[3] if m is e[2] else ["mcall", e[1], c[3], e[2][3], [], e[2][5]]
            return blk([["local", e[1], pid(r, True), None, m[5][0], None],
                        st(["for", e[1], c[2][1], m[2], blk([let(acc[1], path(r)), st(["assign", e[1], path(r), ["try", e[1], step]])], e[1]), None]),
                        st(path(r), False)], e[1])

    def x_anyfor(self, e, rt):
        if e[0] == "mcall" and e[3] in ("any", "all") and len(e[5]) == 1 and e[5][0][0] == "closure":
            c = e[5][0]
            r = fresh("found")
            T, F = (["lit", e[1], "bool", True], ["lit", e[1], "bool", False])
            cond = c[3] if e[3] == "any" else ["un", e[1], "!", c[3]]
            if LITB[0] is None:
                return None
            return blk([["local", e[1], pid(r, True), None, LITB[0 if e[3] == "any" else 1], None],
                        st(["for", e[1], c[2][0], e[2], blk([st(["if", e[1], cond, blk([st(["assign", e[1], path(r), LITB[1 if e[3] == "any" else 0]]), st(["break", e[1], None, None])], e[1]), None], False)], e[1]), None]),
                        st(path(r), False)], e[1])

    def x_collectfor(self, e, rt):
        """let v: Vec<_> = it.map(|x| y).collect();"""
        if e[0] == "local" and e[4] and e[4][0] == "mcall" and e[4][3] == "collect" and e[4][2][0] == "mcall" and e[4][2][3] == "map" and e[2][0] == "pid" and e[4][2][5][0][0] == "closure" and e[3] and "Vec" in json.dumps(e[3]) and "Result" not in json.dumps(e[3]):
            m = e[4][2]
            c = m[5][0]
            r = fresh("v")
            body = blk([["local", e[1], pid(r, True), e[3], ["call", e[1], ["path", e[1], [["Vec", []], ["new", []]], None], []], None],
                        st(["for", e[1], c[2][0], m[2], blk([st(["mcall", e[1], path(r), "push", [], [c[3]]])], e[1]), None]), st(path(r), False)], e[1])
            return e[:4] + [body] + e[5:]

    def x_enumindex(self, e, rt):
        if e[0] == "for" and e[3][0] == "mcall" and e[3][3] == "enumerate" and e[3][2][0] == "mcall" and e[3][2][3] == "iter" and e[3][2][2][0] == "path" and e[2][0] == "ptup" and e[2][1][0][0] == "pid":
            x = e[3][2][2]
            i = e[2][1][0][1]
            b = [["local", e[1], e[2][1][1], None, ["ref", e[1], False, ["index", e[1], x, path(i)]], None]] + e[4][2]
            return ["for", e[1], e[2][1][0], RANGE(e[1], x), ["block", e[1], b, None]] + e[5:]

    def x_andif(self, e, rt):
        if e[0] == "if" and e[4] is None and e[2][0] == "bin" and e[2][2] == "&&":
            return ["if", e[1], e[2][3], blk([st(["if", e[1], e[2][4], e[3], None], False)]), None]

    def x_letmap(self, e, rt):
        """Some(x).map(|a| b) stays; e.map_err(..)? stays; unwrap_or(0) -> match"""
        if e[0] == "mcall" and e[3] == "unwrap_or" and len(e[5]) == 1:
            v = fresh("v")
            return None

    def x_swaplets(self, e, rt):
        if e[0] == "block" and len(e) == 4 and isinstance(e[2], list):
            s, ch = list(e[2]), False
            i = 0
            while i + 1 < len(s):
                a, b = s[i], s[i + 1]
                if a and b and a[0] == b[0] == "local" and pure(a[4]) and pure(b[4]) and a[5] is None and b[5] is None and simple(a[2]) and simple(b[2]) and not uses(b[4], a[2][1]) and not uses(a[4], b[2][1]) and a[2][1] != b[2][1]:
                    s[i], s[i + 1] = b, a
                    ch = True
                    i += 1
                i += 1
            if ch:
                return ["block", e[1], s, e[3]]

    def x_swapensure(self, e, rt):
        if e[0] == "block" and len(e) == 4 and isinstance(e[2], list):
            s, ch = list(e[2]), False
            i = 0
            while i + 1 < len(s):
                a, b = s[i], s[i + 1]
                if all(x and x[0] == "expr" and x[2][0] == "macro" and x[2][2] == "ensure" for x in (a, b)):
                    s[i], s[i + 1] = b, a
                    ch = True
                    i += 1
                i += 1
            if ch:
                return ["block", e[1], s, e[3]]

    def x_noop(self, e, rt):
        if e[0] == "block" and len(e) == 4 and isinstance(e[2], list) and e[2]:
            return ["block", e[1], [["local", e[1], ["pwild"], None, ["lit", e[1], "int", "0", "u32"], None]] + e[2], e[3]]

    def x_outline(self, e, rt):
        """let x = pure expression  ->  let x = Self::helper(free locals)"""
        return None

    def x_clone(self, e, rt):
        if e[0] == "call":
            a2 = [["mcall", e[1], a, "clone", [], []] if a and a[0] == "field" else a for a in e[3]]
            if a2 != e[3]:
                return ["call", e[1], e[2], a2]

    def x_mutate(self, e, rt):
        """X::<T>::mutate(k, |v| body) -> read, change, write back"""
        if e[0] == "call" and e[2][0] == "path" and e[2][2][-1][0] == "mutate" and e[3] and e[3][-1][0] == "closure" and not contains(e[3][-1][3], ("try", "return")) and len(e[2][2]) == 2:
            q = storage.get(e[2][2][0][0])
            c = e[3][-1]
            if q is None or c[2][0][0] != "pid":
                return None
            ks = e[3][:-1]
            t, r = fresh("cur"), fresh("res")
            segs = e[2][2][:-1]
            get = ["call", e[1], ["path", e[1], segs + [["get", []]], None], ks]
            w = ("set" if q == "OptionQuery" else "insert") if ks else "put"
            if not ks and q == "OptionQuery":
                return None
            body = blk([["local", e[1], pid(t, True), None, get, None], let(c[2][0][1], ["ref", e[1], True, path(t)]), let(r, c[3]),
                        st(["call", e[1], ["path", e[1], segs + [[w, []]], None], ks + [path(t)]]), st(path(r), False)], e[1])
            return body

    def x_iteradd(self, e, rt):
        """a += b -> a = a + b"""
        if e[0] == "opassign":
            return ["assign", e[1], e[3], ["bin", e[1], e[2], e[3], e[4]]]

    def x_matchopt(self, e, rt):
        """match e {Some(p)=>A, None=>B} -> if let Some(p) = e A else B"""
        if e[0] == "match" and len(e[3]) == 2 and all(a[1] is None for a in e[3]) and e[3][0][0][0] == "pts" and e[3][0][0][1][-1][0] in ("Some", "Ok") and (e[3][1][0][0] in ("pwild",) or e[3][1][0][0] == "pid" and e[3][1][0][1] == "None"):
            w = lambda x: x if x[0] == "block" else blk([st(x, False)])
            return ["if", e[1], ["let", e[1], e[3][0][0], e[2]], w(e[3][0][2]), w(e[3][1][2])]

    def x_questionmap(self, e, rt):
        """Ok(()) at the end after `f()?;`  ->  f()"""
        return None

    def x_tryand(self, e, rt):
        """f(a)?;  ->  let _ = f(a)?;"""
        if e[0] == "expr" and e[2][0] == "try" and e[3]:
            return ["local", e[1], ["pwild"], None, e[2], None]

    def x_tryis(self, e, rt):
        """f(a)?;  ->  if let Err(e) = f(a) { return Err(e) }"""
        if e[0] == "expr" and e[2][0] == "try" and e[3] and rt == "Result":
            v = fresh("e")
            return ["expr", e[1], ["if", e[1], ["let", e[1], pts("Err", pid(v)), e[2][2]], blk([st(["return", e[1], ["call", e[1], path("Err"), [["mcall", e[1], path(v), "into", [], []]]]])]), None], True]

    def x_zero(self, e, rt):
        """x.is_zero() -> x == 0"""
        if e[0] == "mcall" and e[3] == "is_zero" and not e[5]:
            return ["bin", e[1], "==", e[2], ["call", e[1], ["path", e[1], [["Zero", []], ["zero", []]], None], []]]

    def x_structtemp(self, e, rt):
        """field values of struct literals through locals"""
        if e[0] == "struct" and len(e) > 3 and isinstance(e[3], list) and e[3] and all(isinstance(f, list) and len(f) >= 2 for f in e[3]):
            ls, fs = [], []
            for f in e[3]:
                if isinstance(f[1], list) and f[1] and f[1][0] in ("call", "mcall", "bin", "try", "field"):
                    n = fresh("f")
                    ls.append(let(n, f[1], e[1]))
                    fs.append([f[0], path(n)] + f[2:])
                else:
                    fs.append(f)
            if ls:
                return blk(ls + [st(["struct", e[1], e[2], fs] + e[4:], False)], e[1])


storage = {}


def pure(e):
    return e is not None and not contains(e, ("call", "mcall", "try", "macro", "return", "closure", "assign", "opassign", "index")) or e is not None and e[0] == "call" and False


def simple(p):
    return p[0] == "pid" and p[4] is None and not p[3]


def uses(e, n):
    if isinstance(e, list):
        if len(e) == 4 and e[0] == "path" and len(e[2]) == 1 and e[2][0][0] == n:
            return True
        return any(uses(x, n) for x in e)
    return False


def rk(t):
    s = json.dumps(t) if t else ""
    if '"DispatchResult' in s or '"Result"' in s or "DispatchResultWithPostInfo" in s:
        return "Result"
    if t and t[0] == "tp" and t[2] and t[2][-1][0] == "Option":
        return "Option"
    return None


def walk_items(x, f):
    if isinstance(x, dict):
        if x.get("k") == "fn":
            f(x)
            return
        for y in x.values():
            walk_items(y, f)
    elif isinstance(x, list):
        for y in x:
            walk_items(y, f)


INFER = ["tother", "_"]


def bound(p, acc):
    """names bound by a pattern -> mutable?"""
    if isinstance(p, list):
        if p and p[0] == "pid" and len(p) == 5:
            acc[p[1]] = bool(p[3])
            bound(p[4], acc)
        else:
            for y in p:
                bound(y, acc)
    return acc


def used(e, acc):
    if isinstance(e, list):
        if len(e) == 4 and e[0] == "path" and isinstance(e[2], list) and len(e[2]) == 1 and not e[2][0][1]:
            acc.add(e[2][0][0])
        for y in e:
            used(y, acc)
    elif isinstance(e, str) and " " in e:
        import re
        acc.update(re.findall(r"[a-z_][a-z0-9_]*", e))
    return acc


class Outline:
    """move the statements of every function after the first `keep` (a number or "half" or "who") into a new helper function"""

    def __init__(self, mode):
        self.mode = mode
        self.n = 0

    def split(self, f):
        b = f.get("body")
        if not b or b[0] != "block" or f["name"].startswith("__"):
            return None
        ss = b[2]
        k = 0
        if self.mode == "who":
            k = 1 if ss and ss[0][0] == "local" and "ensure_" in json.dumps(ss[0]) else 0
        elif self.mode == "half":
            k = len(ss) // 2
        elif self.mode == "last":
            k = len(ss) - 2
        if len(ss) - k < 2 or k < 0:
            return None
        if any(s[0] not in ("local", "expr") for s in ss):
            return None
        env = {}
        for p, t in f["params"]:
            for n, m in bound(p, {}).items():
                env[n] = (m, t if p[0] == "pid" else INFER)
        for s_ in ss[:k]:
            if s_[0] == "local":
                for n, m in bound(s_[2], {}).items():
                    if n == "who":
                        env[n] = (m, ["tp", None, [["T", []], ["AccountId", []]]])
                    else:
                        env[n] = (m, s_[3] if s_[3] and s_[2][0] == "pid" else INFER)
        u = used(ss[k:], set())
        if "self" in u or any(p and p[0] in ("pself", "self") for p, _ in f["params"]):
            return None
        vs = [(n, m, t) for n, (m, t) in env.items() if n in u]
        h = fresh("helper")
        nf = dict(f)
        nf.update(name=h, params=[[pid(n, m), t] for n, m, t in vs], body=["block", b[1], copy.deepcopy(ss[k:]), None], attrs=[], vis="")
        return k, h, nf, vs

    def container(self, c):
        """c: list of items of an impl or module"""
        kind = c.get("k")
        new = []
        for f in c["items"]:
            if isinstance(f, dict) and f.get("k") == "fn":
                r = self.split(f)
                if r is None:
                    continue
                k, h, nf, vs = r
                ln = f["line"]
                segs = [["Self", []], [h, []]] if kind == "impl" else [[h, []]]
                f["body"] = ["block", f["body"][1], f["body"][2][:k] + [st(["call", ln, ["path", ln, segs, None], [path(n) for n, _, _ in vs]], False)], None]
                new.append(nf)
                self.n += 1
        return new

    def walk(self, x):
        if isinstance(x, dict):
            its = x.get("items")
            for y in list(x.values()):
                self.walk(y)
            if isinstance(its, list):
                if x.get("k") == "impl":
                    return
                for im in [i for i in its if isinstance(i, dict) and i.get("k") == "impl"]:
                    new = self.container(im)
                    if new:
                        if im.get("trait") is None and not im.get("attrs"):
                            im["items"] += new
                        elif json.dumps(im["self"]).count("Pallet"):
                            ni = dict(im)
                            ni.update(trait=None, items=new, attrs=[])
                            its.append(ni)
                        else:
                            its.append(dict(im, trait=None, items=new, attrs=[]))
                if x.get("k") != "trait":
                    its += self.container(x)
        elif isinstance(x, list):
            for y in x:
                self.walk(y)


XF = sorted(a[2:] for a in dir(X) if a.startswith("x_")) + [a[5:] for a in dir(X) if a.startswith("body_")]
DEAD = {"letmap", "outline", "questionmap"}
XF = [x for x in dict.fromkeys(XF) if x not in DEAD] + ["outline_who", "outline_half", "outline_last"]


def main():
    from rules.registry import CHECKS
    xs = XF if sys.argv[1] == "all" else sys.argv[1].split(",")
    ids = list(CHECKS) if sys.argv[2] == "all" else sys.argv[2:]
    orig = front.load_raw
    base = {}
    for x in ([] if os.environ.get("NOBASE") else [None]) + xs:
        raws = {}
        t = (Outline(x[8:]) if x.startswith("outline_") else X(x)) if x else None

        def load(repo=None, only=None):
            raw = orig(repo, only)
            if isinstance(t, Outline):
                t.walk(raw)
            elif t is not None:
                scan_storage(raw)
                walk_items(raw, lambda f: t.fn(f))
            return raw
        front.load_raw = load
        pid_ = os.fork()
        if pid_ == 0:
            known = {k["key"] for k in json.load(open(os.path.join(os.path.dirname(__file__), "..", "known_findings.json")))["findings"]}
            bf = "/tmp/refac.base.json"
            base = json.load(open(bf)) if x else {}
            for i in ids:
                m, fn = CHECKS[i]
                try:
                    if m == "common":
                        from rules.common import run_specs
                        res = run_specs(i, "quick", fn)
                    else:
                        res = getattr(importlib.import_module("rules." + m), fn)(i, "quick")
                except Exception as ex:
                    os.environ.get("VDBG") and __import__("traceback").print_exc()
                    print(f"  {x} {i}: CRASH {type(ex).__name__}: {ex}"[:200])
                    continue
                fs = [f for f in res.findings if f.key not in known]
                c = res.coverage
                if x is None:
                    base[i] = c.get("undecided", 0)
                    if fs:
                        print(f"  base {i}: {len(fs)} findings")
                    continue
                if fs:
                    print(f"  {x} {i}: ALARM {len(fs)}")
                    for f in fs[:int(os.environ.get('NF', '2'))]:
                        print(f"      {f.rule} | {f.fn}:{f.line} | {f.msg[:260]}")
                d = c.get("undecided", 0) - base.get(i, 0)
                if d and os.environ.get("UND"):
                    print(f"  {x} {i}: undecided {d:+d}")
                    for u in c.get("undecided_items", [])[:int(os.environ["UND"])]:
                        print("      ?", str(u)[:220])
            if x is None:
                json.dump(base, open(bf, "w"))
            else:
                print(f"{x}: {t.n} rewrites")
            sys.stdout.flush()
            os._exit(0)
        os.waitpid(pid_, 0)


def scan_storage(raw):
    def go(x):
        if isinstance(x, dict):
            if x.get("k") == "type" and x.get("ty") is not None or x.get("k") == "alias":
                s = json.dumps(x)
                if "StorageValue" in s or "StorageMap" in s or "StorageDoubleMap" in s or "StorageNMap" in s:
                    storage[x["name"]] = "OptionQuery" if "ValueQuery" not in s else "ValueQuery"
            for y in x.values():
                go(y)
        elif isinstance(x, list):
            for y in x:
                go(y)
    go(raw)


if __name__ == "__main__":
    main()
