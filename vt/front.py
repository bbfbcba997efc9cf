"""Loads the AST produced by rsast and indexes crates, modules, functions, types."""
import json
import os
import subprocess
import sys
import hashlib
import fcntl

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(HERE, "build"))


def tool():
    """build the front end if needed and return its path"""
    exe = os.path.join(BUILD, "fe", "release", "rsast")
    fe = os.path.join(HERE, "frontend")
    srcs = [os.path.join(fe, "src", f) for f in ("main.rs", "expand.rs", "json.rs")] + [os.path.join(fe, "Cargo.toml")]
    h = hashlib.sha256()
    for f in srcs:
        h.update(open(f, "rb").read())
    stamp = exe + ".stamp"
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if os.path.exists(exe) and os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
            return exe
        last = None
        for tc in (None, "1.75.0", "stable"):
            env = dict(os.environ)
            env["CARGO_TARGET_DIR"] = os.path.join(BUILD, "fe")
            env["CARGO_NET_OFFLINE"] = "true"
            env.pop("RUSTFLAGS", None)
            if tc:
                env["RUSTUP_TOOLCHAIN"] = tc
            last = subprocess.run(["cargo", "build", "--release", "--offline", "--locked"], cwd=fe, env=env,
                                  stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if last.returncode == 0 and os.path.exists(exe):
                open(stamp, "w").write(h.hexdigest())
                return exe
        sys.stderr.write(last.stdout)
        raise SystemExit("front end does not build")


def roots(repo):
    out = []
    for d, ds, fs in os.walk(repo):
        ds[:] = sorted(x for x in ds if x not in ("target", ".git", "node_modules"))
        if "Cargo.toml" in fs and d != repo:
            for f in ("src/lib.rs", "src/main.rs"):
                if os.path.exists(os.path.join(d, f)):
                    out.append(os.path.relpath(os.path.join(d, f), repo))
    return sorted(out)


def load_raw(repo=None, only=None):
    repo = repo or REPO
    rs = [r for r in roots(repo) if only is None or any(r.startswith(o) for o in only)]
    import tempfile
    fd, out = tempfile.mkstemp(prefix="rsast", suffix=".json")
    os.close(fd)
    try:
        subprocess.run([tool(), out, repo] + rs, check=True)
        return json.load(open(out))
    finally:
        os.unlink(out)


class Module:
    def __init__(self, crate, path, file, parent):
        self.crate = crate
        self.path = path
        self.file = file
        self.parent = parent
        self.items = {}      # name -> list of items (fn, struct, enum, const, type, trait, mod)
        self.uses = {}       # name -> path string
        self.globs = []
        self.impls = []
        self.macros = []
        self.mods = {}

    def __repr__(self):
        return f"<mod {self.crate.name}::{'::'.join(self.path)}>"


class Fn:
    __slots__ = ("name", "mod", "item", "impl", "qual", "file", "trait")

    def __init__(self, name, mod, item, impl=None, trait=None):
        self.name = name
        self.mod = mod
        self.item = item
        self.impl = impl      # the impl item or None
        self.trait = trait    # trait item for default methods
        self.file = mod.file
        pre = "::".join([mod.crate.name] + mod.path)
        if impl is not None:
            pre += "::" + tyname(impl["self"])
        if trait is not None:
            pre += "::" + trait["name"]
        self.qual = pre + "::" + name

    @property
    def line(self):
        return self.item["line"]

    @property
    def body(self):
        return self.item["body"]

    @property
    def params(self):
        return self.item["params"]

    @property
    def pub(self):
        return self.item["vis"].startswith("pub")

    def __repr__(self):
        return f"<fn {self.qual}>"


def tyname(t):
    """last segment name of a type"""
    if t is None:
        return "()"
    k = t[0]
    if k == "tp":
        return t[2][-1][0]
    if k == "tref":
        return tyname(t[2])
    if k == "ttup":
        return "(" + ",".join(tyname(x) for x in t[1]) + ")"
    if k == "tslice":
        return "Vec"
    if k == "tarr":
        return "Array"
    return "?"


def tystr(t):
    if t is None:
        return "()"
    k = t[0]
    if k == "tp":
        s = "::".join(a + ("<" + ",".join(tystr(x) for x in g) + ">" if g else "") for a, g in t[2])
        if t[1]:
            return f"<{tystr(t[1][0])}>::{s}"
        return s
    if k == "tref":
        return "&" + tystr(t[2])
    if k == "ttup":
        return "(" + ",".join(tystr(x) for x in t[1]) + ")"
    if k == "tslice":
        return "[" + tystr(t[1]) + "]"
    if k == "tarr":
        return "[" + tystr(t[1]) + ";_]"
    if k == "tassoc":
        return t[1] + "=" + tystr(t[2])
    if k == "tother":
        return t[1]
    return k


class Crate:
    def __init__(self, name, root, raw):
        self.name = name
        self.root_file = root
        self.errors = raw["errors"]
        self.fns = []
        self.by_method = {}   # (self type last name, method) -> [Fn]
        self.by_name = {}     # name -> [Fn]
        self.structs = {}
        self.enums = {}
        self.consts = {}
        self.aliases = {}
        self.traits = {}
        self.impls = []       # (Module, impl item)
        self.macros = []      # (Module, macro item)
        self.modules = []
        self.assoc = {}       # (self type, name) -> type item
        self.root = Module(self, [], root, None)
        self._index(self.root, raw["items"])

    def _index(self, m, items):
        self.modules.append(m)
        for it in items:
            k = it["k"]
            if k == "group":
                self._sub(m, it["items"])
            else:
                self._item(m, it)

    def _sub(self, m, items):
        for it in items:
            if it["k"] == "group":
                self._sub(m, it["items"])
            else:
                self._item(m, it)

    def _addfn(self, f):
        self.fns.append(f)
        self.by_name.setdefault(f.name, []).append(f)
        if f.impl is not None:
            self.by_method.setdefault((tyname(f.impl["self"]), f.name), []).append(f)

    def _item(self, m, it):
        k = it["k"]
        if k == "fn":
            f = Fn(it["name"], m, it)
            m.items.setdefault(it["name"], []).append(("fn", f))
            self._addfn(f)
        elif k == "impl":
            m.impls.append(it)
            self.impls.append((m, it))
            for x in it["items"]:
                if x["k"] == "fn":
                    self._addfn(Fn(x["name"], m, x, impl=it))
                elif x["k"] == "const":
                    self.consts.setdefault((tyname(it["self"]), x["name"]), []).append((m, x))
                elif x["k"] == "type":
                    self.assoc.setdefault((tyname(it["self"]), x["name"]), []).append((m, x, it))
        elif k == "mod":
            sub = Module(self, m.path + [it["name"]], it.get("file", m.file), m)
            sub.attrs = it["attrs"]
            m.mods[it["name"]] = sub
            m.items.setdefault(it["name"], []).append(("mod", sub))
            self._index(sub, it["items"])
        elif k == "use":
            for name, path in it["uses"]:
                if name == "*":
                    m.globs.append(path)
                elif name != "_":
                    m.uses[name] = path
        elif k == "struct":
            it["_mod"] = m
            self.structs.setdefault(it["name"], it)
            m.items.setdefault(it["name"], []).append(("struct", it))
        elif k == "enum":
            it["_mod"] = m
            self.enums.setdefault(it["name"], it)
            m.items.setdefault(it["name"], []).append(("enum", it))
        elif k in ("const", "static"):
            it["_mod"] = m
            self.consts.setdefault(it["name"], []).append((m, it))
            m.items.setdefault(it["name"], []).append(("const", it))
        elif k == "type":
            it["_mod"] = m
            self.aliases.setdefault(it["name"], it)
            m.items.setdefault(it["name"], []).append(("type", it))
        elif k == "trait":
            it["_mod"] = m
            self.traits.setdefault(it["name"], it)
            m.items.setdefault(it["name"], []).append(("trait", it))
            for x in it["items"]:
                if x["k"] == "fn" and x["body"] is not None:
                    f = Fn(x["name"], m, x, trait=it)
                    self.fns.append(f)
                    self.by_name.setdefault(f.name, []).append(f)
        elif k == "macro":
            m.macros.append(it)
            self.macros.append((m, it))

    def find_mod(self, path):
        m = self.root
        for p in path:
            m = m.mods.get(p)
            if m is None:
                return None
        return m

    def fn(self, qual):
        """qual: 'mod::sub::name' or 'mod::Type::name'"""
        want = self.name + "::" + qual
        r = [f for f in self.fns if f.qual == want]
        if r:
            return r[0]
        # moved within the same top-level module
        segs = want.split("::")
        r = [f for f in self.fns if f.qual.split("::")[-1] == segs[-1] and f.qual.split("::")[:2] == segs[:2]
             and "tests" not in f.qual and (f.impl is None) == (segs[-2][0].islower())]
        return r[0] if len(r) == 1 else None


class World:
    def __init__(self, repo=None, only=None):
        self.repo = repo or REPO
        raw = load_raw(self.repo, only)
        self.crates = {}
        for root, v in raw.items():
            name = os.path.dirname(os.path.dirname(root))
            if root.endswith("main.rs"):
                name += "#main"
            self.crates[name] = Crate(name, root, v)

    def crate(self, n):
        return self.crates[n]

    def resolve(self, mod, segs, depth=0):
        """resolve a path (list of names) seen from module mod to ('fn'|'struct'|..., item) or None"""
        if depth > 12 or not segs:
            return None
        h = segs[0]
        m = mod
        if h == "crate":
            return self._down(mod.crate.root, segs[1:], depth)
        if h == "self":
            return self._down(mod, segs[1:], depth)
        if h == "super":
            return self._down(mod.parent or mod, segs[1:], depth)
        r = self._down(mod, segs, depth)
        return r

    def _down(self, m, segs, depth):
        if not segs:
            return ("mod", m)
        h = segs[0]
        if h == "super":
            return self._down(m.parent or m, segs[1:], depth)
        if h == "self":
            return self._down(m, segs[1:], depth)
        for k, it in m.items.get(h, []):
            if k == "mod":
                if len(segs) > 1:
                    r = self._down(it, segs[1:], depth + 1)
                    if r:
                        return r
                else:
                    best = [x for x in m.items[h] if x[0] != "mod"]
                    return best[0] if best else (k, it)
            elif len(segs) == 1:
                return (k, it)
            elif k == "enum" and len(segs) == 2:
                for v in it["variants"]:
                    if v[0] == segs[1]:
                        return ("variant", (it, v))
                return ("assoc", (it["name"], segs[1]))
            elif k == "type" and len(segs) == 2:
                return self.resolve_type_assoc(it, segs[1])
            elif k in ("struct", "trait") and len(segs) == 2:
                return ("assoc", (h, segs[1]))
        if h in m.uses:
            p = m.uses[h].split("::") + segs[1:]
            if depth < 10:
                r = self._abs(m, p, depth + 1, h)
                if r:
                    return r
        for g in m.globs:
            gp = g.split("::")
            if gp[0] in ("self",):
                gp = gp[1:]
                base = self._down(m, gp, depth + 1) if depth < 8 else None
            elif gp[0] == "crate":
                base = self._down(m.crate.root, gp[1:], depth + 1) if depth < 8 else None
            elif gp[0] == "super":
                base = self._down(m.parent or m, gp[1:], depth + 1) if depth < 8 else None
            elif gp[0] in m.mods:
                base = ("mod", self._down(m, gp, depth + 1)[1]) if depth < 8 and self._down(m, gp, depth + 1) else None
            else:
                base = None
            if base and base[0] == "mod" and base[1] is not m and isinstance(base[1], Module):
                r = self._down(base[1], segs, depth + 1) if depth < 8 else None
                if r:
                    return r
            if base and base[0] == "enum":
                for v in base[1]["variants"]:
                    if v[0] == h and len(segs) == 1:
                        return ("variant", (base[1], v))
        return None

    def resolve_type_assoc(self, alias, name):
        return ("assoc", (tyname(alias["ty"]), name))

    def _abs(self, m, p, depth, orig):
        if p[0] == "crate":
            return self._down(m.crate.root, p[1:], depth)
        if p[0] == "self":
            return self._down(m, p[1:], depth)
        if p[0] == "super":
            return self._down(m.parent or m, p[1:], depth)
        if p[0] in m.mods or p[0] in m.items:
            if p[0] != orig or len(p) > 1:
                r = self._down(m, p, depth)
                if r:
                    return r
        # 2015-style / extern crate paths: try the crate root
        if p[0] in m.crate.root.mods:
            return self._down(m.crate.root, p, depth)
        # other workspace crates
        c = self.extern(p[0])
        if c is not None:
            return self._down(c.root, p[1:], depth)
        return None

    _ext = {
        "hydra_dx_math": "math", "hydradx_traits": "traits", "primitives": "primitives",
        "hydradx_adapters": "runtime/adapters",
    }

    def extern(self, name):
        if name in self._ext:
            return self.crates.get(self._ext[name])
        if name.startswith("pallet_"):
            n = "pallets/" + name[7:].replace("_", "-")
            return self.crates.get(n)
        return None
