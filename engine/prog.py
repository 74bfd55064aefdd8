"""Loading of the resolved program written by tools/astdump."""
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SIMFIL_REPO", "/repo")
RES = "/usr/lib/llvm-18/lib/clang/18"


class Ty:
    """Interned type. k: b builtin, p pointer, l/r reference, e enum, o record, a array, f function, m, x"""
    __slots__ = ("k", "n", "const", "to", "a", "rec", "w", "s", "int", "flt", "sz", "ev", "ps", "key", "va")

    def __init__(self):
        self.k = "x"
        self.n = ""
        self.const = False
        self.to = None
        self.a = ()
        self.rec = None
        self.w = 0
        self.s = False
        self.int = False
        self.flt = False
        self.sz = None
        self.ev = None
        self.ps = None
        self.key = None

    @property
    def isref(self):
        return self.k in "lr"

    def noref(self):
        return self.to if self.k in "lr" else self

    @property
    def isint(self):
        return self.int or self.k == "e"

    @property
    def isbool(self):
        return self.k == "b" and self.n == "bool"

    def range(self):
        if self.isbool:
            return (0, 1)
        if self.s:
            return (-(1 << (self.w - 1)), (1 << (self.w - 1)) - 1)
        return (0, (1 << self.w) - 1)

    def name(self):
        return self.key

    def __repr__(self):
        return "<%s>" % (self.key,)


class BuildFailed(Exception):
    pass


def strip_ns(n):
    """Removes inline/ABI namespaces from a qualified library name."""
    for x in ("__cxx11::", "__1::", "_V2::", "__debug::", "ranges::__cust::", "__gnu_cxx::"):
        if x in n and x != "__gnu_cxx::":
            n = n.replace(x, "")
    return n


class Prog:
    def __init__(self):
        self.funcs = {}
        self.recs = {}
        self.vars = {}
        self.tys = {}
        self.byname = {}
        self.unknown = {}
        self._vt = {}

    # -- types
    def _intern(self, key, mk):
        t = self.tys.get(key)
        if t is None:
            t = mk()
            t.key = key
            self.tys[key] = t
        return t

    def load(self, path):
        with open(path) as f:
            d = json.load(f)
        raw = d["types"]
        memo = {}

        def targ(x):
            if "t" in x:
                return conv(x["t"])
            if "v" in x:
                return int(x["v"])
            if "p" in x:
                return tuple(targ(y) for y in x["p"])
            return None

        def keyof(i):
            t = conv(i)
            return t.key if t is not None else "?"

        active = set()

        def conv(i):
            if i is None or i < 0:
                return None
            if i in memo:
                return memo[i]
            r = raw[i]
            t = Ty()
            memo[i] = t  # recursion guard (records with self-referential args)
            if r is None:
                t.key = "?"
                return t
            k = t.k = r["k"]
            t.const = bool(r.get("c"))
            t.n = strip_ns(r.get("n", ""))
            t.w = r.get("w", 0)
            t.s = bool(r.get("s"))
            t.int = bool(r.get("i"))
            t.flt = bool(r.get("f"))
            if k in "plrm":
                t.to = conv(r["to"])
                key = k + "(" + (t.to.key or "?rec") + ")"
            elif k == "a":
                t.to = conv(r["of"])
                t.sz = r.get("sz")
                key = "a(%s,%s)" % (t.to.key, t.sz)
            elif k == "f":
                t.to = conv(r["ret"])
                t.ps = tuple(conv(x) for x in r["ps"])
                key = "f(%s;%s)" % (t.to.key, ",".join(str(x.key) for x in t.ps))
            elif k == "o":
                t.rec = r.get("id") or t.n
                t.key = ("c " if t.const else "") + strip_ns(t.rec)
                t.a = tuple(targ(x) for x in r.get("a", ()))
                key = strip_ns(t.rec)
            elif k == "e":
                t.ev = r.get("ev")
                key = "e:" + t.n
            else:
                key = t.n
            if t.const:
                key = "c " + key
            t.key = key
            u = self.tys.get(key)
            if u is None:
                self.tys[key] = t
                u = t
            memo[i] = u
            return u

        self._fix(d, conv)
        for k, v in d["unknown"].items():
            self.unknown[k] = self.unknown.get(k, 0) + v
        for i, r in d["records"].items():
            r["bases"] = [conv(x) for x in r["bases"]]
            if i not in self.recs or (not self.recs[i].get("fields") and r.get("fields")):
                self.recs[i] = r
            else:  # merge method tables (inline definitions may differ per unit in what is used)
                pass
        for i, f in d["funcs"].items():
            if i not in self.funcs:
                f["id"] = i
                self.funcs[i] = f
                self.byname.setdefault(f["n"], []).append(f)
        for i, v in d["vars"].items():
            if i not in self.vars or ("init" in v and "init" not in self.vars[i]):
                self.vars[i] = v

    def _fix(self, d, conv):
        """Replaces type indices by Ty objects everywhere in the trees."""
        tykeys = ("t", "at", "ct", "rt", "cls", "of", "ty")
        stack = [d["funcs"], d["vars"], d["records"]]

        def walk(o, isfn=False):
            if isinstance(o, dict):
                for k, v in o.items():
                    if type(v) is int and not isinstance(v, bool):
                        if k in ("t", "at", "ct", "rt", "cls", "ty", "of"):
                            o[k] = conv(v)
                        elif k == "b" and "e" in o and "l" in o and "k" not in o:
                            o[k] = conv(v)  # base initialiser
                    elif k == "ps" and v and type(v[0]) is int:
                        o[k] = [conv(x) for x in v]
                    elif k == "ta":
                        o[k] = [self._ta(x, conv) for x in v]
                    elif isinstance(v, (dict, list)):
                        walk(v)
            elif isinstance(o, list):
                for v in o:
                    if isinstance(v, (dict, list)):
                        walk(v)

        # 'cls' in function objects is a string (record id), in callee infos a type index
        for part in ("funcs", "vars", "records"):
            walk(d[part])

    @staticmethod
    def _ta(x, conv):
        if "t" in x:
            return conv(x["t"])
        if "v" in x:
            return int(x["v"])
        if "p" in x:
            return tuple(Prog._ta(y, conv) for y in x["p"])
        if "d" in x:
            return x["d"]
        return None

    # -- queries
    def fn(self, name, **kw):
        return [f for f in self.byname.get(name, [])]

    def bases(self, rid):
        """All record ids from most derived to bases (depth first, unique)."""
        out = []

        def go(r):
            if r in out:
                return
            out.append(r)
            for b in self.recs.get(r, {}).get("bases", ()):
                if b is not None and b.rec:
                    go(b.rec)
        go(rid)
        return out

    def derives(self, rid, base):
        return base in self.bases(rid)

    def overrider(self, rid, mid):
        """Final overrider of virtual method `mid` in class `rid`."""
        key = (rid, mid)
        if key in self._vt:
            return self._vt[key]
        res = None
        for r in self.bases(rid):
            for m in self.recs.get(r, {}).get("methods", ()):
                if m["id"] == mid or mid in self.allov(m["id"]):
                    res = m
                    break
            if res:
                break
        self._vt[key] = res
        return res

    def allov(self, mid):
        if not hasattr(self, "_ov"):
            self._ov = {}
            for r in self.recs.values():
                for m in r.get("methods", ()):
                    self._ov.setdefault(m["id"], set()).update(m.get("ov", ()))
        out = set()
        todo = list(self._ov.get(mid, ()))
        while todo:
            x = todo.pop()
            if x not in out:
                out.add(x)
                todo += list(self._ov.get(x, ()))
        return out

    def fields(self, rid):
        """(rec, field) for all fields, bases first."""
        out = []

        def go(r):
            rec = self.recs.get(r)
            if not rec:
                return
            for b in rec.get("bases", ()):
                if b is not None and b.rec:
                    go(b.rec)
            for f in rec.get("fields", ()):
                out.append((r, f))
        go(rid)
        return out


def ensure_tool():
    """Builds the AST dumper when it is missing or out of date."""
    src = os.path.join(VERIF, "tools", "astdump.cpp")
    out = os.path.join(VERIF, "build", "astdump")
    os.makedirs(os.path.dirname(out), exist_ok=True)
    import fcntl
    with open(out + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(out) or os.path.getmtime(out) < os.path.getmtime(src):
            cmd = ["clang++-18", "-std=c++17", "-O1", "-fno-rtti", "-I/usr/lib/llvm-18/include", src, "-o", out + ".new",
                   "-L/usr/lib/llvm-18/lib", "-l:libclang-cpp.so.18.1", "-lLLVM-18"]
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if r.returncode != 0:
                raise BuildFailed("cannot build the AST dumper:\n" + r.stdout[-2000:])
            os.replace(out + ".new", out)
    return out


def flags(json_on=True):
    fl = ["-std=c++20", "-w", "-include", VERIF + "/stubs/prelude.h", "-I" + REPO + "/include", "-I" + VERIF + "/stubs", "-resource-dir=" + RES]
    if json_on:
        fl.append("-DSIMFIL_WITH_MODEL_JSON")
    return fl


def units():
    out = []
    for dp, dn, fn in os.walk(REPO + "/src"):
        dn.sort()
        for f in sorted(fn):
            if f.endswith(".cpp"):
                out.append(os.path.join(dp, f))
    return out


def dump(src, name, outdir, roots=None):
    tool = ensure_tool()
    out = os.path.join(outdir, name + ".json")
    cmd = [tool, out, name, ":".join(roots or [REPO + "/"]), src] + flags()
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    if r.returncode != 0 or not os.path.exists(out):
        raise BuildFailed("cannot parse %s:\n%s" % (src, r.stderr[-3000:]))
    return out


def load(sources, extra_roots=(), tmp=None):
    """Dumps and loads the given sources (paths); returns Prog."""
    import tempfile
    import shutil
    from concurrent.futures import ThreadPoolExecutor
    ensure_tool()
    d = tempfile.mkdtemp(prefix="astdump.")
    try:
        def one(s):
            name = os.path.splitext(os.path.basename(s))[0].replace("-", "_")
            return dump(s, name, d, [REPO + "/"] + list(extra_roots))
        with ThreadPoolExecutor(8) as ex:
            paths = list(ex.map(one, sources))
        p = Prog()
        for x in paths:
            p.load(x)
        p.sources = list(sources)
        return p
    finally:
        shutil.rmtree(d, ignore_errors=True)
