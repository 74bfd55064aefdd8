"""Abstract interpreter over the resolved program (see prog.py, dom.py)."""
from fractions import Fraction
from .dom import *
from . import prog
from .prog import strip_ns

import sys
sys.setrecursionlimit(20000)


class Uninit:
    def __repr__(self):
        return "<uninit>"


class Moved:
    def __repr__(self):
        return "<moved>"


UNINIT = Uninit()


class NullT:
    def __repr__(self):
        return "null"


NULL = NullT()
VOID = None


class Cell:
    __slots__ = ("v", "t", "dead", "nm", "own")

    def __init__(self, v=UNINIT, t=None, nm=None):
        self.v = v
        self.t = t
        self.dead = False
        self.nm = nm
        self.own = None

    def __repr__(self):
        return "Cell(%s)" % (self.nm or "",)


class Ptr:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c

    def __eq__(self, o):
        return isinstance(o, Ptr) and o.c is self.c

    def __hash__(self):
        return id(self.c)


class APtr:
    """Pointer into an indexed object (array, C string, vector storage)."""
    __slots__ = ("o", "i")

    def __init__(self, o, i):
        self.o = o
        self.i = i


class FnV:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info


class MemFn:
    __slots__ = ("info",)

    def __init__(self, info):
        self.info = info


class Rec:
    __slots__ = ("rid", "f", "opt", "dead", "ctl")

    def __init__(self, rid):
        self.rid = rid
        self.f = {}
        self.opt = None
        self.dead = False
        self.ctl = None

    def get(self, name):
        """Field cell by plain name."""
        for (r, n), c in self.f.items():
            if n == name:
                return c
        return None

    def __repr__(self):
        return "Rec(%s)" % self.rid


class Arr:
    def __init__(self, items):
        self.items = items

    def at(self, I, i, loc):
        i = I.concrete(i, "array index", loc)
        if i < 0 or i >= len(self.items):
            I.ub("array index %d outside [0,%d)" % (i, len(self.items)), loc)
        return self.items[i]


class CStr:
    def __init__(self, b):
        self.b = b
        self.cells = {}

    def at(self, I, i, loc):
        i = I.concrete(i, "string literal index", loc)
        if i < 0 or i > len(self.b):
            I.ub("read outside a string literal", loc)
        c = Cell(SIGNED[self.b[i]] if i < len(self.b) else 0)
        return c


class StdObj:
    """Base of library object models."""

    def __repr__(self):
        return type(self).__name__

    def copy(self, I):
        raise Unsupported("copy of " + type(self).__name__)

    def move(self, I):
        return self.copy(I)

    def destroy(self, I):
        pass

    def walk(self):
        return ()


class PyObj(StdObj):
    """Object of a repository class modelled by the check (e.g. an abstract child expression)."""
    rid = None

    def call(self, I, name, args, info, loc):
        m = getattr(self, "c_" + name, None)
        if m is None:
            raise Unsupported("model %s has no %s" % (type(self).__name__, name))
        return m(I, args, loc)


class CxxThrow(Exception):
    stack = ()

    def __init__(self, v, t, loc):
        Exception.__init__(self, "C++ exception")
        self.v = v
        self.t = t
        self.loc = loc


class UBEvent(Exception):
    def __init__(self, msg, loc):
        Exception.__init__(self, msg)
        self.msg = msg
        self.loc = loc


class Frame:
    __slots__ = ("fn", "vars", "this", "ret", "scopes", "temps", "loc", "cap", "site")

    def __init__(self, fn):
        self.fn = fn
        self.vars = {}
        self.this = None
        self.ret = None
        self.scopes = [[]]
        self.temps = []
        self.loc = None
        self.cap = None
        self.site = None


BRK, CNT, RET = "brk", "cnt", "ret"


class Interp:
    max_iter = 40
    max_depth = 120

    def __init__(self, prog, st=None):
        self.p = prog
        self.st = st or State()
        self.frames = []
        self.statics = {}
        self.hooks = {}      # qualified function name -> python function(I, this, args, loc)
        self.heap = None     # list of (cell, site, type) of new-expressions when set
        self.fnhooks = {}
        self.loophook = None
        self.callhook = None
        self.writehook = None
        self.readhook = None
        self.steps = 0
        self.step_limit = 400000
        self.loopcount = {}
        self.covered = set()
        self.inflight = []   # exceptions being handled
        self.unwinding = 0   # scopes are left because of an exception
        from . import lib
        self.lib = lib

    # ---- diagnostics
    def here(self, node=None):
        fr = self.frames[-1] if self.frames else None
        if fr is None:
            return "?"
        f = fr.fn.get("f", "?")
        l = node.get("l") if isinstance(node, dict) else node
        return "%s:%s (%s)" % (f.replace("/repo/", ""), l if l is not None else fr.fn.get("l"), fr.fn.get("n"))

    def ub(self, msg, loc):
        raise UBEvent(msg, loc if isinstance(loc, str) else self.here(loc))

    def concrete(self, v, what, loc=None):
        v = self.st.simp(v) if not isnum(v) else v
        if isnum(v):
            return v
        if isinstance(v, TF):
            return self.st.enum(v, what)
        lo, hi = self.st.bounds(v)
        if lo is not None and hi is not None and hi - lo <= 40 and isinstance(v, Poly):
            for k in range(int(lo), int(hi)):
                if self.st.cmp("==", v, k, what):
                    return k
            if self.st.cmp("==", v, int(hi), what):
                return int(hi)
        raise Unsupported("%s is not constant at %s" % (what, self.here(loc)))

    def throw(self, tyname, what="", loc=None):
        raise CxxThrow(LibExc(tyname, what), None, self.here(loc))

    # ---- memory
    def read(self, c, node=None):
        if not isinstance(c, Cell):
            return c
        if c.dead:
            self.ub("use of an object after its lifetime", node)
        v = c.v
        if v is UNINIT:
            self.ub("read of an uninitialised variable", node)
        if self.readhook:
            self.readhook(self, c, node)
        return v

    def write(self, c, v, node=None):
        if c.dead:
            self.ub("write to an object after its lifetime", node)
        if self.writehook:
            self.writehook(self, c, node)
        c.v = v

    def copyval(self, v, t=None):
        if isinstance(v, Rec):
            return self.copyrec(v)
        if isinstance(v, StdObj):
            return v.copy(self)
        if isinstance(v, Arr):
            return Arr([Cell(self.copyval(c.v), c.t) for c in v.items])
        return v

    def moveval(self, v, t=None):
        if isinstance(v, Rec):
            return self.moverec(v)
        if isinstance(v, StdObj):
            return v.move(self)
        return self.copyval(v)

    def special(self, rid, flag):
        for m in self.p.recs.get(rid, {}).get("methods", ()):
            if m.get(flag):
                return m
        return None

    def copyrec(self, v):
        if v.dead:
            self.ub("copy of a destroyed object", None)
        m = self.special(v.rid, "cc")
        if m and m.get("up") and m["id"] in self.p.funcs:
            return self.construct(v.rid, self.p.funcs[m["id"]], [Cell(v)], None)
        r = Rec(v.rid)
        if v.opt is not None:
            r.opt = {"cap": {k: (c if ref else Cell(self.copyval(c.v), c.t), ref) for k, (c, ref) in v.opt["cap"].items()},
                     "this": v.opt["this"]}
        for k, c in v.f.items():
            if c.t is not None and c.t.isref:
                r.f[k] = c
            else:
                nc = r.f[k] = Cell(self.copyval(c.v) if c.v is not UNINIT else UNINIT, c.t, c.nm)
                nc.own = r
        return r

    def moverec(self, v):
        if v.dead:
            self.ub("move from a destroyed object", None)
        m = self.special(v.rid, "mc")
        if m is None or m.get("del"):
            m2 = self.special(v.rid, "cc")
            if m2 and m2.get("up"):
                return self.copyrec(v)
        if m and m.get("up") and m["id"] in self.p.funcs:
            return self.construct(v.rid, self.p.funcs[m["id"]], [Cell(v)], None)
        r = Rec(v.rid)
        if v.opt is not None:
            r.opt = {"cap": {k: (c if ref else Cell(self.moveval(c.v), c.t), ref) for k, (c, ref) in v.opt["cap"].items()},
                     "this": v.opt["this"]}
        for k, c in v.f.items():
            if c.t is not None and c.t.isref:
                r.f[k] = c
            else:
                nc = r.f[k] = Cell(self.moveval(c.v) if c.v is not UNINIT else UNINIT, c.t, c.nm)
                nc.own = r
        return r

    def assignrec(self, dst, src, move):
        """Implicit (member-wise) assignment."""
        if dst is src:
            return
        for k, c in src.f.items():
            if k in dst.f:
                self.assigncell(dst.f[k], c, move)
            else:
                dst.f[k] = Cell(self.moveval(c.v) if move else self.copyval(c.v), c.t, c.nm)

    def assigncell(self, d, s, move):
        v = s.v if isinstance(s, Cell) else s
        if isinstance(d.v, Rec) and isinstance(v, Rec):
            m = self.special(d.v.rid, "ma" if move else "ca") or (self.special(d.v.rid, "ca") if move else None)
            if m and m.get("up") and m["id"] in self.p.funcs:
                self.invoke(self.p.funcs[m["id"]], Ptr(d), [s if isinstance(s, Cell) else Cell(s)], None)
                return
            self.assignrec(d.v, v, move)
            return
        if d.v is v and isinstance(v, StdObj):
            return
        old = d.v
        self.write(d, self.moveval(v) if move else self.copyval(v))
        if isinstance(old, StdObj):
            old.destroy(self)

    def default_value(self, t):
        """Value-initialised object of type t."""
        if t.k in "be":
            if t.flt:
                return 0
            return 0
        if t.k == "p" or t.n == "std::nullptr_t":
            return NULL
        if t.k == "a":
            return Arr([Cell(self.default_value(t.to), t.to) for _ in range(t.sz or 0)])
        if t.k == "o":
            return self.default_object(t)
        return UNINIT

    def default_object(self, t):
        rec = self.p.recs.get(t.rec)
        if rec and rec.get("repo"):
            for m in rec.get("methods", ()):
                if m.get("ctor") and m["id"] in self.p.funcs and not self.p.funcs[m["id"]]["ps"] and m.get("up"):
                    return self.construct(t.rec, self.p.funcs[m["id"]], [], None)
            r = Rec(t.rec)
            for (rr, f) in self.p.fields(t.rec):
                c = Cell(UNINIT, f["t"], f["n"])
                c.own = r
                r.f[(rr, f["n"])] = c
                if "init" in f:
                    c.v = self.rvalue_in(r, f["init"])
                else:
                    c.v = self.default_value(f["t"])
            return r
        return self.lib.default(self, t)

    def rvalue_in(self, rec, e):
        fr = Frame({"n": "(member initialiser)", "f": "", "l": 0})
        fr.this = Ptr(Cell(rec))
        self.frames.append(fr)
        try:
            v = self.ev(e)
            return self.toval(v)
        finally:
            self.frames.pop()

    def toval(self, v):
        """Object/value of an initialiser result (copies out of a cell are made by the caller)."""
        return v.v if isinstance(v, Cell) else v

    # ---- destruction
    def destroy_cell(self, c):
        v = c.v
        if c.t is not None and c.t.isref:
            return
        self.destroy_val(v)
        c.dead = True

    def destroy_val(self, v):
        if isinstance(v, Rec):
            if v.dead:
                self.ub("object destroyed twice", None)
            for r in self.p.bases(v.rid):
                d = self.special(r, "dtor")
                if d and d.get("up") and d["id"] in self.p.funcs:
                    self.invoke(self.p.funcs[d["id"]], Ptr(Cell(v)), [], None)
            if v.opt is not None:
                for c, ref in v.opt["cap"].values():
                    if not ref:
                        self.destroy_val(c.v)
            for c in reversed(list(v.f.values())):
                if not (c.t is not None and c.t.isref):
                    self.destroy_val(c.v)
            v.dead = True
        elif isinstance(v, StdObj):
            v.destroy(self)
        elif isinstance(v, Arr):
            for c in v.items:
                self.destroy_cell(c)

    def pop_scope(self, fr):
        sc = fr.scopes.pop()
        for c in reversed(sc):
            self.destroy_cell(c)

    def end_full(self, fr, mark):
        while len(fr.temps) > mark:
            c = fr.temps.pop()
            self.destroy_cell(c)

    # ---- construction
    def construct(self, rid, f, args, loc, dyn=None, into=None):
        """Runs constructor f on a fresh (or given) record."""
        r = into if into is not None else Rec(rid)
        if into is None:
            for (rr, fd) in self.p.fields(rid):
                c = Cell(UNINIT, fd["t"], fd["n"])
                c.own = r
                r.f[(rr, fd["n"])] = c
        key = f["n"]
        h = self.hooks.get(key)
        if h is not None:
            out = h(self, Ptr(Cell(r)), args, loc)
            return r if out is None else out
        self.invoke(f, Ptr(Cell(r)), args, loc, ctor=f["cls"])
        return r

    def run_inits(self, fr, f, cls):
        r = fr.this.c.v
        for i in f.get("inits", ()):
            mark = len(fr.temps)
            if "m" in i:
                c = r.f.get((cls, i["m"]))
                if c is None:
                    c = r.f[(cls, i["m"])] = Cell(UNINIT, None, i["m"])
                if c.t is not None and c.t.isref:
                    v = self.ev(i["e"])
                    r.f[(cls, i["m"])] = RefField(v, c.t, i["m"])
                else:
                    c.v = self.toval(self.ev(i["e"]))
                    if c.t is not None and c.t.k in "be":
                        pass
            elif "b" in i:
                self.base_init(r, i["b"], i["e"], fr)
            elif "d" in i:
                self.base_init(r, None, i["e"], fr)
            else:
                raise Unsupported("initialiser")
            self.end_full(fr, mark)

    def base_init(self, r, bt, e, fr):
        if e["k"] in ("ctor", "inhctor"):
            info = e["fn"]
            f = self.p.funcs.get(info["id"])
            if e["k"] == "inhctor":
                args = [fr.vars[q["id"]] for q in fr.fn["ps"]]
            else:
                args = self.args(e["as"], f["ps"] if f else None)
            if f is not None and (not f.get("dflt") or f.get("inits") is not None and not f.get("cc") and not f.get("mc")):
                h = self.hooks.get(f["n"])
                if h is not None:
                    h(self, Ptr(Cell(r)), args, None)
                    return
                self.invoke(f, Ptr(Cell(r)), args, None, ctor=f["cls"])
                return
            if bt is not None and bt.rec in self.p.recs and self.p.recs[bt.rec].get("repo"):
                if args and isinstance(args[0], Cell) and isinstance(args[0].v, Rec):
                    src = args[0].v
                    for k, c in src.f.items():
                        if k[0] in self.p.bases(bt.rec) and k in r.f:
                            r.f[k].v = self.moveval(c.v) if e.get("mc") else self.copyval(c.v)
                return
            r.f[(bt.rec if bt else "?", "#base")] = Cell(self.lib.construct(self, e["t"], e, args), e["t"], "#base")
            return
        if e["k"] == "init" and not e["as"]:
            return
        if e["k"] == "zero":
            return
        raise Unsupported("base initialiser %s" % e["k"])

    # ---- calls
    def bind(self, pt, a):
        """Parameter cell for an argument."""
        if pt is not None and pt.isref:
            if isinstance(a, Cell):
                return a
            c = Cell(a, pt.to)
            self.frames[-1].temps.append(c) if isinstance(a, (Rec, StdObj)) and self.frames else None
            return c
        v = a.v if isinstance(a, Cell) else a
        if isinstance(a, Cell) and isinstance(v, (Rec, StdObj)):
            # a glvalue bound to a by-value parameter of class type (only from library models)
            v = self.copyval(v)
        if pt is not None and pt.isint and (pt.w or 8) < 64 and not isinstance(v, bool):
            v = self.fit(v, pt, None, conv=True)     # arguments passed by library models
        return Cell(v, pt)

    def invoke(self, f, this, args, loc, ctor=None, cap=None):
        h = self.hooks.get(f["n"])
        if h is not None and ctor is None:
            return h(self, this, args, loc)
        if len(self.frames) > self.max_depth:
            raise Unsupported("call depth")
        self.covered.add(f["id"])
        fr = Frame(f)
        fr.this = this
        fr.cap = cap
        fr.site = loc if not isinstance(loc, dict) else loc.get("l")
        ps = f["ps"]
        if len(args) < len(ps):
            raise Unsupported("missing arguments for " + f["n"])
        byval = []
        for p, a in zip(ps, args):
            c = self.bind(p["t"], a)
            c.nm = c.nm or p["n"]
            fr.vars[p["id"]] = c
            if not (p["t"] is not None and p["t"].isref):
                byval.append(c)
        self.frames.append(fr)
        try:
            if ctor is not None and "inits" in f:
                self.run_inits(fr, f, ctor)
            self.exec(f["body"], fr)
        except BaseException:
            try:
                self.unwind(fr, byval)
            finally:
                if self.frames and self.frames[-1] is fr:
                    self.frames.pop()
            raise
        while fr.scopes:
            self.pop_scope(fr)
        self.end_full(fr, 0)
        self.frames.pop()
        for c in reversed(byval):
            self.destroy_cell(c)
        return fr.ret

    def unwind(self, fr, byval):
        e = sys.exc_info()[1]
        if not isinstance(e, CxxThrow):
            return
        self.unwinding += 1
        try:
            self.end_full(fr, 0)
            while fr.scopes:
                self.pop_scope(fr)
            for c in reversed(byval):
                self.destroy_cell(c)
        finally:
            self.unwinding -= 1

    def thisobj(self, this):
        return this.c.v

    def call_info(self, info, this, args, loc, virt=True):
        """Calls a resolved callee (calleeInfo object)."""
        n = info["n"]
        h = self.hooks.get(n)
        if h is None and "(lambda" not in n and "<" in n:
            h = None
        if h is not None:
            return h(self, this, args, loc)
        obj = this.c.v if isinstance(this, Ptr) else None
        if isinstance(obj, PyObj):
            return obj.call(self, n.split("::")[-1], args, info, loc)
        fid = info["id"]
        if info.get("v") and virt and isinstance(obj, Rec):
            m = self.p.overrider(obj.rid, fid)
            if m is not None:
                fid = m["id"]
                if m.get("pure"):
                    self.ub("call of a pure virtual function", loc)
        f = self.p.funcs.get(fid)
        if f is None and info.get("repo"):
            return self.lib.nobody(self, info, this, args, loc)
        if f is not None and not (f.get("dflt") and (f.get("cc") or f.get("mc") or f["n"].endswith("operator="))):
            if self.callhook:
                self.callhook(self, f, this, args, loc)
            return self.invoke(f, this, args, loc)
        if f is not None or info.get("repo"):
            return self.lib.nobody(self, info, this, args, loc)
        return self.lib.call(self, info, this, args, loc)

    def call_value(self, fv, args, loc):
        """Calls a callable value (function pointer, closure, functor)."""
        if isinstance(fv, Cell):
            fv = fv.v
        if isinstance(fv, FnV):
            return self.call_info(fv.info, None, args, loc)
        if isinstance(fv, Ptr):
            return self.call_value(fv.c.v, args, loc)
        if isinstance(fv, Rec):
            rec = self.p.recs[fv.rid]
            if rec.get("lambda"):
                return self.call_lambda(fv, args, loc)
            cands = [m for r in self.p.bases(fv.rid) for m in self.p.recs.get(r, {}).get("methods", ()) if m["n"] == "operator()"]
            cands = [m for m in cands if m["id"] in self.p.funcs]
            f = self.pick([self.p.funcs[m["id"]] for m in cands], args)
            return self.invoke(f, Ptr(Cell(fv)), args, loc)
        if isinstance(fv, StdObj) and hasattr(fv, "invoke"):
            return fv.invoke(self, args, loc)
        if callable(fv):
            return fv(self, args, loc)
        raise Unsupported("call of %r" % (fv,))

    def call_lambda(self, rec, args, loc):
        ops = [self.p.funcs[i] for i in self.p.recs[rec.rid]["ops"] if i in self.p.funcs]
        f = ops[0] if len(ops) == 1 else self.pick(ops, args)
        cap = rec.opt
        return self.invoke(f, cap["this"] if cap and cap.get("this") else None, args, loc, cap=cap)

    def pick(self, fs, args):
        """Overload among specialisations by argument types."""
        fs = [f for f in fs if len(f["ps"]) == len(args)]
        if len(fs) == 1:
            return fs[0]
        best = []
        for f in fs:
            s = 0
            ok = True
            for p, a in zip(f["ps"], args):
                m = self.lib.matches(self, p["t"], a)
                if m is None:
                    ok = False
                    break
                s += m
            if ok:
                best.append((s, f))
        if not best:
            raise Unsupported("no overload for a generic call")
        best.sort(key=lambda x: -x[0])
        if len(best) > 1 and best[0][0] == best[1][0]:
            # instantiations for const / non-const forms of the same argument behave alike
            pass
        return best[0][1]

    def args(self, as_, ps):
        out = []
        for i, a in enumerate(as_):
            out.append(self.ev(a))
        return out

    # ---- statements
    def exec(self, s, fr):
        if s is None:
            return None
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("statement %s at %s" % (k, self.here(s)))
        self.steps += 1
        if self.steps > self.step_limit:
            raise Unsupported("step limit")
        return m(s, fr)

    def s_block(self, s, fr):
        fr.scopes.append([])
        r = None
        for x in s["b"]:
            if x is None:
                continue
            r = self.exec(x, fr)
            if r is not None:
                break
        self.pop_scope(fr)
        return r

    def s_expr(self, s, fr):
        mark = len(fr.temps)
        fr.loc = s.get("l")
        v = self.ev(s["e"])
        if isinstance(v, (Rec, StdObj)):
            self.destroy_val(v)
        self.end_full(fr, mark)

    def s_null(self, s, fr):
        pass

    def s_decl(self, s, fr):
        for d in s["d"]:
            if d["k"] == "var":
                self.decl_var(d, fr)
            elif d["k"] == "decomp":
                self.decl_decomp(d, fr)
            else:
                raise Unsupported("declaration")

    def decl_var(self, d, fr):
        t = d["t"]
        if d.get("static"):
            c = self.statics.get(d["id"])
            if c is None:
                c = self.statics[d["id"]] = Cell(UNINIT, t, d["n"])
                c.v = self.init_value(d.get("init"), t, fr)
            fr.vars[d["id"]] = c
            return
        mark = len(fr.temps)
        if t.isref:
            v = self.ev(d["init"])
            if isinstance(v, Cell):
                fr.vars[d["id"]] = v
            else:
                fr.vars[d["id"]] = Cell(v, t.to, d["n"])
                fr.scopes[-1].append(fr.vars[d["id"]])
            # temporaries bound to a reference live as long as the variable
            ext = fr.temps[mark:]
            del fr.temps[mark:]
            fr.scopes[-1].extend(ext)
            return
        c = Cell(UNINIT, t, d["n"])
        fr.vars[d["id"]] = c
        if d.get("init") is not None:
            c.v = self.init_value(d["init"], t, fr)
        elif t.k == "a":
            c.v = Arr([Cell(UNINIT, t.to) for _ in range(t.sz or 0)])
        self.end_full(fr, mark)
        fr.scopes[-1].append(c)

    def init_value(self, e, t, fr):
        if e is None:
            return UNINIT
        v = self.ev(e)
        if isinstance(v, Cell):
            # string literal initialising a char array, or class glvalue (array of class)
            if isinstance(v.v, CStr) and t.k == "a":
                return Arr([Cell(SIGNED[b]) for b in v.v.b] + [Cell(0)])
            return self.copyval(v.v)
        return v

    def decl_decomp(self, d, fr):
        t = d["t"]
        v = self.ev(d["init"])
        if t.isref:
            c = v if isinstance(v, Cell) else Cell(v, t.to)
            fr.scopes[-1].extend(fr.temps)
            del fr.temps[:]
            if not isinstance(v, Cell):
                fr.scopes[-1].append(c)
        else:
            c = Cell(self.toval(v), t)
            fr.scopes[-1].append(c)
        fr.vars[d["id"]] = c
        for i, b in enumerate(d["bs"]):
            if "hv" in b:
                x = self.lib.tuple_get(self, c, i)
                fr.vars[b["hv"]] = x
                fr.vars[b["id"]] = x
            elif "e" in b:
                x = self.ev(b["e"])
                fr.vars[b["id"]] = x
            else:
                x = self.lib.tuple_get(self, c, i)
                fr.vars[b["id"]] = x

    def cond(self, e, fr, node=None):
        mark = len(fr.temps)
        v = self.ev(e)
        if isinstance(v, Cell):
            v = self.read(v, e)
        r = self.truth(v, e)
        self.end_full(fr, mark)
        return r

    def truth(self, v, node=None):
        if isinstance(v, bool):
            return v
        if isnum(v):
            return v != 0
        if isinstance(v, (Ptr, APtr, FnV)):
            return True
        if v is NULL:
            return False
        if isinstance(v, (TF, Poly)):
            return self.st.truth(v, "cond@%s" % (self.here(node),))
        if v is UNINIT:
            self.ub("branch on an uninitialised value", node)
        raise Unsupported("truth of %r" % (v,))

    def s_if(self, s, fr):
        fr.scopes.append([])
        if "init" in s:
            self.exec(s["init"], fr)
        if "cv" in s:
            self.exec(s["cv"], fr)
        r = None
        if self.cond(s["c"], fr, s):
            r = self.exec(s["t"], fr)
        elif "e" in s:
            r = self.exec(s["e"], fr)
        self.pop_scope(fr)
        return r

    def loop_enter(self, s, fr):
        key = (len(self.frames), id(fr), id(s))
        n = self.loopcount[key] = self.loopcount.get(key, 0) + 1
        if self.loophook:
            self.loophook(self, s, fr, n)
        if n > self.max_iter:
            raise PathEnd("loop bound at " + self.here(s))

    def s_while(self, s, fr):
        self.loopcount.pop((len(self.frames), id(fr), id(s)), None)
        while True:
            self.loop_enter(s, fr)
            fr.scopes.append([])
            if "cv" in s:
                self.exec(s["cv"], fr)
            if not self.cond(s["c"], fr, s):
                self.pop_scope(fr)
                return None
            r = self.exec(s["b"], fr)
            self.pop_scope(fr)
            if r == BRK:
                return None
            if r == RET:
                return r

    def s_do(self, s, fr):
        self.loopcount.pop((len(self.frames), id(fr), id(s)), None)
        while True:
            self.loop_enter(s, fr)
            r = self.exec(s["b"], fr)
            if r == BRK:
                return None
            if r == RET:
                return r
            if not self.cond(s["c"], fr, s):
                return None

    def s_for(self, s, fr):
        fr.scopes.append([])
        if "init" in s:
            self.exec(s["init"], fr)
        self.loopcount.pop((len(self.frames), id(fr), id(s)), None)
        r = None
        while True:
            self.loop_enter(s, fr)
            fr.scopes.append([])
            if "cv" in s:
                self.exec(s["cv"], fr)
            if "c" in s and not self.cond(s["c"], fr, s):
                self.pop_scope(fr)
                break
            r = self.exec(s["b"], fr)
            self.pop_scope(fr)
            if r == BRK:
                r = None
                break
            if r == RET:
                break
            r = None
            if "inc" in s:
                self.s_expr({"e": s["inc"], "l": s.get("l")}, fr)
        self.pop_scope(fr)
        return r

    def s_rfor(self, s, fr):
        fr.scopes.append([])
        if "init" in s:
            self.exec(s["init"], fr)
        self.exec(s["range"], fr)
        self.exec(s["begin"], fr)
        self.exec(s["end"], fr)
        self.loopcount.pop((len(self.frames), id(fr), id(s)), None)
        r = None
        while True:
            self.loop_enter(s, fr)
            if not self.cond(s["c"], fr, s):
                break
            fr.scopes.append([])
            self.exec(s["var"], fr)
            r = self.exec(s["b"], fr)
            self.pop_scope(fr)
            if r == BRK:
                r = None
                break
            if r == RET:
                break
            r = None
            self.s_expr({"e": s["inc"], "l": s.get("l")}, fr)
        self.pop_scope(fr)
        return r

    def s_switch(self, s, fr):
        fr.scopes.append([])
        if "init" in s:
            self.exec(s["init"], fr)
        if "cv" in s:
            self.exec(s["cv"], fr)
        mark = len(fr.temps)
        v = self.ev(s["c"])
        if isinstance(v, Cell):
            v = self.read(v, s)
        self.end_full(fr, mark)
        body = s["b"]
        stmts = body["b"] if body["k"] == "block" else [body]
        flat = self.flat_switch(body, stmts)
        v = self.st.simp(v) if not isnum(v) else v
        target = None
        default = None
        cases = []
        for i, (lab, x) in enumerate(flat):
            for l in lab:
                if l == "default":
                    default = i
                else:
                    cases.append((l, i))
        if isnum(v):
            for (a, b), i in cases:
                if a <= v <= b:
                    target = i
                    break
        else:
            for (a, b), i in cases:
                if a == b:
                    hit = self.st.cmp("==", v, a, "switch@%s" % self.here(s))
                else:
                    hit = self.st.cmp(">=", v, a) and self.st.cmp("<=", v, b)
                if hit:
                    target = i
                    break
        if target is None:
            target = default
        r = None
        if target is not None:
            fr.scopes.append([])
            for lab, x in flat[target:]:
                if x is None:
                    continue
                r = self.exec(x, fr)
                if r is not None:
                    break
            self.pop_scope(fr)
        self.pop_scope(fr)
        if r == BRK:
            return None
        return r

    def flat_switch(self, body, stmts):
        c = body.get("_flat")
        if c is not None:
            return c
        out = []
        for x in stmts:
            labs = []
            while x is not None and x["k"] in ("case", "default"):
                if x["k"] == "case":
                    labs.append((x["v"], x.get("v2", x["v"])))
                else:
                    labs.append("default")
                x = x["s"]
            out.append((labs, x))
        body["_flat"] = out
        return out

    def s_case(self, s, fr):
        return self.exec(s["s"], fr)

    s_default = s_case

    def s_break(self, s, fr):
        return BRK

    def s_continue(self, s, fr):
        return CNT

    def s_ret(self, s, fr):
        mark = len(fr.temps)
        fr.loc = s.get("l")
        if "e" in s:
            v = self.ev(s["e"])
            rt = fr.fn.get("rt")
            if isinstance(v, Cell) and not (rt is not None and rt.isref):
                v = self.copyval(v.v)
            fr.ret = v
        self.end_full(fr, mark)
        return RET

    def s_try(self, s, fr):
        depth = len(fr.scopes)
        nframes = len(self.frames)
        try:
            return self.exec(s["b"], fr)
        except CxxThrow as e:
            assert len(self.frames) == nframes
            self.unwinding += 1
            try:
                self.end_full(fr, 0)
                while len(fr.scopes) > depth:
                    self.pop_scope(fr)
            finally:
                self.unwinding -= 1
            for h in s["h"]:
                if h.get("all") or self.catches(h["t"], e):
                    if "id" in h:
                        fr.vars[h["id"]] = e.v if isinstance(e.v, Cell) else Cell(e.v)
                    self.inflight.append(e)
                    try:
                        return self.exec(h["b"], fr)
                    finally:
                        self.inflight.pop()
            raise

    def catches(self, t, e):
        t = t.noref()
        v = e.v.v if isinstance(e.v, Cell) else e.v
        if isinstance(v, LibExc):
            return v.isa(t.n)
        if isinstance(v, Rec):
            if t.rec in self.p.bases(v.rid):
                return True
            names = [self.p.recs.get(b, {}).get("n", b) for b in self.p.bases(v.rid)]
            return t.n in [strip_ns(x) for x in names] or t.n == "std::exception" and any(x.startswith("std::") for x in names)
        return True

    # ---- expressions
    def ev(self, e):
        if e is None:
            return None
        self.steps += 1
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            raise Unsupported("expression %s (%s) at %s" % (e["k"], e.get("n"), self.here(e)))
        return m(e)

    def rv(self, e):
        v = self.ev(e)
        if isinstance(v, Cell):
            return self.read(v, e)
        return v

    def e_lit(self, e):
        v = e.get("v")
        if v is None:
            v = int(e["vs"])
        return int(v)

    def e_flit(self, e):
        try:
            return red(Fraction(float(e["v"])))
        except (ValueError, OverflowError):
            return FSpecial(e["v"])

    def e_str(self, e):
        c = e.get("_c")
        if c is None:
            c = e["_c"] = Cell(CStr(bytes.fromhex(e["h"])))
        return c

    def e_nullptr(self, e):
        return NULL

    def e_zero(self, e):
        return self.default_value(e["t"])

    def e_this(self, e):
        t = self.frames[-1].this
        if t is None:
            raise Unsupported("this")
        return t

    def e_ref(self, e):
        fr = self.frames[-1]
        i = e["id"]
        c = fr.vars.get(i)
        if c is not None:
            return c
        if fr.cap is not None:
            x = fr.cap["cap"].get(i)
            if x is not None:
                return x[0]
        c = self.statics.get(i)
        if c is not None:
            return c
        if "cv" in e:
            return Cell(int(e["cv"]), e["t"])
        if e.get("g"):
            return self.global_var(e)
        raise Unsupported("variable %s at %s" % (e["n"], self.here(e)))

    def global_var(self, e):
        i = e["id"]
        h = self.lib.GLOBALS.get(strip_ns(e["n"]))
        v = self.p.vars.get(i)
        if v is not None and v.get("cv") is not None and "init" not in v:
            c = Cell(int(v["cv"]), v["t"])
            self.statics[i] = c
            return c
        if v is None or (not v.get("repo") and "init" not in v):
            if h is not None:
                c = Cell(h(self, e), e["t"], e["n"])
                self.statics[i] = c
                return c
            raise Unsupported("global %s" % e["n"])
        c = Cell(UNINIT, v["t"], v["n"])
        self.statics[i] = c
        if v.get("init") is not None:
            fr = Frame({"n": "(initialiser of %s)" % v["n"], "f": v.get("f", ""), "l": v.get("l")})
            self.frames.append(fr)
            try:
                c.v = self.init_value(v["init"], v["t"], fr)
            finally:
                self.frames.pop()
        else:
            c.v = self.default_value(v["t"])
        return c

    def e_fn(self, e):
        return FnV(e["fn"])

    def obj_of(self, e, arrow):
        """Cell of the object denoted by a member access base."""
        v = self.ev(e)
        if arrow:
            if isinstance(v, Cell):
                v = self.read(v, e)
            return self.deref(v, e)
        if not isinstance(v, Cell):
            v = Cell(v)
        return v

    def deref(self, v, node):
        if isinstance(v, Ptr):
            if v.c.dead:
                self.ub("dereference of a dangling pointer", node)
            return v.c
        if v is NULL:
            self.ub("null pointer dereference", node)
        if isinstance(v, APtr):
            return v.o.at(self, v.i, self.here(node))
        if isinstance(v, Cell):
            return v
        if isinstance(v, FnV):
            return Cell(v)
        if isinstance(v, StdObj) and hasattr(v, "op_deref"):
            return v.op_deref(self, [], self.here(node))
        if v is UNINIT:
            self.ub("dereference of an uninitialised pointer", node)
        raise Unsupported("dereference of %r at %s" % (v, self.here(node)))

    def e_mem(self, e):
        c = self.obj_of(e["b"], e.get("ar"))
        o = c.v
        if c.dead or (isinstance(o, Rec) and o.dead):
            self.ub("access to a destroyed object", e)
        if isinstance(o, Rec):
            x = o.f.get((e["rec"], e["n"]))
            if x is None:
                x = o.get(e["n"])
                if x is None:
                    raise Unsupported("field %s of %s" % (e["n"], o.rid))
            return x.c if isinstance(x, RefField) else x
        if isinstance(o, StdObj):
            x = o.field(self, e["n"]) if hasattr(o, "field") else None
            if x is not None:
                return x
        raise Unsupported("member %s of %r at %s" % (e["n"], o, self.here(e)))

    def e_idx(self, e):
        b = self.ev(e["b"])
        i = self.rv(e["i"])
        if isinstance(b, Cell):
            b = b.v
        if isinstance(b, (Arr, CStr)):
            return b.at(self, i, self.here(e))
        if isinstance(b, APtr):
            return b.o.at(self, self.st.add(b.i, i), self.here(e))
        if isinstance(b, Ptr) and isnum(i) and i == 0:
            return self.deref(b, e)
        if b is NULL:
            self.ub("null pointer dereference", e)
        raise Unsupported("subscript at " + self.here(e))

    def e_temp(self, e):
        v = self.ev(e["e"])
        if isinstance(v, Cell):
            return v
        c = Cell(v, e["t"])
        if isinstance(v, (Rec, StdObj)):
            self.frames[-1].temps.append(c)
        return c

    def e_dinit(self, e):
        return self.ev(e["e"])

    def e_void(self, e):
        v = self.ev(e["e"])
        return None

    def e_stmtexpr(self, e):
        self.exec(e["s"], self.frames[-1])

    def e_typeid(self, e):
        return Cell(("typeid", e.get("of").key if e.get("of") else None))

    def e_cast(self, e):
        ck = e["ck"]
        t = e["t"]
        if ck == "LValueToRValue":
            v = self.ev(e["e"])
            if isinstance(v, Cell):
                ct = v.t
                c, v = v, self.read(v, e)
                if ct is not None and t.int and ct.int and ct is not t and (ct.w, ct.s) != (t.w, t.s) and not isinstance(v, StdObj):
                    if ct.w != t.w:
                        raise Unsupported("access through a pointer to another type at %s" % self.here(e))
                    v = self.fit(v, t, e, conv=True)
            return v
        if ck == "ArrayToPointerDecay":
            c = self.ev(e["e"])
            o = c.v if isinstance(c, Cell) else c
            return APtr(o, 0)
        if ck in ("IntegralCast", "IntegralToBoolean", "FloatingToBoolean", "IntegralToFloating", "FloatingToIntegral",
                  "FloatingCast", "BooleanToSignedIntegral", "PointerToBoolean", "NullToPointer", "MemberPointerToBoolean"):
            v = self.rv(e["e"])
            return self.convert(v, e["e"].get("t"), t, ck, e)
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "BitCast", "NoOp", "LValueBitCast", "FunctionToPointerDecay",
                  "AtomicToNonAtomic", "NonAtomicToAtomic", "UserDefinedConversion", "ConstructorConversion"):
            if ck == "BitCast" and t.k == "p" and t.to.k == "b" and t.to.n in ("char", "const char", "unsigned char", "std::byte"):
                return self.ev(e["e"])
            return self.ev(e["e"])
        if ck == "Dynamic":
            v = self.ev(e["e"])
            return self.dyncast(v, t, e)
        raise Unsupported("cast %s at %s" % (ck, self.here(e)))

    def dyncast(self, v, t, e):
        isref = not (t.k == "p")
        tt = t.to if t.k == "p" else t
        c = v.c if isinstance(v, Ptr) else v if isinstance(v, Cell) else None
        if v is NULL:
            return NULL
        if c is None:
            raise Unsupported("dynamic_cast")
        o = c.v
        if isinstance(o, PyObj):
            ok = o.isa(self, tt.rec) if hasattr(o, "isa") else None
            if ok is None:
                raise Unsupported("dynamic_cast of a modelled object")
        elif isinstance(o, Rec):
            ok = tt.rec in self.p.bases(o.rid)
        else:
            raise Unsupported("dynamic_cast")
        if ok:
            return v
        if isref:
            self.throw("std::bad_cast", "", e)
        return NULL

    def convert(self, v, src, t, ck, node):
        st = self.st
        if ck == "NullToPointer":
            return NULL
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return 1 if self.truth(v, node) else 0
        if t.isbool or ck in ("IntegralToBoolean", "FloatingToBoolean"):
            if isnum(v):
                return 1 if v != 0 else 0
            if isinstance(v, FSpecial):
                return 1
            if isinstance(v, TF):
                return TF(v.s, tuple(None if x is None else int(x != 0) for x in v.tab))
            return 1 if st.truth(v, self.here(node)) else 0
        if ck == "IntegralToFloating":
            return v
        if ck == "FloatingCast":
            return v
        if ck == "FloatingToIntegral":
            return self.float_to_int(v, t, node)
        return self.fit(v, t, node, conv=True)

    def float_to_int(self, v, t, node):
        st = self.st
        if isinstance(v, FSpecial):
            self.ub("conversion of %s to an integer" % v.n, node)
        lo, hi = t.range()
        v = st.simp(v)
        if isnum(v):
            r = int(v)
            if not lo <= r <= hi:
                self.ub("conversion of a floating value outside the range of %s" % t.n, node)
            return r
        for s in st.syms(v):
            if st.nan.get(s):
                self.ub("conversion of a possible NaN to an integer", node)
        l, h = st.bounds(v)
        if (h is None or int(h) > hi) and st.cmp(">=", v, hi + 1, "float range@%s" % self.here(node)) or \
                (l is None or int(l) < lo) and st.cmp("<=", v, lo - 1, "float range@%s" % self.here(node)):
            self.ub("conversion of a floating value outside the range of %s" % t.n, node)
        l, h = st.bounds(v)
        l, h = max(lo, l if l is not None else lo), min(hi, h if h is not None else hi)
        if all(getattr(s, "real", False) is False for s in st.syms(v)) and all(isinstance(c, int) for c in (v.d.values() if isinstance(v, Poly) else (1,))):
            return v
        return st.opq("trunc", (v,), t, int(l), int(h))

    def fit(self, v, t, node, conv=False):
        """Brings an ideal integer result into type t (wrap, or UB for signed arithmetic)."""
        if not t.isint:
            return v
        if isinstance(v, (Ptr, APtr, NullT, FnV, FSpecial)) or v is None:
            return v
        if v is UNINIT:
            self.ub("use of an uninitialised value", node)
        lo, hi = t.range()
        w = t.w or 8
        if t.isbool:
            return int(v != 0) if isnum(v) else v
        if isnum(v):
            if lo <= v <= hi:
                return v
            if not conv and t.s:
                self.ub("signed integer overflow in %s" % t.n, node)
            v &= (1 << w) - 1
            if t.s and v >> (w - 1):
                v -= 1 << w
            return v
        if isinstance(v, TF):
            if all(x is None or lo <= x <= hi for x in v.tab):
                return v
            m = self.st.dom[v.s]
            if not conv and t.s:
                if self.st.tsplit(v, lambda x: not lo <= x <= hi, "overflow"):
                    self.ub("signed integer overflow in %s" % t.n, node)
                return v

            def wr(x):
                if x is None:
                    return None
                x &= (1 << w) - 1
                return x - (1 << w) if t.s and x >> (w - 1) else x
            return TF(v.s, tuple(wr(x) for x in v.tab))
        l, h = self.st.bounds(v)
        if l is not None and h is not None and l >= lo and h <= hi:
            return v
        if not conv and t.s:
            if (h is None or h > hi) and self.st.cmp(">", v, hi, "overflow@%s" % self.here(node)):
                self.ub("signed integer overflow in %s" % t.n, node)
            if (l is None or l < lo) and self.st.cmp("<", v, lo, "overflow@%s" % self.here(node)):
                self.ub("signed integer overflow in %s" % t.n, node)
            return v
        if not conv or True:
            if (h is None or h > hi) and self.st.cmp(">", v, hi, "wrap@%s" % self.here(node)):
                return self.wrap(v, t)
            if (l is None or l < lo) and self.st.cmp("<", v, lo, "wrap@%s" % self.here(node)):
                return self.wrap(v, t)
            return v

    def wrap(self, v, t):
        w = t.w
        l, h = self.st.bounds(v)
        lo, hi = t.range()
        # within one period: shift back
        for k in (1, -1):
            if l is not None and h is not None and l + k * (1 << w) >= lo and h + k * (1 << w) <= hi:
                return self.st.add(v, k * (1 << w))
        p = self.parts(v, w)
        if p is not None:
            if t.s and self.st.cmp(">", p[1], hi, "sign"):
                return self.st.sub(p[1], 1 << w)
            return self.st.simp(p[1])
        return self.st.opq("wrap", (v,), t)

    def parts(self, v, k):
        """(m, r) with v == m + r, m a multiple of 2**k and 0 <= r < 2**k; None when not known."""
        st = self.st
        v = st.simp(v)
        b = 1 << k
        if isnum(v):
            v = int(v)
            return v - v % b, v % b
        if not isinstance(v, Poly) or not all(isinstance(c, int) for c in v.d.values()):
            return None
        m = {x: c for x, c in v.d.items() if x != () and c % b == 0}
        r = {x: c for x, c in v.d.items() if x == () or c % b != 0}
        m, r = st.unpoly(Poly(m)), st.unpoly(Poly(r))
        lo, hi = st.bounds(r)
        if lo is None or hi is None:
            return None
        j = int(lo) // b
        n = int(hi) // b - j
        if n > 2:
            return None
        while n > 0 and not st.cmp("<", r, (j + 1) * b, "carry"):
            j += 1
            n -= 1
        return st.add(m, j * b), st.sub(r, j * b)

    def e_un(self, e):
        op = e["op"]
        st = self.st
        if op == "&":
            v = self.ev(e["e"])
            if isinstance(v, (FnV, MemFn)):
                return v
            if not isinstance(v, Cell):
                raise Unsupported("address of a value")
            return Ptr(v)
        if op == "*":
            v = self.rv(e["e"])
            if isinstance(v, FnV):
                return v
            return self.deref(v, e)
        if op in ("++", "--"):
            c = self.ev(e["e"])
            old = self.read(c, e)
            d = 1 if op == "++" else -1
            if isinstance(old, APtr):
                new = APtr(old.o, st.add(old.i, d))
            elif isinstance(old, StdObj):
                raise Unsupported("++ on library object")
            else:
                new = self.fit(st.add(old, d), e["t"], e)
            self.write(c, new, e)
            return old if e.get("post") else c
        v = self.rv(e["e"])
        if op == "!":
            if isinstance(v, TF):
                return TF(v.s, tuple(None if x is None else int(x == 0) for x in v.tab))
            return 0 if self.truth(v, e) else 1
        if op == "-":
            if isinstance(v, FSpecial):
                return FSpecial({"inf": "-inf", "-inf": "inf"}.get(v.n, v.n))
            return self.fit(st.neg(v), e["t"], e)
        if op == "~":
            if isnum(v):
                return self.fit(~v, e["t"], e, conv=True)
            return self.fit(st.sub(st.neg(v), 1), e["t"], e, conv=True)
        raise Unsupported("unary " + op)

    def e_bin(self, e):
        op = e["op"]
        if op in ("&&", "||"):
            a = self.rv(e["a"])
            a = self.st.simp(a) if isinstance(a, (TF, Poly)) else a
            if isinstance(a, TF) and self.pure(e["b"]):
                r = self.joined(op, a, e["b"])
                if r is not None:
                    return r
            if self.truth(a, e) == (op == "||"):
                return int(op == "||")
            b = self.rv(e["b"])
            b = self.st.simp(b) if isinstance(b, (TF, Poly)) else b
            if isinstance(b, TF):
                return TF(b.s, tuple(None if x is None else int(x != 0) for x in b.tab))
            return 1 if self.truth(b, e) else 0
        if op == "=":
            # right operand first
            v = self.ev(e["b"])
            if isinstance(v, Cell):
                v = self.read(v, e)
            c = self.ev(e["a"])
            if isinstance(c.v, Rec) and isinstance(v, Rec):
                self.assignrec(c.v, v, True)
            else:
                self.write(c, v, e)
            return c
        if op == ",":
            v = self.ev(e["a"])
            if isinstance(v, (Rec, StdObj)):
                self.destroy_val(v)
            return self.ev(e["b"])
        a = self.rv(e["a"])
        b = self.rv(e["b"])
        return self.binop(op, a, b, e["t"], e, e["a"].get("t"))

    def pure(self, e):
        """No side effects and no temporaries with lifetime: evaluating it early cannot be observed."""
        r = e.get("_pure")
        if r is None:
            r = e["_pure"] = self._pure(e)
        return r

    def _pure(self, e):
        k = e["k"]
        if k in ("lit", "flit", "ref", "this", "nullptr"):
            return True
        if k == "mem":
            return "e" not in e or not isinstance(e["e"], dict) or self.pure(e["e"])
        if k == "un":
            return e["op"] not in ("++", "--") and self.pure(e["e"])
        if k == "bin":
            return e["op"] not in ("=", ",") and self.pure(e["a"]) and self.pure(e["b"])
        if k == "cast":
            return self.pure(e["e"])
        if k == "call":
            fn = e.get("fn")
            if not fn or not e["t"].isint:
                return False
            if isinstance(e.get("obj"), dict) and not self.pure(e["obj"]):
                return False
            if not all(isinstance(a, dict) and self.pure(a) for a in e["as"]):
                return False
            if fn.get("const"):
                return True
            if "cls" in fn and fn["cls"] is not None:
                return False
            return fn["n"].replace("std::", "") in ("isalpha", "isdigit", "isalnum", "isspace", "isxdigit", "isupper", "islower", "ispunct",
                                                     "iscntrl", "isprint", "tolower", "toupper") or \
                (fn.get("repo") and all(a["t"].isint for a in e["as"]))
        return False

    def joined(self, op, a, eb):
        """a op b as one table when both depend on the same character only (no case split)."""
        fr = self.frames[-1]
        mark = len(fr.temps)
        fr0, n0, t0 = len(self.frames), fr.loc, len(self.st.trail)
        self.st.nofork += 1
        try:
            b = self.rv(eb)
            b = self.st.simp(b) if isinstance(b, (TF, Poly)) else b
        except (NoFork, Unsupported, UBEvent, CxxThrow, PathEnd):
            del self.frames[fr0:]
            del fr.temps[mark:]
            return None
        finally:
            self.st.nofork -= 1
        if isnum(b):
            b = TF(a.s, (b,) * 256)
        if not isinstance(b, TF) or b.s is not a.s:
            del fr.temps[mark:]
            return None
        m = self.st.dom[a.s]
        tab = []
        for i in range(256):
            if not m >> i & 1:
                tab.append(None)
                continue
            x, y = a.tab[i], b.tab[i]
            if x is None or y is None:
                return None
            tab.append(int(bool(x) and bool(y)) if op == "&&" else int(bool(x) or bool(y)))
        return self.st.simp(TF(a.s, tuple(tab)))

    def e_cas(self, e):
        b = self.rv(e["b"])
        c = self.ev(e["a"])
        a = self.read(c, e)
        ct = e.get("ct") or e["t"]
        v = self.binop(e["op"], a, b, ct, e, ct)
        if e["t"].isint and ct.flt:
            v = self.float_to_int(v, e["t"], e)
        elif e["t"].isint and not (isinstance(v, (APtr, Ptr))):
            v = self.fit(v, e["t"], e, conv=True)
        self.write(c, v, e)
        return c

    def binop(self, op, a, b, t, node, ta=None):
        st = self.st
        if a is UNINIT or b is UNINIT:
            self.ub("use of an uninitialised value", node)
        if op in SIGNS:
            return self.compare(op, a, b, node)
        if isinstance(a, (Ptr, APtr)) or isinstance(b, (Ptr, APtr)):
            if op == "+":
                if isinstance(b, APtr):
                    a, b = b, a
                if isinstance(a, APtr):
                    return APtr(a.o, st.add(a.i, b))
            if op == "-" and isinstance(a, APtr):
                if isinstance(b, APtr):
                    if a.o is not b.o:
                        raise Unsupported("pointer difference")
                    return st.sub(a.i, b.i)
                return APtr(a.o, st.sub(a.i, b))
            raise Unsupported("pointer arithmetic at " + self.here(node))
        if isinstance(a, FSpecial) or isinstance(b, FSpecial):
            return fspecial_op(st, op, a, b)
        if op == "+":
            return self.fit(st.add(a, b), t, node)
        if op == "-":
            return self.fit(st.sub(a, b), t, node)
        if op == "*":
            return self.fit(st.mul(a, b), t, node)
        if op == "/":
            if t.flt:
                b = st.simp(b)
                if isnum(b) and b == 0:
                    return FSpecial("x/0")
                return st.divreal(a, b)
            return self.intdiv(a, b, t, node)[0]
        if op == "%":
            return self.intdiv(a, b, t, node)[1]
        if op in ("<<", ">>"):
            return self.shift(op, a, b, t, node)
        if op in ("&", "|", "^"):
            return self.bitop(op, a, b, t, node)
        raise Unsupported("binary " + op)

    def intdiv(self, a, b, t, node):
        st = self.st
        a, b = st.simp(a), st.simp(b)
        if st.cmp("==", b, 0, "div0@%s" % self.here(node)):
            self.ub("integer division by zero", node)
        lo, hi = t.range()
        if t.s:
            bl, bh = st.bounds(b)
            al, ah = st.bounds(a)
            if (bl is None or bl <= -1) and (bh is None or bh >= -1) and (al is None or al <= lo):
                if st.cmp("==", b, -1, "div-1@%s" % self.here(node)) and st.cmp("==", a, lo, "divmin@%s" % self.here(node)):
                    self.ub("integer division overflow (minimum divided by -1)", node)
        a, b = st.simp(a), st.simp(b)
        if isnum(a) and isnum(b):
            q = abs(a) // abs(b)
            if (a < 0) != (b < 0):
                q = -q
            return q, a - q * b
        def tr(x, y):
            q = abs(x) // abs(y)
            return -q if (x < 0) != (y < 0) else q
        if isinstance(a, TF) and isnum(b):
            q = TF(a.s, tuple(None if x is None else tr(x, b) for x in a.tab))
            return q, st.sub(a, st.mul(q, b))
        if isinstance(b, TF):
            b = st.enum(b, "divisor")
            return self.intdiv(a, b, t, node)
        al, ah = st.bounds(a)
        ql = qh = rl = rh = None
        if isnum(b):
            c = [tr(x, b) for x in (al, ah) if x is not None]
            if al is not None and ah is not None:
                ql, qh = min(c), max(c)
            m = abs(b) - 1
            rl = 0 if (al is not None and al >= 0) else -m
            rh = m if (ah is None or ah > 0) else 0
            # exact division of a polynomial whose coefficients are all multiples
            if isinstance(a, Poly) and all(isinstance(c, int) and c % b == 0 for c in a.d.values()):
                return st.mul(a, Fraction(1, b)), 0
        return st.opq("div", (a, b), t, ql, qh), st.opq("mod", (a, b), t, rl, rh)

    def shift(self, op, a, b, t, node):
        st = self.st
        w = t.w
        bl, bh = st.bounds(b)
        if (bl is None or bl < 0) and st.cmp("<", b, 0, "shift<0@%s" % self.here(node)):
            self.ub("shift by a negative amount", node)
        if (bh is None or bh >= w) and st.cmp(">=", b, w, "shift>=w@%s" % self.here(node)):
            self.ub("shift by at least the width of the type", node)
        a, b = st.simp(a), st.simp(b)
        if isinstance(b, TF):
            b = st.enum(b, "shift amount")
        if isnum(b):
            if op == "<<":
                return self.fit(st.mul(a, 1 << b), t, node, conv=True)  # C++20: modular
            if isnum(a):
                return a >> b
            if isinstance(a, TF):
                return TF(a.s, tuple(None if x is None else x >> b for x in a.tab))
            p = self.parts(a, b)
            if p is not None:
                return st.mul(p[0], Fraction(1, 1 << b))
            al, ah = st.bounds(a)
            return st.opq("shr", (a, b), t, None if al is None else al >> b, None if ah is None else ah >> b)
        return st.opq("shl" if op == "<<" else "shr", (a, b), t)

    def bitop(self, op, a, b, t, node):
        st = self.st
        a, b = st.simp(a), st.simp(b)
        f = {"&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}[op]
        if isnum(a) and isnum(b):
            return f(int(a), int(b))
        if isinstance(a, TF) and isnum(b):
            return TF(a.s, tuple(None if x is None else f(x, b) for x in a.tab))
        if isinstance(b, TF) and isnum(a):
            return self.bitop(op, b, a, t, node)
        if isinstance(a, TF) and isinstance(b, TF) and a.s is b.s:
            return TF(a.s, tuple(None if x is None or y is None else f(x, y) for x, y in zip(a.tab, b.tab)))
        if t.isbool and op in "&|":
            x, y = self.truth(a, node), self.truth(b, node)
            return int(x and y if op == "&" else x or y)
        lo = hi = None
        if op == "&" and isnum(b):
            if b >= 0:
                lo, hi = 0, b
                if (b & (b + 1)) == 0:
                    p = self.parts(a, b.bit_length())
                    if p is not None:
                        return st.simp(p[1])
                elif not t.s and b | ((b & -b) - 1) == (1 << t.w) - 1:
                    p = self.parts(a, (b & -b).bit_length() - 1)
                    if p is not None:
                        return st.simp(p[0])
                al, ah = st.bounds(a)
                if al is not None and ah is not None and al >= 0 and ah <= b and (b & (b + 1)) == 0:
                    return a
        elif op == "&" and isnum(a):
            return self.bitop(op, b, a, t, node)
        if op in "|^" and isnum(b) and b == 0:
            return a
        if op in "|^" and isnum(a) and a == 0:
            return b
        if op == "|":
            # disjoint bit fields add up
            for x, y in ((a, b), (b, a)):
                yl, yh = st.bounds(y)
                if yl is not None and yh is not None and yl >= 0:
                    m = 1 << yh.bit_length()
                    if self.multiple(x, m):
                        return self.st.add(x, y)
        return st.opq(op, (a, b), t, lo, hi)

    def multiple(self, v, m):
        v = self.st.simp(v)
        if isnum(v):
            return v % m == 0
        if isinstance(v, Poly):
            return all(isinstance(c, int) and c % m == 0 for c in v.d.values())
        return False

    def compare(self, op, a, b, node):
        st = self.st
        if isinstance(a, (Ptr, APtr, NullT, FnV)) or isinstance(b, (Ptr, APtr, NullT, FnV)):
            if isinstance(a, APtr) and isinstance(b, APtr) and a.o is b.o:
                return int(st.cmp(op, a.i, b.i, self.here(node)))
            if op in ("==", "!="):
                if isinstance(a, Ptr) and isinstance(b, Ptr):
                    eq = a.c is b.c or (isinstance(a.c.v, (Rec, StdObj)) and a.c.v is b.c.v)
                elif isinstance(a, APtr) and isinstance(b, APtr):
                    eq = False
                elif isinstance(a, FnV) and isinstance(b, FnV):
                    eq = a.info["id"] == b.info["id"]
                else:
                    eq = a is b
                return int(eq == (op == "=="))
            if isinstance(a, NullT) and isinstance(b, NullT):
                return int(op in ("<=", ">="))
            raise Unsupported("pointer comparison")
        # comparison of one-character values stays a table (no choice yet)
        if isinstance(a, TF) and isnum(b):
            s = SIGNS[op]
            return st.simp(TF(a.s, tuple(None if x is None else int(((x > b) - (x < b)) in s) for x in a.tab)))
        if isinstance(b, TF) and isnum(a):
            return self.compare({"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), b, a, node)
        return int(st.cmp(op, a, b, "%s@%s" % (op, self.here(node))))

    def e_cond(self, e):
        if self.truth(self.rv(e["c"]), e):
            v = self.ev(e["a"])
        else:
            v = self.ev(e["b"])
        if isinstance(v, Cell) and not e.get("lv"):
            v = v.v
        return v

    # -- calls and constructors
    def e_call(self, e):
        info = e.get("fn")
        st = self.st
        if info is None:
            ce = self.ev(e["ce"])
            if isinstance(ce, Cell):
                ce = ce.v
            args = [self.ev(a) for a in e["as"]]
            if isinstance(ce, tuple) and ce and ce[0] == "bound":
                return self.call_info(ce[1], ce[2], args, e)
            return self.call_value(ce, args, e)
        if "obj" in e:
            oc = self.obj_of(e["obj"], e.get("ar"))
            if isinstance(oc.v, Rec) and (oc.dead or oc.v.dead) and "~" not in info["n"]:
                self.ub("member call on a destroyed object", e)
            args = [self.ev(a) for a in e["as"]]
            if "oc" in e:
                pass
            o = oc.v
            if isinstance(o, Rec) and self.p.recs.get(o.rid, {}).get("lambda"):
                return self.call_lambda(o, args, e)
            return self.call_info(info, Ptr(oc), args, e, virt=not e.get("q"))
        if "oc" in e and info.get("cls") is not None and not info.get("st"):
            # member operator: first argument is the object; assignment evaluates right first
            if e["oc"] == "=" or (e["oc"].endswith("=") and e["oc"] not in ("==", "!=", "<=", ">=")):
                rest = [self.ev(a) for a in e["as"][1:]]
                oc = self.ev(e["as"][0])
            else:
                oc = self.ev(e["as"][0])
                rest = [self.ev(a) for a in e["as"][1:]]
            if not isinstance(oc, Cell):
                oc = Cell(oc)
            o = oc.v
            if isinstance(o, Rec) and self.p.recs.get(o.rid, {}).get("lambda"):
                f = self.p.funcs.get(info["id"])
                if f is not None:
                    return self.invoke(f, o.opt["this"] if o.opt and o.opt.get("this") else None, rest, e, cap=o.opt)
                return self.call_lambda(o, rest, e)
            if isinstance(o, Rec) and (oc.dead or o.dead):
                self.ub("operator on a destroyed object", e)
            return self.call_info(info, Ptr(oc), rest, e)
        args = [self.ev(a) for a in e["as"]]
        return self.call_info(info, None, args, e)

    def e_memfn(self, e):
        if "fn" not in e:
            raise Unsupported("member function reference")
        oc = self.obj_of(e["b"], e.get("ar"))
        return ("bound", e["fn"], Ptr(oc))

    def e_ctor(self, e):
        t = e["t"]
        info = e["fn"]
        if t.k == "a":
            if e["as"]:
                raise Unsupported("array constructor")
            et = t.to
            return Arr([Cell(self.default_value(et), et) for _ in range(t.sz or 0)])
        rec = self.p.recs.get(t.rec)
        if rec and rec.get("repo"):
            if e.get("cc") or e.get("mc"):
                a = self.ev(e["as"][0])
                v = a.v if isinstance(a, Cell) else a
                if not isinstance(a, Cell):
                    return v
                if isinstance(a, Cell) and a.dead:
                    self.ub("copy of an object after its lifetime", e)
                if isinstance(v, Rec) and v.rid != t.rec:
                    v = self.slice(v, t.rec)
                return self.moveval(v) if e.get("mc") else self.copyval(v)
            f = self.p.funcs.get(info["id"])
            if f is None or (f.get("dflt") and "inits" not in f):
                if e.get("dc") or not e["as"]:
                    r = Rec(t.rec)
                    for (rr, fd) in self.p.fields(t.rec):
                        c = Cell(UNINIT, fd["t"], fd["n"])
                        c.own = r
                        r.f[(rr, fd["n"])] = c
                        if "init" in fd:
                            c.v = self.rvalue_in(r, fd["init"])
                        elif fd["t"].k == "o":
                            c.v = self.default_value(fd["t"])
                        elif e.get("zi"):
                            c.v = self.default_value(fd["t"])
                    return r
                raise Unsupported("constructor without body %s" % info["n"])
            args = [self.ev(a) for a in e["as"]]
            h = self.hooks.get(f["n"])
            r = self.construct(t.rec, f, args, e)
            return r
        if e.get("cc") or e.get("mc"):
            a = self.ev(e["as"][0])
            v = a.v if isinstance(a, Cell) else a
            if not isinstance(a, Cell):
                return v
            if a.dead:
                self.ub("copy of an object after its lifetime", e)
            return self.moveval(v) if e.get("mc") else self.copyval(v)
        args = [self.ev(a) for a in e["as"]]
        return self.lib.construct(self, t, e, args)

    def slice(self, v, rid):
        r = Rec(rid)
        keep = set(self.p.bases(rid))
        for k, c in v.f.items():
            if k[0] in keep:
                r.f[k] = c
        return r

    def e_init(self, e):
        t = e["t"]
        if t.k == "a":
            items = [Cell(self.elem(x), t.to) for x in e["as"]]
            if t.sz is not None:
                while len(items) < t.sz:
                    f = e.get("filler")
                    items.append(Cell(self.elem(f) if f else self.default_value(t.to), t.to))
            return Arr(items)
        if t.k == "o":
            rec = self.p.recs.get(t.rec)
            if rec and rec.get("repo"):
                r = Rec(t.rec)
                fs = self.p.fields(t.rec)
                for (rr, fd) in fs:
                    c = Cell(UNINIT, fd["t"], fd["n"])
                    c.own = r
                    r.f[(rr, fd["n"])] = c
                i = 0
                own = [(rr, fd) for rr, fd in fs]
                for x in e["as"]:
                    if i >= len(own):
                        break
                    rr, fd = own[i]
                    i += 1
                    v = self.ev(x)
                    if fd["t"].isref:
                        r.f[(rr, fd["n"])] = RefField(v, fd["t"], fd["n"])
                    else:
                        r.f[(rr, fd["n"])].v = self.toval(v) if not isinstance(v, Cell) else self.copyval(v.v)
                return r
            return self.lib.aggregate(self, t, e)
        if e["as"]:
            return self.ev(e["as"][0])
        return self.default_value(t)

    def elem(self, x):
        v = self.ev(x)
        if isinstance(v, Cell):
            if isinstance(v.v, CStr):
                return Arr([Cell(SIGNED[b]) for b in v.v.b] + [Cell(0)])
            return self.copyval(v.v)
        return v

    def e_ilist(self, e):
        v = self.ev(e["e"])
        o = v.v if isinstance(v, Cell) else v
        return self.lib.InitList(o.items)

    def e_lambda(self, e):
        r = Rec(e["rec"])
        cap = {}
        this = None
        for c in e["cs"]:
            if c.get("this"):
                v = self.ev(c["e"])
                if isinstance(v, Cell):
                    v = v.v
                if c.get("val"):
                    this = Ptr(Cell(v))
                else:
                    this = v if isinstance(v, Ptr) else Ptr(Cell(v))
                continue
            v = self.ev(c["e"])
            if c.get("ref"):
                cap[c["id"]] = (v if isinstance(v, Cell) else Cell(v), True)
            else:
                if isinstance(v, Cell):
                    v = self.copyval(v.v)
                cap[c["id"]] = (Cell(v, None, c.get("n")), False)
        r.opt = {"cap": cap, "this": this}
        return r

    def e_new(self, e):
        t = e["at"]
        if e.get("pl"):
            pl = self.rv(e["pl"][0]) if len(e["pl"]) == 1 else None
            if not isinstance(pl, Ptr) or e.get("arr"):
                raise Unsupported("placement new")
            v = self.toval(self.ev(e["init"])) if "init" in e else self.default_object(t) if t.k == "o" else UNINIT
            if pl.c.dead:
                self.ub("construction in storage that was released", e)
            pl.c.v = v
            return pl
        if e.get("arr"):
            raise Unsupported("new[]")
        c = Cell(UNINIT, t, "new")
        if "init" in e:
            c.v = self.toval(self.ev(e["init"]))
        elif t.k == "o":
            c.v = self.default_object(t)
        self.lib.on_new(self, c)
        if self.heap is not None:
            self.heap.append((c, self.site_of_frame(), t))
        return Ptr(c)

    def site_of_frame(self):
        for fr in reversed(self.frames):
            f = fr.fn
            if f.get("f", "").startswith(prog.REPO):
                return "%s: %s" % (f["f"].replace(prog.REPO.rstrip("/") + "/", ""), f["n"])
        return None

    def e_delete(self, e):
        v = self.rv(e["e"])
        if v is NULL:
            return None
        c = v.c
        if c.dead:
            self.ub("object deleted twice", e)
        self.destroy_cell(c)
        return None

    def e_throw(self, e):
        if "e" not in e:
            if not self.inflight:
                self.ub("rethrow without exception", e)
            raise self.inflight[-1]
        v = self.ev(e["e"])
        hook = self.hooks.get("#throw")
        if hook is not None:
            hook(self, v, e)
        x = CxxThrow(v, e["e"].get("t"), self.here(e))
        x.stack = tuple(f.fn for f in self.frames)
        raise x


class RefField:
    """Reference member: access yields the referred cell."""
    __slots__ = ("c", "t", "nm", "own")

    def __init__(self, c, t, nm):
        self.c = c if isinstance(c, Cell) else Cell(c)
        self.t = t
        self.nm = nm
        self.own = None

    @property
    def v(self):
        return self.c.v

    @property
    def dead(self):
        return False


EXC = {
    "std::exception": None, "std::logic_error": "std::exception", "std::runtime_error": "std::exception",
    "std::out_of_range": "std::logic_error", "std::invalid_argument": "std::logic_error", "std::length_error": "std::logic_error",
    "std::range_error": "std::runtime_error", "std::overflow_error": "std::runtime_error", "std::bad_variant_access": "std::exception", "std::bad_weak_ptr": "std::exception",
    "std::bad_optional_access": "std::exception", "std::bad_function_call": "std::exception", "std::bad_cast": "std::exception",
    "std::system_error": "std::runtime_error", "std::bad_alloc": "std::exception", "std::domain_error": "std::logic_error",
    "std::regex_error": "std::runtime_error", "std::underflow_error": "std::runtime_error",
}


class LibExc(StdObj):
    def __init__(self, n, what=None):
        self.n = n
        self.what = what

    def isa(self, n):
        x = self.n
        while x is not None:
            if x == n:
                return True
            x = EXC.get(x)
        return False

    def copy(self, I):
        return self
